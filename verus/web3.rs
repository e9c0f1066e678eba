// ---- what the JSON-RPC types and methods are made of ----
impl FromSpecImpl<usize> for U256 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(x: usize) -> U256 { u256(x as nat) } }
impl From<usize> for U256 { #[verifier::external_body] fn from(x: usize) -> U256 { unimplemented!() } }
impl FromSpecImpl<u32> for U256 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(x: u32) -> U256 { u256(x as nat) } }
impl From<u32> for U256 { #[verifier::external_body] fn from(x: u32) -> U256 { unimplemented!() } }
impl FromSpecImpl<U64> for U256 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(x: U64) -> U256 { u256(x@) } }
impl From<U64> for U256 { #[verifier::external_body] fn from(x: U64) -> U256 { unimplemented!() } }
#[verifier::external_body] pub fn be_number(x: &[u8]) -> (r: U256) requires x@.len() <= 32 ensures r@ == be(x@) { unimplemented!() }
impl FromSpecImpl<usize> for U64 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(x: usize) -> U64 { u64_(x as nat) } }
impl From<usize> for U64 { #[verifier::external_body] fn from(x: usize) -> U64 { unimplemented!() } }
impl FromSpecImpl<u32> for U64 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(x: u32) -> U64 { u64_(x as nat) } }
impl From<u32> for U64 { #[verifier::external_body] fn from(x: u32) -> U64 { unimplemented!() } }
/// the last twenty bytes
pub open spec fn low20(h: H256) -> H160 { h160(h@.subrange(12, 32)) }
impl FromSpecImpl<H256> for H160 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(x: H256) -> H160 { low20(x) } }
impl From<H256> for H160 { #[verifier::external_body] fn from(x: H256) -> H160 { unimplemented!() } }
impl AsBytes for &Hex { open spec fn bytes(&self) -> Seq<u8> { (**self).0@ } }
impl Hex {
    #[verifier::external_body] pub fn encode<T: AsBytes>(x: T) -> (r: Hex) ensures r.0@ == x.bytes() { unimplemented!() }
    #[verifier::external_body] pub fn empty() -> (r: Hex) ensures r.0@.len() == 0 { unimplemented!() }
    #[verifier::external_body] pub fn as_bytes(&self) -> (r: Bytes) ensures r == self.0 { unimplemented!() }
}
#[verifier::external_body] pub fn same_<T>(x: &T) -> (r: T) ensures r == *x { unimplemented!() }
#[verifier::external_body] pub fn own_<T>(x: &T) -> (r: T) ensures r == *x { unimplemented!() }
pub struct H64 { pub x: u64 }
#[verifier::external_body] pub fn zero_h256() -> (r: H256) ensures r == h256(Seq::new(32, |i: int| 0u8)) { unimplemented!() }
#[verifier::external_body] pub fn zero_h64() -> (r: H64) ensures r.x == 0 { unimplemented!() }
#[verifier::external_body] pub fn unsigned_sig() -> (r: SignatureComponents) { unimplemented!() }
pub enum Either<L, R> { Left(L), Right(R) }
//@item protocol/src/types/transaction.rs :: const MAX_PRIORITY_FEE_PER_GAS
//@end
//@item protocol/src/types/transaction.rs :: struct SignedTransaction
//@end
pub type MemoryProof = Seq<u8>;
/// the keccak of an empty list of uncles
pub uninterp spec fn no_uncles() -> H256;
#[verifier::external_body] pub fn empty_uncles() -> (r: H256) ensures r == no_uncles() { unimplemented!() }
pub open spec fn bhash(b: Block) -> H256 { keccak(ser(flat(b.header.item()))) }
pub open spec fn succeeded(e: ExitReason) -> bool { e is Succeed }
pub uninterp spec fn extra_bytes(x: Seq<ExtraData>) -> Seq<u8>;
#[verifier::external_body] pub fn encode_extra(x: &Vec<ExtraData>) -> (r: Bytes) ensures r@ == extra_bytes(x@) { unimplemented!() }
impl Header { #[verifier::external_body] pub fn size(&self) -> (r: usize) ensures r == ser(flat(self.item())).len() { unimplemented!() } }
impl Block { #[verifier::external_body] pub fn hash(&self) -> (r: H256) ensures r == bhash(*self) { unimplemented!() } }
impl Receipt {
//@fn protocol/src/types/receipt.rs :: impl Receipt/fn status
//@ ret r
//@ spec
    ensures r@ == (if succeeded(self.ret) { 1nat } else { 0 }),
//@end
}
impl UnverifiedTransaction { #[verifier::external_body] pub fn encode(&self) -> (r: Result<Bytes, ()>) requires tx_enc_ok(*self) ensures r matches Ok(b) && b@ == tx_bytes(*self) { unimplemented!() } }
//@item core/api/src/jsonrpc/web3_types.rs :: enum RichTransactionOrHash
//@end
//@item core/api/src/jsonrpc/web3_types.rs :: struct Web3Transaction
//@end
//@item core/api/src/jsonrpc/web3_types.rs :: struct Web3Receipt
//@end
//@item core/api/src/jsonrpc/web3_types.rs :: struct Web3ReceiptLog
//@end
//@item core/api/src/jsonrpc/web3_types.rs :: struct Web3Block
//@end
//@item core/api/src/jsonrpc/web3_types.rs :: struct Web3Log
//@end
//@item core/api/src/jsonrpc/web3_types.rs :: enum BlockId
//@end
// ---- the transaction's parts ----
pub open spec fn u_gas_price(t: UnsignedTransaction) -> U64 { match t { UnsignedTransaction::Legacy(x) => x.gas_price, UnsignedTransaction::Eip2930(x) => x.gas_price,
    UnsignedTransaction::Eip1559(x) => if x.gas_price@ >= x.max_priority_fee_per_gas@ { x.gas_price } else { x.max_priority_fee_per_gas } } }
pub open spec fn u_gas_limit(t: UnsignedTransaction) -> U64 { match t { UnsignedTransaction::Legacy(x) => x.gas_limit, UnsignedTransaction::Eip2930(x) => x.gas_limit, UnsignedTransaction::Eip1559(x) => x.gas_limit } }
pub open spec fn u_nonce(t: UnsignedTransaction) -> U64 { match t { UnsignedTransaction::Legacy(x) => x.nonce, UnsignedTransaction::Eip2930(x) => x.nonce, UnsignedTransaction::Eip1559(x) => x.nonce } }
pub open spec fn u_value(t: UnsignedTransaction) -> U256 { match t { UnsignedTransaction::Legacy(x) => x.value, UnsignedTransaction::Eip2930(x) => x.value, UnsignedTransaction::Eip1559(x) => x.value } }
pub open spec fn u_data(t: UnsignedTransaction) -> Seq<u8> { match t { UnsignedTransaction::Legacy(x) => x.data@, UnsignedTransaction::Eip2930(x) => x.data@, UnsignedTransaction::Eip1559(x) => x.data@ } }
pub open spec fn u_list(t: UnsignedTransaction) -> Seq<AccessListItem> { match t { UnsignedTransaction::Legacy(x) => Seq::empty(), UnsignedTransaction::Eip2930(x) => x.access_list@, UnsignedTransaction::Eip1559(x) => x.access_list@ } }
pub open spec fn u_to(t: UnsignedTransaction) -> Option<H160> { let a = match t { UnsignedTransaction::Legacy(x) => x.action, UnsignedTransaction::Eip2930(x) => x.action, UnsignedTransaction::Eip1559(x) => x.action };
    match a { TransactionAction::Call(h) => Some(h), TransactionAction::Create => None } }
pub open spec fn u_type(t: UnsignedTransaction) -> u64 { match t { UnsignedTransaction::Legacy(x) => 0, UnsignedTransaction::Eip2930(x) => 1, UnsignedTransaction::Eip1559(x) => 2 } }
pub open spec fn u_priority(t: UnsignedTransaction) -> Option<U64> { match t { UnsignedTransaction::Eip1559(x) => Some(x.max_priority_fee_per_gas), _ => None } }
// ---- what is shown of them ----
pub open spec fn shown_rs(g: SignatureComponents, b: Bytes) -> Either<U256, Hex> { if eth(g) { Either::Left(u256(be(b@))) } else { Either::Right(Hex(b)) } }
/// everything but the place in the chain
pub open spec fn shows_tx(w: Web3Transaction, t: SignedTransaction) -> bool {
    let u = t.transaction.unsigned;
    let g = t.transaction.signature->Some_0;
    &&& w.type_ == Some(u64_(u_type(u) as nat)) && w.hash == t.transaction.hash && w.nonce == u_nonce(u) && w.from == t.sender && w.to == u_to(u) && w.value == u_value(u)
    &&& w.gas == u_gas_limit(u) && w.gas_price == u_gas_price(u) && w.max_priority_fee_per_gas == u_priority(u) && (w.max_fee_per_gas is Some == u_priority(u) is Some)
    &&& w.raw.0@ == tx_bytes(t.transaction) && w.input.0@ == u_data(u) && w.public_key == t.public && (w.access_list matches Some(l) && l@ == u_list(u))
    &&& w.chain_id == (match t.transaction.chain_id { Some(c) => Some(u64_(c as nat)), None => None })
    &&& w.v == u256(v_of(g.standard_v as int, t.transaction.chain_id) as nat) && w.r == shown_rs(g, g.r) && w.s == shown_rs(g, g.s)
}
pub open spec fn placed(w: Web3Transaction, at: Option<(u64, H256, nat)>) -> bool {
    match at { Some(p) => w.block_number == Some(u64_(p.0 as nat)) && w.block_hash == Some(p.1) && w.transaction_index == Some(u64_(p.2)), None => w.block_number is None && w.block_hash is None && w.transaction_index is None }
}
pub open spec fn shows_header(w: Web3Block, b: Block) -> bool {
    let h = b.header;
    &&& w.hash == bhash(b) && w.parent_hash == h.prev_hash && w.sha3_uncles == no_uncles() && w.author == h.proposer && w.miner == h.proposer && w.state_root == h.state_root
    &&& w.transactions_root == h.transactions_root && w.receipts_root == h.receipts_root && w.number == u64_(h.number as nat) && w.gas_used == h.gas_used && w.gas_limit == h.gas_limit
    &&& w.extra_data.0@ == extra_bytes(h.extra_data@) && w.logs_bloom == Some(h.log_bloom) && w.timestamp == u256(h.timestamp as nat) && w.difficulty@ == 1
    &&& w.base_fee_per_gas == h.base_fee_per_gas && w.uncles@.len() == 0 && w.size == Some(u256(ser(flat(h.item())).len())) && w.mix_hash == h256(Seq::new(32, |i: int| 0u8)) && w.nonce.x == 0
}
pub open spec fn hashes_only(w: Seq<RichTransactionOrHash>, h: Seq<H256>) -> bool { w.len() == h.len() && forall|i: int| 0 <= i < w.len() ==> #[trigger] w[i] == RichTransactionOrHash::Hash(h[i]) }
pub open spec fn shows_log(w: Web3ReceiptLog, k: Receipt, i: int) -> bool {
    let l = k.logs@[i];
    &&& w.address == l.address && w.topics@ == l.topics@ && w.data.0@ == l.data@ && w.block_number == u256(k.block_number as nat) && w.block_hash == k.block_hash
    &&& w.transaction_hash == k.tx_hash && w.transaction_index == Some(u256(k.tx_index as nat)) && w.log_index == u256(i as nat) && !w.removed
}
pub open spec fn shows_receipt(w: Web3Receipt, k: Receipt, t: SignedTransaction) -> bool {
    let u = t.transaction.unsigned;
    &&& w.block_number == u256(k.block_number as nat) && w.block_hash == k.block_hash && w.contract_address == (match k.code_address { Some(a) => Some(low20(a)), None => None })
    &&& w.effective_gas_price == u_gas_price(u) && w.from == k.sender && w.gas_used == k.used_gas && w.status@ == (if succeeded(k.ret) { 1nat } else { 0 })
    &&& w.logs_bloom == k.logs_bloom && w.state_root == k.state_root && w.to == u_to(u) && w.transaction_hash == k.tx_hash && w.transaction_index == Some(u256(k.tx_index as nat))
    &&& w.transaction_type == Some(u64_(u_type(u) as nat))
    &&& w.logs@.len() == k.logs@.len() && forall|i: int| 0 <= i < k.logs@.len() ==> shows_log(#[trigger] w.logs@[i], k, i)
}
/// a stored transaction: signed, and with a chain id of 32 bits
pub open spec fn stored_ok(t: SignedTransaction) -> bool {
    &&& tx_enc_ok(t.transaction) && t.transaction.signature is Some && t.transaction.signature->Some_0.standard_v <= 1
    &&& (t.transaction.chain_id matches Some(c) ==> c <= u32::MAX)
}
// ---- logs and filters ----
/// one position: no demand, or a list that has a `null` or the topic
pub open spec fn meets(want: Option<Vec<Option<H256>>>, t: H256) -> bool { want matches Some(l) ==> (l@.contains(None) || l@.contains(Some(t))) }
pub open spec fn wanted(l: Log, address: Seq<H160>, topics: Seq<Option<Vec<Option<H256>>>>) -> bool {
    &&& (address.len() == 0 || address.contains(l.address))
    &&& l.topics@.len() >= topics.len()
    &&& forall|i: int| 0 <= i < topics.len() ==> meets(#[trigger] topics[i], l.topics@[i])
}
pub open spec fn log_out(w: Web3Log, k: Receipt, i: int, index: usize) -> bool {
    let l = k.logs@[i];
    &&& w.address == l.address && w.topics@ == l.topics@ && w.data.0@ == l.data@ && w.block_hash == Some(k.block_hash) && w.block_number == Some(u256(k.block_number as nat))
    &&& w.transaction_hash == Some(k.tx_hash) && w.transaction_index == Some(u256(index as nat)) && w.log_index == Some(u256(i as nat)) && !w.removed
}
/// the positions, below n, of the logs that are wanted
pub open spec fn picks(k: Receipt, n: int, address: Seq<H160>, topics: Seq<Option<Vec<Option<H256>>>>) -> Seq<int> decreases n {
    if n <= 0 { Seq::empty() } else if wanted(k.logs@[n - 1], address, topics) { picks(k, n - 1, address, topics).push(n - 1) } else { picks(k, n - 1, address, topics) }
}
