//@include head.rs
pub mod sh {
use super::*;
//@include num.rs
//@include bytes.rs
//@include rlp.rs
//@include types.rs
//@include tx.rs
//@include web3.rs
}
use sh::*;
// C27, the methods: every answer is about the block, state, transaction or receipt that was asked for.
global size_of usize == 8;
pub mod shim {
use super::*;
use super::sh::*;
use vstd::std_specs::convert::*;
broadcast use {num_axioms, bytes_axioms, rlp_axioms, vec_axioms};
pub assume_specification<T, E, U, F> [std::result::Result::<T, E>::map_or] (x: std::result::Result<T, E>, d: U, f: F) -> (r: U)
    where F: std::ops::FnOnce(T,) -> U + std::marker::Destruct, E: std::marker::Destruct, U: std::marker::Destruct
    requires x matches Ok(v) ==> f.requires((v,))
    ensures match x { Ok(v) => f.ensures((v,), r), Err(e) => r == d };
pub assume_specification<T, E> [std::result::Result::<T, E>::unwrap_or] (x: std::result::Result<T, E>, d: T) -> (r: T)
    where T: std::marker::Destruct, E: std::marker::Destruct
    ensures match x { Ok(v) => r == v, Err(e) => r == d };
pub assume_specification<T, E, F> [std::result::Result::<T, E>::unwrap_or_else] (x: std::result::Result<T, E>, f: F) -> (r: T)
    where F: std::ops::FnOnce(E,) -> T + std::marker::Destruct
    requires x matches Err(e) ==> f.requires((e,))
    ensures match x { Ok(v) => r == v, Err(e) => f.ensures((e,), r) };
// ---- the rest of the node, as the methods see it: what the chain, the state and the pool answer (C17, C18, C20 are about those) ----
pub struct ProtocolError;
impl ProtocolError { #[verifier::external_body] pub fn to_string(&self) -> String { unimplemented!() } }
pub type ProtocolResult<T> = Result<T, ProtocolError>;
pub type RpcResult<T> = Result<T, RpcError>;
pub struct Context;
impl Context { #[verifier::external_body] pub fn new() -> Context { unimplemented!() } #[verifier::external_body] pub fn clone(&self) -> Context { unimplemented!() } }
//@item core/api/src/jsonrpc/error.rs :: enum RpcError
//@end
//@item core/api/src/jsonrpc/web3_types.rs :: struct Web3CallRequest
//@end
#[derive(Clone, Copy)]
pub struct Account { pub nonce: U256, pub balance: U256, pub storage_root: H256, pub code_hash: H256 }
#[verifier::external_body] pub struct EthAccountProof { x: u8 }
#[verifier::external_body] pub struct HardforkName { x: u8 }
pub ghost struct Run { pub from: Option<H160>, pub to: Option<H160>, pub price: Option<U64>, pub gas: Option<U64>, pub value: U256, pub data: Seq<u8>, pub estimate: bool, pub root: H256, pub header: Header }
#[verifier::external_body] pub struct Adapter { x: u8 }
impl Adapter {
    pub uninterp spec fn block(&self, n: Option<u64>) -> ProtocolResult<Option<Block>>;
    pub uninterp spec fn block_named(&self, h: H256) -> ProtocolResult<Option<Block>>;
    pub uninterp spec fn header(&self, n: Option<u64>) -> ProtocolResult<Option<Header>>;
    pub uninterp spec fn number(&self, h: H256) -> ProtocolResult<Option<u64>>;
    pub uninterp spec fn tx(&self, h: H256) -> ProtocolResult<Option<SignedTransaction>>;
    pub uninterp spec fn receipt(&self, h: H256) -> ProtocolResult<Option<Receipt>>;
    pub uninterp spec fn receipts(&self, n: u64, h: Seq<H256>) -> ProtocolResult<Vec<Option<Receipt>>>;
    pub uninterp spec fn account(&self, a: H160, n: Option<u64>) -> ProtocolResult<Account>;
    pub uninterp spec fn pending(&self, a: H160) -> ProtocolResult<(U256, Option<u64>)>;
    pub uninterp spec fn code(&self, h: H256) -> ProtocolResult<Option<Bytes>>;
    pub uninterp spec fn slot(&self, a: H160, p: U256, root: H256) -> ProtocolResult<Bytes>;
    pub uninterp spec fn proof(&self, a: H160, p: Seq<U256>, root: H256) -> ProtocolResult<EthAccountProof>;
    pub uninterp spec fn ran(&self, r: Run) -> ProtocolResult<TxResp>;
    /// what may be handed to the virtual machine, and to the pool
    pub uninterp spec fn may_run(&self, r: Run) -> bool;
    pub uninterp spec fn may_insert(&self, t: SignedTransaction) -> bool;
    pub uninterp spec fn took(&self, t: SignedTransaction) -> bool;
    #[verifier::external_body] pub fn get_block_by_number(&self, _c: Context, n: Option<u64>) -> (r: ProtocolResult<Option<Block>>) ensures r == self.block(n) { unimplemented!() }
    #[verifier::external_body] pub fn get_block_by_hash(&self, _c: Context, h: H256) -> (r: ProtocolResult<Option<Block>>) ensures r == self.block_named(h) { unimplemented!() }
    #[verifier::external_body] pub fn get_block_header_by_number(&self, _c: Context, n: Option<u64>) -> (r: ProtocolResult<Option<Header>>) ensures r == self.header(n) { unimplemented!() }
    #[verifier::external_body] pub fn get_block_number_by_hash(&self, _c: Context, h: H256) -> (r: ProtocolResult<Option<u64>>) ensures r == self.number(h) { unimplemented!() }
    #[verifier::external_body] pub fn get_transaction_by_hash(&self, _c: Context, h: H256) -> (r: ProtocolResult<Option<SignedTransaction>>) ensures r == self.tx(h) { unimplemented!() }
    #[verifier::external_body] pub fn get_receipt_by_tx_hash(&self, _c: Context, h: H256) -> (r: ProtocolResult<Option<Receipt>>) ensures r == self.receipt(h) { unimplemented!() }
    #[verifier::external_body] pub fn get_receipts_by_hashes(&self, _c: Context, n: u64, h: &Vec<H256>) -> (r: ProtocolResult<Vec<Option<Receipt>>>) ensures r == self.receipts(n, h@) { unimplemented!() }
    #[verifier::external_body] pub fn get_account(&self, _c: Context, a: H160, n: Option<u64>) -> (r: ProtocolResult<Account>) ensures r == self.account(a, n) { unimplemented!() }
    #[verifier::external_body] pub fn get_pending_tx_count(&self, _c: Context, a: H160) -> (r: ProtocolResult<(U256, Option<u64>)>) ensures r == self.pending(a) { unimplemented!() }
    #[verifier::external_body] pub fn get_code_by_hash(&self, _c: Context, h: &H256) -> (r: ProtocolResult<Option<Bytes>>) ensures r == self.code(*h) { unimplemented!() }
    #[verifier::external_body] pub fn get_storage_at(&self, _c: Context, a: H160, p: U256, root: H256) -> (r: ProtocolResult<Bytes>) ensures r == self.slot(a, p, root) { unimplemented!() }
    #[verifier::external_body] pub fn get_proof(&self, _c: Context, a: H160, p: Vec<U256>, root: H256) -> (r: ProtocolResult<EthAccountProof>) ensures r == self.proof(a, p@, root) { unimplemented!() }
    #[verifier::external_body] pub fn evm_call(&self, _c: Context, from: Option<H160>, to: Option<H160>, price: Option<U64>, gas: Option<U64>, value: U256, data: Vec<u8>, estimate: bool, root: H256, header: Header) -> (r: ProtocolResult<TxResp>)
        requires self.may_run(Run { from, to, price, gas, value, data: data@, estimate, root, header })
        ensures r == self.ran(Run { from, to, price, gas, value, data: data@, estimate, root, header }) { unimplemented!() }
    #[verifier::external_body] pub fn insert_signed_txs(&self, _c: Context, t: SignedTransaction) -> (r: ProtocolResult<()>) requires self.may_insert(t) ensures r is Ok ==> self.took(t) { unimplemented!() }
}
/// what C17 and C19 establish of the stored chain: every transaction of a block is there, and stored ones are signed
pub open spec fn all_there(a: &Adapter, b: Block) -> bool { forall|i: int| 0 <= i < b.tx_hashes@.len() ==> (a.tx(#[trigger] b.tx_hashes@[i]) matches Ok(x) ==> x is Some) }
pub open spec fn sound(a: &Adapter) -> bool {
    &&& forall|h: H256| #[trigger] a.tx(h) matches Ok(Some(t)) ==> stored_ok(t)
    &&& forall|n: Option<u64>| #[trigger] a.block(n) matches Ok(Some(b)) ==> all_there(a, b)
    &&& forall|h: H256| #[trigger] a.block_named(h) matches Ok(Some(b)) ==> all_there(a, b)
    &&& forall|w: H160| #[trigger] a.pending(w) matches Ok(p) ==> (a.account(w, p.1) matches Ok(x) ==> x.nonce@ + p.0@ < pow256())
}
// ---- values, as the other half of C27 establishes ----
impl Web3Transaction {
    #[verifier::external_body] pub fn from_stx(t: SignedTransaction) -> (w: Web3Transaction) requires stored_ok(t) ensures shows_tx(w, t), placed(w, None) { unimplemented!() }
    #[verifier::external_body] pub fn add_block_number(self, n: u64) -> (w: Web3Transaction) ensures w == (Web3Transaction { block_number: Some(u64_(n as nat)), ..self }) { unimplemented!() }
    #[verifier::external_body] pub fn add_block_hash(self, h: H256) -> (w: Web3Transaction) ensures w == (Web3Transaction { block_hash: Some(h), ..self }) { unimplemented!() }
    #[verifier::external_body] pub fn add_tx_index(self, i: usize) -> (w: Web3Transaction) ensures w == (Web3Transaction { transaction_index: Some(u64_(i as nat)), ..self }) { unimplemented!() }
    #[verifier::external_body] pub fn update_with_receipt(&mut self, k: &Receipt)
        ensures *final(self) == (Web3Transaction { block_number: Some(u64_(k.block_number as nat)), block_hash: Some(k.block_hash), transaction_index: Some(u64_(k.tx_index as nat)), ..*old(self) }) { unimplemented!() }
}
impl RichTransactionOrHash { #[verifier::external_body] pub fn get_hash(&self) -> (r: H256) ensures r == (match *self { RichTransactionOrHash::Hash(h) => h, RichTransactionOrHash::Rich(t) => t.hash }) { unimplemented!() } }
impl Web3Block { #[verifier::external_body] pub fn from_block(b: Block) -> (w: Web3Block) ensures shows_header(w, b), hashes_only(w.transactions@, b.tx_hashes@) { unimplemented!() } }
impl Web3Receipt { #[verifier::external_body] pub fn new(k: Receipt, t: SignedTransaction) -> (w: Web3Receipt) ensures shows_receipt(w, k, t) { unimplemented!() } }
pub open spec fn named(id: BlockId) -> Option<u64> { match id { BlockId::Num(n) => Some(n@ as u64), BlockId::Earliest => Some(0u64), _ => None } }
#[verifier::external_body] pub fn number_of(id: BlockId) -> (r: Option<u64>) ensures r == named(id) { unimplemented!() }
/// the default block is the latest
#[verifier::external_body] pub fn or_latest(id: Option<BlockId>) -> (r: BlockId) ensures r == (match id { Some(b) => b, None => BlockId::Latest }) { unimplemented!() }
/// the block a parameter names: `None` when there is none, or the store fails
pub open spec fn place(a: &Adapter, id: Option<BlockId>) -> Option<Option<u64>> {
    match id { Some(BlockId::Hash(h)) => match a.number(h) { Ok(Some(n)) => Some(Some(n)), _ => None }, Some(b) => Some(named(b)), None => Some(None) }
}
pub open spec fn unknown(a: &Adapter, id: Option<BlockId>) -> bool { id matches Some(BlockId::Hash(h)) && a.number(h) == Ok::<Option<u64>, ProtocolError>(None) }
pub uninterp spec fn reserved(a: H160) -> bool;
#[verifier::external_body] pub fn is_system_contract_address_format(a: &H160) -> (r: bool) ensures r == reserved(*a) { unimplemented!() }
#[verifier::external_body] pub fn gas_or_zero(x: Option<U64>) -> (r: U64) ensures r@ == (match x { Some(v) => v@, None => 0 }) { unimplemented!() }
#[verifier::external_body] pub fn value_or_zero(x: Option<U256>) -> (r: U256) ensures r@ == (match x { Some(v) => v@, None => 0 }) { unimplemented!() }
#[verifier::external_body] pub fn nothing() -> (r: Bytes) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
impl Bytes { #[verifier::external_body] pub fn to_vec(&self) -> (r: Vec<u8>) ensures r@ == self@ { unimplemented!() } }
#[verifier::external_body] pub fn u64_of(x: u64) -> (r: U64) ensures r@ == x { unimplemented!() }
//@item protocol/src/constants/configs.rs :: const GWEI
//@ sub /const GWEI/ => /pub const GWEI/ 0
//@end
//@item protocol/src/constants/configs.rs :: const MAX_GAS_LIMIT
//@end
//@item protocol/src/constants/configs.rs :: const MIN_TRANSACTION_GAS_LIMIT
//@end
//@item protocol/src/constants/configs.rs :: const MAX_GAS_PRICE
//@ sub /pub const MAX_GAS_PRICE: U64 = U64\(\[([^\]]*)\]\);/ => /pub fn MAX_GAS_PRICE() -> (r: U64) ensures r@ == 500_000_000_000 { u64_of(\1) }/
//@end
#[verifier::external_body] pub fn zero_word() -> (r: Bytes) ensures r@ == Seq::new(32, |i: int| 0u8) { unimplemented!() }
pub uninterp spec fn le_word(n: nat) -> Seq<u8>;
#[verifier::external_body] pub fn le_of_(n: U256, out: &mut [u8; 32]) ensures final(out)@ == le_word(n@) { unimplemented!() }
#[verifier::external_body] pub fn copy_n_(out: &mut [u8; 8], x: &[u8; 32], n: usize) requires n == 8 ensures final(out)@ == x@.subrange(0, 8) { unimplemented!() }
#[verifier::external_body] pub fn usize_le_(x: [u8; 8]) -> (r: usize) ensures forall|n: nat| x@ == #[trigger] le_word(n).subrange(0, 8) ==> r as nat == n % pow64() { unimplemented!() }
pub uninterp spec fn decoded(b: Seq<u8>) -> Result<UnverifiedTransaction, ProtocolError>;
pub uninterp spec fn hash_right(t: UnverifiedTransaction) -> bool;
pub uninterp spec fn recovered(t: UnverifiedTransaction) -> Result<SignedTransaction, ProtocolError>;
impl UnverifiedTransaction {
    #[verifier::external_body] pub fn decode(b: &Bytes) -> (r: Result<UnverifiedTransaction, ProtocolError>) ensures r == decoded(b@) { unimplemented!() }
    #[verifier::external_body] pub fn check_hash(&self) -> (r: Result<(), ProtocolError>) ensures r is Ok == hash_right(*self) { unimplemented!() }
}
impl SignedTransaction { #[verifier::external_body] pub fn from_unverified(t: UnverifiedTransaction) -> (r: Result<SignedTransaction, ProtocolError>) ensures r == recovered(t) { unimplemented!() } }
impl UnsignedTransaction {
    #[verifier::external_body] pub fn gas_price(&self) -> (r: U64) ensures r == u_gas_price(*self) { unimplemented!() }
    #[verifier::external_body] pub fn gas_limit(&self) -> (r: &U64) ensures *r == u_gas_limit(*self) { unimplemented!() }
}
/// what the pool may be given: a transaction of the request, with a price and a limit in range, the hash of its content, and the sender its signature recovers to
pub open spec fn sendable(b: Seq<u8>, cap: U64, t: SignedTransaction) -> bool {
    &&& decoded(b) matches Ok(u) && hash_right(u) && recovered(u) == Ok::<SignedTransaction, ProtocolError>(t)
        && 0 < u_gas_price(u.unsigned)@ <= 500_000_000_000 && 21_000 <= u_gas_limit(u.unsigned)@ <= cap@
}
pub open spec fn call_data(q: Web3CallRequest) -> Seq<u8> { match q.data { Some(h) => h.0@, None => Seq::empty() } }
/// what a call may run: within the gas and price limits, not at a reserved address, on the state of the block named
pub open spec fn callable(a: &Adapter, q: Web3CallRequest, id: Option<BlockId>, estimate: bool, x: Run) -> bool {
    &&& place(a, id) matches Some(n) && a.header(n) matches Ok(Some(h)) && run_of(x, q, call_data(q), estimate, h)
    &&& !(q.from is None && q.to is None) && (q.gas matches Some(g) ==> g@ <= 30_000_000) && (q.gas_price matches Some(g) ==> g@ <= 500_000_000_000) && (q.to matches Some(t) ==> !reserved(t))
    &&& (estimate ==> (q.gas matches Some(g) ==> g@ >= 21_000))
}
pub open spec fn tx_answer(a: &Adapter, h: H256, w: Option<Web3Transaction>) -> bool {
    match a.tx(h) {
        Ok(Some(t)) => w matches Some(x) && shows_tx(x, t) && (a.receipt(h) matches Ok(k) && match k { Some(k) => placed(x, Some((k.block_number, k.block_hash, k.tx_index as nat))), None => placed(x, None) }),
        Ok(None) => w is None,
        Err(_) => false,
    }
}
pub open spec fn rich(x: RichTransactionOrHash, a: &Adapter, b: Block, i: int) -> bool {
    &&& a.tx(b.tx_hashes@[i]) matches Ok(Some(t)) && x matches RichTransactionOrHash::Rich(w) && shows_tx(w, t) && placed(w, Some((b.header.number, bhash(b), i as nat)))
}
pub open spec fn block_answer(a: &Adapter, b: Option<Block>, full: bool, w: Option<Web3Block>) -> bool {
    match b {
        Some(b) => w matches Some(x) && shows_header(x, b) && if full { x.transactions@.len() == b.tx_hashes@.len() && forall|i: int| 0 <= i < b.tx_hashes@.len() ==> rich(#[trigger] x.transactions@[i], a, b, i) } else { hashes_only(x.transactions@, b.tx_hashes@) },
        None => w is None,
    }
}
impl ExitReason { #[verifier::external_body] pub fn is_succeed(&self) -> (r: bool) ensures r == succeeded(*self) { unimplemented!() } }
#[verifier::external_body] pub fn no_h256() -> (r: H256) ensures r == h256(Seq::new(32, |i: int| 0u8)) { unimplemented!() }
#[verifier::external_body] pub fn no_bloom() -> (r: Bloom) { unimplemented!() }
#[verifier::external_body] pub fn no_extra() -> (r: Vec<ExtraData>) ensures r@.len() == 0 { unimplemented!() }
/// the header of the block the call runs in: what the request does not set is the block's
pub open spec fn call_header(c: Header, h: Header, q: Web3CallRequest) -> bool {
    &&& c.version == h.version && c.prev_hash == h.prev_hash && c.proposer == h.proposer && c.state_root == h.state_root && c.timestamp == h.timestamp && c.number == h.number
    &&& c.gas_limit == (match q.gas { Some(g) => g, None => h.gas_limit }) && c.base_fee_per_gas == (match q.max_fee_per_gas { Some(f) => f, None => h.base_fee_per_gas })
    &&& c.chain_id == (match q.chain_id { Some(i) => i@ as u64, None => h.chain_id })
}
pub open spec fn run_of(r: Run, q: Web3CallRequest, data: Seq<u8>, estimate: bool, h: Header) -> bool {
    &&& r.from == q.from && r.to == q.to && r.price == q.gas_price && r.gas == q.gas && r.value@ == (match q.value { Some(v) => v@, None => 0 }) && r.data == data && r.estimate == estimate
    &&& r.root == h.state_root && call_header(r.header, h, q)
}
}
pub mod m {
use super::*;
use super::sh::*;
use super::shim::*;
broadcast use {num_axioms, bytes_axioms, rlp_axioms, vec_axioms};
//@item core/api/src/jsonrpc/impl/web3.rs :: struct Web3RpcImpl
//@ sub /Arc<Adapter>/ => /Adapter/
//@ sub /Web3RpcImpl<Adapter>/ => /Web3RpcImpl/
//@ sub /(\n\s*)(adapter|max_gas_cap|log_filter_max_block_range):/ => /\1pub \2:/
//@end
//@fn core/api/src/jsonrpc/impl/web3.rs :: fn mock_header_by_call_req
//@ ret r
//@ sub /transactions_root:(\s*)Default::default\(\)/ => /transactions_root: no_h256()/ 0
//@ sub /signed_txs_hash:(\s*)Default::default\(\)/ => /signed_txs_hash: no_h256()/ 0
//@ sub /receipts_root:(\s*)Default::default\(\)/ => /receipts_root: no_h256()/ 0
//@ sub /log_bloom:(\s*)Default::default\(\)/ => /log_bloom: no_bloom()/ 0
//@ sub /extra_data:(\s*)Default::default\(\)/ => /extra_data: no_extra()/ 0
//@ sub /\.map\(U64::low_u64\)/ => /.map(|i: &U64| -> (o: u64) ensures o as nat == i@ { i.low_u64() })/ 0
//@ spec
    ensures call_header(r, latest_header, *call_req),
//@end
impl Web3RpcImpl {
//@fn core/api/src/jsonrpc/impl/web3.rs :: impl Web3RpcImpl<Adapter>/fn get_block_number_by_id
//@ ret r
//@ sub /async fn/ => /fn/
//@ sub /\s*\.await/ => //
//@ sub /block_id\.unwrap_or_default\(\)\.into\(\)/ => /number_of(or_latest(block_id))/ 0
//@ sub /\|e\| RpcError::Internal\(e\.to_string\(\)\)/ => /|e: ProtocolError| -> (x: RpcError) ensures x is Internal { RpcError::Internal(e.to_string()) }/ 0
//@ sub /\.map\(Some\)/ => /.map(|n: u64| -> (o: Option<u64>) ensures o == Some(n) { Some(n) })/ 0
//@ spec
    ensures r matches Ok(n) ==> place(&self.adapter, block_id) == Some(n), r is Err ==> place(&self.adapter, block_id) is None, r matches Err(e) ==> !(e is Evm), unknown(&self.adapter, block_id) ==> r == Err::<Option<u64>, RpcError>(RpcError::CannotFindBlock),
//@end
//@fn core/api/src/jsonrpc/impl/web3.rs :: impl Web3RpcImpl<Adapter>/fn call_evm
//@ ret r
//@ sub /async fn/ => /fn/
//@ sub /\s*\.await/ => //
//@ sub /APIError::RequestPayload\("[^"]*"\.to_string\(\)\)\.into\(\)/ => /ProtocolError/ 0
//@ sub /\|\| APIError::Storage\(format!\("[^"]*", number\)\)/ => /|| ProtocolError/ 0
//@ sub /req\.value\.unwrap_or_default\(\)/ => /value_/ 0
//@ start
        let value_ = value_or_zero(req.value);
//@ sub /Proposal::new_without_state_root\(&mock_header\)/ => /mock_header/ 0
//@ sub /self\s*\.adapter\s*\.evm_call/ => /proof { assert(self.adapter.may_run(Run { from: req.from, to: req.to, price: req.gas_price, gas: req.gas, value: value_, data: data@, estimate, root: mock_header.state_root, header: mock_header })); } self.adapter.evm_call/ 0
//@ spec
    requires forall|x: Run| (self.adapter.header(number) matches Ok(Some(h)) && !(req.from is None && req.to is None) && run_of(x, req, data@, estimate, h)) ==> #[trigger] self.adapter.may_run(x),
    ensures r matches Ok(t) ==> (self.adapter.header(number) matches Ok(Some(h)) && !(req.from is None && req.to is None) && exists|x: Run| run_of(x, req, data@, estimate, h) && #[trigger] self.adapter.ran(x) == r),
//@end
//@fn core/api/src/jsonrpc/impl/web3.rs :: impl Web3RpcServer for Web3RpcImpl<Adapter>/fn block_number
//@ ret r
//@ sub /async fn/ => /fn/
//@ sub /\s*\.await/ => //
//@ sub /\|e\| RpcError::Internal\(e\.to_string\(\)(?:\)\.into\(\)|\))/ => /|e: ProtocolError| -> (x: RpcError) ensures x is Internal { RpcError::Internal(e.to_string()) }/ 0
//@ sub /\|\| (RpcError::\w+)\.into\(\)/ => /|| -> (x: RpcError) { \1 }/ 0
//@ sub /(RpcError::\w+(?:\([^()]*\))?)\.into\(\)/ => /\1/ 0
//@ sub /\|h\| U256::from\(h\.number\)/ => /|h: Header| -> (o: U256) ensures o@ == h.number { U256::from(h.number) }/ 0
//@ spec
    ensures r matches Ok(n) ==> (self.adapter.header(None) matches Ok(Some(h)) && n@ == h.number), r is Err ==> !(self.adapter.header(None) matches Ok(Some(h))),
//@end
//@fn core/api/src/jsonrpc/impl/web3.rs :: impl Web3RpcServer for Web3RpcImpl<Adapter>/fn get_balance
//@ ret r
//@ sub /async fn/ => /fn/
//@ sub /\s*\.await/ => //
//@ sub /\|e\| RpcError::Internal\(e\.to_string\(\)(?:\)\.into\(\)|\))/ => /|e: ProtocolError| -> (x: RpcError) ensures x is Internal { RpcError::Internal(e.to_string()) }/ 0
//@ sub /\|\| (RpcError::\w+)\.into\(\)/ => /|| -> (x: RpcError) { \1 }/ 0
//@ sub /(RpcError::\w+(?:\([^()]*\))?)\.into\(\)/ => /\1/ 0
//@ sub /\|account\| account\.balance/ => /|account: Account| -> (o: U256) ensures o == account.balance { account.balance }/ 0
//@ spec
    ensures r matches Ok(b) ==> (place(&self.adapter, block_id) matches Some(n) && (match self.adapter.account(address, n) { Ok(x) => b == x.balance, Err(_) => b@ == 0 })),
        r is Err ==> place(&self.adapter, block_id) is None,
//@end
//@fn core/api/src/jsonrpc/impl/web3.rs :: impl Web3RpcServer for Web3RpcImpl<Adapter>/fn get_transaction_count
//@ ret r
//@ sub /async fn/ => /fn/
//@ sub /\s*\.await/ => //
//@ sub /\|e\| RpcError::Internal\(e\.to_string\(\)(?:\)\.into\(\)|\))/ => /|e: ProtocolError| -> (x: RpcError) ensures x is Internal { RpcError::Internal(e.to_string()) }/ 0
//@ sub /\|\| (RpcError::\w+)\.into\(\)/ => /|| -> (x: RpcError) { \1 }/ 0
//@ sub /(RpcError::\w+(?:\([^()]*\))?)\.into\(\)/ => /\1/ 0
//@ sub /block_id\.unwrap_or_default\(\)/ => /or_latest(block_id)/ 0
//@ sub /\.unwrap_or_default\(\)/ => /.unwrap_or(U256::zero())/ 0
//@ sub /\|account\| account\.nonce \+ pending_tx_count/ => /|account: Account| -> (o: U256) requires account.nonce@ + pending_tx_count@ < pow256() ensures o@ == account.nonce@ + pending_tx_count@ { account.nonce + pending_tx_count }/ 0
//@ sub /\|account\| account\.nonce\)/ => /|account: Account| -> (o: U256) ensures o == account.nonce { account.nonce })/ 0
//@ spec
    requires sound(&self.adapter),
    ensures r matches Ok(c) ==> (match block_id {
        Some(BlockId::Pending) => self.adapter.pending(address) matches Ok(p) && (match self.adapter.account(address, p.1) { Ok(x) => c@ == x.nonce@ + p.0@, Err(_) => c@ == 0 }),
        _ => place(&self.adapter, block_id) matches Some(n) && (match self.adapter.account(address, n) { Ok(x) => c == x.nonce, Err(_) => c@ == 0 }) }),
//@end
//@fn core/api/src/jsonrpc/impl/web3.rs :: impl Web3RpcServer for Web3RpcImpl<Adapter>/fn call
//@ ret r
//@ sub /async fn/ => /fn/
//@ sub /\s*\.await/ => //
//@ sub /\|e\| RpcError::Internal\(e\.to_string\(\)(?:\)\.into\(\)|\))/ => /|e: ProtocolError| -> (x: RpcError) ensures x is Internal { RpcError::Internal(e.to_string()) }/ 0
//@ sub /\|\| (RpcError::\w+)\.into\(\)/ => /|| -> (x: RpcError) { \1 }/ 0
//@ sub /(RpcError::\w+(?:\([^()]*\))?)\.into\(\)/ => /\1/ 0
//@ sub /req\.gas\.unwrap_or_default\(\)/ => /gas_or_zero(req.gas)/ 0
//@ sub /req\.gas_price\.unwrap_or_default\(\)/ => /gas_or_zero(req.gas_price)/ 0
//@ sub /\bMAX_GAS_PRICE\b/ => /MAX_GAS_PRICE()/ 0
//@ sub /\|hex\| hex\.as_bytes\(\)/ => /|hex: &Hex| -> (o: Bytes) ensures o == hex.0 { hex.as_bytes() }/ 0
//@ sub /\.unwrap_or_default\(\)/ => /.unwrap_or(nothing())/ 0
//@ sub /RpcError::Evm\(resp\)\.into\(\)/ => /RpcError::Evm(resp)/ 0
//@ spec
    requires forall|x: Run| callable(&self.adapter, req, block_id, false, x) ==> #[trigger] self.adapter.may_run(x),
    ensures r matches Ok(hex) ==> exists|x: Run, t: TxResp| callable(&self.adapter, req, block_id, false, x) && #[trigger] self.adapter.ran(x) == Ok::<TxResp, ProtocolError>(t) && #[trigger] succeeded(t.exit_reason) && hex.0@ == t.ret@,
        r matches Err(RpcError::Evm(t)) ==> !succeeded(t.exit_reason) && exists|x: Run| callable(&self.adapter, req, block_id, false, x) && #[trigger] self.adapter.ran(x) == Ok::<TxResp, ProtocolError>(t),
//@end
//@fn core/api/src/jsonrpc/impl/web3.rs :: impl Web3RpcServer for Web3RpcImpl<Adapter>/fn estimate_gas
//@ ret r
//@ sub /async fn/ => /fn/
//@ sub /\s*\.await/ => //
//@ sub /\|e\| RpcError::Internal\(e\.to_string\(\)(?:\)\.into\(\)|\))/ => /|e: ProtocolError| -> (x: RpcError) ensures x is Internal { RpcError::Internal(e.to_string()) }/ 0
//@ sub /\|\| (RpcError::\w+)\.into\(\)/ => /|| -> (x: RpcError) { \1 }/ 0
//@ sub /(RpcError::\w+(?:\([^()]*\))?)\.into\(\)/ => /\1/ 0
//@ sub /req\.gas\.unwrap_or_default\(\)/ => /gas_or_zero(req.gas)/ 0
//@ sub /req\.gas_price\.unwrap_or_default\(\)/ => /gas_or_zero(req.gas_price)/ 0
//@ sub /\bMAX_GAS_PRICE\b/ => /MAX_GAS_PRICE()/ 0
//@ sub /\|hex\| hex\.as_bytes\(\)/ => /|hex: &Hex| -> (o: Bytes) ensures o == hex.0 { hex.as_bytes() }/ 0
//@ sub /\.unwrap_or_default\(\)/ => /.unwrap_or(nothing())/ 0
//@ sub /RpcError::Evm\(resp\)\.into\(\)/ => /RpcError::Evm(resp)/ 0
//@ spec
    requires forall|x: Run| callable(&self.adapter, req, number, true, x) ==> #[trigger] self.adapter.may_run(x),
    ensures r matches Ok(hex) ==> exists|x: Run, t: TxResp| callable(&self.adapter, req, number, true, x) && #[trigger] self.adapter.ran(x) == Ok::<TxResp, ProtocolError>(t) && #[trigger] succeeded(t.exit_reason) && hex@ == t.gas_used,
        r matches Err(RpcError::Evm(t)) ==> !succeeded(t.exit_reason) && exists|x: Run| callable(&self.adapter, req, number, true, x) && #[trigger] self.adapter.ran(x) == Ok::<TxResp, ProtocolError>(t),
//@end
//@fn core/api/src/jsonrpc/impl/web3.rs :: impl Web3RpcServer for Web3RpcImpl<Adapter>/fn get_code
//@ ret r
//@ sub /async fn/ => /fn/
//@ sub /\s*\.await/ => //
//@ sub /\|e\| RpcError::Internal\(e\.to_string\(\)(?:\)\.into\(\)|\))/ => /|e: ProtocolError| -> (x: RpcError) ensures x is Internal { RpcError::Internal(e.to_string()) }/ 0
//@ sub /\|\| (RpcError::\w+)\.into\(\)/ => /|| -> (x: RpcError) { \1 }/ 0
//@ sub /(RpcError::\w+(?:\([^()]*\))?)\.into\(\)/ => /\1/ 0
//@ spec
    ensures r matches Ok(hex) ==> (place(&self.adapter, block_id) matches Some(n) && self.adapter.account(address, n) matches Ok(x) && self.adapter.code(x.code_hash) matches Ok(c)
        && (match c { Some(c) => hex.0@ == c@, None => hex.0@.len() == 0 })),
//@end
//@fn core/api/src/jsonrpc/impl/web3.rs :: impl Web3RpcServer for Web3RpcImpl<Adapter>/fn get_block_transaction_count_by_number
//@ ret r
//@ sub /async fn/ => /fn/
//@ sub /\s*\.await/ => //
//@ sub /\|e\| RpcError::Internal\(e\.to_string\(\)(?:\)\.into\(\)|\))/ => /|e: ProtocolError| -> (x: RpcError) ensures x is Internal { RpcError::Internal(e.to_string()) }/ 0
//@ sub /\|\| (RpcError::\w+)\.into\(\)/ => /|| -> (x: RpcError) { \1 }/ 0
//@ sub /(RpcError::\w+(?:\([^()]*\))?)\.into\(\)/ => /\1/ 0
//@ spec
    ensures r matches Ok(c) ==> (place(&self.adapter, Some(number)) matches Some(n) && self.adapter.block(n) matches Ok(b) && c@ == (match b { Some(b) => b.tx_hashes@.len(), None => 0 })),
//@end
//@fn core/api/src/jsonrpc/impl/web3.rs :: impl Web3RpcServer for Web3RpcImpl<Adapter>/fn get_block_transaction_count_by_hash
//@ ret r
//@ sub /async fn/ => /fn/
//@ sub /\s*\.await/ => //
//@ sub /\|e\| RpcError::Internal\(e\.to_string\(\)(?:\)\.into\(\)|\))/ => /|e: ProtocolError| -> (x: RpcError) ensures x is Internal { RpcError::Internal(e.to_string()) }/ 0
//@ sub /\|\| (RpcError::\w+)\.into\(\)/ => /|| -> (x: RpcError) { \1 }/ 0
//@ sub /(RpcError::\w+(?:\([^()]*\))?)\.into\(\)/ => /\1/ 0
//@ sub /hash: Hash/ => /hash: H256/ 0
//@ sub /\|b\| U256::from\(b\.tx_hashes\.len\(\)\)/ => /|b: Block| -> (o: U256) ensures o@ == b.tx_hashes@.len() { U256::from(b.tx_hashes.len()) }/ 0
//@ sub /\.unwrap_or_default\(\)/ => /.unwrap_or(U256::zero())/ 0
//@ spec
    ensures r matches Ok(c) ==> (self.adapter.block_named(hash) matches Ok(b) && c@ == (match b { Some(b) => b.tx_hashes@.len(), None => 0 })),
//@end
//@fn core/api/src/jsonrpc/impl/web3.rs :: impl Web3RpcServer for Web3RpcImpl<Adapter>/fn get_transaction_receipt
//@ ret r
//@ sub /async fn/ => /fn/
//@ sub /\s*\.await/ => //
//@ sub /\|e\| RpcError::Internal\(e\.to_string\(\)(?:\)\.into\(\)|\))/ => /|e: ProtocolError| -> (x: RpcError) ensures x is Internal { RpcError::Internal(e.to_string()) }/ 0
//@ sub /\|\| (RpcError::\w+)\.into\(\)/ => /|| -> (x: RpcError) { \1 }/ 0
//@ sub /(RpcError::\w+(?:\([^()]*\))?)\.into\(\)/ => /\1/ 0
//@ spec
    ensures r matches Ok(w) ==> (self.adapter.tx(hash) matches Ok(t) && (match t {
        Some(t) => self.adapter.receipt(hash) matches Ok(k) && (match k { Some(k) => w matches Some(w) && shows_receipt(w, k, t), None => w is None }), None => w is None })),
//@end
//@fn core/api/src/jsonrpc/impl/web3.rs :: impl Web3RpcServer for Web3RpcImpl<Adapter>/fn get_transaction_by_hash
//@ ret r
//@ sub /async fn/ => /fn/
//@ sub /\s*\.await/ => //
//@ sub /\|e\| RpcError::Internal\(e\.to_string\(\)(?:\)\.into\(\)|\))/ => /|e: ProtocolError| -> (x: RpcError) ensures x is Internal { RpcError::Internal(e.to_string()) }/ 0
//@ sub /\|\| (RpcError::\w+)\.into\(\)/ => /|| -> (x: RpcError) { \1 }/ 0
//@ sub /(RpcError::\w+(?:\([^()]*\))?)\.into\(\)/ => /\1/ 0
//@ sub /let mut web3_stx: Web3Transaction = stx\.into\(\);/ => /let mut web3_stx: Web3Transaction = Web3Transaction::from_stx(stx);/ 0
//@ spec
    requires sound(&self.adapter),
    ensures r matches Ok(w) ==> tx_answer(&self.adapter, hash, w),
//@end
//@fn core/api/src/jsonrpc/impl/web3.rs :: impl Web3RpcServer for Web3RpcImpl<Adapter>/fn get_transaction_by_block_hash_and_index
//@ ret r
//@ sub /async fn/ => /fn/
//@ sub /\s*\.await/ => //
//@ sub /\|e\| RpcError::Internal\(e\.to_string\(\)(?:\)\.into\(\)|\))/ => /|e: ProtocolError| -> (x: RpcError) ensures x is Internal { RpcError::Internal(e.to_string()) }/ 0
//@ sub /\|\| (RpcError::\w+)\.into\(\)/ => /|| -> (x: RpcError) { \1 }/ 0
//@ sub /(RpcError::\w+(?:\([^()]*\))?)\.into\(\)/ => /\1/ 0
//@ sub /hash: Hash/ => /hash: H256/ 0
//@ sub /position\.to_little_endian\(&mut raw\)/ => /le_of_(position, &mut raw)/ 0
//@ sub /raw_index\.copy_from_slice\(&raw\[\.\.(\w+)\]\)/ => /copy_n_(&mut raw_index, &raw, \1)/ 0
//@ sub /usize::from_le_bytes\(/ => /usize_le_(/ 0
//@ spec
    requires sound(&self.adapter),
    ensures r matches Ok(w) ==> (self.adapter.block_named(hash) matches Ok(b) && position@ < pow64() && (match b {
        Some(b) => if position@ < b.tx_hashes@.len() { tx_answer(&self.adapter, b.tx_hashes@[position@ as int], w) } else { w is None }, None => w is None })),
//@end
//@fn core/api/src/jsonrpc/impl/web3.rs :: impl Web3RpcServer for Web3RpcImpl<Adapter>/fn get_transaction_by_block_number_and_index
//@ ret r
//@ sub /async fn/ => /fn/
//@ sub /\s*\.await/ => //
//@ sub /\|e\| RpcError::Internal\(e\.to_string\(\)(?:\)\.into\(\)|\))/ => /|e: ProtocolError| -> (x: RpcError) ensures x is Internal { RpcError::Internal(e.to_string()) }/ 0
//@ sub /\|\| (RpcError::\w+)\.into\(\)/ => /|| -> (x: RpcError) { \1 }/ 0
//@ sub /(RpcError::\w+(?:\([^()]*\))?)\.into\(\)/ => /\1/ 0
//@ sub /hash: Hash/ => /hash: H256/ 0
//@ sub /position\.to_little_endian\(&mut raw\)/ => /le_of_(position, &mut raw)/ 0
//@ sub /raw_index\.copy_from_slice\(&raw\[\.\.(\w+)\]\)/ => /copy_n_(&mut raw_index, &raw, \1)/ 0
//@ sub /usize::from_le_bytes\(/ => /usize_le_(/ 0
//@ spec
    requires sound(&self.adapter),
    ensures r matches Ok(w) ==> (place(&self.adapter, Some(number)) matches Some(n) && self.adapter.block(n) matches Ok(b) && position@ < pow64() && (match b {
        Some(b) => if position@ < b.tx_hashes@.len() { tx_answer(&self.adapter, b.tx_hashes@[position@ as int], w) } else { w is None }, None => w is None })),
//@end
//@fn core/api/src/jsonrpc/impl/web3.rs :: impl Web3RpcServer for Web3RpcImpl<Adapter>/fn get_storage_at
//@ ret r
//@ sub /async fn/ => /fn/
//@ sub /\s*\.await/ => //
//@ sub /\|e\| RpcError::Internal\(e\.to_string\(\)(?:\)\.into\(\)|\))/ => /|e: ProtocolError| -> (x: RpcError) ensures x is Internal { RpcError::Internal(e.to_string()) }/ 0
//@ sub /\|\| (RpcError::\w+)\.into\(\)/ => /|| -> (x: RpcError) { \1 }/ 0
//@ sub /(RpcError::\w+(?:\([^()]*\))?)\.into\(\)/ => /\1/ 0
//@ sub /\|_\w*\| H256::default\(\)\.as_bytes\(\)\.to_vec\(\)\.into\(\)/ => /|_e: ProtocolError| -> (o: Bytes) ensures o@ == Seq::new(32, |i: int| 0u8) { zero_word() }/ 0
//@ spec
    ensures r matches Ok(hex) ==> (place(&self.adapter, block_id) matches Some(n) && self.adapter.header(n) matches Ok(Some(h)) && !reserved(address) && (match self.adapter.slot(address, position, h.state_root) {
        Ok(v) => hex.0@ == v@, Err(_) => hex.0@ == Seq::new(32, |i: int| 0u8) })),
//@end
//@fn core/api/src/jsonrpc/impl/web3.rs :: impl Web3RpcServer for Web3RpcImpl<Adapter>/fn get_proof
//@ ret r
//@ sub /async fn/ => /fn/
//@ sub /\s*\.await/ => //
//@ sub /\|e\| RpcError::Internal\(e\.to_string\(\)(?:\)\.into\(\)|\))/ => /|e: ProtocolError| -> (x: RpcError) ensures x is Internal { RpcError::Internal(e.to_string()) }/ 0
//@ sub /\|\| (RpcError::\w+)\.into\(\)/ => /|| -> (x: RpcError) { \1 }/ 0
//@ sub /(RpcError::\w+(?:\([^()]*\))?)\.into\(\)/ => /\1/ 0
//@ spec
    ensures r matches Ok(p) ==> (place(&self.adapter, Some(number)) matches Some(n) && self.adapter.header(n) matches Ok(Some(h)) && !reserved(address) && self.adapter.proof(address, storage_position@, h.state_root) == Ok::<EthAccountProof, ProtocolError>(p)),
//@end
//@fn core/api/src/jsonrpc/impl/web3.rs :: impl Web3RpcServer for Web3RpcImpl<Adapter>/fn get_block_by_number
//@ ret r
//@ sub /async fn/ => /fn/
//@ sub /\s*\.await/ => //
//@ sub /\|e\| RpcError::Internal\(e\.to_string\(\)(?:\)\.into\(\)|\))/ => /|e: ProtocolError| -> (x: RpcError) ensures x is Internal { RpcError::Internal(e.to_string()) }/ 0
//@ sub /\|\| (RpcError::\w+)\.into\(\)/ => /|| -> (x: RpcError) { \1 }/ 0
//@ sub /(RpcError::\w+(?:\([^()]*\))?)\.into\(\)/ => /\1/ 0
//@ sub /Web3Transaction::from\(/ => /Web3Transaction::from_stx(/ 0
//@ sub /Web3Block::from\(/ => /Web3Block::from_block(/ 0
//@ sub /let block_hash = b\.hash\(\);/ => /let block_hash = b.hash(); let ghost b_ = b;/ 0
//@ spec
    requires sound(&self.adapter),
    ensures r matches Ok(w) ==> (place(&self.adapter, Some(number)) matches Some(n) && self.adapter.block(n) matches Ok(b) && block_answer(&self.adapter, b, show_rich_tx, w)),
//@ loop 0
                        invariant hashes_only(ret.transactions@, b_.tx_hashes@), sound(&self.adapter), block_number == b_.header.number, block_hash == bhash(b_), shows_header(ret, b_),
                            txs@.len() == idx, forall|i: int| 0 <= i < idx ==> rich(#[trigger] txs@[i], &self.adapter, b_, i),
                            self.adapter.block(number) == Ok::<Option<Block>, ProtocolError>(Some(b_)),
//@end
//@fn core/api/src/jsonrpc/impl/web3.rs :: impl Web3RpcServer for Web3RpcImpl<Adapter>/fn get_block_by_hash
//@ ret r
//@ sub /async fn/ => /fn/
//@ sub /\s*\.await/ => //
//@ sub /\|e\| RpcError::Internal\(e\.to_string\(\)(?:\)\.into\(\)|\))/ => /|e: ProtocolError| -> (x: RpcError) ensures x is Internal { RpcError::Internal(e.to_string()) }/ 0
//@ sub /\|\| (RpcError::\w+)\.into\(\)/ => /|| -> (x: RpcError) { \1 }/ 0
//@ sub /(RpcError::\w+(?:\([^()]*\))?)\.into\(\)/ => /\1/ 0
//@ sub /Web3Transaction::from\(/ => /Web3Transaction::from_stx(/ 0
//@ sub /Web3Block::from\(/ => /Web3Block::from_block(/ 0
//@ sub /let block_hash = b\.hash\(\);/ => /let block_hash = b.hash(); let ghost b_ = b;/ 0
//@ spec
    requires sound(&self.adapter),
    ensures r matches Ok(w) ==> (self.adapter.block_named(hash) matches Ok(b) && block_answer(&self.adapter, b, show_rich_tx, w)),
//@ loop 0
                        invariant hashes_only(ret.transactions@, b_.tx_hashes@), sound(&self.adapter), block_number == b_.header.number, block_hash == bhash(b_), shows_header(ret, b_),
                            txs@.len() == idx, forall|i: int| 0 <= i < idx ==> rich(#[trigger] txs@[i], &self.adapter, b_, i),
                            self.adapter.block_named(hash) == Ok::<Option<Block>, ProtocolError>(Some(b_)),
//@end
//@fn core/api/src/jsonrpc/impl/web3.rs :: impl Web3RpcServer for Web3RpcImpl<Adapter>/fn send_raw_transaction
//@ ret r
//@ sub /async fn/ => /fn/
//@ sub /\s*\.await/ => //
//@ sub /\|e\| RpcError::Internal\(e\.to_string\(\)(?:\)\.into\(\)|\))/ => /|e: ProtocolError| -> (x: RpcError) ensures x is Internal { RpcError::Internal(e.to_string()) }/ 0
//@ sub /\|\| (RpcError::\w+)\.into\(\)/ => /|| -> (x: RpcError) { \1 }/ 0
//@ sub /(RpcError::\w+(?:\([^()]*\))?)\.into\(\)/ => /\1/ 0
//@ sub /\bMAX_GAS_PRICE\b/ => /MAX_GAS_PRICE()/ 0
//@ sub /sleep\(Duration::from_millis\(MEMPOOL_REFRESH_TIMEOUT\)\);/ => // 0
//@ spec
    requires forall|t: SignedTransaction| sendable(tx.0@, self.max_gas_cap, t) ==> #[trigger] self.adapter.may_insert(t),
    ensures r matches Ok(h) ==> exists|t: SignedTransaction| sendable(tx.0@, self.max_gas_cap, t) && #[trigger] self.adapter.took(t) && h == t.transaction.hash,
//@end
}
}
}
fn main() {}
