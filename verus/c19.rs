//@include head.rs
pub mod sh {
use super::*;
//@include num.rs
//@include bytes.rs
impl SubSpecImpl<u64> for U64 { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, o: u64) -> bool { self@ >= o } open spec fn sub_spec(self, o: u64) -> U64 { u64_((self@ - o) as nat) } }
impl core::ops::Sub<u64> for U64 { type Output = U64; #[verifier::external_body] fn sub(self, o: u64) -> U64 { unimplemented!() } }
#[verifier::external_body] pub fn raw_u64_(n: u64) -> (r: U64) ensures r@ == n { unimplemented!() }
}
use sh::*;
global size_of usize == 8;
// C19: what a transaction must satisfy before it enters the pool.
pub mod ad {
use super::*;
use super::sh::*;
broadcast use {num_axioms, bytes_axioms};
pub struct ProtocolError;
pub type ProtocolResult<T> = Result<T, ProtocolError>;
pub struct TypesError0;
pub enum TypesError { PrepayGasIsTooLarge }
pub enum SystemScriptError { ReservedAddress(H160) }
impl From<TypesError> for ProtocolError { #[verifier::external_body] fn from(e: TypesError) -> ProtocolError { unimplemented!() } }
impl From<SystemScriptError> for ProtocolError { #[verifier::external_body] fn from(e: SystemScriptError) -> ProtocolError { unimplemented!() } }
//@item core/mempool/src/adapter/mod.rs :: enum AdapterError
//@ sub /rlp::DecoderError/ => /DecoderError/
//@end
pub struct DecoderError;
//@item core/mempool/src/lib.rs :: enum MemPoolError
//@end
impl From<AdapterError> for ProtocolError { #[verifier::external_body] fn from(e: AdapterError) -> ProtocolError { unimplemented!() } }
impl From<MemPoolError> for ProtocolError { #[verifier::external_body] fn from(e: MemPoolError) -> ProtocolError { unimplemented!() } }
#[verifier::external_body] pub fn str_() -> String { unimplemented!() }
#[verifier::external_body] pub fn own_<T>(x: &T) -> (r: T) ensures r == *x { unimplemented!() }
pub type Public = H512;
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct H512 { x: [u8; 64] }
impl H512 { pub uninterp spec fn view(&self) -> Seq<u8>; }
#[verifier::external_body]
pub struct H520 { x: [u8; 65] }
impl H520 { pub uninterp spec fn view(&self) -> Seq<u8>; #[verifier::external_body] pub fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() } }
#[verifier::external_body] pub fn recover_intact_pub_key(p: &Public) -> (r: H520) ensures r@ == seq![4u8] + p@ { unimplemented!() }
pub struct AccessListItem;
pub type AccessList = Vec<AccessListItem>;
pub type BlockNumber = u64;
pub enum TransactionAction { Call(H160), Create }

// ---- the transaction ----
//@item protocol/src/types/transaction.rs :: struct LegacyTransaction
//@end
//@item protocol/src/types/transaction.rs :: struct Eip2930Transaction
//@end
//@item protocol/src/types/transaction.rs :: struct Eip1559Transaction
//@end
//@item protocol/src/types/transaction.rs :: enum UnsignedTransaction
//@end
//@item protocol/src/types/transaction.rs :: struct SignatureComponents
//@end
//@item protocol/src/types/transaction.rs :: struct UnverifiedTransaction
//@end
//@item protocol/src/types/transaction.rs :: struct SignedTransaction
//@end
impl Clone for SignatureComponents { #[verifier::external_body] fn clone(&self) -> (r: SignatureComponents) ensures r == *self { unimplemented!() } }
impl Clone for SignedTransaction { #[verifier::external_body] fn clone(&self) -> (r: SignedTransaction) ensures r == *self { unimplemented!() } }
pub open spec fn spec_limit(t: UnsignedTransaction) -> nat {
    match t { UnsignedTransaction::Legacy(x) => x.gas_limit@, UnsignedTransaction::Eip2930(x) => x.gas_limit@, UnsignedTransaction::Eip1559(x) => x.gas_limit@ }
}
pub open spec fn spec_nonce(t: UnsignedTransaction) -> nat {
    match t { UnsignedTransaction::Legacy(x) => x.nonce@, UnsignedTransaction::Eip2930(x) => x.nonce@, UnsignedTransaction::Eip1559(x) => x.nonce@ }
}
pub open spec fn spec_action(t: UnsignedTransaction) -> TransactionAction {
    match t { UnsignedTransaction::Legacy(x) => x.action, UnsignedTransaction::Eip2930(x) => x.action, UnsignedTransaction::Eip1559(x) => x.action }
}
pub open spec fn spec_value(t: UnsignedTransaction) -> nat {
    match t { UnsignedTransaction::Legacy(x) => x.value@, UnsignedTransaction::Eip2930(x) => x.value@, UnsignedTransaction::Eip1559(x) => x.value@ }
}
pub open spec fn spec_price(t: UnsignedTransaction) -> nat {
    match t { UnsignedTransaction::Legacy(x) => x.gas_price@, UnsignedTransaction::Eip2930(x) => x.gas_price@,
        UnsignedTransaction::Eip1559(x) => if x.gas_price@ >= x.max_priority_fee_per_gas@ { x.gas_price@ } else { x.max_priority_fee_per_gas@ } }
}
pub open spec fn spec_cost(t: UnsignedTransaction) -> nat {
    let c = spec_limit(t) * spec_price(t) + spec_value(t);
    if c < pow256() { c } else { (pow256() - 1) as nat }
}
proof fn price_times_limit_fits(p: nat, l: nat)
    requires p < pow64(), l < pow64(),
    ensures p * l == l * p, p * l < pow64() * pow64(), pow64() * pow64() < pow256(),
{
    assert(p * l == l * p) by (nonlinear_arith);
    assert(p * l < pow64() * pow64()) by (nonlinear_arith) requires p < pow64(), l < pow64();
    assert(pow64() * pow64() < pow256()) by (compute);
}
impl UnsignedTransaction {
//@fn protocol/src/types/transaction.rs :: impl UnsignedTransaction/fn gas_price
//@ ret r
//@ spec
    ensures r@ == spec_price(*self),
//@end
//@fn protocol/src/types/transaction.rs :: impl UnsignedTransaction/fn gas_limit
//@ ret r
//@ spec
    ensures r@ == spec_limit(*self),
//@end
//@fn protocol/src/types/transaction.rs :: impl UnsignedTransaction/fn nonce
//@ ret r
//@ spec
    ensures r@ == spec_nonce(*self),
//@end
//@fn protocol/src/types/transaction.rs :: impl UnsignedTransaction/fn action
//@ ret r
//@ spec
    ensures *r == spec_action(*self),
//@end
//@fn protocol/src/types/transaction.rs :: impl UnsignedTransaction/fn value
//@ ret r
//@ spec
    ensures r@ == spec_value(*self),
//@end
//@fn protocol/src/types/transaction.rs :: impl UnsignedTransaction/fn max_priority_fee_per_gas
//@ ret r
//@ spec
    ensures r@ == (match *self { UnsignedTransaction::Eip1559(x) => x.max_priority_fee_per_gas@, _ => spec_price(*self) }),
//@end
//@fn protocol/src/types/transaction.rs :: impl UnsignedTransaction/fn may_cost
//@ ret r
//@ spec
    ensures r matches Ok(c) && c@ == spec_cost(*self),
//@ start
    proof {
        broadcast use num_axioms;
        price_times_limit_fits(spec_price(*self), spec_limit(*self));
        assert(pow64() < pow256()) by (compute);
    }
//@end
}
impl SignatureComponents {
//@fn protocol/src/types/transaction.rs :: impl SignatureComponents/fn len
//@ ret r
//@ spec
    requires self.r@.len() + self.s@.len() < 0x1000_0000_0000,
    ensures r == self.r@.len() + self.s@.len() + 1,
//@end
    pub const SECP256K1_SIGNATURE_LEN: usize = 65;
//@fn protocol/src/types/transaction.rs :: impl SignatureComponents/fn is_eth_sig
//@ ret r
//@ spec
    requires self.r@.len() + self.s@.len() < 0x1000_0000_0000,
    ensures r == (self.r@.len() + self.s@.len() + 1 == 65),
//@end
    #[verifier::external_body] pub fn as_bytes(&self) -> (r: Bytes) ensures r@ == self.r@ + self.s@ + seq![self.standard_v] { unimplemented!() }
}
pub uninterp spec fn encoding(t: UnverifiedTransaction) -> Seq<u8>;
pub uninterp spec fn sighash(t: UnverifiedTransaction) -> Seq<u8>;
impl UnverifiedTransaction {
    #[verifier::external_body] pub fn encode(&self) -> (r: ProtocolResult<Bytes>) ensures r matches Ok(b) && b@ == encoding(*self) { unimplemented!() }
    #[verifier::external_body] pub fn signature_hash(&self, unsigned: bool) -> (r: H256) ensures unsigned ==> r@ == sighash(*self) { unimplemented!() }
}

// ---- the surroundings ----
pub struct Context { pub net: bool }
impl Context {
    #[verifier::external_body] pub fn new() -> Context { unimplemented!() }
    #[verifier::external_body] pub fn clone(&self) -> (r: Context) ensures r == *self { unimplemented!() }
    #[verifier::external_body] pub fn is_network_origin_txs(&self) -> (r: bool) ensures r == self.net { unimplemented!() }
    #[verifier::external_body] pub fn session_id(&self) -> (r: Option<SessionId>) ensures self.net ==> r is Some { unimplemented!() }
}
pub struct SessionId;
impl SessionId { #[verifier::external_body] pub fn value(&self) -> usize { unimplemented!() } }
pub enum TrustFeedback { Good, Bad(String), Worse(String) }
pub struct Network;
impl Network { #[verifier::external_body] pub fn report(&self, ctx: Context, f: TrustFeedback) { unimplemented!() } }
pub struct Header { pub number: u64, pub state_root: H256 }
pub struct Block { pub header: Header }
#[verifier::external_body]
pub struct Storage { x: u8 }
impl Storage {
    // the committed chain: its latest header, and the transactions in it
    pub uninterp spec fn latest(&self) -> Header;
    // the node's own database and state can be read
    pub uninterp spec fn healthy(&self) -> bool;
    pub uninterp spec fn committed(&self, h: Seq<u8>) -> bool;
    #[verifier::external_body] pub fn get_latest_block(&self, ctx: Context) -> (r: ProtocolResult<Block>) ensures self.healthy() ==> r is Ok, r matches Ok(b) ==> b.header == self.latest() && b.header.number < u64::MAX { unimplemented!() }
    #[verifier::external_body] pub fn get_latest_block_header(&self, ctx: Context) -> (r: ProtocolResult<Header>) ensures self.healthy() ==> r is Ok, r matches Ok(b) ==> b == self.latest() { unimplemented!() }
    #[verifier::external_body] pub fn get_transaction_by_hash(&self, ctx: Context, h: &Hash) -> (r: ProtocolResult<Option<SignedTransaction>>) ensures self.healthy() ==> r is Ok, r matches Ok(o) ==> (o is Some == self.committed(h@)) { unimplemented!() }
}
pub struct TrieDb;
pub struct ExecutorContext;
#[verifier::external_body] pub fn default_() -> ExecutorContext { unimplemented!() }
pub struct Basic { pub nonce: U256, pub balance: U256 }
pub uninterp spec fn account_in(root: Seq<u8>, a: H160) -> Basic;
pub uninterp spec fn metadata_in(root: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn cells_in(root: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn validator_in(meta: Seq<u8>, n: u64, a: H160) -> bool;
pub struct AxonExecutorReadOnlyAdapter { pub root: Ghost<Seq<u8>> }
impl AxonExecutorReadOnlyAdapter {
    #[verifier::external_body] pub fn from_root(root: H256, db: TrieDb, s: Storage, c: ExecutorContext) -> (r: ProtocolResult<AxonExecutorReadOnlyAdapter>) ensures s.healthy() ==> r is Ok, r matches Ok(b) ==> b.root@ == root@ { unimplemented!() }
    // no account has made 2^64 transactions
    #[verifier::external_body] pub fn basic(&self, a: H160) -> (r: Basic) ensures r == account_in(self.root@, a), r.nonce@ < pow64() { unimplemented!() }
    #[verifier::external_body] pub fn get_metadata_root(&self) -> (r: H256) ensures r@ == metadata_in(self.root@) { unimplemented!() }
    #[verifier::external_body] pub fn get_image_cell_root(&self) -> (r: H256) ensures r@ == cells_in(self.root@) { unimplemented!() }
}
pub uninterp spec fn metadata_readable(root: Seq<u8>) -> bool;
pub struct MetadataHandle { pub root: H256 }
impl MetadataHandle {
    #[verifier::external_body] pub fn new(root: H256) -> (r: MetadataHandle) ensures r.root == root { unimplemented!() }
    #[verifier::external_body] pub fn is_validator(&self, n: u64, a: H160) -> (r: ProtocolResult<bool>) ensures metadata_readable(self.root@) ==> r is Ok, r matches Ok(b) ==> b == validator_in(self.root@, n, a) { unimplemented!() }
}
pub struct CellDep;
pub struct CellDepWithPubKey { pub cell_dep: CellDep, pub pub_key: Bytes }
pub uninterp spec fn dep_of(b: Seq<u8>) -> Option<CellDepWithPubKey>;
pub uninterp spec fn verifies(msg: Seq<u8>, sig: Seq<u8>, key: Seq<u8>) -> bool;
// the CKB-VM's verdict: the exit code of the named program on these two arguments, if it can be run at all
pub uninterp spec fn vm_exit(cells: Seq<u8>, dep: CellDep, key: Seq<u8>, s: Seq<u8>) -> Option<i8>;
#[verifier::external_body] pub fn decode_dep_(b: &[u8]) -> (r: ProtocolResult<CellDepWithPubKey>) ensures r is Ok == dep_of(b@) is Some, r matches Ok(d) ==> dep_of(b@) == Some(d) { unimplemented!() }
#[verifier::external_body] pub fn tail_(b: &Bytes, n: usize) -> (r: &[u8]) requires n <= b@.len() ensures r@ == b@.subrange(n as int, b@.len() as int) { unimplemented!() }
pub struct Secp256k1Recoverable;
impl Secp256k1Recoverable { #[verifier::external_body] pub fn verify_signature(m: &[u8], s: &[u8], k: &[u8]) -> (r: ProtocolResult<()>) ensures r is Ok == verifies(m@, s@, k@) { unimplemented!() } }
pub struct DataProvider { pub root: H256 }
impl DataProvider { #[verifier::external_body] pub fn new(root: H256) -> (r: DataProvider) ensures r.root == root { unimplemented!() } }
pub struct VMResp { pub exit_code: i8, pub cycles: u64 }
pub struct InteroperationImpl;
impl InteroperationImpl {
    #[verifier::external_body] pub fn call_ckb_vm(ctx: ExecutorContext, d: &DataProvider, dep: CellDep, args: &[Bytes; 2], max: u64) -> (r: ProtocolResult<VMResp>)
        ensures r is Ok == vm_exit(d.root@, dep, args@[0]@, args@[1]@) is Some, r matches Ok(v) ==> vm_exit(d.root@, dep, args@[0]@, args@[1]@) == Some(v.exit_code) { unimplemented!() }
}

// ---- addresses of the system contracts ----
pub open spec fn system_format(a: H160) -> bool { a@.subrange(0, 19) == Seq::new(19, |i: int| 0xffu8) }
pub open spec fn is_system(a: H160) -> bool { system_format(a) && a@[19] <= 3 }
#[verifier::external_body] pub fn head19_is_(a: &H160, p: &[u8; 19]) -> (r: bool) ensures r == (a@.subrange(0, 19) == p@) { unimplemented!() }
// the four contracts' addresses, 0xff…ff00 to 0xff…ff03 (system_contract_address of native token, metadata, light client and image cell)
#[verifier::external_body] pub fn among_the_four_(a: &H160) -> (r: bool) ensures r == is_system(*a) { unimplemented!() }
//@item core/executor/src/system_contract/mod.rs :: const SYSTEM_CONTRACT_ADDRESSES_PREFIX
//@ sub /const SYS/ => /pub const SYS/
//@end
pub proof fn prefix_is_ff() ensures SYSTEM_CONTRACT_ADDRESSES_PREFIX@ == Seq::new(19, |i: int| 0xffu8) { assert(SYSTEM_CONTRACT_ADDRESSES_PREFIX@ =~= Seq::new(19, |i: int| 0xffu8)); }
//@fn core/executor/src/system_contract/mod.rs :: fn is_system_contract_address_format
//@ ret r
//@ sub /(\w+)\.0\[0?\.\.19\] == SYSTEM_CONTRACT_ADDRESSES_PREFIX/ => /head19_is_(\1, &SYSTEM_CONTRACT_ADDRESSES_PREFIX)/
//@ spec
    ensures r == system_format(*addr),
//@ start
    proof { prefix_is_ff(); }
//@end
//@fn core/executor/src/system_contract/mod.rs :: fn is_call_system_script
//@ ret r
//@ sub /(\w+)\.0\[0?\.\.19\] == SYSTEM_CONTRACT_ADDRESSES_PREFIX/ => /head19_is_(\1, &SYSTEM_CONTRACT_ADDRESSES_PREFIX)/ 0
//@ sub /SYSTEM_CONTRACT_ADDRESSES_SET\.contains\(/ => /among_the_four_(/
//@ spec
    ensures
        r matches Ok(b) ==> b == (*action matches TransactionAction::Call(a) && is_system(a)),
        r is Err ==> (*action matches TransactionAction::Call(a) && system_format(a) && !is_system(a)),
        (*action matches TransactionAction::Call(a) && system_format(a) && !is_system(a)) ==> r is Err,
//@ start
    proof { prefix_is_ff(); }
//@end
pub open spec fn calls_system(t: SignedTransaction) -> bool { spec_action(t.transaction.unsigned) matches TransactionAction::Call(a) && is_system(a) }

// ---- the statement, read off the transaction, the account and the adapter's settings ----
pub open spec fn latest_account(a: DefaultMemPoolAdapter, who: H160) -> Basic { account_in(a.storage.latest().state_root@, who) }
pub open spec fn valid_signature(a: DefaultMemPoolAdapter, t: SignedTransaction) -> bool {
    let sig = t.transaction.signature->Some_0;
    if sig.r@.len() + sig.s@.len() + 1 == 65 {
        verifies(sighash(t.transaction), sig.r@ + sig.s@ + seq![sig.standard_v], seq![4u8] + t.public->Some_0@)
    } else {
        let d = dep_of(sig.r@.subrange(1, sig.r@.len() as int));
        d is Some && vm_exit(cells_in(a.storage.latest().state_root@), d->Some_0.cell_dep, d->Some_0.pub_key@, sig.s@) == Some(0i8)
    }
}
pub open spec fn well_formed(a: DefaultMemPoolAdapter, t: SignedTransaction) -> bool {
    &&& t.transaction.signature is Some && t.public is Some
    &&& (t.transaction.chain_id is Some ==> t.transaction.chain_id == Some(a.chain_id))
    &&& encoding(t.transaction).len() <= a.max_tx_size
    &&& 0 < spec_price(t.transaction.unsigned) < 500_000_000_000
    &&& 21_000 <= spec_limit(t.transaction.unsigned) <= 30_000_000
    &&& valid_signature(a, t)
}
// the distance between the transaction's nonce and the account's; a system call needs a validator of the next block instead
pub open spec fn authorized(a: DefaultMemPoolAdapter, t: SignedTransaction, d: nat) -> bool {
    if calls_system(t) {
        d == 0 && validator_in(metadata_in(a.storage.latest().state_root@), (a.storage.latest().number + 1) as u64, t.sender)
    } else {
        &&& spec_nonce(t.transaction.unsigned) >= latest_account(a, t.sender).nonce@
        &&& latest_account(a, t.sender).balance@ >= spec_cost(t.transaction.unsigned)
        &&& d == spec_nonce(t.transaction.unsigned) - latest_account(a, t.sender).nonce@
    }
}
pub open spec fn reserved(t: SignedTransaction) -> bool { spec_action(t.transaction.unsigned) matches TransactionAction::Call(a) && system_format(a) && !is_system(a) }
pub open spec fn readable(a: DefaultMemPoolAdapter) -> bool { a.storage.healthy() && metadata_readable(metadata_in(a.storage.latest().state_root@)) }
// the sender's signed transactions come from SignedTransaction::from_unverified (C04): an interop signature names its verifier after one tag byte
pub open spec fn decoded(t: SignedTransaction) -> bool {
    t.transaction.signature is Some ==> {
        let sig = t.transaction.signature->Some_0;
        sig.r@.len() + sig.s@.len() < 0x1000_0000_0000 && (sig.r@.len() + sig.s@.len() + 1 != 65 ==> sig.r@.len() >= 1)
    }
}

// ---- the adapter ----
//@item protocol/src/constants/configs.rs :: const MIN_TRANSACTION_GAS_LIMIT
//@end
//@item protocol/src/constants/configs.rs :: const MAX_GAS_LIMIT
//@end
//@item protocol/src/constants/configs.rs :: const GWEI
//@ sub /(?:pub )?const GWEI/ => /pub const GWEI/
//@end
//@item protocol/src/constants/configs.rs :: const MAX_GAS_PRICE
//@ sub /pub const MAX_GAS_PRICE: U64 = U64\(\[([^\]]*)\]\);/ => /pub const MAX_GAS_PRICE_RAW: u64 = \1;/
//@end
#[verifier::external_body]
pub struct DashMap { x: u8 }
impl DashMap {
    pub uninterp spec fn view(&self) -> Map<H160, (U64, U256)>;
    #[verifier::external_body] pub fn get(&self, a: &H160) -> (r: Option<Ref>) ensures r matches Some(v) ==> self@.dom().contains(*a) && v.v == self@[*a], r is None ==> !self@.dom().contains(*a) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, a: H160, v: (U64, U256)) ensures final(self)@ == old(self)@.insert(a, v) { unimplemented!() }
    #[verifier::external_body] pub fn clear(&mut self) ensures final(self)@ == Map::<H160, (U64, U256)>::empty() { unimplemented!() }
}
pub struct Ref { pub v: (U64, U256) }
impl Ref { pub fn value(&self) -> (r: &(U64, U256)) ensures *r == self.v { &self.v } }
//@item core/mempool/src/adapter/mod.rs :: struct DefaultMemPoolAdapter
//@ sub /<C, N, S, DB, I>/ => //
//@ sub /network: N/ => /pub network: Network/
//@ sub /storage: Arc<S>/ => /pub storage: Storage/
//@ sub /trie_db: Arc<DB>/ => /pub trie_db: TrieDb/
//@ sub /addr_nonce:\s*DashMap<H160, \(U64, U256\)>/ => /pub addr_nonce: DashMap/
//@ sub /max_tx_size:\s*AtomicUsize/ => /pub max_tx_size: usize/
//@ sub /chain_id:/ => /pub chain_id:/
//@ sub /stx_tx: UnboundedSender<\(Option<usize>, SignedTransaction\)>,/ => //
//@ sub /err_rx: Mutex<UnboundedReceiver<ProtocolError>>,/ => //
//@ sub /pin_c: PhantomData<C>,/ => //
//@ sub /pin_i: PhantomData<I>,/ => //
//@end
// what is remembered of an account is what the latest state says of it
pub open spec fn cache_ok(a: DefaultMemPoolAdapter) -> bool {
    forall|w: H160| #[trigger] a.addr_nonce@.dom().contains(w) ==> a.addr_nonce@[w].0@ == latest_account(a, w).nonce@ && a.addr_nonce@[w].1 == latest_account(a, w).balance
}
impl DefaultMemPoolAdapter {
//@fn core/mempool/src/adapter/mod.rs :: impl DefaultMemPoolAdapter<C, N, S, DB, I>/fn executor_backend
//@ ret r
//@ sub /async fn/ => /fn/
//@ sub /\s*\.await/ => //
//@ sub /<S, DB>/ => // 0
//@ sub /Arc::clone\(/ => /own_(/
//@ sub /Default::default\(\)/ => /default_()/
//@ spec
    ensures self.storage.healthy() ==> r is Ok, r matches Ok(b) ==> b.root@ == self.storage.latest().state_root@,
//@end
//@fn core/mempool/src/adapter/mod.rs :: impl DefaultMemPoolAdapter<C, N, S, DB, I>/fn check_system_script_tx_authorization
//@ ret r
//@ sub /async fn/ => /fn/
//@ sub /\s*\.await/ => //
//@ sub /"[^"]*"\.to_string\(\)/ => /str_()/
//@ spec
    ensures
        r matches Ok(d) ==> d@ == 0 && validator_in(metadata_in(self.storage.latest().state_root@), (self.storage.latest().number + 1) as u64, stx.sender),
        self.storage.healthy() && metadata_readable(metadata_in(self.storage.latest().state_root@))
            && validator_in(metadata_in(self.storage.latest().state_root@), (self.storage.latest().number + 1) as u64, stx.sender) ==> r is Ok,
//@end
//@fn core/mempool/src/adapter/mod.rs :: impl DefaultMemPoolAdapter<C, N, S, DB, I>/fn verify_chain_id
//@ ret r
//@ sub /format!\((?:[^()]|\([^()]*\))*\)/ => /str_()/ 0
//@ sub /Some\(self\.chain_id\) != stx\.transaction\.chain_id/ => /stx.transaction.chain_id != Some(self.chain_id)/ 0
//@ spec
    ensures r is Ok == (stx.transaction.chain_id is Some ==> stx.transaction.chain_id == Some(self.chain_id)),
//@end
//@fn core/mempool/src/adapter/mod.rs :: impl DefaultMemPoolAdapter<C, N, S, DB, I>/fn verify_tx_size
//@ ret r
//@ sub /format!\((?:[^()]|\([^()]*\))*\)/ => /str_()/ 0
//@ sub /\.load\(Ordering::\w+\)/ => //
//@ spec
    ensures r is Ok == (encoding(stx.transaction).len() <= self.max_tx_size),
//@end
//@fn core/mempool/src/adapter/mod.rs :: impl DefaultMemPoolAdapter<C, N, S, DB, I>/fn verify_gas_price
//@ ret r
//@ sub /\bMAX_GAS_PRICE\b/ => /raw_u64_(MAX_GAS_PRICE_RAW)/
//@ spec
    ensures r is Ok == (0 < spec_price(stx.transaction.unsigned) < 500_000_000_000),
//@end
//@fn core/mempool/src/adapter/mod.rs :: impl DefaultMemPoolAdapter<C, N, S, DB, I>/fn verify_gas_limit
//@ ret r
//@ sub /format!\((?:[^()]|\([^()]*\))*\)/ => /str_()/ 0
//@ sub /stx\.transaction\.unsigned\.gas_limit\(\)/ => /(*stx.transaction.unsigned.gas_limit())/
//@ sub /&\((\w+)\.into\(\)\)/ => /U64::from(\1)/
//@ spec
    ensures r is Ok == (21_000 <= spec_limit(stx.transaction.unsigned) <= 30_000_000),
//@end
//@fn core/mempool/src/adapter/mod.rs :: impl DefaultMemPoolAdapter<C, N, S, DB, I>/fn verify_signature
//@ ret r
//@ sub /async fn/ => /fn/
//@ sub /\s*\.await/ => //
//@ sub /\s*\.map_err\([^;]*\)\?;/ => /?;/
//@ sub /format!\((?:[^()]|\([^()]*\))*\)/ => /str_()/ 0
//@ sub /rlp::decode::<CellDepWithPubKey>\(&signature\.r\[(\w+)\.\.\]\)/ => /decode_dep_(tail_(&signature.r, \1))/
//@ sub /Default::default\(\)/ => /default_()/
//@ spec
    requires stx.transaction.signature is Some, stx.public is Some, decoded(*stx),
    ensures
        r is Ok ==> valid_signature(*self, *stx),
        self.storage.healthy() && valid_signature(*self, *stx) ==> r is Ok,
//@end
//@fn core/mempool/src/adapter/mod.rs :: impl MemPoolAdapter for DefaultMemPoolAdapter<C, N, S, DB, I>/fn check_transaction
//@ ret r
//@ sub /async fn/ => /pub fn/
//@ sub /\s*\.await/ => //
//@ sub /"[^"]*"\.to_string\(\)/ => /str_()/
//@ spec
    requires decoded(*stx),
    ensures
        r is Ok ==> well_formed(*self, *stx),
        self.storage.healthy() && well_formed(*self, *stx) ==> r is Ok,
//@end
//@fn core/mempool/src/adapter/mod.rs :: impl MemPoolAdapter for DefaultMemPoolAdapter<C, N, S, DB, I>/fn check_authorization
//@ ret r
//@ sub /async fn/ => /pub fn/
//@ sub /\s*\.await/ => //
//@ sub /\(\s*&self,/ => /(&mut self,/
//@ sub /tx\.transaction\.unsigned\.nonce\(\)/ => /(*tx.transaction.unsigned.nonce())/
//@ sub /< &res/ => /< res/ 0
//@ spec
    requires cache_ok(*old(self)),
    ensures
        cache_ok(*final(self)), final(self).storage == old(self).storage, final(self).chain_id == old(self).chain_id, final(self).max_tx_size == old(self).max_tx_size,
        r matches Ok(d) ==> authorized(*final(self), *tx, d@) && !reserved(*tx),
        readable(*final(self)) && !reserved(*tx) && (exists|d: nat| authorized(*final(self), *tx, d)) ==> r is Ok,
//@end
//@fn core/mempool/src/adapter/mod.rs :: impl MemPoolAdapter for DefaultMemPoolAdapter<C, N, S, DB, I>/fn check_storage_exist
//@ ret r
//@ sub /async fn/ => /pub fn/
//@ sub /\s*\.await/ => //
//@ spec
    ensures
        r is Ok ==> !self.storage.committed(tx_hash@),
        self.storage.healthy() && !self.storage.committed(tx_hash@) ==> r is Ok,
//@end
//@fn core/mempool/src/adapter/mod.rs :: impl MemPoolAdapter for DefaultMemPoolAdapter<C, N, S, DB, I>/fn set_args
//@ sub /fn set_args/ => /pub fn set_args/
//@ sub /\(\s*&self,/ => /(&mut self,/
//@ sub /MerkleRoot/ => /H256/
//@ sub /self\.max_tx_size\s*\.store\(([^;]*), Ordering::\w+\);/ => /self.max_tx_size = \1;/
//@ spec
    ensures cache_ok(*final(self)), final(self).max_tx_size == max_tx_size, final(self).chain_id == old(self).chain_id,
//@end
//@fn core/mempool/src/adapter/mod.rs :: impl MemPoolAdapter for DefaultMemPoolAdapter<C, N, S, DB, I>/fn clear_nonce_cache
//@ sub /fn clear/ => /pub fn clear/
//@ sub /\(&self\)/ => /(&mut self)/
//@ spec
    ensures cache_ok(*final(self)),
//@end
}
}
pub mod mp {
use super::*;
use super::sh::*;
use super::ad::*;
broadcast use {num_axioms, bytes_axioms};
// what the pool was handed: each transaction with its nonce's distance, in order (the pool itself is C18)
pub struct Entry { pub tx: SignedTransaction, pub diff: nat, pub system: bool }
pub struct PriorityPool { pub log: Ghost<Seq<Entry>> }
impl PriorityPool {
    pub uninterp spec fn has(&self, h: Seq<u8>) -> bool;
    #[verifier::external_body] pub fn reach_limit(&self) -> Result<(), usize> { unimplemented!() }
    #[verifier::external_body] pub fn contains(&self, h: &Hash) -> (r: bool) ensures r == self.has(h@) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, stx: SignedTransaction, check_limit: bool, diff: U64) -> (r: ProtocolResult<()>)
        ensures r is Ok ==> final(self).log@ == old(self).log@.push(Entry { tx: stx, diff: diff@, system: false }), r is Err ==> final(self).log@ == old(self).log@ { unimplemented!() }
    #[verifier::external_body] pub fn insert_system_script_tx(&mut self, stx: SignedTransaction) -> (r: ProtocolResult<()>)
        ensures r is Ok ==> final(self).log@ == old(self).log@.push(Entry { tx: stx, diff: 0, system: true }), r is Err ==> final(self).log@ == old(self).log@ { unimplemented!() }
    #[verifier::external_body] pub fn flush(&mut self, hs: &[Hash], n: BlockNumber) ensures final(self).log@ == old(self).log@ { unimplemented!() }
}
impl DefaultMemPoolAdapter {
    #[verifier::external_body] pub fn broadcast_tx(&self, ctx: Context, origin: Option<usize>, tx: SignedTransaction) -> ProtocolResult<()> { unimplemented!() }
    #[verifier::external_body] pub fn report_good(&self, ctx: Context) { unimplemented!() }
    // what a peer answers is anything at all that decodes
    #[verifier::external_body] pub fn pull_txs(&self, ctx: Context, height: Option<u64>, hs: Vec<Hash>) -> (r: ProtocolResult<Vec<SignedTransaction>>) ensures r matches Ok(v) ==> forall|i: int| 0 <= i < v@.len() ==> decoded(#[trigger] v@[i]) { unimplemented!() }
}
#[verifier::external_body] pub fn clone_vec_(v: &Vec<SignedTransaction>) -> (r: Vec<SignedTransaction>) ensures r@ == v@ { unimplemented!() }
#[verifier::external_body] pub fn zip_(a: Vec<SignedTransaction>, b: Vec<U64>) -> (r: Vec<(SignedTransaction, U64)>)
    ensures r@.len() == (if a@.len() <= b@.len() { a@.len() } else { b@.len() }), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == (a@[i], b@[i]) { unimplemented!() }
pub struct HashSet { pub x: Ghost<Set<Hash>> }
impl HashSet {
    #[verifier::external_body] pub fn with_capacity(n: usize) -> (r: HashSet) ensures r.x@ == Set::<Hash>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn contains(&self, h: &Hash) -> (r: bool) ensures r == self.x@.contains(*h) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, h: &Hash) -> (r: bool) ensures r == !old(self).x@.contains(*h), final(self).x@ == old(self).x@.insert(*h) { unimplemented!() }
}
//@item core/mempool/src/lib.rs :: struct MemPoolImpl
//@ sub /MemPoolImpl<Adapter>/ => /MemPoolImpl/
//@ sub /adapter: Arc<Adapter>/ => /pub adapter: DefaultMemPoolAdapter/
//@ sub /pool:    / => /pub pool: /
//@end
pub open spec fn same_checks(a: DefaultMemPoolAdapter, b: DefaultMemPoolAdapter) -> bool { a.storage == b.storage && a.chain_id == b.chain_id && a.max_tx_size == b.max_tx_size }
pub open spec fn admissible(a: DefaultMemPoolAdapter, t: SignedTransaction, d: nat) -> bool {
    authorized(a, t, d) && !reserved(t) && well_formed(a, t) && !a.storage.committed(t.transaction.hash@)
}
pub open spec fn admitted(a: DefaultMemPoolAdapter, e: Entry) -> bool { admissible(a, e.tx, e.diff) && e.system == calls_system(e.tx) }
// everything the pool was handed since `old` has passed every check, against the chain as it stands
pub open spec fn grew(a: DefaultMemPoolAdapter, old: Seq<Entry>, new: Seq<Entry>) -> bool {
    &&& old.len() <= new.len()
    &&& forall|i: int| 0 <= i < new.len() ==> (if i < old.len() { new[i] == old[i] } else { admitted(a, #[trigger] new[i]) })
}
//@fn core/mempool/src/lib.rs :: fn check_dup_order_hashes
//@ ret r
//@ loop 0 it
    invariant
        forall|h: Hash| dup_set.x@.contains(h) == (exists|i: int| 0 <= i < it.index@ && #[trigger] order_tx_hashes@[i] == h),
        forall|i: int, j: int| 0 <= i < j < it.index@ ==> order_tx_hashes@[i] != order_tx_hashes@[j],
//@ spec
    ensures r is Ok == (forall|i: int, j: int| 0 <= i < j < order_tx_hashes@.len() ==> order_tx_hashes@[i] != order_tx_hashes@[j]),
//@end
impl MemPoolImpl {
//@fn core/mempool/src/lib.rs :: impl MemPoolImpl<Adapter>/fn insert_tx
//@ ret r
//@ sub /async fn/ => /fn/
//@ sub /\s*\.await/ => //
//@ sub /\(\s*&self,/ => /(&mut self,/
//@ spec
    requires cache_ok(old(self).adapter), decoded(tx), is_system_script == calls_system(tx),
    ensures
        cache_ok(final(self).adapter), same_checks(final(self).adapter, old(self).adapter),
        grew(old(self).adapter, old(self).pool.log@, final(self).pool.log@),
        final(self).pool.log@.len() <= old(self).pool.log@.len() + 1,
        final(self).pool.log@.len() == old(self).pool.log@.len() + 1 ==> final(self).pool.log@.last().tx == tx,
//@end
//@fn core/mempool/src/lib.rs :: impl MemPool for MemPoolImpl<Adapter>/fn insert
//@ ret r
//@ sub /async fn/ => /fn/
//@ sub /\s*\.await/ => //
//@ sub /\(\s*&self,/ => /(&mut self,/
//@ spec
    requires cache_ok(old(self).adapter), decoded(tx),
    ensures
        cache_ok(final(self).adapter), same_checks(final(self).adapter, old(self).adapter),
        grew(old(self).adapter, old(self).pool.log@, final(self).pool.log@),
        final(self).pool.log@.len() == old(self).pool.log@.len() || (final(self).pool.log@.len() == old(self).pool.log@.len() + 1 && final(self).pool.log@.last().tx == tx),
//@end
//@fn core/mempool/src/lib.rs :: impl MemPool for MemPoolImpl<Adapter>/fn flush
//@ sub /async fn/ => /fn/
//@ sub /\s*\.await/ => //
//@ sub /\(\s*&self,/ => /(&mut self,/
//@ spec
    ensures cache_ok(final(self).adapter), final(self).pool.log@ == old(self).pool.log@,
//@end
//@fn core/mempool/src/lib.rs :: impl MemPoolImpl<Adapter>/fn show_unknown_txs
//@ ret r
//@ sub /async fn/ => /fn/
//@ collect Hash
//@ loop 0
    invariant
        at0_ <= tx_hashes@.len(),
        forall|i: int| 0 <= i < at0_ && !self.pool.has(tx_hashes@[i]@) ==> #[trigger] out0_@.contains(tx_hashes@[i]),
        forall|i: int| 0 <= i < out0_@.len() ==> !self.pool.has((#[trigger] out0_@[i])@),
    decreases tx_hashes@.len() - at0_,
//@ loopstart 0
    let ghost pre_ = out0_@;
//@ loopend 0
    proof {
        assert forall|i: int| 0 <= i < at0_ && !self.pool.has(tx_hashes@[i]@) implies #[trigger] out0_@.contains(tx_hashes@[i]) by {
            if i < at0_ - 1 { assert(pre_.contains(tx_hashes@[i])); let j = choose|j: int| 0 <= j < pre_.len() && pre_[j] == tx_hashes@[i]; assert(out0_@[j] == tx_hashes@[i]); }
            else { assert(out0_@.last() == tx_hashes@[i]); }
        }
    }
//@ spec
    ensures
        forall|i: int| 0 <= i < tx_hashes@.len() && !self.pool.has(tx_hashes@[i]@) ==> #[trigger] r@.contains(tx_hashes@[i]),
        forall|i: int| 0 <= i < r@.len() ==> !self.pool.has((#[trigger] r@[i])@),
//@end
//@fn core/mempool/src/lib.rs :: impl MemPoolImpl<Adapter>/fn verify_tx_in_parallel
//@ ret r
//@ sub /async fn/ => /fn/
//@ sub /\s*\.await/ => //
//@ sub /\(\s*&self,/ => /(&mut self,/
//@ sub /let inst = Instant::now\(\);/ => //
//@ sub /let futs = txs\s*\.into_iter\(\)\s*\.map\(\|tx\| \{/ => /let mut res_: Vec<U64> = Vec::new();\n        for tx in txs {/
//@ sub /let adapter = Arc::clone\(&self\.adapter\);/ => //
//@ sub /\badapter\s*\.(check_\w+)/ => /self.adapter.\1/
//@ sub /tokio::spawn\(async move \{/ => /{/
//@ sub /Ok\(check_nonce\)\s*\}\)\s*\}\)\s*\.collect::<[^;]*;/ => /res_.push(check_nonce); } }/
//@ sub /let res: Vec<U64> = try_join_all[^;]*;/ => /let res: Vec<U64> = res_;/
//@ loop 0 it
    invariant
        cache_ok(self.adapter), same_checks(self.adapter, old(self).adapter), self.pool == old(self).pool,
        forall|i: int| 0 <= i < it.seq().len() ==> decoded(#[trigger] it.seq()[i]),
        res_@.len() == it.index@,
        forall|i: int| 0 <= i < res_@.len() ==> admissible(old(self).adapter, it.seq()[i], (#[trigger] res_@[i])@),
//@ spec
    requires cache_ok(old(self).adapter), forall|i: int| 0 <= i < txs@.len() ==> decoded(#[trigger] txs@[i]),
    ensures
        cache_ok(final(self).adapter), same_checks(final(self).adapter, old(self).adapter), final(self).pool == old(self).pool,
        r matches Ok(v) ==> v@.len() == txs@.len() && forall|i: int| 0 <= i < txs@.len() ==> admissible(old(self).adapter, #[trigger] txs@[i], v@[i]@),
//@end
//@fn core/mempool/src/lib.rs :: impl MemPool for MemPoolImpl<Adapter>/fn ensure_order_txs
//@ ret r
//@ sub /async fn/ => /fn/
//@ sub /\s*\.await/ => //
//@ sub /\(\s*&self,/ => /(&mut self,/
//@ sub /self\s*\.adapter\s*\.pull_txs/ => /self.adapter.pull_txs/
//@ sub /txs\.clone\(\)/ => /clone_vec_(&txs)/
//@ sub /for \((\w+), (\w+)\) in txs\.into_iter\(\)\.zip\(check_nonces\.into_iter\(\)\) \{/ => /for pair_ in zip_(txs, check_nonces) {\n                let (\1, \2) = pair_;/
//@ loop 0 it
    invariant
        cache_ok(self.adapter), same_checks(self.adapter, old(self).adapter),
        forall|i: int| 0 <= i < it.seq().len() ==> admissible(old(self).adapter, (#[trigger] it.seq()[i]).0, it.seq()[i].1@),
        grew(old(self).adapter, old(self).pool.log@, self.pool.log@),
//@ spec
    requires cache_ok(old(self).adapter),
    ensures
        cache_ok(final(self).adapter), same_checks(final(self).adapter, old(self).adapter),
        grew(old(self).adapter, old(self).pool.log@, final(self).pool.log@),
//@end
}
}
}
fn main() {}
