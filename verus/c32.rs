//@include head.rs
global size_of usize == 8;
pub mod sh {
use super::*;
//@include num.rs
//@include bytes.rs
}
use sh::*;
pub mod ax {
use super::*;
use super::sh::*;
pub type M = Map<Seq<u8>, Seq<u8>>;
pub uninterp spec fn root_of(m: M) -> H256;
pub uninterp spec fn contents(r: H256) -> M;
/// a root that has been written (and what is written is never removed: c32d)
pub uninterp spec fn written(r: H256) -> bool;
pub uninterp spec fn null_root() -> H256;
pub uninterp spec fn nil_hash() -> H256;
pub open spec fn empty() -> M { Map::<Seq<u8>, Seq<u8>>::empty() }
pub struct Account { pub nonce: U256, pub balance: U256, pub storage_root: H256, pub code_hash: H256 }
pub uninterp spec fn acc_enc(a: Account) -> Seq<u8>;
pub uninterp spec fn acc_dec(s: Seq<u8>) -> Option<Account>;
pub uninterp spec fn num_enc(n: U256) -> Seq<u8>;
pub uninterp spec fn num_dec(s: Seq<u8>) -> Option<U256>;
pub uninterp spec fn word_of(n: U256) -> H256;
pub broadcast axiom fn root_contents(m: M) ensures contents(#[trigger] root_of(m)) == m;
pub broadcast axiom fn contents_root(r: H256) requires written(r) ensures root_of(#[trigger] contents(r)) == r;
pub broadcast axiom fn null_is_empty() ensures #[trigger] null_root() == root_of(empty());
pub broadcast axiom fn nil_is_hash_of_nothing() ensures #[trigger] nil_hash() == keccak(Seq::empty());
/// no two of the keys or codes that occur have the same hash, and none has the hash zero
pub broadcast axiom fn no_collision(a: Seq<u8>, b: Seq<u8>) requires #[trigger] keccak(a) == #[trigger] keccak(b) ensures a == b;
pub broadcast axiom fn no_zero(a: Seq<u8>) ensures #[trigger] keccak(a) != h256(Seq::new(32, |i: int| 0u8));
pub broadcast axiom fn acc_coded(a: Account) ensures #[trigger] acc_dec(acc_enc(a)) == Some(a);
pub broadcast axiom fn acc_coded_nonempty(a: Account) ensures (#[trigger] acc_enc(a)).len() > 0;
pub broadcast axiom fn num_coded(n: U256) ensures #[trigger] num_dec(num_enc(n)) == Some(n);
pub broadcast axiom fn num_coded_nonempty(n: U256) ensures (#[trigger] num_enc(n)).len() > 0;
pub broadcast axiom fn h256_be(n: U256) ensures be((#[trigger] word_of(n))@) == n@;
pub broadcast group trie_axioms { root_contents, contents_root, null_is_empty, nil_is_hash_of_nothing, no_collision, no_zero, acc_coded, acc_coded_nonempty, num_coded, num_coded_nonempty, h256_be }
}
// C32, the state: accounts and their slots in Merkle tries, codes in the store.
pub mod state {
use super::*;
use super::sh::*;
use super::ax::*;
broadcast use {num_axioms, bytes_axioms, trie_axioms};
#[derive(Debug)] pub struct TrieError;
#[derive(Debug)] pub struct ProtocolError;
pub type ProtocolResult<T> = Result<T, ProtocolError>;
impl From<TrieError> for ProtocolError { #[verifier::external_body] fn from(e: TrieError) -> ProtocolError { unimplemented!() } }
// ---- the Merkle trie: a map of bytes; its root stands for the map ----
pub assume_specification<T, E>[ Result::<T, E>::unwrap_or ](x: Result<T, E>, d: T) -> (r: T) where E: core::marker::Destruct, T: core::marker::Destruct ensures r == (match x { Ok(v) => v, Err(_) => d });
#[verifier::external_body] pub fn rlp_null() -> (r: H256) ensures r == null_root() { unimplemented!() }
#[verifier::external_body] pub fn nil_data() -> (r: H256) ensures r == nil_hash() { unimplemented!() }
/// the column the tries are kept in
#[verifier::external_body] pub struct TrieDb { x: u8 }
#[verifier::external_body] pub fn share(d: &TrieDb) -> TrieDb { unimplemented!() }
pub struct HasherKeccak;
impl HasherKeccak { #[verifier::external_body] pub fn new() -> HasherKeccak { unimplemented!() } }
#[verifier::external_body] pub struct PatriciaTrie { x: u8 }
impl PatriciaTrie {
    pub uninterp spec fn view(&self) -> M;
    /// whether nodes of this trie are missing below
    pub uninterp spec fn whole(&self) -> bool;
    #[verifier::external_body] pub fn new(db: TrieDb, h: HasherKeccak) -> (r: PatriciaTrie) ensures r@ == empty(), r.whole() { unimplemented!() }
    #[verifier::external_body] pub fn from(db: TrieDb, h: HasherKeccak, root: &[u8]) -> (r: Result<PatriciaTrie, TrieError>)
        ensures written(h256(root@)) ==> r is Ok && r->Ok_0.whole(), r matches Ok(t) ==> t@ == contents(h256(root@)) { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &[u8]) -> (r: Result<Option<Vec<u8>>, TrieError>)
        ensures self.whole() ==> r is Ok, r matches Ok(o) ==> (o is Some) == self@.contains_key(k@), r matches Ok(Some(v)) ==> v@ == self@[k@] { unimplemented!() }
    #[verifier::external_body] pub fn contains(&self, k: &[u8]) -> (r: Result<bool, TrieError>) ensures self.whole() ==> r is Ok, r matches Ok(b) ==> b == self@.contains_key(k@) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: Vec<u8>, v: Vec<u8>) -> (r: Result<(), TrieError>)
        ensures final(self).whole() == old(self).whole(), old(self).whole() ==> r is Ok, r is Ok ==> final(self)@ == (if v@.len() == 0 { old(self)@.remove(k@) } else { old(self)@.insert(k@, v@) }) { unimplemented!() }
    #[verifier::external_body] pub fn remove(&mut self, k: &[u8]) -> (r: Result<bool, TrieError>)
        ensures final(self).whole() == old(self).whole(), old(self).whole() ==> r is Ok, r matches Ok(b) ==> final(self)@ == old(self)@.remove(k@) && b == old(self)@.contains_key(k@) { unimplemented!() }
    #[verifier::external_body] pub fn root(&mut self) -> (r: Result<Vec<u8>, TrieError>)
        ensures final(self)@ == old(self)@, final(self).whole() == old(self).whole(), old(self).whole() ==> r is Ok, r matches Ok(v) ==> v@ == root_of(old(self)@)@ && written(root_of(old(self)@)) { unimplemented!() }
}
/// the key under which the trie has `k`
pub open spec fn at(k: Seq<u8>) -> Seq<u8> { keccak(k)@ }
proof fn at_is_one_to_one(a: Seq<u8>, b: Seq<u8>) requires at(a) == at(b) ensures a == b { axiom_h256_ext(keccak(a)); axiom_h256_ext(keccak(b)); }
pub struct MPTTrie(pub PatriciaTrie);
impl MPTTrie {
    pub open spec fn view(&self) -> M { self.0@ }
    pub open spec fn whole(&self) -> bool { self.0.whole() }
//@fn core/executor/src/adapter/trie/wrapped.rs :: impl Trie<DB, HasherKeccak> for MPTTrie<DB>/fn get
//@ ret r
//@ sub /&(Hasher::digest\(\w+\))\.0/ => /\1.as_bytes()/
//@ spec
    ensures self.whole() ==> r is Ok, r matches Ok(o) ==> (o is Some) == self@.contains_key(at(key@)), r matches Ok(Some(v)) ==> v@ == self@[at(key@)],
//@end
//@fn core/executor/src/adapter/trie/wrapped.rs :: impl Trie<DB, HasherKeccak> for MPTTrie<DB>/fn contains
//@ ret r
//@ sub /&(Hasher::digest\(\w+\))\.0/ => /\1.as_bytes()/
//@ spec
    ensures self.whole() ==> r is Ok, r matches Ok(b) ==> b == self@.contains_key(at(key@)),
//@end
//@fn core/executor/src/adapter/trie/wrapped.rs :: impl Trie<DB, HasherKeccak> for MPTTrie<DB>/fn insert
//@ ret r
//@ sub /(Hasher::digest\(\w+\))\.0\.to_vec\(\)/ => /to_vec_(\1.as_bytes())/
//@ spec
    ensures final(self).whole() == old(self).whole(), old(self).whole() ==> r is Ok, r is Ok && value@.len() > 0 ==> final(self)@ == old(self)@.insert(at(key@), value@),
//@end
//@fn core/executor/src/adapter/trie/wrapped.rs :: impl Trie<DB, HasherKeccak> for MPTTrie<DB>/fn remove
//@ ret r
//@ sub /&(Hasher::digest\(\w+\))\.0/ => /\1.as_bytes()/
//@ spec
    ensures final(self).whole() == old(self).whole(), old(self).whole() ==> r is Ok, r matches Ok(b) ==> final(self)@ == old(self)@.remove(at(key@)) && b == old(self)@.contains_key(at(key@)),
//@end
//@fn core/executor/src/adapter/trie/wrapped.rs :: impl Trie<DB, HasherKeccak> for MPTTrie<DB>/fn root
//@ ret r
//@ spec
    ensures final(self)@ == old(self)@, final(self).whole() == old(self).whole(), old(self).whole() ==> r is Ok, r matches Ok(v) ==> v@ == root_of(old(self)@)@ && written(root_of(old(self)@)),
//@end
//@fn core/executor/src/adapter/trie/wrapped.rs :: impl MPTTrie<DB>/fn new
//@ ret r
//@ sub /Arc<DB>/ => /TrieDb/
//@ sub /Arc::new\((HasherKeccak::new\(\))\)/ => /\1/
//@ spec
    ensures r@ == empty(), r.whole(),
//@end
//@fn core/executor/src/adapter/trie/wrapped.rs :: impl MPTTrie<DB>/fn from_root
//@ ret r
//@ sub /Arc<DB>/ => /TrieDb/
//@ sub /Arc::new\((HasherKeccak::new\(\))\)/ => /\1/
//@ spec
    ensures written(root) ==> r is Ok && r->Ok_0.whole(), r matches Ok(t) ==> t@ == contents(root),
//@end
//@fn core/executor/src/adapter/trie/wrapped.rs :: impl MPTTrie<DB>/fn commit
//@ ret r
//@ sub /self\.0\s*\.root\(\)\s*\.map\(\|(\w+)\| (MerkleRoot::from_slice\(&\w+\))\)\s*\.map_err\(Into::into\)/ => /{ let x_ = self.0.root(); match x_ { Ok(\1) => Ok(\2), Err(e_) => Err(ProtocolError::from(e_)) } }/
//@ spec
    ensures final(self)@ == old(self)@, final(self).whole() == old(self).whole(), old(self).whole() ==> r is Ok, r matches Ok(q) ==> q == root_of(old(self)@) && written(q),
//@end
}
#[verifier::external_body] pub fn to_vec_(s: &[u8]) -> (r: Vec<u8>) ensures r@ == s@ { unimplemented!() }
// ---- accounts ----
impl Account {
    #[verifier::external_body] pub fn encode(&self) -> (r: ProtocolResult<Encoded>) ensures r is Ok, r->Ok_0@ == acc_enc(*self) { unimplemented!() }
    #[verifier::external_body] pub fn decode(b: Vec<u8>) -> (r: ProtocolResult<Account>) ensures (r is Ok) == (acc_dec(b@) is Some), r matches Ok(a) ==> acc_dec(b@) == Some(a) { unimplemented!() }
}
#[verifier::external_body] pub struct Encoded { x: u8 }
impl Encoded { pub uninterp spec fn view(&self) -> Seq<u8>; #[verifier::external_body] pub fn to_vec(&self) -> (r: Vec<u8>) ensures r@ == self@ { unimplemented!() } }
#[verifier::external_body] pub fn num_encode(n: U256) -> (r: ProtocolResult<Encoded>) ensures r is Ok, r->Ok_0@ == num_enc(n) { unimplemented!() }
#[verifier::external_body] pub fn num_decode(b: Vec<u8>) -> (r: ProtocolResult<U256>) ensures (r is Ok) == (num_dec(b@) is Some), r matches Ok(a) ==> num_dec(b@) == Some(a) { unimplemented!() }
#[verifier::external_body] pub fn from_big_endian(b: &[u8]) -> (r: U256) requires b@.len() == 32 ensures r@ == be(b@) { unimplemented!() }
#[verifier::external_body] pub fn from_uint(n: &U256) -> (r: H256) ensures r == word_of(*n) { unimplemented!() }
pub open spec fn zero() -> H256 { h256(Seq::new(32, |i: int| 0u8)) }
// ---- the store of codes ----
pub struct Context;
impl Context { #[verifier::external_body] pub fn new() -> Context { unimplemented!() } }
#[verifier::external_body] pub struct Block { x: u8 }
impl Block { pub uninterp spec fn hash_of(&self) -> H256; #[verifier::external_body] pub fn hash(&self) -> (r: H256) ensures r == self.hash_of() { unimplemented!() } }
#[verifier::external_body] pub struct Store { x: u8 }
impl Store {
    pub uninterp spec fn codes(&self) -> Map<H256, Seq<u8>>;
    pub uninterp spec fn block_at(&self, n: u64) -> Option<Block>;
    #[verifier::external_body] pub fn insert_code(&mut self, c: Context, a: H256, h: H256, code: Bytes) -> (r: ProtocolResult<()>)
        ensures r is Ok, final(self).codes() == old(self).codes().insert(h, code@), forall|n: u64| final(self).block_at(n) == old(self).block_at(n) { unimplemented!() }
    #[verifier::external_body] pub fn get_code_by_hash(&self, c: Context, h: &H256) -> (r: ProtocolResult<Option<Bytes>>)
        ensures r is Ok, (r->Ok_0 is Some) == self.codes().contains_key(*h), r->Ok_0 matches Some(b) ==> b@ == self.codes()[*h] { unimplemented!() }
    #[verifier::external_body] pub fn get_block(&self, c: Context, n: u64) -> (r: ProtocolResult<Option<Block>>) ensures r is Ok, r->Ok_0 == self.block_at(n) { unimplemented!() }
}
#[verifier::external_body] pub fn share_store(s: &Store) -> (r: Store) ensures r.codes() == s.codes() { unimplemented!() }
#[verifier::external_body] pub fn widen(a: H160) -> H256 { unimplemented!() }
#[verifier::external_body] pub fn bytes_vec(b: Bytes) -> (r: Vec<u8>) ensures r@ == b@ { unimplemented!() }
#[verifier::external_body] pub fn code_or_none(o: Option<Bytes>) -> (r: Bytes) ensures r@ == (match o { Some(b) => b@, None => Seq::empty() }) { unimplemented!() }
pub struct Basic { pub balance: U256, pub nonce: U256 }
impl Basic { #[verifier::external_body] pub fn default() -> (r: Basic) ensures r.balance@ == 0, r.nonce@ == 0 { unimplemented!() } }
#[verifier::external_body] pub struct Log { x: u8 }
#[verifier::external_body] pub struct ExtraData { x: u8 }
pub enum Apply { Modify { address: H160, basic: Basic, code: Option<Vec<u8>>, storage: Vec<(H256, H256)>, reset_storage: bool }, Delete { address: H160 } }

// ---- what one sees of an account and one of its slots ----
pub struct Seen { pub there: bool, pub nonce: nat, pub balance: nat, pub code: Seq<u8>, pub slot: H256 }
pub open spec fn nothing() -> Seen { Seen { there: false, nonce: 0, balance: 0, code: Seq::empty(), slot: zero() } }
pub open spec fn acc(m: M, a: H160) -> Account { acc_dec(m[at(a@)])->Some_0 }
pub open spec fn slot_in(m: M, k: H256) -> H256 { if m.contains_key(at(k@)) { word_of(num_dec(m[at(k@)])->Some_0) } else { zero() } }
pub open spec fn code_in(codes: Map<H256, Seq<u8>>, h: H256) -> Seq<u8> { if h == nil_hash() { Seq::empty() } else { codes[h] } }
pub open spec fn seen(m: M, codes: Map<H256, Seq<u8>>, a: H160, k: H256) -> Seen {
    if m.contains_key(at(a@)) { let x = acc(m, a); Seen { there: true, nonce: x.nonce@, balance: x.balance@, code: code_in(codes, x.code_hash), slot: slot_in(contents(x.storage_root), k) } }
    else { nothing() } }
/// the value the last of these writes gives slot `k`
pub open spec fn slot_after(v: H256, s: Seq<(H256, H256)>, k: H256) -> H256 decreases s.len() { if s.len() == 0 { v } else if s.last().0 == k { s.last().1 } else { slot_after(v, s.drop_last(), k) } }
pub open spec fn step(o: Seen, x: Apply, a: H160, k: H256) -> Seen {
    match x {
        Apply::Modify { address, basic, code, storage, reset_storage } => if address != a { o } else { Seen { there: true, nonce: basic.nonce@, balance: basic.balance@,
            code: match code { Some(c) => c@, None => o.code }, slot: slot_after(if reset_storage { zero() } else { o.slot }, storage@, k) } },
        Apply::Delete { address } => if address != a { o } else { nothing() },
    } }
pub open spec fn run(o: Seen, s: Seq<Apply>, a: H160, k: H256) -> Seen decreases s.len() { if s.len() == 0 { o } else { step(run(o, s.drop_last(), a, k), s.last(), a, k) } }
// ---- well-formed states ----
pub open spec fn good_slots(m: M) -> bool { forall|k: Seq<u8>| #[trigger] m.contains_key(k) ==> num_dec(m[k]) is Some }
pub open spec fn good_acc(x: Account, codes: Map<H256, Seq<u8>>) -> bool {
    (x.storage_root == null_root() || written(x.storage_root)) && good_slots(contents(x.storage_root)) && (x.code_hash == nil_hash() || codes.contains_key(x.code_hash)) && x.code_hash != zero() }
/// codes are only added
pub open spec fn grown(c: Map<H256, Seq<u8>>, d: Map<H256, Seq<u8>>) -> bool { forall|h: H256| #[trigger] c.contains_key(h) ==> d.contains_key(h) && d[h] == c[h] }
pub open spec fn good_codes(codes: Map<H256, Seq<u8>>) -> bool { forall|h: H256| #[trigger] codes.contains_key(h) ==> keccak(codes[h]) == h }
pub open spec fn good(m: M, codes: Map<H256, Seq<u8>>) -> bool { good_codes(codes) && forall|k: Seq<u8>| #[trigger] m.contains_key(k) ==> acc_dec(m[k]) is Some && good_acc(acc_dec(m[k])->Some_0, codes) }
proof fn nothing_good(codes: Map<H256, Seq<u8>>) requires good_codes(codes) ensures good(empty(), codes) {}
pub open spec fn fresh(x: Account) -> bool { x.nonce@ == 0 && x.balance@ == 0 && x.storage_root == null_root() && x.code_hash == nil_hash() }
//@item protocol/src/types/executor.rs :: struct ExecutorContext
//@end
impl ExecutorContext { #[verifier::external_body] pub fn clone(&self) -> (r: ExecutorContext) ensures r == *self { unimplemented!() } }
pub struct AxonExecutorReadOnlyAdapter { pub exec_ctx: ExecutorContext, pub trie: MPTTrie, pub storage: Store, pub db: TrieDb }
impl AxonExecutorReadOnlyAdapter {
    pub open spec fn ok(&self) -> bool { self.trie.whole() && good(self.trie@, self.storage.codes()) }
    pub open spec fn sees(&self, a: H160, k: H256) -> Seen { seen(self.trie@, self.storage.codes(), a, k) }
    pub open spec fn same_block(&self, o: &Self) -> bool { self.exec_ctx == o.exec_ctx && forall|n: u64| self.storage.block_at(n) == o.storage.block_at(n) }
//@fn core/executor/src/adapter/backend/read_only.rs :: impl AxonExecutorReadOnlyAdapter<S, DB>/fn new
//@ ret r
//@ sub /Arc<DB>/ => /TrieDb/
//@ sub /Arc<S>/ => /Store/
//@ sub /Arc::clone\(&db\)/ => /share(&db)/
//@ spec
    ensures r is Ok, r->Ok_0.trie@ == empty(), r->Ok_0.trie.whole(), r->Ok_0.exec_ctx == exec_ctx, r->Ok_0.storage == storage,
//@end
//@fn core/executor/src/adapter/backend/read_only.rs :: impl AxonExecutorReadOnlyAdapter<S, DB>/fn from_root
//@ ret r
//@ sub /Arc<DB>/ => /TrieDb/
//@ sub /Arc<S>/ => /Store/
//@ sub /Arc::clone\(&db\)/ => /share(&db)/
//@ spec
    ensures written(state_root) ==> r is Ok && r->Ok_0.trie.whole(), r matches Ok(x) ==> x.trie@ == contents(state_root) && x.exec_ctx == exec_ctx && x.storage == storage,
//@end
//@fn core/executor/src/adapter/backend/read_only.rs :: impl ExecutorReadOnlyAdapter for AxonExecutorReadOnlyAdapter<S, DB>/fn get_ctx
//@ ret r
//@ spec
    ensures r == self.exec_ctx,
//@end
//@fn core/executor/src/adapter/backend/read_only.rs :: impl ExecutorReadOnlyAdapter for AxonExecutorReadOnlyAdapter<S, DB>/fn get
//@ ret r
//@ sub /(self\.trie\.get\(\w+\))\.ok\(\)\.flatten\(\)\.map\(Into::into\)/ => /match \1 { Ok(Some(raw_)) => Some(Bytes::from(raw_)), _ => None }/
//@ spec
    requires self.ok(),
    ensures (r is Some) == self.trie@.contains_key(at(key@)), r matches Some(b) ==> b@ == self.trie@[at(key@)],
//@end
//@fn core/executor/src/adapter/backend/read_only.rs :: impl ExecutorReadOnlyAdapter for AxonExecutorReadOnlyAdapter<S, DB>/fn get_account
//@ ret r
//@ sub /RLP_NULL/ => /rlp_null()/
//@ sub /NIL_DATA/ => /nil_data()/
//@ spec
    requires self.ok(),
    ensures self.trie@.contains_key(at(address@)) ==> r == acc(self.trie@, *address), !self.trie@.contains_key(at(address@)) ==> fresh(r),
//@end
//@fn core/executor/src/adapter/backend/read_only.rs :: impl Backend for AxonExecutorReadOnlyAdapter<S, DB>/fn gas_price
//@ ret r
//@ spec
    ensures r == self.exec_ctx.gas_price,
//@end
//@fn core/executor/src/adapter/backend/read_only.rs :: impl Backend for AxonExecutorReadOnlyAdapter<S, DB>/fn origin
//@ ret r
//@ spec
    ensures r == self.exec_ctx.origin,
//@end
//@fn core/executor/src/adapter/backend/read_only.rs :: impl Backend for AxonExecutorReadOnlyAdapter<S, DB>/fn block_number
//@ ret r
//@ spec
    ensures r == self.exec_ctx.block_number,
//@end
//@fn core/executor/src/adapter/backend/read_only.rs :: impl Backend for AxonExecutorReadOnlyAdapter<S, DB>/fn block_hash
//@ ret r
//@ sub /H256::default\(\)/ => /H256::zero()/
//@ sub /GET_BLOCK_HASH_NUMBER_RANGE/ => /256u64/
//@ sub /blocking_async!\(self, get_storage, get_block, (Context::new\(\)), (\w+)\)/ => /self.storage.get_block(\1, \2).unwrap()/
//@ sub /\.map\(\|(\w+)\| \w+\.hash\(\)\)\s*\.unwrap_or_default\(\)/ => /.map(|\1: Block| -> (x: H256) ensures x == \1.hash_of() { \1.hash() }).unwrap_or(H256::zero())/
//@ spec
    ensures r == (if number@ < self.exec_ctx.block_number@ && self.exec_ctx.block_number@ - number@ <= 256 { match self.storage.block_at((number@ % pow64()) as u64) { Some(b) => b.hash_of(), None => zero() } } else { zero() }),
//@end
//@fn core/executor/src/adapter/backend/read_only.rs :: impl Backend for AxonExecutorReadOnlyAdapter<S, DB>/fn block_coinbase
//@ ret r
//@ spec
    ensures r == self.exec_ctx.block_coinbase,
//@end
//@fn core/executor/src/adapter/backend/read_only.rs :: impl Backend for AxonExecutorReadOnlyAdapter<S, DB>/fn block_timestamp
//@ ret r
//@ spec
    ensures r == self.exec_ctx.block_timestamp,
//@end
//@fn core/executor/src/adapter/backend/read_only.rs :: impl Backend for AxonExecutorReadOnlyAdapter<S, DB>/fn block_difficulty
//@ ret r
//@ spec
    ensures r@ == 1,
//@end
//@fn core/executor/src/adapter/backend/read_only.rs :: impl Backend for AxonExecutorReadOnlyAdapter<S, DB>/fn block_gas_limit
//@ ret r
//@ spec
    ensures r@ == self.exec_ctx.block_gas_limit@,
//@end
//@fn core/executor/src/adapter/backend/read_only.rs :: impl Backend for AxonExecutorReadOnlyAdapter<S, DB>/fn block_base_fee_per_gas
//@ ret r
//@ spec
    ensures r@ == self.exec_ctx.block_base_fee_per_gas@,
//@end
//@fn core/executor/src/adapter/backend/read_only.rs :: impl Backend for AxonExecutorReadOnlyAdapter<S, DB>/fn chain_id
//@ ret r
//@ spec
    ensures r == self.exec_ctx.chain_id,
//@end
//@fn core/executor/src/adapter/backend/read_only.rs :: impl Backend for AxonExecutorReadOnlyAdapter<S, DB>/fn exists
//@ ret r
//@ sub /&Bytes::from\((\w+\.as_bytes\(\))\.to_vec\(\)\)/ => /\1/
//@ spec
    requires self.ok(),
    ensures forall|k: H256| r == (#[trigger] self.sees(address, k)).there,
//@end
//@fn core/executor/src/adapter/backend/read_only.rs :: impl Backend for AxonExecutorReadOnlyAdapter<S, DB>/fn basic
//@ ret r
//@ sub /self\.trie\s*\.get\((\w+\.as_bytes\(\))\)\s*\.map\(\|(\w+)\| \{(.*)\}\)\s*\.unwrap_or_default\(\)/ => /(match self.trie.get(\1) { Ok(\2) => {\3} Err(_) => Basic::default() })/
//@ sub /(Account::decode\([^;]*?\))\.map_or_else\(\s*\|_\w*\| Default::default\(\),\s*\|(\w+)\| (Basic \{[^{}]*\}),?\s*\)/ => /(match \1 { Err(_) => Basic::default(), Ok(\2) => \3 })/
//@ spec
    requires self.ok(),
    ensures forall|k: H256| r.nonce@ == (#[trigger] self.sees(address, k)).nonce && r.balance@ == self.sees(address, k).balance,
//@end
//@fn core/executor/src/adapter/backend/read_only.rs :: impl Backend for AxonExecutorReadOnlyAdapter<S, DB>/fn code
//@ ret r
//@ sub /RLP_NULL/ => /rlp_null()/
//@ sub /NIL_DATA/ => /nil_data()/
//@ sub /blocking_async!\(\s*self,\s*get_storage,\s*(\w+),\s*(Context::new\(\)),\s*(&\w+)\s*\)/ => /self.storage.\1(\2, \3).unwrap()/
//@ sub /(\w+)\.unwrap_or_default\(\)\.to_vec\(\)/ => /bytes_vec(code_or_none(\1))/
//@ spec
    requires self.ok(),
    ensures forall|k: H256| r@ == (#[trigger] self.sees(address, k)).code,
//@end
//@fn core/executor/src/adapter/backend/read_only.rs :: impl Backend for AxonExecutorReadOnlyAdapter<S, DB>/fn storage
//@ ret r
//@ sub /H256::default\(\)/ => /H256::zero()/
//@ sub /RLP_NULL/ => /rlp_null()/
//@ sub /Arc::clone\(&self\.db\)/ => /share(&self.db)/
//@ sub /U256::decode/ => /num_decode/
//@ sub /BigEndianHash::from_uint/ => /from_uint/
//@ sub /(MPTTrie::from_root\((?:[^()]|\([^()]*\))*\))\s*\.map\(\s*\|(\w+)\| (match .*?_ => H256::zero\(\),\s*\}),?\s*\)/ => /(match \1 { Ok(\2) => Ok(\3), Err(e_) => Err(e_) })/
//@ sub /(Account::decode\(\w+\.unwrap\(\)\))\s*\.and_then\(\|(\w+)\| \{(.*)\}\)\s*\.unwrap_or_default\(\)/ => /(match (match \1 { Ok(\2) => {\3} Err(e_) => Err(e_) }) { Ok(v_) => v_, Err(_) => H256::zero() })/
//@ spec
    requires self.ok(),
    ensures r == self.sees(address, index).slot,
//@end
//@fn core/executor/src/adapter/backend/read_only.rs :: impl Backend for AxonExecutorReadOnlyAdapter<S, DB>/fn original_storage
//@ ret r
//@ spec
    requires self.ok(),
    ensures r == Some(self.sees(address, index).slot),
//@end
}

proof fn slot_last(v: H256, s: Seq<(H256, H256)>, x: (H256, H256), k: H256)
    ensures slot_after(v, s.push(x), k) == (if x.0 == k { x.1 } else { slot_after(v, s, k) })
{ assert(s.push(x).drop_last() =~= s); }
/// a word and the number of its bytes are the same thing
proof fn word_back(v: H256, n: U256) requires n@ == be(v@) ensures word_of(n) == v { be_injective(word_of(n)@, v@); axiom_h256_ext(v); axiom_h256_ext(word_of(n)); }
proof fn keys_apart(a: H160, b: H160) requires at(a@) == at(b@) ensures a == b { at_is_one_to_one(a@, b@); axiom_h160_ext(a); axiom_h160_ext(b); }
proof fn slots_apart(a: H256, b: H256) requires at(a@) == at(b@) ensures a == b { at_is_one_to_one(a@, b@); axiom_h256_ext(a); axiom_h256_ext(b); }
/// writing one account (and perhaps its code) leaves every other account as it was, and the state well formed
proof fn one_account(m: M, codes: Map<H256, Seq<u8>>, a: H160, x: Account, codes2: Map<H256, Seq<u8>>)
    requires good(m, codes), good_acc(x, codes2), codes2 == codes || exists|c: Seq<u8>| codes2 == #[trigger] codes.insert(keccak(c), c),
    ensures good(m.insert(at(a@), acc_enc(x)), codes2),
        forall|b: H160, k: H256| b != a ==> #[trigger] seen(m.insert(at(a@), acc_enc(x)), codes2, b, k) == seen(m, codes, b, k),
        forall|k: H256| (#[trigger] seen(m.insert(at(a@), acc_enc(x)), codes2, a, k)) == (Seen { there: true, nonce: x.nonce@, balance: x.balance@, code: code_in(codes2, x.code_hash), slot: slot_in(contents(x.storage_root), k) }),
{
    let n = m.insert(at(a@), acc_enc(x));
    assert(acc_dec(acc_enc(x)) == Some(x));
    if codes2 != codes {
        let c = choose|c: Seq<u8>| codes2 == #[trigger] codes.insert(keccak(c), c);
        assert forall|h: H256| codes.contains_key(h) implies codes2.contains_key(h) && codes2[h] == codes[h] by { if h == keccak(c) { assert(keccak(codes[h]) == keccak(c)); } }
        assert forall|h: H256| #[trigger] codes2.contains_key(h) implies keccak(codes2[h]) == h by { if h != keccak(c) { assert(codes.contains_key(h)); } }
    }
    assert forall|k: Seq<u8>| #[trigger] n.contains_key(k) implies acc_dec(n[k]) is Some && good_acc(acc_dec(n[k])->Some_0, codes2) by { if k != at(a@) { assert(m.contains_key(k)); } }
    assert forall|b: H160, k: H256| b != a implies #[trigger] seen(n, codes2, b, k) == seen(m, codes, b, k) by {
        if at(b@) == at(a@) { keys_apart(a, b); }
        if m.contains_key(at(b@)) { assert(good_acc(acc(m, b), codes)); }
    }
}
proof fn no_account(m: M, codes: Map<H256, Seq<u8>>, a: H160)
    requires good(m, codes),
    ensures good(m.remove(at(a@)), codes), forall|b: H160, k: H256| b != a ==> #[trigger] seen(m.remove(at(a@)), codes, b, k) == seen(m, codes, b, k), forall|k: H256| (#[trigger] seen(m.remove(at(a@)), codes, a, k)) == nothing(),
{
    let n = m.remove(at(a@));
    assert forall|k: Seq<u8>| #[trigger] n.contains_key(k) implies acc_dec(n[k]) is Some && good_acc(acc_dec(n[k])->Some_0, codes) by { assert(m.contains_key(k)); }
    assert forall|b: H160, k: H256| b != a implies #[trigger] seen(n, codes, b, k) == seen(m, codes, b, k) by { if at(b@) == at(a@) { keys_apart(a, b); } }
}
impl H256 { #[verifier::external_body] pub fn is_zero(&self) -> (r: bool) ensures r == (*self == zero()) { unimplemented!() } }
pub struct AxonExecutorApplyAdapter { pub inner: AxonExecutorReadOnlyAdapter, pub logs: Vec<Log> }
#[verifier::external_body] pub fn vec_digest(c: &Vec<u8>) -> (r: H256) ensures r == keccak(c@) { unimplemented!() }
impl AxonExecutorApplyAdapter {
//@fn core/executor/src/adapter/backend/apply.rs :: impl AxonExecutorApplyAdapter<S, DB>/fn new
//@ ret r
//@ sub /Arc<DB>/ => /TrieDb/
//@ sub /Arc<S>/ => /Store/
//@ spec
    ensures r is Ok, r->Ok_0.inner.trie@ == empty(), r->Ok_0.inner.trie.whole(), r->Ok_0.inner.exec_ctx == exec_ctx, r->Ok_0.inner.storage == storage, r->Ok_0.logs@.len() == 0,
//@end
//@fn core/executor/src/adapter/backend/apply.rs :: impl AxonExecutorApplyAdapter<S, DB>/fn from_root
//@ ret r
//@ sub /Arc<DB>/ => /TrieDb/
//@ sub /Arc<S>/ => /Store/
//@ spec
    ensures written(state_root) ==> r is Ok && r->Ok_0.inner.trie.whole(), r matches Ok(x) ==> x.inner.trie@ == contents(state_root) && x.inner.exec_ctx == exec_ctx && x.inner.storage == storage && x.logs@.len() == 0,
//@end
//@fn core/executor/src/adapter/backend/apply.rs :: impl ExecutorReadOnlyAdapter for AxonExecutorApplyAdapter<S, DB>/fn get_ctx
//@ ret r
//@ spec
    ensures r == self.inner.exec_ctx,
//@end
//@fn core/executor/src/adapter/backend/apply.rs :: impl ExecutorReadOnlyAdapter for AxonExecutorApplyAdapter<S, DB>/fn get
//@ ret r
//@ spec
    requires self.inner.ok(),
    ensures (r is Some) == self.inner.trie@.contains_key(at(key@)), r matches Some(b) ==> b@ == self.inner.trie@[at(key@)],
//@end
//@fn core/executor/src/adapter/backend/apply.rs :: impl ExecutorReadOnlyAdapter for AxonExecutorApplyAdapter<S, DB>/fn get_account
//@ ret r
//@ spec
    requires self.inner.ok(),
    ensures self.inner.trie@.contains_key(at(address@)) ==> r == acc(self.inner.trie@, *address), !self.inner.trie@.contains_key(at(address@)) ==> fresh(r),
//@end
//@fn core/executor/src/adapter/backend/apply.rs :: impl ExecutorAdapter for AxonExecutorApplyAdapter<S, DB>/fn set_origin
//@ spec
    ensures final(self).inner.exec_ctx == (ExecutorContext { origin: origin, ..old(self).inner.exec_ctx }), final(self).inner.trie == old(self).inner.trie, final(self).inner.storage == old(self).inner.storage, final(self).logs == old(self).logs,
//@end
//@fn core/executor/src/adapter/backend/apply.rs :: impl ExecutorAdapter for AxonExecutorApplyAdapter<S, DB>/fn set_gas_price
//@ sub /(\w+\.low_u64\(\))\.into\(\)/ => /U256::from(\1)/
//@ spec
    ensures final(self).inner.exec_ctx == (ExecutorContext { gas_price: u256(gas_price@), ..old(self).inner.exec_ctx }), final(self).inner.trie == old(self).inner.trie, final(self).inner.storage == old(self).inner.storage, final(self).logs == old(self).logs,
//@end
//@fn core/executor/src/adapter/backend/apply.rs :: impl ExecutorAdapter for AxonExecutorApplyAdapter<S, DB>/fn take_logs
//@ ret r
//@ spec
    ensures r@ =~= old(self).logs@, final(self).logs@.len() == 0, final(self).inner == old(self).inner,
//@end
//@fn core/executor/src/adapter/backend/apply.rs :: impl ExecutorAdapter for AxonExecutorApplyAdapter<S, DB>/fn commit
//@ ret r
//@ spec
    requires old(self).inner.ok(),
    ensures r == root_of(old(self).inner.trie@), written(r), contents(r) == old(self).inner.trie@, final(self).inner.ok(), final(self).inner.trie@ == old(self).inner.trie@, final(self).inner.storage == old(self).inner.storage, final(self).inner.exec_ctx == old(self).inner.exec_ctx, final(self).logs == old(self).logs,
//@end
//@fn core/executor/src/adapter/backend/apply.rs :: impl ExecutorAdapter for AxonExecutorApplyAdapter<S, DB>/fn save_account
//@ sub /(\w+\.as_bytes\(\))\.to_vec\(\)/ => /to_vec_(\1)/
//@ spec
    requires old(self).inner.ok(), good_acc(*account, old(self).inner.storage.codes()),
    ensures final(self).inner.ok(), final(self).inner.storage == old(self).inner.storage, final(self).inner.exec_ctx == old(self).inner.exec_ctx, final(self).logs == old(self).logs,
        forall|b: H160, k: H256| b != *address ==> #[trigger] final(self).inner.sees(b, k) == old(self).inner.sees(b, k),
        forall|k: H256| (#[trigger] final(self).inner.sees(*address, k)) == (Seen { there: true, nonce: account.nonce@, balance: account.balance@, code: code_in(old(self).inner.storage.codes(), account.code_hash), slot: slot_in(contents(account.storage_root), k) }),
//@ start
    proof { one_account(self.inner.trie@, self.inner.storage.codes(), *address, *account, self.inner.storage.codes()); }
//@end
//@fn core/executor/src/adapter/backend/apply.rs :: impl AxonExecutorApplyAdapter<S, DB>/fn apply
//@ ret r
//@ sub /fn apply<I: IntoIterator<Item = \(H256, H256\)>>/ => /fn apply_one/
//@ sub /storage: I/ => /storage: Vec<(H256, H256)>/
//@ sub /RLP_NULL/ => /rlp_null()/
//@ sub /NIL_DATA/ => /nil_data()/
//@ sub /Arc::clone\(&self\.inner\.db\)/ => /share(&self.inner.db)/
//@ sub /storage\.into_iter\(\)\.for_each\(\|\((\w+), (\w+)\)\| \{(.*?)\n        \}\);/ => /for pair_ in storage {\n let (\1, \2) = pair_;\3\n        }/
//@ sub /\bfor \((\w+), (\w+)\) in storage(?:\.into_iter\(\))? \{/ => /for pair_ in storage {\n let (\1, \2) = pair_;/
//@ sub /U256::from_big_endian\((\w+\.as_bytes\(\))\)\s*\.encode\(\)/ => /num_encode(from_big_endian(\1))/
//@ sub /\.expect\("[^"]*"\)/ => /.unwrap()/
//@ sub /(\w+\.as_bytes\(\))\.to_vec\(\)/ => /to_vec_(\1)/
//@ sub /\.unwrap_or_else\(\|\w+\| panic!\("[^"]*"\)\)/ => /.unwrap()/
//@ sub /Hasher::digest\(&(\w+)\)/ => /vec_digest(&\1)/
//@ sub /blocking_async!\(\s*self,\s*get_storage,\s*insert_code,\s*(Context::new\(\)),\s*(\w+)\.into\(\),\s*(\w+),\s*(\w+)\.into\(\)\s*\);/ => /self.inner.storage.insert_code(\1, widen(\2), \3, Bytes::from(\4)).unwrap();/
//@ spec
    requires old(self).inner.ok(),
    ensures final(self).inner.ok(), !r, final(self).inner.same_block(&old(self).inner), final(self).logs == old(self).logs, grown(old(self).inner.storage.codes(), final(self).inner.storage.codes()),
        forall|b: H160, k: H256| #[trigger] final(self).inner.sees(b, k) == step(old(self).inner.sees(b, k), Apply::Modify { address, basic, code, storage, reset_storage }, b, k),
//@ start
    let ghost m0 = self.inner.trie@; let ghost c0 = self.inner.storage.codes(); let ghost s0 = storage@; let ghost in_place = m0.contains_key(at(address@));
    let ghost mut t0: M = empty();
//@ loopbefore 0
    proof { t0 = storage_trie@; assert(good_slots(t0)); assert(forall|k: H256| (#[trigger] slot_in(t0, k)) == (if reset_storage { zero() } else { seen(m0, c0, address, k).slot })); }
//@ loop 0 it
    invariant it.seq() == s0, storage_trie.whole(), good_slots(storage_trie@), forall|k: H256| (#[trigger] slot_in(storage_trie@, k)) == slot_after(slot_in(t0, k), s0.take(it.index@ as int), k),
//@ loopstart 0
    let ghost tb = storage_trie@; let ghost i0 = it.index@ as int; let ghost pr = pair_;
    proof { assert(s0.take(i0 + 1) =~= s0.take(i0).push(s0[i0])); }
//@ loopend 0
    proof {
        let n = u256(be(pr.1@));
        be_bound(pr.1@); p256_32();
        word_back(pr.1, n);
        assert(num_dec(num_enc(n)) == Some(n));
        assert(n@ == be(pr.1@)); axiom_u256_ext(n);
        assert(storage_trie@ == (if pr.1 == zero() { tb.remove(at(pr.0@)) } else { tb.insert(at(pr.0@), num_enc(n)) }));
        assert forall|k: H256| (#[trigger] slot_in(storage_trie@, k)) == slot_after(slot_in(t0, k), s0.take(i0 + 1), k) by {
            slot_last(slot_in(t0, k), s0.take(i0), s0[i0], k);
            assert(slot_in(tb, k) == slot_after(slot_in(t0, k), s0.take(i0), k));
            if at(pr.0@) == at(k@) { slots_apart(pr.0, k); }
        }
        assert forall|k: Seq<u8>| #[trigger] storage_trie@.contains_key(k) implies num_dec(storage_trie@[k]) is Some by { if k != at(pr.0@) { assert(tb.contains_key(k)); } }
    }
//@ loopafter 0
    proof { assert(s0.take(s0.len() as int) =~= s0); }
//@end
//@fn core/executor/src/adapter/backend/apply.rs :: impl Backend for AxonExecutorApplyAdapter<S, DB>/fn gas_price
//@ ret r
//@ spec
    ensures r == self.inner.exec_ctx.gas_price,
//@end
//@fn core/executor/src/adapter/backend/apply.rs :: impl Backend for AxonExecutorApplyAdapter<S, DB>/fn origin
//@ ret r
//@ spec
    ensures r == self.inner.exec_ctx.origin,
//@end
//@fn core/executor/src/adapter/backend/apply.rs :: impl Backend for AxonExecutorApplyAdapter<S, DB>/fn block_hash
//@ ret r
//@ spec
    ensures r == (if number@ < self.inner.exec_ctx.block_number@ && self.inner.exec_ctx.block_number@ - number@ <= 256 { match self.inner.storage.block_at((number@ % pow64()) as u64) { Some(b) => b.hash_of(), None => zero() } } else { zero() }),
//@end
//@fn core/executor/src/adapter/backend/apply.rs :: impl Backend for AxonExecutorApplyAdapter<S, DB>/fn block_number
//@ ret r
//@ spec
    ensures r == self.inner.exec_ctx.block_number,
//@end
//@fn core/executor/src/adapter/backend/apply.rs :: impl Backend for AxonExecutorApplyAdapter<S, DB>/fn block_coinbase
//@ ret r
//@ spec
    ensures r == self.inner.exec_ctx.block_coinbase,
//@end
//@fn core/executor/src/adapter/backend/apply.rs :: impl Backend for AxonExecutorApplyAdapter<S, DB>/fn block_timestamp
//@ ret r
//@ spec
    ensures r == self.inner.exec_ctx.block_timestamp,
//@end
//@fn core/executor/src/adapter/backend/apply.rs :: impl Backend for AxonExecutorApplyAdapter<S, DB>/fn block_difficulty
//@ ret r
//@ spec
    ensures r@ == 1,
//@end
//@fn core/executor/src/adapter/backend/apply.rs :: impl Backend for AxonExecutorApplyAdapter<S, DB>/fn block_gas_limit
//@ ret r
//@ spec
    ensures r@ == self.inner.exec_ctx.block_gas_limit@,
//@end
//@fn core/executor/src/adapter/backend/apply.rs :: impl Backend for AxonExecutorApplyAdapter<S, DB>/fn block_base_fee_per_gas
//@ ret r
//@ spec
    ensures r@ == self.inner.exec_ctx.block_base_fee_per_gas@,
//@end
//@fn core/executor/src/adapter/backend/apply.rs :: impl Backend for AxonExecutorApplyAdapter<S, DB>/fn chain_id
//@ ret r
//@ spec
    ensures r == self.inner.exec_ctx.chain_id,
//@end
//@fn core/executor/src/adapter/backend/apply.rs :: impl Backend for AxonExecutorApplyAdapter<S, DB>/fn exists
//@ ret r
//@ spec
    requires self.inner.ok(),
    ensures forall|k: H256| r == (#[trigger] self.inner.sees(address, k)).there,
//@end
//@fn core/executor/src/adapter/backend/apply.rs :: impl Backend for AxonExecutorApplyAdapter<S, DB>/fn basic
//@ ret r
//@ spec
    requires self.inner.ok(),
    ensures forall|k: H256| r.nonce@ == (#[trigger] self.inner.sees(address, k)).nonce && r.balance@ == self.inner.sees(address, k).balance,
//@end
//@fn core/executor/src/adapter/backend/apply.rs :: impl Backend for AxonExecutorApplyAdapter<S, DB>/fn code
//@ ret r
//@ spec
    requires self.inner.ok(),
    ensures forall|k: H256| r@ == (#[trigger] self.inner.sees(address, k)).code,
//@end
//@fn core/executor/src/adapter/backend/apply.rs :: impl Backend for AxonExecutorApplyAdapter<S, DB>/fn storage
//@ ret r
//@ spec
    requires self.inner.ok(),
    ensures r == self.inner.sees(address, key).slot,
//@end
//@fn core/executor/src/adapter/backend/apply.rs :: impl Backend for AxonExecutorApplyAdapter<S, DB>/fn original_storage
//@ ret r
//@ spec
    requires self.inner.ok(),
    ensures r == Some(self.inner.sees(address, key).slot),
//@end
//@fn core/executor/src/adapter/backend/apply.rs :: impl ApplyBackend for AxonExecutorApplyAdapter<S, DB>/fn apply
//@ sub /fn apply<A, I, L>/ => /fn apply/
//@ sub /values: A, logs: L/ => /values: Vec<Apply>, logs: Vec<Log>/
//@ sub /\s*where\s+A: .*?,\s+I: .*?,\s+L: .*?,(?=\s*\{)/ => //
//@ sub /values\.into_iter\(\)/ => /values/
//@ sub /\b(\w+)\.into_iter\(\)\.collect::<Vec<_>>\(\)/ => /\1/
//@ sub /self\.apply\(/ => /self.apply_one(/
//@ spec
    requires old(self).inner.ok(),
    ensures final(self).inner.ok(), final(self).inner.same_block(&old(self).inner), final(self).logs == logs, grown(old(self).inner.storage.codes(), final(self).inner.storage.codes()),
        forall|b: H160, k: H256| #[trigger] final(self).inner.sees(b, k) == run(old(self).inner.sees(b, k), values@, b, k),
//@ start
    let ghost v0 = values@;
//@ loop 0 it
    invariant it.seq() == v0, self.inner.ok(), grown(old(self).inner.storage.codes(), self.inner.storage.codes()), self.inner.same_block(&old(self).inner),
        forall|b: H160, k: H256| #[trigger] self.inner.sees(b, k) == run(old(self).inner.sees(b, k), v0.take(it.index@ as int), b, k),
//@ loopstart 0
    let ghost i0 = it.index@ as int; let ghost m0 = self.inner.trie@; let ghost c0 = self.inner.storage.codes(); let ghost x0 = apply; let ghost before = self.inner;
    proof {
        assert(v0.take(i0 + 1).drop_last() =~= v0.take(i0)); assert(v0.take(i0 + 1).last() == v0[i0]);
        match x0 { Apply::Delete { address } => { no_account(m0, c0, address); }, _ => {} }
    }
//@ loopend 0
    proof {
        assert forall|b: H160, k: H256| #[trigger] self.inner.sees(b, k) == run(old(self).inner.sees(b, k), v0.take(i0 + 1), b, k) by {
            assert(before.sees(b, k) == run(old(self).inner.sees(b, k), v0.take(i0), b, k));
        }
    }
//@ loopafter 0
    proof { assert(v0.take(v0.len() as int) =~= v0); }
//@end
}
/// what was committed under a root is what is read under it, whatever was written since
fn committed_is_read(a: &mut AxonExecutorApplyAdapter, db: TrieDb, x: ExecutorContext, more: Vec<Apply>, logs: Vec<Log>) -> (r: AxonExecutorReadOnlyAdapter)
    requires old(a).inner.ok(),
    ensures r.ok(), forall|b: H160, k: H256| #[trigger] r.sees(b, k) == old(a).inner.sees(b, k),
{
    let root = a.commit();
    a.apply(more, logs, true);
    let read = AxonExecutorReadOnlyAdapter::from_root(root, db, share_store(&a.inner.storage), x).unwrap();
    proof {
        let m = old(a).inner.trie@; let c0 = old(a).inner.storage.codes(); let c1 = read.storage.codes();
        assert(read.trie@ == m);
        assert forall|k: Seq<u8>| #[trigger] m.contains_key(k) implies acc_dec(m[k]) is Some && good_acc(acc_dec(m[k])->Some_0, c1) by { assert(good_acc(acc_dec(m[k])->Some_0, c0)); }
        assert forall|b: H160, k: H256| #[trigger] read.sees(b, k) == old(a).inner.sees(b, k) by { if m.contains_key(at(b@)) { assert(good_acc(acc(m, b), c0)); } }
    }
    read
}
}
fn main() {}
} // verus!
