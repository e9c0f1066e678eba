//@include head.rs
pub mod sh {
use super::*;
//@include num.rs
//@include bytes.rs
}
use sh::*;
// C17: the database's columns and keys, the adapter that reads and writes them, and the storage that keeps blocks, transactions, receipts and code in them.
pub mod st {
use super::*;
use super::sh::*;
broadcast use {num_axioms, bytes_axioms};
pub struct ProtocolError;
pub type ProtocolResult<T> = Result<T, ProtocolError>;
pub struct Context;
impl Context { #[verifier::external_body] pub fn new() -> Context { unimplemented!() } #[verifier::external_body] pub fn clone(&self) -> Context { unimplemented!() } }
#[verifier::external_body] pub fn same<T>(x: &T) -> (r: T) ensures r == *x { unimplemented!() }
#[verifier::external_body] pub fn own_<T>(x: &T) -> (r: T) ensures r == *x { unimplemented!() }

// ---- keys ----
#[verifier::external_body] pub fn to_be_bytes_(x: u64) -> (r: [u8; 8]) ensures be(r@) == x { unimplemented!() }
#[verifier::external_body] pub fn from_be_bytes_(b: [u8; 8]) -> (r: u64) ensures r == be(b@) { unimplemented!() }
#[verifier::external_body] pub fn copy_into_<const N: usize>(k: &mut [u8; N], a: usize, b: usize, v: &[u8]) requires a <= b <= N, v@.len() == b - a
    ensures final(k)@ == old(k)@.subrange(0, a as int) + v@ + old(k)@.subrange(b as int, N as int) { unimplemented!() }
#[verifier::external_body] pub fn prefix_of_(s: &[u8], n: usize) -> (r: &[u8]) requires n <= s@.len() ensures r@ == s@.subrange(0, n as int) { unimplemented!() }
#[verifier::external_body] pub fn range_of_(s: &[u8], a: usize, b: usize) -> (r: &[u8]) requires a <= b <= s@.len() ensures r@ == s@.subrange(a as int, b as int) { unimplemented!() }
#[verifier::external_body] pub fn slice_of_<const N: usize>(s: &[u8; N]) -> (r: &[u8]) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body] pub fn split_off_(s: &mut Vec<u8>, n: usize) -> (r: Vec<u8>) requires n <= old(s)@.len() ensures r@ == old(s)@.subrange(n as int, old(s)@.len() as int), final(s)@ == old(s)@.subrange(0, n as int) { unimplemented!() }
#[verifier::external_body] pub fn to_vec_(s: &[u8]) -> (r: Vec<u8>) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body] pub fn bytes_from_(s: &[u8]) -> (r: Bytes) ensures r@ == s@ { unimplemented!() }
//@item core/storage/src/hash_key.rs :: const PREFIX_LEN
//@end
//@item core/storage/src/hash_key.rs :: struct CommonPrefix
//@ sub /block_height:/ => /pub block_height:/
//@end
impl Clone for CommonPrefix { #[verifier::external_body] fn clone(&self) -> (r: CommonPrefix) ensures r == *self { unimplemented!() } }
impl Copy for CommonPrefix {}
impl CommonPrefix {
    pub open spec fn h(self) -> u64 { be(self.block_height@) as u64 }
}
pub proof fn prefix_value(p: CommonPrefix) ensures p.h() as nat == be(p.block_height@) {
    be_bound(p.block_height@);
    assert(p256(8) == 18446744073709551616) by (compute);
}
impl CommonPrefix {
//@fn core/storage/src/hash_key.rs :: impl CommonPrefix/fn new
//@ ret r
//@ sub /block_height\.to_be_bytes\(\)/ => /to_be_bytes_(block_height)/
//@ spec
    ensures r.h() == block_height,
//@end
//@fn core/storage/src/hash_key.rs :: impl CommonPrefix/fn len
//@ ret r
//@ sub /pub const fn/ => /pub fn/
//@ spec
    ensures r == 8,
//@end
//@fn core/storage/src/hash_key.rs :: impl CommonPrefix/fn height
//@ ret r
//@ sub /u64::from_be_bytes\(/ => /from_be_bytes_(/
//@ spec
    ensures r == self.h(),
//@end
//@fn core/storage/src/hash_key.rs :: impl CommonPrefix/fn make_hash_key
//@ sub /debug_assert!\([^;]*\);/ => //
//@ ret r
//@ sub /key\[(\w+)\.\.(\w+)\]\s*\.copy_from_slice\(/ => /copy_into_(&mut key, \1, \2, /
//@ sub /&hash\.as_bytes\(\)\[\.\.(\w+)\]/ => /prefix_of_(hash.as_bytes(), \1)/
//@ sub /&self\.block_height/ => /slice_of_(&self.block_height)/
//@ sub /        key\n/ => /        proof { assert(key@ =~= self.block_height@ + hash@); }\n        key\n/
//@ spec
    ensures r@ == self.block_height@ + hash@,
//@end
}
impl CommonPrefix {
//@fn core/storage/src/hash_key.rs :: impl From<&[u8]> for CommonPrefix/fn from
//@ sub /debug_assert!\([^;]*\);/ => //
//@ ret r
//@ sub /fn from/ => /pub fn from_slice_/
//@ sub /h_buf\.copy_from_slice\(&bytes\[\.\.PREFIX_LEN\]\)/ => /copy_into_(&mut h_buf, 0, 8, prefix_of_(bytes, PREFIX_LEN))/
//@ sub /CommonPrefix \{/ => /proof { assert(h_buf@ =~= bytes@.subrange(0, 8)); }\n        CommonPrefix {/
//@ sub /-> proof .*?\n\s*CommonPrefix/ => /-> CommonPrefix/ 0
//@ spec
    requires bytes@.len() >= 8,
    ensures r.block_height@ == bytes@.subrange(0, 8),
//@end
}
pub trait ProtocolCodec: Sized {
    spec fn enc(&self) -> Seq<u8>;
    proof fn inj(a: Self, b: Self) requires a.enc() == b.enc() ensures a == b;
    fn encode(&self) -> (r: ProtocolResult<Bytes>) ensures r matches Ok(b) ==> b@ == self.enc();
    fn decode(bytes: &[u8]) -> (r: ProtocolResult<Self>) requires exists|x: Self| bytes@ == #[trigger] x.enc() ensures forall|x: Self| bytes@ == #[trigger] x.enc() ==> r == Ok::<Self, ProtocolError>(x);
}
pub proof fn prefix_ext(a: CommonPrefix, b: CommonPrefix) requires a.block_height@ == b.block_height@ ensures a == b { assert(a.block_height =~= b.block_height); }
impl ProtocolCodec for CommonPrefix {
    open spec fn enc(&self) -> Seq<u8> { self.block_height@ }
    proof fn inj(a: CommonPrefix, b: CommonPrefix) { prefix_ext(a, b); }
//@fn core/storage/src/hash_key.rs :: impl ProtocolCodec for CommonPrefix/fn encode
//@ sub /Bytes::copy_from_slice\(&self\.block_height\)/ => /bytes_from_(slice_of_(&self.block_height))/
//@end
//@fn core/storage/src/hash_key.rs :: impl ProtocolCodec for CommonPrefix/fn decode
//@ ret r
//@ sub /fn decode<B: AsRef<\[u8\]>>\(bytes: B\)/ => /fn decode(bytes: &[u8])/
//@ sub /CommonPrefix::from\(&bytes\.as_ref\(\)\[\.\.PREFIX_LEN\]\)/ => /CommonPrefix::from_slice_(prefix_of_(bytes, PREFIX_LEN))/
//@ start
    proof { assert forall|x: CommonPrefix, y: CommonPrefix| #[trigger] x.block_height@ == #[trigger] y.block_height@ implies x == y by { prefix_ext(x, y); } assert(forall|x: CommonPrefix| bytes@ == #[trigger] x.enc() ==> x.block_height@ =~= bytes@.subrange(0, 8)); }
//@end
}
//@item core/storage/src/hash_key.rs :: struct CommonHashKey
//@ sub /prefix:/ => /pub prefix:/
//@ sub /hash: / => /pub hash: /
//@end
pub type BlockKey = CommonPrefix;
impl CommonHashKey {
//@fn core/storage/src/hash_key.rs :: impl CommonHashKey/fn new
//@ ret r
//@ spec
    ensures r.prefix.h() == block_height, r.hash == hash,
//@end
//@fn core/storage/src/hash_key.rs :: impl CommonHashKey/fn height
//@ ret r
//@ spec
    ensures r == self.prefix.h(),
//@end
//@fn core/storage/src/hash_key.rs :: impl CommonHashKey/fn hash
//@ ret r
//@ spec
    ensures *r == self.hash,
//@end
}
impl ProtocolCodec for CommonHashKey {
    open spec fn enc(&self) -> Seq<u8> { self.prefix.block_height@ + self.hash@ }
    proof fn inj(a: CommonHashKey, b: CommonHashKey) {
        broadcast use bytes_axioms;
        assert(a.prefix.block_height@ =~= a.enc().subrange(0, 8)); assert(b.prefix.block_height@ =~= b.enc().subrange(0, 8));
        assert(a.hash@ =~= a.enc().subrange(8, 40)); assert(b.hash@ =~= b.enc().subrange(8, 40));
        prefix_ext(a.prefix, b.prefix);
    }
//@fn core/storage/src/hash_key.rs :: impl ProtocolCodec for CommonHashKey/fn encode
//@ sub /Bytes::copy_from_slice\(\s*&self\.prefix\.make_hash_key\(&self\.hash\),?\s*\)/ => /bytes_from_(slice_of_(&self.prefix.make_hash_key(&self.hash)))/
//@end
//@fn core/storage/src/hash_key.rs :: impl ProtocolCodec for CommonHashKey/fn decode
//@ sub /debug_assert!\([^;]*\);/ => //
//@ ret r
//@ sub /fn decode<B: AsRef<\[u8\]>>\(bytes: B\)/ => /fn decode(bytes: &[u8])/
//@ sub /bytes\.as_ref\(\)\.to_vec\(\)/ => /to_vec_(bytes)/
//@ sub /CommonPrefix::from\(&bytes\[(\w+)\.\.(CommonPrefix::len\(\))\]\)/ => /CommonPrefix::from_slice_(range_of_(&bytes, \1, \2))/
//@ sub /Hash::from_slice\(&bytes\.split_off\(CommonPrefix::len\(\)\)\)/ => /Hash::from_slice(&split_off_(&mut bytes, CommonPrefix::len()))/
//@ sub /Ok\(CommonHashKey \{/ => /proof { assert(prefix.block_height@ == all.subrange(0, 8)); assert(hash@ == all.subrange(8, all.len() as int)); }\n        Ok(CommonHashKey {/
//@ start
    let ghost all = bytes@;
    proof { assert forall|x: CommonPrefix, y: CommonPrefix| #[trigger] x.block_height@ == #[trigger] y.block_height@ implies x == y by { prefix_ext(x, y); }
    assert forall|x: CommonHashKey| all == #[trigger] x.enc() implies all.len() == 40 && x.prefix.block_height@ == all.subrange(0, 8) && x.hash@ == all.subrange(8, 40) by {
        assert(x.prefix.block_height@ =~= all.subrange(0, 8)); assert(x.hash@ =~= all.subrange(8, 40)); } }
//@end
}
// the order of the keys: by height first
pub open spec fn lex_lt(a: Seq<u8>, b: Seq<u8>) -> bool { exists|i: int| #[trigger] at_first(a, b, i) }
pub open spec fn at_first(a: Seq<u8>, b: Seq<u8>, i: int) -> bool { &&& 0 <= i < b.len() && i <= a.len() && (forall|j: int| 0 <= j < i ==> a[j] == b[j]) &&& (i == a.len() || a[i] < b[i]) }
pub proof fn be_order(a: Seq<u8>, b: Seq<u8>) requires a.len() == b.len(), be(a) < be(b) ensures exists|i: int| 0 <= i < a.len() && #[trigger] at_first(a, b, i) && a[i] < b[i] decreases a.len()
{
    if a.len() > 0 {
        let (p, q) = (a.drop_last(), b.drop_last());
        if be(p) < be(q) { be_order(p, q); let i = choose|i: int| 0 <= i < p.len() && #[trigger] at_first(p, q, i) && p[i] < q[i]; assert(at_first(a, b, i) && a[i] < b[i]) by { assert(forall|j: int| 0 <= j < p.len() ==> p[j] == a[j] && q[j] == b[j]); } }
        else {
            assert(be(p) == be(q)) by { if be(q) < be(p) { assert(be(a) > be(b)) by (nonlinear_arith) requires be(a) == be(p) * 256 + a.last() as nat, be(b) == be(q) * 256 + b.last() as nat, be(q) + 1 <= be(p), b.last() <= 255u8; } }
            be_injective(p, q);
            assert(forall|j: int| 0 <= j < p.len() ==> p[j] == a[j] && q[j] == b[j]);
            assert(at_first(a, b, a.len() - 1) && a[a.len() - 1] < b[a.len() - 1]);
        }
    }
}
/// keys sort by height first; keys of one height by their digest
pub proof fn keys_sort_by_height(a: CommonHashKey, b: CommonHashKey)
    ensures a.prefix.h() < b.prefix.h() ==> lex_lt(a.enc(), b.enc()), a.prefix.h() == b.prefix.h() ==> (lex_lt(a.enc(), b.enc()) <==> lex_lt(a.hash@, b.hash@)),
        a.enc() == b.enc() <==> a.prefix.h() == b.prefix.h() && a.hash == b.hash,
{
    broadcast use bytes_axioms;
    prefix_value(a.prefix); prefix_value(b.prefix);
    let (x, y) = (a.enc(), b.enc());
    assert(forall|j: int| 0 <= j < 8 ==> x[j] == a.prefix.block_height@[j] && y[j] == b.prefix.block_height@[j]);
    assert(forall|j: int| 0 <= j < 32 ==> x[#[trigger] (j + 8)] == a.hash@[j] && y[j + 8] == b.hash@[j]);
    if a.prefix.h() < b.prefix.h() {
        be_order(a.prefix.block_height@, b.prefix.block_height@);
        let i = choose|i: int| 0 <= i < 8 && #[trigger] at_first(a.prefix.block_height@, b.prefix.block_height@, i) && a.prefix.block_height@[i] < b.prefix.block_height@[i];
        assert(at_first(x, y, i));
    }
    if a.prefix.h() == b.prefix.h() {
        be_injective(a.prefix.block_height@, b.prefix.block_height@);
        if lex_lt(a.hash@, b.hash@) { let i = choose|i: int| at_first(a.hash@, b.hash@, i); assert(at_first(x, y, i + 8)) by { assert forall|j: int| 0 <= j < i + 8 implies x[j] == y[j] by { if j >= 8 { assert(x[(j - 8) + 8] == a.hash@[j - 8]); } } assert(x[i + 8] == a.hash@[i]); } }
        if lex_lt(x, y) {
            let i = choose|i: int| at_first(x, y, i);
            assert(i >= 8) by { if i < 8 { assert(x[i] == y[i]); } }
            assert(at_first(a.hash@, b.hash@, i - 8)) by { assert forall|j: int| 0 <= j < i - 8 implies a.hash@[j] == b.hash@[j] by { assert(x[j + 8] == y[j + 8]); } assert(x[(i - 8) + 8] == a.hash@[i - 8]); }
        }
        if a.hash == b.hash { assert(x =~= y); }
    }
    if x == y { CommonHashKey::inj(a, b); }
}

// ---- the other codecs: C02 and C05 are about them ----
//@item protocol/src/types/block.rs :: enum BlockVersion
//@end
pub type BlockNumber = u64; pub type MerkleRoot = H256;
#[verifier::external_body] pub struct Address { x: u8 }
#[verifier::external_body] pub struct Bloom { x: u8 }
#[verifier::external_body] pub struct ExtraData { x: u8 }
#[verifier::external_body] pub struct Proof { x: u8 }
#[verifier::external_body] pub struct ExitReason { x: u8 }
#[verifier::external_body] pub struct UnverifiedBody { x: u8 }
#[verifier::external_body] pub struct Log { x: u8 }
#[verifier::external_body] pub struct Public { x: u8 }
#[verifier::external_body] pub struct HardforkInfoInner { x: u8 }
pub struct UnverifiedTransaction { pub body: UnverifiedBody, pub hash: H256 }
pub struct SignedTransaction { pub transaction: UnverifiedTransaction, pub sender: H160, pub public: Option<Public> }
//@item protocol/src/types/block.rs :: struct Header
//@end
//@item protocol/src/types/block.rs :: struct Block
//@end
//@item protocol/src/types/receipt.rs :: struct Receipt
//@end
//@item protocol/src/types/primitive.rs :: struct DBBytes
//@end
pub uninterp spec fn enc_header(x: Header) -> Seq<u8>;
pub uninterp spec fn enc_block(x: Block) -> Seq<u8>;
pub uninterp spec fn enc_stx(x: SignedTransaction) -> Seq<u8>;
pub uninterp spec fn enc_receipt(x: Receipt) -> Seq<u8>;
pub uninterp spec fn enc_proof(x: Proof) -> Seq<u8>;
pub uninterp spec fn enc_hardfork(x: HardforkInfoInner) -> Seq<u8>;
pub uninterp spec fn enc_u64(x: u64) -> Seq<u8>;
pub uninterp spec fn enc_bytes(x: Bytes) -> Seq<u8>;
impl ProtocolCodec for Header { open spec fn enc(&self) -> Seq<u8> { enc_header(*self) } #[verifier::external_body] proof fn inj(a: Header, b: Header) {} #[verifier::external_body] fn encode(&self) -> ProtocolResult<Bytes> { unimplemented!() } #[verifier::external_body] fn decode(bytes: &[u8]) -> ProtocolResult<Header> { unimplemented!() } }
impl ProtocolCodec for Block { open spec fn enc(&self) -> Seq<u8> { enc_block(*self) } #[verifier::external_body] proof fn inj(a: Block, b: Block) {} #[verifier::external_body] fn encode(&self) -> ProtocolResult<Bytes> { unimplemented!() } #[verifier::external_body] fn decode(bytes: &[u8]) -> ProtocolResult<Block> { unimplemented!() } }
impl ProtocolCodec for SignedTransaction { open spec fn enc(&self) -> Seq<u8> { enc_stx(*self) } #[verifier::external_body] proof fn inj(a: SignedTransaction, b: SignedTransaction) {} #[verifier::external_body] fn encode(&self) -> ProtocolResult<Bytes> { unimplemented!() } #[verifier::external_body] fn decode(bytes: &[u8]) -> ProtocolResult<SignedTransaction> { unimplemented!() } }
impl ProtocolCodec for Receipt { open spec fn enc(&self) -> Seq<u8> { enc_receipt(*self) } #[verifier::external_body] proof fn inj(a: Receipt, b: Receipt) {} #[verifier::external_body] fn encode(&self) -> ProtocolResult<Bytes> { unimplemented!() } #[verifier::external_body] fn decode(bytes: &[u8]) -> ProtocolResult<Receipt> { unimplemented!() } }
impl ProtocolCodec for Proof { open spec fn enc(&self) -> Seq<u8> { enc_proof(*self) } #[verifier::external_body] proof fn inj(a: Proof, b: Proof) {} #[verifier::external_body] fn encode(&self) -> ProtocolResult<Bytes> { unimplemented!() } #[verifier::external_body] fn decode(bytes: &[u8]) -> ProtocolResult<Proof> { unimplemented!() } }
impl ProtocolCodec for HardforkInfoInner { open spec fn enc(&self) -> Seq<u8> { enc_hardfork(*self) } #[verifier::external_body] proof fn inj(a: HardforkInfoInner, b: HardforkInfoInner) {} #[verifier::external_body] fn encode(&self) -> ProtocolResult<Bytes> { unimplemented!() } #[verifier::external_body] fn decode(bytes: &[u8]) -> ProtocolResult<HardforkInfoInner> { unimplemented!() } }
impl ProtocolCodec for u64 { open spec fn enc(&self) -> Seq<u8> { enc_u64(*self) } #[verifier::external_body] proof fn inj(a: u64, b: u64) {} #[verifier::external_body] fn encode(&self) -> ProtocolResult<Bytes> { unimplemented!() } #[verifier::external_body] fn decode(bytes: &[u8]) -> ProtocolResult<u64> { unimplemented!() } }
impl ProtocolCodec for Bytes { open spec fn enc(&self) -> Seq<u8> { enc_bytes(*self) } #[verifier::external_body] proof fn inj(a: Bytes, b: Bytes) {} #[verifier::external_body] fn encode(&self) -> ProtocolResult<Bytes> { unimplemented!() } #[verifier::external_body] fn decode(bytes: &[u8]) -> ProtocolResult<Bytes> { unimplemented!() } }
// 32 bytes behind RLP's mark of a 32-byte string
impl ProtocolCodec for H256 { open spec fn enc(&self) -> Seq<u8> { seq![0xa0u8] + self@ } proof fn inj(a: H256, b: H256) { broadcast use bytes_axioms; assert(a@ =~= a.enc().subrange(1, 33)); assert(b@ =~= b.enc().subrange(1, 33)); } #[verifier::external_body] fn encode(&self) -> ProtocolResult<Bytes> { unimplemented!() } #[verifier::external_body] fn decode(bytes: &[u8]) -> ProtocolResult<H256> { unimplemented!() } }
impl ProtocolCodec for DBBytes {
    open spec fn enc(&self) -> Seq<u8> { self.0@ }
    proof fn inj(a: DBBytes, b: DBBytes) { broadcast use bytes_axioms; assert(bytes_(a.0@) == a.0); assert(bytes_(b.0@) == b.0); }
//@fn protocol/src/codec/mod.rs :: impl ProtocolCodec for DBBytes/fn encode
//@end
//@fn protocol/src/codec/mod.rs :: impl ProtocolCodec for DBBytes/fn decode
//@ sub /fn decode<B: AsRef<\[u8\]>>\(bytes: B\)/ => /fn decode(bytes: &[u8])/
//@ sub /Bytes::copy_from_slice\(bytes\.as_ref\(\)\)/ => /bytes_from_(bytes)/
//@ start
    proof { assert forall|x: DBBytes| bytes@ == #[trigger] x.enc() implies x.0 == bytes_(bytes@) by { assert(bytes_(x.0@) == x.0); } }
//@end
}

// ---- columns ----
//@item protocol/src/traits/storage.rs :: enum StorageCategory
//@end
use StorageCategory as Cat;
pub trait StorageSchema: Sized { type Key: ProtocolCodec; type Value: ProtocolCodec; spec fn cat() -> Cat; fn category() -> (r: Cat) ensures r == Self::cat(); }
//@item protocol/src/traits/storage.rs :: enum StorageBatchModify
//@end
//@expand core/storage/src/schema.rs :: impl_storage_schema_for with /fn category\(\) -> StorageCategory \{\s*(StorageCategory::\w+)\s*\}/ => /open spec fn cat() -> Cat { \1 }\n            fn category() -> StorageCategory { \1 }/

// ---- the database: a map from (column, key) to value (trusted: RocksDB) ----
pub type Raw = Map<(Seq<char>, Seq<u8>), Seq<u8>>;
pub open spec fn col(c: Cat) -> Seq<char> {
    match c { Cat::Version => "c0"@, Cat::Block => "c1"@, Cat::BlockHeader => "c2"@, Cat::SignedTransaction => "c3"@, Cat::Receipt => "c4"@, Cat::Wal => "c5"@, Cat::HashHeight => "c6"@, Cat::Code => "c7"@,
        Cat::EvmState => "c8"@, Cat::MetadataState => "c9"@, Cat::CkbLightClientState => "c10"@ }
}
pub proof fn columns_apart() ensures forall|a: Cat, b: Cat| #[trigger] col(a) == #[trigger] col(b) ==> a == b
{
    reveal_strlit("c0"); reveal_strlit("c1"); reveal_strlit("c2"); reveal_strlit("c3"); reveal_strlit("c4"); reveal_strlit("c5"); reveal_strlit("c6"); reveal_strlit("c7"); reveal_strlit("c8"); reveal_strlit("c9"); reveal_strlit("c10");
    assert forall|a: Cat, b: Cat| #[trigger] col(a) == #[trigger] col(b) implies a == b by { let (x, y) = (col(a), col(b)); assert(x.len() == y.len()); assert(x[1] == y[1]); }
}
#[verifier::external_body] pub struct DB { x: u8 }
#[verifier::external_body] pub struct ColumnFamily { x: u8 }
impl ColumnFamily { pub uninterp spec fn view(&self) -> Seq<char>; }
pub trait ToBytes { spec fn b(&self) -> Seq<u8>; }
impl ToBytes for Bytes { open spec fn b(&self) -> Seq<u8> { self@ } }
impl DB {
    pub uninterp spec fn view(&self) -> Raw;
    #[verifier::external_body] pub fn cf_handle(&self, name: &str) -> (r: Option<ColumnFamily>) ensures r matches Some(c) ==> c@ == name@ { unimplemented!() }
    #[verifier::external_body] pub fn put_cf(&mut self, c: &ColumnFamily, k: Bytes, v: Bytes) -> (r: Result<(), RocksDBError>) ensures r is Ok ==> final(self)@ == old(self)@.insert((c@, k@), v@), r is Err ==> final(self)@ == old(self)@ { unimplemented!() }
    #[verifier::external_body] pub fn delete_cf(&mut self, c: &ColumnFamily, k: Bytes) -> (r: Result<(), RocksDBError>) ensures r is Ok ==> final(self)@ == old(self)@.remove((c@, k@)), r is Err ==> final(self)@ == old(self)@ { unimplemented!() }
    #[verifier::external_body] pub fn get_cf(&self, c: &ColumnFamily, k: Bytes) -> (r: Result<Option<Bytes>, RocksDBError>)
        ensures r matches Ok(Some(v)) ==> self@.contains_key((c@, k@)) && v@ == self@[(c@, k@)], r matches Ok(None) ==> !self@.contains_key((c@, k@)) { unimplemented!() }
    #[verifier::external_body] pub fn write_opt(&mut self, b: &WriteBatch, o: &WriteOptions) -> (r: Result<(), RocksDBError>) ensures r is Ok ==> final(self)@ == after_ops(old(self)@, b@), r is Err ==> final(self)@ == old(self)@ { unimplemented!() }
}
impl DB { // RocksIntoIterator::into_iter: `prefix_iterator_cf(column, prefix)`, which without a prefix extractor goes on to the column's end
    #[verifier::external_body] pub fn prefix_iterator<S: StorageSchema>(&self, c: ColumnFamily, p: &CommonPrefix) -> (r: RocksIterator<S>) ensures listing(self@, c@, p.block_height@, r.inner@) { unimplemented!() }
}
pub struct Op { pub c: Seq<char>, pub k: Seq<u8>, pub v: Option<Seq<u8>> }
pub open spec fn after_ops(m: Raw, ops: Seq<Op>) -> Raw decreases ops.len() {
    if ops.len() == 0 { m } else { let o = ops.last(); let p = after_ops(m, ops.drop_last()); match o.v { Some(v) => p.insert((o.c, o.k), v), None => p.remove((o.c, o.k)) } }
}
#[verifier::external_body] pub struct WriteBatch { x: u8 }
impl WriteBatch {
    pub uninterp spec fn view(&self) -> Seq<Op>;
    #[verifier::external_body] pub fn default() -> (r: WriteBatch) ensures r@ == Seq::<Op>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn put_cf(&mut self, c: &ColumnFamily, k: Bytes, v: Bytes) -> (r: Result<(), RocksDBError>) ensures final(self)@ == old(self)@.push(Op { c: c@, k: k@, v: Some(v@) }) { unimplemented!() }
    #[verifier::external_body] pub fn delete_cf(&mut self, c: &ColumnFamily, k: Bytes) -> (r: Result<(), RocksDBError>) ensures final(self)@ == old(self)@.push(Op { c: c@, k: k@, v: None }) { unimplemented!() }
}
#[verifier::external_body] pub struct WriteOptions { x: u8 }
impl WriteOptions { #[verifier::external_body] pub fn default() -> WriteOptions { unimplemented!() } #[verifier::external_body] pub fn set_sync(&mut self, b: bool) { unimplemented!() } }
pub struct Instant;
pub struct Elapsed;
impl Instant { #[verifier::external_body] pub fn now() -> Instant { unimplemented!() } #[verifier::external_body] pub fn elapsed(&self) -> Elapsed { unimplemented!() } }
#[verifier::external_body] pub fn on_storage_put_cf(c: Cat, e: Elapsed, n: f64) { unimplemented!() }
#[verifier::external_body] pub fn on_storage_get_cf(c: Cat, e: Elapsed, n: f64) { unimplemented!() }
#[verifier::external_body] pub fn f64_(n: usize) -> f64 { unimplemented!() }
//@item core/db/src/rocks.rs :: enum RocksDBError
//@ sub /rocksdb::Error/ => /u8/
//@ sub /io::Error/ => /u8/
//@end
impl FromSpecImpl<RocksDBError> for ProtocolError { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(x: RocksDBError) -> ProtocolError { arbitrary() } }
impl From<RocksDBError> for ProtocolError { #[verifier::external_body] fn from(x: RocksDBError) -> ProtocolError { unimplemented!() } }
//@item core/db/src/rocks.rs :: const C_VERSION
//@ sub /: &str/ => /: &'static str/
//@end
//@item core/db/src/rocks.rs :: const C_BLOCKS
//@ sub /: &str/ => /: &'static str/
//@end
//@item core/db/src/rocks.rs :: const C_BLOCK_HEADER
//@ sub /: &str/ => /: &'static str/
//@end
//@item core/db/src/rocks.rs :: const C_SIGNED_TRANSACTIONS
//@ sub /: &str/ => /: &'static str/
//@end
//@item core/db/src/rocks.rs :: const C_RECEIPTS
//@ sub /: &str/ => /: &'static str/
//@end
//@item core/db/src/rocks.rs :: const C_WALS
//@ sub /: &str/ => /: &'static str/
//@end
//@item core/db/src/rocks.rs :: const C_HASH_HEIGHT_MAP
//@ sub /: &str/ => /: &'static str/
//@end
//@item core/db/src/rocks.rs :: const C_EVM_CODE_MAP
//@ sub /: &str/ => /: &'static str/
//@end
//@item core/db/src/rocks.rs :: const C_EVM_STATE
//@ sub /: &str/ => /: &'static str/
//@end
//@item core/db/src/rocks.rs :: const C_METADATA_STATE
//@ sub /: &str/ => /: &'static str/
//@end
//@item core/db/src/rocks.rs :: const C_CKB_LIGHT_CLIENT_STATE
//@ sub /: &str/ => /: &'static str/
//@end
//@fn core/db/src/rocks.rs :: fn map_category
//@ ret r
//@ spec
    ensures r@ == col(c),
//@end
//@fn core/db/src/rocks.rs :: fn get_column
//@ ret r
//@ sub /&ColumnFamily/ => /ColumnFamily/
//@ spec
    ensures r matches Ok(c) ==> c@ == col(S::cat()),
//@end
// ---- what is stored under a key of a column, and what reading it has to give ----
pub open spec fn at<S: StorageSchema>(m: Raw, k: S::Key) -> Option<S::Value> { if m.contains_key((col(S::cat()), k.enc())) { Some(choose|x: S::Value| x.enc() == m[(col(S::cat()), k.enc())]) } else { None } }
/// the bytes under a key are those of a value of the column's type
pub open spec fn ok_at<S: StorageSchema>(m: Raw, k: S::Key) -> bool { m.contains_key((col(S::cat()), k.enc())) ==> exists|x: S::Value| x.enc() == m[(col(S::cat()), k.enc())] }
pub open spec fn put<S: StorageSchema>(m: Raw, k: S::Key, v: S::Value) -> Raw { m.insert((col(S::cat()), k.enc()), v.enc()) }
pub proof fn put_at<S: StorageSchema>(m: Raw, k: S::Key, v: S::Value) ensures ok_at::<S>(put::<S>(m, k, v), k), at::<S>(put::<S>(m, k, v), k) == Some(v)
{
    let n = put::<S>(m, k, v); let c = (col(S::cat()), k.enc());
    assert(v.enc() == n[c]);
    let x = choose|x: S::Value| x.enc() == n[c];
    S::Value::inj(x, v);
}
pub proof fn put_other<S: StorageSchema, T: StorageSchema>(m: Raw, k: S::Key, v: S::Value, l: T::Key) requires S::cat() != T::cat() || k.enc() != l.enc()
    ensures at::<T>(put::<S>(m, k, v), l) == at::<T>(m, l), ok_at::<T>(put::<S>(m, k, v), l) == ok_at::<T>(m, l)
{ columns_apart(); }
pub open spec fn op_of<S: StorageSchema>(k: S::Key, v: StorageBatchModify<S>) -> Op { Op { c: col(S::cat()), k: k.enc(), v: match v { StorageBatchModify::Insert(x) => Some(x.enc()), StorageBatchModify::Remove => None } } }
pub open spec fn ops_of<S: StorageSchema>(ks: Seq<S::Key>, vs: Seq<StorageBatchModify<S>>) -> Seq<Op> { Seq::new(ks.len(), |i: int| op_of::<S>(ks[i], vs[i])) }
pub trait StorageAdapter: Sized {
    spec fn raw(&self) -> Raw;
    fn insert<S: StorageSchema>(&mut self, key: S::Key, val: S::Value) -> (r: ProtocolResult<()>) ensures r is Ok ==> final(self).raw() == put::<S>(old(self).raw(), key, val), r is Err ==> final(self).raw() == old(self).raw();
    fn get<S: StorageSchema>(&self, key: S::Key) -> (r: ProtocolResult<Option<S::Value>>) requires ok_at::<S>(self.raw(), key) ensures r matches Ok(v) ==> v == at::<S>(self.raw(), key);
    fn remove<S: StorageSchema>(&mut self, key: S::Key) -> (r: ProtocolResult<()>) ensures r is Ok ==> final(self).raw() == old(self).raw().remove((col(S::cat()), key.enc())), r is Err ==> final(self).raw() == old(self).raw();
    fn contains<S: StorageSchema>(&self, key: S::Key) -> (r: ProtocolResult<bool>) ensures r matches Ok(b) ==> b == at::<S>(self.raw(), key) is Some;
    fn batch_modify<S: StorageSchema>(&mut self, keys: Vec<S::Key>, vals: Vec<StorageBatchModify<S>>) -> (r: ProtocolResult<()>)
        ensures r is Ok ==> keys@.len() == vals@.len() && final(self).raw() == after_ops(old(self).raw(), ops_of::<S>(keys@, vals@)), r is Err ==> final(self).raw() == old(self).raw();
    fn prepare_iter<S: StorageSchema>(&self, prefix: &CommonPrefix) -> (r: ProtocolResult<RocksIterator<S>>) ensures r matches Ok(it) ==> listing(self.raw(), col(S::cat()), prefix.block_height@, it.inner@);
}
/// what a scan from a prefix on has to yield: every entry of the column from there on, in the keys' order
pub open spec fn listing(m: Raw, c: Seq<char>, prefix: Seq<u8>, s: Seq<(Seq<u8>, Seq<u8>)>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key((c, (#[trigger] s[i]).0)) && m[(c, s[i].0)] == s[i].1 && !lex_lt(s[i].0, prefix)
    &&& forall|k: Seq<u8>| #[trigger] m.contains_key((c, k)) && !lex_lt(k, prefix) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> lex_lt((#[trigger] s[i]).0, (#[trigger] s[j]).0)
}
#[verifier::external_body] pub struct DBIterator { x: u8 }
impl DBIterator {
    pub uninterp spec fn view(&self) -> Seq<(Seq<u8>, Seq<u8>)>;
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<(Bytes, Bytes)>) ensures r is None ==> old(self)@.len() == 0 && final(self)@ == old(self)@,
        r matches Some(e) ==> old(self)@.len() > 0 && e.0@ == old(self)@[0].0 && e.1@ == old(self)@[0].1 && final(self)@ == old(self)@.drop_first() { unimplemented!() }
}
pub struct RocksIterator<S: StorageSchema> { pub inner: DBIterator, pub pin_s: core::marker::PhantomData<S> }
impl<S: StorageSchema> RocksIterator<S> {
//@fn core/db/src/rocks.rs :: impl Iterator for RocksIterator<'a, S>/fn next
//@ ret r
//@ sub /fn next\(&mut self\) -> Option<Self::Item> \{\s*let kv_decode = \|\(k_bytes, v_bytes\): \(Box<\[u8\]>, Box<\[u8\]>\)\| -> ProtocolResult<_> \{(.*)\};\s*self\.inner\.next\(\)\.map\(kv_decode\)\s*\}/ => /pub fn kv_decode(k_bytes: Bytes, v_bytes: Bytes) -> ProtocolResult<(S::Key, S::Value)> {\1}/ 1
//@ sub /let key = <_>::decode\(k_bytes\)/ => /let key = <S::Key>::decode(k_bytes.as_ref())/ 1
//@ sub /let val = <_>::decode\(v_bytes\)/ => /let val = <S::Value>::decode(v_bytes.as_ref())/ 1
//@ spec
    requires exists|k: S::Key| k.enc() == k_bytes@, exists|v: S::Value| v.enc() == v_bytes@,
    ensures r matches Ok((k, v)) ==> k.enc() == k_bytes@ && v.enc() == v_bytes@,
//@end
    pub fn next(&mut self) -> (r: Option<ProtocolResult<(S::Key, S::Value)>>)
        requires old(self).inner@.len() > 0 ==> (exists|k: S::Key| k.enc() == old(self).inner@[0].0) && (exists|v: S::Value| v.enc() == old(self).inner@[0].1),
        ensures r is None ==> old(self).inner@.len() == 0 && final(self).inner@ == old(self).inner@, r is Some ==> old(self).inner@.len() > 0 && final(self).inner@ == old(self).inner@.drop_first(),
            r matches Some(Ok((k, v))) ==> k.enc() == old(self).inner@[0].0 && v.enc() == old(self).inner@[0].1,
    { match self.inner.next() { Some((k, v)) => Some(Self::kv_decode(k, v)), None => None } }
}
pub struct RocksAdapter { pub db: DB }
impl StorageAdapter for RocksAdapter {
    open spec fn raw(&self) -> Raw { self.db@ }
//@fn core/db/src/rocks.rs :: impl StorageAdapter for RocksAdapter/fn insert
//@ macros
//@ sub /&self, key/ => /&mut self, key/
//@ sub /\(column,/ => /(&column,/
//@ sub /\.map_err\(RocksDBError::from\)/ => //
//@ sub /let size = val\.len\(\) as i64;/ => //
//@ sub /size as f64/ => /f64_(0)/
//@end
//@fn core/db/src/rocks.rs :: impl StorageAdapter for RocksAdapter/fn get
//@ macros
//@ ret r
//@ sub /\(column,/ => /(&column,/
//@ sub /\.map_err\(RocksDBError::from\)/ => //
//@ sub /let val = <_>::decode\(bytes\)\?;/ => /proof { let x = choose|x: S::Value| x.enc() == bytes@; assert(x.enc() == bytes@); } let val = <S::Value>::decode(bytes.as_ref())?;/
//@end
//@fn core/db/src/rocks.rs :: impl StorageAdapter for RocksAdapter/fn remove
//@ macros
//@ sub /&self, key/ => /&mut self, key/
//@ sub /\(column,/ => /(&column,/
//@ sub /\.map_err\(RocksDBError::from\)/ => //
//@end
//@fn core/db/src/rocks.rs :: impl StorageAdapter for RocksAdapter/fn contains
//@ macros
//@ sub /\(column,/ => /(&column,/
//@ sub /\.map_err\(RocksDBError::from\)/ => //
//@end
//@fn core/db/src/rocks.rs :: impl StorageAdapter for RocksAdapter/fn batch_modify
//@ ret r
//@ sub /&self,/ => /&mut self,/
//@ sub /\(column,/ => /(&column,/
//@ sub /\.map_err\(RocksDBError::from\)/ => //
//@ sub /for \(key, value\) in keys\.into_iter\(\)\.zip\(vals\.into_iter\(\)\) \{/ => /let mut at_: usize = 0; while at_ < keys.len() && at_ < vals.len() { let key = own_(&keys[at_]); let value = own_(&vals[at_]); at_ = at_ + 1;/
//@ sub /for \(key, value\) in pairs\.into_iter\(\) \{/ => /let mut at_: usize = 0; while at_ < pairs.len() { let (key, value) = own_(&pairs[at_]); at_ = at_ + 1;/
//@ sub /insert_size \+= value\.len\(\);/ => //
//@ sub /insert_size as f64/ => /f64_(insert_size)/
//@ nloops 2
//@ loop 0
    invariant at_ <= keys@.len(), keys@.len() == vals@.len(), pairs@.len() == at_,
        forall|i: int| 0 <= i < at_ ==> pair_op(col(S::cat()), #[trigger] pairs@[i]) == op_of::<S>(keys@[i], vals@[i]),
    decreases keys@.len() - at_,
//@ loop 1
    invariant at_ <= pairs@.len(), column@ == col(S::cat()), batch@.len() == at_, forall|i: int| 0 <= i < at_ ==> #[trigger] batch@[i] == pair_op(col(S::cat()), pairs@[i]),
    decreases pairs@.len() - at_,
//@ sub /let mut opt = WriteOptions/ => /proof { assert(batch@ =~= ops_of::<S>(keys@, vals@)); } let mut opt = WriteOptions/
//@end
//@fn core/db/src/rocks.rs :: impl StorageAdapter for RocksAdapter/fn prepare_iter
//@ ret r
//@ sub /fn prepare_iter<'a, 'b: 'a, S: StorageSchema \+ 'static, P: AsRef<\[u8\]> \+ 'a>\(\s*&'b self,\s*prefix: &'a P,?\s*\) -> ProtocolResult<Box<dyn IntoIteratorByRef<S> \+ 'a>>/ => /fn prepare_iter<S: StorageSchema>(&self, prefix: &CommonPrefix) -> ProtocolResult<RocksIterator<S>>/ 1
//@ sub /RocksIntoIterator \{\s*db:\s*Arc::clone\(&self\.db\),\s*column,\s*prefix,\s*pin_s:\s*PhantomData::<S>,\s*\}/ => /self.db.prefix_iterator::<S>(column, prefix)/ 1
//@ sub /Box::new\(rocks_iter\)/ => /rocks_iter/ 1
//@end
}
pub open spec fn pair_op(c: Seq<char>, p: (Bytes, Option<Bytes>)) -> Op { Op { c, k: p.0@, v: match p.1 { Some(x) => Some(x@), None => None } } }

// ---- the storage ----
// a bounded cache: what it holds was put there (trusted: lru, and the lock around it)
#[verifier::external_body] #[verifier::accept_recursive_types(K)] #[verifier::accept_recursive_types(V)] pub struct LruCache<K, V> { x: Vec<(K, V)> }
impl<K, V> LruCache<K, V> {
    pub uninterp spec fn view(&self) -> Map<K, V>;
    #[verifier::external_body] pub fn get_cloned(&mut self, k: &K) -> (r: Option<V>) ensures final(self)@ == old(self)@, r matches Some(v) ==> old(self)@.contains_key(*k) && v == old(self)@[*k] { unimplemented!() }
    #[verifier::external_body] pub fn put(&mut self, k: K, v: V) -> (r: Option<V>) ensures forall|q: K| #[trigger] final(self)@.contains_key(q) ==> old(self)@.insert(k, v).contains_key(q) && final(self)@[q] == old(self)@.insert(k, v)[q] { unimplemented!() }
}
//@item core/storage/src/cache.rs :: struct StorageCache
//@ sub /Mutex<(LruCache<.*?>)>,/ => /\1,/
//@end
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct ArcSwap<T> { x: Vec<T> }
impl<T> ArcSwap<T> {
    pub uninterp spec fn view(&self) -> T;
    #[verifier::external_body] pub fn loaded(&self) -> (r: T) ensures r == self@ { unimplemented!() }
    #[verifier::external_body] pub fn store(&mut self, v: T) ensures final(self)@ == v { unimplemented!() }
}
pub struct StorageError;
impl FromSpecImpl<StorageError> for ProtocolError { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(x: StorageError) -> ProtocolError { arbitrary() } }
impl From<StorageError> for ProtocolError { #[verifier::external_body] fn from(x: StorageError) -> ProtocolError { unimplemented!() } }
// digests of the keys' names: 32 bytes each, no two alike, and nobody's transaction or block has them
pub uninterp spec fn latest_block_key_() -> H256;
pub uninterp spec fn latest_proof_key_() -> H256;
pub uninterp spec fn hardfork_key_() -> H256;
pub axiom fn latest_keys_apart() ensures latest_block_key_() != latest_proof_key_();
#[verifier::external_body] pub fn latest_block_key() -> (r: H256) ensures r == latest_block_key_() { unimplemented!() }
#[verifier::external_body] pub fn latest_proof_key() -> (r: H256) ensures r == latest_proof_key_() { unimplemented!() }
#[verifier::external_body] pub fn hardfork_key() -> (r: H256) ensures r == hardfork_key_() { unimplemented!() }
impl Header { pub open spec fn h(self) -> H256 { keccak(enc_header(self)) }
//@fn protocol/src/types/block.rs :: impl Header/fn hash
//@ ret r
//@ sub /&self\.encode\(\)\.unwrap\(\)/ => /&encoded_(self)/
//@ spec
    ensures r == self.h(),
//@end
}
#[verifier::external_body] pub fn encoded_(h: &Header) -> (r: Bytes) ensures r@ == enc_header(*h) { unimplemented!() }
impl Block {
//@fn protocol/src/types/block.rs :: impl Block/fn hash
//@ ret r
//@ spec
    ensures r == self.header.h(),
//@end
}
pub uninterp spec fn bk(n: u64) -> CommonPrefix;
pub broadcast axiom fn bk_is(n: u64) ensures (#[trigger] bk(n)).h() == n;
pub proof fn bk_only(p: CommonPrefix) ensures p == bk(p.h()) { broadcast use bk_is; prefix_value(p); prefix_value(bk(p.h())); be_injective(p.block_height@, bk(p.h()).block_height@); prefix_ext(p, bk(p.h())); }
pub open spec fn ck(n: u64, h: H256) -> CommonHashKey { CommonHashKey { prefix: bk(n), hash: h } }
// what the database says
pub open spec fn block_at(m: Raw, n: u64) -> Option<Block> { at::<BlockSchema>(m, bk(n)) }
pub open spec fn header_at(m: Raw, n: u64) -> Option<Header> { match at::<BlockHeaderSchema>(m, bk(n)) { Some(h) => Some(h), None => match block_at(m, n) { Some(b) => Some(b.header), None => None } } }
pub open spec fn number_at(m: Raw, h: H256) -> Option<u64> { at::<BlockHashNumberSchema>(m, h) }
pub open spec fn block_number_at(m: Raw, h: H256) -> Option<u64> { match number_at(m, h) { Some(n) => match header_at(m, n) { Some(x) => if x.h() == h { Some(n) } else { None }, None => None }, None => None } }
pub open spec fn tx_at(m: Raw, h: H256) -> Option<SignedTransaction> { match number_at(m, h) { Some(n) => at::<TransactionSchema>(m, ck(n, h)), None => None } }
pub open spec fn receipt_at(m: Raw, h: H256) -> Option<Receipt> { match number_at(m, h) { Some(n) => at::<ReceiptSchema>(m, ck(n, h)), None => None } }
pub open spec fn code_at(m: Raw, h: H256) -> Option<Bytes> { at::<EvmCodeSchema>(m, h) }
pub open spec fn typed(m: Raw) -> bool {
    &&& forall|n: u64| #[trigger] ok_at::<BlockSchema>(m, bk(n)) &&& forall|n: u64| #[trigger] ok_at::<BlockHeaderSchema>(m, bk(n))
    &&& forall|h: H256| #[trigger] ok_at::<BlockHashNumberSchema>(m, h)
    &&& forall|n: u64, h: H256| #[trigger] ok_at::<TransactionSchema>(m, ck(n, h)) &&& forall|n: u64, h: H256| #[trigger] ok_at::<ReceiptSchema>(m, ck(n, h))
    &&& ok_at::<LatestBlockSchema>(m, latest_block_key_()) &&& ok_at::<LatestProofSchema>(m, latest_proof_key_()) &&& ok_at::<HardforkSchema>(m, hardfork_key_())
    &&& forall|n: u64| (#[trigger] at::<BlockHeaderSchema>(m, bk(n)) matches Some(h) ==> block_at(m, n) matches Some(b) && b.header == h)
    &&& list_keys(m)
}
/// the columns of transactions and of receipts hold nothing but entries under a height and a digest
pub open spec fn list_keys(m: Raw) -> bool { forall|c: Cat, k: Seq<u8>| (c == Cat::SignedTransaction || c == Cat::Receipt) && #[trigger] m.contains_key((col(c), k)) ==> is_list_key(k) }
pub open spec fn is_list_key(k: Seq<u8>) -> bool { exists|x: CommonHashKey| #[trigger] x.enc() == k }
pub open spec fn caches_agree(c: StorageCache, m: Raw) -> bool {
    &&& forall|n: u64| #[trigger] c.blocks@.contains_key(n) ==> block_at(m, n) == Some(c.blocks@[n])
    &&& forall|n: u64| #[trigger] c.headers@.contains_key(n) ==> header_at(m, n) == Some(c.headers@[n])
    &&& forall|h: H256| #[trigger] c.block_numbers@.contains_key(h) ==> block_number_at(m, h) == Some(c.block_numbers@[h])
    &&& forall|h: H256| #[trigger] c.transactions@.contains_key(h) ==> tx_at(m, h) == Some(c.transactions@[h])
    &&& forall|h: H256| #[trigger] c.receipts@.contains_key(h) ==> receipt_at(m, h) == Some(c.receipts@[h])
    &&& forall|h: H256| #[trigger] c.codes@.contains_key(h) ==> code_at(m, h) == Some(c.codes@[h])
}
//@item core/storage/src/lib.rs :: struct ImplStorage
//@ sub /Arc<(Adapter|StorageCache)>/ => /\1/
//@ sub /    (\w+:)/ => /    pub \1/
//@end
impl<Adapter: StorageAdapter> ImplStorage<Adapter> {
    pub open spec fn m(&self) -> Raw { self.adapter.raw() }
    pub open spec fn wf(&self) -> bool {
        &&& typed(self.m()) &&& caches_agree(self.cache, self.m())
        &&& self.latest_block@ matches Some(b) ==> at::<LatestBlockSchema>(self.m(), latest_block_key_()) == Some(b)
        &&& self.latest_proof@ matches Some(p) ==> at::<LatestProofSchema>(self.m(), latest_proof_key_()) == Some(p)
        &&& forall|h: H256| #[trigger] ok_at::<EvmCodeSchema>(self.m(), h)
    }
    pub open spec fn same_data(&self, o: &Self) -> bool { self.m() == o.m() && self.latest_block@ == o.latest_block@ && self.latest_proof@ == o.latest_proof@ }
//@fn core/storage/src/lib.rs :: impl ImplStorage<Adapter>/fn get_block_number_by_hash
//@ macros
//@ ret r
//@ alias fn get_block_number_by_hash (of ImplStorage)
//@ sub /async fn get_block_number_by_hash\(&self/ => /fn block_number_by_hash_(&mut self/
//@ sub /\s*\.await/ => //
//@ sub /let mut cache = self\.cache\.(\w+)\.lock\(\);/ => /let cache = &mut self.cache.\1;/
//@ sub /\.get\(hash\)\.cloned\(\)/ => /.get_cloned(hash)/
//@ sub /(\w+)\.clone\(\)/ => /same(&\1)/
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).same_data(old(self)), r matches Ok(v) ==> v == block_number_at(old(self).m(), *hash),
//@end
//@fn core/storage/src/lib.rs :: impl ReadOnlyStorage for ImplStorage<Adapter>/fn get_block
//@ macros
//@ ret r
//@ sub /async fn get_block\(&self/ => /pub fn get_block(&mut self/
//@ sub /let mut cache = self\.cache\.(\w+)\.lock\(\);/ => /let cache = &mut self.cache.\1;/
//@ sub /\.get\(&height\)\.cloned\(\)/ => /.get_cloned(&height)/
//@ sub /(\w+)\.clone\(\)/ => /same(&\1)/
//@ sub /BlockKey::new\((\w+)\)/ => /key_(\1)/
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).same_data(old(self)), r matches Ok(v) ==> v == block_at(old(self).m(), height),
//@end
//@fn core/storage/src/lib.rs :: impl ReadOnlyStorage for ImplStorage<Adapter>/fn get_block_header
//@ macros
//@ ret r
//@ sub /async fn get_block_header\(&self/ => /pub fn get_block_header(&mut self/
//@ sub /\s*\.await/ => //
//@ sub /let mut cache = self\.cache\.(\w+)\.lock\(\);/ => /let cache = &mut self.cache.\1;/
//@ sub /\.get\(&height\)\.cloned\(\)/ => /.get_cloned(&height)/
//@ sub /(\w+)\.clone\(\)/ => /same(&\1)/
//@ sub /BlockKey::new\((\w+)\)/ => /key_(\1)/
//@ sub /Ok\(self\.get_block\(ctx, height\)\?\.map\(\|b\| b\.header\)\)/ => /Ok(match self.get_block(ctx, height)? { Some(b) => Some(b.header), None => None })/
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).same_data(old(self)), r matches Ok(v) ==> v == header_at(old(self).m(), height),
//@end
//@fn core/storage/src/lib.rs :: impl ReadOnlyStorage for ImplStorage<Adapter>/fn get_latest_block
//@ macros
//@ ret r
//@ sub /async fn/ => /pub fn/
//@ sub /self\.latest_block\.load\(\)\.as_ref\(\)\.clone\(\)/ => /self.latest_block.loaded()/
//@ sub /\*LATEST_BLOCK_KEY/ => /latest_block_key()/
//@ sub /\.ok_or_else\(\|\|\s*StorageError::GetNone\([^?]*\)\)\?/ => /.ok_or(StorageError)?/
//@ spec
    requires self.wf(),
    ensures r matches Ok(v) ==> Some(v) == at::<LatestBlockSchema>(self.m(), latest_block_key_()),
//@end
//@fn core/storage/src/lib.rs :: impl ReadOnlyStorage for ImplStorage<Adapter>/fn get_latest_block_header
//@ macros
//@ ret r
//@ sub /async fn/ => /pub fn/
//@ sub /let guard = self\.latest_block\.load\(\);/ => /let guard = self.latest_block.loaded();/
//@ sub /let opt_block = guard\.as_ref\(\);/ => /let opt_block = guard;/
//@ sub /opt_block\.as_ref\(\)\.map\(\|b\| b\.header\.clone\(\)\)/ => /match opt_block { Some(b) => Some(b.header), None => None }/
//@ sub /\*LATEST_BLOCK_KEY/ => /latest_block_key()/
//@ sub /\.ok_or_else\(\|\|\s*StorageError::GetNone\([^?]*\)\)\?/ => /.ok_or(StorageError)?/
//@ spec
    requires self.wf(),
    ensures r matches Ok(v) ==> (at::<LatestBlockSchema>(self.m(), latest_block_key_()) matches Some(b) && v == b.header),
//@end
//@fn core/storage/src/lib.rs :: impl ReadOnlyStorage for ImplStorage<Adapter>/fn get_latest_proof
//@ macros
//@ ret r
//@ sub /async fn/ => /pub fn/
//@ sub /self\.latest_proof\.load\(\)\.as_ref\(\)\.clone\(\)/ => /self.latest_proof.loaded()/
//@ sub /\*LATEST_PROOF_KEY/ => /latest_proof_key()/
//@ sub /\.ok_or_else\(\|\|\s*StorageError::GetNone\([^?]*\)\)\?/ => /.ok_or(StorageError)?/
//@ spec
    requires self.wf(),
    ensures r matches Ok(v) ==> Some(v) == at::<LatestProofSchema>(self.m(), latest_proof_key_()),
//@end
//@fn core/storage/src/lib.rs :: impl ReadOnlyStorage for ImplStorage<Adapter>/fn get_block_by_hash
//@ ret r
//@ sub /async fn get_block_by_hash\(\s*&self/ => /pub fn get_block_by_hash(&mut self/
//@ sub /\s*\.await/ => //
//@ sub /self\.get_block_number_by_hash\(block_hash\)/ => /self.block_number_by_hash_(block_hash)/
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).same_data(old(self)), r matches Ok(v) ==> v == (match block_number_at(old(self).m(), *block_hash) { Some(n) => block_at(old(self).m(), n), None => None }),
//@end
//@fn core/storage/src/lib.rs :: impl ReadOnlyStorage for ImplStorage<Adapter>/fn get_block_number_by_hash
//@ ret r
//@ sub /async fn get_block_number_by_hash\(\s*&self/ => /pub fn get_block_number_by_hash(&mut self/
//@ sub /\s*\.await/ => //
//@ sub /self\.get_block_number_by_hash\(block_hash\)/ => /self.block_number_by_hash_(block_hash)/
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).same_data(old(self)), r matches Ok(v) ==> v == block_number_at(old(self).m(), *block_hash),
//@end
//@fn core/storage/src/lib.rs :: impl ReadOnlyStorage for ImplStorage<Adapter>/fn get_code_by_hash
//@ macros
//@ ret r
//@ sub /async fn get_code_by_hash\(&self/ => /pub fn get_code_by_hash(&mut self/
//@ sub /let mut cache = self\.cache\.(\w+)\.lock\(\);/ => /let cache = &mut self.cache.\1;/
//@ sub /\.get\(hash\)\.cloned\(\)/ => /.get_cloned(hash)/
//@ sub /(\w+)\.clone\(\)/ => /same(&\1)/
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).same_data(old(self)), r matches Ok(v) ==> v == code_at(old(self).m(), *hash),
//@end
//@fn core/storage/src/lib.rs :: impl ReadOnlyStorage for ImplStorage<Adapter>/fn get_code_by_address
//@ ret r
//@ sub /async fn get_code_by_address\(\s*&self/ => /pub fn get_code_by_address(&mut self/
//@ sub /\s*\.await/ => //
//@ spec
    requires old(self).wf(), ok_at::<EvmCodeAddressSchema>(old(self).m(), *address),
    ensures final(self).wf(), final(self).same_data(old(self)), r matches Ok(v) ==> v == (match at::<EvmCodeAddressSchema>(old(self).m(), *address) { Some(h) => code_at(old(self).m(), h), None => None }),
//@end
//@fn core/storage/src/lib.rs :: impl ReadOnlyStorage for ImplStorage<Adapter>/fn get_transaction_by_hash
//@ macros
//@ ret r
//@ sub /async fn get_transaction_by_hash\(\s*&self/ => /pub fn get_transaction_by_hash(&mut self/
//@ sub /let mut cache = self\.cache\.(\w+)\.lock\(\);/ => /let cache = &mut self.cache.\1;/
//@ sub /\.get\(hash\)\.cloned\(\)/ => /.get_cloned(hash)/
//@ sub /(\w+)\.clone\(\)/ => /same(&\1)/
//@ sub /same\(&hash\)/ => /*hash/
//@ sub /CommonHashKey::new\((\w+), /  => /hash_key_(\1, /
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).same_data(old(self)), r matches Ok(v) ==> v == tx_at(old(self).m(), *hash),
//@ start
    proof { assert(ok_at::<BlockHashNumberSchema>(self.m(), *hash)); assert(ok_at::<TxHashNumberSchema>(self.m(), *hash)); assert(number_at(self.m(), *hash) == at::<TxHashNumberSchema>(self.m(), *hash)); }
//@end
//@fn core/storage/src/lib.rs :: impl ReadOnlyStorage for ImplStorage<Adapter>/fn get_receipt_by_hash
//@ macros
//@ ret r
//@ sub /async fn get_receipt_by_hash\(\s*&self/ => /pub fn get_receipt_by_hash(&mut self/
//@ sub /let mut cache = self\.cache\.(\w+)\.lock\(\);/ => /let cache = &mut self.cache.\1;/
//@ sub /\.get\(hash\)\.cloned\(\)/ => /.get_cloned(hash)/
//@ sub /(\w+)\.clone\(\)/ => /same(&\1)/
//@ sub /same\(&hash\)/ => /*hash/
//@ sub /CommonHashKey::new\((\w+), /  => /hash_key_(\1, /
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).same_data(old(self)), r matches Ok(v) ==> v == receipt_at(old(self).m(), *hash),
//@ start
    proof { assert(ok_at::<BlockHashNumberSchema>(self.m(), *hash)); assert(ok_at::<TxHashNumberSchema>(self.m(), *hash)); assert(number_at(self.m(), *hash) == at::<TxHashNumberSchema>(self.m(), *hash)); }
//@end
//@fn core/storage/src/lib.rs :: impl ReadOnlyStorage for ImplStorage<Adapter>/fn hardfork_proposal
//@ macros
//@ ret r
//@ sub /async fn/ => /pub fn/
//@ sub /\*HAEDFORK_PROPOSAL/ => /hardfork_key()/
//@ spec
    requires self.wf(),
    ensures r matches Ok(v) ==> v == at::<HardforkSchema>(self.m(), hardfork_key_()),
//@end
}

/// everything stored stays as it was; things may have been added
pub open spec fn grew(m: Raw, n: Raw) -> bool { forall|c: Seq<char>, k: Seq<u8>| #[trigger] m.contains_key((c, k)) ==> n.contains_key((c, k)) && n[(c, k)] == m[(c, k)] }
pub proof fn grew_at<S: StorageSchema>(m: Raw, n: Raw, k: S::Key) requires grew(m, n) ensures at::<S>(m, k) is Some ==> at::<S>(n, k) == at::<S>(m, k) {}
pub proof fn grown_caches(c: StorageCache, m: Raw, n: Raw) requires grew(m, n), typed(m), typed(n), caches_agree(c, m) ensures caches_agree(c, n)
{
    assert forall|k: u64| #[trigger] c.blocks@.contains_key(k) implies block_at(n, k) == Some(c.blocks@[k]) by { grew_at::<BlockSchema>(m, n, bk(k)); }
    assert forall|k: u64| header_at(m, k) is Some implies #[trigger] header_at(n, k) == header_at(m, k) by { grew_at::<BlockSchema>(m, n, bk(k)); grew_at::<BlockHeaderSchema>(m, n, bk(k)); assert(ok_at::<BlockHeaderSchema>(n, bk(k))); }
    assert forall|h: H256| number_at(m, h) is Some implies #[trigger] number_at(n, h) == number_at(m, h) by { grew_at::<BlockHashNumberSchema>(m, n, h); }
    assert forall|h: H256| #[trigger] c.block_numbers@.contains_key(h) implies block_number_at(n, h) == Some(c.block_numbers@[h]) by { assert(number_at(n, h) == number_at(m, h)); let k = number_at(m, h)->0; assert(header_at(n, k) == header_at(m, k)); }
    assert forall|h: H256| #[trigger] c.transactions@.contains_key(h) implies tx_at(n, h) == Some(c.transactions@[h]) by { assert(number_at(n, h) == number_at(m, h)); grew_at::<TransactionSchema>(m, n, ck(number_at(m, h)->0, h)); }
    assert forall|h: H256| #[trigger] c.receipts@.contains_key(h) implies receipt_at(n, h) == Some(c.receipts@[h]) by { assert(number_at(n, h) == number_at(m, h)); grew_at::<ReceiptSchema>(m, n, ck(number_at(m, h)->0, h)); }
    assert forall|h: H256| #[trigger] c.codes@.contains_key(h) implies code_at(n, h) == Some(c.codes@[h]) by { grew_at::<EvmCodeSchema>(m, n, h); }
}
pub open spec fn new_or<V>(a: Option<V>, v: V) -> bool { a is None || a == Some(v) }
/// what is put under a key is new there, or what was there already
pub proof fn put_grows<S: StorageSchema>(m: Raw, k: S::Key, v: S::Value) requires ok_at::<S>(m, k), new_or(at::<S>(m, k), v) ensures grew(m, put::<S>(m, k, v))
{ let c = (col(S::cat()), k.enc()); if m.contains_key(c) { let x = choose|x: S::Value| x.enc() == m[c]; assert(x == v); } }
/// a typed database stays typed under a put of one of the chain's items
pub open spec fn header_fits(m: Raw) -> bool { forall|n: u64| (#[trigger] at::<BlockHeaderSchema>(m, bk(n)) matches Some(h) ==> block_at(m, n) matches Some(b) && b.header == h) }
pub open spec fn holds<S: StorageSchema>(m: Raw) -> bool { forall|k: S::Key| #[trigger] ok_at::<S>(m, k) }
pub proof fn put_typed<S: StorageSchema>(m: Raw, k: S::Key, v: S::Value)
    requires typed(m), k.enc().len() == (if S::cat() == Cat::Block || S::cat() == Cat::BlockHeader { 8nat } else if S::cat() == Cat::HashHeight { 33nat } else if S::cat() == Cat::Code { 33nat } else { 40nat }),
        S::cat() == Cat::Block ==> exists|b: Block| b.enc() == v.enc() && new_or(block_at(m, bk_of(k.enc())), b),
        S::cat() == Cat::BlockHeader ==> exists|h: Header| h.enc() == v.enc() && (block_at(m, bk_of(k.enc())) matches Some(b) && b.header == h),
        S::cat() == Cat::HashHeight ==> exists|x: u64| x.enc() == v.enc(),
        S::cat() == Cat::SignedTransaction ==> exists|x: SignedTransaction| x.enc() == v.enc(),
        S::cat() == Cat::Receipt ==> exists|x: Receipt| x.enc() == v.enc(),
        S::cat() == Cat::SignedTransaction || S::cat() == Cat::Receipt ==> is_list_key(k.enc()),
        S::cat() == Cat::Block || S::cat() == Cat::BlockHeader || S::cat() == Cat::HashHeight || S::cat() == Cat::SignedTransaction || S::cat() == Cat::Receipt || S::cat() == Cat::Code,
    ensures typed(put::<S>(m, k, v))
{
    broadcast use {bk_is, bytes_axioms};
    columns_apart();
    let n = put::<S>(m, k, v);
    let c = (col(S::cat()), k.enc());
    assert forall|x: u64| #[trigger] ok_at::<BlockSchema>(n, bk(x)) by { assert(ok_at::<BlockSchema>(m, bk(x))); if S::cat() == Cat::Block { let b = choose|b: Block| b.enc() == v.enc() && new_or(block_at(m, bk_of(k.enc())), b); assert(b.enc() == v.enc()); } }
    assert forall|x: u64| #[trigger] ok_at::<BlockHeaderSchema>(n, bk(x)) by { assert(ok_at::<BlockHeaderSchema>(m, bk(x))); if S::cat() == Cat::BlockHeader { let b = choose|b: Header| b.enc() == v.enc(); assert(b.enc() == v.enc()); } }
    assert forall|x: H256| #[trigger] ok_at::<BlockHashNumberSchema>(n, x) by { assert(ok_at::<BlockHashNumberSchema>(m, x)); if S::cat() == Cat::HashHeight { let b = choose|b: u64| b.enc() == v.enc(); assert(b.enc() == v.enc()); } }
    assert forall|x: u64, h: H256| #[trigger] ok_at::<TransactionSchema>(n, ck(x, h)) by { assert(ok_at::<TransactionSchema>(m, ck(x, h))); if S::cat() == Cat::SignedTransaction { let b = choose|b: SignedTransaction| b.enc() == v.enc(); assert(b.enc() == v.enc()); } }
    assert forall|x: u64, h: H256| #[trigger] ok_at::<ReceiptSchema>(n, ck(x, h)) by { assert(ok_at::<ReceiptSchema>(m, ck(x, h))); if S::cat() == Cat::Receipt { let b = choose|b: Receipt| b.enc() == v.enc(); assert(b.enc() == v.enc()); } }
    assert(latest_block_key_().enc().len() == 33 && latest_proof_key_().enc().len() == 33);
    assert(ok_at::<LatestBlockSchema>(n, latest_block_key_())); assert(ok_at::<LatestProofSchema>(n, latest_proof_key_())); assert(ok_at::<HardforkSchema>(n, hardfork_key_()));
    assert forall|x: u64| (#[trigger] at::<BlockHeaderSchema>(n, bk(x)) matches Some(h) ==> block_at(n, x) matches Some(b) && b.header == h) by {
        assert(at::<BlockHeaderSchema>(m, bk(x)) matches Some(h) ==> block_at(m, x) matches Some(b) && b.header == h);
        if k.enc() == bk(x).enc() { CommonPrefix::inj(bk(bk_of(k.enc())), bk(x)); 
            if S::cat() == Cat::Block { let b = choose|b: Block| b.enc() == v.enc() && new_or(block_at(m, bk_of(k.enc())), b); put_at::<BlockSchema>(m, bk(x), b); assert(put::<BlockSchema>(m, bk(x), b) == n); assert(at::<BlockHeaderSchema>(n, bk(x)) == at::<BlockHeaderSchema>(m, bk(x))); }
            else if S::cat() == Cat::BlockHeader { let h = choose|h: Header| h.enc() == v.enc() && (block_at(m, bk_of(k.enc())) matches Some(b) && b.header == h); put_at::<BlockHeaderSchema>(m, bk(x), h); assert(put::<BlockHeaderSchema>(m, bk(x), h) == n); assert(block_at(n, x) == block_at(m, x)); }
            else { assert(at::<BlockHeaderSchema>(n, bk(x)) == at::<BlockHeaderSchema>(m, bk(x))); assert(block_at(n, x) == block_at(m, x)); }
        } else { assert(at::<BlockHeaderSchema>(n, bk(x)) == at::<BlockHeaderSchema>(m, bk(x))); assert(block_at(n, x) == block_at(m, x)); }
    }
}
pub open spec fn bk_of(k: Seq<u8>) -> u64 { be(k) as u64 }

pub proof fn number_grows(m: Raw, h: H256, n: u64) requires typed(m), new_or(number_at(m, h), n)
    ensures typed(put::<BlockHashNumberSchema>(m, h, n)), grew(m, put::<BlockHashNumberSchema>(m, h, n)), number_at(put::<BlockHashNumberSchema>(m, h, n), h) == Some(n)
{ assert(ok_at::<BlockHashNumberSchema>(m, h)); assert(n.enc() == enc_u64(n)); put_grows::<BlockHashNumberSchema>(m, h, n); put_typed::<BlockHashNumberSchema>(m, h, n); put_at::<BlockHashNumberSchema>(m, h, n); }
pub proof fn block_grows(m: Raw, b: Block) requires typed(m), new_or(block_at(m, b.header.number), b)
    ensures typed(put::<BlockSchema>(m, bk(b.header.number), b)), grew(m, put::<BlockSchema>(m, bk(b.header.number), b)), block_at(put::<BlockSchema>(m, bk(b.header.number), b), b.header.number) == Some(b)
{ broadcast use bk_is; let k = bk(b.header.number); assert(ok_at::<BlockSchema>(m, k)); put_grows::<BlockSchema>(m, k, b); assert(bk_of(k.enc()) == b.header.number); assert(b.enc() == enc_block(b)); put_typed::<BlockSchema>(m, k, b); put_at::<BlockSchema>(m, k, b); }
pub proof fn header_grows(m: Raw, b: Block) requires typed(m), block_at(m, b.header.number) == Some(b)
    ensures typed(put::<BlockHeaderSchema>(m, bk(b.header.number), b.header)), grew(m, put::<BlockHeaderSchema>(m, bk(b.header.number), b.header)), header_at(put::<BlockHeaderSchema>(m, bk(b.header.number), b.header), b.header.number) == Some(b.header)
{ broadcast use bk_is; let k = bk(b.header.number); assert(ok_at::<BlockHeaderSchema>(m, k)); assert(new_or(at::<BlockHeaderSchema>(m, k), b.header)); put_grows::<BlockHeaderSchema>(m, k, b.header); assert(bk_of(k.enc()) == b.header.number); assert(b.header.enc() == enc_header(b.header)); put_typed::<BlockHeaderSchema>(m, k, b.header); put_at::<BlockHeaderSchema>(m, k, b.header); }
/// everything but this block's entries is as it was
pub open spec fn only_block(m: Raw, n: Raw, b: Block) -> bool {
    forall|c: Seq<char>, k: Seq<u8>| #[trigger] n.contains_key((c, k)) ==> m.contains_key((c, k)) || (c == col(Cat::Block) && k == bk(b.header.number).enc()) || (c == col(Cat::BlockHeader) && k == bk(b.header.number).enc()) || (c == col(Cat::HashHeight) && k == b.header.h().enc())
}
pub open spec fn block_is_new(m: Raw, b: Block) -> bool { new_or(block_at(m, b.header.number), b) && new_or(number_at(m, b.header.h()), b.header.number) }
impl<Adapter: StorageAdapter> ImplStorage<Adapter> {
    proof fn kept(&self, o: &Self) requires o.wf(), typed(self.m()), grew(o.m(), self.m()), self.cache == o.cache, self.latest_block@ == o.latest_block@, self.latest_proof@ == o.latest_proof@, forall|h: H256| #[trigger] ok_at::<EvmCodeSchema>(self.m(), h) ensures self.wf()
    { grown_caches(self.cache, o.m(), self.m()); grew_at::<LatestBlockSchema>(o.m(), self.m(), latest_block_key_()); grew_at::<LatestProofSchema>(o.m(), self.m(), latest_proof_key_()); }
//@fn core/storage/src/lib.rs :: impl Storage for ImplStorage<Adapter>/fn set_block
//@ ret r
//@ sub /async fn set_block\(&self/ => /pub fn set_block(&mut self/
//@ sub /BlockKey::new\(/ => /key_(/
//@ sub /block\.(header\.)?clone\(\)/ => /same(&block.\1)/
//@ sub /same\(&block\.(header)?\.?\)/ => /same(&block@@\1)/
//@ sub /block@@header/ => /block.header/ 0
//@ sub /block@@/ => /block/ 0
//@ sub /self\.adapter\.insert::<BlockHeaderSchema>/ => /proof { columns_apart(); block_grows(m0, block); let m1 = self.m(); assert forall|h: H256| #[trigger] ok_at::<EvmCodeSchema>(m1, h) by { assert(ok_at::<EvmCodeSchema>(m0, h)); put_other::<BlockSchema, EvmCodeSchema>(m0, bk(block.header.number), block, h); } self.kept(old(self)); header_grows(m1, block); } let ghost m1 = self.m(); self.adapter.insert::<BlockHeaderSchema>/
//@ sub /self\.adapter\s*\.insert::<BlockHashNumberSchema>/ => /proof { let m2 = self.m(); assert forall|h: H256| #[trigger] ok_at::<EvmCodeSchema>(m2, h) by { assert(ok_at::<EvmCodeSchema>(m1, h)); put_other::<BlockHeaderSchema, EvmCodeSchema>(m1, bk(block.header.number), block.header, h); } self.kept(old(self)); grew_at::<BlockSchema>(m1, m2, bk(block.header.number)); put_other::<BlockSchema, BlockHashNumberSchema>(m0, bk(block.header.number), block, block.header.h()); put_other::<BlockHeaderSchema, BlockHashNumberSchema>(m1, bk(block.header.number), block.header, block.header.h()); number_grows(m2, block.header.h(), block.header.number); } let ghost m2 = self.m(); self.adapter.insert::<BlockHashNumberSchema>/
//@ sub /        Ok\(\(\)\)/ => /        proof { let m3 = self.m(); assert forall|h: H256| #[trigger] ok_at::<EvmCodeSchema>(m3, h) by { assert(ok_at::<EvmCodeSchema>(m2, h)); put_other::<BlockHashNumberSchema, EvmCodeSchema>(m2, block.header.h(), block.header.number, h); } self.kept(old(self)); grew_at::<BlockSchema>(m2, m3, bk(block.header.number)); grew_at::<BlockHeaderSchema>(m2, m3, bk(block.header.number)); assert(at::<BlockHeaderSchema>(m2, bk(block.header.number)) is Some); } Ok(())/
//@ spec
    requires old(self).wf(), block_is_new(old(self).m(), block),
    ensures final(self).wf(), grew(old(self).m(), final(self).m()), only_block(old(self).m(), final(self).m(), block), final(self).latest_block@ == old(self).latest_block@,
        r is Ok ==> block_at(final(self).m(), block.header.number) == Some(block) && header_at(final(self).m(), block.header.number) == Some(block.header)
            && number_at(final(self).m(), block.header.h()) == Some(block.header.number) && block_number_at(final(self).m(), block.header.h()) == Some(block.header.number),
//@ start
    let ghost m0 = self.m();
//@end
}

/// nothing of the chain's own items is touched
pub open spec fn same_chain(m: Raw, n: Raw) -> bool {
    &&& forall|x: u64| #[trigger] at::<BlockSchema>(n, bk(x)) == at::<BlockSchema>(m, bk(x)) && ok_at::<BlockSchema>(n, bk(x)) == ok_at::<BlockSchema>(m, bk(x))
    &&& forall|x: u64| #[trigger] at::<BlockHeaderSchema>(n, bk(x)) == at::<BlockHeaderSchema>(m, bk(x)) && ok_at::<BlockHeaderSchema>(n, bk(x)) == ok_at::<BlockHeaderSchema>(m, bk(x))
    &&& forall|h: H256| #[trigger] number_at(n, h) == number_at(m, h) && ok_at::<BlockHashNumberSchema>(n, h) == ok_at::<BlockHashNumberSchema>(m, h)
    &&& forall|x: u64, h: H256| #[trigger] at::<TransactionSchema>(n, ck(x, h)) == at::<TransactionSchema>(m, ck(x, h)) && ok_at::<TransactionSchema>(n, ck(x, h)) == ok_at::<TransactionSchema>(m, ck(x, h))
    &&& forall|x: u64, h: H256| #[trigger] at::<ReceiptSchema>(n, ck(x, h)) == at::<ReceiptSchema>(m, ck(x, h)) && ok_at::<ReceiptSchema>(n, ck(x, h)) == ok_at::<ReceiptSchema>(m, ck(x, h))
    &&& forall|h: H256| #[trigger] code_at(n, h) == code_at(m, h) && ok_at::<EvmCodeSchema>(n, h) == ok_at::<EvmCodeSchema>(m, h)
}
pub proof fn single_same_chain<S: StorageSchema>(m: Raw, k: S::Key, v: S::Value) requires (S::cat() == Cat::Block && k.enc().len() == 33) || S::cat() == Cat::Version
    ensures same_chain(m, put::<S>(m, k, v)), list_keys(m) ==> list_keys(put::<S>(m, k, v))
{
    broadcast use {bk_is, bytes_axioms}; columns_apart();
    let n = put::<S>(m, k, v);
    assert forall|x: u64| #[trigger] at::<BlockSchema>(n, bk(x)) == at::<BlockSchema>(m, bk(x)) && ok_at::<BlockSchema>(n, bk(x)) == ok_at::<BlockSchema>(m, bk(x)) by { assert(bk(x).enc().len() == 8); put_other::<S, BlockSchema>(m, k, v, bk(x)); }
    assert forall|x: u64| #[trigger] at::<BlockHeaderSchema>(n, bk(x)) == at::<BlockHeaderSchema>(m, bk(x)) && ok_at::<BlockHeaderSchema>(n, bk(x)) == ok_at::<BlockHeaderSchema>(m, bk(x)) by { put_other::<S, BlockHeaderSchema>(m, k, v, bk(x)); }
    assert forall|x: H256| #[trigger] number_at(n, x) == number_at(m, x) && ok_at::<BlockHashNumberSchema>(n, x) == ok_at::<BlockHashNumberSchema>(m, x) by { put_other::<S, BlockHashNumberSchema>(m, k, v, x); }
    assert forall|x: u64, h: H256| #[trigger] at::<TransactionSchema>(n, ck(x, h)) == at::<TransactionSchema>(m, ck(x, h)) && ok_at::<TransactionSchema>(n, ck(x, h)) == ok_at::<TransactionSchema>(m, ck(x, h)) by { put_other::<S, TransactionSchema>(m, k, v, ck(x, h)); }
    assert forall|x: u64, h: H256| #[trigger] at::<ReceiptSchema>(n, ck(x, h)) == at::<ReceiptSchema>(m, ck(x, h)) && ok_at::<ReceiptSchema>(n, ck(x, h)) == ok_at::<ReceiptSchema>(m, ck(x, h)) by { put_other::<S, ReceiptSchema>(m, k, v, ck(x, h)); }
    assert forall|x: H256| #[trigger] code_at(n, x) == code_at(m, x) && ok_at::<EvmCodeSchema>(n, x) == ok_at::<EvmCodeSchema>(m, x) by { put_other::<S, EvmCodeSchema>(m, k, v, x); }
}
pub proof fn same_chain_agrees(c: StorageCache, m: Raw, n: Raw) requires same_chain(m, n), caches_agree(c, m) ensures caches_agree(c, n), forall|x: u64| #[trigger] header_at(n, x) == header_at(m, x), forall|h: H256| #[trigger] block_number_at(n, h) == block_number_at(m, h)
{
    assert forall|x: u64| #[trigger] header_at(n, x) == header_at(m, x) by { assert(at::<BlockSchema>(n, bk(x)) == at::<BlockSchema>(m, bk(x))); assert(at::<BlockHeaderSchema>(n, bk(x)) == at::<BlockHeaderSchema>(m, bk(x))); }
    assert forall|h: H256| #[trigger] block_number_at(n, h) == block_number_at(m, h) by { assert(number_at(n, h) == number_at(m, h)); assert(number_at(m, h) matches Some(x) ==> header_at(n, x) == header_at(m, x)); }
    assert forall|h: H256| #[trigger] tx_at(n, h) == tx_at(m, h) by { assert(number_at(n, h) == number_at(m, h)); assert(number_at(m, h) matches Some(x) ==> at::<TransactionSchema>(n, ck(x, h)) == at::<TransactionSchema>(m, ck(x, h))); }
    assert forall|h: H256| #[trigger] receipt_at(n, h) == receipt_at(m, h) by { assert(number_at(n, h) == number_at(m, h)); assert(number_at(m, h) matches Some(x) ==> at::<ReceiptSchema>(n, ck(x, h)) == at::<ReceiptSchema>(m, ck(x, h))); }
    assert forall|x: u64| #[trigger] block_at(n, x) == block_at(m, x) by { assert(at::<BlockSchema>(n, bk(x)) == at::<BlockSchema>(m, bk(x))); }
    assert forall|h: H256| c.codes@.contains_key(h) implies #[trigger] code_at(n, h) == code_at(m, h) by { }
}
pub proof fn same_chain_typed(m: Raw, n: Raw) requires same_chain(m, n), typed(m), ok_at::<LatestBlockSchema>(n, latest_block_key_()), ok_at::<LatestProofSchema>(n, latest_proof_key_()), ok_at::<HardforkSchema>(n, hardfork_key_()), list_keys(n) ensures typed(n)
{
    assert forall|x: u64| #[trigger] ok_at::<BlockSchema>(n, bk(x)) by { assert(at::<BlockSchema>(n, bk(x)) == at::<BlockSchema>(m, bk(x))); assert(ok_at::<BlockSchema>(m, bk(x))); }
    assert forall|x: u64| #[trigger] ok_at::<BlockHeaderSchema>(n, bk(x)) by { assert(at::<BlockHeaderSchema>(n, bk(x)) == at::<BlockHeaderSchema>(m, bk(x))); assert(ok_at::<BlockHeaderSchema>(m, bk(x))); }
    assert forall|x: H256| #[trigger] ok_at::<BlockHashNumberSchema>(n, x) by { assert(number_at(n, x) == number_at(m, x)); assert(ok_at::<BlockHashNumberSchema>(m, x)); }
    assert forall|x: u64, h: H256| #[trigger] ok_at::<TransactionSchema>(n, ck(x, h)) by { assert(at::<TransactionSchema>(n, ck(x, h)) == at::<TransactionSchema>(m, ck(x, h))); assert(ok_at::<TransactionSchema>(m, ck(x, h))); }
    assert forall|x: u64, h: H256| #[trigger] ok_at::<ReceiptSchema>(n, ck(x, h)) by { assert(at::<ReceiptSchema>(n, ck(x, h)) == at::<ReceiptSchema>(m, ck(x, h))); assert(ok_at::<ReceiptSchema>(m, ck(x, h))); }
    assert forall|x: u64| (#[trigger] at::<BlockHeaderSchema>(n, bk(x)) matches Some(h) ==> block_at(n, x) matches Some(b) && b.header == h) by { assert(at::<BlockSchema>(n, bk(x)) == at::<BlockSchema>(m, bk(x))); assert(at::<BlockHeaderSchema>(n, bk(x)) == at::<BlockHeaderSchema>(m, bk(x))); }
}
impl<Adapter: StorageAdapter> ImplStorage<Adapter> {
//@fn core/storage/src/lib.rs :: impl Storage for ImplStorage<Adapter>/fn set_latest_block
//@ ret r
//@ sub /async fn set_latest_block\(&self/ => /pub fn set_latest_block(&mut self/
//@ sub /\*LATEST_BLOCK_KEY/ => /latest_block_key()/
//@ sub /block\.clone\(\)/ => /same(&block)/
//@ sub /self\.latest_block\.store\(Arc::new\((.*?)\)\);/ => /proof { let n = self.m(); let k = latest_block_key_(); single_same_chain::<LatestBlockSchema>(m0, k, block); put_at::<LatestBlockSchema>(m0, k, block); latest_keys_apart(); if k.enc() == latest_proof_key_().enc() { H256::inj(k, latest_proof_key_()); } put_other::<LatestBlockSchema, LatestProofSchema>(m0, k, block, latest_proof_key_()); columns_apart(); put_other::<LatestBlockSchema, HardforkSchema>(m0, k, block, hardfork_key_()); same_chain_typed(m0, n); same_chain_agrees(self.cache, m0, n); assert forall|h: H256| #[trigger] ok_at::<EvmCodeSchema>(n, h) by { assert(code_at(n, h) == code_at(m0, h)); assert(ok_at::<EvmCodeSchema>(m0, h)); } } self.latest_block.store(\1);/
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), same_chain(old(self).m(), final(self).m()), final(self).latest_proof@ == old(self).latest_proof@,
        r is Ok ==> at::<LatestBlockSchema>(final(self).m(), latest_block_key_()) == Some(block) && final(self).m() == put::<LatestBlockSchema>(old(self).m(), latest_block_key_(), block),
//@ start
    let ghost m0 = self.m();
//@end
//@fn core/storage/src/lib.rs :: impl Storage for ImplStorage<Adapter>/fn update_latest_proof
//@ ret r
//@ sub /async fn update_latest_proof\(&self/ => /pub fn update_latest_proof(&mut self/
//@ sub /\*LATEST_PROOF_KEY/ => /latest_proof_key()/
//@ sub /proof\.clone\(\)/ => /same(&proof_)/
//@ sub /proof: Proof/ => /proof_: Proof/
//@ sub /self\.latest_proof\.store\(Arc::new\(Some\(proof\)\)\);/ => /proof { let n = self.m(); let k = latest_proof_key_(); single_same_chain::<LatestProofSchema>(m0, k, proof_); put_at::<LatestProofSchema>(m0, k, proof_); latest_keys_apart(); if k.enc() == latest_block_key_().enc() { H256::inj(k, latest_block_key_()); } put_other::<LatestProofSchema, LatestBlockSchema>(m0, k, proof_, latest_block_key_()); columns_apart(); put_other::<LatestProofSchema, HardforkSchema>(m0, k, proof_, hardfork_key_()); same_chain_typed(m0, n); same_chain_agrees(self.cache, m0, n); assert forall|h: H256| #[trigger] ok_at::<EvmCodeSchema>(n, h) by { assert(code_at(n, h) == code_at(m0, h)); assert(ok_at::<EvmCodeSchema>(m0, h)); } } self.latest_proof.store(Some(proof_));/
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), same_chain(old(self).m(), final(self).m()), final(self).latest_block@ == old(self).latest_block@,
        r is Ok ==> at::<LatestProofSchema>(final(self).m(), latest_proof_key_()) == Some(proof_) && at::<LatestBlockSchema>(final(self).m(), latest_block_key_()) == at::<LatestBlockSchema>(old(self).m(), latest_block_key_()),
//@ start
    let ghost m0 = self.m();
//@end
//@fn core/storage/src/lib.rs :: impl Storage for ImplStorage<Adapter>/fn insert_block
//@ ret r
//@ sub /async fn insert_block\(&self/ => /pub fn insert_block(&mut self/
//@ sub /\s*\.await/ => //
//@ sub /block\.clone\(\)/ => /same(&block)/
//@ sub /self\.set_latest_block\(/ => /let ghost m1 = self.m(); self.set_latest_block(/
//@ sub /        Ok\(\(\)\)/ => /        proof { same_chain_agrees(self.cache, m1, self.m()); assert(at::<BlockSchema>(self.m(), bk(block.header.number)) == at::<BlockSchema>(m1, bk(block.header.number))); } Ok(())/
//@ spec
    requires old(self).wf(), block_is_new(old(self).m(), block),
    ensures final(self).wf(),
        r is Ok ==> block_at(final(self).m(), block.header.number) == Some(block) && header_at(final(self).m(), block.header.number) == Some(block.header)
            && block_number_at(final(self).m(), block.header.h()) == Some(block.header.number) && at::<LatestBlockSchema>(final(self).m(), latest_block_key_()) == Some(block),
//@end
}

// ---- lists of transactions and of receipts ----
pub open spec fn all_puts<S: StorageSchema>(vs: Seq<StorageBatchModify<S>>) -> bool { forall|i: int| 0 <= i < vs.len() ==> #[trigger] vs[i] is Insert }
pub open spec fn only_listed<S: StorageSchema>(m: Raw, n: Raw, ks: Seq<S::Key>) -> bool { forall|c: Seq<char>, k: Seq<u8>| #[trigger] n.contains_key((c, k)) ==> m.contains_key((c, k)) || (c == col(S::cat()) && exists|i: int| 0 <= i < ks.len() && #[trigger] ks[i].enc() == k) }
/// each item is new under its key, or what is there already; and the list does not contradict itself
pub open spec fn fresh<S: StorageSchema>(m: Raw, ks: Seq<S::Key>, vs: Seq<StorageBatchModify<S>>) -> bool {
    &&& ks.len() == vs.len() && all_puts(vs) &&& forall|i: int| 0 <= i < ks.len() ==> ok_at::<S>(m, #[trigger] ks[i]) && new_or(at::<S>(m, ks[i]), vs[i]->0)
    &&& forall|i: int, j: int| 0 <= i < ks.len() && 0 <= j < ks.len() && (#[trigger] ks[i]).enc() == (#[trigger] ks[j]).enc() ==> vs[i]->0 == vs[j]->0
}
pub open spec fn chain_cat(c: Cat) -> bool { c == Cat::HashHeight || c == Cat::SignedTransaction || c == Cat::Receipt }
pub open spec fn cat_value<S: StorageSchema>(k: S::Key, v: S::Value) -> bool {
    &&& k.enc().len() == (if S::cat() == Cat::HashHeight { 33nat } else { 40nat }) &&& S::cat() == Cat::HashHeight ==> exists|x: u64| x.enc() == v.enc()
    &&& S::cat() == Cat::SignedTransaction ==> exists|x: SignedTransaction| x.enc() == v.enc() &&& S::cat() == Cat::Receipt ==> exists|x: Receipt| x.enc() == v.enc() &&& S::cat() == Cat::SignedTransaction || S::cat() == Cat::Receipt ==> is_list_key(k.enc())
}
pub proof fn batch_grows<S: StorageSchema>(m: Raw, ks: Seq<S::Key>, vs: Seq<StorageBatchModify<S>>)
    requires typed(m), fresh::<S>(m, ks, vs), chain_cat(S::cat()), forall|i: int| 0 <= i < ks.len() ==> cat_value::<S>(#[trigger] ks[i], vs[i]->0),
    ensures typed(after_ops(m, ops_of::<S>(ks, vs))), grew(m, after_ops(m, ops_of::<S>(ks, vs))), only_listed::<S>(m, after_ops(m, ops_of::<S>(ks, vs)), ks),
        forall|i: int| 0 <= i < ks.len() ==> at::<S>(after_ops(m, ops_of::<S>(ks, vs)), #[trigger] ks[i]) == Some(vs[i]->0) && ok_at::<S>(after_ops(m, ops_of::<S>(ks, vs)), ks[i]),
        (forall|h: H256| #[trigger] ok_at::<EvmCodeSchema>(m, h)) ==> (forall|h: H256| #[trigger] ok_at::<EvmCodeSchema>(after_ops(m, ops_of::<S>(ks, vs)), h)),
    decreases ks.len(),
{
    let ops = ops_of::<S>(ks, vs);
    let n = after_ops(m, ops);
    if ks.len() > 0 {
        let (kp, vp) = (ks.drop_last(), vs.drop_last());
        assert(all_puts(vp)) by { assert forall|i: int| 0 <= i < vp.len() implies #[trigger] vp[i] is Insert by { assert(vs[i] is Insert); } }
        assert(fresh::<S>(m, kp, vp)) by {
            assert forall|i: int| 0 <= i < kp.len() implies ok_at::<S>(m, #[trigger] kp[i]) && new_or(at::<S>(m, kp[i]), vp[i]->0) by { assert(kp[i] == ks[i]); }
            assert forall|i: int, j: int| 0 <= i < kp.len() && 0 <= j < kp.len() && (#[trigger] kp[i]).enc() == (#[trigger] kp[j]).enc() implies vp[i]->0 == vp[j]->0 by { assert(kp[i] == ks[i] && kp[j] == ks[j]); }
        }
        assert forall|i: int| 0 <= i < kp.len() implies cat_value::<S>(#[trigger] kp[i], vp[i]->0) by { assert(kp[i] == ks[i]); }
        batch_grows::<S>(m, kp, vp);
        assert(ops.drop_last() =~= ops_of::<S>(kp, vp));
        let p = after_ops(m, ops_of::<S>(kp, vp));
        let (k, v) = (ks.last(), vs.last()->0);
        assert(vs[vs.len() - 1] is Insert);
        assert(n == put::<S>(p, k, v));
        // what the earlier ones left under this key
        assert(ok_at::<S>(p, k) && new_or(at::<S>(p, k), v)) by {
            assert(ks[ks.len() - 1] == k);
            if exists|i: int| 0 <= i < kp.len() && #[trigger] kp[i].enc() == k.enc() { let i = choose|i: int| 0 <= i < kp.len() && #[trigger] kp[i].enc() == k.enc(); S::Key::inj(kp[i], k); assert(kp[i] == ks[i]); assert(at::<S>(p, kp[i]) == Some(vp[i]->0)); }
            else { assert(p.contains_key((col(S::cat()), k.enc())) ==> m.contains_key((col(S::cat()), k.enc()))); if m.contains_key((col(S::cat()), k.enc())) { grew_at::<S>(m, p, k); } }
        }
        put_grows::<S>(p, k, v);
        assert(cat_value::<S>(ks[ks.len() - 1], vs[vs.len() - 1]->0));
        put_typed::<S>(p, k, v);
        put_at::<S>(p, k, v);
        assert forall|i: int| 0 <= i < ks.len() implies at::<S>(n, #[trigger] ks[i]) == Some(vs[i]->0) && ok_at::<S>(n, ks[i]) by {
            if i < kp.len() { assert(kp[i] == ks[i]); assert(at::<S>(p, kp[i]) == Some(vp[i]->0)); grew_at::<S>(p, n, ks[i]); assert(ok_at::<S>(p, kp[i])); }
        }
        assert(only_listed::<S>(m, n, ks)) by {
            assert forall|c: Seq<char>, q: Seq<u8>| #[trigger] n.contains_key((c, q)) implies m.contains_key((c, q)) || (c == col(S::cat()) && exists|i: int| 0 <= i < ks.len() && #[trigger] ks[i].enc() == q) by {
                if c == col(S::cat()) && q == k.enc() { assert(ks[ks.len() - 1].enc() == q); }
                else if !m.contains_key((c, q)) { assert(p.contains_key((c, q))); let i = choose|i: int| 0 <= i < kp.len() && #[trigger] kp[i].enc() == q; assert(ks[i].enc() == q); }
            }
        }
        columns_apart();
        if forall|h: H256| #[trigger] ok_at::<EvmCodeSchema>(m, h) { assert forall|h: H256| #[trigger] ok_at::<EvmCodeSchema>(n, h) by { assert(ok_at::<EvmCodeSchema>(p, h)); put_other::<S, EvmCodeSchema>(p, k, v, h); } }
    }
}
pub open spec fn txs_new(m: Raw, n: u64, t: Seq<SignedTransaction>) -> bool {
    &&& forall|i: int| 0 <= i < t.len() ==> new_or(at::<TransactionSchema>(m, ck(n, (#[trigger] t[i]).transaction.hash)), t[i]) && new_or(number_at(m, t[i].transaction.hash), n)
    &&& forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t.len() && (#[trigger] t[i]).transaction.hash == (#[trigger] t[j]).transaction.hash ==> t[i] == t[j]
}
pub open spec fn receipts_new(m: Raw, n: u64, t: Seq<Receipt>) -> bool {
    &&& forall|i: int| 0 <= i < t.len() ==> new_or(at::<ReceiptSchema>(m, ck(n, (#[trigger] t[i]).tx_hash)), t[i]) && new_or(number_at(m, t[i].tx_hash), n)
    &&& forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t.len() && (#[trigger] t[i]).tx_hash == (#[trigger] t[j]).tx_hash ==> t[i] == t[j]
}
pub open spec fn stays<S: StorageSchema, T: StorageSchema>(m: Raw, n: Raw, a: Seq<S::Key>, b: Seq<T::Key>) -> bool {
    forall|c: Seq<char>, k: Seq<u8>| #[trigger] n.contains_key((c, k)) ==> m.contains_key((c, k)) || (c == col(S::cat()) && exists|i: int| 0 <= i < a.len() && #[trigger] a[i].enc() == k) || (c == col(T::cat()) && exists|i: int| 0 <= i < b.len() && #[trigger] b[i].enc() == k)
}
impl<Adapter: StorageAdapter> ImplStorage<Adapter> {
//@fn core/storage/src/lib.rs :: impl ImplStorage<Adapter>/fn batch_insert_stxs
//@ ret r
//@ sub /async fn batch_insert_stxs\(\s*&self/ => /pub fn batch_insert_stxs(&mut self/
//@ sub /\s*\.await/ => //
//@ sub /CommonHashKey::new\(/ => /hash_key_(/
//@ sub /let \(keys, batch_stxs\): \(Vec<_>, Vec<_>\) =/ => /let (keys, batch_stxs) =/
//@ sub /self\.adapter\s*\.batch_modify::<TransactionSchema>/ => /let ghost (gk, gv) = (keys@, batch_stxs@); let ghost (gh, gn) = (hashes@, heights@); proof { assert forall|i: int| 0 <= i < gk.len() implies cat_value::<TransactionSchema>(#[trigger] gk[i], gv[i]->0) && ok_at::<TransactionSchema>(m0, gk[i]) && new_or(at::<TransactionSchema>(m0, gk[i]), gv[i]->0) by { assert(gv[i]->0 == stxs@[i]); assert(stxs@[i].enc() == enc_stx(stxs@[i])); assert(gk[i] == ck(block_number, stxs@[i].transaction.hash)); assert(is_list_key(gk[i].enc())); } assert forall|i: int, j: int| 0 <= i < gk.len() && 0 <= j < gk.len() && (#[trigger] gk[i]).enc() == (#[trigger] gk[j]).enc() implies gv[i]->0 == gv[j]->0 by { CommonHashKey::inj(gk[i], gk[j]); assert(stxs@[i].transaction.hash == stxs@[j].transaction.hash); } assert forall|i: int| 0 <= i < gv.len() implies #[trigger] gv[i] is Insert by { assert(gk[i] == ck(block_number, stxs@[i].transaction.hash)); } batch_grows::<TransactionSchema>(m0, gk, gv); } self.adapter.batch_modify::<TransactionSchema>/
//@ sub /self\.adapter\s*\.batch_modify::<TxHashNumberSchema>/ => /let ghost m1 = self.m(); proof { self.kept(old(self)); columns_apart(); assert forall|i: int| 0 <= i < gh.len() implies cat_value::<TxHashNumberSchema>(#[trigger] gh[i], gn[i]->0) && ok_at::<TxHashNumberSchema>(m1, gh[i]) && new_or(at::<TxHashNumberSchema>(m1, gh[i]), gn[i]->0) by { assert(gn[i]->0 == block_number); assert(block_number.enc() == enc_u64(block_number)); assert(gh[i] == stxs@[i].transaction.hash); assert(ok_at::<BlockHashNumberSchema>(m1, gh[i])); assert(new_or(number_at(m0, stxs@[i].transaction.hash), block_number)); assert(m1.contains_key((col(Cat::HashHeight), gh[i].enc())) ==> m0.contains_key((col(Cat::HashHeight), gh[i].enc()))); grew_at::<BlockHashNumberSchema>(m0, m1, gh[i]); assert(number_at(m1, gh[i]) == at::<TxHashNumberSchema>(m1, gh[i])); } assert forall|i: int, j: int| 0 <= i < gh.len() && 0 <= j < gh.len() && (#[trigger] gh[i]).enc() == (#[trigger] gh[j]).enc() implies gn[i]->0 == gn[j]->0 by { } assert forall|i: int| 0 <= i < gn.len() implies #[trigger] gn[i] is Insert by { assert(gh[i] == stxs@[i].transaction.hash); } batch_grows::<TxHashNumberSchema>(m1, gh, gn); } self.adapter.batch_modify::<TxHashNumberSchema>/
//@ sub /        Ok\(\(\)\)/ => /        proof { let m2 = self.m(); self.kept(old(self)); assert forall|i: int| 0 <= i < stxs@.len() implies tx_at(m2, (#[trigger] stxs@[i]).transaction.hash) == Some(stxs@[i]) && at::<TransactionSchema>(m2, ck(block_number, stxs@[i].transaction.hash)) == Some(stxs@[i]) by { assert(gh[i] == stxs@[i].transaction.hash); assert(number_at(m2, gh[i]) == at::<TxHashNumberSchema>(m2, gh[i])); assert(gk[i] == ck(block_number, gh[i])); grew_at::<TransactionSchema>(m1, m2, gk[i]); assert(gv[i]->0 == stxs@[i]); } } Ok(())/
//@ collect
//@ nloops 2
//@ loop 0
    invariant at0_ <= stxs@.len(), out0_@.len() == at0_, out0_b@.len() == at0_, forall|i: int| 0 <= i < at0_ ==> #[trigger] out0_@[i] == stxs@[i].transaction.hash && out0_b@[i] == StorageBatchModify::<TxHashNumberSchema>::Insert(block_number),
    decreases stxs@.len() - at0_,
//@ loop 1
    invariant at1_ <= stxs@.len(), out1_@.len() == at1_, out1_b@.len() == at1_, forall|i: int| 0 <= i < at1_ ==> #[trigger] out1_@[i] == ck(block_number, stxs@[i].transaction.hash) && out1_b@[i] == StorageBatchModify::<TransactionSchema>::Insert(stxs@[i]),
    decreases stxs@.len() - at1_,
//@ spec
    requires old(self).wf(), txs_new(old(self).m(), block_number, stxs@),
    ensures final(self).wf(), grew(old(self).m(), final(self).m()), final(self).latest_block@ == old(self).latest_block@,
        r is Ok ==> forall|i: int| 0 <= i < stxs@.len() ==> tx_at(final(self).m(), (#[trigger] stxs@[i]).transaction.hash) == Some(stxs@[i]) && at::<TransactionSchema>(final(self).m(), ck(block_number, stxs@[i].transaction.hash)) == Some(stxs@[i]),
//@ start
    let ghost m0 = self.m();
//@end
//@fn core/storage/src/lib.rs :: impl ImplStorage<Adapter>/fn batch_insert_receipts
//@ ret r
//@ sub /async fn batch_insert_receipts\(\s*&self/ => /pub fn batch_insert_receipts(&mut self/
//@ sub /\s*\.await/ => //
//@ sub /CommonHashKey::new\(/ => /hash_key_(/
//@ sub /let \(keys, batch_stxs\): \(Vec<_>, Vec<_>\) =/ => /let (keys, batch_stxs) =/
//@ sub /self\.adapter\s*\.batch_modify::<ReceiptSchema>/ => /let ghost (gk, gv) = (keys@, batch_stxs@); let ghost (gh, gn) = (hashes@, heights@); proof { assert forall|i: int| 0 <= i < gk.len() implies cat_value::<ReceiptSchema>(#[trigger] gk[i], gv[i]->0) && ok_at::<ReceiptSchema>(m0, gk[i]) && new_or(at::<ReceiptSchema>(m0, gk[i]), gv[i]->0) by { assert(gv[i]->0 == receipts@[i]); assert(receipts@[i].enc() == enc_receipt(receipts@[i])); assert(gk[i] == ck(block_number, receipts@[i].tx_hash)); assert(is_list_key(gk[i].enc())); } assert forall|i: int, j: int| 0 <= i < gk.len() && 0 <= j < gk.len() && (#[trigger] gk[i]).enc() == (#[trigger] gk[j]).enc() implies gv[i]->0 == gv[j]->0 by { CommonHashKey::inj(gk[i], gk[j]); assert(receipts@[i].tx_hash == receipts@[j].tx_hash); } assert forall|i: int| 0 <= i < gv.len() implies #[trigger] gv[i] is Insert by { assert(gk[i] == ck(block_number, receipts@[i].tx_hash)); } batch_grows::<ReceiptSchema>(m0, gk, gv); } self.adapter.batch_modify::<ReceiptSchema>/
//@ sub /self\.adapter\s*\.batch_modify::<TxHashNumberSchema>/ => /let ghost m1 = self.m(); proof { self.kept(old(self)); columns_apart(); assert forall|i: int| 0 <= i < gh.len() implies cat_value::<TxHashNumberSchema>(#[trigger] gh[i], gn[i]->0) && ok_at::<TxHashNumberSchema>(m1, gh[i]) && new_or(at::<TxHashNumberSchema>(m1, gh[i]), gn[i]->0) by { assert(gn[i]->0 == block_number); assert(block_number.enc() == enc_u64(block_number)); assert(gh[i] == receipts@[i].tx_hash); assert(ok_at::<BlockHashNumberSchema>(m1, gh[i])); assert(new_or(number_at(m0, receipts@[i].tx_hash), block_number)); assert(m1.contains_key((col(Cat::HashHeight), gh[i].enc())) ==> m0.contains_key((col(Cat::HashHeight), gh[i].enc()))); grew_at::<BlockHashNumberSchema>(m0, m1, gh[i]); assert(number_at(m1, gh[i]) == at::<TxHashNumberSchema>(m1, gh[i])); } assert forall|i: int, j: int| 0 <= i < gh.len() && 0 <= j < gh.len() && (#[trigger] gh[i]).enc() == (#[trigger] gh[j]).enc() implies gn[i]->0 == gn[j]->0 by { } assert forall|i: int| 0 <= i < gn.len() implies #[trigger] gn[i] is Insert by { assert(gh[i] == receipts@[i].tx_hash); } batch_grows::<TxHashNumberSchema>(m1, gh, gn); } self.adapter.batch_modify::<TxHashNumberSchema>/
//@ sub /        Ok\(\(\)\)/ => /        proof { let m2 = self.m(); self.kept(old(self)); assert forall|i: int| 0 <= i < receipts@.len() implies receipt_at(m2, (#[trigger] receipts@[i]).tx_hash) == Some(receipts@[i]) && at::<ReceiptSchema>(m2, ck(block_number, receipts@[i].tx_hash)) == Some(receipts@[i]) by { assert(gh[i] == receipts@[i].tx_hash); assert(number_at(m2, gh[i]) == at::<TxHashNumberSchema>(m2, gh[i])); assert(gk[i] == ck(block_number, gh[i])); grew_at::<ReceiptSchema>(m1, m2, gk[i]); assert(gv[i]->0 == receipts@[i]); } } Ok(())/
//@ collect
//@ nloops 2
//@ loop 0
    invariant at0_ <= receipts@.len(), out0_@.len() == at0_, out0_b@.len() == at0_, forall|i: int| 0 <= i < at0_ ==> #[trigger] out0_@[i] == receipts@[i].tx_hash && out0_b@[i] == StorageBatchModify::<TxHashNumberSchema>::Insert(block_number),
    decreases receipts@.len() - at0_,
//@ loop 1
    invariant at1_ <= receipts@.len(), out1_@.len() == at1_, out1_b@.len() == at1_, forall|i: int| 0 <= i < at1_ ==> #[trigger] out1_@[i] == ck(block_number, receipts@[i].tx_hash) && out1_b@[i] == StorageBatchModify::<ReceiptSchema>::Insert(receipts@[i]),
    decreases receipts@.len() - at1_,
//@ spec
    requires old(self).wf(), receipts_new(old(self).m(), block_number, receipts@),
    ensures final(self).wf(), grew(old(self).m(), final(self).m()), final(self).latest_block@ == old(self).latest_block@,
        r is Ok ==> forall|i: int| 0 <= i < receipts@.len() ==> receipt_at(final(self).m(), (#[trigger] receipts@[i]).tx_hash) == Some(receipts@[i]) && at::<ReceiptSchema>(final(self).m(), ck(block_number, receipts@[i].tx_hash)) == Some(receipts@[i]),
//@ start
    let ghost m0 = self.m();
//@end
//@fn core/storage/src/lib.rs :: impl Storage for ImplStorage<Adapter>/fn insert_transactions
//@ ret r
//@ sub /async fn insert_transactions\(\s*&self/ => /pub fn insert_transactions(&mut self/
//@ sub /\s*\.await/ => //
//@ spec
    requires old(self).wf(), txs_new(old(self).m(), block_height, signed_txs@),
    ensures final(self).wf(), grew(old(self).m(), final(self).m()), final(self).latest_block@ == old(self).latest_block@,
        r is Ok ==> forall|i: int| 0 <= i < signed_txs@.len() ==> tx_at(final(self).m(), (#[trigger] signed_txs@[i]).transaction.hash) == Some(signed_txs@[i]) && at::<TransactionSchema>(final(self).m(), ck(block_height, signed_txs@[i].transaction.hash)) == Some(signed_txs@[i]),
//@end
//@fn core/storage/src/lib.rs :: impl Storage for ImplStorage<Adapter>/fn insert_receipts
//@ ret r
//@ sub /async fn insert_receipts\(\s*&self/ => /pub fn insert_receipts(&mut self/
//@ sub /\s*\.await/ => //
//@ spec
    requires old(self).wf(), receipts_new(old(self).m(), block_height, receipts@),
    ensures final(self).wf(), grew(old(self).m(), final(self).m()), final(self).latest_block@ == old(self).latest_block@,
        r is Ok ==> forall|i: int| 0 <= i < receipts@.len() ==> receipt_at(final(self).m(), (#[trigger] receipts@[i]).tx_hash) == Some(receipts@[i]) && at::<ReceiptSchema>(final(self).m(), ck(block_height, receipts@[i].tx_hash)) == Some(receipts@[i]),
//@end
}

pub proof fn lex_asym(a: Seq<u8>, b: Seq<u8>) requires lex_lt(a, b) ensures !lex_lt(b, a)
{
    let i = choose|i: int| at_first(a, b, i);
    if lex_lt(b, a) { let j = choose|j: int| at_first(b, a, j); if i < j { assert(b[i] == a[i]); } else if j < i { assert(a[j] == b[j]); } }
}
/// a key of a height comes from the height's prefix on, and one that does is of no lower height
pub proof fn from_prefix(k: CommonHashKey, p: CommonPrefix) ensures k.prefix.h() == p.h() ==> !lex_lt(k.enc(), p.block_height@), !lex_lt(k.enc(), p.block_height@) ==> k.prefix.h() >= p.h()
{
    broadcast use bytes_axioms;
    prefix_value(k.prefix); prefix_value(p);
    let x = k.enc();
    assert(forall|j: int| 0 <= j < 8 ==> x[j] == k.prefix.block_height@[j]);
    if k.prefix.h() == p.h() { be_injective(k.prefix.block_height@, p.block_height@); if lex_lt(x, p.block_height@) { let i = choose|i: int| at_first(x, p.block_height@, i); assert(x[i] == p.block_height@[i]); } }
    if k.prefix.h() < p.h() { be_order(k.prefix.block_height@, p.block_height@); let i = choose|i: int| 0 <= i < 8 && #[trigger] at_first(k.prefix.block_height@, p.block_height@, i) && k.prefix.block_height@[i] < p.block_height@[i]; assert(at_first(x, p.block_height@, i)); }
}
#[verifier::external_body] pub struct HashRefs { x: u8 }
impl HashRefs { pub uninterp spec fn view(&self) -> Set<H256>; #[verifier::external_body] pub fn contains(&self, h: &H256) -> (r: bool) ensures r == self@.contains(*h) { unimplemented!() } }
#[verifier::external_body] pub fn hash_set_(h: &[Hash]) -> (r: HashRefs) ensures r@ == h@.to_set() { unimplemented!() }
#[verifier::external_body] #[verifier::accept_recursive_types(V)] pub struct HashMap<V> { x: Vec<V> }
impl<V> HashMap<V> { pub uninterp spec fn view(&self) -> Map<H256, V>; #[verifier::external_body] pub fn get_cloned(&self, h: &H256) -> (r: Option<V>) ensures r == (if self@.contains_key(*h) { Some(self@[*h]) } else { None }) { unimplemented!() } }
pub open spec fn hashes_of(f: Seq<(Hash, DBBytes)>) -> Seq<H256> { Seq::new(f.len(), |i: int| f[i].0) }
pub open spec fn decoded<V: ProtocolCodec>(f: Seq<(Hash, DBBytes)>, m: Map<H256, V>) -> bool { m.dom() =~= hashes_of(f).to_set() && forall|i: int| 0 <= i < f.len() ==> m[(#[trigger] f[i]).0].enc() == f[i].1.0@ }
// `drain`, `map(decode)` and `collect` into a map, and the same in chunks on tasks of their own (trusted: iterators, tasks)
pub open spec fn decodes<V: ProtocolCodec>(b: Seq<u8>) -> bool { exists|x: V| #[trigger] x.enc() == b }
#[verifier::external_body] pub fn decoded_<V: ProtocolCodec>(f: Vec<(Hash, DBBytes)>) -> (r: ProtocolResult<HashMap<V>>) requires hashes_of(f@).no_duplicates(), forall|i: int| 0 <= i < f@.len() ==> decodes::<V>((#[trigger] f@[i]).1.0@) ensures r matches Ok(m) ==> decoded(f@, m@) { unimplemented!() }
#[verifier::external_body] pub fn decoded_in_chunks_<V: ProtocolCodec>(f: Vec<(Hash, DBBytes)>) -> (r: ProtocolResult<HashMap<V>>) requires hashes_of(f@).no_duplicates(), forall|i: int| 0 <= i < f@.len() ==> decodes::<V>((#[trigger] f@[i]).1.0@) ensures r matches Ok(m) ==> decoded(f@, m@) { unimplemented!() }
//@item core/storage/src/lib.rs :: const BATCH_VALUE_DECODE_NUMBER
//@end
/// all of the height's entries that were asked for have been found, once each
pub open spec fn found_all(m: Raw, c: Seq<char>, n: u64, asked: Seq<H256>, f: Seq<(Hash, DBBytes)>) -> bool {
    &&& hashes_of(f).no_duplicates() &&& forall|i: int| 0 <= i < f.len() ==> m.contains_key((c, ck(n, (#[trigger] f[i]).0).enc())) && m[(c, ck(n, f[i].0).enc())] == f[i].1.0@
    &&& forall|h: H256| asked.contains(h) && #[trigger] m.contains_key((c, ck(n, h).enc())) ==> hashes_of(f).contains(h)
}
pub proof fn all_asked_found(asked: Seq<H256>, f: Seq<(Hash, DBBytes)>) requires hashes_of(f).no_duplicates(), f.len() >= asked.len(), forall|i: int| 0 <= i < f.len() ==> asked.contains((#[trigger] f[i]).0) ensures forall|h: H256| asked.contains(h) ==> #[trigger] hashes_of(f).contains(h)
{
    let (a, b) = (hashes_of(f), asked);
    a.unique_seq_to_set();
    b.lemma_cardinality_of_set();
    assert(a.to_set().subset_of(b.to_set())) by { assert forall|h: H256| a.to_set().contains(h) implies b.to_set().contains(h) by { let i = a.index_of(h); assert(f[i].0 == h); assert(asked.contains(f[i].0)); } }
    vstd::set_lib::lemma_len_subset(a.to_set(), b.to_set());
    vstd::set_lib::lemma_subset_equality(a.to_set(), b.to_set());
    assert forall|h: H256| asked.contains(h) implies #[trigger] hashes_of(f).contains(h) by { assert(b.to_set().contains(h)); assert(a.to_set().contains(h)); }
}

pub open spec fn tracked(m: Raw, c: Seq<char>, n: u64, asked: Seq<H256>, all: Seq<(Seq<u8>, Seq<u8>)>, at: int, f: Seq<(Hash, DBBytes)>) -> bool {
    &&& hashes_of(f).no_duplicates() &&& forall|i: int| 0 <= i < f.len() ==> m.contains_key((c, ck(n, (#[trigger] f[i]).0).enc())) && m[(c, ck(n, f[i].0).enc())] == f[i].1.0@
    &&& forall|j: int, h: H256| 0 <= j < at && (#[trigger] all[j]).0 == (#[trigger] ck(n, h)).enc() && asked.contains(h) ==> hashes_of(f).contains(h)
}
pub proof fn exhausted(m: Raw, c: Seq<char>, n: u64, p: CommonPrefix, asked: Seq<H256>, all: Seq<(Seq<u8>, Seq<u8>)>, at: int, f: Seq<(Hash, DBBytes)>)
    requires listing(m, c, p.block_height@, all), p.h() == n, at == all.len(), tracked(m, c, n, asked, all, at, f) ensures found_all(m, c, n, asked, f)
{
    broadcast use bk_is;
    assert forall|h: H256| asked.contains(h) && #[trigger] m.contains_key((c, ck(n, h).enc())) implies hashes_of(f).contains(h) by { from_prefix(ck(n, h), p); let i = choose|i: int| 0 <= i < all.len() && (#[trigger] all[i]).0 == ck(n, h).enc(); assert(all[i].0 == ck(n, h).enc()); }
}
pub proof fn beyond(m: Raw, c: Seq<char>, n: u64, p: CommonPrefix, asked: Seq<H256>, all: Seq<(Seq<u8>, Seq<u8>)>, at: int, f: Seq<(Hash, DBBytes)>, key: CommonHashKey)
    requires listing(m, c, p.block_height@, all), p.h() == n, 0 <= at < all.len(), key.enc() == all[at].0, key.prefix.h() != n, tracked(m, c, n, asked, all, at, f) ensures found_all(m, c, n, asked, f)
{
    broadcast use bk_is;
    assert(!lex_lt(all[at].0, p.block_height@));
    from_prefix(key, p);
    assert forall|h: H256| asked.contains(h) && #[trigger] m.contains_key((c, ck(n, h).enc())) implies hashes_of(f).contains(h) by {
        from_prefix(ck(n, h), p); let i = choose|i: int| 0 <= i < all.len() && (#[trigger] all[i]).0 == ck(n, h).enc(); assert(all[i].0 == ck(n, h).enc());
        if i >= at { keys_sort_by_height(ck(n, h), key); if i > at { lex_asym(all[at].0, all[i].0); } else { keys_sort_by_height(key, ck(n, h)); } }
    }
}
impl<Adapter: StorageAdapter> ImplStorage<Adapter> {
//@fn core/storage/src/lib.rs :: impl ReadOnlyStorage for ImplStorage<Adapter>/fn get_transactions
//@ isolate
//@ ret r
//@ sub /async fn/ => /pub fn/
//@ sub /\.prepare_iter::<TransactionBytesSchema, _>/ => /.prepare_iter::<TransactionBytesSchema>/
//@ sub /prepare_iter\.ref_to_iter\(\)/ => /prepare_iter/
//@ sub /hashes\.iter\(\)\.collect::<HashSet<_>>\(\)/ => /hash_set_(hashes)/ 1
//@ sub /count as f64/ => /f64_(count)/
//@ sub /let mut found = Vec::with_capacity\(hashes\.len\(\)\);/ => /let mut found: Vec<(Hash, DBBytes)> = Vec::new();/
//@ sub /let found = \{\s*if found\.len\(\) <= BATCH_VALUE_DECODE_NUMBER \{\s*found\s*\.drain\(\.\.\)\s*\.map\(\|\(k, v\): \(Hash, DBBytes\)\| SignedTransaction::decode\(v\)\.map\(\|v\| \(k, v\)\)\)\s*\.collect::<ProtocolResult<Vec<_>>>\(\)\?\s*\.into_iter\(\)\s*\.collect::<HashMap<_, _>>\(\)\s*\} else \{\s*let futs = found\s*\.chunks\(BATCH_VALUE_DECODE_NUMBER\)\s*\.map\(\|vals\| \{\s*let vals = vals\.to_owned\(\);\s*tokio::spawn\(async move \{\s*vals\.into_iter\(\)\s*\.map\(\|\(k, v\): \(Hash, DBBytes\)\| <_>::decode\(v\)\.map\(\|v\| \(k, v\)\)\)\s*\.collect::<ProtocolResult<Vec<_>>>\(\)\s*\}\)\s*\}\)\s*\.collect::<Vec<_>>\(\);\s*futures::future::try_join_all\(futs\)\s*\.await\s*\.map_err\(\|_unused\| StorageError::BatchDecode\)\?\s*\.into_iter\(\)\s*\.collect::<ProtocolResult<Vec<Vec<_>>>>\(\)\?\s*\.into_iter\(\)\s*\.flatten\(\)\s*\.collect::<HashMap<_, _>>\(\)\s*\}\s*\};/ => /let found = if found.len() <= BATCH_VALUE_DECODE_NUMBER { proof { typed_found::<SignedTransaction, TransactionSchema>(m, block_height, found@); } decoded_::<SignedTransaction>(found)? } else { proof { typed_found::<SignedTransaction, TransactionSchema>(m, block_height, found@); } decoded_in_chunks_::<SignedTransaction>(found)? };/ 1
//@ sub /found\.get\(h\)\.cloned\(\)/ => /found.get_cloned(h)/
//@ collect Option<SignedTransaction>
//@ nloops 2
//@ loopbefore 0
    let ghost all = iter.inner@;
    let ghost mut at: int = 0;
    let ghost c = col(TransactionBytesSchema::cat());
    proof { assert(iter.inner@ =~= all.subrange(0, all.len() as int)); bk_only(key_prefix); assert(hashes_of(found@) =~= Seq::<H256>::empty()); }
//@ loop 0
    invariant self.wf(), m == self.m(), c == col(TransactionBytesSchema::cat()), TransactionBytesSchema::cat() == Cat::SignedTransaction, key_prefix == bk(block_height), key_prefix.h() == block_height, listing(m, c, key_prefix.block_height@, all), set@ == hashes@.to_set(),
        0 <= at <= all.len(), iter.inner@ == all.subrange(at, all.len() as int), count + found@.len() == hashes@.len(), hashes_of(found@).no_duplicates(),
        forall|i: int| 0 <= i < found@.len() ==> hashes@.contains((#[trigger] found@[i]).0) && m.contains_key((c, ck(block_height, found@[i].0).enc())) && m[(c, ck(block_height, found@[i].0).enc())] == found@[i].1.0@ && exists|j: int| 0 <= j < at && (#[trigger] all[j]).0 == ck(block_height, found@[i].0).enc(),
        forall|j: int, h: H256| 0 <= j < at && (#[trigger] all[j]).0 == (#[trigger] ck(block_height, h)).enc() && hashes@.contains(h) ==> hashes_of(found@).contains(h),
        count == 0 ==> forall|h: H256| hashes@.contains(h) ==> #[trigger] hashes_of(found@).contains(h),
    ensures found_all(m, c, block_height, hashes@, found@),
    decreases all.len() - at,
//@ loopstart 0
    let ghost f0 = found@;
    proof { if at < all.len() { assert(iter.inner@[0] == all[at]); assert(m.contains_key((c, all[at].0))); assert(is_list_key(all[at].0)); let d = DBBytes(bytes_(all[at].1)); assert(d.enc() == all[at].1); }
        else { exhausted(m, c, block_height, key_prefix, hashes@, all, at, found@); } }
//@ sub /if key\.height\(\) != block_height/ => /let ghost e = all[at]; proof { assert(iter.inner@ =~= all.subrange(at + 1, all.len() as int)); if key.prefix.h() != block_height { beyond(m, c, block_height, key_prefix, hashes@, all, at, found@, key); } else { bk_only(key.prefix); assert(key == ck(block_height, key.hash)); assert forall|i: int| 0 <= i < found@.len() implies (#[trigger] found@[i]).0 != key.hash by { let j = choose|j: int| 0 <= j < at && (#[trigger] all[j]).0 == ck(block_height, found@[i].0).enc(); if found@[i].0 == key.hash { assert(all[j].0 == all[at].0); lex_asym(all[j].0, all[at].0); } } assert forall|h: H256| all[at].0 == (#[trigger] ck(block_height, h)).enc() implies h == key.hash by { CommonHashKey::inj(key, ck(block_height, h)); } } at = at + 1; } if key.height() != block_height/ 1
//@ sub /continue;/ => /proof { assert(!hashes@.contains(key.hash)); } continue;/
//@ sub /found\.push\(([^;]*)\);/ => /found.push(\1); proof { assert(hashes_of(found@) =~= hashes_of(f0).push(key.hash)); assert(forall|i: int| 0 <= i < f0.len() ==> found@[i] == f0[i]); assert forall|h: H256| hashes_of(f0).contains(h) implies hashes_of(found@).contains(h) by { let i = hashes_of(f0).index_of(h); assert(hashes_of(found@)[i] == h); } assert(hashes_of(found@)[f0.len() as int] == key.hash); assert(found@[f0.len() as int].0 == key.hash); }/
//@ loopend 0
    proof { if count == 0 { all_asked_found(hashes@, found@); } }
//@ loop 1
    invariant at0_ <= hashes@.len(), out0_@.len() == at0_, self.wf(), m == self.m(), decoded(gf, found@), found_all(m, col(Cat::SignedTransaction), block_height, hashes@, gf), forall|i: int| 0 <= i < at0_ ==> #[trigger] out0_@[i] == at::<TransactionSchema>(m, ck(block_height, hashes@[i])),
    decreases hashes@.len() - at0_,
//@ loopend 1
    proof { let h = hashes@[at0_ - 1]; assert(hashes@.contains(h)); let key = ck(block_height, h); assert(ok_at::<TransactionSchema>(m, key)); 
        if found@.contains_key(h) { assert(hashes_of(gf).contains(h)); let i = hashes_of(gf).index_of(h); assert(gf[i].0 == h); assert(found@[h].enc() == gf[i].1.0@); let x = choose|x: SignedTransaction| x.enc() == m[(col(Cat::SignedTransaction), key.enc())]; SignedTransaction::inj(x, found@[h]); }
        else { if m.contains_key((col(Cat::SignedTransaction), key.enc())) { assert(hashes_of(gf).contains(h)); } } }
//@ sub /let found = if/ => /let ghost gf = found@; let found = if/ 1
//@ spec
    requires self.wf(),
    ensures r matches Ok(v) ==> v@.len() == hashes@.len() && forall|i: int| 0 <= i < hashes@.len() ==> #[trigger] v@[i] == at::<TransactionSchema>(self.m(), ck(block_height, hashes@[i])),
//@ start
    broadcast use bk_is;
    let ghost m = self.m();
//@end
}
impl<Adapter: StorageAdapter> ImplStorage<Adapter> {
//@fn core/storage/src/lib.rs :: impl ReadOnlyStorage for ImplStorage<Adapter>/fn get_receipts
//@ isolate
//@ ret r
//@ sub /async fn/ => /pub fn/
//@ sub /\.prepare_iter::<ReceiptBytesSchema, _>/ => /.prepare_iter::<ReceiptBytesSchema>/
//@ sub /prepare_iter\.ref_to_iter\(\)/ => /prepare_iter/
//@ sub /hashes\.iter\(\)\.collect::<HashSet<_>>\(\)/ => /hash_set_(hashes)/ 1
//@ sub /count as f64/ => /f64_(count)/
//@ sub /let mut found = Vec::with_capacity\(hashes\.len\(\)\);/ => /let mut found: Vec<(Hash, DBBytes)> = Vec::new();/
//@ sub /let found = \{\s*if found\.len\(\) <= BATCH_VALUE_DECODE_NUMBER \{\s*found\s*\.drain\(\.\.\)\s*\.map\(\|\(k, v\): \(Hash, DBBytes\)\| Receipt::decode\(v\)\.map\(\|v\| \(k, v\)\)\)\s*\.collect::<ProtocolResult<Vec<_>>>\(\)\?\s*\.into_iter\(\)\s*\.collect::<HashMap<_, _>>\(\)\s*\} else \{\s*let futs = found\s*\.chunks\(BATCH_VALUE_DECODE_NUMBER\)\s*\.map\(\|vals\| \{\s*let vals = vals\.to_owned\(\);\s*tokio::spawn\(async move \{\s*vals\.into_iter\(\)\s*\.map\(\|\(k, v\): \(Hash, DBBytes\)\| <_>::decode\(v\)\.map\(\|v\| \(k, v\)\)\)\s*\.collect::<ProtocolResult<Vec<_>>>\(\)\s*\}\)\s*\}\)\s*\.collect::<Vec<_>>\(\);\s*futures::future::try_join_all\(futs\)\s*\.await\s*\.map_err\(\|_unused\| StorageError::BatchDecode\)\?\s*\.into_iter\(\)\s*\.collect::<ProtocolResult<Vec<Vec<_>>>>\(\)\?\s*\.into_iter\(\)\s*\.flatten\(\)\s*\.collect::<HashMap<_, _>>\(\)\s*\}\s*\};/ => /let found = if found.len() <= BATCH_VALUE_DECODE_NUMBER { proof { typed_found::<Receipt, ReceiptSchema>(m, block_height, found@); } decoded_::<Receipt>(found)? } else { proof { typed_found::<Receipt, ReceiptSchema>(m, block_height, found@); } decoded_in_chunks_::<Receipt>(found)? };/ 1
//@ sub /found\.get\(h\)\.cloned\(\)/ => /found.get_cloned(h)/
//@ collect Option<Receipt>
//@ nloops 2
//@ loopbefore 0
    let ghost all = iter.inner@;
    let ghost mut at: int = 0;
    let ghost c = col(ReceiptBytesSchema::cat());
    proof { assert(iter.inner@ =~= all.subrange(0, all.len() as int)); bk_only(key_prefix); assert(hashes_of(found@) =~= Seq::<H256>::empty()); }
//@ loop 0
    invariant self.wf(), m == self.m(), c == col(ReceiptBytesSchema::cat()), ReceiptBytesSchema::cat() == Cat::Receipt, key_prefix == bk(block_height), key_prefix.h() == block_height, listing(m, c, key_prefix.block_height@, all), set@ == hashes@.to_set(),
        0 <= at <= all.len(), iter.inner@ == all.subrange(at, all.len() as int), count + found@.len() == hashes@.len(), hashes_of(found@).no_duplicates(),
        forall|i: int| 0 <= i < found@.len() ==> hashes@.contains((#[trigger] found@[i]).0) && m.contains_key((c, ck(block_height, found@[i].0).enc())) && m[(c, ck(block_height, found@[i].0).enc())] == found@[i].1.0@ && exists|j: int| 0 <= j < at && (#[trigger] all[j]).0 == ck(block_height, found@[i].0).enc(),
        forall|j: int, h: H256| 0 <= j < at && (#[trigger] all[j]).0 == (#[trigger] ck(block_height, h)).enc() && hashes@.contains(h) ==> hashes_of(found@).contains(h),
        count == 0 ==> forall|h: H256| hashes@.contains(h) ==> #[trigger] hashes_of(found@).contains(h),
    ensures found_all(m, c, block_height, hashes@, found@),
    decreases all.len() - at,
//@ loopstart 0
    let ghost f0 = found@;
    proof { if at < all.len() { assert(iter.inner@[0] == all[at]); assert(m.contains_key((c, all[at].0))); assert(is_list_key(all[at].0)); let d = DBBytes(bytes_(all[at].1)); assert(d.enc() == all[at].1); }
        else { exhausted(m, c, block_height, key_prefix, hashes@, all, at, found@); } }
//@ sub /if key\.height\(\) != block_height/ => /let ghost e = all[at]; proof { assert(iter.inner@ =~= all.subrange(at + 1, all.len() as int)); if key.prefix.h() != block_height { beyond(m, c, block_height, key_prefix, hashes@, all, at, found@, key); } else { bk_only(key.prefix); assert(key == ck(block_height, key.hash)); assert forall|i: int| 0 <= i < found@.len() implies (#[trigger] found@[i]).0 != key.hash by { let j = choose|j: int| 0 <= j < at && (#[trigger] all[j]).0 == ck(block_height, found@[i].0).enc(); if found@[i].0 == key.hash { assert(all[j].0 == all[at].0); lex_asym(all[j].0, all[at].0); } } assert forall|h: H256| all[at].0 == (#[trigger] ck(block_height, h)).enc() implies h == key.hash by { CommonHashKey::inj(key, ck(block_height, h)); } } at = at + 1; } if key.height() != block_height/ 1
//@ sub /continue;/ => /proof { assert(!hashes@.contains(key.hash)); } continue;/
//@ sub /found\.push\(([^;]*)\);/ => /found.push(\1); proof { assert(hashes_of(found@) =~= hashes_of(f0).push(key.hash)); assert(forall|i: int| 0 <= i < f0.len() ==> found@[i] == f0[i]); assert forall|h: H256| hashes_of(f0).contains(h) implies hashes_of(found@).contains(h) by { let i = hashes_of(f0).index_of(h); assert(hashes_of(found@)[i] == h); } assert(hashes_of(found@)[f0.len() as int] == key.hash); assert(found@[f0.len() as int].0 == key.hash); }/
//@ loopend 0
    proof { if count == 0 { all_asked_found(hashes@, found@); } }
//@ loop 1
    invariant at0_ <= hashes@.len(), out0_@.len() == at0_, self.wf(), m == self.m(), decoded(gf, found@), found_all(m, col(Cat::Receipt), block_height, hashes@, gf), forall|i: int| 0 <= i < at0_ ==> #[trigger] out0_@[i] == at::<ReceiptSchema>(m, ck(block_height, hashes@[i])),
    decreases hashes@.len() - at0_,
//@ loopend 1
    proof { let h = hashes@[at0_ - 1]; assert(hashes@.contains(h)); let key = ck(block_height, h); assert(ok_at::<ReceiptSchema>(m, key)); 
        if found@.contains_key(h) { assert(hashes_of(gf).contains(h)); let i = hashes_of(gf).index_of(h); assert(gf[i].0 == h); assert(found@[h].enc() == gf[i].1.0@); let x = choose|x: Receipt| x.enc() == m[(col(Cat::Receipt), key.enc())]; Receipt::inj(x, found@[h]); }
        else { if m.contains_key((col(Cat::Receipt), key.enc())) { assert(hashes_of(gf).contains(h)); } } }
//@ sub /let found = if/ => /let ghost gf = found@; let found = if/ 1
//@ spec
    requires self.wf(),
    ensures r matches Ok(v) ==> v@.len() == hashes@.len() && forall|i: int| 0 <= i < hashes@.len() ==> #[trigger] v@[i] == at::<ReceiptSchema>(self.m(), ck(block_height, hashes@[i])),
//@ start
    broadcast use bk_is;
    let ghost m = self.m();
//@end
}
pub proof fn typed_found<V: ProtocolCodec, S: StorageSchema<Key = CommonHashKey, Value = V>>(m: Raw, n: u64, f: Seq<(Hash, DBBytes)>)
    requires forall|h: H256| #[trigger] ok_at::<S>(m, ck(n, h)), forall|i: int| 0 <= i < f.len() ==> m.contains_key((col(S::cat()), ck(n, (#[trigger] f[i]).0).enc())) && m[(col(S::cat()), ck(n, f[i].0).enc())] == f[i].1.0@
    ensures forall|i: int| 0 <= i < f.len() ==> decodes::<V>((#[trigger] f[i]).1.0@)
{ assert forall|i: int| 0 <= i < f.len() implies decodes::<V>((#[trigger] f[i]).1.0@) by { assert(ok_at::<S>(m, ck(n, f[i].0))); } }
pub fn key_(n: u64) -> (r: BlockKey) ensures r == bk(n) { let r = BlockKey::new(n); proof { bk_only(r); } r }
pub fn hash_key_(n: u64, h: Hash) -> (r: CommonHashKey) ensures r == ck(n, h) { let r = CommonHashKey::new(n, h); proof { bk_only(r.prefix); } r }
}

} // verus!
fn main() {}
