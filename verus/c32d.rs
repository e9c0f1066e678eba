//@include head.rs
global size_of usize == 8;
pub mod sh {
use super::*;
//@include num.rs
//@include bytes.rs
}
use sh::*;
// C32, the column of RocksDB under the state trie, with its cache.
pub mod triedb {
use super::*;
use super::sh::*;
broadcast use {num_axioms, bytes_axioms};
pub struct IoError;
#[verifier::external_body] pub fn io_err() -> IoError { unimplemented!() }
#[verifier::external_body] pub fn slice_to_vec(k: &[u8]) -> (r: Vec<u8>) ensures r@ == k@ { unimplemented!() }
#[derive(Clone, Copy)] pub struct StateStorageCategory { pub x: u8 }
// ---- RocksDB: a map of bytes per column ----
#[verifier::external_body] #[derive(Clone, Copy)] pub struct ColumnFamily { x: u8 }
impl ColumnFamily { pub uninterp spec fn view(&self) -> StateStorageCategory; }
pub type At = (StateStorageCategory, Seq<u8>);
#[verifier::external_body] pub struct DBVector { x: Vec<u8> }
impl DBVector {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn to_vec(&self) -> (r: Vec<u8>) ensures r@ == self@ { unimplemented!() }
}
#[verifier::external_body] pub struct Db { x: u8 }
#[verifier::external_body] pub struct RocksError { x: u8 }
impl Db {
    pub uninterp spec fn view(&self) -> Map<At, Seq<u8>>;
    /// whether the disk fails
    pub uninterp spec fn broken(&self) -> bool;
    #[verifier::external_body] pub fn get_cf(&self, c: ColumnFamily, k: &[u8]) -> (r: Result<Option<DBVector>, RocksError>)
        ensures r is Err ==> self.broken(), r matches Ok(o) ==> (o is Some) == self@.contains_key((c@, k@)), r matches Ok(Some(v)) ==> v@ == self@[(c@, k@)] { unimplemented!() }
    #[verifier::external_body] pub fn put_cf(&mut self, c: ColumnFamily, k: &Vec<u8>, v: &Vec<u8>) -> (r: Result<(), RocksError>)
        ensures final(self).broken() == old(self).broken(), r is Err ==> old(self).broken(), r is Ok ==> final(self)@ == old(self)@.insert((c@, k@), v@) { unimplemented!() }
    #[verifier::external_body] pub fn write(&mut self, b: &WriteBatch) -> (r: Result<(), RocksError>)
        ensures final(self).broken() == old(self).broken(), r is Err ==> old(self).broken(), r is Ok ==> final(self)@ == put_all(old(self)@, b@) { unimplemented!() }
}
#[verifier::external_body] pub struct WriteBatch { x: u8 }
impl WriteBatch {
    pub uninterp spec fn view(&self) -> Seq<(At, Seq<u8>)>;
    /// whether a write cannot be added
    pub uninterp spec fn broken(&self) -> bool;
    #[verifier::external_body] pub fn default() -> (r: WriteBatch) ensures r@.len() == 0, !r.broken() { unimplemented!() }
    #[verifier::external_body] pub fn put_cf(&mut self, c: ColumnFamily, k: &Vec<u8>, v: &Vec<u8>) -> (r: Result<(), RocksError>)
        ensures final(self)@ == old(self)@.push(((c@, k@), v@)), final(self).broken() == old(self).broken(), r is Err ==> old(self).broken() { unimplemented!() }
}
/// the writes, in order: the last one of a key stays
pub open spec fn put_all<A>(m: Map<A, Seq<u8>>, s: Seq<(A, Seq<u8>)>) -> Map<A, Seq<u8>> decreases s.len() { if s.len() == 0 { m } else { put_all(m, s.drop_last()).insert(s.last().0, s.last().1) } }
/// the pairs written to one column
pub open spec fn pairs(c: StateStorageCategory, k: Seq<Vec<u8>>, v: Seq<Vec<u8>>, n: nat) -> Seq<(At, Seq<u8>)> { Seq::new(n, |i: int| ((c, k[i]@), v[i]@)) }
pub open spec fn plain(k: Seq<Vec<u8>>, v: Seq<Vec<u8>>, n: nat) -> Seq<(Seq<u8>, Seq<u8>)> { Seq::new(n, |i: int| (k[i]@, v[i]@)) }
// ---- the cache: a map (std's HashMap) ----
#[verifier::external_body] pub struct Cache { x: u8 }
impl Cache {
    pub uninterp spec fn view(&self) -> Map<Seq<u8>, Seq<u8>>;
    #[verifier::external_body] pub fn with_capacity(n: usize) -> (r: Cache) ensures r@ == Map::<Seq<u8>, Seq<u8>>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn found(&self, k: &[u8]) -> (r: Option<Vec<u8>>) ensures (r is Some) == self@.contains_key(k@), r matches Some(v) ==> v@ == self@[k@] { unimplemented!() }
    #[verifier::external_body] pub fn contains_key(&self, k: &[u8]) -> (r: bool) ensures r == self@.contains_key(k@) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: Vec<u8>, v: Vec<u8>) ensures final(self)@ == old(self)@.insert(k@, v@) { unimplemented!() }
    #[verifier::external_body] pub fn remove(&mut self, k: &Vec<u8>) ensures final(self)@ == old(self)@.remove(k@) { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self.size() { unimplemented!() }
    pub uninterp spec fn size(&self) -> usize;
    #[verifier::external_body] pub fn keys_(&self) -> (r: Vec<&Vec<u8>>) ensures r@.len() == self.size() { unimplemented!() }
    #[verifier::external_body] pub fn own_keys_(&self) -> (r: Vec<Vec<u8>>) ensures r@.len() == self.size() { unimplemented!() }
}
pub struct SmallRng;
impl SmallRng {
    #[verifier::external_body] pub fn seed_from_u64(s: u64) -> SmallRng { unimplemented!() }
    #[verifier::external_body] pub fn gen_range(&mut self, lo: usize, hi: usize) -> (r: usize) requires lo < hi ensures lo <= r < hi { unimplemented!() }
}
pub const RAND_SEED: u64 = 49999;
#[verifier::external_body] pub fn upto(n: usize) -> (r: Vec<usize>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] r@[i]) == i { unimplemented!() }
#[verifier::external_body] pub fn clone_<T: Clone>(x: &T) -> T { unimplemented!() }
//@fn core/executor/src/adapter/trie/db.rs :: fn rand_remove_list
//@ ret r
//@ sub /impl Iterator<Item = T>/ => /Vec<T>/
//@ sub /\(0\.\.(\w+)\)\.collect::<Vec<_>>\(\)/ => /upto(\1)/
//@ sub /(\w+\[\w+\])\.clone\(\)/ => /clone_(\1)/
//@ sub /\bret\.into_iter\(\)/ => /ret/
//@ spec
    requires num <= keys@.len(),
    ensures r@.len() == num,
//@ loop 0 it
    invariant ret@.len() == it.index@, len == keys@.len() - it.index@, idx_list@.len() == len, num <= keys@.len(), forall|i: int| 0 <= i < idx_list@.len() ==> (#[trigger] idx_list@[i]) < keys@.len(),
//@end
pub struct RocksTrieDB { pub db: Db, pub category: StateStorageCategory, pub cache: Cache, pub cache_size: usize }
pub broadcast proof fn put_all_one<A>(m: Map<A, Seq<u8>>, s: Seq<(A, Seq<u8>)>, x: (A, Seq<u8>))
    ensures #[trigger] put_all(m, s.push(x)) == put_all(m, s).insert(x.0, x.1)
{ assert(s.push(x).drop_last() =~= s); }
proof fn stays_within(c: StateStorageCategory, m: Map<Seq<u8>, Seq<u8>>, d: Map<At, Seq<u8>>, k: Seq<Vec<u8>>, v: Seq<Vec<u8>>, n: nat)
    requires within(c, m, d),
    ensures within(c, put_all(m, plain(k, v, n)), put_all(d, pairs(c, k, v, n))),
    decreases n,
{
    if n > 0 {
        stays_within(c, m, d, k, v, (n - 1) as nat);
        assert(plain(k, v, n).drop_last() =~= plain(k, v, (n - 1) as nat));
        assert(pairs(c, k, v, n).drop_last() =~= pairs(c, k, v, (n - 1) as nat));
    }
}
/// what the cache holds is what the column holds
pub open spec fn within(c: StateStorageCategory, m: Map<Seq<u8>, Seq<u8>>, d: Map<At, Seq<u8>>) -> bool { forall|k: Seq<u8>| #[trigger] m.contains_key(k) ==> d.contains_key((c, k)) && d[(c, k)] == m[k] }
impl RocksTrieDB {
    pub open spec fn inv(&self) -> bool { within(self.category, self.cache@, self.db@) && self.cache_size <= 0x7fff_ffff_ffff_ffff }
    pub open spec fn has(&self, k: Seq<u8>) -> bool { self.db@.contains_key((self.category, k)) }
    pub open spec fn at(&self, k: Seq<u8>) -> Seq<u8> { self.db@[(self.category, k)] }
    pub open spec fn still(&self, o: &RocksTrieDB) -> bool { self.category == o.category && self.cache_size == o.cache_size && self.db.broken() == o.db.broken() }
    #[verifier::external_body] pub fn get_column(&self) -> (r: ColumnFamily) ensures r@ == self.category { unimplemented!() }
//@fn core/executor/src/adapter/trie/db.rs :: impl RocksTrieDB/fn new
//@ ret r
//@ sub /Arc<DB>/ => /Db/
//@ sub /RwLock::new\(HashMap::with_capacity\((\w+)\)\)/ => /Cache::with_capacity(\1)/
//@ spec
    requires cache_size <= 0x7fff_ffff_ffff_ffff,
    ensures r.inv(), r.db == db, r.category == category,
//@end
//@fn core/executor/src/adapter/trie/db.rs :: impl RocksTrieDB/fn new_evm
//@ ret r
//@ sub /Arc<DB>/ => /Db/
//@ sub /StateStorageCategory::(\w+)/ => /CAT_\1()/
//@ spec
    requires cache_size <= 0x7fff_ffff_ffff_ffff,
    ensures r.inv(), r.db == db, r.category == CAT_EvmState(),
//@end
//@fn core/executor/src/adapter/trie/db.rs :: impl RocksTrieDB/fn new_metadata
//@ ret r
//@ sub /Arc<DB>/ => /Db/
//@ sub /StateStorageCategory::(\w+)/ => /CAT_\1()/
//@ spec
    requires cache_size <= 0x7fff_ffff_ffff_ffff,
    ensures r.inv(), r.db == db, r.category == CAT_MetadataState(),
//@end
//@fn core/executor/src/adapter/trie/db.rs :: impl RocksTrieDB/fn new_ckb_light_client
//@ ret r
//@ sub /Arc<DB>/ => /Db/
//@ sub /StateStorageCategory::(\w+)/ => /CAT_\1()/
//@ spec
    requires cache_size <= 0x7fff_ffff_ffff_ffff,
    ensures r.inv(), r.db == db, r.category == CAT_CkbLightClientState(),
//@end
//@fn core/executor/src/adapter/trie/db.rs :: impl trie::DB for RocksTrieDB/fn get
//@ ret r
//@ macros
//@ sub /&self/ => /&mut self/
//@ sub /io::Error(?!::)/ => /IoError/
//@ sub /io::Error::new\((?:[^()]|\((?:[^()]|\([^()]*\))*\))*\)/ => /io_err()/
//@ sub /self\.cache\.read\(\)\.get\((\w+)\)\.cloned\(\)/ => /self.cache.found(\1)/
//@ sub /self\.cache\.(?:write|read)\(\)/ => /self.cache/
//@ sub /(\w+)\.to_owned\(\)/ => /slice_to_vec(\1)/
//@ sub /let \w+ = Instant::now\(\);/ => //
//@ sub /on_storage_\w+\([^;]*\);/ => //
//@ sub /\.map_err\(\|e\| \{\s*io_err\(\)\s*\}\)/ => /.map_err(|_e: RocksError| -> (x: IoError) { io_err() })/
//@ sub /\.map\(\|(\w+)\| \w+\.to_vec\(\)\)/ => /.map(|\1: DBVector| -> (x: Vec<u8>) ensures x@ == \1@ { \1.to_vec() })/
//@ spec
    requires old(self).inv(),
    ensures final(self).inv(), final(self).db == old(self).db, final(self).still(old(self)), r is Err ==> old(self).db.broken(),
        r matches Ok(o) ==> (o is Some) == old(self).has(key@), r matches Ok(Some(v)) ==> v@ == old(self).at(key@),
//@end
//@fn core/executor/src/adapter/trie/db.rs :: impl trie::DB for RocksTrieDB/fn contains
//@ ret r
//@ macros
//@ sub /&self/ => /&mut self/
//@ sub /io::Error(?!::)/ => /IoError/
//@ sub /io::Error::new\((?:[^()]|\((?:[^()]|\([^()]*\))*\))*\)/ => /io_err()/
//@ sub /self\.cache\.(?:write|read)\(\)/ => /self.cache/
//@ sub /(\w+)\.to_owned\(\)/ => /slice_to_vec(\1)/
//@ sub /\.map_err\(\|e\| \{\s*io_err\(\)\s*\}\)/ => /.map_err(|_e: RocksError| -> (x: IoError) { io_err() })/
//@ spec
    requires old(self).inv(),
    ensures final(self).inv(), final(self).db == old(self).db, final(self).still(old(self)), r is Err ==> old(self).db.broken(), r matches Ok(o) ==> o == old(self).has(key@),
//@end
//@fn core/executor/src/adapter/trie/db.rs :: impl trie::DB for RocksTrieDB/fn insert
//@ ret r
//@ macros
//@ sub /&self/ => /&mut self/
//@ sub /io::Error(?!::)/ => /IoError/
//@ sub /io::Error::new\((?:[^()]|\((?:[^()]|\([^()]*\))*\))*\)/ => /io_err()/
//@ sub /self\.cache\.(?:write|read)\(\)/ => /self.cache/
//@ sub /let \w+ = Instant::now\(\);/ => //
//@ sub /let \w+ = \w+\.len\(\) \+ \w+\.len\(\);/ => //
//@ sub /on_storage_\w+\([^;]*\);/ => //
//@ sub /self\.db\.put_cf\(self\.get_column\(\)/ => /let column_ = self.get_column(); self.db.put_cf(column_/
//@ sub /\.map_err\(\|e\| \{\s*io_err\(\)\s*\}\)/ => /.map_err(|_e: RocksError| -> (x: IoError) { io_err() })/
//@ spec
    requires old(self).inv(),
    ensures final(self).still(old(self)), r is Err ==> old(self).db.broken(), r is Ok ==> final(self).inv() && final(self).db@ == old(self).db@.insert((old(self).category, key@), value@),
//@end
//@fn core/executor/src/adapter/trie/db.rs :: impl trie::DB for RocksTrieDB/fn insert_batch
//@ ret r
//@ macros
//@ sub /&self/ => /&mut self/
//@ sub /io::Error(?!::)/ => /IoError/
//@ sub /io::Error::new\((?:[^()]|\((?:[^()]|\([^()]*\))*\))*\)/ => /io_err()/
//@ sub /let mut total_size = 0;/ => //
//@ sub /total_size \+= \w+\.len\(\);/ => //
//@ sub /let mut cache = self\.cache\.write\(\);/ => //
//@ sub /\bcache\.insert/ => /self.cache.insert/
//@ sub /let \w+ = Instant::now\(\);/ => //
//@ sub /on_storage_\w+\([^;]*\);/ => //
//@ sub /for \((\w+), (\w+)\) in (\w+)\.into_iter\(\)\.zip\((\w+)\.into_iter\(\)\) \{/ => /for pair_ in zip_(\3, \4) {\n let (\1, \2) = pair_;/
//@ sub /\.map_err\(\|e\| \{\s*io_err\(\)\s*\}\)/ => /.map_err(|_e: RocksError| -> (x: IoError) { io_err() })/
//@ sub /\.map_err\(\|e\| io_err\(\)\)/ => /.map_err(|_e: RocksError| -> (x: IoError) { io_err() })/
//@ spec
    requires old(self).inv(),
    ensures final(self).still(old(self)), r is Err ==> old(self).db.broken() || keys@.len() != values@.len(), keys@.len() != values@.len() ==> r is Err && *final(self) == *old(self),
        r is Ok ==> final(self).inv() && final(self).db@ == put_all(old(self).db@, pairs(old(self).category, keys@, values@, keys@.len())),
//@ start
    let ghost k0 = keys@; let ghost v0 = values@;
//@ loop 0 it
    invariant it.seq().len() == k0.len(), k0.len() == v0.len(), forall|i: int| 0 <= i < k0.len() ==> (#[trigger] it.seq()[i]) == (k0[i], v0[i]), !batch.broken(),
        self.db == old(self).db, self.category == old(self).category, self.cache_size == old(self).cache_size,
        batch@ == pairs(self.category, k0, v0, it.index@ as nat), self.cache@ == put_all(old(self).cache@, plain(k0, v0, it.index@ as nat)),
//@ loopstart 0
    proof { reveal_with_fuel(put_all, 1); }
//@ loopend 0
    proof {
        assert(batch@ =~= pairs(self.category, k0, v0, (it.index@ + 1) as nat));
        assert(plain(k0, v0, (it.index@ + 1) as nat) =~= plain(k0, v0, it.index@ as nat).push((k0[it.index@ as int]@, v0[it.index@ as int]@)));
        put_all_one(old(self).cache@, plain(k0, v0, it.index@ as nat), (k0[it.index@ as int]@, v0[it.index@ as int]@));
    }
//@ loopafter 0
    proof { stays_within(self.category, old(self).cache@, old(self).db@, k0, v0, k0.len()); }
//@end
//@fn core/executor/src/adapter/trie/db.rs :: impl trie::DB for RocksTrieDB/fn remove
//@ ret r
//@ sub /&self/ => /&mut self/
//@ sub /io::Error/ => /IoError/
//@ spec
    requires old(self).inv(),
    ensures final(self).inv(), final(self).db == old(self).db, r is Ok,
//@end
//@fn core/executor/src/adapter/trie/db.rs :: impl trie::DB for RocksTrieDB/fn remove_batch
//@ ret r
//@ sub /&self/ => /&mut self/
//@ sub /io::Error/ => /IoError/
//@ spec
    requires old(self).inv(),
    ensures final(self).inv(), final(self).db == old(self).db, r is Ok,
//@end
//@fn core/executor/src/adapter/trie/db.rs :: impl trie::DB for RocksTrieDB/fn flush
//@ ret r
//@ sub /&self/ => /&mut self/
//@ sub /io::Error/ => /IoError/
//@ sub /let mut cache = self\.cache\.write\(\);/ => //
//@ sub /\bcache\.(len|remove|iter)/ => /self.cache.\1/
//@ sub /self\.cache\.iter\(\)\.map\(\|\(\w+, _\w*\)\| \w+\)\.collect::<Vec<_>>\(\)/ => /self.cache.keys_()/
//@ spec
    requires old(self).inv(),
    ensures final(self).inv(), final(self).db == old(self).db, final(self).still(old(self)), r is Ok,
//@ loop 0
    invariant self.inv(), self.db == old(self).db, self.still(old(self)),
//@end
}
#[verifier::external_body] pub fn zip_(a: Vec<Vec<u8>>, b: Vec<Vec<u8>>) -> (r: Vec<(Vec<u8>, Vec<u8>)>)
    ensures r@.len() == (if a@.len() <= b@.len() { a@.len() } else { b@.len() }), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]) == (a@[i], b@[i]) { unimplemented!() }
pub uninterp spec fn cat_evm() -> StateStorageCategory;
pub uninterp spec fn cat_metadata() -> StateStorageCategory;
pub uninterp spec fn cat_light() -> StateStorageCategory;
#[allow(non_snake_case)] #[verifier::external_body] #[verifier::when_used_as_spec(cat_evm)] pub fn CAT_EvmState() -> (r: StateStorageCategory) ensures r == cat_evm() { unimplemented!() }
#[allow(non_snake_case)] #[verifier::external_body] #[verifier::when_used_as_spec(cat_metadata)] pub fn CAT_MetadataState() -> (r: StateStorageCategory) ensures r == cat_metadata() { unimplemented!() }
#[allow(non_snake_case)] #[verifier::external_body] #[verifier::when_used_as_spec(cat_light)] pub fn CAT_CkbLightClientState() -> (r: StateStorageCategory) ensures r == cat_light() { unimplemented!() }
}
fn main() {}
} // verus!
