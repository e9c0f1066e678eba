//@include head.rs
pub mod sh {
use super::*;
//@include num.rs
//@include bytes.rs
}
use sh::*;
// C24: what the consensus log and the saved transaction lists do to a directory.
pub mod wal {
use super::*;
use super::sh::*;
broadcast use {num_axioms, bytes_axioms};
// ---- paths and the file system (trusted): a path is a sequence of names, the file system a map from paths to contents ----
pub enum Name { Num(nat), Digest(Seq<u8>), Text(int), Txt(Box<Name>) }
#[verifier::external_body] pub struct Str { x: u8 }
impl Str { pub uninterp spec fn view(&self) -> Name; }
#[verifier::external_body] pub fn dec64(n: u64) -> (r: Str) ensures r@ == Name::Num(n as nat) { unimplemented!() }
#[verifier::external_body] pub fn dec128(n: u128) -> (r: Str) ensures r@ == Name::Num(n as nat) { unimplemented!() }
/// the {:?} form spells out all 32 bytes
#[verifier::external_body] pub fn full_hex(h: H256) -> (r: Str) ensures r@ == Name::Digest(h@) { unimplemented!() }
/// the {} form only the first and the last two
#[verifier::external_body] pub fn short_hex(h: H256) -> (r: Str) ensures r@ == Name::Digest(seq![h@[0], h@[1], h@[30], h@[31]]) { unimplemented!() }
#[verifier::external_body] pub struct PathBuf { x: u8 }
impl PathBuf {
    pub uninterp spec fn view(&self) -> Seq<Name>;
    #[verifier::external_body] pub fn clone(&self) -> (r: PathBuf) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn push(&mut self, s: Str) ensures final(self)@ == old(self)@.push(s@) { unimplemented!() }
    #[verifier::external_body] pub fn set_txt(&mut self) requires old(self)@.len() > 0 ensures final(self)@ == old(self)@.drop_last().push(Name::Txt(Box::new(old(self)@.last()))) { unimplemented!() }
}
pub struct Error;
pub type ProtocolResult<T> = Result<T, Error>;
#[verifier::external_body] pub fn none_valid() -> Error { unimplemented!() }
#[verifier::external_body] pub fn no_dir() -> Error { unimplemented!() }
#[verifier::external_body] pub fn io_error(e: Error) -> Error { unimplemented!() }
#[verifier::external_body] pub fn already_exists(e: &Error) -> (r: bool) ensures !r { unimplemented!() }
#[verifier::external_body] pub struct Fs { x: u8 }
pub struct Disk { pub files: Map<Seq<Name>, Seq<u8>>, pub dirs: Set<Seq<Name>> }
pub open spec fn child(d: Seq<Name>, p: Seq<Name>) -> bool { p.len() == d.len() + 1 && p.take(d.len() as int) == d }
pub open spec fn under(d: Seq<Name>, p: Seq<Name>) -> bool { p.len() >= d.len() && p.take(d.len() as int) == d }
pub open spec fn there(v: Disk, p: Seq<Name>) -> bool { v.files.contains_key(p) || v.dirs.contains(p) }
pub struct Entry { pub path: PathBuf }
pub struct File { pub path: PathBuf, pub pos: Ghost<nat> }
#[verifier::external_body] pub struct Out { x: u8 }
impl Out { pub uninterp spec fn view(&self) -> Seq<Name>; }
pub open spec fn over(new: Seq<u8>, old: Seq<u8>) -> Seq<u8> { if new.len() >= old.len() { new } else { new + old.skip(new.len() as int) } }
impl Fs {
    pub uninterp spec fn view(&self) -> Disk;
    /// no operation of the system fails
    pub uninterp spec fn healthy(&self) -> bool;
    #[verifier::external_body] pub fn exists(&self, p: &PathBuf) -> (r: bool) ensures r == there(self@, p@) { unimplemented!() }
    #[verifier::external_body] pub fn create_dir(&mut self, p: &PathBuf) -> (r: Result<(), Error>)
        ensures final(self).healthy() == old(self).healthy(), final(self)@.files == old(self)@.files, r is Ok ==> final(self)@.dirs == old(self)@.dirs.insert(p@), r is Err ==> final(self)@ == old(self)@ { unimplemented!() }
    #[verifier::external_body] pub fn read_dir(&self, p: &PathBuf) -> (r: Result<Vec<Result<Entry, Error>>, Error>)
        ensures self.healthy() && self@.dirs.contains(p@) ==> r is Ok, r matches Ok(v) ==> entries(self@, p@, v@), self.healthy() ==> (r matches Ok(v) ==> all_ok(v@)) { unimplemented!() }
    #[verifier::external_body] pub fn open(&self, p: &PathBuf) -> (r: Result<Reading, Error>)
        ensures r matches Ok(f) ==> f@ == p@ && self@.files.contains_key(p@), self.healthy() && self@.files.contains_key(p@) ==> r is Ok { unimplemented!() }
    #[verifier::external_body] pub fn read_to_end(&self, f: &mut Reading, buf: &mut Vec<u8>) -> (r: Result<usize, Error>)
        requires old(buf)@.len() == 0, self@.files.contains_key(old(f)@)
        ensures r is Ok ==> final(buf)@ == self@.files[old(f)@], self.healthy() ==> r is Ok, final(f)@ == old(f)@ { unimplemented!() }
    /// opened for writing, created if need be, not truncated
    #[verifier::external_body] pub fn open_rw(&mut self, p: &PathBuf) -> (r: Result<Out, Error>)
        ensures final(self).healthy() == old(self).healthy(), r matches Ok(f) ==> f@ == p@ && final(self)@.dirs == old(self)@.dirs
                && final(self)@.files == (if old(self)@.files.contains_key(p@) { old(self)@.files } else { old(self)@.files.insert(p@, Seq::empty()) }), r is Err ==> final(self)@ == old(self)@ { unimplemented!() }
    /// a failed or interrupted write leaves the beginning of what was to be written
    #[verifier::external_body] pub fn write_all(&mut self, f: &mut Out, b: &[u8]) -> (r: Result<(), Error>)
        requires old(self)@.files.contains_key(old(f)@), valid(old(self)@.files[old(f)@]) is None,
        ensures final(self).healthy() == old(self).healthy(), final(self)@.dirs == old(self)@.dirs, final(f)@ == old(f)@,
            r is Ok ==> final(self)@.files == old(self)@.files.insert(old(f)@, over(b@, old(self)@.files[old(f)@])),
            final(self)@.files == old(self)@.files.insert(old(f)@, final(self)@.files[old(f)@]) { unimplemented!() }
    /// as write_all, to a file that may hold something
    #[verifier::external_body] pub fn overwrite(&mut self, f: &mut Out, b: &[u8]) -> (r: Result<(), Error>)
        requires old(self)@.files.contains_key(old(f)@),
        ensures final(self).healthy() == old(self).healthy(), final(self)@.dirs == old(self)@.dirs, final(f)@ == old(f)@,
            r is Ok ==> final(self)@.files == old(self)@.files.insert(old(f)@, over(b@, old(self)@.files[old(f)@])),
            final(self)@.files == old(self)@.files.insert(old(f)@, final(self)@.files[old(f)@]) { unimplemented!() }
    /// only what a newer complete record makes superfluous may go: at no point of an update is there none to recover
    #[verifier::external_body] pub fn remove_file(&mut self, p: &PathBuf) -> (r: Result<(), Error>)
        requires superseded(old(self)@, p@),
        ensures final(self).healthy() == old(self).healthy(), final(self)@.dirs == old(self)@.dirs, r is Ok ==> final(self)@.files == old(self)@.files.remove(p@), r is Err ==> final(self)@.files == old(self)@.files { unimplemented!() }
    #[verifier::external_body] pub fn clear_file(&mut self, p: &PathBuf) -> (r: Result<(), Error>)
        ensures final(self).healthy() == old(self).healthy(), final(self)@.dirs == old(self)@.dirs, r is Ok ==> final(self)@.files == old(self)@.files.remove(p@), r is Err ==> final(self)@ == old(self)@ { unimplemented!() }
    #[verifier::external_body] pub fn remove_dir_all(&mut self, p: &PathBuf) -> (r: Result<(), Error>)
        ensures final(self).healthy() == old(self).healthy(), r is Ok ==> gone(old(self)@, final(self)@, p@), forall|q: Seq<Name>| !under(p@, q) ==> (#[trigger] final(self)@.files.contains_key(q) == old(self)@.files.contains_key(q) && final(self)@.files[q] == old(self)@.files[q] && final(self)@.dirs.contains(q) == old(self)@.dirs.contains(q)) { unimplemented!() }
}
pub open spec fn same_at(a: Disk, b: Disk, q: Seq<Name>) -> bool { a.files.contains_key(q) == b.files.contains_key(q) && a.files[q] == b.files[q] && a.dirs.contains(q) == b.dirs.contains(q) }
pub open spec fn gone(a: Disk, b: Disk, p: Seq<Name>) -> bool { forall|q: Seq<Name>| under(p, q) ==> !there(b, q) }
pub open spec fn entries(v: Disk, d: Seq<Name>, e: Seq<Result<Entry, Error>>) -> bool {
    (forall|i: int| 0 <= i < e.len() ==> ((#[trigger] e[i]) matches Ok(x) ==> child(d, x.path@) && there(v, x.path@)))
    && (forall|p: Seq<Name>| child(d, p) && #[trigger] there(v, p) && (forall|i: int| 0 <= i < e.len() ==> (#[trigger] e[i]) is Ok) ==> exists|i: int| 0 <= i < e.len() && (#[trigger] e[i]) is Ok && e[i]->Ok_0.path@ == p)
    && (forall|i: int, j: int| 0 <= i < j < e.len() && e[i] is Ok && e[j] is Ok ==> (#[trigger] e[i])->Ok_0.path@ != (#[trigger] e[j])->Ok_0.path@)
}
#[verifier::external_body] pub struct Reading { x: u8 }
impl Reading { pub uninterp spec fn view(&self) -> Seq<Name>; }
impl Entry { #[verifier::external_body] pub fn path(&self) -> (r: PathBuf) ensures r@ == self.path@ { unimplemented!() } }
/// the number an entry is named by; anything else is an error
#[verifier::external_body] pub fn number_of(e: &Entry) -> (r: Result<u128, Error>) ensures r matches Ok(n) ==> e.path@.len() > 0 && e.path@.last() == Name::Num(n as nat), (e.path@.last() matches Name::Num(n) && n <= u128::MAX) ==> r is Ok { unimplemented!() }
#[verifier::external_body] pub fn height_of(p: &PathBuf) -> (r: Result<u64, Error>) ensures r matches Ok(n) ==> p@.len() > 0 && p@.last() == Name::Num(n as nat), (p@.last() matches Name::Num(n) && n <= u64::MAX) ==> r is Ok { unimplemented!() }
pub open spec fn names_files(v: Disk, d: Seq<Name>, s: Seq<u128>) -> bool { forall|i: int| 0 <= i < s.len() ==> v.files.contains_key(at(d, #[trigger] s[i])) }
pub open spec fn names_all(v: Disk, d: Seq<Name>, s: Seq<u128>) -> bool { forall|t: u128| v.files.contains_key(#[trigger] at(d, t)) ==> s.contains(t) }
pub open spec fn all_ok(e: Seq<Result<Entry, Error>>) -> bool { forall|i: int| 0 <= i < e.len() ==> (#[trigger] e[i]) is Ok }
/// the numbers that name entries
#[verifier::external_body] pub fn numbers_raw(e: &Vec<Result<Entry, Error>>) -> (r: Vec<u128>)
    ensures forall|i: int| 0 <= i < e@.len() && (#[trigger] e@[i]) is Ok ==> (e@[i]->Ok_0.path@.last() matches Name::Num(n) ==> n <= u128::MAX ==> r@.contains(n as u128)),
        forall|k: int| 0 <= k < r@.len() ==> exists|i: int| 0 <= i < e@.len() && (#[trigger] e@[i]) is Ok && e@[i]->Ok_0.path@.last() == Name::Num(#[trigger] r@[k] as nat) { unimplemented!() }
pub fn numbers_of(e: Vec<Result<Entry, Error>>) -> (r: Vec<u128>)
    ensures forall|v: Disk, d: Seq<Name>| #[trigger] entries(v, d, e@) && tidy(v, d) ==> names_files(v, d, r@) && (all_ok(e@) ==> names_all(v, d, r@))
{
    let r = numbers_raw(&e);
    proof { assert forall|v: Disk, d: Seq<Name>| #[trigger] entries(v, d, e@) && tidy(v, d) implies names_files(v, d, r@) && (all_ok(e@) ==> names_all(v, d, r@)) by {
        assert forall|k: int| 0 <= k < r@.len() implies v.files.contains_key(at(d, #[trigger] r@[k])) by {
            let i = choose|i: int| 0 <= i < e@.len() && (#[trigger] e@[i]) is Ok && e@[i]->Ok_0.path@.last() == Name::Num(r@[k] as nat);
            child_parts(d, e@[i]->Ok_0.path@); assert(at(d, r@[k]) == e@[i]->Ok_0.path@);
        }
        if all_ok(e@) { assert forall|t: u128| v.files.contains_key(#[trigger] at(d, t)) implies r@.contains(t) by {
            at_parts(d, t); let p = at(d, t); assert(there(v, p));
            let i = choose|i: int| 0 <= i < e@.len() && (#[trigger] e@[i]) is Ok && e@[i]->Ok_0.path@ == p; assert(e@[i] is Ok);
        } }
    } }
    r
}
#[verifier::external_body] pub fn sort_descending(v: &mut Vec<u128>)
    ensures forall|i: int, j: int| 0 <= i <= j < final(v)@.len() ==> final(v)@[i] >= final(v)@[j], final(v)@.to_multiset() == old(v)@.to_multiset(), forall|k: Disk, d: Seq<Name>| names_files(k, d, old(v)@) ==> #[trigger] names_files(k, d, final(v)@), forall|k: Disk, d: Seq<Name>| names_all(k, d, old(v)@) ==> #[trigger] names_all(k, d, final(v)@) { unimplemented!() }
#[verifier::external_body] pub fn now_ms() -> (r: Result<u128, Error>) { unimplemented!() }
#[verifier::external_body] pub fn bytes_of(v: Vec<u8>) -> (r: Bytes) ensures r@ == v@ { unimplemented!() }
#[verifier::external_body] pub fn split_off(b: &mut Bytes, n: usize) -> (r: Bytes) requires n <= old(b)@.len() ensures final(b)@ == old(b)@.take(n as int), r@ == old(b)@.skip(n as int) { unimplemented!() }
#[verifier::external_body] pub fn same(a: &Bytes, b: &[u8]) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
#[verifier::external_body] pub fn put_bytes(m: &mut BytesMut, b: Bytes) ensures final(m)@ == old(m)@ + b@ { unimplemented!() }
// ---- records ----
pub open spec fn record(info: Seq<u8>) -> Seq<u8> { keccak(info)@ + info }
/// what a complete record holds
pub open spec fn valid(f: Seq<u8>) -> Option<Seq<u8>> { if f.len() >= 32 && f.take(32) == keccak(f.skip(32))@ { Some(f.skip(32)) } else { None } }
pub open spec fn at(d: Seq<Name>, t: u128) -> Seq<Name> { d.push(Name::Num(t as nat)) }
/// t names the newest complete record
pub open spec fn newest(v: Disk, d: Seq<Name>, t: u128) -> bool {
    v.files.contains_key(at(d, t)) && valid(v.files[at(d, t)]) is Some && forall|s: u128| s > t && v.files.contains_key(#[trigger] at(d, s)) ==> valid(v.files[at(d, s)]) is None
}
pub open spec fn superseded(v: Disk, p: Seq<Name>) -> bool {
    p.len() > 0 && exists|t: u128, n: u128| p.last() == Name::Num(n as nat) && n < t && v.files.contains_key(#[trigger] at(p.drop_last(), t)) && p == #[trigger] at(p.drop_last(), n) && valid(v.files[at(p.drop_last(), t)]) is Some
}
proof fn record_valid(info: Seq<u8>) ensures valid(record(info)) == Some(info) { let f = record(info); assert(keccak(info)@.len() == 32); assert(f.take(32) =~= keccak(info)@); assert(f.skip(32) =~= info); }
/// a record cut short is complete only if the digests of two different texts agree
pub proof fn cut_record(info: Seq<u8>, k: int) requires 0 <= k < record(info).len(), valid(record(info).take(k)) is Some ensures exists|x: Seq<u8>| x != info && keccak(x)@ == keccak(info)@ {
    let f = record(info).take(k); assert(keccak(info)@.len() == 32); assert(f.take(32) =~= keccak(info)@); assert(f.skip(32).len() == k - 32);
}
broadcast proof fn at_parts(d: Seq<Name>, t: u128) ensures #[trigger] at(d, t).last() == Name::Num(t as nat), at(d, t).drop_last() == d, child(d, at(d, t)) { assert(at(d, t).drop_last() =~= d); assert(at(d, t).take(d.len() as int) =~= d); }
broadcast proof fn child_parts(d: Seq<Name>, p: Seq<Name>) requires #[trigger] child(d, p) ensures p.drop_last() == d, p == d.push(p.last()) { assert(p =~= d.push(p.last())); assert(p.drop_last() =~= p.take(d.len() as int)); }
/// no complete record that would be recovered is ever removed
pub proof fn removal_is_safe(v: Disk, d: Seq<Name>, n: u128, p: Seq<Name>) requires newest(v, d, n), superseded(v, p), child(d, p) ensures newest(Disk { files: v.files.remove(p), dirs: v.dirs }, d, n)
{ broadcast use {at_parts, child_parts}; }
/// a write to a new file, cut anywhere, leaves the newest record what it was, or is that record
pub proof fn crash_in_write(v: Disk, d: Seq<Name>, n: u128, t: u128, info: Seq<u8>, k: int)
    requires newest(v, d, n), !v.files.contains_key(at(d, t)), 0 <= k < record(info).len()
    ensures newest(Disk { files: v.files.insert(at(d, t), record(info).take(k)), dirs: v.dirs }, d, n) || exists|x: Seq<u8>| x != info && keccak(x)@ == keccak(info)@
{ broadcast use {at_parts, child_parts}; if valid(record(info).take(k)) is Some { cut_record(info, k); } }
//@item core/consensus/src/wal.rs :: struct ConsensusWal
//@ sub /\bpath:/ => /pub path:/
//@end
pub struct Context;
pub open spec fn updated(a: Disk, b: Disk, d: Seq<Name>, t: u128, info: Seq<u8>) -> bool {
    !a.files.contains_key(at(d, t)) && b.files.contains_key(at(d, t)) && b.files[at(d, t)] == record(info)
    && (forall|s: u128| s != t ==> (#[trigger] b.files.contains_key(at(d, s)) == (s > t && a.files.contains_key(at(d, s))) && (s > t && a.files.contains_key(at(d, s)) ==> b.files[at(d, s)] == a.files[at(d, s)])))
}
pub open spec fn kept_at(v1: Disk, v: Disk, d: Seq<Name>, t: u128, p: Seq<Name>) -> bool {
    (v.files.contains_key(p) ==> v1.files.contains_key(p) && v.files[p] == v1.files[p]) && (v1.files.contains_key(p) && !v.files.contains_key(p) ==> exists|n: u128| n < t && p == #[trigger] at(d, n))
}
pub open spec fn kept(v1: Disk, v: Disk, d: Seq<Name>, t: u128) -> bool { forall|p: Seq<Name>| #[trigger] kept_at(v1, v, d, t, p) }
pub open spec fn dealt(v: Disk, d: Seq<Name>, e: Result<Entry, Error>, t: u128) -> bool { e matches Ok(x) && (x.path@.last() matches Name::Num(n) ==> n < t ==> !v.files.contains_key(x.path@)) }
/// the next load gives what was last written, unless the clock went back
pub proof fn load_after_update(a: Disk, b: Disk, d: Seq<Name>, t: u128, info: Seq<u8>)
    requires updated(a, b, d, t, info), forall|s: u128| a.files.contains_key(#[trigger] at(d, s)) ==> s < t
    ensures newest(b, d, t), valid(b.files[at(d, t)]) == Some(info)
{ record_valid(info); }
/// the directory holds what the log puts there: files named by numbers
pub open spec fn tidy(v: Disk, d: Seq<Name>) -> bool { forall|p: Seq<Name>| child(d, p) && #[trigger] there(v, p) ==> v.files.contains_key(p) && !v.dirs.contains(p) && there(v, d) && (p.last() matches Name::Num(n) ==> n <= u128::MAX) }
proof fn newest_here(fs: Fs, d: Seq<Name>, s: Seq<u128>, i: int)
    requires 0 <= i < s.len(), names_files(fs@, d, s), fs.healthy() ==> names_all(fs@, d, s), forall|i: int, j: int| 0 <= i <= j < s.len() ==> s[i] >= s[j], valid(fs@.files[at(d, s[i])]) is Some,
        forall|j: int| 0 <= j < i ==> passed(fs, d, #[trigger] s[j]),
    ensures newest_readable(fs, d, s[i])
{
    if fs.healthy() { assert forall|x: u128| x > s[i] && fs@.files.contains_key(#[trigger] at(d, x)) implies valid(fs@.files[at(d, x)]) is None by {
        assert(s.contains(x)); let j = s.index_of(x); assert(s[j] == x); if j >= i { assert(s[i] >= s[j]); } assert(passed(fs, d, s[j])); } }
}
proof fn going(v: Disk, d: Seq<Name>, p: Seq<Name>, n: u128, t: u128, info: Seq<u8>)
    requires child(d, p), p.last() == Name::Num(n as nat), n < t, v.files.contains_key(at(d, t)), v.files[at(d, t)] == record(info)
    ensures superseded(v, p), p == at(d, n), at(d, n) != at(d, t)
{ broadcast use {at_parts, child_parts}; record_valid(info); assert(at(p.drop_last(), t) == at(d, t) && p == at(p.drop_last(), n)); }
proof fn done(v0: Disk, v1: Disk, v: Disk, d: Seq<Name>, e: Seq<Result<Entry, Error>>, t: u128, info: Seq<u8>)
    requires v1.files == v0.files.insert(at(d, t), record(info)), !v0.files.contains_key(at(d, t)), kept(v1, v, d, t), entries(v1, d, e), forall|i: int| 0 <= i < e.len() ==> dealt(v, d, #[trigger] e[i], t)
    ensures updated(v0, v, d, t, info)
{
    broadcast use {at_parts, child_parts};
    assert forall|s: u128| s != t implies (#[trigger] v.files.contains_key(at(d, s)) == (s > t && v0.files.contains_key(at(d, s))) && (s > t && v0.files.contains_key(at(d, s)) ==> v.files[at(d, s)] == v0.files[at(d, s)])) by {
        assert(at(d, s).last() == Name::Num(s as nat) && at(d, t).last() == Name::Num(t as nat));
        let p = at(d, s); assert(kept_at(v1, v, d, t, p)); assert(kept_at(v1, v, d, t, at(d, t)));
        if s < t && v.files.contains_key(p) { assert(there(v1, p)); let i = choose|i: int| 0 <= i < e.len() && (#[trigger] e[i]) is Ok && e[i]->Ok_0.path@ == p; assert(dealt(v, d, e[i], t)); }
        if s > t && v1.files.contains_key(p) && !v.files.contains_key(p) { let n = choose|n: u128| n < t && p == #[trigger] at(d, n); assert(at(d, n).last() == Name::Num(n as nat)); }
    }
    assert(kept_at(v1, v, d, t, at(d, t)));
    if !v.files.contains_key(at(d, t)) { let n = choose|n: u128| n < t && at(d, t) == #[trigger] at(d, n); assert(at(d, n).last() == Name::Num(n as nat)); assert(at(d, t).last() == Name::Num(t as nat)); }
}
impl ConsensusWal {
//@fn core/consensus/src/wal.rs :: impl ConsensusWal/fn load_overlord_wal
//@ isolate
//@ ret r
//@ sub /&self, ctx/ => /&self, fs: &Fs, ctx/
//@ sub /(\w+)\.exists\(\)/ => /fs.exists(&\1)/
//@ sub /\.map_err\(ConsensusError::WALErr\)/ => //
//@ sub /Err\(ConsensusError::ConsensusWalDirNotExist\.into\(\)\)/ => /Err(no_dir())/
//@ sub /fs::read_dir\(dir_path\.clone\(\)\)/ => /fs.read_dir(&dir_path)/
//@ sub /files\s*\.filter_map\(\|item\| \{\s*let item = item\.ok\(\)\?;\s*let file_name = item\.file_name\(\);\s*let file_name = file_name\.to_str\(\)\?;\s*let file_name_timestamp = u128::from_str\(file_name\)\.ok\(\)\?;\s*Some\(file_name_timestamp\)\s*\}\)\s*\.collect::<Vec<_>>\(\)/ => /numbers_of(files)/
//@ sub /(\w+)\.sort_by_key\(\|&b\| std::cmp::Reverse\(b\)\)/ => /sort_descending(&mut \1)/
//@ sub /(\w+)\.to_string\(\)/ => /dec128(\1)/
//@ sub /fs::File::open\((&\w+)\)/ => /fs.open(\1)/
//@ sub /file\.read_to_end\((&mut \w+)\)/ => /fs.read_to_end(&mut file, \1)/
//@ sub /Bytes::from\((\w+)\)/ => /bytes_of(\1)/
//@ sub /Hash::default\(\)\.as_bytes\(\)\.len\(\)/ => /32/
//@ sub /info\.split_off\((\w+)\)/ => /split_off(&mut info, \1)/
//@ sub /info == (Hasher::digest\(&?content\))\.as_bytes\(\)/ => /same(&info, Hasher::digest(&content).as_bytes())/
//@ sub /content\.ok_or_else\(\|\| ConsensusError::ConsensusWalNoWalFile\.into\(\)\)/ => /found_.ok_or(none_valid())/
//@ sub /let content = loop \{/ => /let mut found_: Option<Bytes> = None; loop {/
//@ sub /break None;/ => /break;/
//@ sub /break Some\((\w+)\);/ => /found_ = Some(\1); proof { assert(info@ == fs@.files[log_path@].take(32)); newest_here(*fs, self.path@, file_names_timestamps@, index as int - 1); } break;/
//@ spec
    requires tidy(fs@, self.path@),
    ensures r matches Ok(c) ==> exists|t: u128| #[trigger] newest_readable(*fs, self.path@, t) && valid(fs@.files[at(self.path@, t)]) == Some(c@),
        fs.healthy() && fs@.dirs.contains(self.path@) && (exists|t: u128| #[trigger] newest(fs@, self.path@, t)) ==> r is Ok,
        fs.healthy() ==> (r matches Ok(c) ==> exists|t: u128| #[trigger] newest(fs@, self.path@, t) && valid(fs@.files[at(self.path@, t)]) == Some(c@)),
//@ loop 0
    invariant_except_break
        forall|i: int| 0 <= i < index ==> passed(*fs, self.path@, #[trigger] file_names_timestamps@[i]), found_ is None,
    invariant
        0 <= index <= file_names_timestamps@.len(), dir_path@ == self.path@,
        forall|i: int, j: int| 0 <= i <= j < file_names_timestamps@.len() ==> file_names_timestamps@[i] >= file_names_timestamps@[j],
        names_files(fs@, self.path@, file_names_timestamps@), fs.healthy() ==> names_all(fs@, self.path@, file_names_timestamps@),
    ensures
        found_ matches Some(c) ==> exists|t: u128| #[trigger] newest_readable(*fs, self.path@, t) && valid(fs@.files[at(self.path@, t)]) == Some(c@),
        found_ is None ==> forall|i: int| 0 <= i < file_names_timestamps@.len() ==> passed(*fs, self.path@, #[trigger] file_names_timestamps@[i]),
    decreases file_names_timestamps@.len() - index,
//@end
//@fn core/consensus/src/wal.rs :: impl ConsensusWal/fn update_overlord_wal
//@ isolate
//@ ret r
//@ sub /&self, ctx/ => /&self, fs: &mut Fs, ctx/
//@ sub /pub fn update/ => /#[verifier::exec_allows_no_decreases_clause] pub fn update/
//@ sub /(\w+)\.exists\(\)/ => /fs.exists(&\1)/
//@ sub /\.map_err\(ConsensusError::WALErr\)/ => //
//@ sub /fs::create_dir\(/ => /fs.create_dir(/
//@ sub /let timestamp = SystemTime::now\(\)\s*\.duration_since\(SystemTime::UNIX_EPOCH\)\s*\.map_err\(ConsensusError::SystemTime\)\?;\s*let timestamp = timestamp\.as_millis\(\);/ => /let timestamp = now_ms()?;/
//@ sub /let \(data_path, timestamp\) = \{\s*loop \{/ => /let data_path_: PathBuf; let timestamp_: u128; { loop {/
//@ sub /break \(data_path, timestamp\);/ => /data_path_ = data_path; timestamp_ = timestamp; break;/
//@ sub /let mut data_file = match/ => /let data_path = data_path_; let timestamp = timestamp_; let mut data_file = match/
//@ sub /fs::OpenOptions::new\(\)\s*\.read\(true\)\s*\.write\(true\)\s*\.create\(true\)\s*\.open\((\w+)\)/ => /fs.open_rw(&\1)/
//@ sub /err\.kind\(\) == ErrorKind::AlreadyExists/ => /already_exists(&err)/
//@ sub /Err\(ConsensusError::WALErr\(err\)\.into\(\)\)/ => /Err(io_error(err))/
//@ sub /Hasher::digest\(info\.clone\(\)\)/ => /Hasher::digest(&info)/
//@ sub /content\.put\(check_sum\.as_bytes\(\)\);/ => /content.extend_from_slice(check_sum.as_bytes());/
//@ sub /content\.put\(info\);/ => /put_bytes(&mut content, info);/
//@ sub /data_file\s*\.write_all\(content\.as_ref\(\)\)/ => /fs.write_all(&mut data_file, content.as_ref())/
//@ sub /fs::read_dir\(dir_path\)/ => /fs.read_dir(&dir_path)/
//@ sub /let file_name = item\s*\.file_name\(\)\s*\.to_str\(\)\s*\.ok_or\(ConsensusError::FileNameTimestamp\)\?\s*\.to_owned\(\);\s*let file_name_timestamp = u128::from_str\(file_name\.as_str\(\)\)\s*\.map_err\(\|_\w*\| ConsensusError::FileNameTimestamp\)\?;/ => /let file_name_timestamp = number_of(&item)?;/
//@ sub /(\w+)\.to_string\(\)/ => /dec128(\1)/
//@ sub /fs::remove_file\(item\.path\(\)\)/ => /fs.remove_file({ proof { going(fs@, self.path@, item.path@, file_name_timestamp, timestamp, info0); } &item.path() })/
//@ spec
    requires tidy(old(fs)@, self.path@),
    ensures r is Ok ==> exists|t: u128| updated(old(fs)@, final(fs)@, self.path@, t, info@),
//@ start
    let ghost v0 = fs@;
    let ghost info0 = info@;
    broadcast use {at_parts, child_parts};
//@ loopbefore 1
    let ghost v1 = fs@;
    proof { record_valid(info0); }
//@ loop 0
    invariant dir_path@ == self.path@, fs@.files == v0.files, tidy(v0, self.path@),
    ensures data_path_@ == at(self.path@, timestamp_), !fs@.files.contains_key(data_path_@),
//@ loop 1 it
    invariant
        tidy(v0, self.path@), entries(v1, self.path@, it.seq()), v1.files == v0.files.insert(at(self.path@, timestamp), record(info0)), !v0.files.contains_key(at(self.path@, timestamp)),
        dir_path@ == self.path@,
        kept(v1, fs@, self.path@, timestamp), fs@.files.contains_key(at(self.path@, timestamp)), fs@.files[at(self.path@, timestamp)] == record(info0),
        forall|i: int| 0 <= i < it.index@ ==> dealt(fs@, self.path@, #[trigger] it.seq()[i], timestamp),
//@ loopstart 1
    let ghost vb = fs@;
//@ loopend 1
    proof { assert forall|p: Seq<Name>| #[trigger] kept_at(v1, fs@, self.path@, timestamp, p) by { assert(kept_at(v1, vb, self.path@, timestamp, p)); } }
//@ loopafter 1
    proof {
        let e = choose|e: Seq<Result<Entry, Error>>| #[trigger] entries(v1, self.path@, e) && forall|i: int| 0 <= i < e.len() ==> dealt(fs@, self.path@, #[trigger] e[i], timestamp);
        done(v0, v1, fs@, self.path@, e, timestamp, info0);
    }
//@end
//@fn core/consensus/src/wal.rs :: impl ConsensusWal/fn clear
//@ ret r
//@ sub /&self\)/ => /&self, fs: &mut Fs)/
//@ sub /(\w+)\.exists\(\)/ => /fs.exists(&\1)/
//@ sub /\.map_err\(ConsensusError::WALErr\)/ => //
//@ sub /fs::read_dir\(dir_path\)/ => /fs.read_dir(&dir_path)/
//@ sub /fs::remove_file\(item\.path\(\)\)/ => /fs.clear_file(&item.path())/
//@ spec
    requires tidy(old(fs)@, self.path@),
    ensures r is Ok ==> forall|p: Seq<Name>| child(self.path@, p) ==> !(#[trigger] there(final(fs)@, p)),
        forall|p: Seq<Name>| !child(self.path@, p) ==> #[trigger] same_at(final(fs)@, old(fs)@, p),
//@ start
    let ghost v0 = fs@;
//@ loop 0 it
    invariant entries(v0, self.path@, it.seq()), v0 == old(fs)@,
        fs@.dirs == v0.dirs, forall|p: Seq<Name>| !child(self.path@, p) ==> #[trigger] same_at(fs@, v0, p),
        forall|p: Seq<Name>| #[trigger] fs@.files.contains_key(p) ==> v0.files.contains_key(p),
        forall|i: int| 0 <= i < it.index@ ==> (#[trigger] it.seq()[i]) is Ok && !fs@.files.contains_key(it.seq()[i]->Ok_0.path@),
//@ loopstart 0
    let ghost vb = fs@;
//@ loopend 0
    proof { assert forall|p: Seq<Name>| !child(self.path@, p) implies #[trigger] same_at(fs@, v0, p) by { assert(same_at(vb, v0, p)); } }
//@ loopafter 0
    proof { assert forall|p: Seq<Name>| child(self.path@, p) implies !(#[trigger] there(fs@, p)) by { if there(fs@, p) { assert(there(v0, p)); } } }
//@end
}
//@item core/consensus/src/wal.rs :: struct SignedTxsWAL
//@ sub /\bpath:/ => /pub path:/
//@end
// ---- transactions and their coding: a whole batch is read back, and what follows it does not matter ----
#[verifier::external_body] pub struct SignedTransaction { x: u8 }
pub uninterp spec fn coded(s: Seq<SignedTransaction>) -> Seq<u8>;
pub uninterp spec fn decoded(b: Seq<u8>) -> Option<Seq<SignedTransaction>>;
pub axiom fn coding(s: Seq<SignedTransaction>, rest: Seq<u8>) ensures decoded(coded(s) + rest) == Some(s);
pub struct BatchSignedTxs(pub Vec<SignedTransaction>);
impl BatchSignedTxs {
    #[verifier::external_body] pub fn encode_msg(&mut self) -> (r: Result<Bytes, Error>) ensures r matches Ok(b) ==> b@ == coded(old(self).0@), final(self).0@ == old(self).0@ { unimplemented!() }
    #[verifier::external_body] pub fn decode_msg(b: Bytes) -> (r: Result<BatchSignedTxs, Error>) ensures (r matches Ok(t) ==> decoded(b@) == Some(t.0@)), r is Err ==> decoded(b@) is None { unimplemented!() }
    pub fn inner(self) -> (r: Vec<SignedTransaction>) ensures r@ == self.0@ { self.0 }
}
broadcast proof fn push_drop(s: Seq<Name>, x: Name) ensures (#[trigger] s.push(x)).drop_last() == s, s.push(x).last() == x { assert(s.push(x).drop_last() =~= s); }
broadcast proof fn list_path_parts(d: Seq<Name>, n: u64, h: Seq<u8>) ensures (#[trigger] list_path(d, n, h)).len() == d.len() + 2, list_path(d, n, h).last() == Name::Txt(Box::new(Name::Digest(h))), list_path(d, n, h).drop_last() == list_dir(d, n), list_dir(d, n).len() == d.len() + 1, list_dir(d, n).last() == Name::Num(n as nat)
{ broadcast use push_drop; }
/// heights have folders of their own
broadcast proof fn apart(d: Seq<Name>, p: Seq<Name>, m: u64, q: Seq<Name>) requires child(d, p), #[trigger] under(p, q), #[trigger] under(list_dir(d, m), q) ensures p == list_dir(d, m) { assert(p.len() == list_dir(d, m).len()); }
broadcast proof fn list_dir_child(d: Seq<Name>, n: u64) ensures child(d, #[trigger] list_dir(d, n)), list_dir(d, n).last() == Name::Num(n as nat) { assert(list_dir(d, n).take(d.len() as int) =~= d); }
pub open spec fn list_dir(d: Seq<Name>, n: u64) -> Seq<Name> { d.push(Name::Num(n as nat)) }
/// where the list of height n and digest h is kept
pub open spec fn list_path(d: Seq<Name>, n: u64, h: Seq<u8>) -> Seq<Name> { list_dir(d, n).push(Name::Txt(Box::new(Name::Digest(h)))) }
/// different keys, different files
pub proof fn own_file(d: Seq<Name>, n: u64, h: H256, m: u64, g: H256) requires list_path(d, n, h@) == list_path(d, m, g@) ensures n == m, h == g
{
    let (p, q) = (list_path(d, n, h@), list_path(d, m, g@));
    assert(p.last() == q.last()); assert(p.drop_last() =~= list_dir(d, n)); assert(q.drop_last() =~= list_dir(d, m)); assert(list_dir(d, n).last() == list_dir(d, m).last());
}
impl SignedTxsWAL {
//@fn core/consensus/src/wal.rs :: impl SignedTxsWAL/fn save
//@ ret r
//@ sub /&self,/ => /&self, fs: &mut Fs,/
//@ sub /\bmut wal_file = match/ => /mut wal_file: Out = match/ 0
//@ sub /(\w+)\.exists\(\)/ => /fs.exists(&\1)/
//@ sub /\.map_err\(ConsensusError::WALErr\)/ => //
//@ sub /fs::create_dir\(/ => /fs.create_dir(/
//@ sub /fs::create_dir_all\(/ => /fs.create_dir(/ 0
//@ sub /number\.to_string\(\)/ => /dec64(number)/
//@ sub /format!\("\{:\?\}", (\w+)\)/ => /full_hex(\1)/ 0
//@ sub /(\w+_hash)\.to_string\(\)/ => /short_hex(\1)/ 0
//@ sub /\.set_extension\("txt"\)/ => /.set_txt()/
//@ sub /fs::OpenOptions::new\(\)\s*\.read\(true\)\s*\.write\(true\)\s*\.create\(true\)\s*\.open\((\w+)\)/ => /fs.open_rw(&\1)/
//@ sub /err\.kind\(\) == ErrorKind::AlreadyExists/ => /already_exists(&err)/
//@ sub /Err\(ConsensusError::WALErr\(err\)\.into\(\)\)/ => /Err(io_error(err))/
//@ sub /wal_file\s*\.write_all\(BatchSignedTxs\(txs\)\.encode_msg\(\)\?\.as_ref\(\)\)\s*\?;/ => /let mut batch_ = BatchSignedTxs(txs); let encoded_ = batch_.encode_msg()?; fs.overwrite(&mut wal_file, encoded_.as_ref())?;/
//@ spec
    ensures r is Ok ==> ({ let p = list_path(self.path@, number, ordered_signed_transactions_hash@);
            final(fs)@.files.contains_key(p) && decoded(final(fs)@.files[p]) == Some(txs@) }),
        // no other list is touched
        forall|m: u64, g: H256| m != number || g != ordered_signed_transactions_hash ==> same_at(old(fs)@, final(fs)@, #[trigger] list_path(self.path@, m, g@)),
//@ start
    let ghost v0 = fs@;
    let ghost txs0 = txs@;
    broadcast use {push_drop, list_path_parts};
    proof { assert forall|m: u64, g: H256| m != number || g != ordered_signed_transactions_hash implies #[trigger] list_path(self.path@, m, g@) != list_path(self.path@, number, ordered_signed_transactions_hash@) by {
        if list_path(self.path@, m, g@) == list_path(self.path@, number, ordered_signed_transactions_hash@) { own_file(self.path@, m, g, number, ordered_signed_transactions_hash); } }
        assert forall|old_: Seq<u8>| decoded(#[trigger] over(coded(txs0), old_)) == Some(txs0) by { coding(txs0, Seq::empty()); coding(txs0, old_.skip(coded(txs0).len() as int)); assert(coded(txs0) + Seq::<u8>::empty() =~= coded(txs0)); } }
//@end
//@fn core/consensus/src/wal.rs :: impl SignedTxsWAL/fn load
//@ ret r
//@ sub /&self,/ => /&self, fs: &Fs,/
//@ sub /number\.to_string\(\)/ => /dec64(number)/
//@ sub /format!\("\{:\?\}", (\w+)\)/ => /full_hex(\1)/ 0
//@ sub /(\w+_hash)\.to_string\(\)/ => /short_hex(\1)/ 0
//@ sub /\.set_extension\("txt"\)/ => /.set_txt()/
//@ sub /self\.recover_stxs\(/ => /self.recover_stxs(fs, /
//@ spec
    ensures ({ let p = list_path(self.path@, number, ordered_signed_transactions_hash@);
            (r matches Ok(t) ==> fs@.files.contains_key(p) && decoded(fs@.files[p]) == Some(t@)) && (fs.healthy() && fs@.files.contains_key(p) && decoded(fs@.files[p]) is Some ==> r is Ok) }),
//@ start
    broadcast use {push_drop, list_path_parts};
//@end
//@fn core/consensus/src/wal.rs :: impl SignedTxsWAL/fn recover_stxs
//@ ret r
//@ sub /&self,/ => /&self, fs: &Fs,/
//@ sub /\.map_err\(ConsensusError::WALErr\)/ => //
//@ sub /fs::File::open\((\w+)\)/ => /fs.open(&\1)/
//@ sub /file\s*\.read_to_end\((&mut \w+)\)/ => /fs.read_to_end(&mut file, \1)/
//@ sub /Bytes::from\((\w+)\)/ => /bytes_of(\1)/
//@ spec
    ensures r matches Ok(t) ==> fs@.files.contains_key(file_path@) && decoded(fs@.files[file_path@]) == Some(t@),
        fs.healthy() && fs@.files.contains_key(file_path@) && decoded(fs@.files[file_path@]) is Some ==> r is Ok,
//@end
//@fn core/consensus/src/wal.rs :: impl SignedTxsWAL/fn remove
//@ isolate
//@ ret r
//@ sub /&self,/ => /&self, fs: &mut Fs,/
//@ sub /\.map_err\(ConsensusError::WALErr\)/ => //
//@ sub /fs::read_dir\(&self\.path\)/ => /fs.read_dir(&self.path)/
//@ sub /let folder_name = folder\s*\.file_stem\(\)\s*\.ok_or_else\(\|\| ConsensusError::Other\("[^"]*"\.to_string\(\)\)\)\?\s*\.to_os_string\(\)\s*\.clone\(\);\s*let folder_name = folder_name\.into_string\(\)\.map_err\(\|err\| \{\s*ConsensusError::Other\(format!\("[^"]*", err\)\)\s*\}\)\?;\s*let number = folder_name\.parse::<u64>\(\)\.map_err\(\|err\| \{\s*ConsensusError::Other\(format!\("[^"]*", folder, err\)\)\s*\}\)\?;/ => /let number = height_of(&folder)?;/
//@ sub /fs::remove_dir_all\(folder\)\s*\?;/ => /let ghost vc = fs@; let res_ = fs.remove_dir_all(&folder); proof { assert(child(self.path@, folder@)); assert forall|m: u64, q: Seq<Name>| m > committed_number && #[trigger] under(list_dir(self.path@, m), q) implies same_at(v0, fs@, q) by { assert(!under(folder@, q)); assert(same_at(v0, vc, q)); assert(same_at(vc, fs@, q)); } } res_?;/
//@ spec
    ensures
        // exactly the heights up to the given one are gone
        r is Ok ==> forall|m: u64, q: Seq<Name>| m <= committed_number && #[trigger] under(list_dir(self.path@, m), q) ==> !there(final(fs)@, q) || !there(old(fs)@, list_dir(self.path@, m)),
        forall|m: u64, q: Seq<Name>| m > committed_number && #[trigger] under(list_dir(self.path@, m), q) ==> same_at(old(fs)@, final(fs)@, q),
//@ start
    let ghost v0 = fs@;
    broadcast use {list_dir_child, apart, child_parts};
//@ loop 0 it
    invariant entries(v0, self.path@, it.seq()), v0 == old(fs)@,
        forall|m: u64, q: Seq<Name>| m > committed_number && #[trigger] under(list_dir(self.path@, m), q) ==> same_at(v0, fs@, q),
        forall|i: int| 0 <= i < it.index@ ==> (#[trigger] it.seq()[i]) is Ok && (it.seq()[i]->Ok_0.path@.last() matches Name::Num(n) ==> n <= committed_number ==> gone(v0, fs@, it.seq()[i]->Ok_0.path@)),
//@ loopstart 0
    let ghost vb = fs@;
//@ loopafter 0
    proof { assert forall|m: u64, q: Seq<Name>| m <= committed_number && #[trigger] under(list_dir(self.path@, m), q) implies !there(fs@, q) || !there(v0, list_dir(self.path@, m)) by {
        if there(v0, list_dir(self.path@, m)) { assert(child(self.path@, list_dir(self.path@, m))); } } }
//@end
}
/// t is no complete record (or cannot be read)
pub open spec fn passed(fs: Fs, d: Seq<Name>, t: u128) -> bool { !fs.healthy() || valid(fs@.files[at(d, t)]) is None }
pub open spec fn newest_readable(fs: Fs, d: Seq<Name>, t: u128) -> bool { fs@.files.contains_key(at(d, t)) && valid(fs@.files[at(d, t)]) is Some && (fs.healthy() ==> newest(fs@, d, t)) }
}
}
fn main() {}
