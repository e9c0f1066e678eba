pub type Epoch = u64;
pub enum SystemScriptError { InvalidEpochEnd(u64), FutureEpoch, PastEpoch, MetadataVersionDiscontinuity, DecodeEpochSegment(u8), MissingRecord(u64) }
impl FromSpecImpl<SystemScriptError> for StoreError { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(x: SystemScriptError) -> StoreError { arbitrary() } }
impl From<SystemScriptError> for StoreError { #[verifier::external_body] fn from(x: SystemScriptError) -> StoreError { unimplemented!() } }
//@item core/executor/src/system_contract/metadata/segment.rs :: struct EpochSegment
//@ sub /\bseg:/ => /pub seg:/
//@end
#[verifier::external_body] pub fn last_of(v: &Vec<u64>) -> (r: &u64) requires v@.len() > 0 ensures *r == v@.last() { unimplemented!() }
#[verifier::external_body] pub fn windows2(v: &Vec<u64>) -> (r: Vec<(usize, [u64; 2])>)
    ensures r@.len() == (if v@.len() < 2 { 0 } else { v@.len() - 1 }) as int, forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0 == i && r@[i].1@ == seq![v@[i], v@[i + 1]] { unimplemented!() }
pub uninterp spec fn be64s(s: Seq<u64>) -> Seq<u8>;
pub uninterp spec fn of_be64s(b: Seq<u8>) -> Seq<u64>;
pub broadcast axiom fn be64s_law(s: Seq<u64>) ensures of_be64s(#[trigger] be64s(s)) == s, be64s(s).len() == 8 * s.len(), s.len() > 0 && s[0] == 0 ==> be64s(s)[0] == 0;
#[verifier::external_body] pub fn to_be64s(v: &Vec<u64>) -> (r: Vec<u8>) ensures r@ == be64s(v@) { unimplemented!() }
#[verifier::external_body] pub fn from_be64s(v: &Vec<u8>) -> (r: Vec<u64>) requires v@.len() % 8 == 0 ensures r@ == of_be64s(v@) { unimplemented!() }
/// boundaries: from zero on, strictly increasing
pub open spec fn boundaries(s: Seq<u64>) -> bool { s.len() > 0 && s[0] == 0 && forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] < s[j] }
/// the epoch of a block number
pub open spec fn in_epoch(s: Seq<u64>, n: u64, e: int) -> bool { 0 <= e && e + 1 < s.len() && s[e] < n <= s[e + 1] }
proof fn one_epoch(s: Seq<u64>, n: u64, e: int, f: int) requires boundaries(s), in_epoch(s, n, e), in_epoch(s, n, f) ensures e == f { if e < f { assert(e + 1 == f || s[e + 1] < s[f]); } if f < e { assert(f + 1 == e || s[f + 1] < s[e]); } }
impl EpochSegment {
//@fn core/executor/src/system_contract/metadata/segment.rs :: impl EpochSegment/fn new
//@ ret r
//@ sub /-> Self/ => /-> EpochSegment/
//@ spec
    ensures r.seg@ == seq![0u64], boundaries(r.seg@),
//@end
//@fn core/executor/src/system_contract/metadata/segment.rs :: impl EpochSegment/fn append_endpoint
//@ ret r
//@ sub /self\.seg\.last\(\)\.unwrap\(\)/ => /last_of(&self.seg)/
//@ sub /ProtocolResult</ => /StoreResult</
//@ spec
    requires boundaries(old(self).seg@),
    ensures boundaries(final(self).seg@), r is Ok == (endpoint > old(self).seg@.last()), r is Ok ==> final(self).seg@ == old(self).seg@.push(endpoint), r is Err ==> final(self).seg@ == old(self).seg@,
//@end
//@fn core/executor/src/system_contract/metadata/segment.rs :: impl EpochSegment/fn get_epoch_number
//@ ret r
//@ sub /self\.seg\.windows\(2\)\.enumerate\(\)/ => /windows2(&self.seg)/
//@ sub /ProtocolResult</ => /StoreResult</
//@ spec
    requires boundaries(self.seg@),
    ensures r matches Ok(e) ==> in_epoch(self.seg@, block_number, e as int), r is Ok == (0 < block_number <= self.seg@.last()),
//@ loop 0 it
    invariant boundaries(self.seg@), it.seq().len() == self.seg@.len() - 1, forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i]).0 == i && it.seq()[i].1@ == seq![self.seg@[i], self.seg@[i + 1]],
        block_number > 0 ==> self.seg@[it.index@ as int] < block_number,
//@ loopstart 0
    proof { assert(s@[0] == self.seg@[e as int] && s@[1] == self.seg@[e + 1]); }
//@end
//@fn core/executor/src/system_contract/metadata/segment.rs :: impl EpochSegment/fn get_latest_epoch_number
//@ ret r
//@ spec
    ensures r == (if self.seg@.len() < 2 { 0 } else { self.seg@.len() - 2 }),
//@end
//@fn core/executor/src/system_contract/metadata/segment.rs :: impl EpochSegment/fn is_empty
//@ ret r
//@ spec
    ensures r == (self.seg@.len() == 1),
//@end
//@fn core/executor/src/system_contract/metadata/segment.rs :: impl EpochSegment/fn last_block_number
//@ ret r
//@ sub /self\.seg\.last\(\)\.unwrap\(\)/ => /last_of(&self.seg)/
//@ spec
    requires self.seg@.len() > 0,
    ensures r == self.seg@.last(),
//@end
//@fn core/executor/src/system_contract/metadata/segment.rs :: impl EpochSegment/fn is_last_block_in_epoch
//@ ret r
//@ sub /self\.seg\.iter\(\)\.any\(\|e\| block_number == \*e\)/ => /self.seg.contains(&block_number)/
//@ sub /self\.seg\.contains\(/ => /has(&self.seg, /
//@ spec
    ensures r == self.seg@.contains(block_number),
//@end
//@fn core/executor/src/system_contract/metadata/segment.rs :: impl EpochSegment/fn as_bytes
//@ ret r
//@ sub /self\.seg\.iter\(\)\.flat_map\(\|s\| s\.to_be_bytes\(\)\)\.collect\(\)/ => /to_be64s(&self.seg)/
//@ spec
    ensures r@ == be64s(self.seg@),
//@end
//@fn core/executor/src/system_contract/metadata/segment.rs :: impl EpochSegment/fn from_raw
//@ ret r
//@ sub /-> ProtocolResult<Self>/ => /-> StoreResult<EpochSegment>/
//@ sub /DecodeEpochSegment\(\s*"[^"]*"\.to_string\(\),?\s*\)/ => /DecodeEpochSegment(0)/
//@ sub /raw\s*\.chunks\((?:U64_BYTES_LEN|8)\)\s*\.map\(\|r\| \{\s*let mut buf = \[0u8; 8\];\s*buf\.copy_from_slice\(r\);\s*u64::from_be_bytes\(buf\)\s*\}\)\s*\.collect\(\)/ => /from_be64s(&raw)/
//@ spec
    ensures r matches Ok(s) ==> s.seg@ == of_be64s(raw@), forall|s: Seq<u64>| s.len() > 0 && s[0] == 0 && raw@ == #[trigger] be64s(s) ==> (r matches Ok(x) && x.seg@ == s),
//@ start
    broadcast use be64s_law;
//@end
}
#[verifier::external_body] pub fn has(v: &Vec<u64>, x: &u64) -> (r: bool) ensures r == v@.contains(*x) { unimplemented!() }
