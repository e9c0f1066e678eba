//@include head.rs
pub mod sh {
use super::*;
//@include num.rs
//@include bytes.rs
//@include rlp.rs
//@include types.rs
}
use sh::*;
// C16: the filter of a list of logs.
pub mod bl {
use super::*;
use super::sh::*;
broadcast use {num_axioms, bytes_axioms, rlp_axioms, vec_axioms};
const BLOOM_BYTE_LENGTH: usize = 256;
/// a filter as its 256 bytes
pub struct Filter(pub [u8; 256]);
impl Filter { #[verifier::external_body] pub fn zero() -> (r: Filter) ensures forall|i: int| 0 <= i < 256 ==> r.0@[i] == 0 { unimplemented!() } }
#[verifier::external_body] pub fn digest_bytes(x: &[u8]) -> (r: [u8; 32]) ensures r@ == keccak(x@)@ { unimplemented!() }
/// bit k of a filter: bit k % 8 of byte 255 - k / 8
pub open spec fn bit_at(f: Seq<u8>, k: int) -> bool { f[255 - k / 8] & (1u8 << ((k % 8) as u8)) != 0 }
/// the bit that pair i of the digest selects
pub open spec fn pick(x: Seq<u8>, i: int) -> int { let h = keccak(x)@; (h[2 * i + 1] + 256 * h[2 * i]) % 2048 }
pub open spec fn picked(x: Seq<u8>, k: int, n: int) -> bool { exists|i: int| 0 <= i < n && k == #[trigger] pick(x, i) }
/// everything a log emitted: its address and its topics
pub open spec fn in_topics(l: Log, k: int, n: int) -> bool { exists|j: int| 0 <= j < n && picked(#[trigger] l.topics@[j]@, k, 3) }
pub open spec fn in_log(l: Log, k: int) -> bool { picked(l.address@, k, 3) || in_topics(l, k, l.topics@.len() as int) }
pub open spec fn in_logs(l: Seq<Log>, k: int, n: int) -> bool { exists|j: int| 0 <= j < n && in_log(#[trigger] l[j], k) }
proof fn one_bit(v: u8, p: u8, q: u8) requires p < 8, q < 8 ensures ((v | (1u8 << p)) & (1u8 << q) != 0) == (v & (1u8 << q) != 0 || p == q) {
    assert(p < 8 && q < 8 ==> (((v | (1u8 << p)) & (1u8 << q) != 0) == (v & (1u8 << q) != 0 || p == q))) by (bit_vector);
}
proof fn no_bit(q: u8) ensures 0u8 & (1u8 << q) == 0 { assert(0u8 & (1u8 << q) == 0) by (bit_vector); }
proof fn words(a: usize, b: usize) requires a <= 255, b <= 255 ensures ((b + (a << 8usize)) as usize & 0x7FFusize) == (b + 256 * a) % 2048, a << 8usize == 256 * a, (a << 8usize) <= 65280 {
    assert(a <= 255 && b <= 255 ==> (a << 8usize) == mul(256usize, a) && (a << 8usize) <= 65280) by (bit_vector);
    let s = (b + 256 * a) as usize;
    assert(s & 0x7FFusize == s % 2048) by (bit_vector);
}
pub fn set_bit(f: &mut Filter, at: usize, with: u8) requires at < 256 ensures final(f).0@ == old(f).0@.update(at as int, old(f).0@[at as int] | with) { let v = f.0[at] | with; f.0[at] = v; }
//@fn protocol/src/types/executor.rs :: fn m3_2048
//@ sub /&mut Bloom/ => /&mut Filter/
//@ sub /Hasher::digest\((\w+)\)\.0/ => /digest_bytes(\1)/
//@ sub /for (\w+) in \[(\d+), (\d+), (\d+)\] \{/ => /for n_ in 0..3usize { let \1: usize = if n_ == 0 { \2 } else if n_ == 1 { \3 } else { \4 };/
//@ sub /(\w+)\.0\[([^\]]+)\] \|= 1 << \(?([^;]+?)\)?;/ => /set_bit(\1, \2, 1u8 << ((\3) as u8));/
//@ spec
    ensures forall|k: int| 0 <= k < 2048 ==> #[trigger] bit_at(final(bloom).0@, k) == (bit_at(old(bloom).0@, k) || picked(x@, k, 3)),
//@ nloops 1
//@ loop 0
    invariant hash@ == keccak(x@)@, hash@.len() == 32, forall|k: int| 0 <= k < 2048 ==> #[trigger] bit_at(bloom.0@, k) == (bit_at(old(bloom).0@, k) || picked(x@, k, n_ as int)),
//@ loopstart 0
    let ghost before = bloom.0@;
    proof { words(hash@[2 * n_ as int] as usize, hash@[2 * n_ as int + 1] as usize); }
//@ loopend 0
    proof {
        let b = pick(x@, n_ as int);
        assert forall|k: int| 0 <= k < 2048 implies #[trigger] bit_at(bloom.0@, k) == (bit_at(before, k) || k == b) by {
            one_bit(before[255 - k / 8], (b % 8) as u8, (k % 8) as u8);
        }
        assert forall|k: int| 0 <= k < 2048 implies #[trigger] bit_at(bloom.0@, k) == (bit_at(old(bloom).0@, k) || picked(x@, k, n_ + 1)) by {
            assert(bit_at(before, k) == (bit_at(old(bloom).0@, k) || picked(x@, k, n_ as int)));
            if picked(x@, k, n_ as int) { let i = choose|i: int| 0 <= i < n_ && k == #[trigger] pick(x@, i); assert(0 <= i < n_ + 1 && k == pick(x@, i)); }
            if k == b { assert(0 <= n_ < n_ + 1 && k == pick(x@, n_ as int)); }
            if picked(x@, k, n_ + 1) { let i = choose|i: int| 0 <= i < n_ + 1 && k == #[trigger] pick(x@, i); if i < n_ { assert(picked(x@, k, n_ as int)); } }
        }
    }
//@end
//@fn protocol/src/types/executor.rs :: fn logs_bloom
//@ ret r
//@ sub /<'a, I>\((\w+): I\) -> Bloom\s*where\s*I: Iterator<Item = &'a Log>,/ => /(\1: &Vec<Log>) -> Filter/
//@ sub /Bloom::(?:zero|default)\(\)/ => /Filter::zero()/
//@ spec
    ensures forall|k: int| 0 <= k < 2048 ==> #[trigger] bit_at(r.0@, k) == in_logs(logs@, k, logs@.len() as int),
//@ nloops 2
//@ loopbefore 0
    proof { assert forall|k: int| 0 <= k < 2048 implies #[trigger] bit_at(bloom.0@, k) == in_logs(logs@, k, 0) by { no_bit((k % 8) as u8); } }
//@ loop 0 it
    invariant it.seq().len() == logs@.len(), forall|j: int| 0 <= j < logs@.len() ==> *(#[trigger] it.seq()[j]) == logs@[j], it.index@ <= logs@.len(), forall|k: int| 0 <= k < 2048 ==> #[trigger] bit_at(bloom.0@, k) == in_logs(logs@, k, it.index@ as int),
//@ loopstart 0
    let ghost before = bloom.0@;
    let ghost at = it.index@;
    proof { assert(*log == logs@[at as int]); }
//@ loop 1 jt
    invariant jt.seq().len() == log.topics@.len(), forall|j: int| 0 <= j < log.topics@.len() ==> *(#[trigger] jt.seq()[j]) == log.topics@[j], jt.index@ <= log.topics@.len(), forall|k: int| 0 <= k < 2048 ==> #[trigger] bit_at(bloom.0@, k) == (bit_at(before, k) || picked(log.address@, k, 3) || in_topics(*log, k, jt.index@ as int)),
//@ loopend 1
    proof {
        let n = jt.index@ as int;
        assert forall|k: int| 0 <= k < 2048 implies #[trigger] in_topics(*log, k, n + 1) == (in_topics(*log, k, n) || picked(topic@, k, 3)) by {
            if in_topics(*log, k, n) { let j = choose|j: int| 0 <= j < n && picked(#[trigger] log.topics@[j]@, k, 3); assert(picked(log.topics@[j]@, k, 3)); }
            if picked(topic@, k, 3) { assert(picked(log.topics@[n]@, k, 3)); }
            if in_topics(*log, k, n + 1) { let j = choose|j: int| 0 <= j < n + 1 && picked(#[trigger] log.topics@[j]@, k, 3); if j < n { assert(picked(log.topics@[j]@, k, 3)); } }
        }
    }
//@ loopend 0
    proof {
        let n = at as int;
        assert forall|k: int| 0 <= k < 2048 implies #[trigger] bit_at(bloom.0@, k) == in_logs(logs@, k, n + 1) by {
            assert(bit_at(before, k) == in_logs(logs@, k, n));
            if in_logs(logs@, k, n) { let j = choose|j: int| 0 <= j < n && in_log(#[trigger] logs@[j], k); assert(in_log(logs@[j], k)); }
            if in_log(logs@[n], k) { assert(in_log(logs@[n], k)); }
            if in_logs(logs@, k, n + 1) { let j = choose|j: int| 0 <= j < n + 1 && in_log(#[trigger] logs@[j], k); if j < n { assert(in_log(logs@[j], k)); } }
        }
    }
//@end
/// a filter never misses what its logs emitted
proof fn never_misses(f: Seq<u8>, l: Seq<Log>, j: int)
    requires forall|k: int| 0 <= k < 2048 ==> #[trigger] bit_at(f, k) == in_logs(l, k, l.len() as int), 0 <= j < l.len(),
    ensures forall|i: int| 0 <= i < 3 ==> bit_at(f, #[trigger] pick(l[j].address@, i)), forall|t: int, i: int| 0 <= t < l[j].topics@.len() && 0 <= i < 3 ==> bit_at(f, #[trigger] pick(l[j].topics@[t]@, i)),
{
    assert forall|i: int| 0 <= i < 3 implies bit_at(f, #[trigger] pick(l[j].address@, i)) by { let k = pick(l[j].address@, i); assert(picked(l[j].address@, k, 3)); assert(in_log(l[j], k)); }
    assert forall|t: int, i: int| 0 <= t < l[j].topics@.len() && 0 <= i < 3 implies bit_at(f, #[trigger] pick(l[j].topics@[t]@, i)) by { let k = pick(l[j].topics@[t]@, i); assert(picked(l[j].topics@[t]@, k, 3)); assert(in_log(l[j], k)); }
}
/// the filter of no logs is empty
proof fn no_logs(f: Seq<u8>, l: Seq<Log>) requires l.len() == 0, forall|k: int| 0 <= k < 2048 ==> #[trigger] bit_at(f, k) == in_logs(l, k, l.len() as int) ensures forall|k: int| 0 <= k < 2048 ==> !#[trigger] bit_at(f, k) {}
}
}
fn main() {}
