//@include head.rs
global size_of usize == 8;
pub mod sh {
use super::*;
//@include num.rs
//@include bytes.rs
}
use sh::*;
// C21, BLAKE2b's compression (EIP-152, RFC 7693).
pub mod pc {
use super::*;
use super::sh::*;
broadcast use {num_axioms, bytes_axioms};
//@include pc.rs
pub uninterp spec fn rotr(x: u64, n: int) -> u64;
pub assume_specification[ u64::rotate_right ](x: u64, n: u32) -> (r: u64) ensures r == rotr(x, n as int);
/// the number of these bytes, the least significant first
pub open spec fn le(s: Seq<u8>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { s[0] as nat + 256 * le(s.skip(1)) } }
pub open spec fn le64(s: Seq<u8>) -> u64 { le(s) as u64 }
pub uninterp spec fn bytes64(x: u64) -> Seq<u8>;
#[verifier::external_body] pub fn from_le_(x: [u8; 8]) -> (r: u64) ensures r == le64(x@) { unimplemented!() }
#[verifier::external_body] pub fn to_le_(x: &u64) -> (r: [u8; 8]) ensures r@ == bytes64(*x) { unimplemented!() }
pub open spec fn be32(s: Seq<u8>) -> nat { (s[0] as nat) * 0x100_0000 + (s[1] as nat) * 0x1_0000 + (s[2] as nat) * 0x100 + s[3] as nat }
#[verifier::external_body] pub fn from_be_(x: [u8; 4]) -> (r: u32) ensures r == be32(x@) { unimplemented!() }
pub open spec fn wadd(a: u64, b: u64) -> u64 { (if a + b > u64::MAX { a + b - 0x1_0000_0000_0000_0000 } else { a + b }) as u64 }
// ---- RFC 7693, section 3 ----
pub open spec fn mix(v: Seq<u64>, a: int, b: int, c: int, d: int, x: u64, y: u64) -> Seq<u64> {
    let v = v.update(a, wadd(wadd(v[a], v[b]), x));
    let v = v.update(d, rotr(v[d] ^ v[a], 32));
    let v = v.update(c, wadd(v[c], v[d]));
    let v = v.update(b, rotr(v[b] ^ v[c], 24));
    let v = v.update(a, wadd(wadd(v[a], v[b]), y));
    let v = v.update(d, rotr(v[d] ^ v[a], 16));
    let v = v.update(c, wadd(v[c], v[d]));
    v.update(b, rotr(v[b] ^ v[c], 63)) }
pub open spec fn sigma(r: int, k: int) -> int {
    (if r == 0 { seq![0int, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15] }
    else if r == 1 { seq![14int, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3] }
    else if r == 2 { seq![11int, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4] }
    else if r == 3 { seq![7int, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8] }
    else if r == 4 { seq![9int, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13] }
    else if r == 5 { seq![2int, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9] }
    else if r == 6 { seq![12int, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11] }
    else if r == 7 { seq![13int, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10] }
    else if r == 8 { seq![6int, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5] }
    else { seq![10int, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0] })[k] }
pub open spec fn round(v: Seq<u64>, m: Seq<u64>, i: int) -> Seq<u64> {
    let s = i % 10;
    let v = mix(v, 0, 4, 8, 12, m[sigma(s, 0)], m[sigma(s, 1)]);
    let v = mix(v, 1, 5, 9, 13, m[sigma(s, 2)], m[sigma(s, 3)]);
    let v = mix(v, 2, 6, 10, 14, m[sigma(s, 4)], m[sigma(s, 5)]);
    let v = mix(v, 3, 7, 11, 15, m[sigma(s, 6)], m[sigma(s, 7)]);
    let v = mix(v, 0, 5, 10, 15, m[sigma(s, 8)], m[sigma(s, 9)]);
    let v = mix(v, 1, 6, 11, 12, m[sigma(s, 10)], m[sigma(s, 11)]);
    let v = mix(v, 2, 7, 8, 13, m[sigma(s, 12)], m[sigma(s, 13)]);
    mix(v, 3, 4, 9, 14, m[sigma(s, 14)], m[sigma(s, 15)]) }
pub open spec fn run(v: Seq<u64>, m: Seq<u64>, n: nat) -> Seq<u64> decreases n { if n == 0 { v } else { round(run(v, m, (n - 1) as nat), m, n - 1) } }
pub open spec fn iv() -> Seq<u64> { seq![0x6a09e667f3bcc908u64, 0xbb67ae8584caa73b, 0x3c6ef372fe94f82b, 0xa54ff53a5f1d36f1, 0x510e527fade682d1, 0x9b05688c2b3e6c1f, 0x1f83d9abfb41bd6b, 0x5be0cd19137e2179] }
pub open spec fn start(h: Seq<u64>, t0: u64, t1: u64, f: bool) -> Seq<u64> {
    let v = h + iv();
    let v = v.update(12, v[12] ^ t0);
    let v = v.update(13, v[13] ^ t1);
    if f { v.update(14, !v[14]) } else { v } }
pub open spec fn compressed(h: Seq<u64>, m: Seq<u64>, t0: u64, t1: u64, f: bool, rounds: nat) -> Seq<u64> {
    let v = run(start(h, t0, t1, f), m, rounds);
    Seq::new(8, |i: int| h[i] ^ (v[i] ^ v[i + 8])) }
// ---- EIP-152 ----
pub open spec fn nums(s: Seq<u8>, at: int, n: nat) -> Seq<u64> { Seq::new(n, |i: int| le64(s.subrange(at + 8 * i, at + 8 * i + 8))) }
pub open spec fn flat(v: Seq<u64>, n: nat) -> Seq<u8> decreases n { if n == 0 { Seq::empty() } else { flat(v, (n - 1) as nat) + bytes64(v[n - 1]) } }
pub open spec fn blake2_f(s: Seq<u8>) -> Option<Seq<u8>> {
    if s.len() != 213 || s[212] > 1 { None } else { Some(flat(compressed(nums(s, 4, 8), nums(s, 68, 16), le64(s.subrange(196, 204)), le64(s.subrange(204, 212)), s[212] == 1, be32(s.subrange(0, 4))), 8)) } }
pub broadcast axiom fn axiom_bytes64_len(x: u64) ensures (#[trigger] bytes64(x)).len() == 8;
pub proof fn wadd_is(a: u64, b: u64) ensures a.wrapping_add(b) == wadd(a, b) {}
//@item core/executor/src/precompiles/blake2_f.rs :: const SIGMA
//@ sub /\bconst SIGMA/ => /pub const SIGMA/
//@end
//@item core/executor/src/precompiles/blake2_f.rs :: const IV
//@ sub /\bconst IV/ => /pub const IV/
//@end
pub proof fn table(r: int, s: [usize; 16]) requires 0 <= r < 10, s == SIGMA[r] ensures s[0] as int == sigma(r, 0), s[1] as int == sigma(r, 1), s[2] as int == sigma(r, 2), s[3] as int == sigma(r, 3), s[4] as int == sigma(r, 4), s[5] as int == sigma(r, 5), s[6] as int == sigma(r, 6), s[7] as int == sigma(r, 7), s[8] as int == sigma(r, 8), s[9] as int == sigma(r, 9), s[10] as int == sigma(r, 10), s[11] as int == sigma(r, 11), s[12] as int == sigma(r, 12), s[13] as int == sigma(r, 13), s[14] as int == sigma(r, 14), s[15] as int == sigma(r, 15) {
    if r == 0 { assert(s == SIGMA[0]); } else if r == 1 { assert(s == SIGMA[1]); } else if r == 2 { assert(s == SIGMA[2]); } else if r == 3 { assert(s == SIGMA[3]); } else if r == 4 { assert(s == SIGMA[4]); } else if r == 5 { assert(s == SIGMA[5]); } else if r == 6 { assert(s == SIGMA[6]); } else if r == 7 { assert(s == SIGMA[7]); } else if r == 8 { assert(s == SIGMA[8]); } else if r == 9 { assert(s == SIGMA[9]); } }
//@fn core/executor/src/precompiles/blake2_f.rs :: fn parse_round
//@ ret r
//@ sub /u32::from_be_bytes\(/ => /from_be_(/ 0
//@ sub /u64::from_le_bytes\(/ => /from_le_(/ 0
//@ sub /&(\w+)\.to_le_bytes\(\)/ => /&to_le_(\1)/ 0
//@ spec
    requires input@.len() >= 4, ensures r == be32(input@.subrange(0, 4)),
//@end
//@fn core/executor/src/precompiles/blake2_f.rs :: fn parse_h
//@ ret r
//@ sub /u32::from_be_bytes\(/ => /from_be_(/ 0
//@ sub /u64::from_le_bytes\(/ => /from_le_(/ 0
//@ sub /&(\w+)\.to_le_bytes\(\)/ => /&to_le_(\1)/ 0
//@ spec
    requires input@.len() == 213, ensures r@ =~= nums(input@, 4, 8),
//@ loop 0
    invariant buf@ == input@.subrange(4, 68), input@.len() == 213, forall|k: int| 0 <= k < i ==> h@[k] == le64(input@.subrange(4 + 8 * k, 12 + 8 * k)),
//@ loopend 0
    proof { assert(buf@.subrange(8 * i, 8 * i + 8) =~= input@.subrange(4 + 8 * i, 12 + 8 * i)); }
//@end
//@fn core/executor/src/precompiles/blake2_f.rs :: fn parse_m
//@ ret r
//@ sub /u32::from_be_bytes\(/ => /from_be_(/ 0
//@ sub /u64::from_le_bytes\(/ => /from_le_(/ 0
//@ sub /&(\w+)\.to_le_bytes\(\)/ => /&to_le_(\1)/ 0
//@ spec
    requires input@.len() == 213, ensures r@ =~= nums(input@, 68, 16),
//@ loop 0
    invariant buf@ == input@.subrange(68, 196), input@.len() == 213, forall|k: int| 0 <= k < i ==> m@[k] == le64(input@.subrange(68 + 8 * k, 76 + 8 * k)),
//@ loopend 0
    proof { assert(buf@.subrange(8 * i, 8 * i + 8) =~= input@.subrange(68 + 8 * i, 76 + 8 * i)); }
//@end
//@fn core/executor/src/precompiles/blake2_f.rs :: fn parse_t
//@ ret r
//@ sub /u32::from_be_bytes\(/ => /from_be_(/ 0
//@ sub /u64::from_le_bytes\(/ => /from_le_(/ 0
//@ sub /&(\w+)\.to_le_bytes\(\)/ => /&to_le_(\1)/ 0
//@ spec
    requires input@.len() == 213, ensures r.0 == le64(input@.subrange(196, 204)), r.1 == le64(input@.subrange(204, 212)),
//@end
//@fn core/executor/src/precompiles/blake2_f.rs :: fn g
//@ spec
    requires old(v)@.len() == 16, a < 16, b < 16, c < 16, d < 16
    ensures final(v)@ == mix(old(v)@, a as int, b as int, c as int, d as int, x, y),
//@end
//@fn core/executor/src/precompiles/blake2_f.rs :: fn compress
//@ isolate
//@ sub /let s = &SIGMA\[i % 10\];/ => /let s = &SIGMA[i % 10]; proof { table(i as int % 10, *s); }/ 0
//@ loop 0
    invariant v@.len() == 16, v@ == run(start(old(h)@, t[0], t[1], f), m@, i as nat), *h == *old(h),
//@ loopbefore 0
    proof { assert(v@ =~= start(old(h)@, t[0], t[1], f)); }
//@ loop 1
    invariant v@.len() == 16, v@ == run(start(old(h)@, t[0], t[1], f), m@, rounds as nat), forall|k: int| 0 <= k < i ==> #[trigger] h@[k] == old(h)@[k] ^ (v@[k] ^ v@[k + 8]), forall|k: int| i <= k < 8 ==> h@[k] == old(h)@[k],
//@ spec
    requires rounds < 0x1_0000_0000
    ensures final(h)@ =~= compressed(old(h)@, m@, t[0], t[1], f, rounds as nat),
//@end
pub struct Blake2F;
impl Blake2F {
//@item core/executor/src/precompiles/blake2_f.rs :: impl PrecompileContract for Blake2F/const ADDRESS
//@ sub /const ADDRESS: H160 = ([^;]+);/ => /pub fn ADDRESS_() -> (r: H160) ensures r@ == eip(9) { \1 }/
//@end
//@item core/executor/src/precompiles/blake2_f.rs :: impl Blake2F/const GAS_PER_ROUND
//@ sub /\bconst / => /pub const /
//@end
//@item core/executor/src/precompiles/blake2_f.rs :: impl Blake2F/const INPUT_LEN
//@ sub /\bconst / => /pub const /
//@end
//@fn core/executor/src/precompiles/blake2_f.rs :: impl PrecompileContract for Blake2F/fn gas_cost
//@ ret r
//@ spec
    requires input@.len() >= 4, ensures r == be32(input@.subrange(0, 4)),
//@end
//@fn core/executor/src/precompiles/blake2_f.rs :: impl PrecompileContract for Blake2F/fn exec_fn
//@ ret r
//@ sub /err!\(\)/ => /Err(out_of_gas_())/
//@ sub /err!\([^()]*\)/ => /Err(other_())/
//@ sub /-> Result<\(PrecompileOutput, u64\), PrecompileFailure>/ => /-> Out/
//@ sub /&(\w+)\.to_le_bytes\(\)/ => /&to_le_(\1)/ 0
//@ sub /(\w+)\[(\w+) \* 8\.\.\((\w+) \+ 1\) \* 8\]\.copy/ => /let lo_ = \2 * 8; let hi_ = (\3 + 1) * 8; \1[lo_..hi_].copy/ 0
//@ sub /(\w+)\.to_vec\(\)/ => /to_vec_(&\1)/
//@ spec
    ensures input@.len() != 213 ==> answer(r) is None, input@.len() == 213 ==> paid(gas_limit, answer(r)) == priced(gas_limit, be32(input@.subrange(0, 4)), blake2_f(input@)),
//@ loop 0
    invariant res@.len() == 64, res@.subrange(0, 8 * i) == flat(h@, i as nat),
//@ loopend 0
    proof { assert(res@.subrange(0, 8 * i + 8) =~= res@.subrange(0, 8 * i) + bytes64(h@[i as int])); }
//@ loopbefore 0
    proof { assert(res@.subrange(0, 0) =~= flat(h@, 0)); }
//@ loopafter 0
    proof { assert(res@ =~= res@.subrange(0, 64)); }
//@end
}
}
fn main() {}
}
