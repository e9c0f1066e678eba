//@include head.rs
global size_of usize == 8;
use vstd::arithmetic::power::*;
use vstd::arithmetic::mul::*;
use vstd::arithmetic::div_mod::*;
pub mod sh {
use super::*;
//@include num.rs
//@include bytes.rs
}
use sh::*;
pub mod big {
use super::*;
#[verifier::external_body] pub struct Integer { x: u8 }
pub uninterp spec fn int_(n: nat) -> Integer;
impl Integer { pub uninterp spec fn view(&self) -> nat; }
pub broadcast axiom fn axiom_int_make(n: nat) ensures (#[trigger] int_(n))@ == n;
pub broadcast axiom fn axiom_int_ext(a: Integer) ensures int_(#[trigger] a@) == a;
}
use big::*;
// C21, the power of numbers of any size (EIP-198, priced by EIP-2565).
pub mod pc {
use super::*;
use super::sh::*;
use super::big::*;
use super::big::Integer;
broadcast use {num_axioms, bytes_axioms, axiom_int_make, axiom_int_ext};
//@include pc.rs
// ---- shim: integers without a bound ----
pub enum Order { MsfBe }
pub trait Top: Sized { spec fn val(self) -> nat; spec fn top() -> nat; }
impl Top for usize { open spec fn val(self) -> nat { self as nat } open spec fn top() -> nat { usize::MAX as nat } }
impl Top for u64 { open spec fn val(self) -> nat { self as nat } open spec fn top() -> nat { u64::MAX as nat } }
pub open spec fn nmin(a: nat, b: nat) -> nat { if a < b { a } else { b } }
pub open spec fn nmax(a: nat, b: nat) -> nat { if a > b { a } else { b } }
pub trait Nat: Sized { spec fn n(self) -> nat; }
impl Nat for u64 { open spec fn n(self) -> nat { self as nat } }
impl Integer {
    #[verifier::external_body] pub fn clone(&self) -> (r: Integer) ensures r == *self { unimplemented!() }
    #[verifier::external_body] pub fn zero_() -> (r: Integer) ensures r@ == 0 { unimplemented!() }
    #[verifier::external_body] pub fn of_(x: u64) -> (r: Integer) ensures r@ == x { unimplemented!() }
    #[verifier::external_body] pub fn from_digits(s: &[u8], o: Order) -> (r: Integer) ensures r@ == be(s@) { unimplemented!() }
    #[verifier::external_body] pub fn to_digits<T>(&self, o: Order) -> (r: Vec<u8>) ensures be(r@) == self@, r@.len() > 0 ==> r@[0] != 0 { unimplemented!() }
    #[verifier::external_body] pub fn saturating_as<T: Top>(self) -> (r: T) ensures r.val() == nmin(self@, T::top()) { unimplemented!() }
    #[verifier::external_body] pub fn max(self, o: Integer) -> (r: Integer) ensures r@ == nmax(self@, o@) { unimplemented!() }
    #[verifier::external_body] pub fn pow(self, k: u32) -> (r: Integer) ensures r@ == pow(self@ as int, k as nat) { unimplemented!() }
    #[verifier::external_body] pub fn significant_bits(&self) -> (r: u32) requires self@ < pow(256, 32) ensures r == bits(self@), r <= 256 { unimplemented!() }
    #[verifier::external_body] pub fn bitand(self, o: Integer) -> (r: Integer) requires o@ + 1 == pow(256, 32) ensures r@ == self@ % (pow(256, 32) as nat) { unimplemented!() }
    #[verifier::external_body] pub fn pow_mod(self, e: &Integer, m: &Integer) -> (r: Result<Integer, PrecompileFailure>) requires m@ > 0 ensures r is Ok, r.unwrap()@ == pow(self@ as int, e@) % (m@ as int) { unimplemented!() }
}
impl PartialEqSpecImpl<i32> for Integer { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &i32) -> bool { self@ == *o } }
impl PartialEq<i32> for Integer { #[verifier::external_body] fn eq(&self, o: &i32) -> bool { unimplemented!() } }
impl PartialEqSpecImpl for Integer { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Integer) -> bool { self@ == o@ } }
impl PartialEq for Integer { #[verifier::external_body] fn eq(&self, o: &Integer) -> bool { unimplemented!() } }
impl PartialOrdSpecImpl<i32> for Integer { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &i32) -> Option<core::cmp::Ordering> { if self@ < *o { Some(core::cmp::Ordering::Less) } else if self@ > *o { Some(core::cmp::Ordering::Greater) } else { Some(core::cmp::Ordering::Equal) } } }
impl PartialOrd<i32> for Integer { #[verifier::external_body] fn partial_cmp(&self, o: &i32) -> Option<core::cmp::Ordering> { unimplemented!() } }
impl AddSpecImpl<i32> for Integer { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, o: i32) -> bool { o >= 0 } open spec fn add_spec(self, o: i32) -> Integer { int_((self@ + o) as nat) } }
impl core::ops::Add<i32> for Integer { type Output = Integer; #[verifier::external_body] fn add(self, o: i32) -> Integer { unimplemented!() } }
impl SubSpecImpl<i32> for Integer { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, o: i32) -> bool { 0 <= o <= self@ } open spec fn sub_spec(self, o: i32) -> Integer { int_((self@ - o) as nat) } }
impl core::ops::Sub<i32> for Integer { type Output = Integer; #[verifier::external_body] fn sub(self, o: i32) -> Integer { unimplemented!() } }
impl DivSpecImpl<i32> for Integer { open spec fn obeys_div_spec() -> bool { true } open spec fn div_req(self, o: i32) -> bool { o > 0 } open spec fn div_spec(self, o: i32) -> Integer { int_(self@ / (o as nat)) } }
impl core::ops::Div<i32> for Integer { type Output = Integer; #[verifier::external_body] fn div(self, o: i32) -> Integer { unimplemented!() } }
impl DivSpecImpl<u64> for Integer { open spec fn obeys_div_spec() -> bool { true } open spec fn div_req(self, o: u64) -> bool { o > 0 } open spec fn div_spec(self, o: u64) -> Integer { int_(self@ / (o as nat)) } }
impl core::ops::Div<u64> for Integer { type Output = Integer; #[verifier::external_body] fn div(self, o: u64) -> Integer { unimplemented!() } }
impl MulSpecImpl<u64> for Integer { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, o: u64) -> bool { true } open spec fn mul_spec(self, o: u64) -> Integer { int_(self@ * (o as nat)) } }
impl core::ops::Mul<u64> for Integer { type Output = Integer; #[verifier::external_body] fn mul(self, o: u64) -> Integer { unimplemented!() } }
impl MulSpecImpl<Integer> for i32 { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, o: Integer) -> bool { self >= 0 } open spec fn mul_spec(self, o: Integer) -> Integer { int_((self as nat) * o@) } }
impl core::ops::Mul<Integer> for i32 { type Output = Integer; #[verifier::external_body] fn mul(self, o: Integer) -> Integer { unimplemented!() } }
impl RemSpecImpl<Integer> for Integer { open spec fn obeys_rem_spec() -> bool { true } open spec fn rem_req(self, o: Integer) -> bool { o@ > 0 } open spec fn rem_spec(self, o: Integer) -> Integer { int_(self@ % o@) } }
impl core::ops::Rem for Integer { type Output = Integer; #[verifier::external_body] fn rem(self, o: Integer) -> Integer { unimplemented!() } }

// ---- numbers and their bytes ----
/// the number written in these bytes, the most significant first
pub open spec fn be(s: Seq<u8>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { be(s.drop_last()) * 256 + s.last() as nat } }
pub open spec fn to_be(n: nat, len: nat) -> Seq<u8> decreases len { if len == 0 { Seq::empty() } else { to_be(n / 256, (len - 1) as nat).push((n % 256) as u8) } }
pub open spec fn bits(n: nat) -> nat decreases n { if n == 0 { 0 } else { 1 + bits(n / 2) } }
/// `n` bytes from `at` on, zero beyond the end
pub open spec fn part(s: Seq<u8>, at: nat, n: nat) -> Seq<u8> { Seq::new(n, |i: int| if at + i < s.len() { s[at + i] } else { 0u8 }) }
pub proof fn be_unique(s: Seq<u8>) ensures s == to_be(be(s), s.len()) decreases s.len() {
    if s.len() > 0 { let d = s.drop_last(); be_unique(d); assert(s =~= d.push(s.last())); assert(be(s) / 256 == be(d) && be(s) % 256 == s.last() as nat) by (nonlinear_arith) requires be(s) == be(d) * 256 + s.last() as nat, 0 <= s.last() < 256; } else { assert(s =~= Seq::empty()); } }
pub proof fn be_bound(s: Seq<u8>) ensures be(s) < pow(256, s.len()) decreases s.len() {
    reveal(pow);
    if s.len() > 0 { be_bound(s.drop_last()); lemma_pow1(256); assert(pow(256, s.len()) == 256 * pow(256, (s.len() - 1) as nat)); assert(be(s) == be(s.drop_last()) * 256 + s.last() as nat); } }
pub proof fn be_floor(s: Seq<u8>) requires s.len() > 0, s[0] != 0 ensures be(s) >= pow(256, (s.len() - 1) as nat) decreases s.len() {
    reveal(pow);
    if s.len() > 1 { be_floor(s.drop_last()); assert(pow(256, (s.len() - 1) as nat) == 256 * pow(256, (s.len() - 2) as nat)); } else { assert(be(s) == be(s.drop_last()) * 256 + s.last() as nat); } }
pub proof fn be_zeros(n: nat, s: Seq<u8>) ensures be(zeros(n) + s) == be(s) decreases s.len(), n {
    let t = zeros(n) + s;
    if s.len() > 0 { assert(t.drop_last() =~= zeros(n) + s.drop_last()); be_zeros(n, s.drop_last()); }
    else if n > 0 { assert(t.drop_last() =~= zeros((n - 1) as nat) + s); be_zeros((n - 1) as nat, s); }
    else { assert(t =~= s); } }
pub proof fn be_ff(s: Seq<u8>) requires forall|i: int| 0 <= i < s.len() ==> s[i] == 255 ensures be(s) + 1 == pow(256, s.len()) decreases s.len() {
    reveal(pow);
    if s.len() > 0 { be_ff(s.drop_last()); assert(pow(256, s.len()) == 256 * pow(256, (s.len() - 1) as nat)); } }
pub proof fn pow_mono(a: nat, b: nat) requires a <= b ensures pow(256, a) <= pow(256, b) decreases b {
    reveal(pow);
    if a < b { pow_mono(a, (b - 1) as nat); assert(pow(256, b) == 256 * pow(256, (b - 1) as nat)); lemma_pow_positive(256, (b - 1) as nat); } }

// ---- what EIP-198 and EIP-2565 say ----
pub open spec fn field(s: Seq<u8>, k: nat) -> nat { be(part(s, 32 * k, 32)) }
pub open spec fn body(s: Seq<u8>) -> Seq<u8> { if s.len() > 96 { s.skip(96) } else { Seq::empty() } }
pub open spec fn number(s: Seq<u8>, at: nat, n: nat) -> nat { be(part(body(s), at, n)) }
/// the first 32 bytes of the exponent
pub open spec fn head(s: Seq<u8>) -> nat { number(s, field(s, 0), nmin(field(s, 1), 32)) }
pub open spec fn high_bit(n: nat) -> nat { if n == 0 { 0 } else { (bits(n) - 1) as nat } }
pub open spec fn iterations(s: Seq<u8>) -> nat { nmax(1, high_bit(head(s)) + if field(s, 1) <= 32 { 0 } else { (8 * (field(s, 1) - 32)) as nat }) }
pub open spec fn complexity(s: Seq<u8>) -> nat { let w = (nmax(field(s, 0), field(s, 2)) + 7) / 8; w * w }
pub open spec fn modexp_gas(s: Seq<u8>) -> nat { nmax(200, complexity(s) * iterations(s) / 3) }
pub open spec fn modexp(s: Seq<u8>) -> Seq<u8> {
    let (b, e, m) = (field(s, 0), field(s, 1), field(s, 2));
    if b == 0 && m == 0 { Seq::empty() } else {
        let (base, exp, modulo) = (number(s, 0, b), number(s, b, e), number(s, b + e, m));
        to_be(if modulo == 0 { 0 } else { (pow(base as int, exp) % (modulo as int)) as nat }, m) } }
/// prices up to this are exact; a higher one is never below it
pub open spec fn most() -> nat { 0x1000_0000_0000_0000 }
#[verifier::external_body] pub fn extend_zero_(v: &mut Vec<u8>, n: usize) ensures final(v)@ == old(v)@ + zeros(n as nat) { unimplemented!() }
pub fn nothing_(s: &[u8]) -> (r: &[u8]) ensures r@.len() == 0 { vstd::slice::slice_subrange(s, 0, 0) }
//@fn core/executor/src/precompiles/modexp.rs :: fn get_data
//@ ret r
//@ sub /Integer::ZERO/ => /Integer::zero_()/ 0
//@ sub /Integer::from\((Self::MIN_GAS|\w+)\)/ => /Integer::of_(\1)/ 0
//@ sub /(\w+)\.reserve_exact\(\w+\);/ => // 0
//@ sub /(\w+)\.extend\(std::iter::repeat\(0\)\.take\(([^;]*)\)\);/ => /let n_ = \2; extend_zero_(&mut \1, n_);/ 0
//@ sub /(\w+)\[(\w+)\.\.(\w+)\]\.to_vec\(\)/ => /to_vec_(&\1[\2..\3])/ 0
//@ spec
    requires data@.len() < 0x1000_0000_0000, size < 0x8000_0000_0000_0000,
    ensures r@ == be(part(data@, start as nat, size as nat)),
//@ sub /Integer::from_digits\(&padded/ => /proof { assert(padded@ =~= part(data@, at_ as nat, size as nat)); } Integer::from_digits(&padded/
//@ start
    let ghost at_ = start;
//@end
//@fn core/executor/src/precompiles/modexp.rs :: fn multiplication_complexity
//@ ret r
//@ sub /Integer::ZERO/ => /Integer::zero_()/ 0
//@ sub /Integer::from\((Self::MIN_GAS|\w+)\)/ => /Integer::of_(\1)/ 0
//@ sub /(\w+)\.reserve_exact\(\w+\);/ => // 0
//@ sub /(\w+)\.extend\(std::iter::repeat\(0\)\.take\(([^;]*)\)\);/ => /let n_ = \2; extend_zero_(&mut \1, n_);/ 0
//@ sub /(\w+)\[(\w+)\.\.(\w+)\]\.to_vec\(\)/ => /to_vec_(&\1[\2..\3])/ 0
//@ spec
    ensures r@ == ({ let w = (nmax(b_size@, m_size@) + 7) / 8; w * w }),
//@ sub /a\.pow\(2\)/ => /proof { let w = (nmax(b_size@, m_size@) + 7) / 8; lemma_pow0(w as int); lemma_pow1(w as int); reveal(pow); assert(pow(w as int, 2) == w * pow(w as int, 1)); } a.pow(2)/ 0
//@end
//@fn core/executor/src/precompiles/modexp.rs :: fn iterator_count
//@ ret r
//@ sub /Integer::ZERO/ => /Integer::zero_()/ 0
//@ sub /Integer::from\((Self::MIN_GAS|\w+)\)/ => /Integer::of_(\1)/ 0
//@ sub /(\w+)\.reserve_exact\(\w+\);/ => // 0
//@ sub /(\w+)\.extend\(std::iter::repeat\(0\)\.take\(([^;]*)\)\);/ => /let n_ = \2; extend_zero_(&mut \1, n_);/ 0
//@ sub /(\w+)\[(\w+)\.\.(\w+)\]\.to_vec\(\)/ => /to_vec_(&\1[\2..\3])/ 0
//@ spec
    requires exponent@ < pow(256, 32),
    ensures ({ let full = nmax(1, high_bit(exponent@) + if e_size@ <= 32 { 0 } else { (8 * (e_size@ - 32)) as nat }); r == nmin(full, u64::MAX as nat) }),
//@ sub /let (\w+) = Integer::from_digits\(&bytes/ => /proof { be_ff(bytes@); lemma_small_mod(exponent@, pow(256, 32) as nat); } let \1 = Integer::from_digits(&bytes/ 0
//@ start
    proof { assert(exponent@ > 0 ==> bits(exponent@) >= 1); assert(bits(0) == 0); }
//@end
//@item core/executor/src/precompiles/modexp.rs :: struct LargeNumber
//@ sub /\n(\s+)(\w+:)/ => /\n\1pub \2/
//@end
impl LargeNumber {
//@fn core/executor/src/precompiles/modexp.rs :: impl LargeNumber/fn parse
//@ ret r
//@ sub /Integer::ZERO/ => /Integer::zero_()/ 0
//@ sub /Integer::from\((Self::MIN_GAS|\w+)\)/ => /Integer::of_(\1)/ 0
//@ sub /(\w+)\.reserve_exact\(\w+\);/ => // 0
//@ sub /(\w+)\.extend\(std::iter::repeat\(0\)\.take\(([^;]*)\)\);/ => /let n_ = \2; extend_zero_(&mut \1, n_);/ 0
//@ sub /(\w+)\[(\w+)\.\.(\w+)\]\.to_vec\(\)/ => /to_vec_(&\1[\2..\3])/ 0
//@ sub /&input\[0\.\.0\]/ => /nothing_(input)/ 0
//@ spec
    requires input@.len() < 0x1000_0000_0000, base_size == field(input@, 0), modulo_size == field(input@, 2), base_size < 0x1000_0000_0000_0000, modulo_size < 0x1000_0000_0000_0000, field(input@, 1) < 0x4000_0000_0000_0000,
    ensures r is Ok, ({ let n = r.unwrap(); let s = input@; n.m_size == modulo_size && n.base@ == number(s, 0, field(s, 0)) && n.exponent@ == number(s, field(s, 0), field(s, 1)) && n.modulo@ == number(s, field(s, 0) + field(s, 1), field(s, 2)) }),
//@ sub /Ok\(LargeNumber/ => /proof { assert(data@ =~= body(input@)); } Ok(LargeNumber/ 0
//@end
//@fn core/executor/src/precompiles/modexp.rs :: impl LargeNumber/fn calc
//@ ret r
//@ sub /Integer::ZERO/ => /Integer::zero_()/ 0
//@ sub /Integer::from\((Self::MIN_GAS|\w+)\)/ => /Integer::of_(\1)/ 0
//@ sub /(\w+)\.reserve_exact\(\w+\);/ => // 0
//@ sub /(\w+)\.extend\(std::iter::repeat\(0\)\.take\(([^;]*)\)\);/ => /let n_ = \2; extend_zero_(&mut \1, n_);/ 0
//@ sub /(\w+)\[(\w+)\.\.(\w+)\]\.to_vec\(\)/ => /to_vec_(&\1[\2..\3])/ 0
//@ sub /err!\(\)/ => /Err(out_of_gas_())/
//@ sub /\s*\.map_err\(\|_\w*\| err!\([^()]*\)\)/ => //
//@ sub /err!\([^()]*\)/ => /Err(other_())/
//@ sub /-> Result<\(PrecompileOutput, u64\), PrecompileFailure>/ => /-> Out/
//@ sub /Integer::from\(self\.base\.abs_ref\(\)\)/ => /self.base/ 0
//@ spec
    ensures r is Ok, r.unwrap()@ == if self.modulo@ == 0 { 0 } else { (pow(self.base@ as int, self.exponent@) % (self.modulo@ as int)) as nat },
//@ start
    proof { if self.base@ == 1 { lemma1_pow(self.exponent@); } }
//@end
}
pub struct ModExp;
impl ModExp {
//@item core/executor/src/precompiles/modexp.rs :: impl PrecompileContract for ModExp/const ADDRESS
//@ sub /const ADDRESS: H160 = ([^;]+);/ => /pub fn ADDRESS_() -> (r: H160) ensures r@ == eip(5) { \1 }/
//@end
//@item core/executor/src/precompiles/modexp.rs :: impl PrecompileContract for ModExp/const MIN_GAS
//@ sub /\bconst MIN_GAS/ => /pub const MIN_GAS/
//@end
//@fn core/executor/src/precompiles/modexp.rs :: impl PrecompileContract for ModExp/fn gas_cost
//@ ret r
//@ sub /Integer::ZERO/ => /Integer::zero_()/ 0
//@ sub /Integer::from\((Self::MIN_GAS|\w+)\)/ => /Integer::of_(\1)/ 0
//@ sub /(\w+)\.reserve_exact\(\w+\);/ => // 0
//@ sub /(\w+)\.extend\(std::iter::repeat\(0\)\.take\(([^;]*)\)\);/ => /let n_ = \2; extend_zero_(&mut \1, n_);/ 0
//@ sub /(\w+)\[(\w+)\.\.(\w+)\]\.to_vec\(\)/ => /to_vec_(&\1[\2..\3])/ 0
//@ sub /&input\[0\.\.0\]/ => /nothing_(input)/ 0
//@ spec
    requires input@.len() < 0x1000_0000_0000,
    ensures modexp_gas(input@) <= most() ==> r == modexp_gas(input@), modexp_gas(input@) > most() ==> r > most(),
//@ sub /let exponent = if/ => /proof { assert(data@ =~= body(input@)); } let exponent = if/ 0
//@ sub /let iterator_count = iterator_count\(/ => /proof { be_bound(part(data@, nmin(field(input@, 0), usize::MAX as nat), nmin(field(input@, 1), 32))); pow_mono(nmin(field(input@, 1), 32), 32); assert(part(data@, nmin(field(input@, 0), usize::MAX as nat), nmin(field(input@, 1), 32)) =~= part(body(input@), field(input@, 0), nmin(field(input@, 1), 32))); } let iterator_count = iterator_count(/ 0
//@ sub /let dynamic_gas = / => /proof { some_complexity(input@); saturated(complexity(input@), iterations(input@)); } let dynamic_gas = / 0
//@ start
    proof { zero_gas(input@); }
//@end
//@fn core/executor/src/precompiles/modexp.rs :: impl PrecompileContract for ModExp/fn exec_fn
//@ ret r
//@ sub /Integer::ZERO/ => /Integer::zero_()/ 0
//@ sub /Integer::from\((Self::MIN_GAS|\w+)\)/ => /Integer::of_(\1)/ 0
//@ sub /(\w+)\.reserve_exact\(\w+\);/ => // 0
//@ sub /(\w+)\.extend\(std::iter::repeat\(0\)\.take\(([^;]*)\)\);/ => /let n_ = \2; extend_zero_(&mut \1, n_);/ 0
//@ sub /(\w+)\[(\w+)\.\.(\w+)\]\.to_vec\(\)/ => /to_vec_(&\1[\2..\3])/ 0
//@ sub /err!\(\)/ => /Err(out_of_gas_())/
//@ sub /\s*\.map_err\(\|_\w*\| err!\([^()]*\)\)/ => //
//@ sub /err!\([^()]*\)/ => /Err(other_())/
//@ sub /-> Result<\(PrecompileOutput, u64\), PrecompileFailure>/ => /-> Out/
//@ spec
    requires input@.len() < 0x1000_0000_0000, gas_limit matches Some(l) && l <= most(),
    ensures paid(gas_limit, answer(r)) == priced(gas_limit, modexp_gas(input@), Some(modexp(input@))),
//@ sub /let base_size = / => /proof { sizes(input@); } let base_size = / 0
//@ sub /let mut res = (\w+)\.calc\(\)\?/ => /let ghost m_ = large_number.modulo@; proof { be_bound(part(body(input@), field(input@, 0) + field(input@, 1), field(input@, 2))); } let mut res = \1.calc()?/ 0
//@ sub /let res_len = res\.len\(\);/ => /let res_len = res.len(); proof { let n = be(res@); if res@.len() > 0 { be_floor(res@); if res@.len() > m_size { pow_mono(m_size as nat, (res@.len() - 1) as nat); } } if m_ > 0 { lemma_mod_bound(pow(large_number.base@ as int, large_number.exponent@), m_ as int); } be_unique(res@); be_zeros((m_size - res@.len()) as nat, res@); be_unique(zeros((m_size - res@.len()) as nat) + res@); }/ 0
//@ sub /(\w+)\.append\(&mut (\w+)\);/ => /let ghost res_ = \2@; \1.append(&mut \2); proof { assert(\1@ =~= zeros((m_size - res_.len()) as nat) + res_); }/ 0
//@end
}
pub proof fn zero_gas(s: Seq<u8>) ensures field(s, 0) == 0 && field(s, 2) == 0 ==> modexp_gas(s) == 200 {
    if field(s, 0) == 0 && field(s, 2) == 0 { assert(complexity(s) == 0); assert(0 * iterations(s) == 0) by (nonlinear_arith); } }
pub proof fn some_complexity(s: Seq<u8>) ensures field(s, 0) > 0 || field(s, 2) > 0 ==> complexity(s) >= 1 {
    let w = (nmax(field(s, 0), field(s, 2)) + 7) / 8; assert(w >= 1 ==> w * w >= 1) by (nonlinear_arith); }
/// a count that does not fit costs more than any limit
pub proof fn saturated(c: nat, n: nat) requires c >= 1 ensures ({ let k = nmin(n, u64::MAX as nat); if c * n / 3 <= most() { c * k == c * n } else { c * k / 3 > most() } }) {
    let k = nmin(n, u64::MAX as nat);
    if n > u64::MAX { assert(c * n >= n) by (nonlinear_arith) requires c >= 1; assert(c * k >= k) by (nonlinear_arith) requires c >= 1; } }
/// what is affordable is small
pub proof fn sizes(s: Seq<u8>) ensures modexp_gas(s) <= most() ==> ((field(s, 0) == 0 && field(s, 2) == 0) || (field(s, 0) < 0x10_0000_0000 && field(s, 2) < 0x10_0000_0000 && field(s, 1) < 0x4000_0000_0000_0000)) {
    if modexp_gas(s) <= most() && !(field(s, 0) == 0 && field(s, 2) == 0) {
        some_complexity(s);
        let (c, n) = (complexity(s), iterations(s));
        let w = (nmax(field(s, 0), field(s, 2)) + 7) / 8;
        assert(c * n >= n) by (nonlinear_arith) requires c >= 1;
        assert(c * n >= c) by (nonlinear_arith) requires n >= 1;
        if w >= 0x1_0000_0000 { assert(w * w >= 0x1_0000_0000 * 0x1_0000_0000) by (nonlinear_arith) requires w >= 0x1_0000_0000; } } }
}
fn main() {}
}
