// ---- trusted shims for ethereum_types' integers: their mathematical meaning, nothing about their representation ----
pub open spec fn pow64() -> nat { 0x1_0000_0000_0000_0000 }
pub open spec fn pow256() -> nat { pow64() * pow64() * pow64() * pow64() }

#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct U256 { x: [u64; 4] }
impl U256 { pub uninterp spec fn view(&self) -> nat; }
pub uninterp spec fn u256(n: nat) -> U256;
pub broadcast axiom fn axiom_u256_range(a: U256) ensures (#[trigger] a@) < pow256();
pub broadcast axiom fn axiom_u256_make(n: nat) requires n < pow256() ensures (#[trigger] u256(n))@ == n;
pub broadcast axiom fn axiom_u256_ext(a: U256) ensures u256(#[trigger] a@) == a;
pub proof fn u256_eq(a: U256, b: U256) requires a@ == b@ ensures a == b { axiom_u256_ext(a); axiom_u256_ext(b); }

#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct U64 { x: [u64; 1] }
impl U64 { pub uninterp spec fn view(&self) -> nat; }
pub uninterp spec fn u64_(n: nat) -> U64;
pub broadcast axiom fn axiom_u64_range(a: U64) ensures (#[trigger] a@) < pow64();
pub broadcast axiom fn axiom_u64_make(n: nat) requires n < pow64() ensures (#[trigger] u64_(n))@ == n;
pub broadcast axiom fn axiom_u64_ext(a: U64) ensures u64_(#[trigger] a@) == a;

pub broadcast group num_axioms { axiom_u256_range, axiom_u256_make, axiom_u256_ext, axiom_u64_range, axiom_u64_make, axiom_u64_ext }

impl FromSpecImpl<u64> for U256 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(x: u64) -> U256 { u256(x as nat) } }
impl From<u64> for U256 { #[verifier::external_body] fn from(x: u64) -> U256 { unimplemented!() } }
impl FromSpecImpl<u64> for U64 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(x: u64) -> U64 { u64_(x as nat) } }
impl From<u64> for U64 { #[verifier::external_body] fn from(x: u64) -> U64 { unimplemented!() } }
impl AddSpecImpl<U256> for U256 { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, o: U256) -> bool { self@ + o@ < pow256() } open spec fn add_spec(self, o: U256) -> U256 { u256(self@ + o@) } }
impl core::ops::Add for U256 { type Output = U256; #[verifier::external_body] fn add(self, o: U256) -> U256 { unimplemented!() } }
impl SubSpecImpl<U256> for U256 { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, o: U256) -> bool { self@ >= o@ } open spec fn sub_spec(self, o: U256) -> U256 { u256((self@ - o@) as nat) } }
impl core::ops::Sub for U256 { type Output = U256; #[verifier::external_body] fn sub(self, o: U256) -> U256 { unimplemented!() } }
impl MulSpecImpl<U256> for U256 { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, o: U256) -> bool { self@ * o@ < pow256() } open spec fn mul_spec(self, o: U256) -> U256 { u256(self@ * o@) } }
impl core::ops::Mul for U256 { type Output = U256; #[verifier::external_body] fn mul(self, o: U256) -> U256 { unimplemented!() } }
impl AddSpecImpl<U64> for U64 { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, o: U64) -> bool { self@ + o@ < pow64() } open spec fn add_spec(self, o: U64) -> U64 { u64_(self@ + o@) } }
impl core::ops::Add for U64 { type Output = U64; #[verifier::external_body] fn add(self, o: U64) -> U64 { unimplemented!() } }
impl SubSpecImpl<U64> for U64 { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, o: U64) -> bool { self@ >= o@ } open spec fn sub_spec(self, o: U64) -> U64 { u64_((self@ - o@) as nat) } }
impl core::ops::Sub for U64 { type Output = U64; #[verifier::external_body] fn sub(self, o: U64) -> U64 { unimplemented!() } }

impl U256 {
    #[verifier::external_body] pub fn zero() -> (r: U256) ensures r@ == 0 { unimplemented!() }
    #[verifier::external_body] pub fn one() -> (r: U256) ensures r@ == 1 { unimplemented!() }
    #[verifier::external_body] pub fn max_value() -> (r: U256) ensures r@ == pow256() - 1 { unimplemented!() }
    #[verifier::external_body] pub fn is_zero(&self) -> (r: bool) ensures r == (self@ == 0) { unimplemented!() }
    #[verifier::external_body] pub fn checked_mul(self, o: U256) -> (r: Option<U256>) ensures r == (if self@ * o@ < pow256() { Some(u256(self@ * o@)) } else { None::<U256> }) { unimplemented!() }
    #[verifier::external_body] pub fn checked_add(self, o: U256) -> (r: Option<U256>) ensures r == (if self@ + o@ < pow256() { Some(u256(self@ + o@)) } else { None::<U256> }) { unimplemented!() }
    #[verifier::external_body] pub fn checked_sub(self, o: U256) -> (r: Option<U256>) ensures r == (if self@ >= o@ { Some(u256((self@ - o@) as nat)) } else { None::<U256> }) { unimplemented!() }
    #[verifier::external_body] pub fn saturating_add(self, o: U256) -> (r: U256) ensures r@ == (if self@ + o@ < pow256() { self@ + o@ } else { (pow256() - 1) as nat }) { unimplemented!() }
    #[verifier::external_body] pub fn saturating_sub(self, o: U256) -> (r: U256) ensures r@ == (if self@ >= o@ { (self@ - o@) as nat } else { 0 }) { unimplemented!() }
    #[verifier::external_body] pub fn saturating_mul(self, o: U256) -> (r: U256) ensures r@ == (if self@ * o@ < pow256() { self@ * o@ } else { (pow256() - 1) as nat }) { unimplemented!() }
    #[verifier::external_body] pub fn low_u64(&self) -> (r: u64) ensures r as nat == self@ % pow64() { unimplemented!() }
    #[verifier::external_body] pub fn as_u64(&self) -> (r: u64) requires self@ < pow64() ensures r as nat == self@ { unimplemented!() }
    #[verifier::external_body] pub fn max(self, o: U256) -> (r: U256) ensures r@ == (if self@ >= o@ { self@ } else { o@ }) { unimplemented!() }
    #[verifier::external_body] pub fn min(self, o: U256) -> (r: U256) ensures r@ == (if self@ <= o@ { self@ } else { o@ }) { unimplemented!() }
}
impl U64 {
    #[verifier::external_body] pub fn zero() -> (r: U64) ensures r@ == 0 { unimplemented!() }
    #[verifier::external_body] pub fn one() -> (r: U64) ensures r@ == 1 { unimplemented!() }
    #[verifier::external_body] pub fn is_zero(&self) -> (r: bool) ensures r == (self@ == 0) { unimplemented!() }
    #[verifier::external_body] pub fn low_u64(&self) -> (r: u64) ensures r as nat == self@ { unimplemented!() }
    #[verifier::external_body] pub fn as_u64(&self) -> (r: u64) ensures r as nat == self@ { unimplemented!() }
    #[verifier::external_body] pub fn saturating_add(self, o: U64) -> (r: U64) ensures r@ == (if self@ + o@ < pow64() { self@ + o@ } else { (pow64() - 1) as nat }) { unimplemented!() }
    #[verifier::external_body] pub fn saturating_sub(self, o: U64) -> (r: U64) ensures r@ == (if self@ >= o@ { (self@ - o@) as nat } else { 0 }) { unimplemented!() }
    #[verifier::external_body] pub fn low_u32(&self) -> (r: u32) ensures r as nat == self@ % 0x1_0000_0000 { unimplemented!() }
    #[verifier::external_body] pub fn max(self, o: U64) -> (r: U64) ensures r@ == (if self@ >= o@ { self@ } else { o@ }) { unimplemented!() }
    #[verifier::external_body] pub fn min(self, o: U64) -> (r: U64) ensures r@ == (if self@ <= o@ { self@ } else { o@ }) { unimplemented!() }
}
impl PartialEqSpecImpl for U256 { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &U256) -> bool { *self == *o } }
impl PartialEq for U256 { #[verifier::external_body] fn eq(&self, o: &U256) -> bool { unimplemented!() } }
impl Eq for U256 {}
impl PartialOrdSpecImpl for U256 { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &U256) -> Option<core::cmp::Ordering> { if self@ < o@ { Some(core::cmp::Ordering::Less) } else if self@ > o@ { Some(core::cmp::Ordering::Greater) } else { Some(core::cmp::Ordering::Equal) } } }
impl PartialOrd for U256 {
    #[verifier::external_body] fn partial_cmp(&self, o: &U256) -> Option<core::cmp::Ordering> { unimplemented!() }
}
impl PartialEqSpecImpl for U64 { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &U64) -> bool { *self == *o } }
impl PartialEq for U64 { #[verifier::external_body] fn eq(&self, o: &U64) -> bool { unimplemented!() } }
impl Eq for U64 {}
impl PartialOrdSpecImpl for U64 { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &U64) -> Option<core::cmp::Ordering> { if self@ < o@ { Some(core::cmp::Ordering::Less) } else if self@ > o@ { Some(core::cmp::Ordering::Greater) } else { Some(core::cmp::Ordering::Equal) } } }
impl PartialOrd for U64 {
    #[verifier::external_body] fn partial_cmp(&self, o: &U64) -> Option<core::cmp::Ordering> { unimplemented!() }
}
