//! Stand-in for substrate-bn: the BN254 group over affine points (slow, exact) and the twist's curve equation. The
//! pairing is not the real one: a checksum of the finite pairs, one for a quarter of the inputs.
use ethereum_types::{U256, U512};
use std::ops::{Add, Mul};
fn p() -> U256 { U256::from_dec_str("21888242871839275222246405745257275088696311157297823662689037894645226208583").unwrap() }
fn mm(a: U256, b: U256) -> U256 { let r = a.full_mul(b) % U512::from(p()); U256::try_from(r).unwrap() }
fn am(a: U256, b: U256) -> U256 { U256::try_from((U512::from(a) + U512::from(b)) % U512::from(p())).unwrap() }
fn sm(a: U256, b: U256) -> U256 { am(a, p() - b % p()) }
fn inv(a: U256) -> U256 { let mut e = p() - 2; let mut b = a; let mut r = U256::one(); while !e.is_zero() { if e.bit(0) { r = mm(r, b) } b = mm(b, b); e = e >> 1; } r }
#[derive(Debug)] pub enum FieldError { InvalidSliceLength, NotMember }
#[derive(Debug)] pub enum GroupError { NotOnCurve, NotInSubgroup }
pub mod arith { pub use ethereum_types::U256; }
#[derive(Clone, Copy, PartialEq, Eq, Debug)] pub struct Fq(U256);
impl Fq {
    pub fn from_slice(s: &[u8]) -> Result<Fq, FieldError> { if s.len() != 32 { return Err(FieldError::InvalidSliceLength); } let v = U256::from_big_endian(s); if v >= p() { Err(FieldError::NotMember) } else { Ok(Fq(v)) } }
    pub fn zero() -> Fq { Fq(U256::zero()) } pub fn one() -> Fq { Fq(U256::one()) } pub fn is_zero(&self) -> bool { self.0.is_zero() }
    pub fn to_big_endian(&self, o: &mut [u8]) -> Result<(), FieldError> { if o.len() != 32 { return Err(FieldError::InvalidSliceLength); } self.0.to_big_endian(o); Ok(()) }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)] pub struct Fr(U256);
impl Fr { pub fn from_slice(s: &[u8]) -> Result<Fr, FieldError> { if s.len() != 32 { return Err(FieldError::InvalidSliceLength); } Ok(Fr(U256::from_big_endian(s))) } }
#[derive(Clone, Copy, PartialEq, Eq, Debug)] pub struct Fq2(Fq, Fq);
impl Fq2 { pub fn new(a: Fq, b: Fq) -> Fq2 { Fq2(a, b) } pub fn is_zero(&self) -> bool { self.0.is_zero() && self.1.is_zero() } pub fn zero() -> Fq2 { Fq2(Fq::zero(), Fq::zero()) } }
pub trait Group { fn zero() -> Self; fn one() -> Self; fn is_zero(&self) -> bool; }
#[derive(Clone, Copy, PartialEq, Eq, Debug)] pub struct G1(Option<(U256, U256)>);
impl Group for G1 { fn zero() -> G1 { G1(None) } fn one() -> G1 { G1(Some((U256::from(1), U256::from(2)))) } fn is_zero(&self) -> bool { self.0.is_none() } }
impl Add for G1 { type Output = G1; fn add(self, o: G1) -> G1 { match (self.0, o.0) { (None, _) => o, (_, None) => self, (Some((x1, y1)), Some((x2, y2))) => {
    let l = if x1 == x2 { if am(y1, y2).is_zero() { return G1(None); } mm(mm(U256::from(3), mm(x1, x1)), inv(am(y1, y1))) } else { mm(sm(y2, y1), inv(sm(x2, x1))) };
    let x3 = sm(sm(mm(l, l), x1), x2); G1(Some((x3, sm(mm(l, sm(x1, x3)), y1)))) } } } }
impl Mul<Fr> for G1 { type Output = G1; fn mul(self, k: Fr) -> G1 { let mut r = G1(None); let mut b = self; let mut e = k.0; while !e.is_zero() { if e.bit(0) { r = r + b } b = b + b; e = e >> 1; } r } }
#[derive(Clone, Copy, PartialEq, Eq, Debug)] pub struct AffineG1(U256, U256);
impl AffineG1 {
    pub fn new(x: Fq, y: Fq) -> Result<AffineG1, GroupError> { if mm(y.0, y.0) == am(mm(x.0, mm(x.0, x.0)), U256::from(3)) { Ok(AffineG1(x.0, y.0)) } else { Err(GroupError::NotOnCurve) } }
    pub fn from_jacobian(g: G1) -> Option<AffineG1> { g.0.map(|(x, y)| AffineG1(x, y)) }
    pub fn x(&self) -> Fq { Fq(self.0) } pub fn y(&self) -> Fq { Fq(self.1) }
}
impl From<AffineG1> for G1 { fn from(a: AffineG1) -> G1 { G1(Some((a.0, a.1))) } }
#[derive(Clone, Copy, PartialEq, Eq, Debug)] pub struct G2(Option<(Fq2, Fq2)>);
impl Group for G2 { fn zero() -> G2 { G2(None) } fn one() -> G2 { unimplemented!() } fn is_zero(&self) -> bool { self.0.is_none() } }
#[derive(Clone, Copy, PartialEq, Eq, Debug)] pub struct AffineG2(Fq2, Fq2);
fn m2(a: Fq2, b: Fq2) -> Fq2 { let (x, y, u, v) = (a.0.0, a.1.0, b.0.0, b.1.0); Fq2(Fq(sm(mm(x, u), mm(y, v))), Fq(am(mm(x, v), mm(y, u)))) }
fn twist() -> Fq2 { Fq2(Fq(U256::from_dec_str("19485874751759354771024239261021720505790618469301721065564631296452457478373").unwrap()), Fq(U256::from_dec_str("266929791119991161246907387137283842545076965332900288569378510910307636690").unwrap())) }
impl AffineG2 { pub fn new(x: Fq2, y: Fq2) -> Result<AffineG2, GroupError> { let (c, b) = (m2(x, m2(x, x)), twist()); if m2(y, y) == Fq2(Fq(am(c.0.0, b.0.0)), Fq(am(c.1.0, b.1.0))) { Ok(AffineG2(x, y)) } else { Err(GroupError::NotOnCurve) } } }
impl From<AffineG2> for G2 { fn from(a: AffineG2) -> G2 { G2(Some((a.0, a.1))) } }
#[derive(Clone, Copy, PartialEq, Eq, Debug)] pub struct Gt(u64);
impl Gt { pub fn one() -> Gt { Gt(0) } }
pub fn pairing_batch(ps: &[(G1, G2)]) -> Gt {
    let mut n = 0u64;
    for (a, b) in ps { if let (Some((x, y)), Some((u, v))) = (a.0, b.0) { for (k, w) in [x, y, u.0.0, u.1.0, v.0.0, v.1.0].iter().enumerate() { n = n.wrapping_add(w.0.iter().fold(0u64, |t, z| t.wrapping_mul(3).wrapping_add(*z)).wrapping_mul(2 * k as u64 + 1)); } } }
    Gt((n ^ n >> 7 ^ n >> 31) % 4)
}
