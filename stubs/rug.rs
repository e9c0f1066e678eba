//! Stand-in for rug's Integer (GMP is not available offline): non-negative big integers, schoolbook arithmetic.
use std::cmp::Ordering;
use std::ops::*;
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Integer { d: Vec<u32> } // little endian, no trailing zero
pub mod integer { #[derive(Clone, Copy)] pub enum Order { Lsf, LsfLe, LsfBe, Msf, MsfLe, MsfBe } }
pub mod ops { pub trait Pow<R> { type Output; fn pow(self, r: R) -> Self::Output; } }
use integer::Order;
fn trim(mut d: Vec<u32>) -> Integer { while d.last() == Some(&0) { d.pop(); } Integer { d } }
impl Integer {
    pub const ZERO: Integer = Integer { d: Vec::new() };
    pub fn new() -> Self { Integer { d: vec![] } }
    fn cmp_(&self, o: &Integer) -> Ordering {
        self.d.len().cmp(&o.d.len()).then_with(|| self.d.iter().rev().cmp(o.d.iter().rev()))
    }
    fn add_(&self, o: &Integer) -> Integer {
        let n = self.d.len().max(o.d.len());
        let mut r = Vec::with_capacity(n + 1);
        let mut c = 0u64;
        for i in 0..n { c += *self.d.get(i).unwrap_or(&0) as u64 + *o.d.get(i).unwrap_or(&0) as u64; r.push(c as u32); c >>= 32; }
        r.push(c as u32);
        trim(r)
    }
    fn sub_(&self, o: &Integer) -> Integer {
        assert!(self.cmp_(o) != Ordering::Less, "stand-in Integer cannot be negative");
        let mut r = Vec::with_capacity(self.d.len());
        let mut b = 0i64;
        for i in 0..self.d.len() { let mut v = self.d[i] as i64 - *o.d.get(i).unwrap_or(&0) as i64 - b; if v < 0 { v += 1 << 32; b = 1 } else { b = 0 } r.push(v as u32); }
        trim(r)
    }
    fn mul_(&self, o: &Integer) -> Integer {
        let mut r = vec![0u32; self.d.len() + o.d.len() + 1];
        for i in 0..self.d.len() { let mut c = 0u64; for j in 0..o.d.len() { c += self.d[i] as u64 * o.d[j] as u64 + r[i + j] as u64; r[i + j] = c as u32; c >>= 32; } let mut k = i + o.d.len(); while c > 0 { c += r[k] as u64; r[k] = c as u32; c >>= 32; k += 1; } }
        trim(r)
    }
    fn divrem_(&self, o: &Integer) -> (Integer, Integer) {
        assert!(!o.d.is_empty(), "division by zero");
        if self.cmp_(o) == Ordering::Less { return (Integer::new(), self.clone()); }
        if o.d.len() == 1 { let m = o.d[0] as u64; let mut q = vec![0u32; self.d.len()]; let mut r = 0u64; for i in (0..self.d.len()).rev() { let c = (r << 32) | self.d[i] as u64; q[i] = (c / m) as u32; r = c % m; } return (trim(q), Integer::from(r)); }
        // Knuth D
        let s = o.d.last().unwrap().leading_zeros();
        let v = o.shl_(s); let mut u = self.shl_(s).d; if u.len() == self.d.len() { u.push(0); }
        let n = v.d.len(); let m = u.len() - n; let mut q = vec![0u32; m];
        let b = 1u64 << 32;
        for j in (0..m).rev() {
            let num = ((u[j + n] as u64) << 32) | u[j + n - 1] as u64;
            let mut qh = num / v.d[n - 1] as u64; let mut rh = num % v.d[n - 1] as u64;
            while qh >= b || qh * v.d[n - 2] as u64 > (rh << 32 | u[j + n - 2] as u64) { qh -= 1; rh += v.d[n - 1] as u64; if rh >= b { break; } }
            let mut br = 0i64; let mut c = 0u64;
            for i in 0..n { let p = qh * v.d[i] as u64 + c; c = p >> 32; let t = u[i + j] as i64 - br - (p & 0xffff_ffff) as i64; u[i + j] = t as u32; br = if t < 0 { 1 } else { 0 }; }
            let t = u[j + n] as i64 - br - c as i64; u[j + n] = t as u32;
            if t < 0 { qh -= 1; let mut c = 0u64; for i in 0..n { c += u[i + j] as u64 + v.d[i] as u64; u[i + j] = c as u32; c >>= 32; } u[j + n] = (u[j + n] as u64 + c) as u32; }
            q[j] = qh as u32;
        }
        u.truncate(n);
        (trim(q), trim(u).shr_(s))
    }
    fn shl_(&self, s: u32) -> Integer { if s == 0 { return self.clone(); } let mut r = Vec::new(); let mut c = 0u32; for &x in &self.d { r.push((x << s) | c); c = x >> (32 - s); } r.push(c); trim(r) }
    fn shr_(&self, s: u32) -> Integer { if s == 0 { return self.clone(); } let mut r = vec![0; self.d.len()]; for i in 0..self.d.len() { r[i] = (self.d[i] >> s) | (self.d.get(i + 1).map(|x| x << (32 - s)).unwrap_or(0)); } trim(r) }
    pub fn from_digits<T: AsRef<[u8]> + ?Sized>(b: &T, o: Order) -> Integer {
        let mut v = b.as_ref().to_vec();
        if matches!(o, Order::Msf | Order::MsfBe | Order::MsfLe) { v.reverse(); }
        trim(v.chunks(4).map(|c| { let mut a = [0u8; 4]; a[..c.len()].copy_from_slice(c); u32::from_le_bytes(a) }).collect())
    }
    pub fn to_digits<T: From<u8>>(&self, o: Order) -> Vec<T> {
        let mut v: Vec<u8> = self.d.iter().flat_map(|x| x.to_le_bytes()).collect();
        while v.last() == Some(&0) { v.pop(); }
        if matches!(o, Order::Msf | Order::MsfBe | Order::MsfLe) { v.reverse(); }
        v.into_iter().map(T::from).collect()
    }
    pub fn significant_bits(&self) -> u32 { match self.d.last() { None => 0, Some(t) => self.d.len() as u32 * 32 - t.leading_zeros() } }
    pub fn abs_ref(&self) -> &Integer { self }
    pub fn is_zero(&self) -> bool { self.d.is_empty() }
    pub fn pow_mod(self, e: &Integer, m: &Integer) -> Result<Integer, Integer> {
        if m.d.is_empty() { return Err(self); }
        let mut r = Integer::from(1u64) % m.clone(); let mut b = self % m.clone();
        for i in 0..e.significant_bits() { if e.d[(i / 32) as usize] >> (i % 32) & 1 == 1 { r = r.mul_(&b).divrem_(m).1; } b = b.mul_(&b).divrem_(m).1; }
        Ok(r)
    }
}
impl From<u64> for Integer { fn from(x: u64) -> Integer { trim(vec![x as u32, (x >> 32) as u32]) } }
impl From<i32> for Integer { fn from(x: i32) -> Integer { assert!(x >= 0); Integer::from(x as u64) } }
impl From<u32> for Integer { fn from(x: u32) -> Integer { Integer::from(x as u64) } }
impl<'a> From<&'a Integer> for Integer { fn from(x: &Integer) -> Integer { x.clone() } }
impl PartialOrd for Integer { fn partial_cmp(&self, o: &Integer) -> Option<Ordering> { Some(self.cmp_(o)) } }
impl Ord for Integer { fn cmp(&self, o: &Integer) -> Ordering { self.cmp_(o) } }
macro_rules! prim { ($($t:ty),*) => { $(
    impl PartialEq<$t> for Integer { fn eq(&self, o: &$t) -> bool { *self == Integer::from(*o as u64) } }
    impl PartialOrd<$t> for Integer { fn partial_cmp(&self, o: &$t) -> Option<Ordering> { Some(self.cmp_(&Integer::from(*o as u64))) } }
    impl Add<$t> for Integer { type Output = Integer; fn add(self, o: $t) -> Integer { self.add_(&Integer::from(o as u64)) } }
    impl Sub<$t> for Integer { type Output = Integer; fn sub(self, o: $t) -> Integer { self.sub_(&Integer::from(o as u64)) } }
    impl Mul<$t> for Integer { type Output = Integer; fn mul(self, o: $t) -> Integer { self.mul_(&Integer::from(o as u64)) } }
    impl Mul<Integer> for $t { type Output = Integer; fn mul(self, o: Integer) -> Integer { o.mul_(&Integer::from(self as u64)) } }
    impl Div<$t> for Integer { type Output = Integer; fn div(self, o: $t) -> Integer { self.divrem_(&Integer::from(o as u64)).0 } }
    impl Rem<$t> for Integer { type Output = Integer; fn rem(self, o: $t) -> Integer { self.divrem_(&Integer::from(o as u64)).1 } }
    impl ops::Pow<$t> for Integer { type Output = Integer; fn pow(self, e: $t) -> Integer { let mut r = Integer::from(1u64); for _ in 0..e { r = r.mul_(&self) } r } }
)* } }
prim!(u64, i32, u32);
impl Add for Integer { type Output = Integer; fn add(self, o: Integer) -> Integer { self.add_(&o) } }
impl Sub for Integer { type Output = Integer; fn sub(self, o: Integer) -> Integer { self.sub_(&o) } }
impl Mul for Integer { type Output = Integer; fn mul(self, o: Integer) -> Integer { self.mul_(&o) } }
impl Div for Integer { type Output = Integer; fn div(self, o: Integer) -> Integer { self.divrem_(&o).0 } }
impl Rem for Integer { type Output = Integer; fn rem(self, o: Integer) -> Integer { self.divrem_(&o).1 } }
impl BitAnd for Integer { type Output = Integer; fn bitand(self, o: Integer) -> Integer { trim(self.d.iter().zip(o.d.iter()).map(|(a, b)| a & b).collect()) } }
macro_rules! sat { ($($t:ty),*) => { $( impl az::SaturatingCast<$t> for Integer { fn saturating_cast(self) -> $t { if self.significant_bits() > <$t>::BITS { <$t>::MAX } else { let mut r = 0u64; for (i, x) in self.d.iter().enumerate() { r |= (*x as u64) << (32 * i); } r as $t } } } )* } }
sat!(u64, usize, u32);
