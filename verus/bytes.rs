// ---- trusted shims for byte containers and fixed-size hashes: a byte sequence each ----
#[verifier::external_body]
pub struct Bytes { x: Vec<u8> }
impl Bytes {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body] pub fn as_ref(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn clone(&self) -> (r: Bytes) ensures r == *self { unimplemented!() }
    #[verifier::external_body] pub fn new() -> (r: Bytes) ensures r@.len() == 0 { unimplemented!() }
}
impl std::ops::Deref for Bytes { type Target = [u8]; #[verifier::external_body] fn deref(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() } }
pub uninterp spec fn bytes_(s: Seq<u8>) -> Bytes;
pub broadcast axiom fn axiom_bytes_make(s: Seq<u8>) ensures (#[trigger] bytes_(s))@ == s;
pub broadcast axiom fn axiom_bytes_ext(a: Bytes) ensures bytes_(#[trigger] a@) == a;
impl FromSpecImpl<Vec<u8>> for Bytes { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(x: Vec<u8>) -> Bytes { bytes_(x@) } }
impl From<Vec<u8>> for Bytes { #[verifier::external_body] fn from(x: Vec<u8>) -> Bytes { unimplemented!() } }

#[verifier::external_body]
pub struct BytesMut { x: Vec<u8> }
impl BytesMut {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn new() -> (r: BytesMut) ensures r@.len() == 0 { unimplemented!() }
    #[verifier::external_body] pub fn put_u8(&mut self, b: u8) ensures final(self)@ == old(self)@.push(b) { unimplemented!() }
    #[verifier::external_body] pub fn put(&mut self, b: BytesMut) ensures final(self)@ == old(self)@ + b@ { unimplemented!() }
    #[verifier::external_body] pub fn extend_from_slice(&mut self, b: &[u8]) ensures final(self)@ == old(self)@ + b@ { unimplemented!() }
    #[verifier::external_body] pub fn freeze(self) -> (r: Bytes) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn as_ref(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
}
impl std::ops::Deref for BytesMut { type Target = [u8]; #[verifier::external_body] fn deref(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() } }

#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct H160 { x: [u8; 20] }
impl H160 {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn zero() -> (r: H160) ensures r == h160(Seq::new(20, |i: int| 0u8)) { unimplemented!() }
    #[verifier::external_body] pub fn from_slice(s: &[u8]) -> (r: H160) requires s@.len() == 20 ensures r@ == s@ { unimplemented!() }
}
pub uninterp spec fn h160(s: Seq<u8>) -> H160;
pub broadcast axiom fn axiom_h160_len(a: H160) ensures (#[trigger] a@).len() == 20;
pub broadcast axiom fn axiom_h160_make(s: Seq<u8>) requires s.len() == 20 ensures (#[trigger] h160(s))@ == s;
pub broadcast axiom fn axiom_h160_ext(a: H160) ensures h160(#[trigger] a@) == a;

#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct H256 { x: [u8; 32] }
impl H256 {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn zero() -> (r: H256) ensures r == h256(Seq::new(32, |i: int| 0u8)) { unimplemented!() }
    #[verifier::external_body] pub fn from_slice(s: &[u8]) -> (r: H256) requires s@.len() == 32 ensures r@ == s@ { unimplemented!() }
}
pub uninterp spec fn h256(s: Seq<u8>) -> H256;
pub broadcast axiom fn axiom_h256_len(a: H256) ensures (#[trigger] a@).len() == 32;
pub broadcast axiom fn axiom_h256_make(s: Seq<u8>) requires s.len() == 32 ensures (#[trigger] h256(s))@ == s;
pub broadcast axiom fn axiom_h256_ext(a: H256) ensures h256(#[trigger] a@) == a;
pub broadcast group bytes_axioms { axiom_bytes_make, axiom_bytes_ext, axiom_h160_len, axiom_h160_make, axiom_h160_ext, axiom_h256_len, axiom_h256_make, axiom_h256_ext }
pub type Hash = H256;
pub type MerkleRoot = H256;

// ---- the digest: a function of the bytes; nothing else is assumed of it ----
pub uninterp spec fn keccak(s: Seq<u8>) -> H256;
pub trait AsBytes { spec fn bytes(&self) -> Seq<u8>; }
impl AsBytes for &[u8] { open spec fn bytes(&self) -> Seq<u8> { self@ } }
impl AsBytes for Bytes { open spec fn bytes(&self) -> Seq<u8> { self@ } }
impl AsBytes for BytesMut { open spec fn bytes(&self) -> Seq<u8> { self@ } }
impl AsBytes for Vec<u8> { open spec fn bytes(&self) -> Seq<u8> { self@ } }
impl AsBytes for &Bytes { open spec fn bytes(&self) -> Seq<u8> { (**self)@ } }
impl AsBytes for &BytesMut { open spec fn bytes(&self) -> Seq<u8> { (**self)@ } }
impl AsBytes for &Vec<u8> { open spec fn bytes(&self) -> Seq<u8> { (**self)@ } }
pub struct Hasher;
impl Hasher { #[verifier::external_body] pub fn digest<B: AsBytes>(b: B) -> (r: H256) ensures r == keccak(b.bytes()) { unimplemented!() } }

// big-endian value of a byte string
pub open spec fn be(s: Seq<u8>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { be(s.drop_last()) * 256 + s.last() as nat } }
pub proof fn be_injective(a: Seq<u8>, b: Seq<u8>) requires a.len() == b.len(), be(a) == be(b) ensures a == b decreases a.len()
{
    if a.len() > 0 {
        be_injective(a.drop_last(), b.drop_last());
        assert(a =~= a.drop_last().push(a.last()));
        assert(b =~= b.drop_last().push(b.last()));
    } else { assert(a =~= b); }
}
pub open spec fn p256(n: nat) -> nat decreases n { if n == 0 { 1 } else { 256 * p256((n - 1) as nat) } }
pub proof fn be_bound(a: Seq<u8>) ensures be(a) < p256(a.len()) decreases a.len()
{
    if a.len() > 0 {
        be_bound(a.drop_last());
        assert(be(a) < 256 * p256((a.len() - 1) as nat)) by (nonlinear_arith) requires be(a) == be(a.drop_last()) * 256 + a.last() as nat, be(a.drop_last()) < p256((a.len() - 1) as nat);
    }
}
pub proof fn p256_32() ensures p256(32) == pow256() { assert(p256(32) == pow256()) by (compute); }

impl PartialEqSpecImpl for Bytes { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Bytes) -> bool { *self == *o } }
impl PartialEq for Bytes { #[verifier::external_body] fn eq(&self, o: &Bytes) -> bool { unimplemented!() } }
impl Eq for Bytes {}
impl PartialEqSpecImpl for H160 { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &H160) -> bool { *self == *o } }
impl PartialEq for H160 { #[verifier::external_body] fn eq(&self, o: &H160) -> bool { unimplemented!() } }
impl Eq for H160 {}
impl PartialEqSpecImpl for H256 { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &H256) -> bool { *self == *o } }
impl PartialEq for H256 { #[verifier::external_body] fn eq(&self, o: &H256) -> bool { unimplemented!() } }
impl Eq for H256 {}
