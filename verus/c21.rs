//@include head.rs
global size_of usize == 8;
pub mod sh {
use super::*;
//@include num.rs
//@include bytes.rs
}
use sh::*;
// C21: what each precompiled contract charges and answers.
pub mod pc {
use super::*;
use super::sh::*;
broadcast use {num_axioms, bytes_axioms};
//@include pc.rs
pub struct Identity;
impl Identity {
//@item core/executor/src/precompiles/identity.rs :: impl PrecompileContract for Identity/const ADDRESS
//@ sub /const ADDRESS: H160 = ([^;]+);/ => /pub fn ADDRESS_() -> (r: H160) ensures r@ == eip(4) { \1 }/
//@end
//@item core/executor/src/precompiles/identity.rs :: impl PrecompileContract for Identity/const MIN_GAS
//@ sub /\bconst MIN_GAS/ => /pub const MIN_GAS/
//@end
//@fn core/executor/src/precompiles/identity.rs :: impl PrecompileContract for Identity/fn gas_cost
//@ ret r
//@ spec
    requires input@.len() < 0x1000_0000_0000, ensures r == 15 + 3 * words(input@.len()),
//@end
//@fn core/executor/src/precompiles/identity.rs :: impl PrecompileContract for Identity/fn exec_fn
//@ ret r
//@ sub /err!\(\)/ => /Err(out_of_gas_())/
//@ sub /\s*\.map_err\(\|_\w*\| err!\([^()]*\)\)\?/ => /?/
//@ sub /\s*\.map_err\(\|_\w*\| err!\([^()]*\)\)/ => //
//@ sub /Err\(err!\([^()]*\)\)/ => /Err(other_())/
//@ sub /err!\([^()]*\)/ => /Err(other_())/
//@ sub /-> Result<\(PrecompileOutput, u64\), PrecompileFailure>/ => /-> Out/
//@ sub /(\w+)\.to_vec\(\)/ => /to_vec_(&\1)/
//@ spec
    requires input@.len() < 0x1000_0000_0000, ensures paid(gas_limit, answer(r)) == priced(gas_limit, 15 + 3 * words(input@.len()), Some(input@)),
//@end
}
pub uninterp spec fn sha256(s: Seq<u8>) -> Seq<u8>;
pub mod sha2 { use super::*;
    #[verifier::external_body] pub struct Sha256 { x: u8 }
    impl Sha256 { pub uninterp spec fn view(&self) -> Seq<u8>;
        #[verifier::external_body] pub fn default() -> (r: Sha256) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
        #[verifier::external_body] pub fn update(&mut self, s: &[u8]) ensures final(self)@ == old(self)@ + s@ { unimplemented!() }
        #[verifier::external_body] pub fn finalize(self) -> (r: [u8; 32]) ensures r@ == sha256(self@) { unimplemented!() }
    } }
pub struct Sha256;
impl Sha256 {
//@item core/executor/src/precompiles/sha256.rs :: impl PrecompileContract for Sha256/const ADDRESS
//@ sub /const ADDRESS: H160 = ([^;]+);/ => /pub fn ADDRESS_() -> (r: H160) ensures r@ == eip(2) { \1 }/
//@end
//@item core/executor/src/precompiles/sha256.rs :: impl PrecompileContract for Sha256/const MIN_GAS
//@ sub /\bconst MIN_GAS/ => /pub const MIN_GAS/
//@end
//@fn core/executor/src/precompiles/sha256.rs :: impl PrecompileContract for Sha256/fn gas_cost
//@ ret r
//@ spec
    requires input@.len() < 0x1000_0000_0000, ensures r == 60 + 12 * words(input@.len()),
//@end
//@fn core/executor/src/precompiles/sha256.rs :: impl PrecompileContract for Sha256/fn exec_fn
//@ ret r
//@ sub /hasher\.finalize\(\)\.to_vec\(\)/ => /to_vec_(&hasher.finalize())/ 0
//@ sub /\bsha2::Sha256/ => /super::pc::sha2::Sha256/ 0
//@ sub /err!\(\)/ => /Err(out_of_gas_())/
//@ sub /\s*\.map_err\(\|_\w*\| err!\([^()]*\)\)\?/ => /?/
//@ sub /\s*\.map_err\(\|_\w*\| err!\([^()]*\)\)/ => //
//@ sub /Err\(err!\([^()]*\)\)/ => /Err(other_())/
//@ sub /err!\([^()]*\)/ => /Err(other_())/
//@ sub /-> Result<\(PrecompileOutput, u64\), PrecompileFailure>/ => /-> Out/
//@ sub /(\w+)\.to_vec\(\)/ => /to_vec_(&\1)/
//@ spec
    requires input@.len() < 0x1000_0000_0000, ensures paid(gas_limit, answer(r)) == priced(gas_limit, 60 + 12 * words(input@.len()), Some(sha256(input@))),
//@ start
    proof { assert(Seq::<u8>::empty() + input@ =~= input@); }
//@end
}
pub uninterp spec fn ripemd160(s: Seq<u8>) -> Seq<u8>;
pub mod ripemd { use super::*;
    #[verifier::external_body] pub struct Ripemd160 { x: u8 }
    impl Ripemd160 { pub uninterp spec fn view(&self) -> Seq<u8>;
        #[verifier::external_body] pub fn default() -> (r: Ripemd160) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
        #[verifier::external_body] pub fn update(&mut self, s: &[u8]) ensures final(self)@ == old(self)@ + s@ { unimplemented!() }
        #[verifier::external_body] pub fn finalize(self) -> (r: [u8; 20]) ensures r@ == ripemd160(self@) { unimplemented!() }
    } }
pub struct Ripemd160;
impl Ripemd160 {
//@item core/executor/src/precompiles/ripemd160.rs :: impl PrecompileContract for Ripemd160/const ADDRESS
//@ sub /const ADDRESS: H160 = ([^;]+);/ => /pub fn ADDRESS_() -> (r: H160) ensures r@ == eip(3) { \1 }/
//@end
//@item core/executor/src/precompiles/ripemd160.rs :: impl PrecompileContract for Ripemd160/const MIN_GAS
//@ sub /\bconst MIN_GAS/ => /pub const MIN_GAS/
//@end
//@fn core/executor/src/precompiles/ripemd160.rs :: impl PrecompileContract for Ripemd160/fn gas_cost
//@ ret r
//@ spec
    requires input@.len() < 0x1000_0000_0000, ensures r == 600 + 120 * words(input@.len()),
//@end
//@fn core/executor/src/precompiles/ripemd160.rs :: impl PrecompileContract for Ripemd160/fn exec_fn
//@ ret r
//@ sub /\bripemd::Ripemd160/ => /super::pc::ripemd::Ripemd160/ 0
//@ sub /(\w+)\[(\w+)\.\.\]\.copy_from_slice\(&hasher\.finalize\(\)\);/ => /let digest_ = hasher.finalize(); \1[\2..32].copy_from_slice(&digest_); proof { assert(\1@ =~= left_pad(digest_@)); }/ 0
//@ sub /err!\(\)/ => /Err(out_of_gas_())/
//@ sub /\s*\.map_err\(\|_\w*\| err!\([^()]*\)\)\?/ => /?/
//@ sub /\s*\.map_err\(\|_\w*\| err!\([^()]*\)\)/ => //
//@ sub /Err\(err!\([^()]*\)\)/ => /Err(other_())/
//@ sub /err!\([^()]*\)/ => /Err(other_())/
//@ sub /-> Result<\(PrecompileOutput, u64\), PrecompileFailure>/ => /-> Out/
//@ sub /(\w+)\.to_vec\(\)/ => /to_vec_(&\1)/
//@ spec
    requires input@.len() < 0x1000_0000_0000, ensures paid(gas_limit, answer(r)) == priced(gas_limit, 600 + 120 * words(input@.len()), Some(left_pad(ripemd160(input@)))),
//@ start
    proof { assert(Seq::<u8>::empty() + input@ =~= input@); }
//@end
}
pub uninterp spec fn blake2b(s: Seq<u8>) -> Seq<u8>;
#[verifier::external_body] pub fn ckb_blake2b_256(s: &[u8]) -> (r: [u8; 32]) ensures r@ == blake2b(s@) { unimplemented!() }
pub struct CkbBlake2b;
impl CkbBlake2b {
//@item core/executor/src/precompiles/ckb_blake2b.rs :: impl PrecompileContract for CkbBlake2b/const ADDRESS
//@ sub /const ADDRESS: H160 = ([^;]+);/ => /pub fn ADDRESS_() -> (r: H160) ensures r@ == axon(6) { \1 }/
//@end
//@item core/executor/src/precompiles/ckb_blake2b.rs :: impl PrecompileContract for CkbBlake2b/const MIN_GAS
//@ sub /\bconst MIN_GAS/ => /pub const MIN_GAS/
//@end
//@fn core/executor/src/precompiles/ckb_blake2b.rs :: impl PrecompileContract for CkbBlake2b/fn gas_cost
//@ ret r
//@ spec
    requires input@.len() < 0x1000_0000_0000, ensures r == 60 + 12 * words(input@.len()),
//@end
//@fn core/executor/src/precompiles/ckb_blake2b.rs :: impl PrecompileContract for CkbBlake2b/fn exec_fn
//@ ret r
//@ sub /ckb_blake2b_256\(input\)\.to_vec\(\)/ => /to_vec_(&ckb_blake2b_256(input))/ 0
//@ sub /err!\(\)/ => /Err(out_of_gas_())/
//@ sub /\s*\.map_err\(\|_\w*\| err!\([^()]*\)\)\?/ => /?/
//@ sub /\s*\.map_err\(\|_\w*\| err!\([^()]*\)\)/ => //
//@ sub /Err\(err!\([^()]*\)\)/ => /Err(other_())/
//@ sub /err!\([^()]*\)/ => /Err(other_())/
//@ sub /-> Result<\(PrecompileOutput, u64\), PrecompileFailure>/ => /-> Out/
//@ sub /(\w+)\.to_vec\(\)/ => /to_vec_(&\1)/
//@ spec
    requires input@.len() < 0x1000_0000_0000, ensures paid(gas_limit, answer(r)) == priced(gas_limit, 60 + 12 * words(input@.len()), Some(blake2b(input@))),
//@end
}
pub uninterp spec fn sig_ok(s: Seq<u8>) -> bool;
/// the key recovered from a hash and a signature, as the 65 bytes of its uncompressed form
pub uninterp spec fn recovered(hash: Seq<u8>, s: Seq<u8>) -> Option<PubKey>;
pub struct Secp256k1RecoverableSignature { x: u8 }
impl Secp256k1RecoverableSignature { pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn try_from(s: &[u8]) -> (r: Result<Secp256k1RecoverableSignature, PrecompileFailure>) ensures r is Ok == sig_ok(s@), r is Ok ==> r.unwrap()@ == s@ { unimplemented!() }
    #[verifier::external_body] pub fn to_bytes(&self) -> (r: [u8; 65]) ensures r@ == self@ { unimplemented!() } }
#[verifier::external_body] pub struct PubKey { x: u8 }
impl PubKey { pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn serialize_uncompressed(&self) -> (r: [u8; 65]) ensures r@ == self@ { unimplemented!() } }
#[verifier::external_body] pub fn secp256k1_recover(h: &[u8], s: &[u8]) -> (r: Result<PubKey, PrecompileFailure>) ensures match recovered(h@, s@) { Some(k) => r is Ok && r.unwrap() == k, None => r is Err } { unimplemented!() }
/// the signature in an input of four words: hash, v, r, s
pub open spec fn signature(input: Seq<u8>) -> Option<Seq<u8>> {
    let v = word(input, 32);
    if v == left_pad(seq![27u8]) { Some(word(input, 64) + word(input, 96) + seq![0u8]) } else if v == left_pad(seq![28u8]) { Some(word(input, 64) + word(input, 96) + seq![1u8]) } else { None } }
pub open spec fn signer(input: Seq<u8>) -> Option<Seq<u8>> {
    match signature(input) { Some(s) => if !sig_ok(s) { None } else { match recovered(word(input, 0), s) { Some(k) => Some(left_pad(keccak(k@.subrange(1, 65))@.subrange(12, 32))), None => None } }, None => None } }
pub open spec fn ecrecover(input: Seq<u8>) -> Seq<u8> { match signer(input) { Some(a) => a, None => Seq::empty() } }
pub proof fn v_word(s: Seq<u8>, v: u8) requires s.len() == 32 ensures (s == left_pad(seq![v])) == (s[31] == v && forall|i: int| 0 <= i < 31 ==> s[i] == 0) {
    let t = left_pad(seq![v]);
    assert(t.len() == 32 && t[31] == v);
    assert(forall|i: int| 0 <= i < 31 ==> t[i] == 0u8);
    if s[31] == v && forall|i: int| 0 <= i < 31 ==> s[i] == 0 { assert(s =~= t); } }
#[verifier::external_body] pub fn zero_(s: &[u8], n: usize) -> (r: bool) ensures r == (s@.len() == n && forall|i: int| 0 <= i < n ==> #[trigger] s@[i] == 0) { unimplemented!() }
//@fn core/executor/src/precompiles/ecrecover.rs :: fn recover_signature
//@ ret r
//@ sub /match (\w+\[\d+\]) \{/ => /match ({ let t_ = \1; t_ }) {/ 0
//@ sub /(\w+)\[(\d*\.\.\d*)\] (==|!=) \[0u?8?; (\d+)\]/ => /(zero_(&\1[\2], \4) \3 true)/ 0
//@ sub /(\d+) \| (\d+) if ([^\n]*?) =>/ => /x_ if (x_ == \1 || x_ == \2) && \3 =>/ 0
//@ spec
    requires input@.len() == 128,
    ensures match r { Some(s) => signature(input@) == Some(s@), None => signature(input@) is None },
//@ start
    proof { v_word(word(input@, 32), 27); v_word(word(input@, 32), 28); assert(word(input@, 32)[31] == input@[63]);
        assert forall|i: int| 0 <= i < 31 implies word(input@, 32)[i] == #[trigger] input@.subrange(32, 64).subrange(0, 31)[i] by {}
        assert(forall|i: int| 0 <= i < 31 ==> word(input@, 32)[i] == #[trigger] input@[32 + i]); }
//@ sub /Some\(ret\)/ => /proof { assert forall|i: int| 0 <= i < 31 implies #[trigger] word(input@, 32)[i] == 0 by { assert(tmp@.subrange(0, 31)[i] == 0); } assert(ret@ =~= word(input@, 64) + word(input@, 96) + seq![v]); } Some(ret)/
//@end
//@fn core/executor/src/precompiles/ecrecover.rs :: fn recover_address
//@ ret r
//@ sub /\.as_slice\(\)/ => // 0
//@ sub /try_from\(raw\)/ => /try_from(&raw)/ 0
//@ sub /Hasher::digest\(&(\w+)\.serialize_uncompressed\(\)\[1\.\.65\]\)/ => /digest65_(&\1.serialize_uncompressed())/ 0
//@ spec
    ensures match r { Some(a) => signer(input@) == Some(a@), None => signer(input@) is None },
//@ sub /Some\(addr\)/ => /proof { assert(addr@ =~= left_pad(digest@.subrange(12, 32))); } Some(addr)/
//@ start
    proof { assert(word(input@, 0) =~= input@.subrange(0, 32)); }
//@end
#[verifier::external_body] pub fn digest65_(s: &[u8; 65]) -> (r: H256) ensures r == keccak(s@.subrange(1, 65)) { unimplemented!() }
pub proof fn cut(a: Seq<u8>, b: Seq<u8>) requires b.len() == 128, forall|i: int| 0 <= i < 128 ==> b[i] == if i < a.len() { a[i] } else { 0 }
    ensures ecrecover(a) == ecrecover(b) {
    assert(word(a, 0) =~= word(b, 0)); assert(word(a, 32) =~= word(b, 32)); assert(word(a, 64) =~= word(b, 64)); assert(word(a, 96) =~= word(b, 96)); }
pub struct EcRecover;
impl EcRecover {
//@item core/executor/src/precompiles/ecrecover.rs :: impl PrecompileContract for EcRecover/const ADDRESS
//@ sub /const ADDRESS: H160 = ([^;]+);/ => /pub fn ADDRESS_() -> (r: H160) ensures r@ == eip(1) { \1 }/
//@end
//@item core/executor/src/precompiles/ecrecover.rs :: impl PrecompileContract for EcRecover/const MIN_GAS
//@ sub /\bconst MIN_GAS/ => /pub const MIN_GAS/
//@end
//@fn core/executor/src/precompiles/ecrecover.rs :: impl PrecompileContract for EcRecover/fn gas_cost
//@ ret r
//@ spec
    ensures r == 3000,
//@end
//@fn core/executor/src/precompiles/ecrecover.rs :: impl PrecompileContract for EcRecover/fn exec_fn
//@ ret r
//@ sub /let output = match/ => /proof { cut(origin_input@, input@); } let output = match/ 0
//@ sub /err!\(\)/ => /Err(out_of_gas_())/
//@ sub /\s*\.map_err\(\|_\w*\| err!\([^()]*\)\)\?/ => /?/
//@ sub /\s*\.map_err\(\|_\w*\| err!\([^()]*\)\)/ => //
//@ sub /Err\(err!\([^()]*\)\)/ => /Err(other_())/
//@ sub /err!\([^()]*\)/ => /Err(other_())/
//@ sub /-> Result<\(PrecompileOutput, u64\), PrecompileFailure>/ => /-> Out/
//@ sub /(\w+)\.to_vec\(\)/ => /to_vec_(&\1)/
//@ spec
    ensures paid(gas_limit, answer(r)) == priced(gas_limit, 3000, Some(ecrecover(origin_input@))),
//@end
}
// the curve: its group, scalars and coordinates are not interpreted
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Fq { x: u8 }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Fq2 { x: u8 }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Fr { x: u8 }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct G1 { x: u8 }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct G2 { x: u8 }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Gt { x: u8 }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct AffineG1 { x: u8 }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct AffineG2 { x: u8 }
pub uninterp spec fn fq_of(s: Seq<u8>) -> Option<Fq>;
pub uninterp spec fn fr_of(s: Seq<u8>) -> Option<Fr>;
pub uninterp spec fn fq_bytes(x: Fq) -> Seq<u8>;
pub uninterp spec fn fq_zero() -> Fq;
pub uninterp spec fn fq2_(a: Fq, b: Fq) -> Fq2;
pub uninterp spec fn fq2_zero() -> Fq2;
pub uninterp spec fn g1_zero() -> G1;
pub uninterp spec fn g2_zero() -> G2;
pub uninterp spec fn gt_one() -> Gt;
pub uninterp spec fn aff1(x: Fq, y: Fq) -> Option<AffineG1>;
pub uninterp spec fn aff2(x: Fq2, y: Fq2) -> Option<AffineG2>;
pub uninterp spec fn g1(a: AffineG1) -> G1;
pub uninterp spec fn g2(a: AffineG2) -> G2;
pub uninterp spec fn g1_add(a: G1, b: G1) -> G1;
pub uninterp spec fn g1_mul(a: G1, b: Fr) -> G1;
pub uninterp spec fn jac(a: G1) -> Option<AffineG1>;
pub uninterp spec fn pairing(s: Seq<(G1, G2)>) -> Gt;
impl PartialEqSpecImpl for Fq { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Fq) -> bool { *self == *o } }
impl PartialEq for Fq { #[verifier::external_body] fn eq(&self, o: &Fq) -> bool { unimplemented!() } }
impl PartialEqSpecImpl for Gt { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Gt) -> bool { *self == *o } }
impl PartialEq for Gt { #[verifier::external_body] fn eq(&self, o: &Gt) -> bool { unimplemented!() } }
impl Fq { #[verifier::external_body] pub fn from_slice(s: &[u8]) -> (r: Result<Fq, PrecompileFailure>) requires s@.len() == 32 ensures match fq_of(s@) { Some(x) => r is Ok && r.unwrap() == x, None => r is Err } { unimplemented!() }
    #[verifier::external_body] pub fn zero() -> (r: Fq) ensures r == fq_zero() { unimplemented!() }
    #[verifier::external_body] pub fn is_zero(&self) -> (r: bool) ensures r == (*self == fq_zero()) { unimplemented!() }
    #[verifier::external_body] pub fn to_big_endian(&self, out: &mut [u8]) -> (r: Result<(), PrecompileFailure>) requires old(out)@.len() == 32 ensures r is Ok, final(out)@ == fq_bytes(*self), final(out)@.len() == 32 { unimplemented!() } }
impl Fr { #[verifier::external_body] pub fn from_slice(s: &[u8]) -> (r: Result<Fr, PrecompileFailure>) requires s@.len() == 32 ensures match fr_of(s@) { Some(x) => r is Ok && r.unwrap() == x, None => r is Err } { unimplemented!() } }
impl Fq2 { #[verifier::external_body] pub fn new(a: Fq, b: Fq) -> (r: Fq2) ensures r == fq2_(a, b) { unimplemented!() }
    #[verifier::external_body] pub fn is_zero(&self) -> (r: bool) ensures r == (*self == fq2_zero()) { unimplemented!() } }
pub uninterp spec fn px(a: AffineG1) -> Fq;
pub uninterp spec fn py(a: AffineG1) -> Fq;
impl AffineG1 { #[verifier::external_body] pub fn new(x: Fq, y: Fq) -> (r: Result<AffineG1, PrecompileFailure>) ensures match aff1(x, y) { Some(a) => r is Ok && r.unwrap() == a, None => r is Err } { unimplemented!() }
    #[verifier::external_body] pub fn from_jacobian(a: G1) -> (r: Option<AffineG1>) ensures r == jac(a) { unimplemented!() }
    #[verifier::external_body] pub fn x(&self) -> (r: Fq) ensures r == px(*self) { unimplemented!() }
    #[verifier::external_body] pub fn y(&self) -> (r: Fq) ensures r == py(*self) { unimplemented!() } }
impl AffineG2 { #[verifier::external_body] pub fn new(x: Fq2, y: Fq2) -> (r: Result<AffineG2, PrecompileFailure>) ensures match aff2(x, y) { Some(a) => r is Ok && r.unwrap() == a, None => r is Err } { unimplemented!() } }
impl G1 { #[verifier::external_body] pub fn zero() -> (r: G1) ensures r == g1_zero() { unimplemented!() } }
impl G2 { #[verifier::external_body] pub fn zero() -> (r: G2) ensures r == g2_zero() { unimplemented!() } }
impl Gt { #[verifier::external_body] pub fn one() -> (r: Gt) ensures r == gt_one() { unimplemented!() } }
impl FromSpecImpl<AffineG1> for G1 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(x: AffineG1) -> G1 { g1(x) } }
impl From<AffineG1> for G1 { #[verifier::external_body] fn from(x: AffineG1) -> G1 { unimplemented!() } }
impl FromSpecImpl<AffineG2> for G2 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(x: AffineG2) -> G2 { g2(x) } }
impl From<AffineG2> for G2 { #[verifier::external_body] fn from(x: AffineG2) -> G2 { unimplemented!() } }
impl AddSpecImpl<G1> for G1 { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, o: G1) -> bool { true } open spec fn add_spec(self, o: G1) -> G1 { g1_add(self, o) } }
impl core::ops::Add for G1 { type Output = G1; #[verifier::external_body] fn add(self, o: G1) -> G1 { unimplemented!() } }
impl MulSpecImpl<Fr> for G1 { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, o: Fr) -> bool { true } open spec fn mul_spec(self, o: Fr) -> G1 { g1_mul(self, o) } }
impl core::ops::Mul<Fr> for G1 { type Output = G1; #[verifier::external_body] fn mul(self, o: Fr) -> G1 { unimplemented!() } }
#[verifier::external_body] pub fn pairing_batch(s: &Vec<(G1, G2)>) -> (r: Gt) ensures r == pairing(s@) { unimplemented!() }

/// the point whose coordinates are the two words at `at`: (0, 0) stands for the zero of the group
pub open spec fn point(s: Seq<u8>, at: int) -> Option<G1> {
    match (fq_of(word(s, at)), fq_of(word(s, at + 32))) { (Some(x), Some(y)) => if x == fq_zero() && y == fq_zero() { Some(g1_zero()) } else { match aff1(x, y) { Some(a) => Some(g1(a)), None => None } }, _ => None } }
pub open spec fn point_bytes(p: G1) -> Seq<u8> { match jac(p) { Some(a) => fq_bytes(px(a)) + fq_bytes(py(a)), None => zeros(64) } }
//@fn core/executor/src/precompiles/mod.rs :: fn read_word
//@ ret r
//@ spec
    requires start < 0x1000_0000_0000, input@.len() < 0x1000_0000_0000,
    ensures r@ == word(input@, start as int),
//@ sub /(\w+)\[\.\.(\w+) - (\w+)\]/ => /let n_ = \2 - \3; \1[..n_]/ 0
//@ sub /\}\s*word\s*\}$/ => /} proof { assert(word@ =~= word_(input@, start as int)); } word }/
//@end
pub open spec fn word_(s: Seq<u8>, at: int) -> Seq<u8> { word(s, at) }
//@fn core/executor/src/precompiles/mod.rs :: fn read_point
//@ ret r
//@ sub /err!\(\)/ => /Err(out_of_gas_())/
//@ sub /\s*\.map_err\(\|_\w*\| err!\([^()]*\)\)\?/ => /?/
//@ sub /\s*\.map_err\(\|_\w*\| err!\([^()]*\)\)/ => //
//@ sub /Err\(err!\([^()]*\)\)/ => /Err(other_())/
//@ sub /err!\([^()]*\)/ => /Err(other_())/
//@ sub /-> Result<\(PrecompileOutput, u64\), PrecompileFailure>/ => /-> Out/
//@ sub /(\w+)\.to_vec\(\)/ => /to_vec_(&\1)/
//@ spec
    requires start < 0x1000_0000_0000 - 32, input@.len() < 0x1000_0000_0000,
    ensures match point(input@, start as int) { Some(p) => r is Ok && r.unwrap() == p, None => r is Err },
//@end
//@fn core/executor/src/precompiles/mod.rs :: fn read_fr
//@ ret r
//@ sub /err!\(\)/ => /Err(out_of_gas_())/
//@ sub /\s*\.map_err\(\|_\w*\| err!\([^()]*\)\)\?/ => /?/
//@ sub /\s*\.map_err\(\|_\w*\| err!\([^()]*\)\)/ => //
//@ sub /Err\(err!\([^()]*\)\)/ => /Err(other_())/
//@ sub /err!\([^()]*\)/ => /Err(other_())/
//@ sub /-> Result<\(PrecompileOutput, u64\), PrecompileFailure>/ => /-> Out/
//@ sub /(\w+)\.to_vec\(\)/ => /to_vec_(&\1)/
//@ spec
    requires start < 0x1000_0000_0000, input@.len() < 0x1000_0000_0000,
    ensures match fr_of(word(input@, start as int)) { Some(p) => r is Ok && r.unwrap() == p, None => r is Err },
//@end
pub open spec fn ec_add(s: Seq<u8>) -> Option<Seq<u8>> { match (point(s, 0), point(s, 64)) { (Some(a), Some(b)) => Some(point_bytes(g1_add(a, b))), _ => None } }
pub open spec fn ec_mul(s: Seq<u8>) -> Option<Seq<u8>> { match (point(s, 0), fr_of(word(s, 64))) { (Some(a), Some(b)) => Some(point_bytes(g1_mul(a, b))), _ => None } }
pub struct EcAdd;
impl EcAdd {
//@item core/executor/src/precompiles/ec_add.rs :: impl PrecompileContract for EcAdd/const ADDRESS
//@ sub /const ADDRESS: H160 = ([^;]+);/ => /pub fn ADDRESS_() -> (r: H160) ensures r@ == eip(6) { \1 }/
//@end
//@item core/executor/src/precompiles/ec_add.rs :: impl PrecompileContract for EcAdd/const MIN_GAS
//@ sub /\bconst MIN_GAS/ => /pub const MIN_GAS/
//@end
//@fn core/executor/src/precompiles/ec_add.rs :: impl PrecompileContract for EcAdd/fn gas_cost
//@ ret r
//@ spec
    ensures r == 150,
//@end
//@fn core/executor/src/precompiles/ec_add.rs :: impl PrecompileContract for EcAdd/fn exec_fn
//@ ret r
//@ sub /Ok\(\(\s*PrecompileOutput/ => /proof { assert(res@ =~= point_bytes(g1_add(p1, p2))); } Ok((PrecompileOutput/ 0
//@ sub /err!\(\)/ => /Err(out_of_gas_())/
//@ sub /\s*\.map_err\(\|_\w*\| err!\([^()]*\)\)\?/ => /?/
//@ sub /\s*\.map_err\(\|_\w*\| err!\([^()]*\)\)/ => //
//@ sub /Err\(err!\([^()]*\)\)/ => /Err(other_())/
//@ sub /err!\([^()]*\)/ => /Err(other_())/
//@ sub /-> Result<\(PrecompileOutput, u64\), PrecompileFailure>/ => /-> Out/
//@ sub /(\w+)\.to_vec\(\)/ => /to_vec_(&\1)/
//@ spec
    requires input@.len() < 0x1000_0000_0000, ensures paid(gas_limit, answer(r)) == priced(gas_limit, 150, ec_add(input@)),
//@end
}
pub struct EcMul;
impl EcMul {
//@item core/executor/src/precompiles/ec_mul.rs :: impl PrecompileContract for EcMul/const ADDRESS
//@ sub /const ADDRESS: H160 = ([^;]+);/ => /pub fn ADDRESS_() -> (r: H160) ensures r@ == eip(7) { \1 }/
//@end
//@item core/executor/src/precompiles/ec_mul.rs :: impl PrecompileContract for EcMul/const MIN_GAS
//@ sub /\bconst MIN_GAS/ => /pub const MIN_GAS/
//@end
//@fn core/executor/src/precompiles/ec_mul.rs :: impl PrecompileContract for EcMul/fn gas_cost
//@ ret r
//@ spec
    ensures r == 6000,
//@end
//@fn core/executor/src/precompiles/ec_mul.rs :: impl PrecompileContract for EcMul/fn exec_fn
//@ ret r
//@ sub /Ok\(\(\s*PrecompileOutput/ => /proof { assert(res@ =~= point_bytes(g1_mul(p, fr))); } Ok((PrecompileOutput/ 0
//@ sub /err!\(\)/ => /Err(out_of_gas_())/
//@ sub /\s*\.map_err\(\|_\w*\| err!\([^()]*\)\)\?/ => /?/
//@ sub /\s*\.map_err\(\|_\w*\| err!\([^()]*\)\)/ => //
//@ sub /Err\(err!\([^()]*\)\)/ => /Err(other_())/
//@ sub /err!\([^()]*\)/ => /Err(other_())/
//@ sub /-> Result<\(PrecompileOutput, u64\), PrecompileFailure>/ => /-> Out/
//@ sub /(\w+)\.to_vec\(\)/ => /to_vec_(&\1)/
//@ spec
    requires input@.len() < 0x1000_0000_0000, ensures paid(gas_limit, answer(r)) == priced(gas_limit, 6000, ec_mul(input@)),
//@end
}
pub open spec fn point2(s: Seq<u8>, at: int) -> Option<G2> {
    match (fq_of(word(s, at)), fq_of(word(s, at + 32)), fq_of(word(s, at + 64)), fq_of(word(s, at + 96))) {
        (Some(xi), Some(xr), Some(yi), Some(yr)) => { let x = fq2_(xr, xi); let y = fq2_(yr, yi); if x == fq2_zero() && y == fq2_zero() { Some(g2_zero()) } else { match aff2(x, y) { Some(a) => Some(g2(a)), None => None } } }, _ => None } }
pub open spec fn pair(s: Seq<u8>, i: int) -> Option<(G1, G2)> { match (point(s, 192 * i), point2(s, 192 * i + 64)) { (Some(a), Some(b)) => Some((a, b)), _ => None } }
pub open spec fn pairs_ok(s: Seq<u8>, n: int) -> bool { forall|i: int| 0 <= i < n ==> (#[trigger] pair(s, i)) is Some }
pub open spec fn pairs(s: Seq<u8>, n: int) -> Seq<(G1, G2)> { Seq::new(n as nat, |i: int| pair(s, i).unwrap()) }
/// no pairs at all: their product is one
pub open spec fn ec_pairing(s: Seq<u8>) -> Option<Seq<u8>> {
    let n = (s.len() / 192) as int;
    if s.len() == 0 { Some(left_pad(seq![1u8])) } else if s.len() % 192 != 0 || !pairs_ok(s, n) { None } else if pairing(pairs(s, n)) == gt_one() { Some(left_pad(seq![1u8])) } else { Some(zeros(32)) } }
pub trait ToBig { fn to_big_endian(&self, out: &mut [u8; 32]); }
impl U256 { #[verifier::external_body] pub fn to_big_endian(&self, out: &mut [u8; 32]) ensures self@ == 1 ==> final(out)@ == left_pad(seq![1u8]), self@ == 0 ==> final(out)@ == zeros(32) { unimplemented!() } }
pub struct EcPairing;
impl EcPairing {
//@item core/executor/src/precompiles/ec_pairing.rs :: impl PrecompileContract for EcPairing/const ADDRESS
//@ sub /const ADDRESS: H160 = ([^;]+);/ => /pub fn ADDRESS_() -> (r: H160) ensures r@ == eip(8) { \1 }/
//@end
//@item core/executor/src/precompiles/ec_pairing.rs :: impl PrecompileContract for EcPairing/const MIN_GAS
//@ sub /\bconst MIN_GAS/ => /pub const MIN_GAS/
//@end
//@item core/executor/src/precompiles/ec_pairing.rs :: impl EcPairing/const GAS_PER_PAIRING
//@ sub /\bconst GAS_PER_PAIRING/ => /pub const GAS_PER_PAIRING/
//@end
//@item core/executor/src/precompiles/ec_pairing.rs :: impl EcPairing/const GROUP_ARGS_LEN
//@ sub /\bconst GROUP_ARGS_LEN/ => /pub const GROUP_ARGS_LEN/
//@end
//@fn core/executor/src/precompiles/ec_pairing.rs :: impl EcPairing/fn index_range
//@ ret r
//@ sub /-> Range</ => /-> std::ops::Range</
//@ spec
    requires i < 0x20_0000_0000, offset < 192
    ensures r.start == 192 * i + offset, r.end == r.start + 32,
//@end
//@fn core/executor/src/precompiles/ec_pairing.rs :: impl PrecompileContract for EcPairing/fn gas_cost
//@ ret r
//@ spec
    requires input@.len() < 0x1000_0000_0000, ensures r == 45_000 + 34_000 * (input@.len() / 192),
//@end
//@fn core/executor/src/precompiles/ec_pairing.rs :: impl PrecompileContract for EcPairing/fn exec_fn
//@ ret r
//@ sub /let mut pairs\b/ => /let mut pairs/ 0
//@ sub /err!\(\)/ => /Err(out_of_gas_())/
//@ sub /\s*\.map_err\(\|_\w*\| err!\([^()]*\)\)\?/ => /?/
//@ sub /\s*\.map_err\(\|_\w*\| err!\([^()]*\)\)/ => //
//@ sub /Err\(err!\([^()]*\)\)/ => /Err(other_())/
//@ sub /err!\([^()]*\)/ => /Err(other_())/
//@ sub /-> Result<\(PrecompileOutput, u64\), PrecompileFailure>/ => /-> Out/
//@ sub /(\w+)\.to_vec\(\)/ => /to_vec_(&\1)/
//@ spec
    requires input@.len() < 0x1000_0000_0000, ensures paid(gas_limit, answer(r)) == priced(gas_limit, 45_000 + 34_000 * (input@.len() / 192), ec_pairing(input@)),
//@ loop 0 it
    invariant input@.len() < 0x1000_0000_0000, elements == input@.len() / 192, pairs_ok(input@, i as int), pairs@ =~= super_pairs(input@, i as int)
//@ loopstart 0
    proof { let p = pair(input@, i as int); assert(192 * i + 192 <= input@.len());
        assert(input@.subrange(192 * i, 192 * i + 32) =~= word(input@, 192 * i)); assert(input@.subrange(192 * i + 32, 192 * i + 64) =~= word(input@, 192 * i + 32));
        assert(input@.subrange(192 * i + 64, 192 * i + 96) =~= word(input@, 192 * i + 64)); assert(input@.subrange(192 * i + 96, 192 * i + 128) =~= word(input@, 192 * i + 96));
        assert(input@.subrange(192 * i + 128, 192 * i + 160) =~= word(input@, 192 * i + 128)); assert(input@.subrange(192 * i + 160, 192 * i + 192) =~= word(input@, 192 * i + 160)); }
//@end
}
pub open spec fn super_pairs(s: Seq<u8>, n: int) -> Seq<(G1, G2)> { pairs(s, n) }
pub type Byte32Bytes = [u8; 32];
#[verifier::external_body] pub struct Byte32 { x: u8 }
pub uninterp spec fn byte32(s: Seq<u8>) -> Byte32;
impl Byte32 { #[verifier::external_body] pub fn clone(&self) -> (r: Byte32) ensures r == *self { unimplemented!() } }
impl PartialEqSpecImpl for Byte32 { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Byte32) -> bool { *self == *o } }
impl PartialEq for Byte32 { #[verifier::external_body] fn eq(&self, o: &Byte32) -> bool { unimplemented!() } }
#[verifier::external_body] pub fn pack_(x: &[u8; 32]) -> (r: Byte32) ensures r == byte32(x@) { unimplemented!() }
pub uninterp spec fn cbmt_root(s: Seq<Byte32>) -> Byte32;
pub uninterp spec fn cbmt_proves(indices: Seq<u32>, lemmas: Seq<Byte32>, root: Byte32, leaves: Seq<Byte32>) -> bool;
#[verifier::external_body] pub fn merkle_root(s: &[Byte32]) -> (r: Byte32) ensures r == cbmt_root(s@) { unimplemented!() }
pub struct MerkleProof { pub indices: Vec<u32>, pub lemmas: Vec<Byte32> }
impl MerkleProof { pub fn new(indices: Vec<u32>, lemmas: Vec<Byte32>) -> (r: MerkleProof) ensures r.indices == indices, r.lemmas == lemmas { MerkleProof { indices, lemmas } }
    // the library adds one to an index
    #[verifier::external_body] pub fn verify(&self, root: &Byte32, leaves: &Vec<Byte32>) -> (r: bool) requires forall|i: int| 0 <= i < self.indices@.len() ==> self.indices@[i] < u32::MAX
        ensures r == cbmt_proves(self.indices@, self.lemmas@, *root, leaves@) { unimplemented!() } }
#[verifier::external_body] pub fn has_(v: &Vec<u32>, x: u32) -> (r: bool) ensures r == exists|i: int| 0 <= i < v@.len() && v@[i] == x { unimplemented!() }
//@item core/executor/src/precompiles/ckb_mbt_verify.rs :: struct Proof
//@end
//@item core/executor/src/precompiles/ckb_mbt_verify.rs :: struct VerifyProofPayload
//@end
pub uninterp spec fn payload_of(s: Seq<u8>) -> Option<VerifyProofPayload>;
#[verifier::external_body] pub fn decode_payload_(s: &[u8]) -> (r: Result<VerifyProofPayload, PrecompileFailure>) ensures match payload_of(s@) { Some(p) => r is Ok && r.unwrap() == p, None => r is Err } { unimplemented!() }
pub open spec fn packed(s: Seq<[u8; 32]>) -> Seq<Byte32> { Seq::new(s.len(), |i: int| byte32(s[i]@)) }
/// the two roots make up the root of the block's transactions, and the proof leads from the leaves to the root of their kind
pub open spec fn proves(p: VerifyProofPayload) -> bool {
    let raw = byte32(p.raw_transactions_root@); let wit = byte32(p.witnesses_root@);
    cbmt_root(seq![raw, wit]) == byte32(p.transactions_root@) && (forall|i: int| 0 <= i < p.proof.indices@.len() ==> #[trigger] p.proof.indices@[i] < u32::MAX)
        && cbmt_proves(p.proof.indices@, packed(p.proof.lemmas@), if p.verify_type == 0 { raw } else { wit }, packed(p.proof.leaves@)) }
pub open spec fn cbmt_verify(s: Seq<u8>) -> Option<Seq<u8>> { match payload_of(s) { Some(p) => if proves(p) { Some(seq![1u8]) } else { None }, None => None } }
//@fn core/executor/src/precompiles/ckb_mbt_verify.rs :: fn parse_input
//@ ret r
//@ sub /<\(VerifyProofPayload,\) as AbiDecode>::decode\(input\)\s*\.map\(\|r\| r\.0\)/ => /decode_payload_(input)/ 0
//@ sub /err!\(\)/ => /Err(out_of_gas_())/
//@ sub /\s*\.map_err\(\|_\w*\| err!\([^()]*\)\)\?/ => /?/
//@ sub /\s*\.map_err\(\|_\w*\| err!\([^()]*\)\)/ => //
//@ sub /Err\(err!\([^()]*\)\)/ => /Err(other_())/
//@ sub /err!\([^()]*\)/ => /Err(other_())/
//@ sub /-> Result<\(PrecompileOutput, u64\), PrecompileFailure>/ => /-> Out/
//@ sub /(\w+)\.to_vec\(\)/ => /to_vec_(&\1)/
//@ spec
    ensures match payload_of(input@) { Some(p) => r is Ok && r.unwrap() == p, None => r is Err },
//@end
//@fn core/executor/src/precompiles/ckb_mbt_verify.rs :: fn inner_verify_proof
//@ ret r
//@ sub /err!\(\)/ => /Err(out_of_gas_())/
//@ sub /\s*\.map_err\(\|_\w*\| err!\([^()]*\)\)\?/ => /?/
//@ sub /\s*\.map_err\(\|_\w*\| err!\([^()]*\)\)/ => //
//@ sub /Err\(err!\([^()]*\)\)/ => /Err(other_())/
//@ sub /err!\([^()]*\)/ => /Err(other_())/
//@ sub /-> Result<\(PrecompileOutput, u64\), PrecompileFailure>/ => /-> Out/
//@ sub /(\w+)\.to_vec\(\)/ => /to_vec_(&\1)/
//@ sub /packed::Byte32/ => /Byte32/ 0
//@ sub /payload\s*\.proof\s*\.(lemmas|leaves)\s*\.iter/ => /payload.proof.\1.iter/ 0
//@ sub /(payload\.\w+)\.pack\(\)/ => /pack_(&\1)/ 0
//@ sub /\bl\.pack\(\)/ => /pack_(l)/ 0
//@ sub /payload\.proof\.indices\.contains\(&u32::MAX\)/ => /has_(&payload.proof.indices, u32::MAX)/ 0
//@ collect Byte32 Byte32
//@ spec
    ensures r is Ok == proves(payload),
//@ loop 0
    invariant at0_ <= payload.proof.lemmas@.len(), out0_@.len() == at0_, forall|i: int| 0 <= i < at0_ ==> #[trigger] out0_@[i] == byte32(payload.proof.lemmas@[i]@),
    decreases payload.proof.lemmas@.len() - at0_,
//@ loop 1
    invariant at1_ <= payload.proof.leaves@.len(), out1_@.len() == at1_, forall|i: int| 0 <= i < at1_ ==> #[trigger] out1_@[i] == byte32(payload.proof.leaves@[i]@),
    decreases payload.proof.leaves@.len() - at1_,
//@ sub /if MerkleProof::new/ => /proof { assert(lemmas@ =~= packed(payload.proof.lemmas@)); assert(leaves@ =~= packed(payload.proof.leaves@)); } if MerkleProof::new/ 0
//@end
pub fn truth_() -> (r: Vec<u8>) ensures r@ == seq![1u8] { let mut v: Vec<u8> = Vec::new(); v.push(1); proof { assert(v@ =~= seq![1u8]); } v }
pub struct CMBTVerify;
impl CMBTVerify {
//@item core/executor/src/precompiles/ckb_mbt_verify.rs :: impl PrecompileContract for CMBTVerify/const ADDRESS
//@ sub /const ADDRESS: H160 = ([^;]+);/ => /pub fn ADDRESS_() -> (r: H160) ensures r@ == axon(7) { \1 }/
//@end
//@item core/executor/src/precompiles/ckb_mbt_verify.rs :: impl PrecompileContract for CMBTVerify/const MIN_GAS
//@ sub /\bconst MIN_GAS/ => /pub const MIN_GAS/
//@end
//@fn core/executor/src/precompiles/ckb_mbt_verify.rs :: impl PrecompileContract for CMBTVerify/fn gas_cost
//@ ret r
//@ spec
    ensures r == 56_000,
//@end
//@fn core/executor/src/precompiles/ckb_mbt_verify.rs :: impl PrecompileContract for CMBTVerify/fn exec_fn
//@ ret r
//@ sub /vec!\[true\.into\(\)\]/ => /truth_()/ 0
//@ sub /err!\(\)/ => /Err(out_of_gas_())/
//@ sub /\s*\.map_err\(\|_\w*\| err!\([^()]*\)\)\?/ => /?/
//@ sub /\s*\.map_err\(\|_\w*\| err!\([^()]*\)\)/ => //
//@ sub /Err\(err!\([^()]*\)\)/ => /Err(other_())/
//@ sub /err!\([^()]*\)/ => /Err(other_())/
//@ sub /-> Result<\(PrecompileOutput, u64\), PrecompileFailure>/ => /-> Out/
//@ sub /(\w+)\.to_vec\(\)/ => /to_vec_(&\1)/
//@ spec
    ensures paid(gas_limit, answer(r)) == priced(gas_limit, 56_000, cbmt_verify(input@)),
//@end
}
// the cells and headers the node holds, at the root of this block's parent
pub uninterp spec fn current_root() -> H256;
#[verifier::external_body] pub fn root_() -> (r: H256) ensures r == current_root() { unimplemented!() }
#[verifier::external_body] pub struct Header { x: u8 }
pub uninterp spec fn header_of(s: Seq<u8>) -> Option<Header>;
pub uninterp spec fn header_bytes(h: Header) -> Seq<u8>;
pub uninterp spec fn hash_of(s: Seq<u8>) -> Option<[u8; 32]>;
/// the headers stored under a root
pub uninterp spec fn stored(root: H256, hash: Seq<u8>) -> Option<Seq<u8>>;
#[verifier::external_body] pub fn decode_hash_(s: &[u8]) -> (r: Result<[u8; 32], PrecompileFailure>) ensures match hash_of(s@) { Some(p) => r is Ok && r.unwrap() == p, None => r is Err } { unimplemented!() }
#[verifier::external_body] pub fn decode_header_(s: Vec<u8>) -> (r: Result<Header, PrecompileFailure>) ensures match header_of(s@) { Some(p) => r is Ok && r.unwrap() == p, None => r is Err } { unimplemented!() }
#[verifier::external_body] pub fn encode_header_(h: Header) -> (r: Vec<u8>) ensures r@ == header_bytes(h) { unimplemented!() }
#[verifier::external_body] pub fn mk256_(x: [u8; 32]) -> (r: H256) ensures r@ == x@ { unimplemented!() }
pub struct CkbHeaderReader;
impl CkbHeaderReader { #[verifier::external_body] pub fn get_raw(&self, root: H256, key: &[u8]) -> (r: Result<Option<Vec<u8>>, PrecompileFailure>)
    ensures match stored(root, key@) { Some(h) => r matches Ok(Some(v)) && v@ == h, None => !(r matches Ok(Some(_))) } { unimplemented!() } }
/// only encoded headers are stored (C18's store, C26's update)
pub open spec fn headers_decode() -> bool { forall|root: H256, k: Seq<u8>| #[trigger] stored(root, k) matches Some(h) ==> header_of(h) is Some }
pub open spec fn get_header(s: Seq<u8>) -> Option<Seq<u8>> { match hash_of(s) { Some(h) => match stored(current_root(), h@) { Some(raw) => Some(header_bytes(header_of(raw).unwrap())), None => None }, None => None } }
pub struct GetHeader;
impl GetHeader {
//@item core/executor/src/precompiles/get_header.rs :: impl PrecompileContract for GetHeader/const ADDRESS
//@ sub /const ADDRESS: H160 = ([^;]+);/ => /pub fn ADDRESS_() -> (r: H160) ensures r@ == axon(2) { \1 }/
//@end
//@item core/executor/src/precompiles/get_header.rs :: impl PrecompileContract for GetHeader/const MIN_GAS
//@ sub /\bconst MIN_GAS/ => /pub const MIN_GAS/
//@end
//@fn core/executor/src/precompiles/get_header.rs :: impl PrecompileContract for GetHeader/fn gas_cost
//@ ret r
//@ spec
    ensures r == 42_000,
//@end
//@fn core/executor/src/precompiles/get_header.rs :: impl PrecompileContract for GetHeader/fn exec_fn
//@ ret r
//@ sub /H256\(<\[u8; 32\] as AbiDecode>::decode\(input\)\.map_err\(\|_\w*\| err!\([^()]*\)\)\?\)/ => /mk256_(decode_hash_(input)?)/ 0
//@ sub /CURRENT_HEADER_CELL_ROOT\.with\(\|r\| \*r\.borrow\(\)\)/ => /root_()/ 0
//@ sub /&block_hash\.0/ => /block_hash.as_bytes()/ 0
//@ sub /<ckb_light_client_abi::Header as AbiDecode>::decode\(/ => /decode_header_(/ 0
//@ sub /AbiEncode::encode\(\(header,\)\)/ => /encode_header_(header)/ 0
//@ sub /err!\(\)/ => /Err(out_of_gas_())/
//@ sub /\s*\.map_err\(\|_\w*\| err!\([^()]*\)\)\?/ => /?/
//@ sub /\s*\.map_err\(\|_\w*\| err!\([^()]*\)\)/ => //
//@ sub /Err\(err!\([^()]*\)\)/ => /Err(other_())/
//@ sub /err!\([^()]*\)/ => /Err(other_())/
//@ sub /-> Result<\(PrecompileOutput, u64\), PrecompileFailure>/ => /-> Out/
//@ sub /(\w+)\.to_vec\(\)/ => /to_vec_(&\1)/
//@ spec
    requires headers_decode(), ensures paid(gas_limit, answer(r)) == priced(gas_limit, 42_000, get_header(input@)),
//@end
}
// the call of a CKB-VM program
#[verifier::external_body] pub struct EthBytes { x: u8 }
pub uninterp spec fn inner(b: EthBytes) -> Bytes;
#[verifier::external_body] pub fn bytes_0_(b: EthBytes) -> (r: Bytes) ensures r == inner(b) { unimplemented!() }
pub struct OutPoint { pub tx_hash: [u8; 32], pub index: u32 }
pub mod proto { use super::*; use super::super::sh::*;
//@item protocol/src/types/interoperation.rs :: struct CellDep
//@end
}
pub mod vm { use super::*; use super::super::sh::*;
broadcast use {num_axioms, bytes_axioms};
//@item core/executor/src/precompiles/call_ckb_vm.rs :: struct CellDep
//@end
//@item core/executor/src/precompiles/call_ckb_vm.rs :: struct CallCkbVmPayload
//@end
//@item core/interoperation/src/lib.rs :: const GAS_TO_CYCLE_COEF
//@ sub /\bconst GAS/ => /pub const GAS/
//@end
//@fn core/interoperation/src/lib.rs :: fn gas_to_cycle
//@ ret r
//@ spec
    ensures r == if gas * 6000 <= u64::MAX { (gas * 6000) as u64 } else { u64::MAX },
//@end
//@fn core/interoperation/src/lib.rs :: fn cycle_to_gas
//@ ret r
//@ spec
    ensures r == cycle / 6000,
//@end
#[verifier::external_body] pub fn h256_of_(x: [u8; 32]) -> (r: H256) ensures r == h256(x@) { unimplemented!() }
pub open spec fn named(c: CellDep) -> super::proto::CellDep { super::proto::CellDep { tx_hash: h256(c.out_point.tx_hash@), index: c.out_point.index, dep_type: c.dep_type } }
//@fn core/executor/src/precompiles/call_ckb_vm.rs :: impl From<CellDep> for protocol::types::CellDep/fn from
//@ ret r
//@ sub /fn from\(/ => /fn cell_dep_from_(/
//@ sub /-> Self/ => /-> super::proto::CellDep/
//@ sub /\bSelf \{/ => /super::proto::CellDep {/
//@ sub /v\.out_point\.tx_hash\.into\(\)/ => /h256_of_(v.out_point.tx_hash)/
//@ spec
    ensures r == named(v),
//@end
#[verifier::external_body] pub fn own_<T>(x: &T) -> (r: T) ensures r == *x { unimplemented!() }
pub uninterp spec fn call_of(s: Seq<u8>) -> Option<CallCkbVmPayload>;
#[verifier::external_body] pub fn decode_call_(s: &[u8]) -> (r: Result<(CallCkbVmPayload,), PrecompileFailure>) ensures match call_of(s@) { Some(p) => r is Ok && r.unwrap().0 == p, None => r is Err } { unimplemented!() }
pub open spec fn args(s: Seq<EthBytes>) -> Seq<Bytes> { Seq::new(s.len(), |i: int| inner(s[i])) }
//@fn core/executor/src/precompiles/call_ckb_vm.rs :: fn parse_input
//@ ret r
//@ sub /<\(CallCkbVmPayload,\) as AbiDecode>::decode\(input\)\.map_err\(\|_\w*\| err!\([^()]*\)\)\?/ => /decode_call_(input)?/ 0
//@ sub /i\.0\b/ => /bytes_0_(i)/ 0
//@ collect Bytes
//@ spec
    ensures match call_of(input@) { Some(p) => r is Ok && r.unwrap().0 == p.cell && r.unwrap().1@ =~= args(p.inputs@), None => r is Err },
//@ loop 0
    invariant at0_ <= payload.0.inputs@.len(), out0_@ =~= args(payload.0.inputs@).subrange(0, at0_ as int),
    decreases payload.0.inputs@.len() - at0_,
//@end
pub struct Ran { pub exit_code: i8, pub cycles: u64 }
pub uninterp spec fn exit_bytes(c: i8) -> Seq<u8>;
#[verifier::external_body] pub fn exit_bytes_(c: i8) -> (r: Vec<u8>) ensures r@ == exit_bytes(c) { unimplemented!() }
/// what the program of a cell answers, within a number of cycles (none: it fails)
pub uninterp spec fn ran(root: H256, cell: super::proto::CellDep, args: Seq<Bytes>, cycles: u64) -> Option<Ran>;
#[verifier::external_body] pub fn call_ckb_vm_(root: H256, cell: super::proto::CellDep, args: &Vec<Bytes>, cycles: u64) -> (r: Result<Ran, PrecompileFailure>)
    ensures match ran(root, cell, args@, cycles) { Some(x) => r is Ok && r.unwrap() == x, None => r is Err } { unimplemented!() }
pub open spec fn price(r: Ran) -> nat { if r.cycles / 6000 > 500 { (r.cycles / 6000) as nat } else { 500 } }
/// the limit is the budget of the run; an inquiry without a limit gets no answer
pub open spec fn call_vm(s: Seq<u8>, limit: Option<u64>) -> Option<Answer> { match (limit, call_of(s)) { (Some(l), Some(p)) => match ran(current_root(), named(p.cell), args(p.inputs@), if l * 6000 <= u64::MAX { (l * 6000) as u64 } else { u64::MAX }) { Some(x) => Some(Answer { out: exit_bytes(x.exit_code), gas: price(x) }), None => None }, _ => None } }
pub struct CallCkbVM;
impl CallCkbVM {
//@item core/executor/src/precompiles/call_ckb_vm.rs :: impl PrecompileContract for CallCkbVM/const ADDRESS
//@ sub /const ADDRESS: H160 = ([^;]+);/ => /pub fn ADDRESS_() -> (r: H160) ensures r@ == axon(4) { \1 }/
//@end
//@item core/executor/src/precompiles/call_ckb_vm.rs :: impl PrecompileContract for CallCkbVM/const MIN_GAS
//@ sub /\bconst MIN_GAS/ => /pub const MIN_GAS/
//@end
//@fn core/executor/src/precompiles/call_ckb_vm.rs :: impl PrecompileContract for CallCkbVM/fn exec_fn
//@ ret r
//@ sub /<InteroperationImpl as Interoperation>::call_ckb_vm\(\s*Default::default\(\),\s*&DataProvider::new\(CURRENT_HEADER_CELL_ROOT\.with\(\|r\| \*r\.borrow\(\)\)\),\s*cell_dep\.into\(\),/ => /call_ckb_vm_(root_(), cell_dep_from_(cell_dep),/
//@ sub /\s*\.map_err\(\|_?\w+\| err!\([^;]*?\)\)\?;/ => /?;/ 0
//@ sub /res\.exit_code\.to_le_bytes\(\)\.to_vec\(\)/ => /exit_bytes_(res.exit_code)/ 0
//@ sub /err!\(\)/ => /Err(out_of_gas_())/
//@ sub /\s*\.map_err\(\|_\w*\| err!\([^()]*\)\)\?/ => /?/
//@ sub /\s*\.map_err\(\|_\w*\| err!\([^()]*\)\)/ => //
//@ sub /Err\(err!\([^()]*\)\)/ => /Err(other_())/
//@ sub /err!\([^()]*\)/ => /Err(other_())/
//@ sub /-> Result<\(PrecompileOutput, u64\), PrecompileFailure>/ => /-> Out/
//@ sub /(\w+)\.to_vec\(\)/ => /to_vec_(&\1)/
//@ spec
    ensures paid(gas_limit, answer(r)) == paid(gas_limit, call_vm(input@, gas_limit)),
//@end
}
}

}
fn main() {}
}
