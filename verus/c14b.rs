//@include head.rs
pub mod sh {
use super::*;
//@include num.rs
//@include bytes.rs
//@include str.rs
pub struct TypesError;
pub type Byte32Bytes = [u8; 32];
#[verifier::external_body] pub struct Byte32 { x: u8 }
pub uninterp spec fn byte32(s: Seq<u8>) -> Byte32;
impl Byte32 { #[verifier::external_body] pub fn clone(&self) -> (r: Byte32) ensures r == *self { unimplemented!() } }
impl PartialEqSpecImpl for Byte32 { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Byte32) -> bool { *self == *o } }
impl PartialEq for Byte32 { #[verifier::external_body] fn eq(&self, o: &Byte32) -> bool { unimplemented!() } }
#[verifier::external_body] pub fn pack_(x: &[u8; 32]) -> (r: Byte32) ensures r == byte32(x@) { unimplemented!() }
pub uninterp spec fn cbmt_root(s: Seq<Byte32>) -> Byte32;
pub uninterp spec fn cbmt_proves(indices: Seq<u32>, lemmas: Seq<Byte32>, root: Byte32, leaves: Seq<Byte32>) -> bool;
#[verifier::external_body] pub fn merkle_root(s: &[Byte32]) -> (r: Byte32) ensures r == cbmt_root(s@) { unimplemented!() }
pub struct MerkleProof { pub indices: Vec<u32>, pub lemmas: Vec<Byte32> }
impl MerkleProof { pub fn new(indices: Vec<u32>, lemmas: Vec<Byte32>) -> (r: MerkleProof) ensures r.indices == indices, r.lemmas == lemmas { MerkleProof { indices, lemmas } }
    // the library adds one to an index
    #[verifier::external_body] pub fn verify(&self, root: &Byte32, leaves: &Vec<Byte32>) -> (r: bool) requires forall|i: int| 0 <= i < self.indices@.len() ==> self.indices@[i] < u32::MAX
        ensures r == cbmt_proves(self.indices@, self.lemmas@, *root, leaves@) { unimplemented!() } }
#[verifier::external_body] pub fn has_(v: &Vec<u32>, x: u32) -> (r: bool) ensures r == exists|i: int| 0 <= i < v@.len() && v@[i] == x { unimplemented!() }
}
use sh::*;
broadcast use {num_axioms, bytes_axioms, str_axioms};
// C14: the light-client library's check of a CKB transaction's proof.
//@item devtools/axon-tools/src/precompile.rs :: struct Proof
//@end
//@item devtools/axon-tools/src/precompile.rs :: struct VerifyProofPayload
//@end
pub open spec fn packed(s: Seq<[u8; 32]>) -> Seq<Byte32> { Seq::new(s.len(), |i: int| byte32(s[i]@)) }
/// the two roots make up the root of the block's transactions, and the proof leads from the leaves to the root of their kind
pub open spec fn proves(p: VerifyProofPayload) -> bool {
    let raw = byte32(p.raw_transactions_root@); let wit = byte32(p.witnesses_root@);
    cbmt_root(seq![raw, wit]) == byte32(p.transactions_root@) && (forall|i: int| 0 <= i < p.proof.indices@.len() ==> #[trigger] p.proof.indices@[i] < u32::MAX)
        && cbmt_proves(p.proof.indices@, packed(p.proof.lemmas@), if p.verify_type == 0 { raw } else { wit }, packed(p.proof.leaves@)) }
//@fn devtools/axon-tools/src/precompile.rs :: fn verify_proof
//@ ret r
//@ sub /packed::Byte32/ => /Byte32/ 0
//@ sub /payload\s*\.proof\s*\.(lemmas|leaves)\s*\.iter/ => /payload.proof.\1.iter/ 0
//@ sub /(payload\.\w+)\.pack\(\)/ => /pack_(&\1)/ 0
//@ sub /\bl\.pack\(\)/ => /pack_(l)/ 0
//@ sub /payload\.proof\.indices\.contains\(&u32::MAX\)/ => /has_(&payload.proof.indices, u32::MAX)/ 0
//@ sub /-> Result<\(\), String>/ => /-> Result<(), Str>/ 1
//@ sub /String::from\(/ => /str_from(/
//@ sub /"([^"]*)"\.to_string\(\)/ => /str_from("\1")/
//@ collect Byte32 Byte32
//@ spec
    ensures r is Ok == proves(payload),
//@ loop 0
    invariant at0_ <= payload.proof.lemmas@.len(), out0_@.len() == at0_, forall|i: int| 0 <= i < at0_ ==> #[trigger] out0_@[i] == byte32(payload.proof.lemmas@[i]@), at0_ == payload.proof.lemmas@.len() ==> out0_@ =~= packed(payload.proof.lemmas@),
    decreases payload.proof.lemmas@.len() - at0_,
//@ loop 1
    invariant at1_ <= payload.proof.leaves@.len(), out1_@.len() == at1_, forall|i: int| 0 <= i < at1_ ==> #[trigger] out1_@[i] == byte32(payload.proof.leaves@[i]@), at1_ == payload.proof.leaves@.len() ==> out1_@ =~= packed(payload.proof.leaves@),
    decreases payload.proof.leaves@.len() - at1_,
//@end
}
fn main() {}
