//@include head.rs
pub mod sh {
use super::*;
//@include num.rs
//@include bytes.rs
//@include rlp.rs
}
use sh::*;
// C05: a signed transaction is one item of the list it is part of.
pub mod batch {
use super::*;
use super::sh::*;
broadcast use {num_axioms, bytes_axioms, rlp_axioms};
#[verifier::external_body] pub struct UnverifiedTransaction { x: u8 }
/// its wire form (C01)
pub uninterp spec fn wire(t: UnverifiedTransaction) -> Seq<u8>;
impl UnverifiedTransaction { #[verifier::external_body] pub fn rlp_bytes(&self) -> (r: BytesMut) ensures r@ == wire(*self) { unimplemented!() } }
pub struct SignedTransaction { pub transaction: UnverifiedTransaction }
impl SignedTransaction {
//@fn protocol/src/codec/transaction.rs :: impl Encodable for SignedTransaction/fn rlp_append
//@ sub /s\.encoder\(\)\.encode_value\(&(self\.transaction\.rlp_bytes\(\))\)/ => /s.encode_value(\1.as_ref())/ 0
//@ spec
    ensures final(s)@ == old(s)@ + flat(Item::Str(wire(self.transaction))), final(s).noted() == old(s).noted(),
//@ start
    let ghost s0 = s@;
//@ end
    proof { assert(s@ =~= s0 + flat(Item::Str(wire(self.transaction)))); }
//@end
}
}
}
fn main() {}
