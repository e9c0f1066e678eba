//@include head.rs
pub mod sh {
use super::*;
//@include num.rs
//@include bytes.rs
//@include str.rs
pub enum TypesError { HexPrefix, FromHex, InvalidCheckSum, LengthMismatch { expect: usize, real_: usize }, InvalidPublicKey }
pub enum ProtocolError { Types(TypesError) }
impl FromSpecImpl<TypesError> for ProtocolError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(x: TypesError) -> ProtocolError { ProtocolError::Types(x) } }
impl From<TypesError> for ProtocolError { fn from(x: TypesError) -> ProtocolError { ProtocolError::Types(x) } }
pub type ProtocolResult<T> = Result<T, ProtocolError>;
//@include uint.rs
/// secp256k1's public keys: the 33-byte keys that lie on the curve, and their 65 uncompressed bytes
pub uninterp spec fn on_curve(k: Seq<u8>) -> bool;
pub uninterp spec fn uncompressed(k: Seq<u8>) -> Seq<u8>;
pub struct Secp256k1PublicKey { pub k: [u8; 33] }
pub const COMPRESSED_LEN: usize = 33;
pub const UNCOMPRESSED_LEN: usize = 65;
pub struct CryptoError;
impl Secp256k1PublicKey {
    #[verifier::external_body] pub fn try_from(b: &[u8]) -> (r: Result<Secp256k1PublicKey, CryptoError>) ensures r is Ok == (b@.len() == 33 && on_curve(b@)), r matches Ok(k) ==> k.k@ == b@ { unimplemented!() }
    #[verifier::external_body] pub fn to_uncompressed_bytes(&self) -> (r: Bytes) ensures r@ == uncompressed(self.k@), r@.len() == 65 { unimplemented!() }
}
#[verifier::external_body] pub fn bytes_from(b: &Bytes, i: usize) -> (r: Vec<u8>) requires i <= b@.len() ensures r@ == b@.skip(i as int) { unimplemented!() }
#[verifier::external_body] pub fn slice_of<B: AsBytes>(b: &B) -> (r: &[u8]) ensures r@ == b.bytes() { unimplemented!() }
}
use sh::*;
broadcast use {num_axioms, bytes_axioms, str_axioms};
// C08: numbers as text; the address of a public key.
//@include uint_node.rs
pub mod tools { use super::*;
//@item devtools/axon-tools/src/types.rs :: mod encode/static CHARS
//@ sub /static CHARS: &\[u8\] = b"(.)(.)(.)(.)(.)(.)(.)(.)(.)(.)(.)(.)(.)(.)(.)(.)"/ => /pub const CHARS: [u8; 16] = [b'\1', b'\2', b'\3', b'\4', b'\5', b'\6', b'\7', b'\8', b'\9', b'\10', b'\11', b'\12', b'\13', b'\14', b'\15', b'\16']/ 1
//@end
proof fn chars() ensures forall|i: int| 0 <= i < 16 ==> #[trigger] CHARS[i] == hexdig(i as u8)
{ assert(forall|i: int| 0 <= i < 16 ==> #[trigger] CHARS[i] == hexdig(i as u8)); }
//@fn devtools/axon-tools/src/types.rs :: mod encode/fn to_hex_raw
//@ ret r
//@ sub /v: &'a mut \[u8\]/ => /v: &mut [u8; 66]/ 1
//@ sub /-> &'a str/ => /-> Vec<u8>/ 1
//@ sub /<'a>/ => // 1
//@ sub /unsafe \{ std::str::from_utf8_unchecked\(&v\[0\.\.idx\]\) \}/ => /text_of(v, idx)/ 1
//@ sub /for &byte in bytes\.iter\(\)\.skip\(1\) \{/ => /for at_ in 1..bytes.len() { let byte = bytes[at_];/ 1
//@ spec
    requires 0 < bytes@.len() <= 32,
    ensures r@ == seq![48u8, 120u8] + (if skip_leading_zero { cut_zero(tohex(bytes@)) } else { tohex(bytes@) }),
//@ start
    proof { chars(); hexdig_ascii(); nibbles(bytes@[0]); }
    let ghost full = if skip_leading_zero { cut_zero(tohex(bytes@)) } else { tohex(bytes@) };
    let ghost cut: int = if full.len() < tohex(bytes@).len() { 1 } else { 0 };
//@ loopbefore 0
    proof { assert(tohex(bytes@)[0] == hexdig(bytes@[0] / 16)); assert(tohex(bytes@)[1] == hexdig(bytes@[0] % 16)); assert(v@.take(idx as int) =~= seq![48u8, 120u8] + tohex(bytes@).subrange(cut, 2)); }
//@ loop 0 it
    invariant 0 < bytes@.len() <= 32, idx == 2 * it.index@ + 4 - cut, 0 <= cut <= 1, forall|i: int| 0 <= i < 16 ==> #[trigger] CHARS[i] == hexdig(i as u8),
        forall|i: int| 0 <= i < it.seq().len() ==> #[trigger] it.seq()[i] == i + 1, it.seq().len() == bytes@.len() - 1,
        v@.take(idx as int) == seq![48u8, 120u8] + tohex(bytes@).subrange(cut, 2 * it.index@ + 2),
//@ loopstart 0
    let ghost byte_ = bytes@[at_ as int];
    proof { nibbles(byte_); assert(tohex(bytes@)[2 * at_] == hexdig(byte_ / 16)); assert(tohex(bytes@)[2 * at_ + 1] == hexdig(byte_ % 16)); }
    let ghost v0 = v@; let ghost idx0 = idx;
//@ loopend 0
    proof { assert(v@.take(idx as int) =~= v0.take(idx0 as int).push(hexdig(byte_ / 16)).push(hexdig(byte_ % 16)));
        assert(tohex(bytes@).subrange(cut, 2 * at_ + 2) =~= tohex(bytes@).subrange(cut, 2 * at_ as int).push(hexdig(byte_ / 16)).push(hexdig(byte_ % 16)));
        assert(v@.take(idx as int) =~= seq![48u8, 120u8] + tohex(bytes@).subrange(cut, 2 * at_ + 2)); }
//@ loopafter 0
    proof { assert(tohex(bytes@).subrange(cut, 2 * bytes@.len() as int) =~= full); hex_round(bytes@); assert(ascii(v@.take(idx as int))) by { assert forall|i: int| 0 <= i < idx implies #[trigger] v@.take(idx as int)[i] < 0x80 by { if i >= 2 { assert(v@.take(idx as int)[i] == tohex(bytes@)[i - 2 + cut]); } } } }
//@end
//@fn devtools/axon-tools/src/types.rs :: mod encode/fn serialize_uint
//@ ret r
//@ sub /S: Serializer,\s*U: Into<U256> \+ Copy,/ => /S: Serializer, U: Num,/ 1
//@ sub /bytes\.iter\(\)\.take_while\(\|b\| \*\*b == 0\)\.count\(\)/ => /leading_zeros(&bytes)/ 1
//@ sub /&bytes\[non_zero\.\.\]/ => /slice_subrange(bytes.as_slice(), non_zero, 32)/ 1
//@ sub /serialize_str\(("[^"]*")\)/ => /serialize_str(lit_bytes(\1))/
//@ spec
    ensures r == s.text(uint_text((*val).num())),
//@ start
    proof { zero_text(); lits();
        assert forall|b: Seq<u8>, k: int| 0 <= k <= b.len() && (forall|i: int| 0 <= i < k ==> b[i] == 0) implies be(#[trigger] b.subrange(k, b.len() as int)) == be(b) by { be_skip(b, k); assert(b.skip(k) =~= b.subrange(k, b.len() as int)); }
        assert forall|b: Seq<u8>| b.len() > 0 && b[0] != 0 implies cut_zero(tohex(b)) == digits(#[trigger] be(b)) by { digits_of(b); } }
//@end
}
/// the address of a public key: the last 20 bytes of the digest of its two coordinates
pub open spec fn key_address(k: Seq<u8>) -> Option<Seq<u8>> {
    if k.len() == 33 { if on_curve(k) { Some(keccak(uncompressed(k).skip(1))@.skip(12)) } else { None } }
    else if k.len() == 65 { Some(keccak(k.skip(1))@.skip(12)) } else { None }
}
//@item protocol/src/types/primitive.rs :: struct Address
//@end
impl Address {
//@fn protocol/src/types/primitive.rs :: impl Address/fn from_hash
//@ ret r
//@ sub /&hash\.as_bytes\(\)\[(\w+)\.\.\]/ => /slice_subrange(hash.as_bytes(), \1, 32)/
//@ spec
    ensures r.0@ == hash@.skip(12),
//@end
//@fn protocol/src/types/primitive.rs :: impl Address/fn from_pubkey_bytes
//@ ret r
//@ sub /<B: AsRef<\[u8\]>>/ => /<B: AsBytes>/ 1
//@ sub /<Secp256k1PublicKey as PublicKey>::LENGTH/ => /COMPRESSED_LEN/
//@ sub /<Secp256k1PublicKey as UncompressedPublicKey>::LENGTH/ => /UNCOMPRESSED_LEN/
//@ sub /bytes\.as_ref\(\)/ => /slice_of(&bytes)/ 1
//@ sub /\.map_err\(\|_\| TypesError::InvalidPublicKey\)\?/ => /.map_err(|_| ProtocolError::Types(TypesError::InvalidPublicKey))?/
//@ sub /&\(pubkey\.to_uncompressed_bytes\(\)\)\[1\.\.\]/ => /bytes_from(&pubkey.to_uncompressed_bytes(), 1)/
//@ sub /&slice\[1\.\.\]/ => /slice_subrange(slice, 1, slice.len())/
//@ spec
    ensures match key_address(bytes.bytes()) { Some(a) => r matches Ok(x) && x.0@ == a, None => r is Err },
//@ start
    proof { assert forall|b: Seq<u8>| b.len() > 0 implies #[trigger] b.subrange(1, b.len() as int) == b.skip(1) by { assert(b.subrange(1, b.len() as int) =~= b.skip(1)); } }
//@end
}
}
fn main() {}
