//@include head.rs
pub mod sh {
use super::*;
//@include num.rs
//@include bytes.rs
//@include rlp.rs
//@include types.rs
}
use sh::*;
//@include tx.rs
// C02: no byte string makes a decoder panic. The contracts say nothing about results except where a caller's safety needs it;
// what is discharged is that no index, slice, arithmetic or unwrap in a decoder can fail, for any input.
broadcast use {num_axioms, bytes_axioms, rlp_axioms, vec_axioms};
impl FromSpecImpl<&[u8]> for U256 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(x: &[u8]) -> U256 { u256(be(x@)) } }
impl From<&[u8]> for U256 { #[verifier::external_body] fn from(x: &[u8]) -> U256 { unimplemented!() } }
#[verifier::external_body] pub fn be32(u: &U256) -> (r: Vec<u8>) ensures r@.len() == 32 { unimplemented!() }
#[verifier::external_body] pub fn concat2(t: u8, b: &[u8]) -> (r: Vec<u8>) ensures r@ == seq![t] + b@ { unimplemented!() }
#[verifier::external_body] pub fn bytes_mut_from(b: &[u8]) -> (r: BytesMut) ensures r@ == b@ { unimplemented!() }
#[verifier::external_body] pub struct RecoveredKey { x: u8 }
impl RecoveredKey {
    #[verifier::external_body] pub fn serialize_uncompressed(&self) -> (r: Vec<u8>) ensures r@.len() == 65 { unimplemented!() }
}
// the signature library takes 65-byte signatures
#[verifier::external_body] pub fn secp256k1_recover(h: &[u8], s: &[u8]) -> (r: Result<RecoveredKey, CryptoError>) requires s@.len() == 65 { unimplemented!() }
impl H512 {
    #[verifier::external_body] pub fn from_slice(s: &[u8]) -> (r: H512) requires s@.len() == 64 ensures r@ == s@ { unimplemented!() }
    #[verifier::external_body] pub fn zero() -> (r: H512) { unimplemented!() }
}
impl AsBytes for &H512 { open spec fn bytes(&self) -> Seq<u8> { (**self)@ } }
impl FromSpecImpl<H256> for H160 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(x: H256) -> H160 { h160(x@.skip(12)) } }
impl From<H256> for H160 { #[verifier::external_body] fn from(x: H256) -> H160 { unimplemented!() } }
impl H160 { #[verifier::external_body] pub fn copy_from(&mut self, s: &[u8]) requires s@.len() == 20 ensures final(self)@ == s@ { unimplemented!() } }
pub enum ProtocolError { Types(TypesError) }
impl FromSpecImpl<TypesError> for ProtocolError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(x: TypesError) -> ProtocolError { ProtocolError::Types(x) } }
impl From<TypesError> for ProtocolError { fn from(x: TypesError) -> ProtocolError { ProtocolError::Types(x) } }
pub type ProtocolResult<T> = Result<T, ProtocolError>;
pub mod rlp { use super::*;
    #[verifier::external_body] pub fn decode<T: Dec>(b: &[u8]) -> (r: Result<T, DecoderError>) { unimplemented!() }
}
impl Clone for UnsignedTransaction { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for LegacyTransaction { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for SignatureComponents { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub open spec fn sig_of(s: Option<&SignatureComponents>) -> Option<SignatureComponents> { match s { Some(g) => Some(*g), None => None } }

//@fn protocol/src/codec/transaction.rs :: fn truncate_slice
//@ ret r
//@ spec
    ensures r@.len() <= n, s@.len() <= n ==> r@.len() == s@.len(),
//@end
//@fn protocol/src/types/transaction.rs :: fn public_to_address
//@ ret r
//@ sub /ret\.as_bytes_mut\(\)\.copy_from_slice\(&hash\[(\w+)\.\.\]\)/ => /ret.copy_from(slice_subrange(hash.as_bytes(), \1, 32))/ 1
//@end
impl SignatureComponents {
//@item protocol/src/types/transaction.rs :: impl SignatureComponents/const SECP256K1_SIGNATURE_LEN
//@end
//@fn protocol/src/types/transaction.rs :: impl SignatureComponents/fn len
//@ ret r
//@ spec
    requires sig_lens(*self),
    ensures r == self.r@.len() + self.s@.len() + 1,
//@end
//@fn protocol/src/types/transaction.rs :: impl SignatureComponents/fn is_eth_sig
//@ ret r
//@ spec
    requires sig_lens(*self),
    ensures r == eth(*self),
//@end
//@fn protocol/src/types/transaction.rs :: impl SignatureComponents/fn add_chain_replay_protection
//@ ret r
//@ spec
    requires self.standard_v <= 1, v_of(self.standard_v as int, chain_id) <= u64::MAX,
//@ closure 0
    -> (o: u64) requires 2 * i + 35 <= u64::MAX, ensures o == 2 * i + 35,
//@end
//@fn protocol/src/types/transaction.rs :: impl SignatureComponents/fn extract_standard_v
//@ ret r
//@ spec
    ensures r matches Some(p) ==> p <= 1 && (v >= 35 ==> p == (v - 35) % 2) && (v < 35 ==> v == 27 + p),
//@end
//@fn protocol/src/types/transaction.rs :: impl SignatureComponents/fn extract_chain_id
//@ ret r
//@ spec
    ensures v < 35 ==> r is None, v >= 35 ==> (r matches Some(i) && i == (v - 35) / 2),
//@end
//@fn protocol/src/codec/transaction.rs :: impl Encodable for SignatureComponents/fn rlp_append
//@ spec
    requires sig_lens(*self),
//@end
//@fn protocol/src/types/transaction.rs :: impl From<SignatureComponents> for Bytes/fn from
//@ sub /fn from\(/ => /fn to_bytes(/ 1
//@ ret r
//@ sub /-> Self/ => /-> Bytes/
//@ sub /BytesMut::from\(sc\.r\.as_ref\(\)\)/ => /bytes_mut_from(sc.r.as_ref())/
//@ spec
    ensures r@.len() == sc.r@.len() + sc.s@.len() + 1,
//@end
//@fn protocol/src/types/transaction.rs :: impl SignatureComponents/fn as_bytes
//@ ret r
//@ sub /self\.clone\(\)\.into\(\)/ => /SignatureComponents::to_bytes(self.clone())/ 1
//@ spec
    ensures r@.len() == self.r@.len() + self.s@.len() + 1,
//@end
//@fn protocol/src/types/transaction.rs :: impl SignatureComponents/fn extract_interoperation_tx_sender
//@ ret r
//@ sub /\.map_err\(TypesError::(\w+)\)/ => /.map_err(|e| TypesError::\1(e))/
//@end
//@fn protocol/src/codec/transaction.rs :: impl SignatureComponents/fn rlp_decode
//@ ret res
//@ sub /<H256 as BigEndianHash>::from_uint\(&tmp_r\)\s*\.as_bytes\(\)\s*\.to_vec\(\)/ => /be32(&tmp_r)/ 1
//@ sub /<H256 as BigEndianHash>::from_uint\(&tmp_s\)\s*\.as_bytes\(\)\s*\.to_vec\(\)/ => /be32(&tmp_s)/ 1
//@ spec
    requires offset <= 1000,
    ensures res matches Ok(g) ==> sig_lens(g) && (legacy_v matches Some(n) ==> g.standard_v <= 1 && (n >= 35 ==> g.standard_v == (n - 35) % 2) && (n < 35 ==> n == 27 + g.standard_v)),
//@end
}
/// what the encoders need of a transaction: v of a legacy signature can be computed
pub open spec fn sound(t: UnverifiedTransaction) -> bool {
    t.signature matches Some(g) ==> sig_lens(g) && (t.unsigned is Legacy ==> g.standard_v <= 1 && v_of(g.standard_v as int, t.chain_id) <= u64::MAX)
}
pub open spec fn enc_sound(c: Option<u64>, s: Option<&SignatureComponents>) -> bool { s matches Some(g) ==> sig_lens(*g) && g.standard_v <= 1 && v_of(g.standard_v as int, c) <= u64::MAX }
impl LegacyTransaction {
//@fn protocol/src/codec/transaction.rs :: impl LegacyTransaction/fn rlp_encode
//@ spec
    requires enc_sound(chain_id, signature),
//@end
//@fn protocol/src/codec/transaction.rs :: impl LegacyTransaction/fn rlp_decode
//@ ret res
//@ spec
    ensures res matches Ok(t) ==> sound(t) && t.signature is Some,
//@end
}
impl Eip2930Transaction {
//@fn protocol/src/codec/transaction.rs :: impl Eip2930Transaction/fn rlp_encode
//@ spec
    requires signature matches Some(g) ==> sig_lens(*g),
//@end
//@fn protocol/src/codec/transaction.rs :: impl Eip2930Transaction/fn rlp_decode
//@ ret res
//@ sub /Hasher::digest\(\[&\[tx\.as_u8\(\)\], r\.as_raw\(\)\]\.concat\(\)\)/ => /Hasher::digest(concat2(tx.as_u8(), r.as_raw()))/ 1
//@ spec
    ensures res matches Ok(t) ==> sound(t) && t.signature is Some,
//@end
}
impl Eip1559Transaction {
//@fn protocol/src/codec/transaction.rs :: impl Eip1559Transaction/fn rlp_encode
//@ spec
    requires signature matches Some(g) ==> sig_lens(*g),
//@end
//@fn protocol/src/codec/transaction.rs :: impl Eip1559Transaction/fn rlp_decode
//@ ret res
//@ sub /Hasher::digest\(\[&\[tx\.as_u8\(\)\], r\.as_raw\(\)\]\.concat\(\)\)/ => /Hasher::digest(concat2(tx.as_u8(), r.as_raw()))/ 1
//@ spec
    ensures res matches Ok(t) ==> sound(t) && t.signature is Some,
//@end
}
impl UnsignedTransaction {
//@fn protocol/src/types/transaction.rs :: impl UnsignedTransaction/fn is_legacy
//@ ret r
//@ spec
    ensures r == (self is Legacy),
//@end
//@fn protocol/src/types/transaction.rs :: impl UnsignedTransaction/fn as_u8
//@ ret r
//@ spec
    requires !(self is Legacy),
//@end
//@fn protocol/src/types/transaction.rs :: impl UnsignedTransaction/fn encode
//@ ret r
//@ sub /Default::default\(\)/ => /H256::zero()/
//@ spec
    requires sound(UnverifiedTransaction { unsigned: *self, chain_id, signature, hash: h256(seq![]) }),
//@end
//@fn protocol/src/types/transaction.rs :: impl UnsignedTransaction/fn get_legacy
//@ ret r
//@ spec
    ensures self is Legacy ==> r is Some,
//@end
}
impl UnverifiedTransaction {
//@fn protocol/src/codec/transaction.rs :: impl Encodable for UnverifiedTransaction/fn rlp_append
//@ spec
    requires sound(*self),
//@end
//@fn protocol/src/codec/transaction.rs :: impl Encodable for UnverifiedTransaction/fn rlp_bytes
//@ ret r
//@ spec
    requires sound(*self),
//@end
//@fn protocol/src/codec/transaction.rs :: impl Decodable for UnverifiedTransaction/fn decode
//@ ret res
//@ spec
    ensures res matches Ok(t) ==> sound(t) && t.signature is Some,
//@end
//@fn protocol/src/types/transaction.rs :: impl UnverifiedTransaction/fn get_hash
//@ spec
    requires sound(*self),
//@end
//@fn protocol/src/types/transaction.rs :: impl UnverifiedTransaction/fn calc_hash
//@ ret r
//@ sub /debug_assert!\(self\.signature\.is_some\(\)\);/ => /assert(self.signature is Some);/
//@ spec
    requires sound(self), self.signature is Some,
    ensures r.unsigned == self.unsigned, r.signature == self.signature, r.chain_id == self.chain_id,
//@end
//@fn protocol/src/types/transaction.rs :: impl UnverifiedTransaction/fn check_hash
//@ spec
    requires sound(*self),
//@end
//@fn protocol/src/types/transaction.rs :: impl UnverifiedTransaction/fn signature_hash
//@ ret r
//@ spec
    requires sound(*self),
//@end
//@fn protocol/src/types/transaction.rs :: impl UnverifiedTransaction/fn recover_public
//@ ret r
//@ sub /\.map_err\(TypesError::(\w+)\)/ => /.map_err(|e| TypesError::\1(e))/
//@ sub /&(secp256k1_recover\(.*?\.serialize_uncompressed\(\))\[1\.\.65\]/ => /slice_subrange(\1.as_slice(), 1, 65)/ 1
//@ spec
    requires sound(*self), self.signature matches Some(g) ==> eth(g),
//@end
}
//@item protocol/src/types/transaction.rs :: struct SignedTransaction
//@end
impl SignedTransaction {
//@fn protocol/src/types/transaction.rs :: impl SignedTransaction/fn from_unverified
//@ ret r
//@ sub /\.map_err\(TypesError::(\w+)\)/ => /.map_err(|e| TypesError::\1(e))/
//@ sub /&(secp256k1_recover\(.*?\.serialize_uncompressed\(\))\[1\.\.65\]/ => /slice_subrange(\1.as_slice(), 1, 65)/ 1
//@ spec
    requires sound(utx),
//@end
//@fn protocol/src/codec/transaction.rs :: impl Decodable for SignedTransaction/fn decode
//@ ret res
//@ sub /&(secp256k1_recover\(.*?\.serialize_uncompressed\(\))\[1\.\.65\]/ => /slice_subrange(\1.as_slice(), 1, 65)/ 1
//@end
}
impl BlockVersion {
//@fn protocol/src/types/block.rs :: impl TryFrom<u8> for BlockVersion/fn try_from
//@ ret r
//@ sub /Self::Error/ => /TypesError/ 1
//@end
//@fn protocol/src/codec/block.rs :: impl Decodable for BlockVersion/fn decode
//@ ret res
//@ sub /ver\.try_into\(\)/ => /BlockVersion::try_from(ver)/ 1
//@end
}
impl Proposal {
//@fn protocol/src/codec/block.rs :: impl Decodable for Proposal/fn decode
//@ ret res
//@ sub /\*\*CHAIN_ID\.load\(\)/ => /the_chain_id()/ 1
//@end
}
impl Receipt {
//@fn protocol/src/codec/receipt.rs :: impl Decodable for Receipt/fn decode
//@ ret res
//@end
}
impl TxResp {
//@fn protocol/src/codec/executor.rs :: impl Decodable for TxResp/fn decode
//@ ret res
//@end
}
impl Hex {
//@fn protocol/src/types/primitive.rs :: impl Hex/fn encode
//@ ret r
//@ sub /<T: AsRef<\[u8\]>>/ => /<T: AsBytes>/ 1
//@ sub /BytesMut::from\(src\.as_ref\(\)\)\.freeze\(\)/ => /copied(src)/
//@end
//@fn protocol/src/codec/mod.rs :: impl Decodable for Hex/fn decode
//@ ret res
//@end
}
impl Address {
//@fn protocol/src/codec/mod.rs :: impl Decodable for Address/fn decode
//@ ret res
//@end
}
#[verifier::external_body] pub fn copied<T: AsBytes>(s: T) -> (r: Bytes) ensures r@ == s.bytes() { unimplemented!() }
}
fn main() {}
