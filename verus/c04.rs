//@include head.rs
pub mod sh {
use super::*;
//@include num.rs
//@include bytes.rs
//@include rlp.rs
//@include types.rs
}
use sh::*;
//@include tx.rs
// C04: who a transaction's sender is.
broadcast use {num_axioms, bytes_axioms, rlp_axioms, vec_axioms};

// ---- the signature library: recovery is a function of digest and signature; the key comes uncompressed (65 bytes) ----
pub uninterp spec fn recovers(h: Seq<u8>, s: Seq<u8>) -> Option<RecoveredKey>;
#[verifier::external_body] pub struct RecoveredKey { x: u8 }
impl RecoveredKey {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn serialize_uncompressed(&self) -> (r: Vec<u8>) ensures r@ == self@, r@.len() == 65 { unimplemented!() }
}
#[verifier::external_body] pub fn secp256k1_recover(h: &[u8], s: &[u8]) -> (r: Result<RecoveredKey, CryptoError>)
    requires s@.len() == 65,
    ensures match recovers(h@, s@) { Some(k) => r == Ok::<RecoveredKey, CryptoError>(k), None => r is Err } { unimplemented!() }
impl H512 {
    #[verifier::external_body] pub fn from_slice(s: &[u8]) -> (r: H512) requires s@.len() == 64 ensures r@ == s@ { unimplemented!() }
    #[verifier::external_body] pub fn zero() -> (r: H512) ensures r@ == Seq::new(64, |i: int| 0u8) { unimplemented!() }
}
impl AsBytes for &H512 { open spec fn bytes(&self) -> Seq<u8> { (**self)@ } }
// the last 20 bytes of a 32-byte hash
impl FromSpecImpl<H256> for H160 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(x: H256) -> H160 { addr_of(x) } }
impl From<H256> for H160 { #[verifier::external_body] fn from(x: H256) -> H160 { unimplemented!() } }
impl H160 { #[verifier::external_body] pub fn copy_from(&mut self, s: &[u8]) requires s@.len() == 20 ensures final(self)@ == s@ { unimplemented!() } }
pub open spec fn addr_of(h: H256) -> H160 { h160(h@.skip(12)) }
pub enum ProtocolError { Types(TypesError) }
impl FromSpecImpl<TypesError> for ProtocolError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(x: TypesError) -> ProtocolError { ProtocolError::Types(x) } }
impl From<TypesError> for ProtocolError { fn from(x: TypesError) -> ProtocolError { ProtocolError::Types(x) } }
pub type ProtocolResult<T> = Result<T, ProtocolError>;
pub mod rlp { use super::*;
    #[verifier::external_body] pub fn decode<T: Dec>(b: &[u8]) -> (r: Result<T, DecoderError>) ensures r matches Ok(x) ==> T::fits(parse(b@)) && x == T::of(parse(b@)), T::fits(parse(b@)) ==> r is Ok { unimplemented!() }
}
// derived Clone, Default
impl Clone for UnsignedTransaction { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for LegacyTransaction { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for SignatureComponents { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
// contracts established by C01's check
impl UnverifiedTransaction {
    #[verifier::external_body] pub fn rlp_bytes(&self) -> (r: BytesMut) requires tx_enc_ok(*self) ensures r@ == tx_bytes(*self) { unimplemented!() }
    #[verifier::external_body] pub fn decode(r: &Rlp) -> (res: Result<UnverifiedTransaction, DecoderError>) ensures res matches Ok(t) ==> decoded(r.raw(), t) && tx_enc_ok(t) && t.signature is Some { unimplemented!() }
}
impl LegacyTransaction {
    #[verifier::external_body] pub fn rlp_encode(&self, rlp: &mut RlpStream, chain_id: Option<u64>, signature: Option<&SignatureComponents>)
        requires tx_enc_ok(UnverifiedTransaction { unsigned: UnsignedTransaction::Legacy(*self), chain_id, signature: None, hash: h256(seq![]) }), signature is None
        ensures final(rlp)@ == old(rlp)@ + flat(legacy_item(*self, chain_id, None)) { unimplemented!() }
}
/// t is what decoding b gave
pub uninterp spec fn decoded(b: Seq<u8>, t: UnverifiedTransaction) -> bool;

pub open spec fn with_sig(t: UnverifiedTransaction, c: Option<u64>, g: Option<SignatureComponents>) -> UnverifiedTransaction { UnverifiedTransaction { unsigned: t.unsigned, chain_id: c, signature: g, hash: t.hash } }
/// the digest that is signed: over the content without signature, chain id included
pub open spec fn sighash(t: UnverifiedTransaction) -> H256 { keccak(tx_bytes(with_sig(t, t.chain_id, None))) }
pub open spec fn sig_bytes(g: SignatureComponents) -> Seq<u8> { g.r@ + g.s@ + seq![g.standard_v] }
pub open spec fn key_bytes(k: RecoveredKey) -> Seq<u8> { k@.subrange(1, 65) }
pub open spec fn full_hash(t: UnverifiedTransaction) -> H256 { keccak(tx_bytes(t)) }
/// the key an interoperation signature carries
pub open spec fn carried(g: SignatureComponents) -> Option<CellDepWithPubKey> {
    if g.r@.len() > 0 && g.r@[0] == 0 && CellDepWithPubKey::fits(parse(g.r@.skip(1))) { Some(CellDepWithPubKey::of(parse(g.r@.skip(1)))) } else { None }
}
pub open spec fn sender_ok(t: UnverifiedTransaction, sender: H160, public: Option<Public>) -> bool {
    t.signature matches Some(g) && (if eth(g) { recovers(sighash(t)@, sig_bytes(g)) matches Some(k) && sender == addr_of(keccak(key_bytes(k))) && (public matches Some(p) && p@ == key_bytes(k)) }
        else { carried(g) matches Some(c) && sender == addr_of(keccak(c.pub_key@)) && (public matches Some(p) && p@ =~= Seq::new(64, |i: int| 0u8)) })
}
pub open spec fn has_sender(t: UnverifiedTransaction) -> bool {
    t.signature matches Some(g) && (if eth(g) { recovers(sighash(t)@, sig_bytes(g)) is Some } else { carried(g) is Some })
}
//@item protocol/src/types/transaction.rs :: struct SignedTransaction
//@end
proof fn tx_bytes_no_hash(a: UnverifiedTransaction, b: UnverifiedTransaction) requires a.unsigned == b.unsigned, a.signature == b.signature, a.chain_id == b.chain_id ensures tx_bytes(a) == tx_bytes(b) {}

//@fn protocol/src/types/transaction.rs :: fn public_to_address
//@ ret r
//@ sub /ret\.as_bytes_mut\(\)\.copy_from_slice\(&hash\[(\w+)\.\.\]\)/ => /ret.copy_from(slice_subrange(hash.as_bytes(), \1, 32))/ 1
//@ spec
    ensures r == addr_of(keccak(public@)),
//@end
impl UnsignedTransaction {
//@fn protocol/src/types/transaction.rs :: impl UnsignedTransaction/fn encode
//@ ret r
//@ sub /Default::default\(\)/ => /H256::zero()/
//@ spec
    requires tx_enc_ok(UnverifiedTransaction { unsigned: *self, chain_id, signature, hash: h256(seq![]) }),
    ensures r@ == tx_bytes(UnverifiedTransaction { unsigned: *self, chain_id, signature, hash: h256(seq![]) }),
//@end
//@fn protocol/src/types/transaction.rs :: impl UnsignedTransaction/fn get_legacy
//@ ret r
//@ spec
    ensures match *self { UnsignedTransaction::Legacy(t) => r == Some(t), _ => r is None },
//@end
}
impl SignatureComponents {
//@item protocol/src/types/transaction.rs :: impl SignatureComponents/const SECP256K1_SIGNATURE_LEN
//@end
//@fn protocol/src/types/transaction.rs :: impl From<SignatureComponents> for Bytes/fn from
//@ sub /fn from\(/ => /fn to_bytes(/ 1
//@ ret r
//@ sub /-> Self/ => /-> Bytes/
//@ sub /BytesMut::from\(sc\.r\.as_ref\(\)\)/ => /bytes_mut_from(sc.r.as_ref())/
//@ spec
    ensures r@ == sig_bytes(sc),
//@end
//@fn protocol/src/types/transaction.rs :: impl SignatureComponents/fn as_bytes
//@ ret r
//@ sub /self\.clone\(\)\.into\(\)/ => /SignatureComponents::to_bytes(self.clone())/ 1
//@ spec
    ensures r@ == sig_bytes(*self),
//@end
//@fn protocol/src/types/transaction.rs :: impl SignatureComponents/fn len
//@ ret r
//@ spec
    requires sig_lens(*self),
    ensures r == self.r@.len() + self.s@.len() + 1,
//@end
//@fn protocol/src/types/transaction.rs :: impl SignatureComponents/fn is_eth_sig
//@ ret r
//@ spec
    requires sig_lens(*self),
    ensures r == eth(*self),
//@end
//@fn protocol/src/types/transaction.rs :: impl SignatureComponents/fn extract_interoperation_tx_sender
//@ ret r
//@ sub /\.map_err\(TypesError::(\w+)\)/ => /.map_err(|e| TypesError::\1(e))/
//@ spec
    ensures match carried(*self) { Some(c) => r == Ok::<H160, ProtocolError>(addr_of(keccak(c.pub_key@))), None => r is Err },
//@end
}
impl UnverifiedTransaction {
//@fn protocol/src/types/transaction.rs :: impl UnverifiedTransaction/fn get_hash
//@ ret r
//@ spec
    requires tx_enc_ok(*self),
    ensures r == full_hash(*self),
//@end
//@fn protocol/src/types/transaction.rs :: impl UnverifiedTransaction/fn calc_hash
//@ ret r
//@ sub /debug_assert!\(self\.signature\.is_some\(\)\);/ => /assert(self.signature is Some);/
//@ spec
    requires tx_enc_ok(self), self.signature is Some,
    ensures r.unsigned == self.unsigned, r.signature == self.signature, r.chain_id == self.chain_id, r.hash == full_hash(self),
//@end
//@fn protocol/src/types/transaction.rs :: impl UnverifiedTransaction/fn check_hash
//@ ret r
//@ spec
    requires tx_enc_ok(*self),
    ensures r is Ok == (self.hash == full_hash(*self)),
//@end
//@fn protocol/src/types/transaction.rs :: impl UnverifiedTransaction/fn signature_hash
//@ ret r
//@ spec
    requires tx_enc_ok(*self),
    ensures with_chain_id ==> r == sighash(*self), !with_chain_id ==> r == keccak(tx_bytes(with_sig(*self, if self.unsigned is Legacy { None } else { self.chain_id }, None))),
//@ start
    proof {
        if self.unsigned is Legacy {
            let x = self.unsigned->Legacy_0;
            assert(Seq::<Tok>::empty() + flat(legacy_item(x, None, None)) =~= flat(legacy_item(x, None, None)));
            assert(tx_bytes(with_sig(*self, None, None)) =~= ser(flat(legacy_item(x, None, None))));
        }
    }
//@end
//@fn protocol/src/types/transaction.rs :: impl UnverifiedTransaction/fn recover_public
//@ ret r
//@ sub /\.map_err\(TypesError::(\w+)\)/ => /.map_err(|e| TypesError::\1(e))/
//@ sub /&(secp256k1_recover\(.*?\.serialize_uncompressed\(\))\[1\.\.65\]/ => /slice_subrange(\1.as_slice(), 1, 65)/ 1
//@ spec
    requires tx_enc_ok(*self), self.signature matches Some(g) ==> eth(g),
    ensures r matches Ok(p) ==> (self.signature matches Some(g) && (recovers(if with_chain_id { sighash(*self) } else { keccak(tx_bytes(with_sig(*self, if self.unsigned is Legacy { None } else { self.chain_id }, None))) }@, sig_bytes(g)) matches Some(k) && p@ == key_bytes(k))),
//@end
}
impl SignedTransaction {
//@fn protocol/src/types/transaction.rs :: impl SignedTransaction/fn from_unverified
//@ ret r
//@ sub /\.map_err\(TypesError::(\w+)\)/ => /.map_err(|e| TypesError::\1(e))/
//@ sub /&(secp256k1_recover\(.*?\.serialize_uncompressed\(\))\[1\.\.65\]/ => /slice_subrange(\1.as_slice(), 1, 65)/ 1
//@ spec
    requires tx_enc_ok(utx),
    ensures r matches Ok(s) ==> sender_ok(utx, s.sender, s.public) && s.transaction.unsigned == utx.unsigned && s.transaction.signature == utx.signature && s.transaction.chain_id == utx.chain_id && s.transaction.hash == full_hash(utx),
        r is Ok == has_sender(utx),
//@end
//@fn protocol/src/codec/transaction.rs :: impl Decodable for SignedTransaction/fn decode
//@ ret res
//@ sub /&(secp256k1_recover\(.*?\.serialize_uncompressed\(\))\[1\.\.65\]/ => /slice_subrange(\1.as_slice(), 1, 65)/ 1
//@ spec
    ensures res matches Ok(s) ==> sender_ok(s.transaction, s.sender, s.public) && (r@ matches Item::Str(b) ==> decoded(b, s.transaction)),
//@end
}
#[verifier::external_body] pub fn bytes_mut_from(b: &[u8]) -> (r: BytesMut) ensures r@ == b@ { unimplemented!() }
}
fn main() {}
