// Signed transactions (real secp256k1 keys).
use crate::axv::Rng;
use crate::gen;
use common_crypto::{Crypto, PrivateKey, Secp256k1Recoverable, Secp256k1RecoverablePrivateKey, Signature, ToPublicKey, UncompressedPublicKey};
use protocol::types::*;
pub fn key(r: &mut Rng) -> Secp256k1RecoverablePrivateKey {
    loop { let b: Vec<u8> = (0..32).map(|_| r.u64() as u8).collect(); if let Ok(k) = Secp256k1RecoverablePrivateKey::try_from(b.as_slice()) { return k; } }
}
/// the account of a key: the last 20 bytes of the digest of its uncompressed public key without the leading 4
pub fn account(k: &Secp256k1RecoverablePrivateKey) -> (Public, H160) {
    let p = k.pub_key().to_uncompressed_bytes();
    (Public::from_slice(&p[1..65]), H160::from_slice(&Hasher::digest(&p[1..65]).as_bytes()[12..]))
}
pub fn sign(t: &mut UnverifiedTransaction, k: &Secp256k1RecoverablePrivateKey) {
    let s = Secp256k1Recoverable::sign_message(t.signature_hash(true).as_bytes(), &k.to_bytes()).unwrap().to_bytes();
    t.signature = Some(SignatureComponents { r: Bytes::from(s[0..32].to_vec()), s: Bytes::from(s[32..64].to_vec()), standard_v: s[64] });
}
/// an interoperation signature: r carries a marker and a cell dep with the public key
pub fn interop(r: &mut Rng) -> (SignatureComponents, Bytes) {
    let pk = Bytes::from({ let n = r.range(20, 70) as usize; r.bytes(n) });
    let mut b = vec![0u8];
    b.extend_from_slice(&rlp::encode(&CellDepWithPubKey { cell_dep: gen::cell_dep(r), pub_key: pk.clone() }));
    let n = r.range(33, 200) as usize;
    (SignatureComponents { r: Bytes::from(b), s: Bytes::from(r.bytes(n)), standard_v: r.below(2) as u8 }, pk)
}
/// signed transaction, its account, whether it is an Ethereum one
pub fn stx(r: &mut Rng) -> (SignedTransaction, H160, bool) {
    let mut t = gen::utx(r);
    if r.one_in(3) {
        let (g, pk) = interop(r);
        t.signature = Some(g);
        let a = H160::from_slice(&Hasher::digest(&pk).as_bytes()[12..]);
        t.hash = t.get_hash();
        (SignedTransaction { transaction: t, sender: a, public: Some(Public::zero()) }, a, false)
    } else {
        let k = key(r);
        sign(&mut t, &k);
        t.hash = t.get_hash();
        let (p, a) = account(&k);
        (SignedTransaction { transaction: t, sender: a, public: Some(p) }, a, true)
    }
}
