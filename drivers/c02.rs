//@extern protocol=axon_protocol axon_tools rlp overlord common_crypto=common_crypto serde_json core_consensus core_executor prost common_apm
// C02: every decoder returns for every input. Inputs: random bytes, and valid encodings of every type cut, extended, spliced and with bytes changed.
#[path = "common.rs"] mod axv;
#[path = "gen.rs"] mod gen;
#[path = "gen_tx.rs"] mod gen_tx;
mod endpoint { pub struct Endpoint(pub String); impl Endpoint { pub fn full_url(&self) -> &str { &self.0 } } }
mod error {
    #[derive(Debug)] pub enum ErrorKind { BadMessage(Box<dyn std::error::Error + Send>) }
    #[derive(Debug)] pub struct NetworkError(pub ErrorKind);
    impl From<ErrorKind> for NetworkError { fn from(e: ErrorKind) -> NetworkError { NetworkError(e) } }
}
#[path = "/repo/core/network/src/message/mod.rs"] mod message;
use axv::*;
use protocol::codec::{decode_256bits_key, hex_decode, ProtocolCodec};
use protocol::traits::MessageCodec;
use protocol::types::*;
use rlp::{Decodable, Encodable};
use std::str::FromStr;
fn mutate(r: &mut Rng, mut b: Vec<u8>) -> Vec<u8> {
    for _ in 0..r.below(4) {
        let n = b.len() as u64;
        match r.below(8) {
            0 => { let k = r.below(n + 1) as usize; b.truncate(k); }
            1 => { let k = r.below(9) as usize; let e = r.bytes(k); b.extend(e); }
            2 => if n > 0 { let i = r.below(n) as usize; b.remove(i); }
            3 => { let i = r.below(n + 1) as usize; let v = r.u8(); b.insert(i, v); }
            4 => if n > 0 { let i = r.below(n.min(6)) as usize; b[i] = *r.pick(&[0u8, 1, 2, 0x7f, 0x80, 0x81, 0xa0, 0xb7, 0xb8, 0xbf, 0xc0, 0xc1, 0xf7, 0xf8, 0xf9, 0xff]); }
            5 => if n > 0 { let i = r.below(n) as usize; b[i] ^= 1 << r.below(8); }
            6 => if n > 0 { let i = r.below(n) as usize; b[i] = r.u8(); }
            _ => if n > 2 { let i = r.below(n) as usize; let j = r.below(n) as usize; let (i, j) = (i.min(j), i.max(j)); let c = b[i..j].to_vec(); b.extend(c); }
        }
    }
    b
}
fn raw(r: &mut Rng) -> Vec<u8> {
    let mut b = r.blob(300);
    match r.below(4) { 0 => {}, 1 => b.insert(0, 0xc0 + (b.len() as u8).min(55)), 2 => { let k = r.below(3) as u8; b.insert(0, k) }, _ => { b = rlp::encode(&b).to_vec(); } }
    b
}
/// a list of the given items, each given as raw RLP or as random data
fn list(r: &mut Rng, n: usize) -> Vec<u8> {
    let mut s = rlp::RlpStream::new();
    s.begin_list(n);
    for _ in 0..n { match r.below(6) { 0 => { s.append(&r.int()); } 1 => { s.begin_list(0); } 2 => { let k = r.below(70) as usize; s.append(&r.bytes(k)); } 3 => { s.append_empty_data(); } 4 => { s.append(&gen::u256(r)); } _ => { s.append(&r.blob(100)); } } }
    s.out().to_vec()
}
fn input(r: &mut Rng, valid: Vec<u8>, arity: usize) -> Vec<u8> {
    match r.below(10) { 0 => raw(r), 1 | 2 => { let n = (arity as u64 + r.below(3)).saturating_sub(r.below(3)) as usize; let mut b = list(r, n); if r.one_in(3) { let t = *r.pick(&[1u8, 2, 0, 3]); b.insert(0, t); } b } 3 => valid, _ => mutate(r, valid) }
}
fn dec<T: Decodable + Encodable + Send>(b: &[u8]) {
    let _ = rlp::decode::<T>(b);
    let _ = <T as ProtocolCodec>::decode(b);
    let _ = rlp::Rlp::new(b).as_list::<T>();
    let _ = rlp::Rlp::new(b).as_val::<T>();
    let _ = rlp::Rlp::new(b).val_at::<T>(0);
}
macro_rules! fuzz { ($h:expr, $name:expr, $t:ty, $n:expr, $arity:expr, $g:expr) => { $h.check($name, $n, |r, d| { let v = rlp::encode(&$g(r)).to_vec(); let b = input(r, v, $arity); *d = hex(&b); dec::<$t>(&b); Ok(()) }); } }
fn main() {
    let mut h = H::new();
    h.once("empty", "the empty input to every decoder", || {
        let b: &[u8] = &[];
        dec::<UnverifiedTransaction>(b); dec::<SignedTransaction>(b); dec::<Block>(b); dec::<Header>(b); dec::<Proposal>(b); dec::<Proof>(b); dec::<Receipt>(b); dec::<Hex>(b); dec::<Address>(b); dec::<Metadata>(b);
        dec::<TxResp>(b); dec::<HardforkInfo>(b); dec::<ExtraData>(b); dec::<BlockVersion>(b);
        let _ = <Bytes as ProtocolCodec>::decode(b);
        let _ = BatchSignedTxs::decode_msg(Bytes::new()); let _ = BatchBlocks::decode_msg(Bytes::new());
        let _ = core_consensus::types::ConsensusRpcResponse::decode_msg(Bytes::new());
        let _ = (hex_decode(""), Hex::from_str(""), Address::from_str(""), Address::from_hex(""), decode_256bits_key(""));
        Ok(())
    });
    // every input of one and two bytes to the hand-written decoders
    h.once("all short inputs", "every input of one or two bytes", || {
        for a in 0..=255u8 { for b in -1i32..256 { let v: Vec<u8> = if b < 0 { vec![a] } else { vec![a, b as u8] };
            let _ = rlp::decode::<UnverifiedTransaction>(&v); let _ = rlp::decode::<SignedTransaction>(&v); let _ = rlp::decode::<Proposal>(&v); let _ = rlp::decode::<Receipt>(&v); let _ = rlp::decode::<TxResp>(&v);
            let _ = rlp::decode::<BlockVersion>(&v); let _ = rlp::decode::<Hex>(&v); let _ = rlp::decode::<Address>(&v); let _ = core_consensus::types::ConsensusRpcResponse::decode_msg(Bytes::from(v)); } }
        Ok(())
    });
    h.check("UnverifiedTransaction", 12000, |r, d| { let v = if r.bool() { gen::utx(r).rlp_bytes().to_vec() } else { gen_tx::stx(r).0.transaction.rlp_bytes().to_vec() };
        let n = *r.pick(&[9usize, 11, 12]); let b = input(r, v, n); *d = hex(&b); dec::<UnverifiedTransaction>(&b);
        let _ = <UnverifiedTransaction as Decodable>::decode(&rlp::Rlp::new(&b));
        if let Ok(t) = rlp::decode::<UnverifiedTransaction>(&b) { // what the node does next with one it got
            let _ = t.check_hash(); let _ = t.signature_hash(true); let _ = t.clone().calc_hash(); let _ = t.rlp_bytes();
            let s = SignedTransaction::from_unverified(t); if let Ok(s) = s { let _ = (s.type_(), s.get_to()); } }
        Ok(()) });
    h.check("SignedTransaction", 6000, |r, d| { let v = rlp::encode(&gen_tx::stx(r).0).to_vec(); let b = input(r, v, 1); let b = if r.bool() { rlp::encode(&{ let v = gen_tx::stx(r).0.transaction.rlp_bytes().to_vec(); input(r, v, 11) }).to_vec() } else { b };
        *d = hex(&b); dec::<SignedTransaction>(&b); Ok(()) });
    h.check("from_unverified", 8000, |r, d| { // any signature a decoder can hand over
        let mut t = gen::utx(r);
        let (n, m) = match r.below(6) { 0 => (32, 32), 1 => (0, 65), 2 => (0, 0), 3 => (1, 64), 4 => (r.range(0, 200) as usize, r.range(0, 200) as usize), _ => (65, 0) };
        let mut rr = r.bytes(n); if n > 0 && r.bool() { rr[0] = *r.pick(&[0u8, 1, 2, 0xff]); }
        if r.one_in(4) { let (g, _) = gen_tx::interop(r); rr = mutate(r, g.r.to_vec()); }
        let sig = SignatureComponents { r: Bytes::from(rr), s: Bytes::from(r.bytes(m)), standard_v: if t.unsigned.is_legacy() { r.below(2) as u8 } else { r.u8() } };
        *d = format!("{:?}", sig);
        let _ = (sig.is_eth_sig(), sig.len(), sig.as_bytes());
        if sig.r.len() + sig.s.len() != 64 || sig.r.len() == 32 { t.signature = Some(sig); let _ = SignedTransaction::from_unverified(t); }
        Ok(()) });
    fuzz!(h, "Proposal", Proposal, 4000, 13, gen::proposal);
    fuzz!(h, "Block", Block, 3000, 2, gen::block);
    fuzz!(h, "Header", Header, 3000, 17, gen::header);
    fuzz!(h, "Proof", Proof, 3000, 5, gen::proof);
    fuzz!(h, "Receipt", Receipt, 4000, 14, gen::receipt);
    fuzz!(h, "TxResp", TxResp, 4000, 8, gen::tx_resp);
    fuzz!(h, "BlockVersion", BlockVersion, 2000, 1, |_: &mut Rng| BlockVersion::V0);
    fuzz!(h, "Hex", Hex, 3000, 1, gen::hexv);
    fuzz!(h, "Address", Address, 3000, 1, |r: &mut Rng| Address(gen::h160(r)));
    fuzz!(h, "Metadata", Metadata, 2000, 5, gen::metadata);
    fuzz!(h, "ValidatorExtend", ValidatorExtend, 2000, 5, gen::validator_extend);
    fuzz!(h, "HardforkInfo", HardforkInfoInner, 2000, 2, gen::hardfork_inner);
    fuzz!(h, "Witness", Witness, 2000, 3, gen::witness);
    fuzz!(h, "CellDep", CellDep, 1000, 3, gen::cell_dep);
    h.check("batches", 2500, |r, d| {
        let n = gen::count(r).min(3); let v = if r.bool() { let l: Vec<SignedTransaction> = (0..n).map(|_| gen_tx::stx(r).0).collect(); rlp::encode_list::<SignedTransaction, _>(&l).to_vec() } else { let l: Vec<Block> = (0..n).map(|_| gen::block(r)).collect(); rlp::encode_list::<Block, _>(&l).to_vec() };
        let b = input(r, v, 2); *d = hex(&b); let b = Bytes::from(b);
        let _ = BatchSignedTxs::decode_msg(b.clone()); let _ = BatchBlocks::decode_msg(b); Ok(()) });
    h.check("sync messages", 3000, |r, d| {
        use core_consensus::types::*;
        let mut v = if r.bool() { rlp::encode(&gen::block(r)).to_vec() } else { rlp::encode_list::<SignedTransaction, _>(&[gen_tx::stx(r).0]).to_vec() };
        v.push(if r.one_in(5) { r.u8() } else { *r.pick(b"ab") });
        let v = input(r, v, 2); *d = hex(&v); let b = Bytes::from(v.clone());
        let _ = ConsensusRpcResponse::decode_msg(b.clone()); let _ = PullTxsRequest::decode_msg(b); Ok(()) });
    h.check("peer message headers", 3000, |r, d| {
        let mut m = message::NetworkMessage { headers: Default::default(), url: String::new(), content: r.blob(20) };
        let n = r.below(20) as usize; let t = match r.below(3) { 0 => r.bytes(n), 1 => format!("{:x}", r.int()).into_bytes(), _ => r.blob(60) };
        m.headers.insert("span_id".into(), r.bytes(n)); m.headers.insert("trace_id".into(), t);
        *d = format!("{:?}", m.headers.values().map(|v| hex(v)).collect::<Vec<_>>()); let _ = (m.span_id(), m.trace_id()); Ok(()) });
    h.check("text", 12000, |r, d| {
        let mut s: String = match r.below(6) { 0 => "0x".into(), 1 => "0X".into(), 2 => String::new(), 3 => "0x0x".into(), 4 => "0".into(), _ => "0x".into() };
        let n = match r.below(5) { 0 => 40, 1 => 64, 2 => r.range(36, 44), 3 => r.range(60, 140), _ => r.below(8) };
        for _ in 0..n { s.push(match r.below(30) { 0 => *r.pick(&['é', '中', '😀', '\u{212a}', 'ß', '\0', ' ', 'İ']), 1 => 'g', 2 => *r.pick(&['x', 'X', '0']), _ => *r.pick(&['0', '1', '9', 'a', 'f', 'A', 'F']) }); }
        *d = format!("{:?}", s);
        let _ = hex_decode(&s); let _ = Hex::from_str(&s); let _ = Address::from_str(&s); let _ = Address::from_hex(&s); let _ = decode_256bits_key(&s);
        let q = serde_json::to_string(&s).unwrap();
        let _ = serde_json::from_str::<Hex>(&q); let _ = serde_json::from_str::<Address>(&q); let _ = serde_json::from_str::<axon_tools::types::Hex>(&q);
        let _ = axon_tools::hex::hex_decode(&s); let _ = axon_tools::types::Hex::from_str(&s);
        let j = format!("{{\"start\":{},\"end\":{}}}", q, q); let _ = serde_json::from_str::<axon_tools::types::MetadataVersion>(&j);
        let j = format!("{{\"number\":{},\"round\":{},\"block_hash\":{},\"signature\":{},\"bitmap\":{}}}", q, q, q, q, q); let _ = serde_json::from_str::<axon_tools::types::Proof>(&j);
        let j = format!("{{\"address\":\"0x{}\",\"count\":{}}}", "00".repeat(20), q); let _ = serde_json::from_str::<axon_tools::types::ProposeCount>(&j);
        let j = format!("{{\"bls_pub_key\":\"0x\",\"pub_key\":\"0x\",\"address\":\"0x{}\",\"propose_weight\":{},\"vote_weight\":{}}}", "00".repeat(20), q, q); let _ = serde_json::from_str::<axon_tools::types::ValidatorExtend>(&j);
        Ok(()) });
    h.check("text bytes", 4000, |r, d| { let b = r.blob(150); *d = hex(&b); let _ = Address::from_bytes(Bytes::from(b.clone())); let _ = serde_json::from_slice::<Hex>(&b); let s = String::from_utf8_lossy(&b); let _ = (Hex::from_str(&s), Address::from_str(&s), Address::from_hex(&s), hex_decode(&s), decode_256bits_key(&s)); Ok(()) });
    h.check("light client rlp", 6000, |r, d| {
        use axon_tools::types as at;
        let (v, n) = match r.below(5) { 0 => (rlp::encode(&gen::block(r)).to_vec(), 2), 1 => (rlp::encode(&gen::header(r)).to_vec(), 17), 2 => (rlp::encode(&gen::metadata(r)).to_vec(), 5), 3 => (rlp::encode(&gen::validator_extend(r)).to_vec(), 5), _ => (rlp::encode(&gen::proof(r)).to_vec(), 5) };
        let b = input(r, v, n); *d = hex(&b);
        let _ = rlp::decode::<at::Block>(&b); let _ = rlp::decode::<at::Header>(&b); let _ = rlp::decode::<at::Metadata>(&b); let _ = rlp::decode::<at::ValidatorExtend>(&b); let _ = rlp::decode::<at::Proof>(&b);
        let _ = rlp::decode::<at::BlockVersion>(&b); let _ = rlp::decode::<at::Hex>(&b); let _ = rlp::decode::<at::ExtraData>(&b);
        Ok(()) });
    h.finish()
}
