//@extern protocol=axon_protocol axon_tools rlp overlord serde_json
// C13: the same content, encoded by the node's types and by the light-client library's, gives the same bytes and digests.
#[path = "common.rs"] mod axv;
#[path = "gen.rs"] mod gen;
use axon_tools::types as at;
use axv::*;
use protocol::types::*;
use rlp::{Decodable, Encodable};
fn proof(p: &Proof) -> at::Proof { at::Proof { number: p.number, round: p.round, proposal_hash: p.block_hash.0.into(), signature: p.signature.clone(), bitmap: p.bitmap.clone() } }
fn extra(e: &[ExtraData]) -> Vec<at::ExtraData> { e.iter().map(|x| at::ExtraData { inner: x.inner.clone() }).collect() }
fn header(h: &Header) -> at::Header {
    at::Header { version: at::BlockVersion::V0, prev_hash: h.prev_hash.0.into(), proposer: h.proposer.0.into(), state_root: h.state_root.0.into(), transactions_root: h.transactions_root.0.into(), signed_txs_hash: h.signed_txs_hash.0.into(), receipts_root: h.receipts_root.0.into(), log_bloom: h.log_bloom.0.into(),
        timestamp: h.timestamp, number: h.number, gas_used: h.gas_used.as_u64().into(), gas_limit: h.gas_limit.as_u64().into(), extra_data: extra(&h.extra_data), base_fee_per_gas: h.base_fee_per_gas.as_u64().into(), proof: proof(&h.proof), call_system_script_count: h.call_system_script_count, chain_id: h.chain_id }
}
fn block(b: &Block) -> at::Block { at::Block { header: header(&b.header), tx_hashes: b.tx_hashes.iter().map(|x| x.0.into()).collect() } }
fn validator(v: &ValidatorExtend) -> at::ValidatorExtend { at::ValidatorExtend { bls_pub_key: at::Hex::encode(v.bls_pub_key.as_bytes()), pub_key: at::Hex::encode(v.pub_key.as_bytes()), address: v.address.0.into(), propose_weight: v.propose_weight, vote_weight: v.vote_weight } }
/// same bytes, and each side reads the other's back
fn same<A: Encodable + Decodable + PartialEq + std::fmt::Debug, B: Encodable + Decodable + PartialEq + std::fmt::Debug>(a: &A, b: &B) -> Result<(), String> {
    bytes(a, b)?;
    let c: A = rlp::decode(&rlp::encode(b)).map_err(|e| format!("the library cannot read the node's bytes: {}", e))?;
    ensure_eq!(c, *a, "library's reading of the node's bytes");
    Ok(())
}
fn bytes<A: Encodable, B: Encodable>(a: &A, b: &B) -> Result<(), String> {
    let (x, y) = (rlp::encode(a), rlp::encode(b));
    ensure!(x == y, "library writes {}, node writes {}", hex(&x), hex(&y));
    ensure!(H256(axon_tools::keccak_256(&x)) == Hasher::digest(&y), "digests differ for {}", hex(&x));
    Ok(())
}
fn main() {
    let mut h = H::new();
    h.check("proof", 4000, |r, d| { let p = gen::proof(r); *d = format!("{:?}", p); same(&proof(&p), &p) });
    h.check("header", 4000, |r, d| { let p = gen::header(r); *d = format!("{:?}", p); same(&header(&p), &p) });
    h.check("block", 3000, |r, d| { let p = gen::block(r); *d = format!("{:?}", p); same(&block(&p), &p)?;
        ensure!(H256(axon_tools::keccak_256(&rlp::encode(&header(&p.header)))) == p.header.hash(), "header hash differs"); ensure!(H256(axon_tools::keccak_256(&rlp::encode(&header(&p.header)))) == p.hash(), "block hash differs"); Ok(()) });
    h.check("version, hex, extra data", 2000, |r, d| { let b = r.blob(200); *d = hex(&b); same(&at::BlockVersion::V0, &BlockVersion::V0)?; same(&at::Hex::encode(&b), &Hex::encode(&b))?; same(&at::ExtraData { inner: b.clone().into() }, &ExtraData { inner: b.into() }) });
    h.check("validator", 3000, |r, d| { let v = gen::validator_extend(r); *d = format!("{:?}", v); same(&validator(&v), &v) });
    h.check("metadata parts", 3000, |r, d| {
        let m = gen::metadata(r); let c = gen::consensus_config_v0(r); *d = format!("{:?} {:?}", m, c);
        same(&at::MetadataVersion { start: m.version.start, end: m.version.end }, &m.version)?;
        for p in &m.propose_counter { same(&at::ProposeCount { address: p.address.0.into(), count: p.count }, p)?; }
        let ac = at::ConsensusConfig { gas_limit: c.gas_limit, interval: c.interval, propose_ratio: c.propose_ratio, prevote_ratio: c.prevote_ratio, precommit_ratio: c.precommit_ratio, brake_ratio: c.brake_ratio, tx_num_limit: c.tx_num_limit, max_tx_size: c.max_tx_size };
        same(&ac, &c)?;
        // a record with the node's older configuration, field by field
        let am = at::Metadata { version: at::MetadataVersion { start: m.version.start, end: m.version.end }, epoch: m.epoch, verifier_list: m.verifier_list.iter().map(validator).collect(),
            propose_counter: m.propose_counter.iter().map(|p| at::ProposeCount { address: p.address.0.into(), count: p.count }).collect(), consensus_config: ac };
        let mut s = rlp::RlpStream::new();
        s.begin_list(5).append(&m.version).append(&m.epoch).append_list(&m.verifier_list).append_list(&m.propose_counter).append(&c);
        ensure!(rlp::encode(&am) == s.out(), "metadata record differs"); Ok(()) });
    h.check("vote", 3000, |r, d| {
        let v = overlord::types::Vote { height: r.int(), round: r.int(), vote_type: overlord::types::VoteType::Precommit, block_hash: gen::h256(r).as_bytes().to_vec().into() }; *d = format!("{:?}", v);
        bytes(&at::Vote { height: v.height, round: v.round, vote_type: 2, proposal_hash: v.block_hash.clone() }, &v) });
    h.check("proposal", 4000, |r, d| {
        let p = gen::proposal(r); *d = format!("{:?}", p);
        let a = at::Proposal { version: at::BlockVersion::V0, prev_hash: p.prev_hash.0.into(), proposer: p.proposer.0.into(), prev_state_root: p.prev_state_root.0.into(), transactions_root: p.transactions_root.0.into(), signed_txs_hash: p.signed_txs_hash.0.into(), timestamp: p.timestamp, number: p.number,
            gas_limit: p.gas_limit.as_u64().into(), extra_data: extra(&p.extra_data), base_fee_per_gas: p.base_fee_per_gas.as_u64().into(), proof: proof(&p.proof), chain_id: p.chain_id, call_system_script_count: p.call_system_script_count, tx_hashes: p.tx_hashes.iter().map(|x| x.0.into()).collect() };
        bytes(&a, &p) });
    h.check("proposal of a block", 4000, |r, d| {
        // verify_proof refuses a block for its digest exactly when the digest is not that of the node's proposal
        let b = gen::block(r); let root = gen::h256(r); let mut p = proof(&gen::proof(r)); *d = format!("{:?} {:?} {:?}", b, root, p);
        let want = Proposal::new_with_state_root(&b.header, root, b.tx_hashes.clone()).hash();
        let ok = r.bool(); p.proposal_hash = if ok { want.0.into() } else { let mut w = want.0; let i = r.below(32) as usize; w[i] ^= 1 << r.below(8); w.into() };
        let res = axon_tools::verify_proof(block(&b), root.0.into(), &mut [], p);
        let refused = matches!(res, Err(axon_tools::Error::InvalidProofBlockHash));
        ensure!(refused == !ok, "proposal digest {}, verify_proof said {:?}", if ok { "right" } else { "wrong" }, res); Ok(()) });
    h.finish()
}
