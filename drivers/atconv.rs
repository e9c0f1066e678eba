use axon_tools::types as at; use protocol::types::*;
pub fn proof(p: &Proof) -> at::Proof { at::Proof { number: p.number, round: p.round, proposal_hash: p.block_hash.0.into(), signature: p.signature.clone(), bitmap: p.bitmap.clone() } }
pub fn extra(e: &[ExtraData]) -> Vec<at::ExtraData> { e.iter().map(|x| at::ExtraData { inner: x.inner.clone() }).collect() }
pub fn header(h: &Header) -> at::Header {
    at::Header { version: at::BlockVersion::V0, prev_hash: h.prev_hash.0.into(), proposer: h.proposer.0.into(), state_root: h.state_root.0.into(), transactions_root: h.transactions_root.0.into(), signed_txs_hash: h.signed_txs_hash.0.into(), receipts_root: h.receipts_root.0.into(), log_bloom: h.log_bloom.0.into(),
        timestamp: h.timestamp, number: h.number, gas_used: h.gas_used.as_u64().into(), gas_limit: h.gas_limit.as_u64().into(), extra_data: extra(&h.extra_data), base_fee_per_gas: h.base_fee_per_gas.as_u64().into(), proof: proof(&h.proof), call_system_script_count: h.call_system_script_count, chain_id: h.chain_id }
}
pub fn block(b: &Block) -> at::Block { at::Block { header: header(&b.header), tx_hashes: b.tx_hashes.iter().map(|x| x.0.into()).collect() } }
pub fn validator(v: &ValidatorExtend) -> at::ValidatorExtend { at::ValidatorExtend { bls_pub_key: at::Hex::encode(v.bls_pub_key.as_bytes()), pub_key: at::Hex::encode(v.pub_key.as_bytes()), address: v.address.0.into(), propose_weight: v.propose_weight, vote_weight: v.vote_weight } }
