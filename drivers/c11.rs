//@extern protocol=axon_protocol rlp
// C11: blocks from proposals, proposals from blocks, and what the two digests cover.
#[path = "common.rs"] mod axv;
#[path = "gen.rs"] mod gen;
use axv::*;
use protocol::codec::ProtocolCodec;
use protocol::types::*;
fn other<T: PartialEq>(r: &mut Rng, x: &T, f: fn(&mut Rng) -> T) -> T { loop { let y = f(r); if y != *x { return y; } } }
/// changes one field; returns its name
fn touch(r: &mut Rng, h: &mut Header, k: u64) -> &'static str {
    match k {
        0 => { h.prev_hash = other(r, &h.prev_hash, gen::h256); "prev_hash" }
        1 => { h.proposer = other(r, &h.proposer, gen::h160); "proposer" }
        2 => { h.state_root = other(r, &h.state_root, gen::h256); "state_root" }
        3 => { h.transactions_root = other(r, &h.transactions_root, gen::h256); "transactions_root" }
        4 => { h.signed_txs_hash = other(r, &h.signed_txs_hash, gen::h256); "signed_txs_hash" }
        5 => { h.receipts_root = other(r, &h.receipts_root, gen::h256); "receipts_root" }
        6 => { h.log_bloom = other(r, &h.log_bloom, gen::bloom); "log_bloom" }
        7 => { h.timestamp = other(r, &h.timestamp, |r| r.int()); "timestamp" }
        8 => { h.number = other(r, &h.number, |r| r.int()); "number" }
        9 => { h.gas_used = other(r, &h.gas_used, gen::u64_); "gas_used" }
        10 => { h.gas_limit = other(r, &h.gas_limit, gen::u64_); "gas_limit" }
        11 => { h.extra_data = other(r, &h.extra_data, |r| gen::many(r, gen::extra)); "extra_data" }
        12 => { h.base_fee_per_gas = other(r, &h.base_fee_per_gas, gen::u64_); "base_fee_per_gas" }
        13 => { match r.below(5) { 0 => h.proof.number = other(r, &h.proof.number, |r| r.int()), 1 => h.proof.round = other(r, &h.proof.round, |r| r.int()), 2 => h.proof.block_hash = other(r, &h.proof.block_hash, gen::h256),
            3 => h.proof.signature = other(r, &h.proof.signature, gen::blob), _ => h.proof.bitmap = other(r, &h.proof.bitmap, gen::blob) } "proof" }
        14 => { h.call_system_script_count = other(r, &h.call_system_script_count, |r| r.int() as u32); "call_system_script_count" }
        _ => { h.chain_id = other(r, &h.chain_id, |r| r.int()); "chain_id" }
    }
}
fn resp(r: &mut Rng) -> ExecResp { let n = gen::count(r); ExecResp { state_root: gen::h256(r), receipt_root: gen::h256(r), gas_used: r.int(), tx_resp: (0..n).map(|_| gen::tx_resp(r)).collect() } }
fn main() {
    let mut h = H::new();
    h.check("block of a proposal", 1500, |r, d| {
        let mut p = gen::proposal(r);
        if r.bool() { p.base_fee_per_gas = gen::u64_(r); p.chain_id = r.int(); }
        let e = resp(r);
        d.push_str(&format!("{:?} {:?}", p, e));
        let b = Block::new(p.clone(), e.clone());
        let f: Vec<Bloom> = e.tx_resp.iter().map(|t| Bloom::from(BloomInput::Raw(&rlp::encode_list(&t.logs)))).collect();
        let want = Header { version: p.version, prev_hash: p.prev_hash, proposer: p.proposer, state_root: e.state_root, transactions_root: p.transactions_root, signed_txs_hash: p.signed_txs_hash, receipts_root: e.receipt_root,
            log_bloom: Bloom::from(BloomInput::Raw(&rlp::encode_list(&f))), timestamp: p.timestamp, number: p.number, gas_used: e.gas_used.into(), gas_limit: p.gas_limit, extra_data: p.extra_data.clone(),
            base_fee_per_gas: p.base_fee_per_gas, proof: p.proof.clone(), call_system_script_count: p.call_system_script_count, chain_id: p.chain_id };
        ensure_eq!(b.header, want, "header");
        ensure_eq!(b.tx_hashes, p.tx_hashes, "transactions");
        ensure_eq!(b.hash(), b.header.hash(), "digest of the block");
        ensure_eq!(b.header.hash(), Hasher::digest(rlp::encode(&b.header)), "digest of the header");
        ensure_eq!(p.hash(), Hasher::digest(rlp::encode(&p)), "digest of the proposal");
        let q = Proposal::new_with_state_root(&b.header, p.prev_state_root, b.tx_hashes.clone());
        ensure_eq!(q, p, "proposal rebuilt");
        ensure_eq!(q.hash(), p.hash(), "digest of the rebuilt proposal");
        let n = Proposal::new_without_state_root(&b.header);
        let mut w = p.clone(); w.prev_state_root = H256::zero(); w.tx_hashes = vec![];
        ensure_eq!(n, w, "proposal without a state root");
        let back = Header::decode(b.header.encode().unwrap()).map_err(|e| e.to_string())?;
        ensure_eq!(back.hash(), b.header.hash(), "digest after the wire");
        Ok(())
    });
    h.check("header digest covers every field", 4000, |r, d| {
        let a = gen::header(r);
        let mut b = a.clone();
        let k = r.below(16);
        let n = touch(r, &mut b, k);
        d.push_str(&format!("{}: {:?} / {:?}", n, a, b));
        ensure!(a.hash() != b.hash(), "{} is not covered by the header digest", n);
        ensure!(Block { header: a, tx_hashes: vec![] }.hash() != Block { header: b, tx_hashes: vec![] }.hash(), "{} is not covered by the block digest", n);
        Ok(())
    });
    h.check("proposal digest covers what is signed", 3000, |r, d| {
        let a = gen::proposal(r);
        let mut b = a.clone();
        let n = match r.below(12) {
            0 => { b.prev_hash = other(r, &b.prev_hash, gen::h256); "prev_hash" }
            1 => { b.proposer = other(r, &b.proposer, gen::h160); "proposer" }
            2 => { b.prev_state_root = other(r, &b.prev_state_root, gen::h256); "prev_state_root" }
            3 => { b.transactions_root = other(r, &b.transactions_root, gen::h256); "transactions_root" }
            4 => { b.signed_txs_hash = other(r, &b.signed_txs_hash, gen::h256); "signed_txs_hash" }
            5 => { b.timestamp = other(r, &b.timestamp, |r| r.int()); "timestamp" }
            6 => { b.number = other(r, &b.number, |r| r.int()); "number" }
            7 => { b.gas_limit = other(r, &b.gas_limit, gen::u64_); "gas_limit" }
            8 => { b.extra_data = other(r, &b.extra_data, |r| gen::many(r, gen::extra)); "extra_data" }
            9 => { b.proof = other(r, &b.proof, gen::proof); "proof" }
            10 => { b.call_system_script_count = other(r, &b.call_system_script_count, |r| r.int() as u32); "call_system_script_count" }
            _ => { b.tx_hashes = other(r, &b.tx_hashes, |r| gen::many(r, gen::h256)); "tx_hashes" }
        };
        d.push_str(&format!("{}: {:?} / {:?}", n, a, b));
        ensure!(a.hash() != b.hash(), "{} is not covered by the proposal digest", n);
        Ok(())
    });
    h.finish();
}
