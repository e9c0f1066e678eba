//@extern protocol=axon_protocol rlp common_crypto=common_crypto
// C06: receipts and logs of a block against the transactions and results they describe.
#[path = "common.rs"] mod axv;
#[path = "gen.rs"] mod gen;
#[path = "gen_tx.rs"] mod gen_tx;
use axv::*;
use protocol::types::*;
fn main() {
    let mut h = H::new();
    let mut k = Rng::new(7);
    let pool: Vec<SignedTransaction> = (0..40).map(|_| gen_tx::stx(&mut k).0).collect();
    h.check("receipts", 2500, |r, d| {
        let n = match r.below(4) { 0 => 0, 1 => r.below(3), _ => r.below(12) } as usize;
        let txs: Vec<SignedTransaction> = (0..n).map(|_| { let mut t = r.pick(&pool).clone(); t.sender = gen::h160(r); if r.bool() { t.transaction.hash = gen::h256(r); } t }).collect();
        let resp = ExecResp { state_root: gen::h256(r), receipt_root: gen::h256(r), gas_used: r.int(), tx_resp: (0..n).map(|_| { let mut t = gen::tx_resp(r); if r.bool() { t.logs.truncate(2) } t }).collect() };
        let block = Block { header: gen::header(r), tx_hashes: txs.iter().map(|t| t.transaction.hash).collect() };
        d.push_str(&format!("{} transactions, logs {:?}, block {:?}", n, resp.tx_resp.iter().map(|t| t.logs.len()).collect::<Vec<_>>(), block.header));
        let (rs, ls) = block.generate_receipts_and_logs(&txs, &resp);
        ensure_eq!(rs.len(), n, "number of receipts");
        ensure_eq!(ls.len(), n, "number of log lists");
        let mut seen = 0u32;
        for i in 0..n {
            let (t, x, g) = (&txs[i], &resp.tx_resp[i], &rs[i]);
            let mut filter = Bloom::zero();
            for l in &x.logs { filter.accrue(BloomInput::Raw(l.address.as_bytes())); for t in &l.topics { filter.accrue(BloomInput::Raw(t.as_bytes())); } }
            let want = Receipt { tx_hash: t.transaction.hash, block_number: block.header.number, block_hash: Hasher::digest(rlp::encode(&block.header)), tx_index: i as u32, state_root: block.header.state_root,
                used_gas: x.gas_used.into(), logs_bloom: filter, logs: x.logs.clone(), log_index: seen, code_address: x.code_address, sender: t.sender, ret: x.exit_reason.clone(), removed: x.removed };
            ensure_eq!(*g, want, "receipt {}", i);
            ensure_eq!(ls[i], x.logs, "logs {}", i);
            ensure_eq!(g.status(), match x.exit_reason { ExitReason::Succeed(_) => U64::one(), _ => U64::zero() }, "status {}", i);
            let mut e = match t.transaction.unsigned { UnsignedTransaction::Legacy(_) => vec![], UnsignedTransaction::Eip2930(_) => vec![1u8], UnsignedTransaction::Eip1559(_) => vec![2u8] };
            let mut s = rlp::RlpStream::new_list(4);
            s.append(&matches!(x.exit_reason, ExitReason::Succeed(_))).append(&x.gas_used).append(&filter).begin_list(x.logs.len());
            for l in &x.logs { s.begin_list(3).append(&l.address).append_list(&l.topics).append(&l.data); }
            e.extend_from_slice(&s.out());
            ensure!(t.encode_receipt(x, filter)[..] == e[..], "encoding of receipt {}: {} not {}", i, hex(&t.encode_receipt(x, filter)), hex(&e));
            seen += x.logs.len() as u32;
        }
        let rich = RichBlock { block: block.clone(), txs: txs.clone() };
        ensure_eq!(rich.generate_receipts_and_logs(&resp), (rs, ls), "through the block with its transactions");
        Ok(())
    });
    h.finish();
}
