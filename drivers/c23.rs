//@extern protocol=axon_protocol core_executor core_consensus core_storage core_db rlp rocksdb common_crypto common_merkle overlord
// C23: what the engine lets the consensus vote on, and what the synchronization stores, on a real chain.
#[path = "common.rs"] mod axv;
#[path = "gen.rs"] mod gen;
#[path = "gen_tx.rs"] mod gen_tx;
#[path = "store.rs"] mod store;
#[path = "chain.rs"] mod chain;
use axv::*;
use chain::{Node, World};
use core_consensus::util::digest_signed_transactions;
use protocol::codec::ProtocolCodec as _;
use protocol::constants::endpoints::*;
use core_consensus::types::PullTxsRequest;
use protocol::traits::{CommonConsensusAdapter as _, MessageCodec as _, ReadOnlyStorage as _, Synchronization as _};
use protocol::types::*;
use std::collections::HashMap;
use std::sync::Arc;
fn by(h: Hash) -> Bytes { Bytes::from(h.as_bytes().to_vec()) }
/// validators picked at random
fn some(r: &mut Rng, w: &World) -> Vec<usize> { (0..w.validators.len()).filter(|_| r.below(4) > 0).collect() }
fn all(w: &World) -> Vec<usize> { (0..w.validators.len()).collect() }
fn root(v: &[Hash]) -> Hash { if v.is_empty() { RLP_NULL } else { common_merkle::TrieMerkle::from_iter(v.iter().enumerate()).root_hash().unwrap() } }
fn flip(r: &mut Rng, h: &mut H256) { let i = r.below(32) as usize; h.0[i] ^= 1 << r.below(8); }
fn fill(n: &Node, w: &World) { for (_, t, _, _) in &w.blocks { for t in t { n.pool.txs.lock().unwrap().insert(t.transaction.hash, t.clone()); } } }
fn txs(n: &Node, hs: &[Hash]) -> Vec<SignedTransaction> { let m = n.pool.txs.lock().unwrap(); hs.iter().filter_map(|h| m.get(h).cloned()).collect() }
/// the digest of a block's proposal under the state root of the block before it
fn signed_hash(w: &World, b: &Block) -> Hash { Proposal::new_with_state_root(&b.header, w.block(b.header.number - 1).header.state_root, b.tx_hashes.clone()).hash() }
/// a proof for block n made in some way, and whether it is one
fn proof(r: &mut Rng, w: &World, n: u64, h: Hash, d: &mut String) -> (Proof, bool) {
    let who = some(r, w);
    let q = w.quorum(n, &who);
    let mut p = w.prove(n, r.below(3), h, &who);
    match r.below(9) {
        0..=2 => { d.push_str(&format!(" votes of {:?}", who)); (p, q) }
        3 => { let mut o = h; flip(r, &mut o); d.push_str(" proof of another digest"); (w.prove(n, 0, o, &all(w)), false) }
        4 => { let m = match r.below(3) { 0 => n + 1, 1 => n.wrapping_sub(1), _ => r.int() }; d.push_str(&format!(" proof of number {}", m)); let p = w.prove(m, 0, h, &all(w)); (p, m == n) }
        5 => { let other = some(r, w); p.bitmap = w.bitmap(&other); d.push_str(&format!(" votes of {:?} shown as {:?}", who, other)); let eq = other == who; (p, eq && q) }
        6 => { let mut p = w.prove(n, 0, h, &all(w)); p.round += 1; d.push_str(" votes of another round"); (p, false) }
        7 => { let mut p = w.prove(n, 0, h, &all(w)); let mut s = p.signature.to_vec(); let i = r.below(s.len() as u64) as usize; s[i] ^= 1 << r.below(8); p.signature = s.into(); d.push_str(" damaged signature"); (p, false) }
        _ => {
            let mut p = w.prove(n, 0, h, &all(w));
            let t = [overlord::types::VoteType::Prevote, overlord::types::VoteType::Precommit][r.below(2) as usize].clone();
            let vote = overlord::types::Vote { height: n, round: 0, vote_type: t.clone(), block_hash: by(h) };
            p.signature = w.signature(&vote, &all(w));
            d.push_str(&format!(" {:?} votes", t));
            (p, t == overlord::types::VoteType::Precommit)
        }
    }
}
fn main() {
    let mut h = H::new();
    let mut worlds: Vec<Option<World>> = vec![];
    for k in 0..3 {
        let mut r = Rng::new(23 + k);
        let n = [1, 4, 7][k as usize];
        worlds.push(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| World::new("c23", &mut r, n, 5))).ok());
    }
    h.once("an honest chain is accepted and committed", "three chains of five blocks", || { for w in &worlds { ensure!(w.is_some(), "a chain of honest blocks could not be built"); } Ok(()) });
    let worlds: Vec<World> = worlds.into_iter().flatten().collect();
    if worlds.is_empty() { h.finish() }
    h.check("a proposal is voted on exactly if it extends the chain", 6000, |r, d| {
        let wi = r.below(worlds.len() as u64) as usize;
        let w = &worlds[wi];
        let k = r.below(5);
        let n = w.node(k);
        fill(&n, w);
        let number = k + 1;
        let mut p = w.proposals[k as usize].clone();
        let prev = w.block(k).clone();
        let (mut ok, mut digest) = (true, None);
        d.push_str(&format!("world {} block {}", wi, number));
        let mut want_hf = None;
        match r.below(16) {
            0 => { if r.bool() { p.timestamp = prev.header.timestamp; } }
            1 => { p.number = match r.below(4) { 0 => number + 1, 1 => number - 1, 2 => 0, _ => r.int() }; if r.bool() { p.proof.number = p.number.wrapping_sub(1); } ok = p.number == number; d.push_str(&format!(" number {} proof number {}", p.number, p.proof.number)); }
            2 => { let j = r.below(5); p = w.proposals[j as usize].clone(); ok = j == k; d.push_str(&format!(" the proposal for block {}", j + 1)); }
            3 => { let x = p.hash(); digest = Some(match r.below(5) { 0 => Bytes::new(), 1 => by(x).slice(0..31), 2 => { let mut v = x.0.to_vec(); v.push(0); v.into() }, 3 => by(w.block(k).hash()), _ => { let mut y = x; flip(r, &mut y); by(y) } }); ok = false; d.push_str(" another digest"); }
            4 => { if r.bool() { flip(r, &mut p.prev_hash) } else { p.prev_hash = *r.pick(&[H256::zero(), w.block(k.saturating_sub(1)).hash(), prev.header.state_root]); } ok = p.prev_hash == prev.hash(); d.push_str(" parent hash"); }
            5 => { if r.bool() { flip(r, &mut p.prev_state_root) } else { p.prev_state_root = w.block(r.below(6)).header.state_root; } ok = p.prev_state_root == prev.header.state_root; d.push_str(" parent state root"); }
            6 => { let t = prev.header.timestamp; let now = chain::now(); p.timestamp = match r.below(7) { 0 => t, 1 => t.wrapping_sub(1), 2 => now + 1_000_000, 3 => u64::MAX, 4 => 0, 5 => t + 1, _ => now + 100_000 }; ok = p.timestamp >= t && p.timestamp <= now; d.push_str(&format!(" time {} after {}", p.timestamp, t)); if t + 1 == p.timestamp && p.timestamp > now { return Ok(()) } }
            7 | 8 | 9 => { let hash = if k > 0 { signed_hash(w, &prev) } else { prev.hash() }; let (x, q) = proof(r, w, k, hash, d); p.proof = x; ok = if k == 0 { p.proof.number == 0 } else { q }; }
            10 => {
                let mut hs = p.tx_hashes.clone();
                match r.below(5) { 0 => { if !hs.is_empty() { let i = r.below(hs.len() as u64) as usize; hs.remove(i); } } 1 => { let b = r.below(5) as usize; if let Some(x) = w.blocks[b].0.tx_hashes.last() { hs.push(*x) } } 2 => r.shuffle(&mut hs), 3 => { if let Some(x) = hs.first().cloned() { hs.push(x) } } _ => hs.push(gen::h256(r)) }
                let known = txs(&n, &hs);
                ok = hs == p.tx_hashes && known.len() == hs.len();
                if hs != p.tx_hashes && r.below(3) > 0 {
                    let (a, b) = (r.bool(), r.bool());
                    if a { p.transactions_root = root(&hs) }
                    if b { p.signed_txs_hash = digest_signed_transactions(&known) }
                    ok = a && b && known.len() == hs.len();
                }
                p.tx_hashes = hs;
                d.push_str(&format!(" transactions {:?}", p.tx_hashes.len()));
            }
            11 => { flip(r, &mut p.transactions_root); ok = false; d.push_str(" transactions root") }
            12 => { flip(r, &mut p.signed_txs_hash); ok = false; d.push_str(" digest of transactions") }
            13 => {
                let hf = HardforkInfoInner { block_number: r.range(1, 20), flags: H256::from_low_u64_be(r.range(1, 3)) };
                let mine = if r.bool() { Some(hf.clone()) } else if r.bool() { Some(HardforkInfoInner { block_number: hf.block_number + 1, flags: hf.flags }) } else { None };
                let x = if r.below(4) > 0 { ok = mine.as_ref() == Some(&hf); hf.encode().unwrap() } else { ok = false; Bytes::from(vec![r.u8(); 3]) };
                p.extra_data = vec![ExtraData { inner: x }];
                d.push_str(&format!(" hard fork, own {:?}, theirs {:?}", mine, hf));
                want_hf = mine;
            }
            14 => { let i = n.pool.txs.lock().unwrap().keys().next().cloned(); if let Some(x) = p.tx_hashes.last().cloned().or(i) { ok = !p.tx_hashes.contains(&x); n.pool.txs.lock().unwrap().remove(&x); d.push_str(" one transaction unknown"); } }
            _ => { p.gas_limit = r.int().into(); d.push_str(" gas limit"); }
        }
        *n.info.hardfork_proposals.write().unwrap() = want_hf;
        let digest = digest.unwrap_or_else(|| by(p.hash()));
        let got = w.check(&n, number, digest, p);
        ensure!(got.is_ok() == ok, "checking the proposal gave {:?}, it is {}", got, if ok { "valid" } else { "not valid" });
        ensure!(w.stored(&n, number).is_none(), "checking a proposal stores no block");
        if ok { Ok(()) } else { Ok(()) }
    });
    h.check("the weight behind a proof", 3000, |r, d| {
        let w = r.pick(&worlds);
        let n = w.node(0);
        let k = r.range(1, 7) as usize;
        let keys: Vec<Bytes> = (0..k).map(|i| Bytes::from(vec![i as u8; 3])).collect();
        let ws: Vec<u32> = (0..k).map(|_| match r.below(4) { 0 => r.below(3) as u32, 1 => 1, 2 => r.u64() as u32, _ => u32::MAX }).collect();
        let mut voters: Vec<usize> = (0..k).filter(|_| r.below(4) > 0).collect();
        if r.one_in(8) { voters.push(k) }
        d.push_str(&format!("{:?} of {:?}", voters, ws));
        let total: u128 = ws.iter().map(|x| *x as u128).sum();
        let got: u128 = voters.iter().filter(|i| **i < k).map(|i| ws[*i] as u128).sum();
        let want = !voters.contains(&k) && got * 3 > total * 2;
        let m: HashMap<Bytes, u32> = keys.iter().cloned().zip(ws.iter().cloned()).collect();
        let v: Vec<Bytes> = voters.iter().map(|i| keys.get(*i).cloned().unwrap_or_default()).collect();
        ensure_eq!(w.rt.block_on(n.adapter.verify_proof_weight(Default::default(), 1, m, v)).is_ok(), want, "weight");
        Ok(())
    });
    h.check("a synced chain is stored up to the first bad block", 4000, |r, d| {
        let wi = r.below(worlds.len() as u64) as usize;
        let w = &worlds[wi];
        let k = r.below(5);
        let n = w.node(k);
        let upto = r.range(if k == 0 { 2 } else { k + 1 }, 5);
        let bad = r.range(k + 1, upto);
        d.push_str(&format!("world {} from {} to {}, block {}", wi, k, upto, bad));
        // what the peer answers for that block
        let mut b = w.block(bad).clone();
        let mut pf = w.proof(bad);
        let mut ts: Vec<SignedTransaction> = w.blocks[bad as usize - 1].1.clone();
        let mut ok = true;
        let mut resign = false;
        let mut extra: Option<SignedTransaction> = None;
        let filled = r.bool();
        match r.below(15) {
            0 => d.push_str(" as it is"),
            1 => { b.header.number = match r.below(3) { 0 => bad - 1, 1 => bad + 1, _ => 0 }; ok = false; d.push_str(" number") }
            2 => { let j = r.range(1, 5); b = w.block(j).clone(); pf = w.proof(j); ok = j == bad; d.push_str(" another block") }
            3 => { flip(r, &mut b.header.prev_hash); ok = false; resign = true; d.push_str(" parent hash") }
            4 => { if r.bool() { flip(r, &mut b.header.state_root) } else { b.header.state_root = w.block(bad - 1).header.state_root; } ok = b.header.state_root == w.block(bad).header.state_root; resign = true; d.push_str(" state root") }
            5 => { flip(r, &mut b.header.receipts_root); ok = false; resign = true; d.push_str(" receipts root") }
            6 => { flip(r, &mut b.header.signed_txs_hash); ok = false; resign = true; d.push_str(" digest of transactions") }
            7 => { b.header.gas_used = b.header.gas_used + r.range(1, 5); ok = false; resign = true; d.push_str(" gas used") }
            8 => { let i = r.below(256) as usize; b.header.log_bloom.0[i] ^= 1 << r.below(8); ok = false; resign = true; d.push_str(" log bloom") }
            9 => { if r.bool() { b.header.chain_id += 1 } else { b.header.base_fee_per_gas = b.header.base_fee_per_gas + 1 } ok = false; resign = true; d.push_str(" chain constants") }
            10 => { match r.below(6) { 0 => flip(r, &mut b.header.transactions_root), 1 => b.header.timestamp += 1, 2 => b.header.gas_limit = b.header.gas_limit + 1, 3 => b.header.proposer.0[3] ^= 1, 4 => b.header.call_system_script_count += 1, _ => b.header.extra_data.push(ExtraData { inner: Bytes::from(vec![1]) }) } ok = false; d.push_str(" a signed field") }
            11 => { let hash = signed_hash(w, &b); let (p, q) = proof(r, w, bad, hash, d); pf = p; ok = q; }
            12 => { let pb = w.block(bad - 1).clone(); let hash = if bad > 1 { signed_hash(w, &pb) } else { pb.hash() }; let (p, q) = proof(r, w, bad - 1, hash, d); d.push_str(" for the parent"); b.header.proof = p; ok = bad == 1 || q; resign = true; let h2 = b.hash(); if h2 != w.block(bad).hash() && upto > bad { d.push_str(" (another block)") } }
            13 => {
                match r.below(4) {
                    0 => { ok = ts.pop().is_none() }
                    1 => { extra = w.blocks.iter().filter(|x| x.0.header.number != bad).flat_map(|x| x.1.iter()).next().cloned(); ok = extra.is_none() || filled || ts.is_empty() }
                    2 => { if let Some(t) = ts.first_mut() { match &mut t.transaction.unsigned { UnsignedTransaction::Legacy(x) => x.value = x.value + 1, _ => () } t.transaction.hash = t.transaction.get_hash(); ok = false } }
                    _ => ts.reverse(),
                }
                d.push_str(&format!(" {} transactions sent{}{}", ts.len(), if extra.is_some() { " and one more" } else { "" }, if filled { " (known)" } else { "" }))
            }
            _ => { let mut hs = b.tx_hashes.clone(); r.shuffle(&mut hs); if r.one_in(3) { hs.pop(); } ok = hs == b.tx_hashes; b.tx_hashes = hs; resign = r.bool(); d.push_str(" list of transactions") }
        }
        if resign && b.header.number > 0 { pf = w.prove(bad, 0, signed_hash(w, &b), &all(w)); }
        let same = b.hash() == w.block(bad).hash() && b.tx_hashes == w.block(bad).tx_hashes;
        if filled { for t in &ts { n.pool.txs.lock().unwrap().insert(t.transaction.hash, t.clone()); } }
        let mut answers: HashMap<(String, u64), Bytes> = HashMap::new();
        let mut lists: HashMap<u64, Vec<SignedTransaction>> = HashMap::new();
        for j in 1..=5 {
            let (mut x, mut y) = if j == bad { (b.clone(), pf.clone()) } else { (w.block(j).clone(), w.proof(j)) };
            answers.insert((RPC_SYNC_PULL_BLOCK.to_string(), j), x.encode_msg().unwrap());
            answers.insert((RPC_SYNC_PULL_PROOF.to_string(), j), y.encode_msg().unwrap());
            lists.insert(j, if j == bad { ts.clone() } else { w.blocks[j as usize - 1].1.clone() });
        }
        *n.net.answer.lock().unwrap() = Some(Box::new(move |end, q| {
            if end == RPC_SYNC_PULL_TXS {
                let req = PullTxsRequest::decode_msg(q).ok()?;
                let mut v: Vec<SignedTransaction> = lists.get(&req.height)?.iter().filter(|t| req.inner.contains(&t.transaction.hash)).cloned().collect();
                if req.height == bad { v.extend(extra.iter().cloned()) }
                return BatchSignedTxs(v).encode_msg().ok();
            }
            let j = u64::decode_msg(q).ok()?;
            answers.get(&(end.to_string(), j)).cloned()
        }));
        let _ = w.rt.block_on(n.sync.receive_remote_block(Default::default(), upto));
        let last = w.rt.block_on(n.store.get_latest_block_header(Default::default())).map(|h| h.number).unwrap_or(0);
        for j in 1..=5u64 {
            let got = w.stored(&n, j);
            if j < bad && j <= upto { ensure_eq!(got.as_ref(), Some(w.block(j)), "block {} before the bad one", j); }
            if j == bad && !ok { ensure!(got.is_none(), "the bad block {} was stored", j); ensure_eq!(last, bad - 1, "last block") }
            if j == bad && ok && same { ensure_eq!(got.as_ref(), Some(w.block(j)), "block {}", j); }
            if j > bad && !ok { ensure!(got.is_none(), "block {} after a bad one was stored", j) }
            if j > upto { ensure!(j <= k || got.is_none(), "block {} was not asked for", j) }
        }
        if ok && same { ensure_eq!(last, upto, "the whole chain is stored"); ensure_eq!(n.status.inner().last_number, upto, "status"); ensure_eq!(n.status.inner().last_state_root, w.block(upto).header.state_root, "state root"); ensure_eq!(n.status.inner().prev_hash, w.block(upto).hash(), "parent hash");
            for j in k + 1..=upto { let (b, t, rs, _) = &w.blocks[j as usize - 1];
                let gt = w.rt.block_on(protocol::traits::ReadOnlyStorage::get_receipts(n.store.as_ref(), Default::default(), j, &b.tx_hashes)).unwrap_or_default();
                ensure_eq!(gt.into_iter().flatten().collect::<Vec<_>>(), rs.clone(), "receipts of block {}", j);
                let gx = w.rt.block_on(protocol::traits::ReadOnlyStorage::get_transactions(n.store.as_ref(), Default::default(), j, &b.tx_hashes)).unwrap_or_default();
                ensure_eq!(gx.into_iter().flatten().collect::<Vec<_>>(), t.clone(), "transactions of block {}", j);
            } }
        Ok(())
    });
    h.finish()
}
