//@extern protocol=axon_protocol core_executor rlp rocksdb core_db
// C22: epoch boundaries and the records of epochs, against a list of (start, end) ranges.
#[path = "common.rs"] mod axv;
#[path = "gen.rs"] mod gen;
#[path = "store.rs"] mod store;
use axv::*;
use core_executor::system_contract::metadata::{segment::EpochSegment, MetadataHandle, MetadataStore};
use protocol::types::*;
use protocol::trie::Trie as _;
use std::collections::BTreeSet;
fn near(r: &mut Rng, ends: &[u64]) -> u64 {
    let e = *r.pick(ends);
    match r.below(8) { 0 => e, 1 => e.saturating_add(1), 2 => e.saturating_sub(1), 3 => 0, 4 => r.int(), _ => r.below(ends.last().unwrap().saturating_add(3)) }
}
fn epoch_of(ends: &[u64], n: u64) -> Option<u64> { (1..ends.len()).find(|i| ends[i - 1] < n && n <= ends[*i]).map(|i| i as u64 - 1) }
fn main() {
    let mut h = H::new();
    store::open("c22");
    h.check("segments", 4000, |r, d| {
        let mut s = EpochSegment::new();
        let mut ends = vec![0u64];
        for _ in 0..r.below(9) {
            let last = *ends.last().unwrap();
            let e = match r.below(8) { 0 => last, 1 => last.saturating_sub(1), 2 => r.int(), 3 => last.saturating_add(1), 4 => *r.pick(&ends), 5 => last.saturating_add(r.int() >> 8), _ => last.saturating_add(r.range(1, 20)) };
            d.push_str(&format!("+{} ", e));
            let ok = s.append_endpoint(e).is_ok();
            ensure_eq!(ok, e > last, "appending {}", e);
            if ok { ends.push(e) }
            ensure_eq!(s.is_empty(), ends.len() == 1, "emptiness");
            ensure_eq!(s.last_block_number(), *ends.last().unwrap(), "last block");
            ensure_eq!(s.get_latest_epoch_number(), (ends.len() as u64).saturating_sub(2), "latest epoch");
            let raw = s.as_bytes();
            ensure_eq!(hex(&raw), ends.iter().map(|x| format!("{:016x}", x)).collect::<String>(), "stored form");
            ensure_eq!(EpochSegment::from_raw(raw).map_err(|e| e.to_string())?, s, "read back");
        }
        for _ in 0..12 {
            let n = near(r, &ends);
            ensure_eq!(s.get_epoch_number(n).ok(), epoch_of(&ends, n), "epoch of {}", n);
            ensure_eq!(s.is_last_block_in_epoch(n), ends.contains(&n), "last block {}", n);
        }
        Ok(())
    });
    h.check("malformed segments", 2000, |r, d| {
        let n = match r.below(3) { 0 => r.below(40) as usize, _ => 8 * r.below(6) as usize };
        let mut b = r.bytes(n); if n > 0 && r.bool() { b[0] = 0 }
        d.push_str(&hex(&b));
        let good = n > 0 && n % 8 == 0 && b[0] == 0;
        match EpochSegment::from_raw(b.clone()) { Ok(s) => { ensure!(good, "accepted"); ensure_eq!(hex(&s.as_bytes()), hex(&b), "content"); } Err(_) => ensure!(!good, "rejected") }
        Ok(())
    });
    h.check("stored epochs", 250, |r, d| {
        let mut s = MetadataStore::new(H256::zero()).map_err(|e| e.to_string())?;
        let mut ends = vec![0u64];
        let mut recs: Vec<Metadata> = vec![];
        for step in 0..r.range(1, 7) {
            let last = *ends.last().unwrap();
            let mut m = gen::metadata(r);
            if r.bool() { for v in m.verifier_list.iter_mut() { v.address = H160::repeat_byte(r.below(4) as u8); } }
            let next = recs.len() as u64;
            m.epoch = match r.below(8) { 0 => next + 1, 1 => next.saturating_sub(1), _ => next };
            m.version.start = match r.below(8) { 0 => last, 1 => last + 2, _ => last + 1 };
            m.version.end = match r.below(8) { 0 => last, 1 => last.saturating_sub(1), 2 => last + 1, _ => m.version.start + r.below(30) };
            d.push_str(&format!("#{} {}..{} ", m.epoch, m.version.start, m.version.end));
            let ok = s.append_metadata(&m).is_ok();
            let want = m.epoch == next && (m.epoch == 0 || m.version.start == last + 1) && m.version.end > last;
            ensure_eq!(ok, want, "step {}: accepted", step);
            if ok {
                ends.push(m.version.end);
                let who: BTreeSet<H160> = m.verifier_list.iter().map(|v| v.address).collect();
                m.propose_counter = who.into_iter().map(|address| ProposeCount { address, count: 0 }).collect();
                recs.push(m);
            }
            let seg = s.get_epoch_segment().map_err(|e| e.to_string())?;
            ensure_eq!(hex(&seg.as_bytes()), ends.iter().map(|x| format!("{:016x}", x)).collect::<String>(), "boundaries");
            for _ in 0..r.below(4) {
                if recs.is_empty() { break; }
                let n = near(r, &ends);
                let who = if r.bool() { gen::h160(r) } else { let m = r.pick(&recs); match m.verifier_list.len() { 0 => H160::zero(), k => m.verifier_list[r.below(k as u64) as usize].address } };
                d.push_str(&format!("propose {} ", n));
                let ok = s.update_propose_count(n, &who).is_ok();
                let e = epoch_of(&ends, n);
                ensure_eq!(ok, e.is_some(), "counting a proposal of block {}", n);
                if let Some(e) = e { if let Some(c) = recs[e as usize].propose_counter.iter_mut().find(|c| c.address == who) { c.count += 1; } }
            }
            let root = s.trie.commit().map_err(|e| e.to_string())?;
            let handle = MetadataHandle::new(root);
            for (i, m) in recs.iter().enumerate() {
                let mut m = m.clone();
                let g = s.get_metadata(i as u64).map_err(|e| e.to_string())?;
                m.consensus_config = g.consensus_config.clone();
                ensure_eq!(g, m, "record of epoch {}", i);
                ensure_eq!(handle.get_metadata_by_epoch(i as u64).map_err(|e| e.to_string())?, m, "record of epoch {} through the handle", i);
            }
            ensure!(s.get_metadata(recs.len() as u64).is_err(), "a record of a future epoch");
            if recs.is_empty() { continue; }
            for _ in 0..4 {
                let n = near(r, &ends);
                let e = epoch_of(&ends, n);
                ensure_eq!(s.get_metadata_by_block_number(n).ok().map(|m| m.epoch), e, "epoch of block {}", n);
                let eh = if n == 0 { Some(0) } else { e };
                ensure_eq!(handle.get_metadata_by_block_number(n).ok().map(|m| m.epoch), eh, "epoch of block {} through the handle", n);
                ensure_eq!(handle.is_last_block_in_current_epoch(n).map_err(|e| e.to_string())?, ends.contains(&n), "last block {}", n);
                if let Some(e) = eh { let m = &recs[e as usize]; let a = if m.verifier_list.is_empty() { H160::zero() } else { r.pick(&m.verifier_list).address };
                    for a in [a, gen::h160(r)] { ensure_eq!(handle.is_validator(n, a).map_err(|e| e.to_string())?, m.verifier_list.iter().any(|v| v.address == a), "validator {}", a); } }
            }
        }
        Ok(())
    });
    h.finish();
}
