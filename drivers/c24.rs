//@extern protocol=axon_protocol core_consensus common_crypto rlp
// C24: the consensus log and the saved transaction lists on a real directory, with files cut, damaged and pruned.
#[path = "common.rs"] mod axv;
#[path = "gen.rs"] mod gen;
#[path = "gen_tx.rs"] mod gen_tx;
use axv::*;
use core_consensus::{ConsensusWal, SignedTxsWAL};
use protocol::traits::Context;
use protocol::types::*;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
fn rec(p: &[u8]) -> Vec<u8> { let mut v = Hasher::digest(p).as_bytes().to_vec(); v.extend_from_slice(p); v }
fn valid(f: &[u8]) -> Option<Vec<u8>> { if f.len() >= 32 && Hasher::digest(&f[32..]).as_bytes() == &f[..32] { Some(f[32..].to_vec()) } else { None } }
fn files(d: &Path) -> BTreeMap<u128, Vec<u8>> {
    std::fs::read_dir(d).unwrap().filter_map(|e| { let e = e.unwrap(); e.file_name().to_str()?.parse().ok().map(|n| (n, std::fs::read(e.path()).unwrap())) }).collect()
}
/// with a time limit: damaged files must not make loading hang
fn load(d: &Path) -> Result<Option<Vec<u8>>, String> {
    let (tx, rx) = std::sync::mpsc::channel();
    let p = d.to_path_buf();
    std::thread::spawn(move || { let r = std::panic::catch_unwind(|| ConsensusWal::new(&p).load_overlord_wal(Context::new()).ok().map(|b| b.to_vec())); let _ = tx.send(r); });
    match rx.recv_timeout(std::time::Duration::from_secs(20)) { Ok(Ok(r)) => Ok(r), Ok(Err(_)) => Err("loading panicked".into()), Err(_) => Err("loading does not end".into()) }
}
fn want(d: &Path) -> Option<Vec<u8>> { files(d).values().rev().find_map(|f| valid(f)) }
fn empty(d: &Path) { let _ = std::fs::remove_dir_all(d); std::fs::create_dir_all(d).unwrap(); }
fn damage(r: &mut Rng, v: &[u8], d: &mut String) -> Vec<u8> {
    let mut v = v.to_vec();
    match r.below(5) {
        0 => { let n = r.below(v.len() as u64 + 1) as usize; d.push_str(&format!("cut {} ", n)); v.truncate(n) }
        1 => { let n = r.below(34).min(v.len() as u64) as usize; d.push_str(&format!("cut {} ", n)); v.truncate(n) }
        2 if !v.is_empty() => { let i = r.below(v.len() as u64) as usize; d.push_str(&format!("flip {} ", i)); v[i] ^= 1 << r.below(8) }
        3 => { d.push_str("append "); v.push(r.u8()) }
        _ => { let n = r.below(80) as usize; d.push_str("random "); v = r.bytes(n) }
    }
    v
}
fn main() {
    let mut h = H::new();
    let root: PathBuf = std::env::temp_dir().join(format!("axv-c24-{}", std::process::id()));
    let dir = root.join("wal");
    h.check("record form", 60, |r, d| {
        empty(&dir);
        let n = r.len(2000); let p = r.bytes(n); d.push_str(&hex(&p));
        ConsensusWal::new(&dir).update_overlord_wal(Context::new(), Bytes::from(p.clone())).map_err(|e| e.to_string())?;
        let f = files(&dir);
        ensure_eq!(f.len(), 1, "one file");
        ensure_eq!(valid(f.values().next().unwrap()), Some(p.clone()), "what is written");
        ensure_eq!(load(&dir)?, Some(p), "loaded");
        Ok(())
    });
    // a record as the log itself writes it, then cut at every byte, alone and above an older complete one
    h.once("cut at every byte", "", || {
        for older in [false, true] {
            empty(&dir);
            let new: Vec<u8> = (0..40u8).collect();
            ConsensusWal::new(&dir).update_overlord_wal(Context::new(), Bytes::from(new.clone())).map_err(|e| e.to_string())?;
            let (t, full) = files(&dir).into_iter().next().unwrap();
            if older { std::fs::write(dir.join((t - 5).to_string()), rec(b"older")).unwrap(); }
            for k in 0..=full.len() {
                std::fs::write(dir.join(t.to_string()), &full[..k]).unwrap();
                let w = if k == full.len() { Some(new.clone()) } else if older { Some(b"older".to_vec()) } else { None };
                ensure_eq!(load(&dir)?, w, "cut to {} bytes, an older record: {}", k, older);
            }
        }
        Ok(())
    });
    h.check("several files", 250, |r, d| {
        empty(&dir);
        let mut names = BTreeSet::new();
        for _ in 0..r.range(0, 6) { names.insert(match r.below(4) { 0 => r.below(12) as u128, 1 => 1_700_000_000_000 + r.below(30) as u128, 2 => 9 + r.below(3) as u128 * 90, _ => r.int() as u128 }); }
        for t in names {
            let n = r.below(70) as usize; let p = r.bytes(n);
            let mut f = rec(&p);
            d.push_str(&format!("[{}: {} bytes ", t, f.len()));
            if r.below(3) > 0 { f = damage(r, &f, d); }
            d.push_str("] ");
            std::fs::write(dir.join(t.to_string()), f).unwrap();
        }
        let w = want(&dir);
        ensure_eq!(load(&dir)?, w, "the newest complete record");
        // the next update replaces them
        if r.bool() {
            let later = files(&dir).keys().any(|t| *t > 1_780_000_000_000);
            let before = files(&dir);
            let p = r.blob(60); d.push_str(&format!("then {}", hex(&p)));
            ConsensusWal::new(&dir).update_overlord_wal(Context::new(), Bytes::from(p.clone())).map_err(|e| e.to_string())?;
            let after = files(&dir);
            let new: Vec<_> = after.keys().filter(|t| !before.contains_key(t)).collect();
            ensure_eq!(new.len(), 1, "one new file");
            for (t, f) in &before { ensure_eq!(after.get(t), if t < new[0] { None } else { Some(f) }, "file {} after the update", t); }
            if !later { ensure_eq!(load(&dir)?, Some(p), "after an update"); }
        }
        Ok(())
    });
    h.check("a history of updates", 40, |r, d| {
        empty(&dir);
        let w = ConsensusWal::new(&dir);
        let mut last: Option<Vec<u8>> = None;
        for _ in 0..r.range(1, 8) {
            match r.below(6) {
                0 => { w.clear().map_err(|e| e.to_string())?; last = None; d.push_str("clear "); ensure!(files(&dir).is_empty(), "cleared"); }
                1 => { // a crash in the middle of the next update: its file is there, cut short, and nothing was removed
                    let Some(t) = files(&dir).keys().max().copied() else { continue };
                    let n = r.below(50) as usize; let p = r.bytes(n); let f = rec(&p); let k = r.below(f.len() as u64) as usize;
                    d.push_str(&format!("crash at {}/{} ", k, f.len()));
                    std::fs::write(dir.join((t + 1).to_string()), &f[..k]).unwrap();
                    std::thread::sleep(std::time::Duration::from_millis(3));
                }
                _ => { let p = r.blob(50); d.push_str(&format!("+{} ", p.len())); w.update_overlord_wal(Context::new(), Bytes::from(p.clone())).map_err(|e| e.to_string())?; last = Some(p); }
            }
            ensure_eq!(load(&dir)?, last, "the latest record");
        }
        Ok(())
    });
    let tdir = root.join("txs");
    let mut r0 = Rng::new(77);
    let pool: Vec<SignedTransaction> = (0..6).map(|_| gen_tx::stx(&mut r0).0).collect();
    h.check("transaction lists", 120, |r, d| {
        let _ = std::fs::remove_dir_all(&tdir);
        let w = SignedTxsWAL::new(&tdir);
        let mut m: BTreeMap<(u64, H256), Vec<SignedTransaction>> = BTreeMap::new();
        let base = H256::from_slice(&r.bytes(32));
        for _ in 0..r.range(1, 7) {
            let n = match r.below(4) { 0 => r.below(3), 1 => 9 + r.below(4), 2 => 99 + r.below(3), _ => r.int() };
            let mut k = base; // digests that differ in one byte only, or in many
            match r.below(4) { 0 => {} 1 => k.0[r.below(32) as usize] ^= 1 << r.below(8), 2 => k = H256::from_slice(&r.bytes(32)), _ => k.0[2 + r.below(28) as usize] = r.u8() }
            let mut txs: Vec<_> = (0..r.below(5)).map(|_| r.pick(&pool).clone()).collect();
            if let Some(t) = m.get(&(n, k)) { txs = t.clone() } // a digest stands for one list
            d.push_str(&format!("({} {:?}: {}) ", n, k, txs.len()));
            w.save(n, k, txs.clone()).map_err(|e| e.to_string())?;
            m.insert((n, k), txs);
            let all: BTreeSet<u64> = w.available_number().map_err(|e| e.to_string())?.into_iter().collect();
            ensure_eq!(all, m.keys().map(|k| k.0).collect::<BTreeSet<_>>(), "heights with lists");
        }
        if r.bool() {
            let ns: Vec<u64> = m.keys().map(|k| k.0).collect();
            let c = match r.below(3) { 0 => *r.pick(&ns), 1 => r.pick(&ns).saturating_sub(1), _ => r.int() };
            d.push_str(&format!("pruned to {} ", c));
            w.remove(c).map_err(|e| e.to_string())?;
            for ((n, k), _) in &m { if *n <= c { ensure!(w.load(*n, *k).is_err(), "{} {:?} was to go", n, k); ensure!(w.load_by_number(*n).is_empty(), "{} was to go", n); } }
            m.retain(|k, _| k.0 > c);
        }
        for ((n, k), t) in &m { ensure_eq!(w.load(*n, *k).map_err(|e| e.to_string())?, *t, "list {} {:?}", n, k); }
        for n in m.keys().map(|k| k.0).collect::<BTreeSet<_>>() {
            let mut a: Vec<Vec<u8>> = w.load_by_number(n).iter().map(|t| rlp::encode(t).to_vec()).collect();
            let mut b: Vec<Vec<u8>> = m.iter().filter(|x| x.0 .0 == n).flat_map(|x| x.1.iter().map(|t| rlp::encode(t).to_vec())).collect();
            a.sort(); b.sort();
            ensure_eq!(a, b, "all lists of {}", n);
        }
        let (n, k) = (r.int(), H256::from_slice(&r.bytes(32)));
        if !m.contains_key(&(n, k)) { ensure!(w.load(n, k).is_err(), "a list never saved"); }
        if r.one_in(4) { w.remove_all().map_err(|e| e.to_string())?; ensure!(w.available_number().map_err(|e| e.to_string())?.is_empty(), "all removed"); }
        Ok(())
    });
    // a saved list cut short is an error, never a shorter list
    h.check("a list cut short", 40, |r, d| {
        let _ = std::fs::remove_dir_all(&tdir);
        let w = SignedTxsWAL::new(&tdir);
        let txs: Vec<_> = (0..r.range(1, 4)).map(|_| r.pick(&pool).clone()).collect();
        let k = H256::from_slice(&r.bytes(32));
        w.save(7, k, txs.clone()).map_err(|e| e.to_string())?;
        let f = std::fs::read_dir(tdir.join("7")).unwrap().next().unwrap().unwrap().path();
        let full = std::fs::read(&f).unwrap();
        for _ in 0..12 {
            let c = r.below(full.len() as u64) as usize; d.clear(); d.push_str(&format!("{} of {}", c, full.len()));
            std::fs::write(&f, &full[..c]).unwrap();
            ensure!(w.load(7, k).is_err(), "a list of {} transactions cut short is read", txs.len());
        }
        w.save(7, k, txs.clone()).map_err(|e| e.to_string())?;
        ensure_eq!(w.load(7, k).map_err(|e| e.to_string())?, txs, "saved again after the crash");
        Ok(())
    });
    let _ = std::fs::remove_dir_all(&root);
    h.finish()
}
