//@extern protocol=axon_protocol core_executor core_storage core_db rlp rocksdb evm
// C32: the executor's state: sequences of changes, commits and restarts against maps.
#[path = "common.rs"] mod axv;
#[path = "gen.rs"] mod gen;
#[path = "store.rs"] mod store;
use axv::*;
use core_db::RocksAdapter;
use core_executor::{AxonExecutorApplyAdapter, AxonExecutorReadOnlyAdapter, MPTTrie, RocksTrieDB};
use core_storage::ImplStorage;
use evm::backend::{Apply, Basic};
use protocol::codec::ProtocolCodec as _;
use protocol::tokio;
use protocol::traits::*;
use protocol::trie::{Trie as _, DB as _};
use protocol::types::*;
use std::collections::BTreeMap;
use std::sync::Arc;

type Store = ImplStorage<RocksAdapter>;
type Exec = AxonExecutorApplyAdapter<Store, RocksTrieDB>;
type Read = AxonExecutorReadOnlyAdapter<Store, RocksTrieDB>;
#[derive(Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord)]
struct Acc { nonce: U256, balance: U256, code: Vec<u8>, slots: BTreeMap<H256, H256> }
type Model = BTreeMap<H160, Acc>;
const SIZES: [usize; 7] = [0, 1, 2, 3, 5, 20, 1000];

struct Fix { db: Arc<RocksAdapter>, store: Arc<Store>, rt: tokio::runtime::Runtime }
impl Fix {
    fn trie(&self, r: &mut Rng) -> Arc<RocksTrieDB> { Arc::new(RocksTrieDB::new_evm(self.db.inner_db(), *r.pick(&SIZES))) }
    fn run<T>(&self, f: impl FnOnce() -> T) -> T { self.rt.block_on(async { f() }) }
}
fn ctx(r: &mut Rng) -> (Proposal, ExecutorContext) {
    let mut p = gen::proposal(r);
    p.base_fee_per_gas = gen::u64_(r);
    p.chain_id = r.int();
    (p.clone(), p.into())
}
/// every way of reading the account and its slots
fn same<B: ExecutorReadOnlyAdapter>(b: &B, a: &H160, slots: &[H256], m: &Model) -> Result<(), String> {
    let want = m.get(a).cloned().unwrap_or_default();
    let x = b.basic(*a);
    ensure_eq!((x.nonce, x.balance), (want.nonce, want.balance), "nonce and balance of {:x}", a);
    ensure_eq!(hex(&b.code(*a)), hex(&want.code), "code of {:x}", a);
    ensure_eq!(b.exists(*a), m.contains_key(a), "presence of {:x}", a);
    let g = b.get_account(a);
    ensure_eq!((g.nonce, g.balance, g.code_hash), (want.nonce, want.balance, Hasher::digest(&want.code)), "account {:x}", a);
    ensure_eq!(g.storage_root == RLP_NULL, want.slots.is_empty(), "emptiness of the slots of {:x}", a);
    match (b.get(a.as_bytes()), m.contains_key(a)) {
        (Some(raw), true) => ensure_eq!(Account::decode(raw).map_err(|e| e.to_string())?, g, "raw account {:x}", a),
        (None, false) => (),
        (x, _) => return Err(format!("raw account {:x}: {}", a, x.is_some())),
    }
    for s in slots {
        let v = want.slots.get(s).cloned().unwrap_or_default();
        ensure_eq!(b.storage(*a, *s), v, "slot {:x} of {:x}", s, a);
        ensure_eq!(b.original_storage(*a, *s), Some(v), "original slot {:x} of {:x}", s, a);
    }
    Ok(())
}
fn all<B: ExecutorReadOnlyAdapter>(b: &B, who: &[H160], slots: &[H256], m: &Model) -> Result<(), String> { for a in who { same(b, a, slots, m)?; } Ok(()) }
fn code(r: &mut Rng) -> Vec<u8> { match r.below(5) { 0 => vec![], 1 => vec![0], 2 => vec![r.below(4) as u8; 3], _ => r.blob(60) } }
fn value(r: &mut Rng) -> H256 { match r.below(5) { 0 | 1 => H256::zero(), 2 => H256::from_low_u64_be(r.range(1, 200)), _ => gen::h256(r) } }
fn state(f: &Fix, r: &mut Rng, d: &mut String) -> Result<(), String> {
    let mut who: Vec<H160> = (0..r.range(1, 7)).map(|_| gen::h160(r)).collect();
    who.sort(); who.dedup();
    let mut slots: Vec<H256> = (0..r.range(1, 8)).map(|k| if r.bool() { H256::from_low_u64_be(k) } else { gen::h256(r) }).collect();
    slots.sort(); slots.dedup();
    let (_, x) = ctx(r);
    let mut db = f.trie(r);
    let mut e: Exec = Exec::new(Arc::clone(&db), Arc::clone(&f.store), x.clone()).map_err(|e| e.to_string())?;
    let (mut m, mut roots, mut by): (Model, Vec<(H256, Model)>, BTreeMap<Model, H256>) = Default::default();
    let steps = r.range(1, 14);
    for step in 0..steps {
        let mut vals = vec![];
        for _ in 0..r.range(0, 4) {
            let a = *r.pick(&who);
            if r.one_in(6) { *d += &format!(" delete {:x}", a); vals.push(Apply::Delete { address: a }); m.remove(&a); continue; }
            let reset = r.one_in(4);
            let basic = if r.one_in(6) { Basic::default() } else { Basic { nonce: gen::u256(r), balance: gen::u256(r) } };
            let c = if r.one_in(3) { Some(code(r)) } else { None };
            let st: BTreeMap<H256, H256> = (0..r.below(5)).map(|_| (*r.pick(&slots), value(r))).collect();
            *d += &format!(" modify {:x} {:?} code {:?} reset {} slots {:?}", a, basic, c.as_ref().map(|c| hex(c)), reset, st);
            let n = m.entry(a).or_default();
            n.nonce = basic.nonce; n.balance = basic.balance;
            if let Some(c) = &c { n.code = c.clone(); }
            if reset { n.slots.clear(); }
            for (k, v) in &st { if v.is_zero() { n.slots.remove(k); } else { n.slots.insert(*k, *v); } }
            vals.push(Apply::Modify { address: a, basic, code: c, storage: st, reset_storage: reset });
        }
        let logs: Vec<Log> = gen::many(r, gen::log);
        let n = logs.len();
        let del = r.bool();
        let ask = !r.one_in(4);
        f.run(|| { let keep = logs.clone(); ApplyBackend::apply(&mut e, vals, logs, del); if !ask { return Ok(()); } let got = e.take_logs(); if got != keep { return Err(format!("logs: {} instead of {}", got.len(), n)); }
            if !e.take_logs().is_empty() { return Err("logs left".to_string()); } Ok(()) })?;
        if r.one_in(4) {
            let a = *r.pick(&who);
            if let Some(n) = m.get_mut(&a) {
                n.balance = gen::u256(r); n.nonce = gen::u256(r);
                *d += &format!(" save {:x} {} {}", a, n.nonce, n.balance);
                let old = e.get_account(&a);
                e.save_account(&a, &Account { balance: n.balance, nonce: n.nonce, ..old });
            }
        }
        f.run(|| all(&e, &who, &slots, &m)).map_err(|x| format!("step {}: {}", step, x))?;
        if r.one_in(3) || step + 1 == steps {
            let root = f.run(|| e.commit());
            *d += &format!(" commit {:x}", root);
            ensure_eq!(f.run(|| e.commit()), root, "committing again");
            f.run(|| all(&e, &who, &slots, &m)).map_err(|x| format!("step {} after the commit: {}", step, x))?;
            if let Some(o) = by.insert(m.clone(), root) { ensure_eq!(o, root, "root of the same state"); }
            roots.push((root, m.clone()));
            ensure_eq!(by.values().collect::<std::collections::BTreeSet<_>>().len(), by.len(), "roots of different states");
        } else if r.one_in(6) && !roots.is_empty() {
            let (q, n) = r.pick(&roots).clone();
            *d += &format!(" back to {:x}", q);
            e = Exec::from_root(q, Arc::clone(&db), Arc::clone(&f.store), x.clone()).map_err(|e| e.to_string())?;
            m = n;
        }
        if !roots.is_empty() && r.one_in(2) {
            let (q, n) = r.pick(&roots).clone();
            let t = if r.bool() { f.trie(r) } else { Arc::clone(&db) };
            let b = Read::from_root(q, t, Arc::clone(&f.store), x.clone()).map_err(|e| format!("step {}: root {:x}: {}", step, q, e))?;
            f.run(|| all(&b, &who, &slots, &n)).map_err(|x| format!("step {}: root {:x}: {}", step, q, x))?;
        }
        if r.one_in(5) && roots.last().map_or(false, |l| l.1 == m) { // a restart
            *d += " restart";
            db = f.trie(r);
            e = Exec::from_root(roots.last().unwrap().0, Arc::clone(&db), Arc::clone(&f.store), x.clone()).map_err(|e| e.to_string())?;
        }
    }
    for (q, n) in &roots {
        let b = Read::from_root(*q, f.trie(r), Arc::clone(&f.store), x.clone()).map_err(|e| format!("end: root {:x}: {}", q, e))?;
        f.run(|| all(&b, &who, &slots, n)).map_err(|x| format!("end: root {:x}: {}", q, x))?;
    }
    // the same contents put together in another order
    let (root, n) = roots.last().unwrap();
    let mut parts: Vec<(H160, Acc)> = n.iter().map(|(a, b)| (*a, b.clone())).collect();
    r.shuffle(&mut parts);
    let mut o: Exec = Exec::new(f.trie(r), Arc::clone(&f.store), x).map_err(|e| e.to_string())?;
    for (a, b) in parts {
        let mut s: Vec<(H256, H256)> = b.slots.into_iter().collect();
        r.shuffle(&mut s);
        f.run(|| ApplyBackend::apply(&mut o, [Apply::Modify { address: a, basic: Basic { nonce: b.nonce, balance: b.balance }, code: Some(b.code), storage: s, reset_storage: false }], Vec::<Log>::new(), true));
    }
    ensure_eq!(f.run(|| o.commit()), *root, "root of the same contents built anew");
    Ok(())
}
fn triedb(f: &Fix, r: &mut Rng, d: &mut String) -> Result<(), String> {
    let name = H256::from_slice(&(0..4).flat_map(|_| r.u64().to_be_bytes()).collect::<Vec<u8>>());
    let key = |r: &mut Rng| { let mut k = name.as_bytes().to_vec(); k.push(r.below(12) as u8); k };
    let make = |r: &mut Rng, k: usize| -> RocksTrieDB { let (n, s) = (f.db.inner_db(), *r.pick(&SIZES)); match k { 0 => RocksTrieDB::new_evm(n, s), 1 => RocksTrieDB::new_metadata(n, s), _ => RocksTrieDB::new_ckb_light_client(n, s) } };
    let mut dbs: Vec<RocksTrieDB> = (0..3).map(|k| make(r, k)).collect();
    let mut ms: Vec<BTreeMap<Vec<u8>, Vec<u8>>> = vec![Default::default(); 3];
    for step in 0..r.range(1, 40) {
        let c = r.below(3) as usize;
        match r.below(9) {
            8 => { let k = key(r); *d += &format!(" {}:remove {}", c, hex(&k[32..])); if r.bool() { dbs[c].remove(&k) } else { dbs[c].remove_batch(&[k]) }.map_err(|e| e.to_string())?; } // earlier roots need what is there
            0 | 1 => { let (k, v) = (key(r), r.blob(20)); *d += &format!(" {}:put {}={}", c, hex(&k[32..]), hex(&v)); dbs[c].insert(k.clone(), v.clone()).map_err(|e| e.to_string())?; ms[c].insert(k, v); }
            2 => {
                let n = r.below(9) as usize;
                let (ks, vs): (Vec<_>, Vec<_>) = ((0..n).map(|_| key(r)).collect(), (0..if r.one_in(6) { r.below(9) as usize } else { n }).map(|_| r.blob(20)).collect());
                *d += &format!(" {}:batch {} {}", c, ks.len(), vs.len());
                let res = dbs[c].insert_batch(ks.clone(), vs.clone());
                ensure_eq!(res.is_ok(), ks.len() == vs.len(), "step {}: batch of {} keys and {} values", step, ks.len(), vs.len());
                if res.is_ok() { for (k, v) in ks.into_iter().zip(vs) { ms[c].insert(k, v); } }
            }
            3 => { *d += &format!(" {}:flush", c); dbs[c].flush().map_err(|e| e.to_string())?; }
            4 => { *d += &format!(" {}:reopen", c); dbs[c] = make(r, c); }
            5 => { let k = key(r); ensure_eq!(dbs[c].contains(&k).map_err(|e| e.to_string())?, ms[c].contains_key(&k), "step {}: whether {} holds {}", step, c, hex(&k[32..])); }
            _ => { let k = key(r); ensure_eq!(dbs[c].get(&k).map_err(|e| e.to_string())?, ms[c].get(&k).cloned(), "step {}: what {} holds at {}", step, c, hex(&k[32..])); }
        }
    }
    for c in 0..3 { for b in 0..12 { let mut k = name.as_bytes().to_vec(); k.push(b); ensure_eq!(dbs[c].get(&k).map_err(|e| e.to_string())?, ms[c].get(&k).cloned(), "end: what {} holds at {}", c, b); } }
    Ok(())
}
fn trie(f: &Fix, r: &mut Rng, d: &mut String) -> Result<(), String> {
    let db = f.trie(r);
    let mut t = MPTTrie::new(Arc::clone(&db));
    let keys: Vec<Vec<u8>> = (0..r.range(1, 12)).map(|_| r.blob(40)).collect();
    let mut m: BTreeMap<Vec<u8>, Vec<u8>> = BTreeMap::new();
    let mut roots: Vec<(H256, BTreeMap<Vec<u8>, Vec<u8>>)> = vec![];
    for step in 0..r.range(1, 40) {
        let k = r.pick(&keys).clone();
        match r.below(8) {
            0..=2 => { let mut v = r.blob(80); v.push(1); *d += &format!(" put {}={}", hex(&k), hex(&v)); t.insert(k.clone(), v.clone()).map_err(|e| e.to_string())?; m.insert(k, v); }
            3 => { *d += &format!(" remove {}", hex(&k)); ensure_eq!(t.remove(&k).map_err(|e| e.to_string())?, m.remove(&k).is_some(), "step {}: whether {} was there", step, hex(&k)); }
            4 => {
                *d += " commit";
                let q = if r.bool() { t.commit().map_err(|e| e.to_string())? } else { H256::from_slice(&t.root().map_err(|e| e.to_string())?) };
                for (o, n) in &roots { ensure_eq!(*o == q, *n == m, "step {}: equality with an earlier root", step); }
                ensure_eq!(q == RLP_NULL, m.is_empty(), "step {}: root of nothing", step);
                roots.push((q, m.clone()));
                if r.bool() { t = MPTTrie::from_root(q, if r.bool() { f.trie(r) } else { Arc::clone(&db) }).map_err(|e| e.to_string())?; }
                let p = t.get_proof(&k).map_err(|e| e.to_string())?;
                let other = MPTTrie::new(f.trie(r));
                ensure_eq!(other.verify_proof(q.as_bytes(), &k, p.clone()).map_err(|e| e.to_string()).or_else(|e| if m.is_empty() { Ok(None) } else { Err(e) })?, m.get(&k).cloned(), "step {}: proof of {}", step, hex(&k));
                let mut bad = q; bad.0[r.below(32) as usize] ^= 1;
                ensure!(m.is_empty() || other.verify_proof(bad.as_bytes(), &k, p).is_err(), "step {}: proof under another root", step);
            }
            5 => ensure_eq!(t.contains(&k).map_err(|e| e.to_string())?, m.contains_key(&k), "step {}: whether {} is there", step, hex(&k)),
            _ => ensure_eq!(t.get(&k).map_err(|e| e.to_string())?, m.get(&k).cloned(), "step {}: value at {}", step, hex(&k)),
        }
    }
    for (q, n) in &roots {
        let o = MPTTrie::from_root(*q, f.trie(r)).map_err(|e| format!("root {:x}: {}", q, e))?;
        for k in &keys { ensure_eq!(o.get(k).map_err(|e| e.to_string())?, n.get(k).cloned(), "root {:x}: value at {}", q, hex(k)); }
    }
    let none = gen::h256(r);
    ensure!(none.is_zero() || MPTTrie::from_root(none, f.trie(r)).is_err() || none.as_bytes().iter().all(|b| *b == 0xff), "a root nobody wrote");
    Ok(())
}
fn context(f: &Fix, hashes: &BTreeMap<u64, H256>, r: &mut Rng, d: &mut String) -> Result<(), String> {
    let (mut p, _) = ctx(r);
    p.number = match r.below(4) { 0 => r.int(), 1 => r.below(4), _ => r.range(250, 330) };
    let x: ExecutorContext = p.clone().into();
    *d = format!("{:?}", p).chars().take(300).collect();
    let mut e: Exec = Exec::new(f.trie(r), Arc::clone(&f.store), x.clone()).map_err(|e| e.to_string())?;
    let head = Header { number: p.number, proposer: p.proposer, timestamp: p.timestamp, chain_id: p.chain_id, gas_limit: p.gas_limit, base_fee_per_gas: p.base_fee_per_gas, extra_data: p.extra_data.clone(), ..gen::header(r) };
    ensure_eq!(ExecutorContext::from(&head), x, "context of the header");
    let (who, price) = (gen::h160(r), gen::u64_(r));
    e.set_origin(who);
    e.set_gas_price(price);
    let plain = Read::new(f.trie(r), Arc::clone(&f.store), x.clone()).map_err(|e| e.to_string())?;
    fn check<B: ExecutorReadOnlyAdapter>(b: &B, p: &Proposal, origin: H160, price: U256) -> Result<(), String> {
        ensure_eq!(b.block_number(), U256::from(p.number), "number");
        ensure_eq!(b.block_coinbase(), p.proposer, "coinbase");
        ensure_eq!(b.block_timestamp(), U256::from(p.timestamp), "timestamp");
        ensure_eq!(b.chain_id(), U256::from(p.chain_id), "chain id");
        ensure_eq!(b.block_gas_limit(), U256::from(p.gas_limit.as_u64()), "gas limit");
        ensure_eq!(b.block_base_fee_per_gas(), U256::from(p.base_fee_per_gas.as_u64()), "base fee");
        ensure_eq!(b.block_difficulty(), U256::one(), "difficulty");
        ensure_eq!(b.origin(), origin, "origin");
        ensure_eq!(b.gas_price(), price, "gas price");
        let c = b.get_ctx();
        ensure_eq!((c.block_number, c.block_coinbase, c.block_timestamp, c.chain_id, c.origin, c.gas_price), (p.number.into(), p.proposer, p.timestamp.into(), p.chain_id.into(), origin, price), "context");
        ensure_eq!((c.block_gas_limit, c.block_base_fee_per_gas, c.extra_data), (p.gas_limit, p.base_fee_per_gas, p.extra_data.clone()), "rest of the context");
        Ok(())
    }
    check(&e, &p, who, price.as_u64().into())?;
    check(&plain, &p, p.proposer, U256::one())?;
    for _ in 0..12 {
        let n: U256 = match r.below(6) { 0 => gen::u256(r), 1 => U256::from(p.number).saturating_sub(U256::from(r.range(254, 259))), 2 => U256::from(p.number) + r.below(3), 3 => (U256::one() << 64) + r.range(0, 300), _ => r.range(0, 330).into() };
        let in_reach = n < p.number.into() && U256::from(p.number) - n <= 256.into();
        let want = if in_reach { hashes.get(&n.as_u64()).cloned().unwrap_or_default() } else { H256::zero() };
        ensure_eq!(f.run(|| e.block_hash(n)), want, "hash of block {} in block {}", n, p.number);
        ensure_eq!(f.run(|| plain.block_hash(n)), want, "hash of block {} in block {}", n, p.number);
    }
    Ok(())
}
fn main() {
    let mut h = H::new();
    let db = Arc::new(store::db("c32"));
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(1).enable_all().build().unwrap();
    let st = Arc::new(ImplStorage::new(Arc::clone(&db), 20));
    let f = Fix { db, store: st, rt };
    let mut r0 = Rng::new(32);
    let mut hashes = BTreeMap::new();
    for n in 0..320u64 {
        if n == 300 { continue; }
        let b = Block { header: Header { number: n, ..gen::header(&mut r0) }, tx_hashes: vec![] };
        hashes.insert(n, b.hash());
        f.rt.block_on(f.store.insert_block(Context::new(), b)).unwrap();
    }
    h.check("state", 900, |r, d| state(&f, r, d));
    h.check("triedb", 1500, |r, d| triedb(&f, r, d));
    h.check("trie", 900, |r, d| trie(&f, r, d));
    h.check("context", 600, |r, d| context(&f, &hashes, r, d));
    h.finish()
}
