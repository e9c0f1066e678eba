//@extern protocol=axon_protocol core_executor core_mempool rlp common_crypto
// C18: histories of insertions, packagings, commits and timeouts of the real pool, against a model of what it holds.
#[path = "common.rs"] mod axv;
#[path = "gen.rs"] mod gen;
use axv::*;
use core_executor::system_contract::system_contract_address;
use core_mempool::MemPoolImpl;
use protocol::tokio;
use protocol::traits::{Context, MemPool as _, MemPoolAdapter};
use protocol::types::*;
use protocol::{async_trait, ProtocolResult};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::sync::{Arc, Mutex};

#[derive(Default)]
struct Chain { nonce: HashMap<H160, u64>, net: HashMap<Hash, SignedTransaction> }
#[derive(Clone)]
struct Adapter(Arc<Mutex<Chain>>);
#[async_trait]
impl MemPoolAdapter for Adapter {
    async fn pull_txs(&self, _: Context, _: Option<u64>, h: Vec<Hash>) -> ProtocolResult<Vec<SignedTransaction>> { let c = self.0.lock().unwrap(); Ok(h.iter().filter_map(|h| c.net.get(h).cloned()).collect()) }
    async fn broadcast_tx(&self, _: Context, _: Option<usize>, _: SignedTransaction) -> ProtocolResult<()> { Ok(()) }
    async fn check_authorization(&self, _: Context, t: &SignedTransaction) -> ProtocolResult<U64> {
        if core_executor::is_call_system_script(t.transaction.unsigned.action())? { return Ok(U64::zero()); }
        let n = *self.0.lock().unwrap().nonce.get(&t.sender).unwrap();
        Ok(t.transaction.unsigned.nonce() - n)
    }
    async fn check_transaction(&self, _: Context, _: &SignedTransaction) -> ProtocolResult<()> { Ok(()) }
    async fn check_storage_exist(&self, _: Context, _: &Hash) -> ProtocolResult<()> { Ok(()) }
    async fn get_latest_height(&self, _: Context) -> ProtocolResult<u64> { Ok(0) }
    async fn get_transactions_from_storage(&self, _: Context, _: Option<u64>, h: &[Hash]) -> ProtocolResult<Vec<Option<SignedTransaction>>> { Ok(vec![None; h.len()]) }
    fn clear_nonce_cache(&self) {}
    fn set_args(&self, _: Context, _: H256, _: u64, _: u64) {}
    fn report_good(&self, _: Context) {}
}
fn ctx() -> Context { Context::new() }
/// a transaction of a sender, with a digest of its own
fn tx(r: &mut Rng, k: &mut u64, sender: H160, nonce: u64, price: u64) -> SignedTransaction {
    let mut t = gen::utx(r);
    let to = H160::random_with(r);
    match &mut t.unsigned {
        UnsignedTransaction::Legacy(x) => { x.nonce = nonce.into(); x.gas_price = price.into(); x.action = TransactionAction::Call(to); }
        UnsignedTransaction::Eip2930(x) => { x.nonce = nonce.into(); x.gas_price = price.into(); x.action = TransactionAction::Call(to); }
        UnsignedTransaction::Eip1559(x) => { x.nonce = nonce.into(); x.gas_price = price.into(); x.max_priority_fee_per_gas = price.into(); x.action = TransactionAction::Call(to); }
    }
    *k += 1;
    t.hash = H256::from_low_u64_be((r.u64() << 20) | *k);
    SignedTransaction { transaction: t, sender, public: Some(Public::zero()) }
}
fn system_tx(r: &mut Rng, k: &mut u64, sender: H160, data: u8) -> SignedTransaction {
    let mut s = tx(r, k, sender, 0, 1);
    let a = TransactionAction::Call(system_contract_address(data % 4));
    let d = Bytes::from(vec![data; data as usize]);
    match &mut s.transaction.unsigned {
        UnsignedTransaction::Legacy(x) => { x.action = a; x.data = d; }
        UnsignedTransaction::Eip2930(x) => { x.action = a; x.data = d; }
        UnsignedTransaction::Eip1559(x) => { x.action = a; x.data = d; }
    }
    s
}
#[derive(Clone)]
struct Live { tx: SignedTransaction, since: Option<u64> }
fn price(t: &SignedTransaction) -> U64 { t.transaction.unsigned.gas_price() }
fn nonce(t: &SignedTransaction) -> u64 { t.transaction.unsigned.nonce().low_u64() }
fn hash(t: &SignedTransaction) -> Hash { t.transaction.hash }

/// One pool and what it should hold.
struct Pool {
    rt: tokio::runtime::Runtime, pool: MemPoolImpl<Adapter>, chain: Arc<Mutex<Chain>>, timeout: u64, height: u64,
    /// the best transaction for each sender and nonce
    live: BTreeMap<(H160, u64), Live>,
    /// every other one seen since the last flush: replaced, or bested
    lost: HashSet<Hash>,
    system: BTreeMap<Vec<u8>, BTreeMap<Hash, SignedTransaction>>,
    all: HashMap<Hash, SignedTransaction>,
    cap: usize,
    timed_out: HashSet<Hash>,
}
impl Pool {
    fn new(cap: usize, timeout: u64) -> Pool {
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
        let chain: Arc<Mutex<Chain>> = Default::default();
        let pool = rt.block_on(MemPoolImpl::new(cap, timeout, Adapter(chain.clone()), vec![]));
        Pool { rt, pool, chain, timeout, height: 0, live: BTreeMap::new(), lost: HashSet::new(), system: BTreeMap::new(), all: HashMap::new(), cap, timed_out: HashSet::new() }
    }
    fn at(&self, s: &H160) -> u64 { self.chain.lock().unwrap().nonce[s] }
    /// what holding one more means
    fn took(&mut self, t: &SignedTransaction) {
        if self.all.insert(hash(t), t.clone()).is_some() && self.held(&hash(t)) { return; }
        let (s, n) = (t.sender, nonce(t));
        match self.live.get(&(s, n)) {
            Some(o) if price(&o.tx) >= price(t) => { self.lost.insert(hash(t)); }
            o => { if let Some(o) = o { self.lost.insert(hash(&o.tx)); } self.live.insert((s, n), Live { tx: t.clone(), since: None }); }
        }
    }
    fn took_system(&mut self, t: &SignedTransaction) { self.all.insert(hash(t), t.clone()); self.system.entry(t.transaction.unsigned.data().to_vec()).or_default().insert(hash(t), t.clone()); }
    fn held(&self, h: &Hash) -> bool { self.live.values().any(|l| hash(&l.tx) == *h) || self.lost.contains(h) || self.system.values().any(|b| b.contains_key(h)) }
    fn insert(&mut self, t: &SignedTransaction) -> Result<(), String> {
        let full = self.pool.len();
        match self.rt.block_on(self.pool.insert(ctx(), t.clone())) {
            Ok(()) => { if core_executor::is_call_system_script(t.transaction.unsigned.action()).unwrap() { self.took_system(t) } else if !self.held(&hash(t)) { self.took(t) } Ok(()) }
            Err(e) => { if full < self.cap { Err(format!("refused with {} of {} held: {}", full, self.cap, e)) } else { Ok(()) } }
        }
    }
    /// what a sender's transactions could be packaged as: from its account's nonce, without a gap
    fn run(&self, s: &H160) -> Vec<Hash> { let mut n = self.at(s); let mut v = vec![]; while let Some(l) = self.live.get(&(*s, n)) { v.push(hash(&l.tx)); if n == u64::MAX { break; } n += 1; } v }
    fn package(&mut self, r: &mut Rng) -> Result<Vec<Hash>, String> {
        let senders: BTreeSet<H160> = self.live.keys().map(|k| k.0).collect();
        let runs: HashMap<H160, Vec<Hash>> = senders.iter().map(|s| (*s, self.run(s))).collect();
        let total: usize = runs.values().map(|v| v.len()).sum();
        let limit = match r.below(3) { 0 => total + r.below(3) as usize, 1 => r.below(total as u64 + 1) as usize, _ => 10_000 };
        let p = self.rt.block_on(self.pool.package(ctx(), U256::from(r.int()), limit as u64)).map_err(|e| e.to_string())?;
        let c = p.call_system_script_count as usize;
        ensure!(c <= p.hashes.len(), "{} system calls in {} transactions", c, p.hashes.len());
        let (sys, rest) = p.hashes.split_at(c);
        ensure!(p.hashes.iter().collect::<HashSet<_>>().len() == p.hashes.len(), "a transaction is packaged twice: {:?}", p.hashes);
        ensure!(sys.len() == self.system.len() && self.system.values().all(|b| sys.iter().filter(|h| b.contains_key(*h)).count() == 1), "system calls packaged: {:?}, held: {:?}", sys, self.system.values().map(|b| b.keys().collect::<Vec<_>>()).collect::<Vec<_>>());
        ensure!(rest.len() == total.min(limit), "{} packaged of {} with limit {}", rest.len(), total, limit);
        let mut got: HashMap<H160, Vec<Hash>> = HashMap::new();
        for h in rest { let t = self.all.get(h).ok_or_else(|| format!("{:?} was never inserted", h))?; got.entry(t.sender).or_default().push(*h); }
        for (s, v) in &got {
            let w = runs.get(s).cloned().unwrap_or_default();
            ensure!(v.len() <= w.len() && v[..] == w[..v.len()], "sender {:?} at nonce {}: packaged nonces {:?}, possible are {:?}", s, self.at(s), v.iter().map(|h| (nonce(&self.all[h]), price(&self.all[h]))).collect::<Vec<_>>(), w.iter().map(|h| (nonce(&self.all[h]), price(&self.all[h]))).collect::<Vec<_>>());
        }
        Ok(p.hashes)
    }
    /// a block is committed
    fn commit(&mut self, block: &[Hash]) -> Result<(), String> {
        self.height += 1;
        let n = self.height;
        let mut up: HashMap<H160, u64> = HashMap::new();
        for h in block {
            let t = self.all[h].clone();
            if self.system.values().any(|b| b.contains_key(h)) { self.system.retain(|_, b| !b.contains_key(h)); continue; }
            if core_executor::is_call_system_script(t.transaction.unsigned.action()).unwrap() { continue; }
            let e = up.entry(t.sender).or_default(); *e = (*e).max(nonce(&t));
        }
        for (s, k) in &up { self.chain.lock().unwrap().nonce.insert(*s, k.saturating_add(1)); }
        self.rt.block_on(self.pool.flush(ctx(), block, n)).map_err(|e| e.to_string())?;
        self.live.retain(|(s, k), _| up.get(s).map(|u| k > u).unwrap_or(true));
        let timeout = self.timeout;
        let out = &mut self.timed_out;
        self.live.retain(|_, l| match l.since { Some(f) if n >= timeout && f + timeout <= n => { out.insert(hash(&l.tx)); false } _ => true });
        for l in self.live.values_mut() { l.since.get_or_insert(n); }
        self.lost.clear();
        self.holds()
    }
    /// after a flush: exactly what is live is held
    fn holds(&mut self) -> Result<(), String> {
        for (h, t) in &self.all {
            let want = self.held(h);
            let has = self.rt.block_on(self.pool.contains(ctx(), h));
            ensure!(has == want, "{:?} (nonce {}, account at {:?}) {} held", h, nonce(t), self.chain.lock().unwrap().nonce.get(&t.sender), if want { "is not" } else { "is still" });
            ensure_eq!(self.pool.get_tx_from_mem(ctx(), h), if want { Some(t.clone()) } else { None }, "the transaction held");
        }
        let sys: usize = self.system.values().map(|b| b.len()).sum();
        ensure_eq!(self.pool.len(), self.live.len() + sys, "the number of transactions counted");
        for s in self.chain.lock().unwrap().nonce.keys() { ensure_eq!(self.rt.block_on(self.pool.get_tx_count_by_address(ctx(), *s)).unwrap().0, self.live.range((*s, 0)..=(*s, u64::MAX)).count(), "the number of a sender's transactions"); }
        Ok(())
    }
    /// a block another node proposed: each sender's next nonces, not always with the transactions this pool would take
    fn theirs(&mut self, r: &mut Rng, k: &mut u64) -> Vec<Hash> {
        let senders: Vec<H160> = self.chain.lock().unwrap().nonce.keys().cloned().collect();
        let mut b = vec![];
        for s in senders {
            let n = self.at(&s);
            for i in 0..r.below(4) {
                let known: Vec<Hash> = self.all.values().filter(|t| t.sender == s && nonce(t) == n + i && self.held(&hash(t)) && !core_executor::is_call_system_script(t.transaction.unsigned.action()).unwrap()).map(hash).collect::<BTreeSet<_>>().into_iter().collect();
                if !known.is_empty() && r.below(3) > 0 { b.push(*r.pick(&known)); } else { let p = r.range(1, 6); let t = tx(r, k, s, n + i, p); b.push(hash(&t)); self.chain.lock().unwrap().net.insert(hash(&t), t); }
            }
        }
        b
    }
    fn ensure_order(&mut self, b: &[Hash]) -> Result<(), String> {
        self.rt.block_on(self.pool.ensure_order_txs(ctx(), None, b)).map_err(|e| format!("a block's transactions are refused: {}", e))?;
        for h in b { if !self.held(h) { let t = self.chain.lock().unwrap().net[h].clone(); self.took(&t); } }
        let full = self.rt.block_on(self.pool.get_full_txs(ctx(), None, b)).map_err(|e| e.to_string())?;
        ensure!(full.iter().map(hash).collect::<Vec<_>>() == b, "the full transactions are not the ones asked for");
        Ok(())
    }
    fn idle(&mut self, r: &mut Rng) { if r.one_in(4) { self.rt.block_on(async { tokio::task::yield_now().await }) } }
}
fn senders(r: &mut Rng, p: &Pool) -> Vec<H160> {
    let n = r.range(1, 5);
    let mut v: BTreeSet<H160> = BTreeSet::new();
    while (v.len() as u64) < n { v.insert(H160::random_with(r)); }
    for s in &v { let k = match r.below(4) { 0 => 0, 1 => u64::MAX - 1000, _ => r.below(1000) }; p.chain.lock().unwrap().nonce.insert(*s, k); }
    v.into_iter().collect()
}
trait RandomWith { fn random_with(r: &mut Rng) -> Self; }
impl RandomWith for H160 { fn random_with(r: &mut Rng) -> H160 { let b: Vec<u8> = (0..20).map(|_| r.u64() as u8).collect(); H160::from_slice(&b) } }

fn main() {
    let mut h = H::new();
    h.check("histories", 1500, |r, d| {
        let timeout = if r.bool() { r.range(1, 6) } else { 1000 };
        let cap = match r.below(4) { 0 => r.range(1, 12) as usize, _ => 10_000 };
        let mut p = Pool::new(cap, timeout);
        let ss = senders(r, &p);
        let mut k = 0;
        let prices = r.range(1, 12);
        d.push_str(&format!("timeout {} capacity {} prices {}:", timeout, cap, prices));
        for _ in 0..r.range(5, 60) {
            p.idle(r);
            match r.below(10) {
                0..=5 => {
                    let s = *r.pick(&ss);
                    let n = p.at(&s) + if r.bool() { r.below(3) } else { r.below(9) };
                    let t = if r.one_in(12) && !p.all.is_empty() { let mut v: Vec<&Hash> = p.all.keys().collect(); v.sort(); let h = **r.pick(&v); let t = p.all[&h].clone(); if nonce(&t) < p.at(&t.sender) || p.timed_out.contains(&h) { continue; } t } else { let q = r.range(1, prices); tx(r, &mut k, s, n, q) };
                    d.push_str(&format!(" insert({},{},{})", ss.iter().position(|x| *x == t.sender).unwrap_or(99), nonce(&t), price(&t)));
                    p.insert(&t)?;
                }
                6 => { let s = *r.pick(&ss); let b = r.range(1, 3) as u8; let t = system_tx(r, &mut k, s, b); d.push_str(&format!(" system({})", b)); p.insert(&t)?; }
                7 => { d.push_str(" package"); p.package(r)?; }
                8 => { d.push_str(" package+commit"); let b = p.package(r)?; p.ensure_order(&b)?; p.commit(&b)?; }
                _ => { d.push_str(" theirs+commit"); let b = p.theirs(r, &mut k); d.push_str(&format!("{:?}", b.iter().map(|h| p.all.get(h).or(p.chain.lock().unwrap().net.get(h)).map(|t| (ss.iter().position(|x| *x == t.sender), nonce(t), price(t)))).collect::<Vec<_>>())); p.ensure_order(&b)?; p.commit(&b)?; }
            }
        }
        d.push_str(" end");
        p.package(r)?;
        p.commit(&[])?;
        p.package(r).map(|_| ())
    });
    h.check("many senders, many prices", 60, |r, d| {
        let mut p = Pool::new(100_000, 1000);
        let n = r.range(20, 60);
        let mut k = 0;
        let mut ts = vec![];
        for _ in 0..n { let s = H160::random_with(r); p.chain.lock().unwrap().nonce.insert(s, 7); for i in 0..r.range(1, 12) { let q = r.range(1, 1000); ts.push(tx(r, &mut k, s, 7 + i, q)); } }
        r.shuffle(&mut ts);
        d.push_str(&format!("{} senders, {} transactions", n, ts.len()));
        for t in &ts { p.insert(t)?; }
        for _ in 0..4 { let b = p.package(r)?; p.commit(&b)?; }
        p.package(r).map(|_| ())
    });
    h.check("the largest nonces", 100, |r, d| {
        let mut p = Pool::new(100, 1000);
        let s = H160::random_with(r);
        let from = u64::MAX - r.below(4);
        p.chain.lock().unwrap().nonce.insert(s, from);
        let mut k = 0;
        for n in from..=u64::MAX { if r.below(5) > 0 { let q = r.range(1, 4); let t = tx(r, &mut k, s, n, q); d.push_str(&format!("insert({}) ", n)); p.insert(&t)?; } }
        let b = p.package(r)?;
        d.push_str(&format!("{} packaged", b.len()));
        p.commit(&b)
    });
    h.check("a list naming a transaction twice", 50, |r, d| {
        let p = Pool::new(100, 1000);
        let mut v: Vec<Hash> = (0..r.range(1, 20)).map(|_| gen::h256(r)).collect::<BTreeSet<_>>().into_iter().collect();
        r.shuffle(&mut v);
        let x = *r.pick(&v);
        let i = r.below(v.len() as u64 + 1) as usize;
        v.insert(i, x);
        d.push_str(&format!("{:?}", v));
        ensure!(p.rt.block_on(p.pool.ensure_order_txs(ctx(), None, &v)).is_err(), "a list naming a transaction twice is taken");
        Ok(())
    });
    h.finish()
}
