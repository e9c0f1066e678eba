//@extern protocol=axon_protocol core_executor core_mempool core_consensus core_storage core_db core_interoperation core_network rlp rocksdb common_crypto common_merkle overlord
// C35: what the peers are told of new transactions, by the real broadcaster, adapter, pool and message handler.
#[path = "common.rs"] mod axv;
#[path = "gen.rs"] mod gen;
#[path = "gen_tx.rs"] mod gen_tx;
#[path = "store.rs"] mod store;
#[path = "chain.rs"] mod chain;
use axv::*;
use chain::{Node, World, CHAIN};
use common_crypto::{Secp256k1Recoverable, Secp256k1RecoverablePrivateKey};
use core_executor::{MPTTrie, RocksTrieDB};
use core_interoperation::InteroperationImpl;
use core_mempool::{DefaultMemPoolAdapter, MemPoolImpl, NewTxsHandler};
use core_network::{NetworkContext as _, SessionId};
use protocol::codec::ProtocolCodec as _;
use protocol::traits::*;
use protocol::trie::Trie as _;
use protocol::types::*;
use protocol::{async_trait, tokio, ProtocolResult};
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// one message: origin, topic, the transactions' hashes
type Msg = (Option<usize>, String, Vec<H256>);
/// the peers, who take down what they are told; some messages do not get through
#[derive(Clone, Default)]
struct Peers { told: Arc<Mutex<Vec<Msg>>>, fails: Arc<Mutex<Vec<bool>>> }
#[async_trait]
impl Gossip for Peers {
    async fn broadcast<M: MessageCodec>(&self, _: Context, end: &str, mut m: M, _: Priority) -> ProtocolResult<()> { self.gossip(Context::new(), None, end, m, Priority::Normal).await }
    async fn gossip<M: MessageCodec>(&self, _: Context, origin: Option<usize>, end: &str, mut m: M, _: Priority) -> ProtocolResult<()> {
        let b = BatchSignedTxs::decode_msg(m.encode_msg()?)?;
        self.told.lock().unwrap().push((origin, end.to_string(), b.inner().iter().map(|t| t.transaction.hash).collect()));
        if self.fails.lock().unwrap().pop().unwrap_or(false) { return Err(core_network::NetworkError("not sent".into()).into()); }
        Ok(())
    }
    async fn multicast<'a, M: MessageCodec, P: AsRef<[Bytes]> + Send + 'a>(&self, _: Context, _: &str, _: P, _: M, _: Priority) -> ProtocolResult<()> { Ok(()) }
}
#[async_trait]
impl Rpc for Peers {
    async fn call<M: MessageCodec, R: MessageCodec>(&self, _: Context, _: &str, _: M, _: Priority) -> ProtocolResult<R> { R::decode_msg(BatchSignedTxs(vec![]).encode_msg()?) }
    async fn response<M: MessageCodec>(&self, _: Context, _: &str, _: ProtocolResult<M>, _: Priority) -> ProtocolResult<()> { Ok(()) }
}
impl PeerTrust for Peers { fn report(&self, _: Context, _: TrustFeedback) {} }
type Ad = DefaultMemPoolAdapter<Secp256k1Recoverable, Peers, chain::Store, RocksTrieDB, InteroperationImpl>;
struct Acct { key: Secp256k1RecoverablePrivateKey, nonce: u64, balance: U256 }
fn advance(w: &World, n: &Node, accts: &[(H160, u64, U256)]) {
    let h = w.rt.block_on(n.store.get_latest_block_header(Context::new())).unwrap();
    let mut t = MPTTrie::from_root(h.state_root, Arc::clone(&w.trie)).unwrap();
    for (a, nonce, balance) in accts {
        let x = Account { nonce: (*nonce).into(), balance: *balance, storage_root: RLP_NULL, code_hash: NIL_DATA };
        t.insert(a.as_bytes().to_vec(), x.encode().unwrap().to_vec()).unwrap();
    }
    let mut b = Block { header: h, tx_hashes: vec![] };
    b.header.state_root = t.commit().unwrap();
    b.header.number += 1;
    w.rt.block_on(n.store.insert_block(Context::new(), b)).unwrap();
}
/// what went out under each origin, in order
fn by_origin(v: &[Msg]) -> BTreeMap<Option<usize>, Vec<H256>> {
    let mut m = BTreeMap::<_, Vec<H256>>::new();
    for (o, _, t) in v { if !t.is_empty() { m.entry(*o).or_default().extend(t); } }
    m
}
fn rt() -> tokio::runtime::Runtime { tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap() }
/// waits until `n` transactions have gone out (and a little, should more come), 20 s at most
fn settle(p: &Peers, n: usize) {
    let t = Instant::now();
    let out = || p.told.lock().unwrap().iter().map(|m| m.2.len()).sum::<usize>();
    while out() < n && t.elapsed() < Duration::from_secs(20) { std::thread::sleep(Duration::from_millis(2)); }
    std::thread::sleep(Duration::from_millis(15));
}
fn check(p: &Peers, want: &BTreeMap<Option<usize>, Vec<H256>>) -> Result<(), String> {
    let v = p.told.lock().unwrap().clone();
    for (o, end, t) in &v { ensure!(end == "/gossip/mempool/new_txs", "a message of {} transactions from {:?} went out on {}", t.len(), o, end); }
    ensure_eq!(&by_origin(&v), want, "what the peers were told, by origin");
    Ok(())
}
fn main() {
    let mut h = H::new();
    let w = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| World::new("c35", &mut Rng::new(35), 3, 1))) {
        Ok(w) => w,
        Err(_) => { h.once("a chain to admit transactions against", "one block after genesis", || Err("an honest chain cannot be made".to_string())); h.finish() }
    };
    let n = w.node(1);
    let validators: Vec<H160> = w.validators.iter().map(|v| v.ext.address).collect();
    let keys: Vec<_> = (0..8).map(|i| gen_tx::key(&mut Rng::new(900 + i))).collect();
    let stock: Vec<SignedTransaction> = (0..400).map(|i| chain::transfer(&mut Rng::new(i), &keys[i as usize % 8], i / 8, H160::repeat_byte(i as u8), i)).collect();

    h.check("every transaction goes out once, under its origin", 400, |r, d| {
        let (rt, peers) = (rt(), Peers::default());
        let by_size = r.bool();
        // either the number waiting brings them out, or the interval
        let (size, every) = if by_size { (r.range(1, 7) as usize, 3_600_000) } else { (*r.pick(&[0usize, 5, 1000]), r.range(1, 12)) };
        let count = if by_size { size * r.range(1, 6) as usize } else if size == 5 { r.range(1, 23) as usize } else { r.range(1, 60) as usize };
        d.push_str(&format!("broadcast at {} or every {} ms, {} transactions", size, every, count));
        if r.one_in(3) { *peers.fails.lock().unwrap() = (0..100).map(|_| r.one_in(3)).collect(); d.push_str(", some messages fail"); }
        let a: &'static Ad = Box::leak(Box::new(rt.block_on(async { Ad::new(peers.clone(), Arc::clone(&n.store), Arc::clone(&w.trie), CHAIN, 100_000, size, every) })));
        // the interval's first tick comes at once; then only the number counts
        std::thread::sleep(Duration::from_millis(r.below(4)));
        let mut want = BTreeMap::<_, Vec<H256>>::new();
        let origins = r.range(1, 5) as usize;
        let first = r.below(400) as usize;
        for i in 0..count {
            let t = stock[(first + i) % 400].clone();
            let o = match r.below(origins as u64 + 1) { 0 => None, k => Some(k as usize - 1) };
            want.entry(o).or_default().push(t.transaction.hash);
            let _ = rt.block_on(a.broadcast_tx(Context::new(), o, t));
            if !by_size && r.one_in(9) { std::thread::sleep(Duration::from_millis(r.below(8))); }
        }
        settle(&peers, if by_size { count - (size - 1) } else { count });
        let res = if by_size {
            // at most size - 1 are still waiting: what is out is a beginning of each origin's
            let v = peers.told.lock().unwrap().clone();
            let (got, all) = (by_origin(&v), want.values().map(|x| x.len()).sum::<usize>());
            let out: usize = got.values().map(|x| x.len()).sum();
            let begin = got.iter().all(|(o, x)| want.get(o).map(|y| y.len() >= x.len() && y[..x.len()] == x[..]).unwrap_or(false));
            if !begin { Err(format!("the peers were told {:?} of {:?}", got, want)) }
            else if all - out >= size { Err(format!("{} of {} transactions still wait, at a broadcast size of {}", all - out, all, size)) }
            else if let Some(m) = v.iter().find(|m| m.1 != "/gossip/mempool/new_txs") { Err(format!("a message went out on {}", m.1)) }
            else if let Some(m) = v.iter().find(|m| m.2.len() > size) { Err(format!("a message of {} transactions at a broadcast size of {}", m.2.len(), size)) }
            else { Ok(()) }
        } else { check(&peers, &want) };
        rt.shutdown_background();
        res
    });

    h.check("what the pool takes goes out, from whomever it came", 120, |r, d| {
        let n = w.node(1);
        let accts: Vec<Acct> = (0..3).map(|i| Acct { key: keys[i].clone(), nonce: r.below(3), balance: U256::from(u64::MAX) }).collect();
        let rows: Vec<_> = accts.iter().map(|a| (gen_tx::account(&a.key).1, a.nonce, a.balance)).collect();
        advance(&w, &n, &rows);
        let (rt, peers) = (rt(), Peers::default());
        let cap = *r.pick(&[3usize, 1000, 1000]);
        let p: &'static Arc<MemPoolImpl<Ad>> = Box::leak(Box::new(rt.block_on(async { Arc::new(MemPoolImpl::new(cap, 100, Ad::new(peers.clone(), Arc::clone(&n.store), Arc::clone(&w.trie), CHAIN, 100_000, 10, 3), vec![]).await) })));
        let handler = NewTxsHandler::new(Arc::clone(p));
        let mut want = BTreeMap::<_, Vec<H256>>::new();
        let mut seen: Vec<SignedTransaction> = vec![];
        for _ in 0..r.range(1, 12) {
            let i = r.below(3) as usize;
            let a = &accts[i];
            let batch: Vec<SignedTransaction> = (0..r.range(1, 4)).map(|_| if !seen.is_empty() && r.one_in(4) { r.pick(&seen).clone() }
                // some may not enter: a used nonce
                else if r.one_in(6) {
                    // a validator's call of a system contract
                    let mut t = chain::transfer(r, &a.key, 7, H160::repeat_byte(9), 0);
                    let mut to = [0xff; 20]; to[19] = r.range(1, 4) as u8;
                    if let UnsignedTransaction::Legacy(x) = &mut t.transaction.unsigned { x.action = TransactionAction::Call(H160(to)); x.data = r.blob(20).into(); }
                    gen_tx::sign(&mut t.transaction, &a.key);
                    t.transaction.hash = t.transaction.get_hash();
                    t.sender = validators[0];
                    t
                } else { let nonce = a.nonce + r.below(9); let used = r.one_in(5); chain::transfer(r, &a.key, if used { a.nonce.wrapping_sub(1) % 3 } else { nonce }, H160::repeat_byte(9), 1) }).collect();
            let from = if r.bool() { None } else { Some(r.below(4) as usize) };
            let before: Vec<bool> = batch.iter().map(|t| rt.block_on(p.contains(Context::new(), &t.transaction.hash))).collect();
            match from {
                // one after the other, as requests come
                None => for t in &batch { let _ = rt.block_on(p.insert(Context::new(), t.clone())); },
                Some(s) => { let c = Context::new().set_session_id(SessionId(s)); rt.block_on(handler.process(c, BatchSignedTxs(batch.clone()))); }
            }
            let mut new: Vec<H256> = vec![];
            for (k, t) in batch.iter().enumerate() {
                let hash = t.transaction.hash;
                if !before[k] && !new.contains(&hash) && rt.block_on(p.contains(Context::new(), &hash)) { new.push(hash); }
                if !seen.iter().any(|x| x.transaction.hash == hash) { seen.push(t.clone()); }
            }
            d.push_str(&format!(" | {} from {:?}, {} taken", batch.len(), from, new.len()));
            if !new.is_empty() { want.entry(from).or_default().extend(new); }
        }
        settle(&peers, want.values().map(|x| x.len()).sum());
        let v = peers.told.lock().unwrap().clone();
        rt.shutdown_background();
        // a peer's batch enters in any order
        let sorted = |m: &BTreeMap<Option<usize>, Vec<H256>>| m.iter().map(|(o, x)| { let mut x = x.clone(); x.sort(); (*o, x) }).collect::<Vec<_>>();
        ensure_eq!(sorted(&by_origin(&v)), sorted(&want), "what the peers were told, by origin");
        ensure!(v.iter().all(|m| m.1 == "/gossip/mempool/new_txs"), "a message went out on another topic");
        Ok(())
    });
    h.finish()
}
