//@extern protocol=axon_protocol core_storage core_db rlp rocksdb common_crypto
// C17: histories of writes and reads against a model of what was written.
#[path = "common.rs"] mod axv;
#[path = "gen.rs"] mod gen;
#[path = "gen_tx.rs"] mod gen_tx;
#[path = "/repo/core/storage/src/hash_key.rs"] #[allow(dead_code)] mod hash_key;
use axv::*;
use core_db::RocksAdapter;
use core_storage::ImplStorage;
use hash_key::{CommonHashKey, CommonPrefix};
use protocol::codec::ProtocolCodec;
use protocol::traits::*;
use protocol::types::*;
use std::collections::HashMap;
use std::sync::Arc;
fn db(name: &str) -> Arc<RocksAdapter> {
    let p = std::env::temp_dir().join(format!("axv-{}-{}", name, std::process::id()));
    let a = RocksAdapter::new(&p, Default::default()).unwrap();
    let _ = std::fs::remove_dir(&p);
    Arc::new(a)
}
fn c() -> Context { Context::default() }
/// heights and hashes that differ in one byte, across byte boundaries
fn height(r: &mut Rng) -> u64 { match r.below(6) { 0 => r.below(4), 1 => 255 + r.below(3), 2 => 65534 + r.below(4), 3 => u64::MAX - r.below(3), 4 => 1 << (8 * r.below(8)), _ => r.int() } }
fn digest(r: &mut Rng) -> H256 {
    match r.below(4) { 0 => gen::h256(r), 1 => { let mut b = [0u8; 32]; b[r.below(32) as usize] = r.u8(); H256(b) } 2 => { let mut b = [0xffu8; 32]; b[r.below(32) as usize] = r.u8(); H256(b) } _ => H256::from_low_u64_be(r.below(5)) }
}
macro_rules! schema { ($n: ident, $k: ty, $v: ty, $c: ident) => { struct $n; impl StorageSchema for $n { type Key = $k; type Value = $v; fn category() -> StorageCategory { StorageCategory::$c } } } }
schema!(S0, Hash, Bytes, Block);
schema!(S1, Hash, Bytes, BlockHeader);
schema!(S2, Hash, Bytes, Receipt);
schema!(S3, Hash, Bytes, SignedTransaction);
schema!(S4, Hash, Bytes, Wal);
schema!(S5, Hash, Bytes, HashHeight);
schema!(S6, Hash, Bytes, Code);
schema!(S7, Hash, Bytes, EvmState);
schema!(S8, Hash, Bytes, MetadataState);
schema!(S9, Hash, Bytes, CkbLightClientState);
schema!(S10, Hash, Bytes, Version);
macro_rules! each { ($i: expr, $f: ident ( $($a: expr),* )) => { match $i { 0 => $f::<S0>($($a),*), 1 => $f::<S1>($($a),*), 2 => $f::<S2>($($a),*), 3 => $f::<S3>($($a),*), 4 => $f::<S4>($($a),*), 5 => $f::<S5>($($a),*), 6 => $f::<S6>($($a),*), 7 => $f::<S7>($($a),*), 8 => $f::<S8>($($a),*), 9 => $f::<S9>($($a),*), _ => $f::<S10>($($a),*) } } }
fn put<S: StorageSchema<Key = Hash, Value = Bytes>>(a: &RocksAdapter, k: Hash, v: Bytes) { a.insert::<S>(k, v).unwrap() }
fn del<S: StorageSchema<Key = Hash, Value = Bytes>>(a: &RocksAdapter, k: Hash) { a.remove::<S>(k).unwrap() }
fn got<S: StorageSchema<Key = Hash, Value = Bytes>>(a: &RocksAdapter, k: Hash) -> Option<Bytes> { a.get::<S>(k).unwrap() }
fn has<S: StorageSchema<Key = Hash, Value = Bytes>>(a: &RocksAdapter, k: Hash) -> bool { a.contains::<S>(k).unwrap() }
fn batch_get<S: StorageSchema<Key = Hash, Value = Bytes>>(a: &RocksAdapter, k: Vec<Hash>) -> Vec<Option<Bytes>> { a.get_batch::<S>(k).unwrap() }
fn batch<S: StorageSchema<Key = Hash, Value = Bytes>>(a: &RocksAdapter, k: Vec<Hash>, v: Vec<Option<Bytes>>) -> bool {
    a.batch_modify::<S>(k, v.into_iter().map(|x| match x { Some(x) => StorageBatchModify::Insert(x), None => StorageBatchModify::Remove }).collect()).is_ok()
}
fn main() {
    let mut h = H::new();
    let rt = protocol::tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
    h.check("keys", 20000, |r, d| {
        let (a, b) = (height(r), height(r));
        let (x, y) = (digest(r), digest(r));
        d.push_str(&format!("{} {:?} / {} {:?}", a, x, b, y));
        let (p, q) = (CommonHashKey::new(a, x), CommonHashKey::new(b, y));
        let (e, f) = (p.encode().unwrap(), q.encode().unwrap());
        ensure_eq!(e.len(), 40, "length of a key");
        ensure_eq!(e.cmp(&f), (a, x).cmp(&(b, y)), "order of the keys");
        let back = CommonHashKey::decode(&e).unwrap();
        ensure_eq!((back.height(), *back.hash()), (a, x), "read back");
        ensure_eq!((p.height(), *p.hash()), (a, x), "of the key");
        let (s, t) = (CommonPrefix::new(a), CommonPrefix::new(b));
        ensure_eq!(s.encode().unwrap().cmp(&t.encode().unwrap()), a.cmp(&b), "order of the prefixes");
        ensure_eq!(CommonPrefix::decode(s.encode().unwrap()).unwrap().height(), a, "prefix read back");
        ensure!(e.starts_with(s.as_ref()), "a key starts with its prefix");
        ensure_eq!(CommonPrefix::from(e.as_ref()).height(), a, "prefix of a key");
        Ok(())
    });
    h.check("columns", 400, |r, d| {
        let a = db("c17-cols");
        let mut m: HashMap<(u64, Hash), Bytes> = HashMap::new();
        let keys: Vec<Hash> = (0..4).map(|_| digest(r)).collect();
        for _ in 0..r.range(1, 30) {
            let (i, k) = (r.below(11), *r.pick(&keys));
            match r.below(4) {
                0 => { d.push_str(&format!("del {} {:?};", i, k)); each!(i, del(&a, k)); m.remove(&(i, k)); }
                1 => {
                    let n = r.below(5) as usize;
                    let ks: Vec<Hash> = (0..n).map(|_| *r.pick(&keys)).collect();
                    let vs: Vec<Option<Bytes>> = (0..if r.one_in(6) { n + 1 } else { n }).map(|_| gen::opt(r, gen::blob)).collect();
                    d.push_str(&format!("batch {} {}x{};", i, n, vs.len()));
                    let ok = each!(i, batch(&a, ks.clone(), vs.clone()));
                    ensure_eq!(ok, vs.len() == n, "a batch of {} keys and {} values", n, vs.len());
                    if ok { for (k, v) in ks.into_iter().zip(vs) { match v { Some(v) => { m.insert((i, k), v); } None => { m.remove(&(i, k)); } } } }
                }
                _ => { let v = gen::blob(r); d.push_str(&format!("put {} {:?} {};", i, k, v.len())); each!(i, put(&a, k, v.clone())); m.insert((i, k), v); }
            }
            for i in 0..11u64 {
                for k in &keys { ensure_eq!(each!(i, got(&a, *k)), m.get(&(i, *k)).cloned(), "column {} key {:?}", i, k); ensure_eq!(each!(i, has(&a, *k)), m.contains_key(&(i, *k)), "contains"); }
                ensure_eq!(each!(i, batch_get(&a, keys.clone())), keys.iter().map(|k| m.get(&(i, *k)).cloned()).collect::<Vec<_>>(), "batch of column {}", i);
            }
        }
        for i in 0..11u64 { for k in &keys { each!(i, del(&a, *k)) } }
        Ok(())
    });
    let mut run = 0;
    h.check("a chain written and read", 300, |r, d| {
        run += 1;
        let a = db(&format!("c17-{}", run));
        let open = |r: &mut Rng| ImplStorage::new(a.clone(), 1 + r.below(6) as usize);
        let mut s = open(r);
        let mut heights: Vec<u64> = (0..r.range(1, 7)).map(|_| height(r)).collect();
        heights.sort();
        heights.dedup();
        r.shuffle(&mut heights);
        let absent: Vec<u64> = (0..3).map(|_| height(r)).filter(|x| !heights.contains(x)).collect();
        let mut blocks: HashMap<u64, Block> = HashMap::new();
        let mut txs: HashMap<u64, Vec<SignedTransaction>> = HashMap::new();
        let mut recs: HashMap<u64, Vec<Receipt>> = HashMap::new();
        let mut codes: Vec<(H256, Hash, Bytes)> = vec![];
        let mut last: Option<Block> = None;
        let mut proof: Option<Proof> = None;
        let mut fork: Option<HardforkInfoInner> = None;
        let mut todo: Vec<(u64, u8)> = heights.iter().flat_map(|x| [(*x, 0u8), (*x, 1), (*x, 2)]).collect();
        r.shuffle(&mut todo);
        let all: HashMap<u64, Vec<SignedTransaction>> = heights.iter().map(|x| (*x, (0..gen::count(r)).map(|_| gen_tx::stx(r).0).collect())).collect();
        for (x, what) in todo {
            d.push_str(&format!("{}:{} ", x, what));
            match what {
                0 => {
                    let mut b = gen::block(r);
                    b.header.number = x;
                    b.tx_hashes = all[&x].iter().map(|t| t.transaction.hash).collect();
                    if r.bool() { rt.block_on(s.insert_block(c(), b.clone())).map_err(|e| e.to_string())?; last = Some(b.clone()); } else { rt.block_on(s.set_block(c(), b.clone())).map_err(|e| e.to_string())?; }
                    blocks.insert(x, b);
                }
                1 => { rt.block_on(s.insert_transactions(c(), x, all[&x].clone())).map_err(|e| e.to_string())?; txs.insert(x, all[&x].clone()); }
                _ => {
                    let v: Vec<Receipt> = all[&x].iter().map(|t| { let mut y = gen::receipt(r); y.tx_hash = t.transaction.hash; y.block_number = x; y }).collect();
                    rt.block_on(s.insert_receipts(c(), x, v.clone())).map_err(|e| e.to_string())?;
                    recs.insert(x, v);
                }
            }
            if r.one_in(4) { let k = (digest(r), digest(r), gen::blob(r)); if !codes.iter().any(|z| z.0 == k.0 || z.1 == k.1 || z.0 == k.1 || z.1 == k.0) && k.0 != k.1 { rt.block_on(s.insert_code(c(), k.0, k.1, k.2.clone())).unwrap(); codes.push(k); } }
            if r.one_in(4) { let p = gen::proof(r); rt.block_on(s.update_latest_proof(c(), p.clone())).unwrap(); proof = Some(p); }
            match r.below(8) { 0 => { let f = gen::hardfork_inner(r); rt.block_on(s.set_hardfork_proposal(c(), f.clone())).unwrap(); fork = Some(f); } 1 => { rt.block_on(s.remove_hardfork_proposal(c())).unwrap(); fork = None; } _ => {} }
            if r.one_in(5) { d.push_str("reopen "); s = open(r); }
            // everything, in some order
            ensure_eq!(rt.block_on(s.get_latest_block(c())).ok(), last, "latest block");
            ensure_eq!(rt.block_on(s.get_latest_block_header(c())).ok(), last.as_ref().map(|b| b.header.clone()), "latest header");
            ensure_eq!(rt.block_on(s.get_latest_proof(c())).ok(), proof, "latest proof");
            ensure_eq!(rt.block_on(s.hardfork_proposal(c())).map_err(|e| e.to_string())?, fork, "hard fork proposal");
            for (p, q, v) in &codes {
                ensure_eq!(rt.block_on(s.get_code_by_hash(c(), q)).map_err(|e| e.to_string())?, Some(v.clone()), "code of {:?}", q);
                ensure_eq!(rt.block_on(s.get_code_by_address(c(), p)).map_err(|e| e.to_string())?, Some(v.clone()), "code at {:?}", p);
            }
            for x in heights.iter().chain(&absent) {
                let b = blocks.get(x);
                if r.bool() { ensure_eq!(rt.block_on(s.get_block_header(c(), *x)).map_err(|e| e.to_string())?, b.map(|b| b.header.clone()), "header {}", x); }
                ensure_eq!(rt.block_on(s.get_block(c(), *x)).map_err(|e| e.to_string())?, b.cloned(), "block {}", x);
                ensure_eq!(rt.block_on(s.get_block_header(c(), *x)).map_err(|e| e.to_string())?, b.map(|b| b.header.clone()), "header {}", x);
                if let Some(b) = b {
                    ensure_eq!(rt.block_on(ReadOnlyStorage::get_block_number_by_hash(&s, c(), &b.hash())).map_err(|e| e.to_string())?, Some(*x), "number of block {}", x);
                    ensure_eq!(rt.block_on(s.get_block_by_hash(c(), &b.hash())).map_err(|e| e.to_string())?, Some(b.clone()), "block {} by hash", x);
                }
                let mut ask: Vec<Hash> = all.get(x).map(|v| v.iter().map(|t| t.transaction.hash).collect()).unwrap_or_default();
                for _ in 0..r.below(3) { let k = digest(r); let at = r.below(ask.len() as u64 + 1) as usize; ask.insert(at, k); }
                if let Some(o) = heights.first() { for t in &all[o] { if r.one_in(3) { ask.push(t.transaction.hash) } } }
                r.shuffle(&mut ask);
                let want: Vec<_> = ask.iter().map(|k| txs.get(x).and_then(|v| v.iter().find(|t| t.transaction.hash == *k).cloned())).collect();
                ensure_eq!(rt.block_on(s.get_transactions(c(), *x, &ask)).map_err(|e| e.to_string())?, want, "transactions {:?} of {}", ask, x);
                let want: Vec<_> = ask.iter().map(|k| recs.get(x).and_then(|v| v.iter().find(|t| t.tx_hash == *k).cloned())).collect();
                ensure_eq!(rt.block_on(s.get_receipts(c(), *x, &ask)).map_err(|e| e.to_string())?, want, "receipts {:?} of {}", ask, x);
                for t in all.get(x).into_iter().flatten() {
                    let k = t.transaction.hash;
                    let w = txs.get(x).map(|_| t.clone());
                    ensure_eq!(rt.block_on(s.get_transaction_by_hash(c(), &k)).map_err(|e| e.to_string())?, w, "transaction {:?}", k);
                    let w = recs.get(x).and_then(|v| v.iter().find(|y| y.tx_hash == k).cloned());
                    ensure_eq!(rt.block_on(s.get_receipt_by_hash(c(), &k)).map_err(|e| e.to_string())?, w, "receipt {:?}", k);
                    ensure_eq!(rt.block_on(s.get_block_by_hash(c(), &k)).map_err(|e| e.to_string())?, None, "block with a transaction's hash");
                    ensure_eq!(rt.block_on(ReadOnlyStorage::get_block_number_by_hash(&s, c(), &k)).map_err(|e| e.to_string())?, None, "number of a transaction's hash");
                }
            }
            let k = digest(r);
            ensure!(rt.block_on(s.get_transaction_by_hash(c(), &k)).map_err(|e| e.to_string())?.is_none() && rt.block_on(s.get_receipt_by_hash(c(), &k)).map_err(|e| e.to_string())?.is_none() && rt.block_on(s.get_block_by_hash(c(), &k)).map_err(|e| e.to_string())?.is_none(), "an unknown hash");
        }
        Ok(())
    });
    h.once("more than a thousand of one height", "1201 transactions and receipts of heights 7 and 8", || {
        let mut r = Rng::new(99);
        let s = ImplStorage::new(db("c17-many"), 10);
        let k = gen_tx::key(&mut r);
        let mk = |n: u64, r: &mut Rng| -> Vec<SignedTransaction> { (0..n).map(|i| { let mut t = gen::utx(r); t.unsigned = UnsignedTransaction::Legacy(LegacyTransaction { nonce: i.into(), gas_price: 1u64.into(), gas_limit: 21000u64.into(), action: TransactionAction::Create, value: n.into(), data: Bytes::new() }); t.chain_id = Some(5); gen_tx::sign(&mut t, &k); t.hash = t.get_hash(); let (p, a) = gen_tx::account(&k); SignedTransaction { transaction: t, sender: a, public: Some(p) } }).collect() };
        let (a, b) = (mk(1201, &mut r), mk(40, &mut r));
        let rc: Vec<Receipt> = a.iter().map(|t| { let mut y = gen::receipt(&mut r); y.tx_hash = t.transaction.hash; y }).collect();
        rt.block_on(s.insert_transactions(c(), 8, b.clone())).unwrap();
        rt.block_on(s.insert_transactions(c(), 7, a.clone())).unwrap();
        rt.block_on(s.insert_receipts(c(), 7, rc.clone())).unwrap();
        let mut i: Vec<usize> = (0..1241).collect();
        r.shuffle(&mut i);
        let ask: Vec<Hash> = i.iter().map(|j| if *j < 1201 { a[*j].transaction.hash } else { b[*j - 1201].transaction.hash }).collect();
        let want: Vec<_> = i.iter().map(|j| a.get(*j).cloned()).collect();
        ensure!(rt.block_on(s.get_transactions(c(), 7, &ask)).map_err(|e| e.to_string())? == want, "transactions");
        let want: Vec<_> = i.iter().map(|j| rc.get(*j).cloned()).collect();
        ensure!(rt.block_on(s.get_receipts(c(), 7, &ask)).map_err(|e| e.to_string())? == want, "receipts");
        Ok(())
    });
    h.finish()
}
