//@extern protocol=axon_protocol core_executor core_mempool core_consensus core_storage core_db core_interoperation rlp rocksdb common_crypto common_merkle overlord ethers
// C19: what the real pool lets in through the real adapter, over a real chain state, against the statement's bounds.
#[path = "common.rs"] mod axv;
#[path = "gen.rs"] mod gen;
#[path = "gen_tx.rs"] mod gen_tx;
#[path = "store.rs"] mod store;
#[path = "chain.rs"] mod chain;
use axv::*;
use chain::{Node, World, CHAIN};
use common_crypto::{Secp256k1Recoverable, Secp256k1RecoverablePrivateKey};
use core_executor::{AxonExecutor, AxonExecutorApplyAdapter, MPTTrie, RocksTrieDB};
use core_interoperation::InteroperationImpl;
use core_mempool::{DefaultMemPoolAdapter, MemPoolImpl};
use protocol::codec::ProtocolCodec as _;
use protocol::traits::*;
use protocol::trie::Trie as _;
use protocol::types::*;
use protocol::{async_trait, ProtocolResult};
use std::sync::{Arc, Mutex};

#[derive(Clone, Default)]
struct Peers(Arc<Mutex<Vec<SignedTransaction>>>);
#[async_trait]
impl Gossip for Peers {
    async fn broadcast<M: MessageCodec>(&self, _: Context, _: &str, _: M, _: Priority) -> ProtocolResult<()> { Ok(()) }
    async fn gossip<M: MessageCodec>(&self, _: Context, _: Option<usize>, _: &str, _: M, _: Priority) -> ProtocolResult<()> { Ok(()) }
    async fn multicast<'a, M: MessageCodec, P: AsRef<[Bytes]> + Send + 'a>(&self, _: Context, _: &str, _: P, _: M, _: Priority) -> ProtocolResult<()> { Ok(()) }
}
#[async_trait]
impl Rpc for Peers {
    async fn call<M: MessageCodec, R: MessageCodec>(&self, _: Context, _: &str, _: M, _: Priority) -> ProtocolResult<R> {
        let v = self.0.lock().unwrap().clone();
        R::decode_msg(BatchSignedTxs(v).encode_msg()?)
    }
    async fn response<M: MessageCodec>(&self, _: Context, _: &str, _: ProtocolResult<M>, _: Priority) -> ProtocolResult<()> { Ok(()) }
}
impl PeerTrust for Peers { fn report(&self, _: Context, _: TrustFeedback) {} }
type Ad = DefaultMemPoolAdapter<Secp256k1Recoverable, Peers, chain::Store, RocksTrieDB, InteroperationImpl>;

/// a RISC-V program whose exit code is the first byte of its first argument less that of its second
fn program() -> Vec<u8> {
    let ld = |rd: u32, imm: u32| imm << 20 | 2 << 15 | 3 << 12 | rd << 7 | 3;
    let lbu = |r: u32| r << 15 | 4 << 12 | r << 7 | 3;
    let code = [ld(5, 8), ld(6, 16), lbu(5), lbu(6), 0x20 << 25 | 6 << 20 | 5 << 15 | 10 << 7 | 0x33, 93 << 20 | 17 << 7 | 0x13, 0x73u32];
    let mut b = vec![0x7f, b'E', b'L', b'F', 2, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0];
    let total = 120 + 4 * code.len() as u64;
    for x in [2u16, 243] { b.extend_from_slice(&x.to_le_bytes()); }
    b.extend_from_slice(&1u32.to_le_bytes());
    for x in [0x10078u64, 64, 0] { b.extend_from_slice(&x.to_le_bytes()); }
    b.extend_from_slice(&0u32.to_le_bytes());
    for x in [64u16, 56, 1, 64, 0, 0] { b.extend_from_slice(&x.to_le_bytes()); }
    for x in [1u32, 5] { b.extend_from_slice(&x.to_le_bytes()); }
    for x in [0u64, 0x10000, 0x10000, total, total, 0x1000] { b.extend_from_slice(&x.to_le_bytes()); }
    for c in code { b.extend_from_slice(&c.to_le_bytes()); }
    b
}
fn system(i: u8) -> H160 { let mut a = [0xff; 20]; a[19] = i; H160(a) }
/// the image cell contract's call that stores `data` as the cell (hash, index)
fn cell_call(hash: H256, index: u32, data: &[u8]) -> Vec<u8> {
    use ethers::abi::Token::*;
    let u = |n: u64| Uint(n.into());
    let script = Tuple(vec![FixedBytes(vec![1; 32]), u(0), Bytes(vec![])]);
    let cell = Tuple(vec![Tuple(vec![FixedBytes(hash.as_bytes().to_vec()), u(index as u64)]), Tuple(vec![u(1000), script, Array(vec![])]), Bytes(data.to_vec())]);
    let block = Tuple(vec![u(1), Array(vec![]), Array(vec![cell])]);
    let sig = "update((uint64,(bytes32,uint32)[],((bytes32,uint32),(uint64,(bytes32,uint8,bytes),(bytes32,uint8,bytes)[]),bytes)[])[])";
    let mut b = Hasher::digest(sig.as_bytes()).as_bytes()[..4].to_vec();
    b.extend_from_slice(&ethers::abi::encode(&[Array(vec![block])]));
    b
}
const CELL: (H256, u32) = (H256([0x77; 32]), 3);
struct Acct { key: Secp256k1RecoverablePrivateKey, nonce: u64, balance: U256 }
/// the chain's next block: the accounts' rows as given, nothing else changed
fn advance(w: &World, n: &Node, accts: &[(H160, u64, U256)]) {
    let h = w.rt.block_on(n.store.get_latest_block_header(Context::new())).unwrap();
    let mut t = MPTTrie::from_root(h.state_root, Arc::clone(&w.trie)).unwrap();
    for (a, nonce, balance) in accts {
        let x = Account { nonce: (*nonce).into(), balance: *balance, storage_root: RLP_NULL, code_hash: NIL_DATA };
        t.insert(a.as_bytes().to_vec(), x.encode().unwrap().to_vec()).unwrap();
    }
    let mut b = Block { header: h, tx_hashes: vec![] };
    b.header.state_root = t.commit().unwrap();
    b.header.number += 1;
    w.rt.block_on(n.store.insert_block(Context::new(), b)).unwrap();
}
/// a cell with the program above, stored by the image cell contract itself
fn with_cell(w: &World, n: &Node) {
    let h = w.rt.block_on(n.store.get_latest_block_header(Context::new())).unwrap();
    let u = UnsignedTransaction::Legacy(LegacyTransaction { nonce: 0.into(), gas_price: 1.into(), gas_limit: 1_000_000.into(), value: 0.into(), action: TransactionAction::Call(system(3)), data: cell_call(CELL.0, CELL.1, &program()).into() });
    let t = SignedTransaction { transaction: UnverifiedTransaction { unsigned: u, signature: None, chain_id: Some(CHAIN), hash: H256::zero() }, sender: H160::zero(), public: None };
    let mut e = AxonExecutorApplyAdapter::from_root(h.state_root, Arc::clone(&w.trie), Arc::clone(&n.store), Proposal::new_without_state_root(&h).into()).unwrap();
    let resp = AxonExecutor.exec(&mut e, &[t], &[]);
    let mut b = Block { header: h, tx_hashes: vec![] };
    b.header.state_root = resp.state_root;
    b.header.number += 1;
    w.rt.block_on(n.store.insert_block(Context::new(), b)).unwrap();
}
fn pool(w: &World, n: &Node, peers: &Peers, chain: u64, size: usize, cap: usize) -> &'static MemPoolImpl<Ad> {
    // kept: an adapter's broadcasting task spins once its adapter is gone
    Box::leak(Box::new(w.rt.block_on(async { MemPoolImpl::new(cap, 100, Ad::new(peers.clone(), Arc::clone(&n.store), Arc::clone(&w.trie), chain, size, 100, 1_000_000), vec![]).await })))
}

struct Rules<'a> { chain: u64, size: usize, validators: &'a [H160] }
/// what the statement says of a transaction and its sender's account: None if it may enter, or why not
fn verdict(t: &SignedTransaction, nonce: u64, balance: U256, sig: bool, k: &Rules) -> Option<&'static str> {
    let u = &t.transaction.unsigned;
    let (limit, value, price, n) = match u {
        UnsignedTransaction::Legacy(x) => (x.gas_limit, x.value, x.gas_price, x.nonce),
        UnsignedTransaction::Eip2930(x) => (x.gas_limit, x.value, x.gas_price, x.nonce),
        UnsignedTransaction::Eip1559(x) => (x.gas_limit, x.value, if x.gas_price > x.max_priority_fee_per_gas { x.gas_price } else { x.max_priority_fee_per_gas }, x.nonce),
    };
    let to = match u { UnsignedTransaction::Legacy(x) => &x.action, UnsignedTransaction::Eip2930(x) => &x.action, UnsignedTransaction::Eip1559(x) => &x.action };
    let sys = match to { TransactionAction::Call(a) if a.0[..19] == [0xff; 19] => { if a.0[19] > 3 { return Some("calls a reserved address"); } true } _ => false };
    if sys { if !k.validators.contains(&t.sender) { return Some("system call by one who is no validator"); } }
    else {
        if n.as_u64() < nonce { return Some("nonce used"); }
        let cost = U512::from(limit.as_u64()) * U512::from(price.as_u64()) + U512::from(value);
        if cost.min(U512::from(U256::MAX)) > U512::from(balance) { return Some("cannot pay"); }
    }
    if t.transaction.chain_id.map(|c| c != k.chain).unwrap_or(false) { return Some("another chain's"); }
    if rlp_len(t) > k.size { return Some("too large"); }
    if price.is_zero() || price.as_u64() >= 500_000_000_000 { return Some("price out of bounds"); }
    if limit.as_u64() < 21_000 || limit.as_u64() > 30_000_000 { return Some("gas limit out of bounds"); }
    if !sig { return Some("signature"); }
    None
}
fn rlp_len(t: &SignedTransaction) -> usize { t.transaction.encode().unwrap().len() }
/// a transaction around every bound, from the given sender
fn tx(r: &mut Rng, a: &Acct, peer: &[H160], d: &mut String) -> (SignedTransaction, bool) {
    let near = |r: &mut Rng, v: u64| match r.below(5) { 0 => v.wrapping_sub(1), 1 | 2 => v, 3 => v.wrapping_add(1), _ => v.wrapping_add(r.below(50)) };
    let nonce: U64 = (if r.one_in(2) { near(r, a.nonce) } else { a.nonce + r.below(4) }).into();
    let price: U64 = match r.below(9) { 0 => 0, 1 => 1, 2 => near(r, 500_000_000_000), 3 => r.int(), _ => r.range(1, 1000) }.into();
    let limit: U64 = match r.below(9) { 0 => near(r, 21_000), 1 => near(r, 30_000_000), 2 => r.int(), _ => r.range(21_000, 100_000) }.into();
    let to = match r.below(12) { 0 => TransactionAction::Create, 1 => TransactionAction::Call(system(r.below(5) as u8)), 2 => TransactionAction::Call(system(r.u8())), 3 => { let mut x = system(r.below(4) as u8); let i = r.below(19) as usize; x.0[i] ^= 1 << r.below(8); TransactionAction::Call(x) } _ => TransactionAction::Call(*r.pick(peer)) };
    let prio: U64 = match r.below(6) { 0 => near(r, 500_000_000_000).into(), 1 => near(r, price.as_u64()).into(), _ => r.range(0, 1000).into() };
    let kind = r.below(3);
    let best = if kind == 2 && prio > price { prio } else { price };
    // a value that leaves the balance just short, just enough, or more than enough
    let gas = U256::from(limit.as_u64()) * U256::from(best.as_u64());
    let left = a.balance.saturating_sub(gas);
    let value = match r.below(6) { 0 => left, 1 => left.saturating_add(U256::one()), 2 => left.saturating_sub(U256::one()), 3 => U256::MAX - U256::from(r.below(3)), _ => U256::from(r.below(1000)) };
    let data = Bytes::from(r.blob(300));
    let unsigned = match kind {
        0 => UnsignedTransaction::Legacy(LegacyTransaction { nonce, gas_price: price, gas_limit: limit, value, action: to, data }),
        1 => UnsignedTransaction::Eip2930(Eip2930Transaction { nonce, gas_price: price, gas_limit: limit, value, action: to, data, access_list: vec![] }),
        _ => UnsignedTransaction::Eip1559(Eip1559Transaction { nonce, max_priority_fee_per_gas: prio, gas_price: price, gas_limit: limit, value, action: to, data, access_list: vec![] }),
    };
    let chain_id = match r.below(10) { 0 if kind == 0 => None, 1 => Some(CHAIN + 1), 2 => Some(r.below(9)), _ => Some(CHAIN) };
    let mut t = UnverifiedTransaction { unsigned, signature: None, chain_id, hash: H256::zero() };
    gen_tx::sign(&mut t, &a.key);
    t.hash = t.get_hash();
    let (p, s) = gen_tx::account(&a.key);
    let mut t = SignedTransaction { transaction: t, sender: s, public: Some(p) };
    let mut ok = true;
    match r.below(24) {
        0 => { t.public = Some(gen_tx::account(&gen_tx::key(r)).0); ok = false; d.push_str(" another's key"); }
        1 => { let s = t.transaction.signature.as_mut().unwrap(); let mut b = s.s.to_vec(); b[r.below(32) as usize] ^= 1 << r.below(8); s.s = b.into(); ok = false; d.push_str(" signature changed"); }
        2 => { t.public = None; ok = false; d.push_str(" no key"); }
        3 => { t.transaction.signature = None; ok = false; d.push_str(" no signature"); }
        _ => {}
    }
    d.push_str(&format!(" [nonce {} price {}/{} limit {} value {} chain {:?} to {:?}]", nonce, price, prio, limit, value, chain_id, t.transaction.unsigned.action()));
    (t, ok)
}
fn main() {
    let mut h = H::new();
    let w = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| World::new("c19", &mut Rng::new(19), 3, 1))) {
        Ok(w) => w,
        Err(_) => { h.once("a chain to admit transactions against", "one block after genesis", || Err("an honest chain cannot be made".to_string())); h.finish() }
    };
    let n = w.node(1);
    let validators: Vec<H160> = w.validators.iter().map(|v| v.ext.address).collect();

    h.check("admission", 1500, |r, d| {
        // accounts of the next state
        let mut accts: Vec<Acct> = (0..3).map(|_| Acct { key: gen_tx::key(r), nonce: if r.bool() { r.below(5) } else { r.int() >> 1 }, balance: match r.below(4) { 0 => U256::zero(), 1 => U256::MAX, 2 => U256::from(r.int()), _ => U256::from(10u64).pow(U256::from(18u64)) } }).collect();
        let rows = |v: &[Acct]| v.iter().map(|a| (gen_tx::account(&a.key).1, a.nonce, a.balance)).collect::<Vec<_>>();
        // the metadata of block number 6 on is not known: stay within the known epochs by rebuilding on a fresh node now and then
        let n = w.node(1);
        advance(&w, &n, &rows(&accts));
        let mut size = *r.pick(&[1usize, 150, 200, 400, 100_000]);
        let peers = Peers::default();
        let p = pool(&w, &n, &peers, CHAIN, size, 1000);
        let mut inside = std::collections::HashSet::new();
        for step in 0..r.range(2, 9) {
            if step > 2 && r.one_in(4) {
                // a block is committed: the accounts move on, the pool is told
                for a in accts.iter_mut() { a.nonce += r.below(3); a.balance = if r.bool() { a.balance } else { a.balance / U256::from(2) }; }
                advance(&w, &n, &rows(&accts));
                w.rt.block_on(p.flush(Context::new(), &[], step)).unwrap();
                d.push_str(" | block");
            }
            if r.one_in(5) {
                size = *r.pick(&[1usize, 150, 200, 400, 100_000]);
                p.set_args(Context::new(), H256::zero(), 0, size as u64);
                d.push_str(&format!(" | limit {}", size));
            }
            let i = r.below(3) as usize;
            d.push_str(&format!(" | account {} ({}, {})", i, accts[i].nonce, accts[i].balance));
            let (t, ok) = tx(r, &accts[i], &validators, d);
            if inside.contains(&t.transaction.hash) { continue; }
            if t.transaction.signature.is_some() && r.one_in(3) {
                size = (rlp_len(&t) as i64 + r.below(3) as i64 - 1) as usize;
                p.set_args(Context::new(), H256::zero(), 0, size as u64);
                d.push_str(&format!(" | limit {} for {}", size, rlp_len(&t)));
            }
            let v = verdict(&t, accts[i].nonce, accts[i].balance, ok, &Rules { chain: CHAIN, size, validators: &validators });
            let hash = t.transaction.hash;
            let res = w.rt.block_on(p.insert(Context::new(), t));
            let held = w.rt.block_on(p.contains(Context::new(), &hash));
            ensure_eq!(res.as_ref().map_err(|e| e.to_string()).err().is_some(), v.is_some(), "the pool's answer was {:?}, the transaction is {}", res.as_ref().map_err(|e| e.to_string()), v.unwrap_or("in order"));
            ensure_eq!(held, v.is_none(), "what the pool holds, the transaction being {}", v.unwrap_or("in order"));
            if v.is_none() { inside.insert(hash); }
        }
        Ok(())
    });

    h.check("a system call takes a validator", 60, |r, d| {
        let n = w.node(1);
        let a = Acct { key: gen_tx::key(r), nonce: 5, balance: U256::zero() };
        let who = gen_tx::account(&a.key).1;
        advance(&w, &n, &[(who, 5, U256::zero())]);
        let p = pool(&w, &n, &Peers::default(), CHAIN, 100_000, 1000);
        let to = r.below(6) as u8;
        let mut t = chain::transfer(r, &a.key, { 7 }, system(to), 0);
        match &mut t.transaction.unsigned { UnsignedTransaction::Legacy(x) => { x.action = TransactionAction::Call(system(to)); x.data = Default::default(); } _ => {} }
        gen_tx::sign(&mut t.transaction, &a.key);
        t.transaction.hash = t.transaction.get_hash();
        let val = r.bool();
        // the sender's address as decoded is what membership is decided by
        if val { t.sender = *r.pick(&validators); }
        d.push_str(&format!("call of {} by {}", to, if val { "a validator" } else { "another" }));
        let want = val && to <= 3;
        let hash = t.transaction.hash;
        let res = w.rt.block_on(p.insert(Context::new(), t));
        ensure_eq!((res.is_ok(), w.rt.block_on(p.contains(Context::new(), &hash))), (want, want), "admission ({:?})", res.map_err(|e| e.to_string()).err());
        Ok(())
    });

    h.check("what a peer answers for a proposal", 400, |r, d| {
        let accts: Vec<Acct> = (0..2).map(|_| Acct { key: gen_tx::key(r), nonce: r.below(5), balance: if r.one_in(4) { U256::from(r.int()) } else { U256::from(10u64).pow(U256::from(30u64)) } }).collect();
        let n = w.node(1);
        advance(&w, &n, &accts.iter().map(|a| (gen_tx::account(&a.key).1, a.nonce, a.balance)).collect::<Vec<_>>());
        let peers = Peers::default();
        let p = pool(&w, &n, &peers, CHAIN, 100_000, 1000);
        let k = Rules { chain: CHAIN, size: 100_000, validators: &validators };
        let mut all = true;
        let mut ts: Vec<SignedTransaction> = vec![];
        for _ in 0..r.range(1, 4) {
            let i = r.below(2) as usize;
            let good = !r.one_in(4);
            let mut last = None;
            for _ in 0..200 {
                let mut dd = String::new();
                let (t, ok) = tx(r, &accts[i], &validators, &mut dd);
                if !ok { continue; }
                let v = verdict(&t, accts[i].nonce, accts[i].balance, true, &k);
                if v.is_none() == good { last = Some((t, v)); break; }
            }
            let (t, v) = match last { Some(x) => x, None => continue };
            if ts.iter().any(|x| x.transaction.hash == t.transaction.hash || (x.sender == t.sender && x.transaction.unsigned.nonce() == t.transaction.unsigned.nonce())) { continue; }
            d.push_str(&format!(" {}", v.unwrap_or("in order")));
            all = all && v.is_none();
            ts.push(t);
        }
        if ts.is_empty() { return Ok(()); }
        *peers.0.lock().unwrap() = ts.clone();
        let hs: Vec<Hash> = ts.iter().map(|t| t.transaction.hash).collect();
        let res = w.rt.block_on(p.ensure_order_txs(Context::new(), Some(3), &hs));
        ensure_eq!(res.is_ok(), all, "accepted ({:?})", res.map_err(|e| e.to_string()).err());
        for (t, hash) in ts.iter().zip(&hs) { ensure!(!w.rt.block_on(p.contains(Context::new(), hash)) || all, "a transaction of a refused batch is in the pool: {:?}", t.transaction.unsigned); }
        if all {
            for hash in &hs { ensure!(w.rt.block_on(p.contains(Context::new(), hash)), "a transaction of an accepted batch is missing"); }
            // known now: no need to ask again
            peers.0.lock().unwrap().clear();
            ensure!(w.rt.block_on(p.ensure_order_txs(Context::new(), Some(3), &hs)).is_ok(), "transactions already in the pool are asked for again");
        }
        let mut twice = hs.clone();
        twice.push(hs[r.below(hs.len() as u64) as usize]);
        ensure!(w.rt.block_on(p.ensure_order_txs(Context::new(), Some(3), &twice)).is_err(), "the same transaction twice in a proposal");
        Ok(())
    });

    h.check("one committed already", 60, |r, _| {
        let n = w.node(1);
        let a = Acct { key: gen_tx::key(r), nonce: 0, balance: U256::MAX };
        advance(&w, &n, &[(gen_tx::account(&a.key).1, 0, U256::MAX)]);
        let to = H160([r.below(200) as u8; 20]);
        let t = chain::transfer(r, &a.key, 0, to, 1);
        let p = pool(&w, &n, &Peers::default(), CHAIN, 100_000, 1000);
        let before = r.bool();
        if before { w.rt.block_on(n.store.insert_transactions(Context::new(), 2, vec![t.clone()])).unwrap(); }
        let res = w.rt.block_on(p.insert(Context::new(), t.clone()));
        ensure_eq!(res.is_ok(), !before, "admission of a transaction {} in the chain ({:?})", if before { "already" } else { "not" }, res.as_ref().map_err(|e| e.to_string()).err());
        ensure_eq!(w.rt.block_on(p.contains(Context::new(), &t.transaction.hash)), !before, "what the pool holds");
        Ok(())
    });

    // signatures verified by a program in a CKB cell
    with_cell(&w, &n);
    h.check("a signature a CKB program verifies", 120, |r, d| {
        let pk = Bytes::from({ let k = r.range(20, 60) as usize; (0..k).map(|_| r.u8()).collect::<Vec<u8>>() });
        let s = Bytes::from({ let k = r.range(20, 60) as usize; let mut b: Vec<u8> = (0..k).map(|_| r.u8()).collect(); if r.bool() { b[0] = pk[0]; } b });
        let here = !r.one_in(5);
        let dep = CellDep { tx_hash: if here { CELL.0 } else { gen::h256(r) }, index: CELL.1, dep_type: 0 };
        let mut b = vec![0u8];
        b.extend_from_slice(&rlp::encode(&CellDepWithPubKey { cell_dep: dep, pub_key: pk.clone() }));
        let u = UnsignedTransaction::Legacy(LegacyTransaction { nonce: r.below(3).into(), gas_price: 1.into(), gas_limit: 30_000.into(), value: 0.into(), action: TransactionAction::Create, data: Default::default() });
        let mut t = UnverifiedTransaction { unsigned: u, signature: Some(SignatureComponents { r: b.into(), s: s.clone(), standard_v: 0 }), chain_id: Some(CHAIN), hash: H256::zero() };
        t.hash = t.get_hash();
        let t = match SignedTransaction::from_unverified(t) { Ok(t) => t, Err(e) => return Err(format!("cannot be decoded: {}", e)) };
        let st = w.rt.block_on(n.store.get_latest_block_header(Context::new())).unwrap();
        let keep = st.clone();
        advance(&w, &n, &[(t.sender, 0, U256::from(10u64).pow(U256::from(18u64)))]);
        let p = pool(&w, &n, &Peers::default(), CHAIN, 100_000, 1000);
        let want = here && s[0] == pk[0];
        d.push_str(&format!("program {} exit code {}", if here { "present" } else { "absent" }, pk[0].wrapping_sub(s[0]) as i8));
        let res = w.rt.block_on(p.insert(Context::new(), t.clone()));
        w.rt.block_on(n.store.insert_block(Context::new(), Block { header: keep, tx_hashes: vec![] })).unwrap();
        ensure_eq!(res.is_ok(), want, "admission ({:?})", res.map_err(|e| e.to_string()).err());
        Ok(())
    });
    h.finish()
}
