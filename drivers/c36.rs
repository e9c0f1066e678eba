//@extern protocol=axon_protocol core_executor core_mempool core_consensus core_storage core_db core_interoperation rlp rocksdb common_crypto common_merkle overlord ethers ckb_types ckb_traits
// C36: what the CKB light client and the image cell contract were told, against what the CKB VM's data provider says.
#[path = "common.rs"] mod axv;
#[path = "gen.rs"] mod gen;
#[path = "gen_tx.rs"] mod gen_tx;
#[path = "store.rs"] mod store;
#[path = "chain.rs"] mod chain;
use axv::*;
use chain::{World, CHAIN};
use ckb_traits::{CellDataProvider as _, ExtensionProvider as _, HeaderProvider as _};
use ckb_types::core::cell::{CellProvider as _, CellStatus};
use ckb_types::{packed, prelude::*};
use core_executor::{AxonExecutor, AxonExecutorApplyAdapter, AxonExecutorReadOnlyAdapter, DataProvider, MPTTrie, RocksTrieDB};
use ethers::abi::Token;
use protocol::traits::*;
use protocol::trie::Trie as _;
use protocol::types::*;
use std::collections::BTreeMap;
use std::sync::Arc;

fn system(i: u8) -> H160 { let mut a = [0xff; 20]; a[19] = i; H160(a) }
fn selector(sig: &str, args: &[Token]) -> Vec<u8> { let mut b = Hasher::digest(sig.as_bytes()).as_bytes()[..4].to_vec(); b.extend_from_slice(&ethers::abi::encode(args)); b }
fn u(x: u64) -> Token { Token::Uint(x.into()) }
fn b32(x: &[u8; 32]) -> Token { Token::FixedBytes(x.to_vec()) }
type K = [u8; 32];
#[derive(Clone, Debug, PartialEq)]
struct Head { version: u32, target: u32, time: u64, number: u64, epoch: u64, parent: K, txs: K, props: K, extra: K, dao: K, nonce: u128, ext: Vec<u8>, hash: K }
#[derive(Clone, Debug, PartialEq)]
struct Scr { code: K, kind: u8, args: Vec<u8> }
#[derive(Clone, Debug, PartialEq)]
struct Cell { capacity: u64, lock: Scr, types: Vec<Scr>, data: Vec<u8>, made: u64, used: Option<u64> }
#[derive(Clone, Default)]
struct State { heads: BTreeMap<K, Head>, cells: BTreeMap<(K, u32), Cell> }
fn k(r: &mut Rng) -> K { gen::h256(r).0 }
fn head(r: &mut Rng, hash: K) -> Head { Head { version: r.int() as u32, target: r.int() as u32, time: r.int(), number: r.int(), epoch: r.int(), parent: k(r), txs: k(r), props: k(r), extra: k(r), dao: k(r), nonce: (r.int() as u128) << 64 | r.int() as u128, ext: r.blob(100).to_vec(), hash } }
fn head_t(h: &Head) -> Token { Token::Tuple(vec![u(h.version as u64), u(h.target as u64), u(h.time), u(h.number), u(h.epoch), b32(&h.parent), b32(&h.txs), b32(&h.props), b32(&h.extra), b32(&h.dao), Token::Uint(h.nonce.into()), Token::Bytes(h.ext.clone()), b32(&h.hash)]) }
fn scr(r: &mut Rng) -> Scr { Scr { code: k(r), kind: r.u8(), args: r.blob(60).to_vec() } }
fn scr_t(s: &Scr) -> Token { Token::Tuple(vec![b32(&s.code), u(s.kind as u64), Token::Bytes(s.args.clone())]) }
fn scr_p(s: &Scr) -> packed::Script { packed::Script::new_builder().code_hash(s.code.pack()).hash_type(s.kind.into()).args(ckb_types::bytes::Bytes::from(s.args.clone()).pack()).build() }
fn point_t(o: &(K, u32)) -> Token { Token::Tuple(vec![b32(&o.0), u(o.1 as u64)]) }
fn point_p(o: &(K, u32)) -> packed::OutPoint { packed::OutPoint::new_builder().tx_hash(o.0.pack()).index(o.1.pack()).build() }
fn cell_t(o: &(K, u32), c: &Cell) -> Token { Token::Tuple(vec![point_t(o), Token::Tuple(vec![u(c.capacity), scr_t(&c.lock), Token::Array(c.types.iter().map(scr_t).collect())]), Token::Bytes(c.data.clone())]) }
/// a contract's call and whether it is accepted; the state after it
fn call(r: &mut Rng, s: &State, hashes: &[K], points: &[(K, u32)], d: &mut String) -> (u8, Vec<u8>, Option<State>) {
    let mut t = s.clone();
    let point = |r: &mut Rng| *r.pick(points);
    match r.below(9) {
        0..=2 => {
            let v: Vec<Head> = (0..r.below(4)).map(|_| { let h = *r.pick(hashes); head(r, h) }).collect();
            for h in &v { t.heads.insert(h.hash, h.clone()); }
            d.push_str(&format!(" {} headers", v.len()));
            (2, selector("update((uint32,uint32,uint64,uint64,uint64,bytes32,bytes32,bytes32,bytes32,bytes32,uint128,bytes,bytes32)[])", &[Token::Array(v.iter().map(head_t).collect())]), Some(t))
        }
        3 => {
            let have: Vec<K> = s.heads.keys().cloned().collect();
            let v: Vec<K> = (0..r.below(3)).map(|_| if have.is_empty() || r.one_in(5) { *r.pick(hashes) } else { *r.pick(&have) }).collect();
            let ok = v.iter().all(|h| t.heads.remove(h).is_some());
            d.push_str(&format!(" {} headers back{}", v.len(), if ok { "" } else { " (some unknown)" }));
            (2, selector("rollback(bytes32[])", &[Token::Array(v.iter().map(b32).collect())]), if ok { Some(t) } else { None })
        }
        4..=6 => {
            let mut blocks = vec![];
            for _ in 0..r.range(1, 4) {
                let number = r.int();
                let ins: Vec<(K, u32)> = (0..r.below(3)).map(|_| point(r)).collect();
                let outs: Vec<((K, u32), Cell)> = (0..r.below(4)).map(|_| (point(r), Cell { capacity: r.int(), lock: scr(r), types: (0..r.below(3)).map(|_| scr(r)).collect(), data: if r.one_in(4) { vec![] } else { r.blob(200).to_vec() }, made: number, used: None })).collect();
                for (o, c) in &outs { t.cells.insert(*o, c.clone()); }
                for o in &ins { if let Some(c) = t.cells.get_mut(o) { c.used = Some(number); } }
                d.push_str(&format!(" {} cells made, {} consumed", outs.len(), ins.len()));
                blocks.push(Token::Tuple(vec![u(number), Token::Array(ins.iter().map(point_t).collect()), Token::Array(outs.iter().map(|(o, c)| cell_t(o, c)).collect())]));
            }
            (3, selector("update((uint64,(bytes32,uint32)[],((bytes32,uint32),(uint64,(bytes32,uint8,bytes),(bytes32,uint8,bytes)[]),bytes)[])[])", &[Token::Array(blocks)]), Some(t))
        }
        7 => {
            let have: Vec<(K, u32)> = s.cells.keys().cloned().collect();
            let mut ok = true;
            let mut blocks = vec![];
            for _ in 0..r.range(1, 3) {
                let ins: Vec<(K, u32)> = (0..r.below(3)).map(|_| point(r)).collect();
                let outs: Vec<(K, u32)> = (0..r.below(3)).map(|_| if have.is_empty() || r.one_in(5) { point(r) } else { *r.pick(&have) }).collect();
                for o in &outs { ok &= t.cells.remove(o).is_some(); }
                for o in &ins { if let Some(c) = t.cells.get_mut(o) { c.used = None; } }
                d.push_str(&format!(" {} cells back", outs.len()));
                blocks.push(Token::Tuple(vec![Token::Array(ins.iter().map(point_t).collect()), Token::Array(outs.iter().map(point_t).collect())]));
            }
            if !ok { d.push_str(" (some unknown)"); }
            (3, selector("rollback(((bytes32,uint32)[],(bytes32,uint32)[])[])", &[Token::Array(blocks)]), if ok { Some(t) } else { None })
        }
        _ => { d.push_str(" garbage"); (r.range(2, 4) as u8, { let n = r.below(40) as usize; let mut b = r.bytes(n).to_vec(); if let Some(x) = b.first_mut() { *x = 1; } b }, None) }
    }
}
fn packed_output(c: &Cell) -> packed::CellOutput {
    packed::CellOutput::new_builder().capacity(c.capacity.pack()).lock(scr_p(&c.lock)).type_(packed::ScriptOpt::new_builder().set(c.types.first().map(scr_p)).build()).build()
}
/// what is stored of a cell
fn stored(c: &Cell) -> Vec<u8> {
    let mut s = rlp::RlpStream::new_list(4);
    s.append(&packed_output(c).as_slice().to_vec()).append(&c.data).append(&c.made).append(&c.used);
    s.out().to_vec()
}
fn agrees(db: &Arc<RocksTrieDB>, root: H256, p: &DataProvider, s: &State, hashes: &[K], points: &[(K, u32)]) -> Result<(), String> {
    for h in hashes {
        let got = p.get_header(&h.pack()).map(|v| {
            let nonce: u128 = v.nonce().into();
            Head { version: v.version(), target: v.compact_target(), time: v.timestamp(), number: v.number(), epoch: v.data().raw().epoch().unpack(), parent: v.parent_hash().unpack().0, txs: v.transactions_root().unpack().0,
                props: v.proposals_hash().unpack().0, extra: v.extra_hash().unpack().0, dao: v.dao().unpack().0, nonce, ext: vec![], hash: *h }
        });
        ensure_eq!(got, s.heads.get(h).map(|x| Head { ext: vec![], ..x.clone() }), "header {}", hex(h));
        let ext = p.get_block_extension(&h.pack()).map(|b| b.raw_data().to_vec());
        ensure_eq!(ext, s.heads.get(h).map(|x| x.ext.clone()), "extension of {}", hex(h));
    }
    let trie = if root.is_zero() { MPTTrie::new(Arc::clone(db)) } else { MPTTrie::from_root(root, Arc::clone(db)).map_err(|e| e.to_string())? };
    for o in points {
        let mut k = o.0.to_vec(); k.extend(o.1.to_le_bytes());
        let raw = trie.get(&k).map_err(|e| e.to_string())?.map(|b| hex(&b));
        ensure_eq!(raw, s.cells.get(o).map(|c| hex(&stored(c))), "what is stored of cell {} {} (made in {:?}, used in {:?})", hex(&o.0), o.1, s.cells.get(o).map(|c| c.made), s.cells.get(o).and_then(|c| c.used));
        let (key, want) = (point_p(o), s.cells.get(o));
        ensure_eq!(p.get_cell_data(&key).map(|b| b.to_vec()), want.map(|c| c.data.clone()), "data of cell {} {}", hex(&o.0), o.1);
        let hash = |c: &Cell| if c.data.is_empty() { [0; 32] } else { protocol::ckb_blake2b_256(&c.data) };
        ensure_eq!(p.get_cell_data_hash(&key).map(|b| b.unpack().0), want.map(hash), "data hash of cell {} {}", hex(&o.0), o.1);
        match (p.cell(&key, true), want) {
            (CellStatus::Live(m), Some(c)) => {
                let out = packed_output(c);
                ensure_eq!(hex(m.cell_output.as_slice()), hex(out.as_slice()), "output of cell {} {}", hex(&o.0), o.1);
                ensure!(m.out_point.as_slice() == key.as_slice() && m.data_bytes == c.data.len() as u64 && m.mem_cell_data.as_ref().map(|b| b.to_vec()) == Some(c.data.clone())
                    && m.mem_cell_data_hash.as_ref().map(|b| b.unpack().0) == Some(hash(c)), "cell {} {} is {:?}", hex(&o.0), o.1, m);
            }
            (CellStatus::Unknown, None) => {}
            (x, w) => return Err(format!("cell {} {} is {:?}, told {:?}", hex(&o.0), o.1, x, w)),
        }
    }
    Ok(())
}
fn main() {
    let mut h = H::new();
    let (w, n) = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let w = World::new("c36", &mut Rng::new(36), 1, 0); let n = w.node(0); (w, n) })) {
        Ok(x) => x,
        Err(_) => { h.once("a chain to tell of CKB", "genesis", || Err("an honest chain cannot be made".to_string())); h.finish() }
    };
    let at = w.rt.block_on(n.store.get_latest_block_header(Context::new())).unwrap();
    let db = chain::cells_db();
    h.check("the provider says what the contracts were told", 400, |r, d| {
        let hashes: Vec<K> = (0..5).map(|_| k(r)).collect();
        let mut points: Vec<(K, u32)> = (0..4).map(|_| (k(r), r.int() as u32)).collect();
        let (a, b) = (points[0], points[1]); points.push((a.0, a.1.wrapping_add(1))); points.push((b.0, b.1.swap_bytes())); points.push((hashes[0], 0));
        points.dedup();
        // (state root, what it holds): blocks build on any earlier one
        let mut states: Vec<(H256, State)> = vec![(at.state_root, State::default())];
        for _ in 0..r.range(1, 7) {
            let i = if r.one_in(4) { r.below(states.len() as u64) as usize } else { states.len() - 1 };
            let (root, mut s) = states[i].clone();
            d.push_str(&format!(" | on {}:", i));
            let (mut txs, mut want) = (vec![], vec![]);
            for j in 0..r.range(1, 4) {
                let (to, data, next) = call(r, &s, &hashes, &points, d);
                let x = UnsignedTransaction::Legacy(LegacyTransaction { nonce: j.into(), gas_price: 1.into(), gas_limit: 1_000_000.into(), value: 0.into(), action: TransactionAction::Call(system(to)), data: data.into() });
                txs.push(SignedTransaction { transaction: UnverifiedTransaction { unsigned: x, signature: None, chain_id: Some(CHAIN), hash: H256::from_low_u64_be(j) }, sender: H160::zero(), public: None });
                want.push(next.is_some());
                if let Some(t) = next { s = t; }
            }
            let p: Proposal = Proposal::new_without_state_root(&at);
            let mut e = AxonExecutorApplyAdapter::from_root(root, Arc::clone(&w.trie), Arc::clone(&n.store), p.clone().into()).map_err(|e| e.to_string())?;
            let resp = AxonExecutor.exec(&mut e, &txs, &[]);
            let got: Vec<bool> = resp.tx_resp.iter().map(|x| x.exit_reason.is_succeed()).collect();
            ensure_eq!(got, want, "which calls are accepted");
            states.push((resp.state_root, s));
            // this state, and an earlier one
            for j in [states.len() - 1, r.below(states.len() as u64) as usize] {
                let b = AxonExecutorReadOnlyAdapter::from_root(states[j].0, Arc::clone(&w.trie), Arc::clone(&n.store), p.clone().into()).map_err(|e| e.to_string())?;
                let at = b.get_image_cell_root();
                agrees(&db, at, &DataProvider::new(at), &states[j].1, &hashes, &points).map_err(|e| format!("state {}: {}", j, e))?;
            }
        }
        Ok(())
    });
    h.finish()
}
