//@extern protocol=axon_protocol core_executor core_mempool core_consensus core_storage core_db rlp rocksdb common_crypto common_merkle common_config_parser overlord evm
// C20: blocks of transactions through the real executor and its trie adapter, against an account map that the EVM
// runs on directly and whose balances are moved as the statement says.
#[path = "common.rs"] mod axv;
#[path = "gen.rs"] mod gen;
#[path = "gen_tx.rs"] mod gen_tx;
#[path = "store.rs"] mod store;
#[path = "chain.rs"] mod chain;
use axv::*;
use chain::{World, CHAIN};
use common_config_parser::types::spec::HardforkName;
use common_merkle::TrieMerkle;
use core_executor::{AxonExecutor, AxonExecutorApplyAdapter, AxonExecutorReadOnlyAdapter, DefaultFeeAllocator, FeeAllocate, MPTTrie, HARDFORK_INFO};
use evm::executor::stack::{MemoryStackState, StackExecutor, StackSubstateMetadata};
use protocol::codec::ProtocolCodec as _;
use protocol::traits::*;
use protocol::trie::Trie as _;
use protocol::types::*;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

type Map = BTreeMap<H160, MemoryAccount>;
fn system(i: u8) -> H160 { let mut a = [0xff; 20]; a[19] = i; H160(a) }
fn to_word(a: &H160) -> [u8; 32] { let mut w = [0; 32]; w[12..].copy_from_slice(a.as_bytes()); w }
fn word(n: u64) -> [u8; 32] { let mut w = [0; 32]; w[24..].copy_from_slice(&n.to_be_bytes()); w }
/// init code that installs `code`
fn install(code: &[u8]) -> Vec<u8> {
    let mut v = vec![0x61, (code.len() >> 8) as u8, code.len() as u8, 0x80, 0x60, 12, 0x60, 0, 0x39, 0x60, 0, 0xf3];
    v.extend_from_slice(code);
    v
}
/// the contracts every case starts with
fn contracts() -> Vec<Vec<u8>> {
    let mut env = vec![];
    // ORIGIN, CALLER, GASPRICE, NUMBER, TIMESTAMP, COINBASE, DIFFICULTY, GASLIMIT, CHAINID, SELFBALANCE, BASEFEE, CALLVALUE, EXTCODESIZE/HASH of itself
    for (slot, op) in [0x32u8, 0x33, 0x3a, 0x43, 0x42, 0x41, 0x44, 0x45, 0x46, 0x47, 0x48, 0x34].iter().enumerate() { env.extend([*op, 0x60, slot as u8, 0x55]); }
    env.extend([0x30, 0x3b, 0x60, 20, 0x55, 0x30, 0x3f, 0x60, 21, 0x55, 0x32, 0x31, 0x60, 22, 0x55]);
    for k in 0..4u8 { env.extend([0x60, k, 0x43, 0x03, 0x40, 0x60, 30 + k, 0x55]); } // BLOCKHASH(NUMBER - k)
    env.push(0);
    vec![
        vec![0x60, 0x20, 0x35, 0x60, 0, 0x35, 0x55, 0],                                            // slot[data0] = data1
        vec![0x60, 1, 0x60, 0, 0x55, 0x60, 0x20, 0x60, 0, 0x60, 0, 0x37, 0x60, 0x20, 0x60, 0, 0xfd], // writes, then reverts with data0
        vec![0x60, 1, 0x60, 7, 0x55, 0x5b, 0x60, 5, 0x56],                                          // writes, then runs out of gas
        vec![0x36, 0x60, 0, 0x60, 0, 0x37, 0x60, 0x20, 0x35, 0x60, 0, 0x35, 0x36, 0x60, 0, 0xa2, 0x60, 3, 0x60, 4, 0xa0, 0],  // two logs
        // calls data0 with data1.. and its value, stores whether that worked
        vec![0x60, 0x20, 0x36, 0x03, 0x60, 0x20, 0x60, 0, 0x37, 0x60, 0, 0x60, 0, 0x60, 0x20, 0x36, 0x03, 0x60, 0, 0x34, 0x60, 0, 0x35, 0x5a, 0xf1, 0x60, 1, 0x01, 0x60, 9, 0x55, 0],
        vec![0x60, 0, 0x35, 0xff],                                                                  // self-destructs to data0
        env,
        // creates a contract from data, stores its address
        vec![0x36, 0x60, 0, 0x60, 0, 0x37, 0x36, 0x60, 0, 0x34, 0xf0, 0x60, 1, 0x55, 0],
        vec![0xfe],
    ]
}
/// any program without calls or creations
fn program(r: &mut Rng) -> Vec<u8> {
    let n = r.range(1, 40);
    let mut v = vec![];
    for _ in 0..n {
        match r.below(5) {
            0 | 1 => v.extend([0x60, r.below(40) as u8]),
            2 => v.push(*r.pick(&[0x54, 0x55, 0x55, 0x51, 0x52, 0x80, 0x81, 0x90, 0x50, 0x5a])),
            3 => v.push(*r.pick(&[0x01, 0x02, 0x03, 0x04, 0x06, 0x0a, 0x10, 0x14, 0x15, 0x16, 0x1b, 0x20, 0x30, 0x31, 0x33, 0x34, 0x35, 0x36, 0x3b, 0x40, 0x43, 0x47, 0xa0, 0xa1])),
            _ => { let op = r.u8(); if ![0xf0, 0xf1, 0xf2, 0xf4, 0xf5, 0xfa].contains(&op) { v.push(op) } }
        }
    }
    v
}
struct Env { number: u64, time: u64, coinbase: H160, gas: u64, base: u64, hashes: Vec<H256>, limit: Option<usize> }
/// what a transaction does to the accounts, and its answer
fn model(map: &mut Map, e: &Env, t: &SignedTransaction) -> (bool, String, Vec<u8>, u64, u64, U256, Vec<Log>, Option<H256>) {
    let u = &t.transaction.unsigned;
    let (nonce, price, limit, value, action, data, list) = match u {
        UnsignedTransaction::Legacy(x) => (x.nonce, x.gas_price, x.gas_limit, x.value, x.action.clone(), x.data.to_vec(), vec![]),
        UnsignedTransaction::Eip2930(x) => (x.nonce, x.gas_price, x.gas_limit, x.value, x.action.clone(), x.data.to_vec(), x.access_list.clone()),
        UnsignedTransaction::Eip1559(x) => (x.nonce, x.gas_price.max(x.max_priority_fee_per_gas), x.gas_limit, x.value, x.action.clone(), x.data.to_vec(), x.access_list.clone()),
    };
    let _ = nonce;
    let (price, limit) = (U256::from(price.as_u64()), limit.as_u64());
    if action == TransactionAction::Call(system(0)) {
        // the native token contract: no fee
        let ok = data.len() >= 21 && data[0] <= 1 && {
            let a = H160::from_slice(&data[1..21]);
            let had = map.get(&a).map(|x| x.balance).unwrap_or_default();
            let b = if data[0] == 0 { had.checked_add(value) } else { had.checked_sub(value) };
            if let Some(b) = b { let x = map.entry(a).or_default(); x.balance = b; x.nonce += U256::one(); }
            b.is_some()
        };
        return (ok, if ok { "Succeed(Stopped)".into() } else { "Revert(Reverted)".into() }, vec![], if ok { 0 } else { limit - 1 }, if ok { limit } else { 1 }, U256::zero(), vec![], None);
    }
    let old = map.get(&t.sender).cloned().unwrap_or_default();
    let pre = price * limit;
    if old.balance < pre {
        map.entry(t.sender).or_default().nonce = old.nonce + 1;
        return (false, "Error(OutOfFund)".into(), vec![], 0, limit, U256::zero(), vec![], None);
    }
    map.entry(t.sender).or_default().balance = old.balance - pre;
    let v = MemoryVicinity { gas_price: price, origin: t.sender, chain_id: CHAIN.into(), block_hashes: e.hashes.clone(), block_number: e.number.into(), block_coinbase: e.coinbase, block_timestamp: e.time.into(), block_difficulty: U256::one(), block_gas_limit: e.gas.into(), block_base_fee_per_gas: e.base.into() };
    let back = MemoryBackend::new(&v, map.clone());
    let mut cfg = Config::london();
    cfg.create_contract_limit = e.limit;
    let none = BTreeMap::new();
    let mut x = StackExecutor::new_with_precompiles(MemoryStackState::new(StackSubstateMetadata::new(limit, &cfg), &back), &cfg, &none);
    let list: Vec<(H160, Vec<H256>)> = list.into_iter().map(|a| (a.address, a.storage_keys)).collect();
    let create = action == TransactionAction::Create;
    let (exit, ret) = match action {
        TransactionAction::Call(a) => x.transact_call(t.sender, a, value, data, limit, list),
        TransactionAction::Create => x.transact_create(t.sender, value, data, limit, list),
    };
    let used = x.used_gas();
    let mut logs = vec![];
    if exit.is_succeed() {
        let (vals, l) = x.into_state().deconstruct();
        let vals: Vec<_> = vals.into_iter().map(|a| match a { Apply::Modify { address, basic, code, storage, reset_storage } => Apply::Modify { address, basic, code, storage: storage.into_iter().collect::<Vec<_>>(), reset_storage }, Apply::Delete { address } => Apply::Delete { address } }).collect();
        logs = l.into_iter().collect();
        let mut b = MemoryBackend::new(&v, map.clone());
        b.apply(vals, Vec::<Log>::new(), true);
        *map = b.state().clone();
    }
    let s = map.entry(t.sender).or_default();
    s.nonce = old.nonce + 1;
    s.balance += price * (limit - used);
    let addr = if create && exit.is_succeed() { let mut st = rlp::RlpStream::new_list(2); st.append(&t.sender); st.append(&old.nonce); Some(Hasher::digest(st.out())) } else { None };
    (exit.is_succeed(), format!("{:?}", exit), ret, used, limit - used, price * used, logs, addr)
}
struct Bench { w: World, n: chain::Node, head: Header }
type Exec = AxonExecutorApplyAdapter<chain::Store, core_executor::RocksTrieDB>;
impl Bench {
    fn at(&self, root: H256, x: &ExecutorContext) -> Exec { AxonExecutorApplyAdapter::from_root(root, Arc::clone(&self.w.trie), Arc::clone(&self.n.store), x.clone()).unwrap() }
    fn run(&self, root: H256, x: &ExecutorContext, txs: &[SignedTransaction], vs: &[ValidatorExtend]) -> ExecResp { let mut a = self.at(root, x); self.w.rt.block_on(async { AxonExecutor.exec(&mut a, txs, vs) }) }
    /// the accounts as the trie has them
    fn check(&self, root: H256, x: &ExecutorContext, map: &Map, who: &BTreeSet<H160>, slots: &BTreeSet<H256>) -> Result<(), String> {
        let a = AxonExecutorReadOnlyAdapter::from_root(root, Arc::clone(&self.w.trie), Arc::clone(&self.n.store), x.clone()).map_err(|e| e.to_string())?;
        for k in who.iter().chain(map.keys()) {
            let m = map.get(k).cloned().unwrap_or_default();
            let (b, code) = self.w.rt.block_on(async { (a.basic(*k), a.code(*k)) });
            ensure_eq!((b.nonce, b.balance), (m.nonce, m.balance), "nonce and balance of {:x}", k);
            ensure_eq!(hex(&code), hex(&m.code), "code of {:x}", k);
            ensure_eq!(a.get_account(k).code_hash, Hasher::digest(&m.code), "code hash of {:x}", k);
            for s in m.storage.keys().chain(slots.iter().take(6)) { ensure_eq!(a.storage(*k, *s), m.storage.get(s).cloned().unwrap_or_default(), "slot {:x} of {:x}", s, k); }
            let mut t = MPTTrie::new(Arc::clone(&self.w.trie));
            for (s, v) in &m.storage { t.insert(s.as_bytes().to_vec(), U256::from_big_endian(v.as_bytes()).encode().unwrap().to_vec()).unwrap(); }
            ensure_eq!(a.get_account(k).storage_root, t.commit().unwrap(), "storage root of {:x}", k);
        }
        Ok(())
    }
}
fn total(m: &Map) -> U256 { m.values().fold(U256::zero(), |s, a| s + a.balance) }

fn main() {
    let mut h = H::new();
    let mut r0 = Rng::new(20);
    let w = World::new("c20", &mut r0, 4, 5);
    let n = w.node(5);
    let head = w.block(5).header.clone();
    let b = Bench { w, n, head };
    let m5 = b.w.metadata(1);
    let hashes: Vec<H256> = (0..=5).rev().map(|k| b.w.block(k).hash()).collect();
    h.check("blocks", 900, |r, d| {
        let number = match r.below(8) { 0 => 0, 1 => 1, _ => r.range(2, 6) };
        let andromeda = r.one_in(3);
        HARDFORK_INFO.swap(Arc::new(if andromeda { H256::from_low_u64_be((HardforkName::Andromeda as u64).to_be()) } else { H256::zero() }));
        let e = Env { number, time: r.u64() >> 20, coinbase: gen::h160(r), gas: r.range(1, 60_000_000), base: r.range(0, 5000), hashes: hashes[6 - number as usize..].to_vec(), limit: Some(if andromeda { m5.consensus_config.max_contract_limit as usize } else { 0x6000 }) };
        let x = ExecutorContext { block_number: number.into(), block_coinbase: e.coinbase, block_timestamp: e.time.into(), chain_id: CHAIN.into(), origin: gen::h160(r), gas_price: r.u64().into(), block_gas_limit: e.gas.into(), block_base_fee_per_gas: e.base.into(), extra_data: vec![] };
        // the accounts
        let mut map = Map::new();
        let who: Vec<H160> = (0..3).map(|_| gen::h160(r)).collect();
        let code = contracts();
        let prices: Vec<u64> = vec![0, 1, r.range(2, 5000), r.range(1, 1 << 40)];
        let (old, mut t) = (MPTTrie::from_root(b.head.state_root, Arc::clone(&b.w.trie)).unwrap(), MPTTrie::new(Arc::clone(&b.w.trie)));
        for k in 0..4 { if let Some(v) = old.get(system(k).as_bytes()).unwrap() { t.insert(system(k).as_bytes().to_vec(), v).unwrap(); } }
        for (k, a) in who.iter().enumerate() {
            let balance = match r.below(4) { 0 if k > 0 => U256::from(r.range(0, 900_000)) * *r.pick(&prices), 1 => U256::from(r.range(100_000, 3_000_000)) * *r.pick(&prices), _ => U256::from(10u64).pow(20.into()) * 1000 };
            let m = MemoryAccount { nonce: r.range(0, 300).into(), balance, ..Default::default() };
            t.insert(a.as_bytes().to_vec(), Account { nonce: m.nonce, balance, storage_root: RLP_NULL, code_hash: NIL_DATA }.encode().unwrap().to_vec()).unwrap();
            map.insert(*a, m);
        }
        let rich = who[0];
        let m = MemoryAccount { balance: U256::from(10u64).pow(24.into()), ..map[&rich].clone() };
        t.insert(rich.as_bytes().to_vec(), Account { nonce: m.nonce, balance: m.balance, storage_root: RLP_NULL, code_hash: NIL_DATA }.encode().unwrap().to_vec()).unwrap();
        map.insert(rich, m);
        let root = t.commit().unwrap();
        let mk = |nonce: U256, sender: H160, price: u64, limit: u64, value: U256, action: TransactionAction, data: Vec<u8>, kind: u64, list: AccessList| {
            let (nonce, gas_price, gas_limit) = (U64::from(nonce.low_u64()), U64::from(price), U64::from(limit));
            let data = Bytes::from(data);
            let unsigned = match kind {
                0 => UnsignedTransaction::Legacy(LegacyTransaction { nonce, gas_price, gas_limit, action, value, data }),
                1 => UnsignedTransaction::Eip2930(Eip2930Transaction { nonce, gas_price, gas_limit, action, value, data, access_list: list }),
                2 => UnsignedTransaction::Eip1559(Eip1559Transaction { nonce, max_priority_fee_per_gas: price.into(), gas_price: (price / 2).into(), gas_limit, action, value, data, access_list: list }),
                _ => UnsignedTransaction::Eip1559(Eip1559Transaction { nonce, max_priority_fee_per_gas: (price / 3).into(), gas_price, gas_limit, action, value, data, access_list: list }),
            };
            SignedTransaction { transaction: UnverifiedTransaction { unsigned, signature: None, chain_id: Some(CHAIN), hash: H256::zero() }, sender, public: None }
        };
        // the contracts, installed by transactions of the rich account
        let mut addrs = vec![];
        let mut boot = vec![];
        for (k, c) in code.iter().enumerate() {
            let nonce = map[&rich].nonce + k;
            boot.push(mk(nonce, rich, 0, 3_000_000, U256::zero(), TransactionAction::Create, install(c), r.below(4), vec![]));
            let mut st = rlp::RlpStream::new_list(2); st.append(&rich); st.append(&nonce);
            addrs.push(H160::from(Hasher::digest(st.out())));
        }
        for t in &boot { let a = model(&mut map, &e, t); ensure!(a.0, "a contract could not be installed: {}", a.1); }
        let mut root = b.run(root, &x, &boot, &[]).state_root;
        for (a, c) in addrs.iter().zip(&code) { ensure_eq!(hex(&map[a].code), hex(c), "installed code"); }
        let mut all: Vec<H160> = who.iter().chain(&addrs).cloned().collect();
        all.push(gen::h160(r));
        let slots: BTreeSet<H256> = (0..3u64).map(H256::from_low_u64_be).collect();
        for _ in 0..r.range(1, 2) {
            // one block
            let mut txs = vec![];
            let mut model_map = map.clone();
            let mut answers = vec![];
            let mut fee = U256::zero();
            for _ in 0..r.below(6) {
                let sender = *r.pick(&who);
                let nonce = if r.one_in(6) { U256::from(r.range(0, 9)) } else { model_map[&sender].nonce };
                let price = *r.pick(&prices);
                let limit = match r.below(6) { 0 => r.range(21_000, 60_000), 1 => r.range(1, 22_000), _ => r.range(60_000, 1_000_000) };
                let value = match r.below(5) { 0 => U256::from(r.range(0, 1000)), 1 => model_map[&sender].balance, 2 => (model_map[&sender].balance.saturating_sub(U256::from(price) * limit)) / 3, _ => U256::zero() };
                let mut data = vec![];
                let action = match r.below(16) {
                    0 => { let mut c = program(r); if r.bool() { c = install(&c); } data = c; TransactionAction::Create }
                    1 => { let len = match (r.below(4), e.limit) { (0, Some(l)) if l < 0xff00 => l as u64 + r.below(3) - 1, _ => 0x6000 + r.below(3) - 1 }; data = vec![0x61, (len >> 8) as u8, len as u8, 0x60, 0, 0xf3]; TransactionAction::Create }
                    2 => { data = vec![r.below(3) as u8]; data.extend(r.pick(&all).as_bytes()); if r.one_in(5) { data.truncate(7); } TransactionAction::Call(system(0)) }
                    3 => TransactionAction::Call(*r.pick(&all)),
                    4 => TransactionAction::Call(who[r.below(3) as usize]),
                    5 | 6 | 7 => { data.extend(word(r.below(4))); data.extend(word(if r.one_in(3) { 0 } else { r.u64() })); TransactionAction::Call(addrs[0]) }
                    8 => { data.extend(word(r.u64())); data.extend(word(r.below(3))); TransactionAction::Call(addrs[3]) }
                    9 | 10 => { data.extend(to_word(r.pick(&all))); for _ in 0..r.below(4) { data.extend(word(r.below(4) << 40)); } TransactionAction::Call(addrs[4]) }
                    11 => { data.extend(to_word(r.pick(&all))); TransactionAction::Call(addrs[5]) }
                    12 => { data = if r.bool() { let c: &Vec<u8> = r.pick(&code); install(c) } else { let c = program(r); install(&c) }; TransactionAction::Call(addrs[7]) }
                    13 => TransactionAction::Call(addrs[6]),
                    _ => { data.extend(word(r.u64())); TransactionAction::Call(addrs[*r.pick(&[1usize, 2, 8])]) }
                };
                let list = (0..r.below(3)).map(|_| AccessListItem { address: *r.pick(&all), storage_keys: (0..r.below(3)).map(|k| H256::from_low_u64_be(k)).collect() }).collect();
                let t = mk(nonce, sender, price, limit, value, action, data, r.below(4), list);
                let before = model_map.clone();
                let a = model(&mut model_map, &e, &t);
                fee += a.5;
                // what the statement says of it, on the account map
                if t.transaction.unsigned.action() != &TransactionAction::Call(system(0)) {
                    ensure_eq!(model_map[&sender].nonce, before[&sender].nonce + 1, "nonce");
                    ensure!(total(&before) >= total(&model_map) + a.5, "the accounts' total grew");
                    if !a.0 { let mut z = before.clone(); let s = z.get_mut(&sender).unwrap(); s.nonce += U256::one(); s.balance -= a.5; ensure!(z == model_map, "a failing transaction changes more than its fee and nonce"); }
                }
                answers.push(a);
                txs.push(t);
            }
            for a in answers.iter() { if let Some(c) = a.7 { all.push(H160::from(c)); } }
            let vs: Vec<ValidatorExtend> = (0..r.below(4)).map(|k| ValidatorExtend { address: if r.one_in(3) { *r.pick(&all) } else { gen::h160(r) }, vote_weight: if r.one_in(4) && k > 0 { 0 } else { r.range(1, 9) as u32 }, ..m5.verifier_list[0].clone() }).collect();
            d.push_str(&format!("block {} of {:?}; ", number, txs.iter().map(|t| (t.sender, t.transaction.unsigned.clone())).collect::<Vec<_>>()));
            // without fees, transaction by transaction: a block's prefix is what its transactions did up to there
            let got = b.run(root, &x, &txs, if fee.is_zero() || number == 0 || !vs.is_empty() { &vs } else { &vs });
            ensure_eq!(got.tx_resp.len(), txs.len(), "answers");
            let mut rec = vec![];
            for (k, (g, a)) in got.tx_resp.iter().zip(&answers).enumerate() {
                ensure_eq!(format!("{:?}", g.exit_reason), a.1.clone(), "exit of {}", k);
                ensure_eq!((g.gas_used, g.remain_gas, g.fee_cost), (a.3, a.4, a.5), "gas used, gas left and fee of {}", k);
                if a.0 || txs[k].transaction.unsigned.action() != &TransactionAction::Call(system(0)) { ensure_eq!(hex(&g.ret), hex(&a.2), "output of {}", k); }
                ensure_eq!(format!("{:?}", g.logs), format!("{:?}", a.6), "logs of {}", k);
                ensure_eq!((g.code_address, g.removed), (a.7, false), "code address of {}", k);
                ensure_eq!(g.gas_used + g.remain_gas, txs[k].transaction.unsigned.gas_limit().as_u64(), "gas limit of {}", k);
                rec.push(txs[k].encode_receipt(g, logs_bloom(g.logs.iter())));
            }
            ensure_eq!(got.gas_used, answers.iter().map(|a| a.3).sum::<u64>(), "gas of the block");
            let want = if rec.is_empty() { RLP_NULL } else { TrieMerkle::from_receipts(&rec).root_hash().map_err(|e| e.to_string())? };
            ensure_eq!(got.receipt_root, want, "receipts root");
            // the fees
            let mut after = model_map.clone();
            let sum: u64 = vs.iter().map(|v| v.vote_weight as u64).sum();
            if number > 0 && !fee.is_zero() && sum > 0 {
                for v in &vs { let share = fee / sum * v.vote_weight; if !share.is_zero() { after.entry(v.address).or_default().balance += share; } }
                let paid = total(&after) - total(&model_map);
                ensure!(paid <= fee && fee - paid < sum.into(), "fees of {} but {} shared", fee, paid);
            }
            let who: BTreeSet<H160> = all.iter().cloned().collect();
            b.check(got.state_root, &x, &after, &who, &slots)?;
            // a prefix gives the same answers
            if !txs.is_empty() && r.one_in(3) {
                let k = r.below(txs.len() as u64) as usize;
                let mut p = map.clone();
                for t in &txs[..k] { model(&mut p, &e, t); }
                let g = b.run(root, &x, &txs[..k], &[]);
                ensure_eq!(format!("{:?}", g.tx_resp), format!("{:?}", &got.tx_resp[..k]), "answers of the first {}", k);
                b.check(g.state_root, &x, &p, &who, &slots)?;
            }
            // a call without a transaction: the answer of the same call, nothing kept
            if r.one_in(2) {
                let (from, to) = (*r.pick(&all), if r.one_in(5) { None } else { Some(*r.pick(&all)) });
                let mut data = vec![]; for _ in 0..r.below(4) { data.extend(word(r.below(5) << 40)); }
                if to == Some(addrs[4]) { let a = to_word(r.pick(&all)); data.splice(0..data.len().min(32), a); }
                let limit = r.range(21_000, 900_000);
                let ro = AxonExecutorReadOnlyAdapter::from_root(got.state_root, Arc::clone(&b.w.trie), Arc::clone(&b.n.store), x.clone()).unwrap();
                let est = r.bool();
                d.push_str(&format!("; call to {:?} with {}", to, hex(&data)));
                let got_call = b.w.rt.block_on(async { AxonExecutor.call(&ro, limit, Some(from), to, U256::zero(), data.clone(), est) });
                let v = MemoryVicinity { gas_price: x.gas_price, origin: x.origin, chain_id: CHAIN.into(), block_hashes: e.hashes.clone(), block_number: number.into(), block_coinbase: e.coinbase, block_timestamp: e.time.into(), block_difficulty: U256::one(), block_gas_limit: e.gas.into(), block_base_fee_per_gas: e.base.into() };
                let back = MemoryBackend::new(&v, after.clone());
                let mut cfg = Config::london(); cfg.create_contract_limit = e.limit;
                let none = BTreeMap::new();
                let mut ex = StackExecutor::new_with_precompiles(MemoryStackState::new(StackSubstateMetadata::new(limit, &cfg), &back), &cfg, &none);
                let (exit, ret) = match to { Some(a) => ex.transact_call(from, a, U256::zero(), data, limit, vec![]), None => ex.transact_create(from, U256::zero(), data, limit, vec![]) };
                let used = ex.used_gas();
                ensure_eq!(format!("{:?}", got_call.exit_reason), format!("{:?}", exit), "exit of the call");
                ensure_eq!(hex(&got_call.ret), hex(&ret), "output of the call");
                ensure_eq!(got_call.gas_used, if est { used + used / 4 } else { used }, "gas of a call of {:?} by {:x}, answer {:?} {}, estimated {}", to.map(|a| addrs.iter().position(|x| *x == a).map(|k| format!("contract {}", k)).unwrap_or(format!("{:x}", a))), from, exit, hex(&ret), est);
                b.check(got.state_root, &x, &after, &who, &slots)?;
            }
            root = got.state_root;
            map = after;
        }
        Ok(())
    });
    HARDFORK_INFO.swap(Arc::new(H256::zero()));
    h.check("fee shares", 20000, |r, d| {
        let vs: Vec<ValidatorExtend> = (0..r.range(1, 6)).map(|k| ValidatorExtend { address: gen::h160(r), vote_weight: if k == 0 { r.range(1, 100) as u32 } else { { let m = if r.one_in(9) { 1 << 28 } else { 50 }; r.below(m) as u32 } }, ..m5.verifier_list[0].clone() }).collect();
        let (number, fee) = (r.below(4), match r.below(4) { 0 => U256::zero(), 1 => U256::from(r.below(200)), 2 => gen::u256(r) >> 40, _ => U256::from(r.u64()) });
        d.push_str(&format!("block {} fee {} weights {:?}", number, fee, vs.iter().map(|v| v.vote_weight).collect::<Vec<_>>()));
        let got = DefaultFeeAllocator.allocate(number.into(), fee, gen::h160(r), &vs);
        if number == 0 || fee.is_zero() { ensure!(got.is_empty(), "fees of nothing"); return Ok(()); }
        let sum: u64 = vs.iter().map(|v| v.vote_weight as u64).sum();
        ensure_eq!(got.len(), vs.len(), "shares");
        let mut paid = U256::zero();
        for (g, v) in got.iter().zip(&vs) { ensure_eq!((g.address, g.amount), (v.address, fee / sum * v.vote_weight), "share"); paid += g.amount; }
        ensure!(paid <= fee && fee - paid < sum.into(), "{} shared of {}", paid, fee);
        Ok(())
    });
    h.finish();
}
