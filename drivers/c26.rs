//@extern protocol=axon_protocol core_executor rlp rocksdb core_db
// C26: the reserved addresses, the dispatch to system contracts, and the native token contract.
#[path = "common.rs"] mod axv;
#[path = "gen.rs"] mod gen;
#[path = "store.rs"] mod store;
use axv::*;
use core_executor::system_contract::{is_call_system_script, is_system_contract_address_format, system_contract_address, system_contract_dispatch, CKB_LIGHT_CLIENT_CONTRACT_ADDRESS, IMAGE_CELL_CONTRACT_ADDRESS, METADATA_CONTRACT_ADDRESS, NATIVE_TOKEN_CONTRACT_ADDRESS};
use protocol::types::*;
use std::collections::BTreeMap;
/// addresses in and around the reserved form
fn addr(r: &mut Rng) -> H160 {
    let mut a = H160::repeat_byte(0xff);
    a.0[19] = match r.below(3) { 0 => r.below(4) as u8, 1 => r.below(7) as u8, _ => r.below(256) as u8 };
    match r.below(6) {
        0 => { let i = r.below(19) as usize; a.0[i] ^= 1 << r.below(8); }
        1 => { let i = r.below(19) as usize; a.0[i] = r.below(255) as u8; }
        2 => { let last = a.0[19]; a = match r.below(3) { 0 => H160::zero(), 1 => gen::h160(r), _ => H160::repeat_byte(last) }; a.0[19] = last; }
        _ => {}
    }
    a
}
fn reserved(a: &H160) -> bool { a.0.iter().take(19).all(|b| *b == 0xff) }
fn call(sel: &str, args: &[u8]) -> Vec<u8> { let mut v = Hasher::digest(sel.as_bytes()).0[..4].to_vec(); v.extend_from_slice(args); v }
fn word(n: u8) -> [u8; 32] { let mut w = [0; 32]; w[31] = n; w }
fn transaction(r: &mut Rng, action: TransactionAction, data: Vec<u8>, value: U256) -> SignedTransaction {
    let mut u = gen::unsigned(r);
    u.set_action(action);
    u.set_data(data.into());
    let gas = U64::from(r.range(1, 30_000_000));
    match &mut u { UnsignedTransaction::Legacy(t) => { t.value = value; t.gas_limit = gas } UnsignedTransaction::Eip2930(t) => { t.value = value; t.gas_limit = gas } UnsignedTransaction::Eip1559(t) => { t.value = value; t.gas_limit = gas } }
    SignedTransaction { transaction: UnverifiedTransaction { unsigned: u, signature: None, chain_id: Some(1), hash: H256::zero() }, sender: gen::h160(r), public: None }
}
fn ok(t: &TxResp) -> bool { matches!(t.exit_reason, ExitReason::Succeed(_)) }
fn main() {
    let mut h = H::new();
    store::open("c26");
    h.once("the four addresses", "all reserved addresses", || {
        for (k, a) in [NATIVE_TOKEN_CONTRACT_ADDRESS, METADATA_CONTRACT_ADDRESS, CKB_LIGHT_CLIENT_CONTRACT_ADDRESS, IMAGE_CELL_CONTRACT_ADDRESS].iter().enumerate() {
            let mut want = [0xffu8; 20]; want[19] = k as u8;
            ensure_eq!(a.0, want, "address {}", k);
        }
        for k in 0..=255u8 { let mut want = [0xffu8; 20]; want[19] = k; ensure_eq!(system_contract_address(k).0, want, "reserved address {}", k); }
        ensure!(is_call_system_script(&TransactionAction::Create) .ok() == Some(false), "a creation is no call");
        Ok(())
    });
    h.once("every reserved address", "and every address one byte off it", || {
        for k in 0..=255u8 {
            let mut a = H160::repeat_byte(0xff); a.0[19] = k;
            ensure!(is_system_contract_address_format(&a), "{:x}", a);
            let got = is_call_system_script(&TransactionAction::Call(a)).ok();
            ensure_eq!(got, if k <= 3 { Some(true) } else { None }, "call of {:x}", a);
            for i in 0..19 { for b in [0u8, 1, 0x7f, 0xf0, 0xfe, k] { if b == 0xff { continue; }
                let mut n = a; n.0[i] = b;
                ensure!(!is_system_contract_address_format(&n), "{:x} has not the reserved form", n);
                ensure_eq!(is_call_system_script(&TransactionAction::Call(n)).ok(), Some(false), "call of {:x}", n);
            } }
        }
        Ok(())
    });
    h.check("recognition", 20000, |r, d| {
        let a = addr(r);
        d.push_str(&format!("{:x}", a));
        ensure_eq!(is_system_contract_address_format(&a), reserved(&a), "form");
        let want = if !reserved(&a) { Some(false) } else if a.0[19] <= 3 { Some(true) } else { None };
        ensure_eq!(is_call_system_script(&TransactionAction::Call(a)).ok(), want, "call");
        Ok(())
    });
    let state = |r: &mut Rng, who: H160| -> BTreeMap<H160, MemoryAccount> {
        let mut m = BTreeMap::new();
        for a in [who, gen::h160(r), NATIVE_TOKEN_CONTRACT_ADDRESS] { if !r.one_in(4) {
            m.insert(a, MemoryAccount { nonce: r.int().into(), balance: match r.below(4) { 0 => U256::zero(), 1 => U256::from(r.int()), _ => U256::from(r.range(0, 1000)) }, storage: BTreeMap::new(), code: r.blob(10).to_vec() });
        } }
        m
    };
    // what each contract, and no other, accepts
    let mut list = vec![0u8; 0]; list.extend(word(32)); list.extend(word(0));
    let info: Vec<u8> = (1..=6u8).flat_map(word).collect();
    let light = call("rollback(bytes32[])", &list);
    let image = call("rollback(((bytes32,uint32)[],(bytes32,uint32)[])[])", &list);
    let meta = call("setCkbRelatedInfo((bytes32,bytes32,bytes32,bytes32,bytes32,bytes32))", &info);
    h.check("dispatch", 4000, |r, d| {
        let v = store::vicinity(0);
        let which = r.below(5) as u8;
        let mut data = match which { 0 => { let mut x = vec![r.below(2) as u8]; x.extend(gen::h160(r).0); x } 1 => meta.clone(), 2 => light.clone(), 3 => image.clone(), _ => { let n = r.below(20) as usize; r.bytes(n).to_vec() } };
        if r.one_in(3) && which == 0 { data.extend(r.bytes(5)); }
        let to = match r.below(6) { 0 => None, 1 | 2 => Some(addr(r)), _ => Some(system_contract_address(r.below(5) as u8)) };
        d.push_str(&format!("data for {} sent to {:x?}", which, to));
        let who = gen::h160(r);
        let before = state(r, who);
        let tx = transaction(r, to.map(TransactionAction::Call).unwrap_or(TransactionAction::Create), data.clone(), U256::zero());
        let mut b = MemoryBackend::new(&v, before.clone());
        let got = system_contract_dispatch(&mut b, &tx);
        let k = to.and_then(|a| if reserved(&a) && a.0[19] <= 3 { Some(a.0[19]) } else { None });
        ensure_eq!(got.is_some(), k.is_some(), "dispatched");
        match (got, k) {
            (Some(t), Some(k)) => {
                ensure_eq!(ok(&t), k == which, "contract {} accepting", k);
                if !ok(&t) { ensure_eq!(b.state(), &before, "a refused call left a trace"); }
                else if k == 1 { ensure!(b.state()[&METADATA_CONTRACT_ADDRESS].storage != before.get(&METADATA_CONTRACT_ADDRESS).map(|a| a.storage.clone()).unwrap_or_default(), "metadata root not recorded"); ensure_eq!(b.state().get(&NATIVE_TOKEN_CONTRACT_ADDRESS), before.get(&NATIVE_TOKEN_CONTRACT_ADDRESS), "another contract's account"); }
            }
            _ => ensure_eq!(b.state(), &before, "no system contract ran, yet the state changed"),
        }
        Ok(())
    });
    h.check("native token", 8000, |r, d| {
        let v = store::vicinity(r.below(4));
        let who = gen::h160(r);
        let before = state(r, who);
        let had = before.get(&who).map(|a| a.balance).unwrap_or_default();
        let value = match r.below(7) { 5 => U256::MAX - had, 6 => (U256::MAX - had).saturating_add(U256::one()), 0 => U256::zero(), 1 => had, 2 => had.saturating_add(U256::one()), 3 => had / 2, _ => U256::from(r.int()) };
        let mut data = vec![match r.below(8) { 0 => 2u8, 1 => r.below(256) as u8, n => (n % 2) as u8 }];
        data.extend(who.0);
        match r.below(8) { 0 => { data.truncate(r.below(21) as usize) } 1 => data.extend(r.blob(40).to_vec()), 2 => data.truncate(20), _ => {} }
        let valid = data.len() >= 21 && data[0] <= 1;
        d.push_str(&format!("data {} value {} balance {}", hex(&data), value, had));
        let tx = transaction(r, TransactionAction::Call(NATIVE_TOKEN_CONTRACT_ADDRESS), data.clone(), value);
        let mut b = MemoryBackend::new(&v, before.clone());
        let t = match system_contract_dispatch(&mut b, &tx) { Some(t) => t, None => return Err("not dispatched".into()) };
        let good = valid && (if data[0] == 0 { had.checked_add(value).is_some() } else { had >= value });
        ensure_eq!(ok(&t), good, "accepted");
        if !good { ensure_eq!(b.state(), &before, "state after a refusal"); return Ok(()); }
        let has = b.state().get(&who).cloned().ok_or("account missing")?;
        ensure_eq!(has.balance, if data[0] == 0 { had + value } else { had - value }, "balance");
        let old = before.get(&who).cloned().unwrap_or_default();
        ensure_eq!((has.nonce, has.code, has.storage), (old.nonce + 1, old.code, old.storage), "rest of the account");
        let (mut x, mut y) = (b.state().clone(), before.clone());
        x.remove(&who); y.remove(&who);
        ensure_eq!(x, y, "other accounts");
        Ok(())
    });
    h.finish();
}
