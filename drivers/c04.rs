//@extern protocol=axon_protocol rlp common_crypto=common_crypto
#[path = "common.rs"] mod axv;
#[path = "gen.rs"] mod gen;
#[path = "gen_tx.rs"] mod gen_tx;
use axv::*;
use protocol::types::*;
use rlp::{Decodable, Encodable, Rlp};
fn set_nonce(t: &mut UnverifiedTransaction, f: impl Fn(U64) -> U64) {
    match &mut t.unsigned { UnsignedTransaction::Legacy(x) => x.nonce = f(x.nonce), UnsignedTransaction::Eip2930(x) => x.nonce = f(x.nonce), UnsignedTransaction::Eip1559(x) => x.nonce = f(x.nonce) }
}
fn main() {
    let mut h = H::new();
    h.check("sender", 600, |r, d| {
        let (x, a, eth) = gen_tx::stx(r);
        *d = format!("{:?}", x);
        let s = SignedTransaction::from_unverified(x.transaction.clone()).map_err(|e| format!("rejected: {}", e))?;
        ensure_eq!(s, x, "from_unverified");
        ensure_eq!(s.sender, a, "sender");
        let y = <SignedTransaction as Decodable>::decode(&Rlp::new(&x.rlp_bytes())).map_err(|e| format!("decode: {}", e))?;
        ensure_eq!(y, x, "decode");
        if eth { ensure_eq!(x.transaction.recover_public(true).map_err(|e| e.to_string())?, x.public.unwrap(), "recover_public"); ensure_eq!(public_to_address(&x.public.unwrap()), a, "public_to_address"); }
        x.transaction.check_hash().map_err(|e| format!("check_hash of a good hash: {}", e))?;
        // a stored hash that is not the content's is overwritten, never kept
        let mut t = x.transaction.clone();
        t.hash = gen::h256(r);
        if t.hash != x.transaction.hash { ensure!(t.check_hash().is_err(), "check_hash accepts {:?}", t.hash); }
        ensure_eq!(SignedTransaction::from_unverified(t).map_err(|e| e.to_string())?.transaction.hash, x.transaction.hash, "hash of from_unverified");
        let mut t = x.transaction.clone();
        t.signature = None;
        ensure!(SignedTransaction::from_unverified(t).is_err(), "accepted without signature");
        Ok(())
    });
    // any alteration of signed content no longer belongs to the signer
    h.check("altered", 700, |r, d| {
        let mut t = gen::utx(r);
        let k = gen_tx::key(r);
        gen_tx::sign(&mut t, &k);
        let (_, a) = gen_tx::account(&k);
        let o = t.clone();
        let what = r.below(9);
        match what {
            0 => set_nonce(&mut t, |n| n.overflowing_add(U64::one()).0),
            1 => match &mut t.unsigned { UnsignedTransaction::Legacy(x) => x.gas_price = x.gas_price ^ U64::one(), UnsignedTransaction::Eip2930(x) => x.gas_price = x.gas_price ^ U64::one(), UnsignedTransaction::Eip1559(x) => x.gas_price = x.gas_price ^ U64::one() },
            2 => match &mut t.unsigned { UnsignedTransaction::Legacy(x) => x.gas_limit = x.gas_limit ^ U64::one(), UnsignedTransaction::Eip2930(x) => x.gas_limit = x.gas_limit ^ U64::one(), UnsignedTransaction::Eip1559(x) => x.gas_limit = x.gas_limit ^ U64::one() },
            3 => match &mut t.unsigned { UnsignedTransaction::Legacy(x) => x.value = x.value ^ U256::one(), UnsignedTransaction::Eip2930(x) => x.value = x.value ^ U256::one(), UnsignedTransaction::Eip1559(x) => x.value = x.value ^ U256::one() },
            4 => { let b = { let mut b = t.unsigned.data().to_vec(); b.push(r.u8()); b }; t.unsigned.set_data(b.into()) }
            5 => { let to = t.unsigned.to(); t.unsigned.set_action(match to { Some(_) => TransactionAction::Create, None => TransactionAction::Call(gen::h160(r)) }) }
            6 => { t.chain_id = match t.chain_id { Some(i) => Some(if i > 0 { i - 1 } else { 1 }), None => Some(r.below(1000)) } }
            7 => match &mut t.unsigned { UnsignedTransaction::Legacy(_) => set_nonce(&mut t, |n| n ^ U64::one()), UnsignedTransaction::Eip2930(x) => x.access_list.push(gen::access_item(r)), UnsignedTransaction::Eip1559(x) => x.access_list.push(gen::access_item(r)) },
            _ => match &mut t.unsigned { UnsignedTransaction::Eip1559(x) => x.max_priority_fee_per_gas = x.max_priority_fee_per_gas ^ U64::one(), _ => set_nonce(&mut t, |n| n ^ U64::one()) },
        }
        *d = format!("alteration {} of {:?}", what, o);
        ensure!(t.signature_hash(true) != o.signature_hash(true), "the signed digest does not cover the altered part");
        if let Ok(s) = SignedTransaction::from_unverified(t.clone()) { ensure!(s.sender != a, "altered transaction still has the signer as sender"); ensure!(s.transaction.hash == t.get_hash(), "hash"); }
        let mut u = o.clone();
        let mut g = u.signature.clone().unwrap();
        match r.below(3) { 0 => g.standard_v ^= 1, 1 => { let mut b = g.r.to_vec(); let i = r.below(32) as usize; b[i] ^= 1 << r.below(8); g.r = b.into() } _ => { let mut b = g.s.to_vec(); let i = r.below(32) as usize; b[i] ^= 1 << r.below(8); g.s = b.into() } }
        u.signature = Some(g);
        if let Ok(s) = SignedTransaction::from_unverified(u.clone()) { ensure!(s.sender != a, "altered signature still has the signer as sender"); ensure!(s.transaction.hash != o.get_hash(), "hash does not cover the signature"); }
        Ok(())
    });
    // interoperation signatures: only a marker byte 0 followed by a cell dep and key is a sender
    h.check("interop", 1500, |r, d| {
        let mut t = gen::utx(r);
        let (mut g, pk) = gen_tx::interop(r);
        let bad = r.bool();
        if bad { let mut b = g.r.to_vec(); match r.below(3) { 0 => b[0] = r.range(1, 255) as u8, 1 => { let n = r.below(33) as usize; b.truncate(n); let s = r.bytes(200); g.s = s.into(); } _ => { b = vec![]; let s = r.bytes(100); g.s = s.into(); } } g.r = b.into(); }
        t.signature = Some(g.clone());
        *d = format!("{:?}", t);
        let x = SignedTransaction::from_unverified(t.clone());
        if bad { ensure!(x.is_err(), "accepted: {:?}", x); } else {
            let x = x.map_err(|e| e.to_string())?;
            ensure!(x.sender == H160::from_slice(&Hasher::digest(&pk).as_bytes()[12..]), "sender {:?}", x.sender);
            ensure!(x.transaction.hash == t.get_hash(), "hash");
        }
        Ok(())
    });
    h.finish()
}
