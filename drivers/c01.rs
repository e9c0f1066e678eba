//@extern protocol=axon_protocol rlp
#[path = "common.rs"] mod axv;
#[path = "gen.rs"] mod gen;
use axv::*;
use protocol::types::*;
use protocol::codec::ProtocolCodec;
use rlp::{Decodable, Encodable, Rlp, RlpStream};
// Ethereum's layout, written from the EIPs
fn reference(t: &UnverifiedTransaction, with_sig: bool) -> Vec<u8> {
    let mut s = RlpStream::new();
    let sig = if with_sig { t.signature.clone() } else { None };
    let num = |b: &Bytes| U256::from_big_endian(b);
    fn acl(s: &mut RlpStream, l: &AccessList) {
        s.begin_list(l.len());
        for i in l { s.begin_list(2); s.append(&i.address); s.begin_list(i.storage_keys.len()); for k in &i.storage_keys { s.append(k); } }
    }
    fn act(s: &mut RlpStream, a: &TransactionAction) { match a { TransactionAction::Call(x) => { s.append(x); } TransactionAction::Create => { s.append_empty_data(); } } }
    let mut pre = vec![];
    match &t.unsigned {
        UnsignedTransaction::Legacy(x) => {
            s.begin_list(if sig.is_some() || t.chain_id.is_some() { 9 } else { 6 });
            s.append(&x.nonce).append(&x.gas_price).append(&x.gas_limit); act(&mut s, &x.action); s.append(&x.value).append(&x.data.to_vec());
            if let Some(g) = &sig {
                let v = g.standard_v as u64 + match t.chain_id { Some(i) => 2 * i + 35, None => 27 };
                s.append(&v);
                if g.r.len() == 32 && g.s.len() == 32 { s.append(&num(&g.r)).append(&num(&g.s)); } else { s.append(&g.r.to_vec()).append(&g.s.to_vec()); }
            } else if let Some(i) = t.chain_id { s.append(&i).append(&0u8).append(&0u8); }
        }
        UnsignedTransaction::Eip2930(x) => {
            pre.push(1);
            s.begin_list(if sig.is_some() { 11 } else { 8 });
            s.append(&t.chain_id.unwrap_or(0)).append(&x.nonce).append(&x.gas_price).append(&x.gas_limit); act(&mut s, &x.action); s.append(&x.value).append(&x.data.to_vec());
            acl(&mut s, &x.access_list);
        }
        UnsignedTransaction::Eip1559(x) => {
            pre.push(2);
            s.begin_list(if sig.is_some() { 12 } else { 9 });
            s.append(&t.chain_id.unwrap_or(0)).append(&x.nonce).append(&x.max_priority_fee_per_gas).append(&x.gas_price).append(&x.gas_limit); act(&mut s, &x.action); s.append(&x.value).append(&x.data.to_vec());
            acl(&mut s, &x.access_list);
        }
    }
    if !pre.is_empty() { if let Some(g) = &sig {
        s.append(&g.standard_v);
        if g.r.len() == 32 && g.s.len() == 32 { s.append(&num(&g.r)).append(&num(&g.s)); } else { s.append(&g.r.to_vec()).append(&g.s.to_vec()); }
    } }
    pre.extend_from_slice(&s.out());
    pre
}
/// what is accepted is what encoding it gives: only bytes behind the list may follow
fn canonical(b: &[u8], e: &[u8]) -> Result<(), String> {
    ensure!(b.len() >= e.len() && b[..e.len()] == *e, "accepted {} encodes as {}", hex(b), hex(e));
    Ok(())
}
fn main() {
    let mut h = H::new();
    h.check("round_trip", 6000, |r, d| {
        let t = gen::utx(r);
        *d = format!("{:?}", t);
        let b = t.rlp_bytes();
        ensure!(b[..] == reference(&t, true)[..], "layout: got {} want {}", hex(&b), hex(&reference(&t, true)));
        let u = <UnverifiedTransaction as Decodable>::decode(&Rlp::new(&b)).map_err(|e| format!("decode failed: {}", e))?;
        let mut want = t.clone();
        want.hash = Hasher::digest(&b);
        ensure_eq!(u, want, "decoded");
        ensure_eq!(t.get_hash(), want.hash, "hash of the content");
        let v = <UnverifiedTransaction as ProtocolCodec>::decode(&ProtocolCodec::encode(&t).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
        ensure_eq!(v, want, "ProtocolCodec round trip");
        Ok(())
    });
    h.check("unsigned_layout", 3000, |r, d| {
        let mut t = gen::utx(r);
        *d = format!("{:?}", t);
        let b = t.unsigned.encode(t.chain_id, None);
        ensure!(b[..] == reference(&t, false)[..], "unsigned layout: got {} want {}", hex(&b), hex(&reference(&t, false)));
        ensure_eq!(t.signature_hash(true), Hasher::digest(&b), "signature hash");
        let e = t.unsigned.encode(t.chain_id, t.signature.clone());
        ensure!(e[..] == reference(&t, true)[..], "signed layout through encode");
        if t.unsigned.is_legacy() { t.chain_id = None; ensure_eq!(t.signature_hash(false), Hasher::digest(&reference(&t, false)), "signature hash without chain id"); }
        Ok(())
    });
    // whatever decodes, re-encodes to something that decodes to the same transaction; its hash is of the bytes read
    h.check("decode_mutated", 12000, |r, d| {
        let t = gen::utx(r);
        let mut b = t.rlp_bytes().to_vec();
        for _ in 0..r.range(1, 3) { match r.below(4) { 0 => { let i = r.below(b.len() as u64) as usize; b[i] = r.u8(); } 1 => { let i = r.below(b.len().min(12) as u64) as usize; b[i] = b[i].wrapping_add(1); } 2 => { let n = b.len() - r.below(b.len().min(40) as u64) as usize; b.truncate(n.max(1)); } _ => b.push(r.u8()) } }
        *d = hex(&b);
        if let Ok(u) = <UnverifiedTransaction as Decodable>::decode(&Rlp::new(&b)) {
            let sg = u.signature.clone().unwrap();
            ensure!(sg.standard_v <= 1 || !u.unsigned.is_legacy(), "standard v {}", sg.standard_v);
            ensure!(u.hash == Hasher::digest(&b) , "hash is not of the decoded bytes");
            let e = u.rlp_bytes();
            let mut v = <UnverifiedTransaction as Decodable>::decode(&Rlp::new(&e)).map_err(|e| format!("re-decode: {}", e))?;
            v.hash = u.hash;
            ensure_eq!(v, u, "decode(encode(decode(x)))");
        }
        Ok(())
    });
    // a list with items added, dropped, doubled or swapped, at the top or in the access list, and types that do not exist
    h.check("structure", 12000, |r, d| {
        let mut t = gen::utx(r);
        let al = gen::many(r, gen::access_item);
        match &mut t.unsigned { UnsignedTransaction::Eip2930(x) => x.access_list = al, UnsignedTransaction::Eip1559(x) => x.access_list = al, _ => {} }
        let b = t.rlp_bytes().to_vec();
        let p = !t.unsigned.is_legacy() as usize;
        let mut items: Vec<Vec<u8>> = Rlp::new(&b[p..]).iter().map(|i| i.as_raw().to_vec()).collect();
        let n = items.len();
        let whole = items.clone();
        let mut pre = b[..p].to_vec();
        let mut legal = false;
        let again = |v: &Vec<Vec<u8>>| { let mut s = RlpStream::new_list(v.len()); for x in v { s.append_raw(x, 1); } s.out().to_vec() };
        let al_at = if n == 11 { Some(7) } else if n == 12 { Some(8) } else { None };
        match r.below(6) {
            0 => { let x = whole[r.below(n as u64) as usize].clone(); for _ in 0..r.range(1, 2) { if r.bool() { items.push(x.clone()) } else { items.insert(r.below(n as u64) as usize, x.clone()) } } }
            1 => { items.remove(r.below(n as u64) as usize); }
            2 => { pre = if r.bool() { vec![r.u8() & 0x7f] } else { vec![] }; legal = pre == b[..p]; }
            3 if al_at.is_some() => {
                let k = al_at.unwrap();
                let mut acc: Vec<Vec<u8>> = Rlp::new(&items[k]).iter().map(|i| i.as_raw().to_vec()).collect();
                if acc.is_empty() { acc.push(again(&vec![vec![0xc0]])); } else {
                    let j = r.below(acc.len() as u64) as usize;
                    let mut f: Vec<Vec<u8>> = Rlp::new(&acc[j]).iter().map(|i| i.as_raw().to_vec()).collect();
                    match r.below(4) { 0 => f.push(f[1].clone()), 1 => { f.pop(); } 2 => { let x = f[0].clone(); f.push(x) } _ => f.clear() }
                    acc[j] = again(&f);
                }
                items[k] = again(&acc);
            }
            4 => { let (i, j) = (r.below(n as u64) as usize, r.below(n as u64) as usize); items.swap(i, j); legal = true; }
            _ => { let i = r.below(n as u64) as usize; items[i] = whole[r.below(n as u64) as usize].clone(); legal = true; }
        }
        let mut x = pre.clone();
        x.extend(again(&items));
        *d = hex(&x);
        match <UnverifiedTransaction as Decodable>::decode(&Rlp::new(&x)) {
            Ok(u) => {
                ensure!(u.unsigned.is_legacy() == pre.is_empty() && (pre.is_empty() || pre[0] == u.unsigned.as_u8()), "type {:?} read from {}", u.unsigned.type_(), hex(&x));
                ensure!(items.len() == if u.unsigned.is_legacy() { 9 } else if pre[0] == 1 { 11 } else { 12 }, "{} items accepted", items.len());
                ensure!(legal || pre != b[..p], "accepted: {}", hex(&x));
                canonical(&x, &u.rlp_bytes())?;
            }
            Err(_) => ensure!(pre != b[..p] || items != whole, "refused: {}", hex(&x)),
        }
        Ok(())
    });
    h.finish()
}
