//@extern protocol=axon_protocol common_merkle axon_tools rlp
// C14: Merkle roots and proofs against their definitions, the index trie against its own reference, proofs through the light client's verifier.
#[path = "common.rs"] mod axv;
#[path = "gen.rs"] mod gen;
use axv::*;
use common_merkle::{Merkle, TrieMerkle};
use protocol::codec::ProtocolCodec;
use protocol::types::*;
fn joined(l: H256, r: H256) -> H256 { let mut b = l.0.to_vec(); b.extend_from_slice(&r.0); Hasher::digest(b) }
fn node(l: &[H256], k: usize) -> H256 { if k >= l.len() - 1 { l[k - (l.len() - 1)] } else { joined(node(l, 2 * k + 1), node(l, 2 * k + 2)) } }
// a Patricia trie over its definition
fn nibbles(k: &[u8]) -> Vec<u8> { k.iter().flat_map(|b| [b >> 4, b & 15]).collect() }
fn compact(n: &[u8], leaf: bool) -> Vec<u8> {
    let mut v = vec![if leaf { 2u8 } else { 0 }];
    let mut r = n;
    if n.len() % 2 == 1 { v[0] += 1; v[0] = v[0] * 16 + n[0]; r = &n[1..]; } else { v[0] *= 16; }
    v.extend(r.chunks(2).map(|c| c[0] * 16 + c[1]));
    v
}
fn trie_node(items: &[(Vec<u8>, Vec<u8>)], at: usize) -> Vec<u8> {
    let mut s = rlp::RlpStream::new();
    let put = |s: &mut rlp::RlpStream, child: &[(Vec<u8>, Vec<u8>)], at: usize| { let n = trie_node(child, at); if n.len() < 32 { s.append_raw(&n, 1); } else { s.append(&Hasher::digest(n).0.to_vec()); } };
    if items.is_empty() { return vec![0x80]; }
    if items.len() == 1 { s.begin_list(2); s.append(&compact(&items[0].0[at..], true)); s.append(&items[0].1); return s.out().to_vec(); }
    let mut common = 0;
    while items.iter().all(|(k, _)| k.len() > at + common && k[at + common] == items[0].0[at + common]) { common += 1; }
    if common > 0 { s.begin_list(2); s.append(&compact(&items[0].0[at..at + common], false)); put(&mut s, items, at + common); return s.out().to_vec(); }
    s.begin_list(17);
    for n in 0..16u8 {
        let c: Vec<(Vec<u8>, Vec<u8>)> = items.iter().filter(|(k, _)| k.len() > at && k[at] == n).cloned().collect();
        if c.is_empty() { s.append_empty_data(); } else { put(&mut s, &c, at + 1); }
    }
    match items.iter().find(|(k, _)| k.len() == at) { Some((_, v)) => { s.append(v); } None => { s.append_empty_data(); } }
    s.out().to_vec()
}
fn trie_root(items: &[(Vec<u8>, Vec<u8>)]) -> H256 { let v: Vec<(Vec<u8>, Vec<u8>)> = items.iter().map(|(k, v)| (nibbles(k), v.clone())).collect(); Hasher::digest(trie_node(&v, 0)) }
fn same_trie(r: &mut Rng, t: &mut TrieMerkle, items: &[(usize, Vec<u8>)]) -> Result<(), String> {
    let keyed: Vec<(Vec<u8>, Vec<u8>)> = items.iter().map(|(i, v)| (rlp::encode(i).to_vec(), v.clone())).collect();
    let root = t.root_hash().map_err(|e| e.to_string())?;
    ensure_eq!(root, trie_root(&keyed), "root of the index trie");
    for _ in 0..3 {
        let i = if !items.is_empty() && r.bool() { items[r.below(items.len() as u64) as usize].0 } else { r.below(items.len() as u64 + 4) as usize };
        let want = items.iter().find(|x| x.0 == i).map(|x| x.1.clone());
        let p = t.get_proof_by_index(i).map_err(|e| e.to_string())?;
        if items.is_empty() { continue; }
        let got = axon_tools::verify_trie_proof(root.0.into(), &rlp::encode(&i), p.clone()).map_err(|e| format!("proof of {}: {:?}", i, e))?;
        ensure_eq!(got.as_ref().map(|b| hex(b)), want.as_ref().map(|b| hex(b)), "proven value of index {}", i);
        let mut bad = root; bad.0[r.below(32) as usize] ^= 1 << r.below(8);
        ensure!(axon_tools::verify_trie_proof(bad.0.into(), &rlp::encode(&i), p.clone()).is_err(), "a proof verifies against another root");
        if want.is_some() { let mut q = p; let l = q.len() - 1; let k = r.below(q[l].len() as u64) as usize; q[l][k] ^= 1 << r.below(8);
            ensure!(axon_tools::verify_trie_proof(root.0.into(), &rlp::encode(&i), q).map_or(true, |v| v.is_none()), "a damaged proof verifies"); }
    }
    Ok(())
}
fn main() {
    let mut h = H::new();
    h.check("digest tree", 3000, |r, d| {
        let n = match r.below(4) { 0 => r.below(4), 1 => 1 << r.below(7), 2 => (1 << r.below(7)) + 1, _ => if r.one_in(60) { r.range(250, 1100) } else { r.below(70) } } as usize;
        let l: Vec<H256> = (0..n).map(|_| gen::h256(r)).collect();
        d.push_str(&format!("{:?}", l));
        let m = Merkle::from_hashes(l.clone());
        ensure_eq!(m.get_root_hash(), if n == 0 { None } else { Some(node(&l, 0)) }, "root");
        if n == 0 { return Ok(()); }
        let root = node(&l, 0);
        for i in 0..n.min(6) {
            let i = if n > 6 { r.below(n as u64) as usize } else { i };
            let p = m.get_proof_by_input_index(i).ok_or(format!("no proof of {}", i))?;
            let mut at = l[i];
            let mut k = n - 1 + i;
            for x in &p {
                let b = if k % 2 == 1 { k + 1 } else { k - 1 };
                ensure_eq!((x.is_right, x.hash), (b > k, node(&l, b)), "brother of node {}", k);
                at = if x.is_right { joined(at, x.hash) } else { joined(x.hash, at) };
                k = (k - 1) / 2;
            }
            ensure_eq!(k, 0, "length of the proof");
            ensure_eq!(at, root, "proof of {}", i);
        }
        ensure!(m.get_proof_by_input_index(n + r.below(3) as usize).is_none(), "a proof of an item that is not there");
        if n > 1 { let (a, b) = (r.below(n as u64) as usize, r.below(n as u64) as usize); let mut s = l.clone(); s.swap(a, b); if s != l { ensure!(Merkle::from_hashes(s).get_root_hash() != Some(root), "items {} and {} exchanged", a, b); } }
        Ok(())
    });
    h.check("receipts trie", 250, |r, d| {
        let n = match r.below(5) { 0 => r.below(3), 1 => r.range(126, 132), 2 => r.range(254, 259), _ => if r.one_in(40) { r.range(300, 700) } else { r.below(40) } } as usize;
        let l: Vec<Bytes> = (0..n).map(|_| { let k = r.range(1, 60) as usize; Bytes::from(r.bytes(k)) }).collect();
        d.push_str(&format!("{:?}", l));
        let mut t = TrieMerkle::from_receipts(&l);
        same_trie(r, &mut t, &l.iter().enumerate().map(|(i, b)| (i, b.to_vec())).collect::<Vec<_>>())
    });
    h.check("item trie", 150, |r, d| {
        let n = match r.below(5) { 0 => r.below(3), 1 => r.range(126, 132), _ => r.below(30) } as usize;
        let l: Vec<Proof> = (0..n).map(|_| gen::proof(r)).collect();
        d.push_str(&format!("{:?}", l));
        let mut t: TrieMerkle = l.iter().enumerate().collect();
        same_trie(r, &mut t, &l.iter().enumerate().map(|(i, b)| (i, b.encode().unwrap().to_vec())).collect::<Vec<_>>())
    });
    h.finish();
}
