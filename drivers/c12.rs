//@extern axon_tools blst
// C12: the light client accepts a block exactly when a quorum of the listed validators signed its proposal.
#[path = "common.rs"] mod axv;
use axon_tools::types::*;
use axon_tools::{keccak_256, verify_proof};
use axv::*;
use blst::min_pk::{AggregateSignature, SecretKey, Signature};
const DST: &[u8] = b"BLS_SIG_BLS12381G2_XMD:SHA-256_SSWU_RONUL";
// ---- an encoder of its own, from the RLP definition ----
enum It { S(Vec<u8>), L(Vec<It>) }
fn n(x: u128) -> It { It::S(x.to_be_bytes().iter().copied().skip_while(|b| *b == 0).collect()) }
fn b(x: &[u8]) -> It { It::S(x.to_vec()) }
fn head(base: u8, len: usize, out: &mut Vec<u8>) {
    if len < 56 { out.push(base + len as u8) } else { let l: Vec<u8> = (len as u64).to_be_bytes().iter().copied().skip_while(|b| *b == 0).collect(); out.push(base + 55 + l.len() as u8); out.extend(l) }
}
fn ser(i: &It) -> Vec<u8> {
    let mut out = vec![];
    match i {
        It::S(s) if s.len() == 1 && s[0] < 0x80 => out.push(s[0]),
        It::S(s) => { head(0x80, s.len(), &mut out); out.extend(s) }
        It::L(v) => { let body: Vec<u8> = v.iter().flat_map(ser).collect(); head(0xc0, body.len(), &mut out); out.extend(body) }
    }
    out
}
fn proof_item(p: &Proof) -> It { It::L(vec![n(p.number as u128), n(p.round as u128), b(p.proposal_hash.as_bytes()), b(&p.signature), b(&p.bitmap)]) }
/// the digest of the proposal a block stands for
fn digest(k: &Block, root: &[u8; 32]) -> [u8; 32] {
    let h = &k.header;
    keccak_256(&ser(&It::L(vec![It::L(vec![n(0)]), b(h.prev_hash.as_bytes()), b(h.proposer.as_bytes()), b(root), b(h.transactions_root.as_bytes()), b(h.signed_txs_hash.as_bytes()), n(h.timestamp as u128), n(h.number as u128), n(h.gas_limit.as_u64() as u128),
        It::L(h.extra_data.iter().map(|e| It::L(vec![b(&e.inner)])).collect()), proof_item(&h.proof), n(h.call_system_script_count as u128), It::L(k.tx_hashes.iter().map(|x| b(x.as_bytes())).collect())])))
}
fn vote(p: &Proof) -> [u8; 32] { keccak_256(&ser(&It::L(vec![n(p.number as u128), n(p.round as u128), n(2), b(p.proposal_hash.as_bytes())]))) }
#[derive(Clone)]
struct V { secret: usize, bls: Vec<u8>, ident: Vec<u8>, weight: u32 }
fn h32(r: &mut Rng) -> [u8; 32] { let mut x = [0; 32]; x.copy_from_slice(&r.bytes(32)); x }
fn block(r: &mut Rng) -> Block {
    let mut bloom = [0u8; 256]; bloom.copy_from_slice(&r.bytes(256));
    let mut addr = [0u8; 20]; addr.copy_from_slice(&r.bytes(20));
    Block { header: Header { version: BlockVersion::V0, prev_hash: h32(r).into(), proposer: addr.into(), state_root: h32(r).into(), transactions_root: h32(r).into(), signed_txs_hash: h32(r).into(), receipts_root: h32(r).into(), log_bloom: bloom.into(),
        timestamp: r.int(), number: r.int(), gas_used: r.int().into(), gas_limit: r.int().into(), extra_data: (0..r.below(3)).map(|_| ExtraData { inner: r.blob(60).into() }).collect(), base_fee_per_gas: r.int().into(),
        proof: Proof { number: r.int(), round: r.int(), proposal_hash: h32(r).into(), signature: r.blob(96).into(), bitmap: r.blob(8).into() }, call_system_script_count: r.int() as u32, chain_id: r.int() },
        tx_hashes: (0..r.below(4)).map(|_| h32(r).into()).collect() }
}
fn list(v: &[V]) -> Vec<ValidatorExtend> {
    v.iter().map(|x| { let mut a = [0u8; 20]; a.copy_from_slice(&keccak_256(&x.ident)[12..]); ValidatorExtend { bls_pub_key: Hex::encode(&x.bls), pub_key: Hex::encode(&x.ident), address: a.into(), propose_weight: x.weight, vote_weight: x.weight } }).collect()
}
/// the conditions of the property, computed apart from the library's code
fn expected(k: &Block, root: &[u8; 32], vs: &[V], p: &Proof, keys: &[SecretKey]) -> bool {
    let mut by = vs.to_vec();
    by.sort_by(|a, b| a.ident.cmp(&b.ident));
    let named: Vec<&V> = by.iter().enumerate().filter(|(i, _)| i / 8 < p.bitmap.len() && p.bitmap[i / 8] >> (7 - i % 8) & 1 == 1).map(|x| x.1).collect();
    if digest(k, root)[..] != p.proposal_hash.0[..] || 3 * named.len() <= 2 * vs.len() || named.iter().any(|v| v.bls != keys[v.secret].sk_to_pk().to_bytes()) { return false; }
    let msg = vote(p);
    // with the named secrets at hand, there is one valid aggregate signature: theirs
    Signature::from_bytes(&p.signature).map(|s| s.to_bytes()) == Ok(sign(keys, &named.iter().map(|v| v.secret).collect::<Vec<_>>(), &msg))
}
fn sign(keys: &[SecretKey], who: &[usize], msg: &[u8]) -> [u8; 96] {
    let s: Vec<Signature> = who.iter().map(|i| keys[*i].sign(msg, DST, &[])).collect();
    AggregateSignature::aggregate(&s.iter().collect::<Vec<_>>(), true).map(|a| a.to_signature().to_bytes()).unwrap_or([0xc0; 96])
}
fn setup(r: &mut Rng, keys: &[SecretKey], size: usize) -> Vec<V> {
    let mut order: Vec<usize> = (0..keys.len()).collect();
    r.shuffle(&mut order);
    let style = r.below(3);
    (0..size).map(|i| V { secret: order[i], bls: keys[order[i]].sk_to_pk().to_bytes().to_vec(), ident: match style { 0 => { let mut x = vec![2u8; 33]; x[32] = order[i] as u8; x } 1 => { let mut x = vec![3u8]; x.extend(keccak_256(&[order[i] as u8])); x } _ => { let mut x = keccak_256(&[order[i] as u8, 1]).to_vec(); x.truncate(2 + order[i] % 3 * 10); x } }, weight: match r.below(4) { 0 => 0, 1 => 1, 2 => u32::MAX, _ => r.int() as u32 } }).collect()
}
fn bitmap(positions: &[usize], len: usize) -> Vec<u8> { let mut v = vec![0u8; len]; for i in positions { if i / 8 < len { v[i / 8] |= 0x80 >> (i % 8); } } v }
fn main() {
    let mut h = H::new();
    let keys: Vec<SecretKey> = (0..24u8).map(|i| SecretKey::key_gen(&[i + 1; 32], &[]).unwrap()).collect();
    // honest proof of a quorum, then one thing changed (or none)
    h.check("light client", 2500, |r, d| {
        let size = r.range(0, 13) as usize;
        let mut vs = setup(r, &keys, size);
        let mut k = block(r);
        let mut root = h32(r);
        // who signs: around two thirds, mostly
        let two_thirds = 2 * size / 3;
        let count = match r.below(6) { 0 => size, 1 => two_thirds, 2 => two_thirds.saturating_sub(1), 3 => r.below(size as u64 + 1) as usize, _ => (two_thirds + 1).min(size) };
        let mut by: Vec<usize> = (0..size).collect();
        by.sort_by(|a, b| vs[*a].ident.cmp(&vs[*b].ident));
        let mut pos: Vec<usize> = (0..size).collect();
        r.shuffle(&mut pos);
        pos.truncate(count);
        let mut p = Proof { number: if r.bool() { k.header.number } else { r.int() }, round: r.int(), proposal_hash: digest(&k, &root).into(), signature: vec![].into(), bitmap: bitmap(&pos, (size + 7) / 8 + if r.one_in(3) { r.below(3) as usize } else { 0 }).into() };
        let mut who: Vec<usize> = pos.iter().map(|i| vs[by[*i]].secret).collect();
        r.shuffle(&mut who);
        p.signature = sign(&keys, &who, &vote(&p)).to_vec().into();
        let change = match r.below(3) { 0 => 0, _ => r.range(1, 31) };
        match change {
            1 => p.number = p.number.wrapping_add(1), 2 => p.round = p.round.wrapping_add(1), 3 => root[31] ^= 1, 4 => k.header.number = k.header.number.wrapping_add(1), 5 => k.header.timestamp ^= 1, 6 => k.header.chain_id ^= 1, 7 => k.header.call_system_script_count ^= 1,
            8 => k.header.gas_limit = (k.header.gas_limit.as_u64() ^ 1).into(), 9 => k.header.base_fee_per_gas = (k.header.base_fee_per_gas.as_u64() ^ 1).into(), 10 => k.header.proof.round ^= 1, 11 => k.header.proof.signature = vec![7; 5].into(), 12 => k.tx_hashes.push(h32(r).into()),
            13 => { k.header.extra_data.push(ExtraData { inner: r.blob(4).into() }); } 14 => k.header.proposer.0[0] ^= 1, 15 => k.header.prev_hash.0[3] ^= 1, 16 => k.header.transactions_root.0[3] ^= 1, 17 => k.header.signed_txs_hash.0[3] ^= 1,
            // not part of the proposal: changing them changes nothing
            18 => { k.header.receipts_root.0[3] ^= 1; k.header.state_root.0[3] ^= 1; k.header.log_bloom.0[3] ^= 1; k.header.gas_used = 77u64.into(); }
            // signature by others than the bitmap names
            19 => { if let Some(x) = who.pop() { let o = (x + 1) % keys.len(); who.push(o); p.signature = sign(&keys, &who, &vote(&p)).to_vec().into(); } }
            20 => { who.pop(); p.signature = sign(&keys, &who, &vote(&p)).to_vec().into(); }
            21 => { let m = keccak_256(b"other"); p.signature = sign(&keys, &who, &m).to_vec().into(); }
            // signature over the digest itself, or over a prevote
            22 => { p.signature = sign(&keys, &who, &p.proposal_hash.0).to_vec().into(); }
            23 => { let m = keccak_256(&ser(&It::L(vec![n(p.number as u128), n(p.round as u128), n(1), b(p.proposal_hash.as_bytes())]))); p.signature = sign(&keys, &who, &m).to_vec().into(); }
            24 => { let mut s = p.signature.to_vec(); let i = r.below(s.len() as u64) as usize; s[i] ^= 1 << r.below(8); p.signature = s.into(); }
            25 => { p.signature = r.blob(97).into(); }
            26 => { let mut m = p.bitmap.to_vec(); if !m.is_empty() { let i = r.below(m.len() as u64 * 8) as usize; m[i / 8] ^= 0x80 >> (i % 8); } p.bitmap = m.into(); }
            27 => { p.bitmap = r.blob(4).into(); }
            28 => { p.proposal_hash.0[31] ^= 1; p.signature = sign(&keys, &who, &vote(&p)).to_vec().into(); }
            // a broken key somewhere in the list
            29 => { if size > 0 { let i = r.below(size as u64) as usize; vs[i].bls = match r.below(3) { 0 => vec![], 1 => r.bytes(48), _ => { let mut x = vs[i].bls.clone(); x.pop(); x } }; } }
            // one more validator listed who did not vote
            30 => { let all = vs.len(); if all < keys.len() { let used: Vec<usize> = vs.iter().map(|v| v.secret).collect(); let s = (0..keys.len()).find(|i| !used.contains(i)).unwrap(); vs.push(V { secret: s, bls: keys[s].sk_to_pk().to_bytes().to_vec(), ident: vec![0xff; 33], weight: 1 }); } }
            // everyone voted, but with the bits from the other end
            31 => { let m: Vec<u8> = p.bitmap.iter().map(|x| x.reverse_bits()).collect(); p.bitmap = m.into(); }
            _ => {}
        }
        r.shuffle(&mut vs);
        d.push_str(&format!("validators {:?} change {} root {} proof {:?} block {:?}", vs.iter().map(|v| (v.secret, hex(&v.ident), hex(&v.bls), v.weight)).collect::<Vec<_>>(), change, hex(&root), p, k));
        let want = expected(&k, &root, &vs, &p, &keys);
        if change == 0 || change == 18 { ensure!(want == (3 * count > 2 * size), "the case is not what it was meant to be"); }
        let mut l = list(&vs);
        let got = verify_proof(k, root.into(), &mut l, p);
        ensure!(got.is_ok() == want, "verify_proof: got {:?}, expected {}", got, if want { "acceptance" } else { "rejection" });
        Ok(())
    });
    // every size and every count of voters
    h.once("thresholds", "all counts for 0..=12 validators", || {
        let mut r = Rng::new(5);
        for size in 0..=12usize { for count in 0..=size {
            let vs = setup(&mut r, &keys, size);
            let mut by = vs.clone(); by.sort_by(|a, b| a.ident.cmp(&b.ident));
            let k = block(&mut r); let root = h32(&mut r);
            let pos: Vec<usize> = (0..count).collect();
            let mut p = Proof { number: k.header.number, round: 0, proposal_hash: digest(&k, &root).into(), signature: vec![].into(), bitmap: bitmap(&pos, (size + 7) / 8).into() };
            p.signature = sign(&keys, &pos.iter().map(|i| by[*i].secret).collect::<Vec<_>>(), &vote(&p)).to_vec().into();
            let got = verify_proof(k, root.into(), &mut list(&vs), p).is_ok();
            ensure!(got == (3 * count > 2 * size), "{} of {} validators: accepted = {}", count, size, got);
        } }
        Ok(())
    });
    // lists longer than a byte counts
    h.check("many validators", 60, |r, d| {
        let size = *r.pick(&[16usize, 63, 84, 85, 86, 127, 128, 129, 170, 200, 255, 256, 257, 300, 384, 400]);
        let two_thirds = 2 * size / 3;
        let count = match r.below(5) { 0 => size, 1 => two_thirds, 2 => r.below(size as u64 + 1) as usize, _ => two_thirds + 1 };
        let mut vs: Vec<V> = setup(r, &keys, 1);
        let one = vs.remove(0);
        for i in 0..size { let mut v = one.clone(); v.secret = i % keys.len(); v.bls = keys[v.secret].sk_to_pk().to_bytes().to_vec(); v.ident = vec![2, (i >> 8) as u8, i as u8]; vs.push(v); }
        let mut pos: Vec<usize> = (0..size).collect();
        r.shuffle(&mut pos);
        pos.truncate(count);
        let k = block(r); let root = h32(r);
        let mut p = Proof { number: k.header.number, round: r.int(), proposal_hash: digest(&k, &root).into(), signature: vec![].into(), bitmap: bitmap(&pos, (size + 7) / 8).into() };
        p.signature = sign(&keys, &pos.iter().map(|i| vs[*i].secret).collect::<Vec<_>>(), &vote(&p)).to_vec().into();
        d.push_str(&format!("{} of {} validators sign, those at {:?}", count, size, pos));
        r.shuffle(&mut vs);
        let got = verify_proof(k, root.into(), &mut list(&vs), p).is_ok();
        ensure!(got == (3 * count > 2 * size), "{} of {} validators: accepted = {}", count, size, got);
        Ok(())
    });
    h.finish();
}
