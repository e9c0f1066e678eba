//@extern protocol=axon_protocol core_executor core_mempool core_consensus core_storage core_db core_interoperation rlp rocksdb common_crypto common_merkle overlord ethers evm sha2 ripemd ckb_types ckb_hash ckb_traits bn=bn_ rug az
// C21: what a call of each precompiled contract costs and returns, through the real executor on a real state.
#[path = "common.rs"] mod axv;
#[path = "gen.rs"] mod gen;
#[path = "gen_tx.rs"] mod gen_tx;
#[path = "store.rs"] mod store;
#[path = "chain.rs"] mod chain;
use axv::*;
use chain::{Node, World, CHAIN};
use ckb_types::prelude::*;
use common_crypto::{PrivateKey as _, Secp256k1RecoverablePrivateKey, Signature as _};
use core_executor::{AxonExecutor, AxonExecutorApplyAdapter, AxonExecutorReadOnlyAdapter};
use core_interoperation::InteroperationImpl;
use ethers::abi::Token;
use protocol::traits::*;
use protocol::types::*;
use sha2::Digest as _;
use std::sync::Arc;

fn eip(n: u8) -> H160 { let mut a = [0; 20]; a[19] = n; H160(a) }
fn axon(n: u8) -> H160 { let mut a = [0; 20]; a[18] = 1; a[19] = n; H160(a) }
fn system(i: u8) -> H160 { let mut a = [0xff; 20]; a[19] = i; H160(a) }
fn u(n: u64) -> Token { Token::Uint(n.into()) }
fn b32(x: &[u8]) -> Token { Token::FixedBytes(x.to_vec()) }

/// a RISC-V program that loops as often as its first argument says (8 bytes) and exits with its second (a byte)
fn program() -> Vec<u8> {
    let ld = |rd: u32, rs: u32, imm: u32| imm << 20 | rs << 15 | 3 << 12 | rd << 7 | 3;
    let code = [
        ld(5, 2, 8), ld(6, 2, 16), ld(5, 5, 0), 6 << 15 | 4 << 12 | 10 << 7 | 3,
        beq(5, 0, 12),
        0xfff << 20 | 5 << 15 | 5 << 7 | 0x13, // addi x5, x5, -1
        beq(0, 0, -8),
        93 << 20 | 17 << 7 | 0x13, 0x73u32,
    ];
    let mut b = vec![0x7f, b'E', b'L', b'F', 2, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0];
    let total = 120 + 4 * code.len() as u64;
    for x in [2u16, 243] { b.extend_from_slice(&x.to_le_bytes()); }
    b.extend_from_slice(&1u32.to_le_bytes());
    for x in [0x10078u64, 64, 0] { b.extend_from_slice(&x.to_le_bytes()); }
    b.extend_from_slice(&0u32.to_le_bytes());
    for x in [64u16, 56, 1, 64, 0, 0] { b.extend_from_slice(&x.to_le_bytes()); }
    for x in [1u32, 5] { b.extend_from_slice(&x.to_le_bytes()); }
    for x in [0u64, 0x10000, 0x10000, total, total, 0x1000] { b.extend_from_slice(&x.to_le_bytes()); }
    for c in code { b.extend_from_slice(&c.to_le_bytes()); }
    b
}
fn beq(a: u32, b: u32, off: i32) -> u32 {
    let o = off as u32;
    (o >> 12 & 1) << 31 | (o >> 5 & 0x3f) << 25 | b << 20 | a << 15 | (o >> 1 & 0xf) << 8 | (o >> 11 & 1) << 7 | 0x63
}
fn cell_call(hash: H256, index: u32, data: &[u8]) -> Vec<u8> {
    use Token::*;
    let script = Tuple(vec![FixedBytes(vec![1; 32]), u(0), Bytes(vec![])]);
    let cell = Tuple(vec![Tuple(vec![FixedBytes(hash.as_bytes().to_vec()), u(index as u64)]), Tuple(vec![u(1000), script, Array(vec![])]), Bytes(data.to_vec())]);
    let block = Tuple(vec![u(1), Array(vec![]), Array(vec![cell])]);
    selector("update((uint64,(bytes32,uint32)[],((bytes32,uint32),(uint64,(bytes32,uint8,bytes),(bytes32,uint8,bytes)[]),bytes)[])[])", &[Array(vec![block])])
}
fn selector(sig: &str, args: &[Token]) -> Vec<u8> {
    let mut b = Hasher::digest(sig.as_bytes()).as_bytes()[..4].to_vec();
    b.extend_from_slice(&ethers::abi::encode(args));
    b
}
fn header(r: &mut Rng) -> (Vec<u8>, Token) {
    let hash: Vec<u8> = (0..32).map(|_| r.u64() as u8).collect();
    let mut f = vec![u(r.below(1 << 32)), u(r.below(1 << 32)), u(r.int()), u(r.int()), u(r.int())];
    for _ in 0..5 { f.push(b32(&r.bytes(32))); }
    f.push(Token::Uint(U256::from_big_endian(&r.bytes(16))));
    f.push(Token::Bytes(r.blob(80)));
    f.push(b32(&hash));
    (hash, Token::Tuple(f))
}
const CELL: (H256, u32) = (H256([0x77; 32]), 3);
struct Bench { w: World, n: Node, root: H256, at: Header, headers: Vec<(Vec<u8>, Token)> }
impl Bench {
    fn new() -> Bench {
        let mut r = Rng::new(77);
        let w = World::new("c21", &mut r, 1, 0);
        let n = w.node(0);
        let headers: Vec<_> = (0..6).map(|_| header(&mut r)).collect();
        let h = w.rt.block_on(n.store.get_latest_block_header(Context::new())).unwrap();
        let put = |to: u8, data: Vec<u8>| {
            let x = UnsignedTransaction::Legacy(LegacyTransaction { nonce: 0.into(), gas_price: 1.into(), gas_limit: 1_000_000.into(), value: 0.into(), action: TransactionAction::Call(system(to)), data: data.into() });
            SignedTransaction { transaction: UnverifiedTransaction { unsigned: x, signature: None, chain_id: Some(CHAIN), hash: H256::zero() }, sender: H160::zero(), public: None }
        };
        let all = Token::Array(headers.iter().map(|x| x.1.clone()).collect());
        let txs = [put(3, cell_call(CELL.0, CELL.1, &program())), put(2, selector("update((uint32,uint32,uint64,uint64,uint64,bytes32,bytes32,bytes32,bytes32,bytes32,uint128,bytes,bytes32)[])", &[all]))];
        let mut e = AxonExecutorApplyAdapter::from_root(h.state_root, Arc::clone(&w.trie), Arc::clone(&n.store), Proposal::new_without_state_root(&h).into()).unwrap();
        let resp = AxonExecutor.exec(&mut e, &txs, &[]);
        assert!(resp.tx_resp.iter().all(|x| x.exit_reason.is_succeed()), "the cell and the headers are stored: {:?}", resp.tx_resp);
        Bench { root: resp.state_root, at: h, w, n, headers }
    }
    fn call(&self, to: H160, data: &[u8], gas: u64) -> TxResp {
        let b = AxonExecutorReadOnlyAdapter::from_root(self.root, Arc::clone(&self.w.trie), Arc::clone(&self.n.store), Proposal::new_without_state_root(&self.at).into()).unwrap();
        AxonExecutor.call(&b, gas, Some(H160::repeat_byte(9)), Some(to), U256::zero(), data.to_vec(), false)
    }
    /// `want`: the output and the price, or none for an input that is refused
    fn check(&self, r: &mut Rng, to: H160, data: &[u8], want: Option<(Vec<u8>, u64)>) -> Result<(), String> {
        let least = want.as_ref().map_or(0, |x| x.1);
        self.check_with(r, to, data, want, least)
    }
    /// `least`: the gas it has to be given, its price or a little more
    fn check_with(&self, r: &mut Rng, to: H160, data: &[u8], want: Option<(Vec<u8>, u64)>, least: u64) -> Result<(), String> {
        let base = 21_000 + data.iter().map(|b| if *b == 0 { 4u64 } else { 16 }).sum::<u64>();
        match want {
            Some((out, cost)) => {
                let spare = if r.bool() { 0 } else { r.below(10_000_000) };
                let x = self.call(to, data, base + least + spare);
                ensure!(x.exit_reason.is_succeed(), "limit = {} + {}: {:?}, the price being {}", least, spare, x.exit_reason, cost);
                ensure_eq!(hex(&x.ret), hex(&out), "output");
                ensure_eq!(x.gas_used, base + cost, "gas used, less {} for the call itself", base);
                if cost > 0 {
                    let less = 1 + if r.bool() { 0 } else { r.below(cost) };
                    let x = self.call(to, data, base + cost - less);
                    ensure!(!x.exit_reason.is_succeed(), "ran for {} less gas than its price {}", less, cost);
                    ensure!(x.ret.is_empty(), "answered without being paid");
                }
            }
            None => {
                let x = self.call(to, data, base + 5_000_000 + r.below(1_000_000));
                ensure!(!x.exit_reason.is_succeed() && x.ret.is_empty(), "accepted: {:?} {}", x.exit_reason, hex(&x.ret));
            }
        }
        Ok(())
    }
}
fn words(n: usize) -> u64 { (n as u64 + 31) / 32 }
fn word(s: &[u8], at: usize) -> [u8; 32] { let mut w = [0; 32]; for i in 0..32 { w[i] = s.get(at + i).copied().unwrap_or(0); } w }
fn cut(r: &mut Rng, mut v: Vec<u8>) -> Vec<u8> {
    match r.below(6) { 0 => { let n = r.below(v.len() as u64 + 1) as usize; v.truncate(n); } 1 => { let n = r.below(70) as usize; v.extend(r.bytes(n)); } 2 => { while v.last() == Some(&0) { v.pop(); } } _ => {} }
    v
}

// ---- RFC 7693 ----
const SIGMA: [[usize; 16]; 10] = [
    [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15], [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3], [11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4],
    [7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8], [9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13], [2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
    [12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11], [13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10], [6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5],
    [10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0],
];
const IV: [u64; 8] = [0x6a09e667f3bcc908, 0xbb67ae8584caa73b, 0x3c6ef372fe94f82b, 0xa54ff53a5f1d36f1, 0x510e527fade682d1, 0x9b05688c2b3e6c1f, 0x1f83d9abfb41bd6b, 0x5be0cd19137e2179];
fn blake2f(s: &[u8]) -> Vec<u8> {
    let n = |at: usize| { let mut b = [0; 8]; b.copy_from_slice(&s[at..at + 8]); u64::from_le_bytes(b) };
    let rounds = (s[0] as usize) << 24 | (s[1] as usize) << 16 | (s[2] as usize) << 8 | s[3] as usize;
    let m: Vec<u64> = (0..16).map(|i| n(68 + 8 * i)).collect();
    let mut v: Vec<u64> = (0..8).map(|i| n(4 + 8 * i)).chain(IV.iter().copied()).collect();
    v[12] ^= n(196);
    v[13] ^= n(204);
    if s[212] == 1 { v[14] = !v[14]; }
    for i in 0..rounds {
        for (k, (a, b, c, d)) in [(0, 4, 8, 12), (1, 5, 9, 13), (2, 6, 10, 14), (3, 7, 11, 15), (0, 5, 10, 15), (1, 6, 11, 12), (2, 7, 8, 13), (3, 4, 9, 14)].iter().copied().enumerate() {
            for (j, (p, q)) in [(32, 24), (16, 63)].iter().copied().enumerate() {
                v[a] = v[a].wrapping_add(v[b]).wrapping_add(m[SIGMA[i % 10][2 * k + j]]);
                v[d] = (v[d] ^ v[a]).rotate_right(p);
                v[c] = v[c].wrapping_add(v[d]);
                v[b] = (v[b] ^ v[c]).rotate_right(q);
            }
        }
    }
    (0..8).flat_map(|i| (n(4 + 8 * i) ^ v[i] ^ v[i + 8]).to_le_bytes()).collect()
}

// ---- the curve, on the library's points ----
use bn::{AffineG1, AffineG2, Fq, Fq2, Fr, Group, G1, G2};
fn point(w: &[u8]) -> Option<G1> {
    let (x, y) = (Fq::from_slice(&w[..32]).ok()?, Fq::from_slice(&w[32..64]).ok()?);
    if x.is_zero() && y.is_zero() { return Some(G1::zero()); }
    AffineG1::new(x, y).ok().map(Into::into)
}
fn point2(w: &[u8]) -> Option<G2> {
    let f = |i: usize| Fq::from_slice(&w[32 * i..32 * i + 32]).ok();
    let (x, y) = (Fq2::new(f(1)?, f(0)?), Fq2::new(f(3)?, f(2)?));
    if x.is_zero() && y.is_zero() { return Some(G2::zero()); }
    AffineG2::new(x, y).ok().map(Into::into)
}
fn point_bytes(p: G1) -> Vec<u8> {
    let mut o = vec![0; 64];
    if let Some(a) = AffineG1::from_jacobian(p) { a.x().to_big_endian(&mut o[..32]).unwrap(); a.y().to_big_endian(&mut o[32..]).unwrap(); }
    o
}
const TWIST: [[&str; 4]; 4] = [
["1800deef121f1e76426a00665e5c4479674322d4f75edadd46debd5cd992f6ed", "198e9393920d483a7260bfb731fb5d25f1aa493335a9e71297e485b7aef312c2", "12c85ea5db8c6deb4aab71808dcb408fe3d1e7690c43d37b4ce6cc0166fa7daa", "090689d0585ff075ec9e99ad690c3395bc4b313370b38ef355acdadcd122975b"],
    ["27dc7234fd11d3e8c36c59277c3e6f149d5cd3cfa9a62aee49f8130962b4b3b9", "203e205db4f19b37b60121b83a7333706db86431c6d835849957ed8c3928ad79", "04bb53b8977e5f92a0bc372742c4830944a59b4fe6b1c0466e2a6dad122b5d2e", "195e8aa5b7827463722b8c153931579d3505566b4edf48d498e185f0509de152"],
    ["06064e784db10e9051e52826e192715e8d7e478cb09a5e0012defa0694fbc7f5", "1014772f57bb9742735191cd5dcfe4ebbc04156b6878a0a7c9824f32ffb66e85", "058e1d5681b5b9e0074b0f9c8d2c68a069b920d74521e79765036d57666c5597", "021e2335f3354bb7922ffcc2f38d3323dd9453ac49b55441452aeaca147711b2"],
    ["29dddbf86f6a2f47c38063a850ccc442131570e5084c45fd7709b4ddb436e22c", "290668479e567ad5a2485a93f976d784206f66f690a18c3f5a6d85c29571236f", "299f0af7f72b3a93ca7c3cc32443c83b05d041bd14276e5adca2546728bc37f7", "1e74a4bf519c267a5b16431b2413b00402d4d3b670c9414b8efff5bee661a8f6"],
];
const P: &str = "30644e72e131a029b85045b68181585d97816a916871ca8d3c208c16d87cfd47";
fn unhex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }
fn g1(r: &mut Rng) -> Vec<u8> {
    let k = { let mut b = [0u8; 32]; b[31] = r.u8(); if r.one_in(4) { b.copy_from_slice(&r.bytes(32)); b[0] = 0; } Fr::from_slice(&b).unwrap() };
    point_bytes(G1::one() * k)
}
fn g2(r: &mut Rng) -> Vec<u8> {
    let t = &TWIST[r.below(4) as usize];
    [t[1], t[0], t[3], t[2]].iter().flat_map(|x| unhex(x)).collect()
}
/// mostly a point; else not one
fn spoil(r: &mut Rng, v: &mut Vec<u8>) {
    let n = v.len() as u64 / 32;
    let at = 32 * r.below(n) as usize;
    match r.below(8) {
        0 => { let i = r.below(v.len() as u64) as usize; v[i] ^= 1 << r.below(8); }
        1 => { let p = unhex(P); v[at..at + 32].copy_from_slice(&p); }
        2 => { for b in v.iter_mut() { *b = 0; } }
        3 => { for b in v[at..at + 32].iter_mut() { *b = 0; } }
        4 => { let mut p = unhex(P); let mut c = 0u16; for i in (0..32).rev() { let s = p[i] as u16 + v[at + i] as u16 + c; p[i] = s as u8; c = s >> 8; } v[at..at + 32].copy_from_slice(&p); }
        _ => {}
    }
}

// ---- ModExp ----
fn big(s: &[u8], at: usize, n: usize) -> rug::Integer { rug::Integer::from_digits(&(0..n).map(|i| s.get(at.saturating_add(i)).copied().unwrap_or(0)).collect::<Vec<u8>>(), rug::integer::Order::MsfBe) }
fn bits(s: &[u8]) -> u128 { match s.iter().position(|b| *b != 0) { None => 0, Some(i) => (s.len() - i) as u128 * 8 - s[i].leading_zeros() as u128 } }
/// none: costs more than any limit
fn modexp(s: &[u8]) -> Option<(Vec<u8>, u64)> {
    let n = |k: usize| { let w = word(s, 32 * k); if w[..17].iter().any(|b| *b != 0) { u128::MAX >> 1 } else { let mut b = [0; 16]; b.copy_from_slice(&w[16..]); u128::from_be_bytes(b) } };
    let (b, e, m) = (n(0), n(1), n(2));
    if b == 0 && m == 0 { return Some((vec![], 200)); }
    if b.max(m) > 1 << 34 || e > 1 << 60 { return None; }
    let body = s.get(96..).unwrap_or(&[]);
    let head: Vec<u8> = (0..e.min(32) as usize).map(|i| body.get(b as usize + i).copied().unwrap_or(0)).collect();
    let it = (bits(&head).saturating_sub(1) + 8 * e.saturating_sub(32)).max(1);
    let w = (b.max(m) + 7) / 8;
    let gas = (w * w * it / 3).max(200);
    if gas > 20_000_000 { return None; }
    let (base, exp, modulo) = (big(body, 0, b as usize), big(body, b as usize, e as usize), big(body, (b + e) as usize, m as usize));
    let out = if modulo.is_zero() { vec![] } else { base.pow_mod(&exp, &modulo).unwrap().to_digits::<u8>(rug::integer::Order::MsfBe) };
    let mut v = vec![0; m as usize - out.len()];
    v.extend(out);
    Some((v, gas as u64))
}

#[derive(Clone)]
struct Program;
impl ckb_traits::CellDataProvider for Program {
    fn get_cell_data(&self, _: &ckb_types::packed::OutPoint) -> Option<ckb_types::bytes::Bytes> { Some(program().into()) }
    fn get_cell_data_hash(&self, _: &ckb_types::packed::OutPoint) -> Option<ckb_types::packed::Byte32> { None }
}
/// what the CKB VM itself counts
fn cycles(turns: u64, code: u8) -> u64 {
    let x = InteroperationImpl::call_ckb_vm(Context::new(), &Program, CellDep { tx_hash: H256::zero(), index: 0, dep_type: 0 }, &[turns.to_le_bytes().to_vec().into(), vec![code].into()], u64::MAX).unwrap();
    assert_eq!(x.exit_code, code as i8);
    x.cycles
}

fn main() {
    let mut h = H::new();
    let b = Bench::new();
    h.check("addresses", 300, |r, d| {
        let set: Vec<H160> = (1..=9).map(eip).chain([2, 4, 6, 7].iter().map(|n| axon(*n))).collect();
        let mut a = match r.below(4) { 0 => eip(r.below(20) as u8), 1 => axon(r.below(20) as u8), 2 => eip(r.u8()), _ => *r.pick(&set) };
        if r.one_in(4) { a.0[r.below(20) as usize] ^= 1 << r.below(8); }
        if a.0[0] == 0xff { return Ok(()); }
        let data = r.blob(10);
        *d = format!("call of {:?} with {}", a, hex(&data));
        let x = b.call(a, &data, 10_000_000);
        let base = 21_000 + data.iter().map(|b| if *b == 0 { 4u64 } else { 16 }).sum::<u64>();
        ensure_eq!(x.exit_reason.is_succeed() && x.gas_used == base, !set.contains(&a), "a call without effect ({:?}, gas {})", x.exit_reason, x.gas_used);
        Ok(())
    });
    h.check("hashes", 400, |r, d| {
        let s = r.blob(600);
        let k = r.below(4);
        *d = format!("contract {} of {}", k, hex(&s));
        let w = words(s.len());
        let (a, out, cost) = match k {
            0 => (eip(2), sha2::Sha256::digest(&s).to_vec(), 60 + 12 * w),
            1 => (eip(3), { let mut v = vec![0; 12]; v.extend(ripemd::Ripemd160::digest(&s)); v }, 600 + 120 * w),
            2 => (eip(4), s.clone(), 15 + 3 * w),
            _ => (axon(6), ckb_hash::blake2b_256(&s).to_vec(), 60 + 12 * w),
        };
        b.check(r, a, &s, Some((out, cost)))
    });
    h.check("ecrecover", 250, |r, d| {
        let k = gen_tx::key(r);
        let hash = r.bytes(32);
        let sig = k.sign_message(&common_crypto::HashValue::from_bytes_unchecked({ let mut a = [0; 32]; a.copy_from_slice(&hash); a })).to_bytes();
        let mut s = hash.clone();
        s.extend([0; 31]);
        s.push(27 + sig[64]);
        s.extend_from_slice(&sig[..64]);
        let mut want = vec![0; 12];
        want.extend_from_slice(gen_tx::account(&k).1.as_bytes());
        match r.below(9) {
            0 => { s[63] = match r.below(4) { 0 => sig[64], 1 => 26, 2 => 29, _ => 155 }; want = vec![]; }
            1 => { let i = if r.bool() { *r.pick(&[32usize, 62]) } else { r.range(32, 62) as usize }; s[i] = 1 + r.u8() % 255; want = vec![]; }
            2 => { for i in 64..96 { s[i] = 0; } want = vec![]; }
            3 => { for i in 96..128 { s[i] = 0; } want = vec![]; }
            4 => { for i in 64..96 { s[i] = 0xff; } want = vec![]; }
            5 => { for i in 96..128 { s[i] = 0xff; } want = vec![]; }
            6 => { let n = r.range(1, 60) as usize; s.extend(r.bytes(n)); }
            7 => { let n = r.below(97) as usize; s.truncate(n); want = vec![]; }
            _ => { if r.bool() { while s.last() == Some(&0) { s.pop(); } } }
        }
        *d = format!("input {}", hex(&s));
        b.check(r, eip(1), &s, Some((want, 3000)))
    });
    h.check("ec_add", 120, |r, d| {
        let (mut p, mut q) = (g1(r), g1(r));
        match r.below(6) { 0 => q = p.clone(), 1 => q = vec![0; 64], 2 => spoil(r, &mut p), 3 => spoil(r, &mut q), _ => {} }
        p.extend(q);
        let s = cut(r, p);
        *d = format!("input {}", hex(&s));
        let w: Vec<u8> = (0..4).flat_map(|i| word(&s, 32 * i)).collect();
        let want = match (point(&w), point(&w[64..])) { (Some(p), Some(q)) => Some((point_bytes(p + q), 150)), _ => None };
        b.check(r, eip(6), &s, want)
    });
    h.check("ec_mul", 60, |r, d| {
        let mut p = g1(r);
        if r.one_in(3) { spoil(r, &mut p); }
        p.extend(match r.below(4) { 0 => vec![0; 32], 1 => { let mut v = vec![0; 32]; v[31] = r.u8(); v } 2 => vec![0xff; 32], _ => r.bytes(32) });
        let s = cut(r, p);
        *d = format!("input {}", hex(&s));
        let w: Vec<u8> = (0..3).flat_map(|i| word(&s, 32 * i)).collect();
        let want = point(&w).map(|p| (point_bytes(p * Fr::from_slice(&w[64..]).unwrap()), 6000));
        b.check(r, eip(7), &s, want)
    });
    h.check("ec_pairing", 80, |r, d| {
        let n = r.below(4) as usize;
        let mut s = vec![];
        for _ in 0..n {
            let (mut p, mut q) = (g1(r), g2(r));
            match r.below(8) { 0 => spoil(r, &mut p), 1 => spoil(r, &mut q), 2 => p = vec![0; 64], 3 => q = vec![0; 128], _ => {} }
            s.extend(p);
            s.extend(q);
        }
        match r.below(6) { 0 => { let n = r.below(s.len() as u64 + 1) as usize; s.truncate(n); } 1 => { let n = r.range(1, 200) as usize; s.extend(vec![0; n]); } _ => {} }
        *d = format!("input {}", hex(&s));
        let pairs: Option<Vec<_>> = if s.len() % 192 != 0 { None } else { s.chunks(192).map(|c| Some((point(c)?, point2(&c[64..])?))).collect() };
        let want = pairs.map(|v| { let mut o = vec![0; 32]; o[31] = (v.is_empty() || bn::pairing_batch(&v) == bn::Gt::one()) as u8; (o, 45_000 + 34_000 * (s.len() / 192) as u64) });
        b.check(r, eip(8), &s, want)
    });
    h.check("blake2f", 150, |r, d| {
        let mut s = r.bytes(213);
        let n = match r.below(4) { 0 => r.below(3), 1 => r.range(8, 14), 2 => r.below(700), _ => 12 };
        s[..4].copy_from_slice(&(n as u32).to_be_bytes());
        s[212] = match r.below(6) { 0 => r.u8(), k => (k % 2) as u8 };
        match r.below(10) { 0 => { s.pop(); } 1 => s.push(0), 2 => { let n = r.below(213) as usize; s.truncate(n); } _ => {} }
        *d = format!("input {}", hex(&s));
        let want = if s.len() == 213 && s[212] < 2 { Some((blake2f(&s), n)) } else { None };
        b.check(r, eip(9), &s, want)
    });
    h.check("modexp", 250, |r, d| {
        let mut size = |r: &mut Rng| match r.below(8) { 0 => 0, 1 => 1, 2 => 32, 3 => r.range(31, 34), 4 => r.range(60, 70), _ => r.below(12) };
        let (x, e, m) = (size(r), size(r), size(r));
        let mut s = vec![];
        for n in [x, e, m] { let mut w = [0; 32]; w[24..].copy_from_slice(&n.to_be_bytes()); if r.one_in(40) { let i = r.below(32) as usize; w[i] = 1 << r.below(8); } s.extend_from_slice(&w); }
        for n in [x, e, m] { let v = if r.one_in(4) { vec![0; n as usize] } else if r.one_in(4) { let mut v = vec![0; n as usize]; if let Some(l) = v.last_mut() { *l = r.below(4) as u8; } v } else { r.bytes(n as usize) }; s.extend(v); }
        let s = cut(r, s);
        *d = format!("input {}", hex(&s));
        match modexp(&s) { Some((_, g)) if g > 3_000_000 => Ok(()), w => b.check(r, eip(5), &s, w) }
    });
    h.check("cmbt", 150, |r, d| {
        use ckb_types::packed::Byte32;
        use ckb_types::utilities::{merkle_root, CBMT};
        let n = r.range(1, 9) as usize;
        let leaves: Vec<Byte32> = (0..n).map(|_| { let mut a = [0u8; 32]; a.copy_from_slice(&(0..32).map(|_| r.u8()).collect::<Vec<_>>()); a.pack() }).collect();
        let mut which: Vec<u32> = (0..n as u32).collect();
        r.shuffle(&mut which);
        which.truncate(r.range(1, n as u64) as usize);
        let proof = CBMT::build_merkle_proof(&leaves, &which).unwrap();
        let mut chosen: Vec<Byte32> = which.iter().map(|i| leaves[*i as usize].clone()).collect();
        let mine = merkle_root(&leaves);
        let other: Byte32 = { let mut a = [0u8; 32]; a[r.below(32) as usize] = r.u8(); a.pack() };
        let kind = r.below(3).min(1) as u8 * (1 + r.u8() % 255);
        let (raw, wit) = if kind == 0 { (mine.clone(), other.clone()) } else { (other.clone(), mine.clone()) };
        let mut root = merkle_root(&[raw.clone(), wit.clone()]);
        let mut indices = proof.indices().to_vec();
        let mut lemmas = proof.lemmas().to_vec();
        let (mut raw, mut wit, mut kind, mut good) = (raw, wit, kind, true);
        match r.below(14) {
            0 => { root = other.clone(); good = false; }
            1 => { std::mem::swap(&mut raw, &mut wit); good = false; }
            2 => { kind = if kind == 0 { 1 } else { 0 }; good = mine == other; }
            3 => { chosen[0] = other.clone(); good = false; }
            4 => { chosen.push(other.clone()); good = false; }
            5 => { lemmas.push(other.clone()); good = false; }
            6 => { if lemmas.pop().is_some() { good = false; } }
            7 => { let k = r.range(1, 3) as usize; indices = vec![u32::MAX; k]; chosen = vec![other.clone(); k]; good = false; }
            8 => { chosen.clear(); indices.clear(); good = false; }
            _ => { if r.bool() { r.shuffle(&mut chosen); } }
        }
        let arr = |v: &[Byte32]| Token::Array(v.iter().map(|x| b32(x.as_slice())).collect());
        let p = Token::Tuple(vec![Token::Array(indices.iter().map(|i| u(*i as u64)).collect()), arr(&lemmas), arr(&chosen)]);
        let mut s = ethers::abi::encode(&[Token::Tuple(vec![u(kind as u64), b32(root.as_slice()), b32(wit.as_slice()), b32(raw.as_slice()), p])]);
        if r.one_in(12) { let n = r.below(s.len() as u64) as usize; s.truncate(n); good = false; }
        *d = format!("{}: input {}", if good { "good" } else { "bad" }, hex(&s));
        b.check(r, axon(7), &s, if good { Some((vec![1], 56_000)) } else { None })
    });
    h.check("get_header", 60, |r, d| {
        let k = r.below(b.headers.len() as u64) as usize;
        let (mut s, t) = b.headers[k].clone();
        let mut good = true;
        match r.below(6) { 0 => { s[r.below(32) as usize] ^= 1 << r.below(8); good = b.headers.iter().any(|x| x.0 == s); } 1 => { let n = r.below(32) as usize; s.truncate(n); good = false; } _ => {} }
        *d = format!("header {} by {}", k, hex(&s));
        b.check(r, axon(2), &s, if good { Some((ethers::abi::encode(&[t]), 42_000)) } else { None })
    });
    h.check("call_ckb_vm", 120, |r, d| {
        let turns = match r.below(4) { 0 => 0, 1 => r.below(100), 2 => r.range(700_000, 800_000), _ => r.below(3_000_000) };
        let code = r.u8();
        let (mut hash, mut index, mut good) = (CELL.0, CELL.1, true);
        match r.below(10) { 0 => { hash = gen::h256(r); good = false; } 1 => { index += 1; good = false; } _ => {} }
        let args = vec![turns.to_le_bytes().to_vec(), vec![code]];
        let mut s = ethers::abi::encode(&[Token::Tuple(vec![Token::Tuple(vec![Token::Tuple(vec![b32(hash.as_bytes()), u(index as u64)]), u(r.below(2))]), Token::Array(args.iter().map(|a| Token::Bytes(a.clone())).collect())])]);
        if r.one_in(10) { let n = r.below(s.len() as u64) as usize; s.truncate(n); good = false; }
        *d = format!("{} turns, exit {}: input {}", turns, code as i8, hex(&s));
        let cycles = cycles(turns, code);
        ensure_eq!(cycles, 513 + 7 * turns, "cycles of the program");
        b.check_with(r, axon(4), &s, if good { Some((vec![code], (cycles / 6000).max(500))) } else { None }, ((cycles + 5999) / 6000).max(500))?;
        if good && r.one_in(8) {
            let x = b.call(axon(4), &s, *r.pick(&[u64::MAX, u64::MAX / 6000 + 50_000, u64::MAX / 2]));
            ensure!(x.exit_reason.is_succeed() && x.ret == vec![code], "with more gas than cycles can be counted: {:?}", x.exit_reason);
        }
        Ok(())
    });
    h.finish()
}
