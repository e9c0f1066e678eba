//@extern protocol=axon_protocol ckb_types ckb_traits core_interoperation
// C34: calls into CKB programs, and the CKB forms of cells, out points and scripts, against their molecule layout.
#[path = "common.rs"] mod axv;
#[path = "gen.rs"] mod gen;
use axv::*;
use ckb_types::{packed, prelude::*};
use core_interoperation::{gas_to_cycle, cycle_to_gas, BlockchainType, InteroperationImpl};
use protocol::traits::{Context, Interoperation};
use protocol::types::{Bytes, CellDep, OutPoint, Script, H256};
use std::cell::RefCell;
use std::collections::HashMap;

fn elf(code: &[u32]) -> Bytes {
    let mut b = vec![0x7f, b'E', b'L', b'F', 2, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0];
    let total = 120 + 4 * code.len() as u64;
    for x in [2u16, 243] { b.extend_from_slice(&x.to_le_bytes()); }
    b.extend_from_slice(&1u32.to_le_bytes());
    for x in [0x10078u64, 64, 0] { b.extend_from_slice(&x.to_le_bytes()); }
    b.extend_from_slice(&0u32.to_le_bytes());
    for x in [64u16, 56, 1, 64, 0, 0] { b.extend_from_slice(&x.to_le_bytes()); }
    for x in [1u32, 5] { b.extend_from_slice(&x.to_le_bytes()); }
    for x in [0u64, 0x10000, 0x10000, total, total, 0x1000] { b.extend_from_slice(&x.to_le_bytes()); }
    for c in code { b.extend_from_slice(&c.to_le_bytes()); }
    b.into()
}
fn load(w: u32, rd: u32, rs: u32, imm: u32) -> u32 { imm << 20 | rs << 15 | w << 12 | rd << 7 | 3 }
fn addi(rd: u32, rs: u32, imm: i32) -> u32 { (imm as u32) << 20 | rs << 15 | rd << 7 | 0x13 }
fn beq(a: u32, b: u32, off: i32) -> u32 {
    let o = off as u32;
    (o >> 12 & 1) << 31 | (o >> 5 & 0x3f) << 25 | b << 20 | a << 15 | (o >> 1 & 0xf) << 8 | (o >> 11 & 1) << 7 | 0x63
}
const ECALL: u32 = 0x73;
/// exits with the first bytes of its arguments, each three times as heavy as the one after it
fn first_bytes() -> Bytes {
    elf(&[load(3, 5, 2, 0), addi(6, 2, 8), addi(10, 0, 0),
        beq(5, 0, 36), load(3, 7, 6, 0), load(4, 7, 7, 0),
        1 << 20 | 10 << 15 | 1 << 12 | 28 << 7 | 0x13, // slli x28, x10, 1
        28 << 20 | 10 << 15 | 10 << 7 | 0x33, // add x10, x10, x28
        7 << 20 | 10 << 15 | 10 << 7 | 0x33, // add x10, x10, x7
        addi(6, 6, 8), addi(5, 5, -1), beq(0, 0, -32),
        addi(17, 0, 93), ECALL])
}
/// loops as often as its first argument says and exits with its second
fn loops() -> Bytes { elf(&[load(3, 5, 2, 8), load(3, 6, 2, 16), load(3, 5, 5, 0), load(4, 10, 6, 0), beq(5, 0, 12), addi(5, 5, -1), beq(0, 0, -8), addi(17, 0, 93), ECALL]) }
/// exits with the leading zeroes of its first argument's first byte: an instruction of the B extension
fn zeroes() -> Bytes { elf(&[load(3, 5, 2, 8), load(4, 5, 5, 0), 0x60001013 | 5 << 15 | 10 << 7, addi(17, 0, 93), ECALL]) }
#[derive(Default)]
struct Cells { m: HashMap<(H256, u32), Bytes>, asked: RefCell<Vec<(H256, u32)>> }
impl ckb_traits::CellDataProvider for Cells {
    fn get_cell_data(&self, o: &packed::OutPoint) -> Option<ckb_types::bytes::Bytes> {
        let b = o.as_slice();
        let k = (H256::from_slice(&b[..32]), u32::from_le_bytes(b[32..].try_into().unwrap()));
        self.asked.borrow_mut().push(k);
        self.m.get(&k).cloned()
    }
    fn get_cell_data_hash(&self, _: &packed::OutPoint) -> Option<packed::Byte32> { None }
}
fn call(c: &Cells, dep: CellDep, args: &[Bytes], max: u64) -> Result<(i8, u64), String> {
    InteroperationImpl::call_ckb_vm(Context::new(), c, dep, args, max).map(|r| (r.exit_code, r.cycles)).map_err(|e| e.to_string())
}
fn main() {
    let mut h = H::new();
    h.check("program", 2500, |r, d| {
        let mut c = Cells::default();
        let hash = gen::h256(r);
        let ix = match r.below(3) { 0 => 0, 1 => r.below(4) as u32, _ => r.int() as u32 };
        let other = match r.below(3) { 0 => (hash, ix.wrapping_add(1)), 1 => (hash, ix.swap_bytes() ^ 1), _ => (H256::from_low_u64_be(r.u64()), ix) };
        let dep = CellDep { tx_hash: hash, index: ix, dep_type: r.below(3) as u8 };
        let args: Vec<Bytes> = (0..r.below(6)).map(|_| { let n = r.below(40) as usize; r.bytes(n).into() }).collect();
        *d = format!("{:?} with {} arguments {:?}", dep, args.len(), args.iter().map(|a| hex(a)).collect::<Vec<_>>());
        c.m.insert(other, elf(&[addi(10, 0, 99), addi(17, 0, 93), ECALL]));
        let e = call(&c, dep.clone(), &args, u64::MAX);
        ensure!(matches!(&e, Err(s) if s.contains("Cannot get program")), "a cell that is not there: {:?}", e);
        c.m.insert((hash, ix), first_bytes());
        c.asked.borrow_mut().clear();
        let (code, n) = call(&c, dep.clone(), &args, u64::MAX)?;
        ensure_eq!(*c.asked.borrow(), vec![(hash, ix)], "cells read");
        let want = args.iter().fold(0u8, |a, x| a.wrapping_mul(3).wrapping_add(x.first().copied().unwrap_or(0)));
        ensure_eq!(code, want as i8, "exit code");
        ensure_eq!(n, 508 + 16 * args.len() as u64, "cycles");
        // the limit: what it takes is enough, one less is not
        ensure_eq!(call(&c, dep.clone(), &args, n), Ok((code, n)), "with exactly the cycles it takes");
        if n > 0 { let k = n - 1 - if r.bool() { 0 } else { r.below(n) }; ensure!(call(&c, dep.clone(), &args, k).is_err(), "{} cycles, limit {}", n, k); }
        Ok(())
    });
    h.check("limit", 250, |r, d| {
        let mut c = Cells::default();
        let dep = CellDep { tx_hash: gen::h256(r), index: r.int() as u32, dep_type: 0 };
        c.m.insert((dep.tx_hash, dep.index), loops());
        let (t, code) = (if r.one_in(8) { r.below(2_000_000) } else { r.below(20_000) }, r.u8());
        let args = |t: u64| -> Vec<Bytes> { vec![t.to_le_bytes().to_vec().into(), vec![code].into()] };
        *d = format!("{} turns, exit {}", t, code);
        let (x, n) = call(&c, dep.clone(), &args(t), u64::MAX)?;
        ensure_eq!(x, code as i8, "exit code");
        let max = r.below(2 * n + 2);
        match call(&c, dep.clone(), &args(t), max) { Ok(y) => ensure!(y == (x, n) && n <= max, "{:?} with the limit {}", y, max), Err(_) => ensure!(max < n, "stopped at {} of {} cycles", max, n) }
        // a longer run takes more cycles, and one that is too long ends
        let (_, m) = call(&c, dep.clone(), &args(t + 1 + r.below(50)), u64::MAX)?;
        ensure!(m > n, "{} cycles for more turns than {}", m, n);
        ensure_eq!(n, 513 + 7 * t, "cycles");
        ensure!(call(&c, dep.clone(), &args(50_000_000), r.below(3_000_000)).is_err(), "a run of 350 million cycles");
        Ok(())
    });
    h.check("instructions", 256, |r, d| {
        let mut c = Cells::default();
        let dep = CellDep { tx_hash: gen::h256(r), index: 1, dep_type: 1 };
        c.m.insert((dep.tx_hash, 1), zeroes());
        let b = r.u8();
        *d = format!("{}", b);
        ensure_eq!(call(&c, dep, &[vec![b].into()], u64::MAX)?.0, (b as u64).leading_zeros() as i8, "leading zeroes of {}", b);
        Ok(())
    });
    h.check("broken_program", 600, |r, d| {
        let mut c = Cells::default();
        let dep = CellDep { tx_hash: gen::h256(r), index: 1, dep_type: 1 };
        let mut p = match r.below(3) { 0 => first_bytes().to_vec(), 1 => loops().to_vec(), _ => { let n = r.below(200) as usize; r.bytes(n) } };
        if r.bool() { let n = p.len(); p.truncate(r.below(n as u64 + 1) as usize); } else if !p.is_empty() { let i = r.below(p.len().min(64) as u64) as usize; p[i] = r.u8(); }
        *d = hex(&p);
        c.m.insert((dep.tx_hash, 1), p.into());
        if let Ok((_, n)) = call(&c, dep, &[vec![0u8; 8].into(), vec![1].into()], 100_000) { ensure!(n <= 100_000, "{} cycles", n); }
        Ok(())
    });
    h.check("forms", 4000, |r, d| {
        let dep = CellDep { tx_hash: gen::h256(r), index: r.int() as u32, dep_type: if r.bool() { r.below(2) as u8 } else { r.u8() } };
        let p: packed::CellDep = (&dep).into();
        *d = format!("{:?}", dep);
        let mut want = dep.tx_hash.as_bytes().to_vec();
        want.extend_from_slice(&dep.index.to_le_bytes());
        ensure_eq!(hex(p.out_point().as_slice()), hex(&want), "out point");
        ensure_eq!(OutPoint::from(&p.out_point()), OutPoint { tx_hash: dep.tx_hash, index: dep.index }, "out point back");
        want.push(dep.dep_type);
        ensure_eq!(hex(p.as_slice()), hex(&want), "cell dep");
        let s = Script { code_hash: gen::h256(r), args: gen::blob(r), hash_type: if r.bool() { r.below(3) as u8 } else { r.u8() } };
        *d = format!("{:?}", s);
        let p: packed::Script = (&s).into();
        let n = s.args.len() as u32;
        let mut want = vec![];
        for x in [16 + 32 + 1 + 4 + n, 16, 48, 49] { want.extend_from_slice(&x.to_le_bytes()); }
        want.extend_from_slice(s.code_hash.as_bytes());
        want.push(s.hash_type);
        want.extend_from_slice(&n.to_le_bytes());
        want.extend_from_slice(&s.args);
        ensure_eq!(hex(p.as_slice()), hex(&want), "script");
        ensure_eq!(s.len(), 33 + n as usize, "length of a script");
        Ok(())
    });
    h.finish();
}
