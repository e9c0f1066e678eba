//@extern axon_tools ckb_types
// C14: the library's check of a CKB transaction's proof, against trees built by the ckb crate.
#[path = "common.rs"] mod axv;
use axon_tools::precompile::{verify_proof, Proof, VerifyProofPayload};
use axv::*;
use ckb_types::packed::Byte32;
use ckb_types::prelude::*;
use ckb_types::utilities::{merkle_root, CBMT};
fn b32(r: &mut Rng) -> Byte32 { let mut a = [0u8; 32]; for x in a.iter_mut() { *x = r.u8() } a.pack() }
fn raw(b: &Byte32) -> [u8; 32] { let mut a = [0u8; 32]; a.copy_from_slice(b.as_slice()); a }
fn main() {
    let mut h = H::new();
    h.check("ckb_proof", 1500, |r, d| {
        let n = r.range(1, 12) as usize;
        let leaves: Vec<Byte32> = (0..n).map(|_| b32(r)).collect();
        let mut which: Vec<u32> = (0..n as u32).collect();
        r.shuffle(&mut which);
        which.truncate(r.range(1, n as u64) as usize);
        let proof = CBMT::build_merkle_proof(&leaves, &which).ok_or("no proof")?;
        let mut chosen: Vec<Byte32> = which.iter().map(|i| leaves[*i as usize].clone()).collect();
        let (mine, other) = (merkle_root(&leaves), b32(r));
        let mut kind = if r.bool() { 0 } else { r.range(1, 255) as u8 };
        let (mut a, mut w) = if kind == 0 { (mine.clone(), other.clone()) } else { (other.clone(), mine.clone()) };
        let mut root = merkle_root(&[a.clone(), w.clone()]);
        let (mut indices, mut lemmas) = (proof.indices().to_vec(), proof.lemmas().to_vec());
        let mut good = true;
        let how = r.below(16);
        match how {
            0 => { root = other.clone(); good = false; }
            1 => { std::mem::swap(&mut a, &mut w); good = false; }
            2 => { kind = if kind == 0 { r.range(1, 255) as u8 } else { 0 }; good = false; }
            3 => { let i = r.below(chosen.len() as u64) as usize; chosen[i] = other.clone(); good = false; }
            4 => { chosen.push(other.clone()); good = false; }
            5 => { lemmas.push(other.clone()); good = false; }
            6 => { if lemmas.pop().is_some() { good = false; } }
            7 => { let k = r.range(1, 3) as usize; indices = vec![u32::MAX; k]; chosen = vec![other.clone(); k]; good = false; }
            8 => { chosen.clear(); indices.clear(); good = false; }
            9 => { root = merkle_root(&[w.clone(), a.clone()]); good = false; }
            10 => { if indices[0] > 0 { let i = r.below(indices.len() as u64) as usize; indices[i] = u32::MAX; good = false; } }
            11 => { if !lemmas.is_empty() { let i = r.below(lemmas.len() as u64) as usize; lemmas[i] = other.clone(); good = false; } }
            _ => r.shuffle(&mut chosen),
        }
        let p = VerifyProofPayload { verify_type: kind, transactions_root: raw(&root), witnesses_root: raw(&w), raw_transactions_root: raw(&a), proof: Proof { indices, lemmas: lemmas.iter().map(raw).collect(), leaves: chosen.iter().map(raw).collect() } };
        *d = format!("kind of change {}: {:?}", how, p);
        ensure_eq!(verify_proof(p).is_ok(), good, "accepted");
        Ok(())
    });
    h.finish()
}
