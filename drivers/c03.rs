//@extern protocol=axon_protocol
#[path = "common.rs"] mod axv;
use axv::*;
use protocol::types::*;
fn main() {
    let mut h = H::new();
    let max = (u64::MAX - 36) / 2;
    h.check("v_round_trip", 20000, |r, d| {
        let p = r.below(2) as u8;
        let c = match r.below(5) { 0 => None, 1 => Some(max - r.below(3)), _ => Some(r.int().min(max)) };
        *d = format!("parity {} chain id {:?}", p, c);
        let s = SignatureComponents { r: Bytes::from(vec![1; 32]), s: Bytes::from(vec![2; 32]), standard_v: p };
        let v = s.add_chain_replay_protection(c);
        let want = p as u128 + match c { Some(i) => i as u128 * 2 + 35, None => 27 };
        ensure_eq!(v as u128, want, "v");
        ensure_eq!(SignatureComponents::extract_standard_v(v), Some(p), "recovery id from v {}", v);
        ensure_eq!(SignatureComponents::extract_chain_id(v), c, "chain id from v {}", v);
        Ok(())
    });
    h.check("v_decode", 20000, |r, d| {
        let v = if r.bool() { r.below(70) } else if r.one_in(4) { u64::MAX - r.below(3) } else { r.int() };
        *d = format!("v {}", v);
        let p = SignatureComponents::extract_standard_v(v);
        let c = SignatureComponents::extract_chain_id(v);
        let (wp, wc) = match v { 27 => (Some(0), None), 28 => (Some(1), None), v if v >= 35 => (Some(((v - 35) % 2) as u8), Some((v - 35) / 2)), _ => (None, None) };
        ensure_eq!(p, wp, "recovery id");
        ensure_eq!(c, wc, "chain id");
        Ok(())
    });
    h.finish()
}
