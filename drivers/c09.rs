//@extern protocol=axon_protocol common_config_parser
// C09: the list of hard forks under every kind of announcement; the flags of configured names.
#[path = "common.rs"] mod axv;
use axv::*;
use common_config_parser::types::spec::{HardforkInput, HardforkName};
use protocol::types::{HardforkInfo, HardforkInfoInner, H256};
fn flags(r: &mut Rng) -> H256 { let mut f = H256::zero(); for _ in 0..r.below(4) { let b = if r.bool() { 24 + r.below(2) } else { r.below(32) } as usize; f.0[b] |= 1 << r.below(8); } f }
fn or(a: H256, b: H256) -> H256 { let mut c = a; for i in 0..32 { c.0[i] |= b.0[i]; } c }
fn main() {
    let mut h = H::new();
    h.check("announcements", 6000, |r, d| {
        let mut l = HardforkInfo { inner: vec![] };
        let mut at = r.below(5);
        let mut want: Vec<(u64, H256)> = vec![];
        for _ in 0..r.range(1, 10) {
            let n = match r.below(8) { 0 | 1 => at, 2 => at.saturating_sub(r.range(1, 3)), 3 => r.int() >> 1, _ => at + r.range(1, 5) };
            let f = match (r.below(4), want.last()) { (0, Some(x)) => { let mut g = x.1; g.0[24] = 0; g } (1, Some(x)) => or(x.1, flags(r)), _ => flags(r) };
            d.push_str(&format!("{}:{} ", n, hex(&f.0)));
            let a = HardforkInfoInner { block_number: n, flags: f };
            match want.last().copied() {
                None => want.push((n, f)),
                Some((m, g)) => if or(f, g) != g && n >= m { if n == m { want.last_mut().unwrap().1 = or(f, g) } else { want.push((n, or(f, g))) } }
            }
            l.push(a);
            at = want.last().unwrap().0;
            let got: Vec<(u64, H256)> = l.inner.iter().map(|x| (x.block_number, x.flags)).collect();
            ensure_eq!(got, want, "list after the announcements");
        }
        Ok(())
    });
    h.check("configured names", 300, |r, d| {
        let n = r.below(5);
        let names: Vec<HardforkName> = (0..n).map(|_| if r.bool() { HardforkName::None } else { HardforkName::Andromeda }).collect();
        let at = r.int();
        d.push_str(&format!("{:?} at {}", names, at));
        let mut want = [0u8; 32];
        if names.is_empty() || names.contains(&HardforkName::Andromeda) { want[24] = 1; }
        let got: HardforkInfoInner = HardforkInput { block_number: at, hardforks: names }.into();
        ensure_eq!(got.block_number, at, "height");
        ensure_eq!(got.flags, H256(want), "flags");
        ensure_eq!(HardforkName::all(), 1, "all names");
        Ok(())
    });
    h.finish();
}
