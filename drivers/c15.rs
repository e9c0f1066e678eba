//@extern core_interoperation
#[path = "common.rs"] mod axv;
use axv::*;
use core_interoperation::{cycle_to_gas, gas_to_cycle};
const RATE: u64 = 6_000;
fn main() {
    let mut h = H::new();
    h.check("gas_round_trip", 20000, |r, d| {
        let g = match r.below(4) { 0 => r.int() % (u64::MAX / RATE + 1), 1 => u64::MAX / RATE - r.below(4), 2 => u64::MAX / RATE + r.below(4), _ => r.int() };
        *d = format!("gas {}", g);
        let c = gas_to_cycle(g);
        ensure_eq!(c as u128, (g as u128 * RATE as u128).min(u64::MAX as u128), "cycles");
        if g <= u64::MAX / RATE { ensure_eq!(cycle_to_gas(c), g, "gas back"); }
        let used = if r.bool() { r.below(c.saturating_add(1).max(1)) } else { c };
        let back = cycle_to_gas(used);
        ensure!(back <= g, "gas charged {} exceeds the gas given", back);
        Ok(())
    });
    h.check("cycle_to_gas", 20000, |r, d| {
        let c = r.int();
        *d = format!("cycles {}", c);
        let g = cycle_to_gas(c) as u128;
        ensure!(g * RATE as u128 <= c as u128 && (c as u128) < (g + 1) * RATE as u128, "got {}", g);
        Ok(())
    });
    h.finish()
}
