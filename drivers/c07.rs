//@extern protocol=axon_protocol
#[path = "common.rs"] mod axv;
#[path = "gen.rs"] mod gen;
use axv::*;
use protocol::types::*;
fn main() {
    let mut h = H::new();
    h.check("may_cost", 20000, |r, d| {
        let t = gen::unsigned(r);
        *d = format!("{:?}", t);
        let (limit, price, prio, value, nonce) = match &t {
            UnsignedTransaction::Legacy(x) => (x.gas_limit, x.gas_price, x.gas_price, x.value, x.nonce),
            UnsignedTransaction::Eip2930(x) => (x.gas_limit, x.gas_price, x.gas_price, x.value, x.nonce),
            UnsignedTransaction::Eip1559(x) => (x.gas_limit, x.gas_price, x.max_priority_fee_per_gas, x.value, x.nonce),
        };
        let eff = if price > prio { price } else { prio };
        ensure_eq!(t.gas_price(), eff, "effective price");
        ensure_eq!(*t.gas_limit(), limit, "gas limit");
        ensure_eq!(*t.value(), value, "value");
        ensure_eq!(*t.nonce(), nonce, "nonce");
        ensure_eq!(*t.max_priority_fee_per_gas(), prio, "priority fee");
        let want = ethereum_types_512(limit.low_u64(), eff.low_u64(), value);
        match t.may_cost() { Ok(c) => ensure_eq!(c, want, "cost"), Err(e) => return Err(format!("rejected: {}", e)) }
        Ok(())
    });
    h.finish()
}
fn ethereum_types_512(l: u64, p: u64, v: U256) -> U256 { let (s, o) = U256::from(l as u128 * p as u128).overflowing_add(v); if o { U256::MAX } else { s } }
