//@include head.rs
// C15: gas and cycles.
//@item core/interoperation/src/lib.rs :: const GAS_TO_CYCLE_COEF
//@end
//@fn core/interoperation/src/lib.rs :: fn gas_to_cycle
//@ ret r
//@ spec
    ensures r == if gas * 6000 <= u64::MAX { (gas * 6000) as u64 } else { u64::MAX },
//@end
//@fn core/interoperation/src/lib.rs :: fn cycle_to_gas
//@ ret r
//@ spec
    ensures r == cycle / 6000,
//@end
fn charged_never_exceeds_given(gas: u64, used: u64)
{
    let budget = gas_to_cycle(gas);
    if used <= budget {
        let charged = cycle_to_gas(used);
        assert(charged <= gas);
        assert(charged * 6000 <= used < (charged + 1) * 6000);
    }
}
}
fn main() {}
