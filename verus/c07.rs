//@include head.rs
//@include num.rs
// C07: what a transaction may cost.
pub struct ProtocolError;
pub enum TypesError { PrepayGasIsTooLarge }
impl From<TypesError> for ProtocolError { #[verifier::external_body] fn from(e: TypesError) -> ProtocolError { unimplemented!() } }
pub type ProtocolResult<T> = Result<T, ProtocolError>;
pub struct TransactionAction;
pub struct Bytes;
pub struct AccessListItem;
pub type AccessList = Vec<AccessListItem>;
//@item protocol/src/types/transaction.rs :: struct LegacyTransaction
//@end
//@item protocol/src/types/transaction.rs :: struct Eip2930Transaction
//@end
//@item protocol/src/types/transaction.rs :: struct Eip1559Transaction
//@end
//@item protocol/src/types/transaction.rs :: enum UnsignedTransaction
//@end
// the statement's terms, read off the transaction types
pub open spec fn spec_limit(t: UnsignedTransaction) -> nat {
    match t { UnsignedTransaction::Legacy(x) => x.gas_limit@, UnsignedTransaction::Eip2930(x) => x.gas_limit@, UnsignedTransaction::Eip1559(x) => x.gas_limit@ }
}
pub open spec fn spec_value(t: UnsignedTransaction) -> nat {
    match t { UnsignedTransaction::Legacy(x) => x.value@, UnsignedTransaction::Eip2930(x) => x.value@, UnsignedTransaction::Eip1559(x) => x.value@ }
}
pub open spec fn spec_price(t: UnsignedTransaction) -> nat {
    match t { UnsignedTransaction::Legacy(x) => x.gas_price@, UnsignedTransaction::Eip2930(x) => x.gas_price@,
        UnsignedTransaction::Eip1559(x) => if x.gas_price@ >= x.max_priority_fee_per_gas@ { x.gas_price@ } else { x.max_priority_fee_per_gas@ } }
}
pub open spec fn spec_cost(t: UnsignedTransaction) -> nat {
    let c = spec_limit(t) * spec_price(t) + spec_value(t);
    if c < pow256() { c } else { (pow256() - 1) as nat }
}
proof fn price_times_limit_fits(p: nat, l: nat)
    requires p < pow64(), l < pow64(),
    ensures p * l == l * p, p * l < pow64() * pow64(), pow64() * pow64() < pow256(),
{
    assert(p * l == l * p) by (nonlinear_arith);
    assert(p * l < pow64() * pow64()) by (nonlinear_arith) requires p < pow64(), l < pow64();
    assert(pow64() * pow64() < pow256()) by (compute);
}
impl UnsignedTransaction {
//@fn protocol/src/types/transaction.rs :: impl UnsignedTransaction/fn gas_price
//@ ret r
//@ spec
    ensures r@ == spec_price(*self),
//@end
//@fn protocol/src/types/transaction.rs :: impl UnsignedTransaction/fn gas_limit
//@ ret r
//@ spec
    ensures r@ == spec_limit(*self),
//@end
//@fn protocol/src/types/transaction.rs :: impl UnsignedTransaction/fn value
//@ ret r
//@ spec
    ensures r@ == spec_value(*self),
//@end
//@fn protocol/src/types/transaction.rs :: impl UnsignedTransaction/fn max_priority_fee_per_gas
//@ ret r
//@ spec
    ensures r@ == (match *self { UnsignedTransaction::Eip1559(x) => x.max_priority_fee_per_gas@, _ => spec_price(*self) }),
//@end
//@fn protocol/src/types/transaction.rs :: impl UnsignedTransaction/fn may_cost
//@ ret r
//@ spec
    ensures r matches Ok(c) && c@ == spec_cost(*self),
//@ start
    proof {
        broadcast use num_axioms;
        price_times_limit_fits(spec_price(*self), spec_limit(*self));
        assert(pow64() < pow256()) by (compute);
    }
//@end
}
}
fn main() {}
