//@include head.rs
// C03: the v value of a legacy signature (EIP-155).
pub struct SignatureComponents { pub standard_v: u8 }

pub open spec fn v_of(parity: int, chain_id: Option<u64>) -> int {
    parity + (match chain_id { Some(i) => 2 * i + 35, None => 27 })
}
impl SignatureComponents {
//@fn protocol/src/types/transaction.rs :: impl SignatureComponents/fn add_chain_replay_protection
//@ ret r
//@ spec
    requires
        self.standard_v <= 1,
        chain_id matches Some(i) ==> 2 * i + 36 <= u64::MAX,
    ensures
        r == v_of(self.standard_v as int, chain_id),
//@ closure 0
    -> (o: u64) requires 2 * i + 36 <= u64::MAX, ensures o == 2 * i + 35,
//@end
//@fn protocol/src/types/transaction.rs :: impl SignatureComponents/fn extract_standard_v
//@ ret r
//@ spec
    ensures
        v == 27 ==> r == Some(0u8),
        v == 28 ==> r == Some(1u8),
        v >= 35 ==> (r matches Some(p) && p == ((v - 35) % 2)),
        v < 27 || 28 < v < 35 ==> r is None,
//@end
//@fn protocol/src/types/transaction.rs :: impl SignatureComponents/fn extract_chain_id
//@ ret r
//@ spec
    ensures
        v < 35 ==> r is None,
        v >= 35 ==> (r matches Some(i) && i == (v - 35) / 2),
//@end
}
// the property: what was put into v comes out again, and nothing else does
fn v_round_trip(sig: SignatureComponents, chain_id: Option<u64>)
    requires sig.standard_v <= 1, chain_id matches Some(i) ==> 2 * i + 36 <= u64::MAX,
{
    let v = sig.add_chain_replay_protection(chain_id);
    let p = SignatureComponents::extract_standard_v(v);
    let c = SignatureComponents::extract_chain_id(v);
    assert(p == Some(sig.standard_v));
    assert(c == chain_id);
}
proof fn v_injective(p: int, c: Option<u64>, q: int, d: Option<u64>)
    requires 0 <= p <= 1, 0 <= q <= 1, v_of(p, c) == v_of(q, d),
    ensures p == q, c == d,
{
}
}
fn main() {}
