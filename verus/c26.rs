//@include head.rs
pub mod sh {
use super::*;
//@include num.rs
//@include bytes.rs
//@include rlp.rs
//@include tx.rs
}
use sh::*;
// C26: the reserved addresses, the dispatch to system contracts, and the native token contract.
pub mod sy {
use super::*;
use super::sh::*;
broadcast use {num_axioms, bytes_axioms, rlp_axioms, vec_axioms};
pub open spec fn ff19() -> Seq<u8> { Seq::new(19, |i: int| 0xffu8) }
pub open spec fn system(k: u8) -> Seq<u8> { ff19().push(k) }
/// the reserved form: nineteen bytes 0xff, then any byte
pub open spec fn reserved(a: Seq<u8>) -> bool { a.len() == 20 && a.subrange(0, 19) == ff19() }
pub open spec fn in_use(a: Seq<u8>) -> bool { a == system(0) || a == system(1) || a == system(2) || a == system(3) }
proof fn reserved_is(a: Seq<u8>) requires a.len() == 20 ensures reserved(a) == (a == system(a[19])), reserved(a) == (forall|i: int| 0 <= i < 19 ==> a[i] == 0xff) {
    if a.subrange(0, 19) == ff19() { assert forall|i: int| 0 <= i < 20 implies a[i] == system(a[19])[i] by { if i < 19 { assert(a.subrange(0, 19)[i] == 0xff); } } assert(a =~= system(a[19])); }
    if a == system(a[19]) { assert(a.subrange(0, 19) =~= ff19()); }
    if forall|i: int| 0 <= i < 19 ==> a[i] == 0xff { assert(a.subrange(0, 19) =~= ff19()); }
}
proof fn in_use_is(a: Seq<u8>) ensures in_use(a) == (reserved(a) && a[19] <= 3) {
    if in_use(a) { assert(a.subrange(0, 19) =~= ff19()); assert(a.len() == 20); }
    if reserved(a) { reserved_is(a); }
}
#[verifier::external_body] pub fn mk160(x: [u8; 20]) -> (r: H160) ensures r@ == x@ { unimplemented!() }
#[verifier::external_body] pub fn addr_range_is<const N: usize>(a: &H160, i: usize, j: usize, p: &[u8; N]) -> (r: bool) requires i <= j <= 20 ensures r == (a@.subrange(i as int, j as int) == p@) { unimplemented!() }
#[verifier::external_body] pub fn has<const N: usize>(s: &[H160; N], a: &H160) -> (r: bool) ensures r == s@.contains(*a) { unimplemented!() }
//@fn core/executor/src/system_contract/mod.rs :: fn system_contract_address
//@ ret r
//@ sub /const fn/ => /fn/
//@ sub /H160\(\[/ => /mk160([/
//@ spec
    ensures r@ == system(addr),
//@ end
    
//@end
//@item core/executor/src/system_contract/native_token.rs :: const NATIVE_TOKEN_CONTRACT_ADDRESS
//@ sub /pub const (\w+): H160 = ([^;]+);/ => /pub fn \1() -> (r: H160) ensures r@ == system(0) { \2 }/
//@end
//@item core/executor/src/system_contract/metadata/mod.rs :: const METADATA_CONTRACT_ADDRESS
//@ sub /pub const (\w+): H160 = ([^;]+);/ => /pub fn \1() -> (r: H160) ensures r@ == system(1) { \2 }/
//@end
//@item core/executor/src/system_contract/ckb_light_client/mod.rs :: const CKB_LIGHT_CLIENT_CONTRACT_ADDRESS
//@ sub /pub const (\w+): H160 = ([^;]+);/ => /pub fn \1() -> (r: H160) ensures r@ == system(2) { \2 }/
//@end
//@item core/executor/src/system_contract/image_cell/mod.rs :: const IMAGE_CELL_CONTRACT_ADDRESS
//@ sub /pub const (\w+): H160 = ([^;]+);/ => /pub fn \1() -> (r: H160) ensures r@ == system(3) { \2 }/
//@end
//@item core/executor/src/system_contract/mod.rs :: const SYSTEM_CONTRACT_ADDRESSES_PREFIX
//@ sub /const (\w+): \[u8; 19\] = ([^;]+);/ => /fn \1() -> (r: [u8; 19]) ensures r@ == ff19() { let r: [u8; 19] = \2; assert(r@ =~= ff19()); r }/
//@end
//@item core/executor/src/system_contract/mod.rs :: const SYSTEM_CONTRACT_ADDRESSES_SET
//@ sub /const (\w+): \[H160; (\d+)\] = ([^;]+);/ => /fn \1() -> (r: [H160; \2]) ensures forall|a: H160| r@.contains(a) == in_use(#[trigger] a@) { let r: [H160; \2] = \3; proof { addresses(r@); } r }/
//@ sub /(\w+_CONTRACT_ADDRESS)\b/ => /\1()/
//@end
proof fn addresses(s: Seq<H160>)
    requires forall|i: int| 0 <= i < s.len() ==> in_use(#[trigger] s[i]@), forall|k: u8| k <= 3 ==> exists|i: int| 0 <= i < s.len() && s[i]@ == #[trigger] system(k)
    ensures forall|a: H160| s.contains(a) == in_use(#[trigger] a@)
{
    assert forall|a: H160| s.contains(a) == in_use(#[trigger] a@) by {
        if in_use(a@) {
            let k: u8 = if a@ == system(0) { 0 } else if a@ == system(1) { 1 } else if a@ == system(2) { 2 } else { 3 };
            let i = choose|i: int| 0 <= i < s.len() && s[i]@ == system(k);
            axiom_h160_ext(s[i]); axiom_h160_ext(a);
            assert(s[i] == a);
        }
    }
}
//@fn core/executor/src/system_contract/mod.rs :: fn is_system_contract_address_format
//@ ret r
//@ sub /(\w+)\.0\[(\d+)\.\.(\d+)\]\s*==\s*(\w+)/ => /addr_range_is(\1, \2, \3, &\4())/
//@ spec
    ensures r == reserved(addr@),
//@end
pub enum SystemScriptError { ReservedAddress(H160), Other }
pub struct Error;
impl FromSpecImpl<SystemScriptError> for Error { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(x: SystemScriptError) -> Error { arbitrary() } }
impl From<SystemScriptError> for Error { #[verifier::external_body] fn from(x: SystemScriptError) -> Error { unimplemented!() } }
//@fn core/executor/src/system_contract/mod.rs :: fn is_call_system_script
//@ ret r
//@ sub /(\w+)\.0\[(\d+)\.\.(\d+)\]\s*==\s*(\w+)/ => /addr_range_is(\1, \2, \3, &\4())/ 0
//@ sub /(SYSTEM_CONTRACT_ADDRESSES_SET)\.contains\(/ => /has(&\1(), / 0
//@ sub /ProtocolResult<bool>/ => /Result<bool, Error>/
//@ spec
    ensures
        action is Create ==> r == Ok::<bool, Error>(false),
        action matches TransactionAction::Call(a) ==> {
            &&& !reserved(a@) ==> r == Ok::<bool, Error>(false)
            &&& reserved(a@) && a@[19] <= 3 ==> r == Ok::<bool, Error>(true)
            &&& reserved(a@) && a@[19] > 3 ==> r is Err
        },
//@ start
    proof { if let TransactionAction::Call(a) = action { in_use_is(a@); } }
//@end
// ---- dispatch ----
pub struct TxResp { pub k: u64 }
pub uninterp spec fn ran(k: int, before: Adapter, tx: SignedTransaction, after: Adapter, r: TxResp) -> bool;
#[verifier::external_body] pub struct Adapter { x: u8 }
pub struct SignedTransaction { pub transaction: UnverifiedTransaction, pub sender: H160, pub public: Option<Public> }
pub struct NativeTokenContract; pub struct MetadataContract; pub struct CkbLightClientContract; pub struct ImageCellContract;
impl NativeTokenContract { pub fn default() -> NativeTokenContract { NativeTokenContract } #[verifier::external_body] pub fn exec_(&self, a: &mut Adapter, tx: &SignedTransaction) -> (r: TxResp) ensures ran(0, *old(a), *tx, *final(a), r) { unimplemented!() } }
impl MetadataContract { pub fn default() -> MetadataContract { MetadataContract } #[verifier::external_body] pub fn exec_(&self, a: &mut Adapter, tx: &SignedTransaction) -> (r: TxResp) ensures ran(1, *old(a), *tx, *final(a), r) { unimplemented!() } }
impl CkbLightClientContract { pub fn default() -> CkbLightClientContract { CkbLightClientContract } #[verifier::external_body] pub fn exec_(&self, a: &mut Adapter, tx: &SignedTransaction) -> (r: TxResp) ensures ran(2, *old(a), *tx, *final(a), r) { unimplemented!() } }
impl ImageCellContract { pub fn default() -> ImageCellContract { ImageCellContract } #[verifier::external_body] pub fn exec_(&self, a: &mut Adapter, tx: &SignedTransaction) -> (r: TxResp) ensures ran(3, *old(a), *tx, *final(a), r) { unimplemented!() } }
pub open spec fn action_of(u: UnsignedTransaction) -> TransactionAction { match u { UnsignedTransaction::Legacy(t) => t.action, UnsignedTransaction::Eip2930(t) => t.action, UnsignedTransaction::Eip1559(t) => t.action } }
pub open spec fn to_of(a: TransactionAction) -> Option<H160> { match a { TransactionAction::Call(x) => Some(x), TransactionAction::Create => None } }
impl LegacyTransaction {
//@fn protocol/src/types/transaction.rs :: impl LegacyTransaction/fn get_to
//@ ret r
//@ spec
    ensures r == to_of(self.action),
//@end
}
impl Eip2930Transaction {
//@fn protocol/src/types/transaction.rs :: impl Eip2930Transaction/fn get_to
//@ ret r
//@ spec
    ensures r == to_of(self.action),
//@end
}
impl Eip1559Transaction {
//@fn protocol/src/types/transaction.rs :: impl Eip1559Transaction/fn get_to
//@ ret r
//@ spec
    ensures r == to_of(self.action),
//@end
}
impl UnsignedTransaction {
//@fn protocol/src/types/transaction.rs :: impl UnsignedTransaction/fn to
//@ ret r
//@ spec
    ensures r == to_of(action_of(*self)),
//@end
//@fn protocol/src/types/transaction.rs :: impl UnsignedTransaction/fn action
//@ ret r
//@ spec
    ensures *r == action_of(*self),
//@end
//@fn protocol/src/types/transaction.rs :: impl UnsignedTransaction/fn value
//@ ret r
//@ spec
    ensures *r == value_of(*self),
//@end
//@fn protocol/src/types/transaction.rs :: impl UnsignedTransaction/fn gas_limit
//@ ret r
//@ spec
    ensures *r == gas_limit_of(*self),
//@end
//@fn protocol/src/types/transaction.rs :: impl UnsignedTransaction/fn data
//@ ret r
//@ spec
    ensures r@ == data_of(*self),
//@end
}
pub open spec fn value_of(u: UnsignedTransaction) -> U256 { match u { UnsignedTransaction::Legacy(t) => t.value, UnsignedTransaction::Eip2930(t) => t.value, UnsignedTransaction::Eip1559(t) => t.value } }
pub open spec fn gas_limit_of(u: UnsignedTransaction) -> U64 { match u { UnsignedTransaction::Legacy(t) => t.gas_limit, UnsignedTransaction::Eip2930(t) => t.gas_limit, UnsignedTransaction::Eip1559(t) => t.gas_limit } }
pub open spec fn data_of(u: UnsignedTransaction) -> Seq<u8> { match u { UnsignedTransaction::Legacy(t) => t.data@, UnsignedTransaction::Eip2930(t) => t.data@, UnsignedTransaction::Eip1559(t) => t.data@ } }
impl SignedTransaction {
//@fn protocol/src/types/transaction.rs :: impl SignedTransaction/fn get_to
//@ ret r
//@ spec
    ensures r == to_of(action_of(self.transaction.unsigned)),
//@end
}
proof fn four() ensures system(0)[19] == 0, system(1)[19] == 1, system(2)[19] == 2, system(3)[19] == 3 {}
//@fn core/executor/src/system_contract/mod.rs :: fn system_contract_dispatch
//@ ret r
//@ sub /fn system_contract_dispatch<[^(]*>\(/ => /fn system_contract_dispatch(/
//@ sub /(\w+_CONTRACT_ADDRESS)\b/ => /\1()/
//@ spec
    ensures
        r is Some == (to_of(action_of(tx.transaction.unsigned)) is Some && in_use(to_of(action_of(tx.transaction.unsigned))->Some_0@)),
        r is Some ==> ran(to_of(action_of(tx.transaction.unsigned))->Some_0@[19] as int, *old(adapter), *tx, *final(adapter), r->Some_0),
        r is None ==> *final(adapter) == *old(adapter),
//@ start
    proof { four(); if let Some(a) = to_of(action_of(tx.transaction.unsigned)) { in_use_is(a@); reserved_is(a@); axiom_h160_ext(a); } assert forall|x: H160, y: H160| x@ == y@ implies x == y by { axiom_h160_ext(x); axiom_h160_ext(y); } }
//@end
}
// ---- the native token contract ----
pub mod nt {
use super::*;
use super::sh::*;
use super::sy::{action_of, to_of, value_of, gas_limit_of, data_of};
broadcast use {num_axioms, bytes_axioms, rlp_axioms, vec_axioms};
pub struct Basic { pub balance: U256, pub nonce: U256 }
pub struct Apply_ { pub address: H160, pub basic: Basic, pub code: Option<Vec<u8>>, pub storage: Vec<(H256, H256)>, pub reset_storage: bool }
/// accounts by address
#[verifier::external_body] pub struct Backend { x: u8 }
impl Backend {
    pub uninterp spec fn acc(&self, a: H160) -> Basic;
    #[verifier::external_body] pub fn basic(&self, a: H160) -> (r: Basic) ensures r == self.acc(a) { unimplemented!() }
    #[verifier::external_body] pub fn apply(&mut self, v: Vec<Apply_>, logs: Vec<u8>, delete_empty: bool)
        requires v@.len() == 1, v@[0].code is None, v@[0].storage@.len() == 0, !v@[0].reset_storage
        ensures forall|a: H160| #[trigger] final(self).acc(a) == (if a == v@[0].address { v@[0].basic } else { old(self).acc(a) }) { unimplemented!() }
}
pub enum Outcome { Revert, Succeed }
pub uninterp spec fn outcome(k: TxResp) -> Outcome;
#[verifier::external_body] pub struct TxResp { x: u8 }
#[verifier::external_body] pub fn revert_resp(gas: U64) -> (r: TxResp) requires gas@ > 0 ensures outcome(r) is Revert { unimplemented!() }
#[verifier::external_body] pub fn succeed_resp(gas: U64) -> (r: TxResp) ensures outcome(r) is Succeed { unimplemented!() }
pub struct Signed { pub transaction: UnverifiedTransaction }
pub struct NativeTokenContract;
pub open spec fn valid(d: Seq<u8>) -> bool { d.len() >= 21 && d[0] <= 1 }
impl NativeTokenContract {
//@fn core/executor/src/system_contract/native_token.rs :: impl SystemContract<Adapter> for NativeTokenContract<Adapter>/fn exec_
//@ ret r
//@ sub /backend: &mut Adapter/ => /backend: &mut Backend/
//@ sub /SignedTransaction/ => /Signed/
//@ sub /Apply::Modify/ => /Apply_/
//@ sub /(\w+(?:\.\w+)*)\s*\+=\s*/ => /\1 = \1 + / 0
//@ sub /(\w+(?:\.\w+)*)\s*-=\s*/ => /\1 = \1 - / 0
//@ sub /&tx_data\[1\.\.21\]/ => /slice_subrange(tx_data, 1, 21)/ 0
//@ spec
    requires gas_limit_of(tx.transaction.unsigned)@ > 0,
        forall|a: H160| #[trigger] old(backend).acc(a).nonce@ + 1 < pow256(),
    ensures ({
        let d = data_of(tx.transaction.unsigned);
        let v = value_of(tx.transaction.unsigned)@;
        let who = h160(d.subrange(1, 21));
        let had = old(backend).acc(who);
        let has = final(backend).acc(who);
        let ok = valid(d) && (if d[0] == 0 { had.balance@ + v < pow256() } else { had.balance@ >= v });
        &&& ok == (outcome(r) is Succeed)
        &&& ok ==> (forall|a: H160| a != who ==> #[trigger] final(backend).acc(a) == old(backend).acc(a))
        &&& ok && d[0] == 0 ==> has.balance@ == had.balance@ + v
        &&& ok && d[0] == 1 ==> has.balance@ == had.balance@ - v
        &&& ok ==> has.nonce@ == had.nonce@ + 1
        &&& !ok ==> outcome(r) is Revert && *final(backend) == *old(backend)
    }),
//@end
}
}
} // verus!
fn main() {}
