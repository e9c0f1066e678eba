//@include head.rs
pub mod sh {
use super::*;
//@include num.rs
//@include bytes.rs
//@include rlp.rs
impl FromSpecImpl<u32> for U256 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(x: u32) -> U256 { u256(x as nat) } }
impl From<u32> for U256 { #[verifier::external_body] fn from(x: u32) -> U256 { unimplemented!() } }
impl DivSpecImpl<U256> for U256 { open spec fn obeys_div_spec() -> bool { true } open spec fn div_req(self, o: U256) -> bool { o@ > 0 } open spec fn div_spec(self, o: U256) -> U256 { u256(self@ / o@) } }
impl core::ops::Div for U256 { type Output = U256; #[verifier::external_body] fn div(self, o: U256) -> U256 { unimplemented!() } }
impl MulSpecImpl<u32> for U256 { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, o: u32) -> bool { self@ * (o as nat) < pow256() } open spec fn mul_spec(self, o: u32) -> U256 { u256(self@ * (o as nat)) } }
impl core::ops::Mul<u32> for U256 { type Output = U256; #[verifier::external_body] fn mul(self, o: u32) -> U256 { unimplemented!() } }
impl SubSpecImpl<u64> for U64 { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, o: u64) -> bool { self@ >= o } open spec fn sub_spec(self, o: u64) -> U64 { u64_((self@ - o) as nat) } }
impl core::ops::Sub<u64> for U64 { type Output = U64; #[verifier::external_body] fn sub(self, o: u64) -> U64 { unimplemented!() } }
}
use sh::*;
global size_of usize == 8;
// C20: what executing a block's transactions does to the accounts, and what its results say.
pub mod ex {
use super::*;
use super::sh::*;
broadcast use {num_axioms, bytes_axioms};
#[verifier::external_body] pub fn own_<T>(x: &T) -> (r: T) ensures r == *x { unimplemented!() }
#[verifier::external_body] pub fn to_vec_(s: &[u8]) -> (r: Vec<u8>) ensures r@ == s@ { unimplemented!() }
pub struct Public { pub k: u8 }
pub enum TransactionAction { Call(H160), Create }
pub struct AccessListItem { pub address: H160, pub storage_keys: Vec<H256> }
pub type AccessList = Vec<AccessListItem>;
//@item protocol/src/types/transaction.rs :: struct LegacyTransaction
//@end
//@item protocol/src/types/transaction.rs :: struct Eip2930Transaction
//@end
//@item protocol/src/types/transaction.rs :: struct Eip1559Transaction
//@end
//@item protocol/src/types/transaction.rs :: enum UnsignedTransaction
//@end
//@item protocol/src/types/transaction.rs :: struct SignatureComponents
//@end
//@item protocol/src/types/transaction.rs :: struct UnverifiedTransaction
//@end
//@item protocol/src/types/transaction.rs :: struct SignedTransaction
//@end
pub open spec fn spec_limit(t: UnsignedTransaction) -> nat { match t { UnsignedTransaction::Legacy(x) => x.gas_limit@, UnsignedTransaction::Eip2930(x) => x.gas_limit@, UnsignedTransaction::Eip1559(x) => x.gas_limit@ } }
pub open spec fn spec_action(t: UnsignedTransaction) -> TransactionAction { match t { UnsignedTransaction::Legacy(x) => x.action, UnsignedTransaction::Eip2930(x) => x.action, UnsignedTransaction::Eip1559(x) => x.action } }
pub open spec fn spec_value(t: UnsignedTransaction) -> U256 { match t { UnsignedTransaction::Legacy(x) => x.value, UnsignedTransaction::Eip2930(x) => x.value, UnsignedTransaction::Eip1559(x) => x.value } }
pub open spec fn spec_data(t: UnsignedTransaction) -> Seq<u8> { match t { UnsignedTransaction::Legacy(x) => x.data@, UnsignedTransaction::Eip2930(x) => x.data@, UnsignedTransaction::Eip1559(x) => x.data@ } }
pub open spec fn spec_list(t: UnsignedTransaction) -> Seq<(H160, Vec<H256>)> { match t {
    UnsignedTransaction::Legacy(x) => Seq::empty(), UnsignedTransaction::Eip2930(x) => pairs(x.access_list@), UnsignedTransaction::Eip1559(x) => pairs(x.access_list@) } }
pub open spec fn pairs(l: Seq<AccessListItem>) -> Seq<(H160, Vec<H256>)> { l.map_values(|x: AccessListItem| (x.address, x.storage_keys)) }
/// what a transaction pays per unit of gas
pub open spec fn spec_price(t: UnsignedTransaction) -> nat {
    match t { UnsignedTransaction::Legacy(x) => x.gas_price@, UnsignedTransaction::Eip2930(x) => x.gas_price@,
        UnsignedTransaction::Eip1559(x) => if x.gas_price@ >= x.max_priority_fee_per_gas@ { x.gas_price@ } else { x.max_priority_fee_per_gas@ } }
}
impl UnsignedTransaction {
//@fn protocol/src/types/transaction.rs :: impl UnsignedTransaction/fn gas_price
//@ ret r
//@ spec
    ensures r@ == spec_price(*self),
//@end
//@fn protocol/src/types/transaction.rs :: impl UnsignedTransaction/fn gas_limit
//@ ret r
//@ spec
    ensures r@ == spec_limit(*self),
//@end
//@fn protocol/src/types/transaction.rs :: impl UnsignedTransaction/fn action
//@ ret r
//@ spec
    ensures *r == spec_action(*self),
//@end
//@fn protocol/src/types/transaction.rs :: impl UnsignedTransaction/fn value
//@ ret r
//@ spec
    ensures *r == spec_value(*self),
//@end
//@fn protocol/src/types/transaction.rs :: impl UnsignedTransaction/fn data
//@ ret r
//@ spec
    ensures r@ == spec_data(*self),
//@end
//@fn protocol/src/types/transaction.rs :: impl UnsignedTransaction/fn access_list
//@ ret r
//@ sub /(\w+\.access_list)\.clone\(\)/ => /own_(&\1)/
//@ spec
    ensures pairs(r@) == spec_list(*self),
//@ start
    proof { assert(pairs(Seq::empty()) =~= Seq::empty()); }
//@end
}

// ---- the state ----
#[derive(Clone, Copy)]
pub struct Account { pub nonce: U256, pub balance: U256, pub storage_root: H256, pub code_hash: H256 }
pub uninterp spec fn no_account() -> Account;
#[verifier::external_body] pub struct Log { x: u8 }
/// codes, storages and the block's context
#[verifier::external_body] pub ghost struct Rest { x: u8 }
pub ghost struct St { pub acc: Map<H160, Account>, pub price: nat, pub origin: H160, pub number: U256, pub logs: Seq<Log>, pub rest: Rest }
pub open spec fn row(s: St, a: H160) -> Account { if s.acc.contains_key(a) { s.acc[a] } else { no_account() } }
pub open spec fn set(s: St, a: H160, x: Account) -> St { St { acc: s.acc.insert(a, x), ..s } }
/// a change the virtual machine asks for
#[verifier::external_body] pub struct Changes { x: u8 }
pub uninterp spec fn accounts_after(s: St, c: Changes, delete_empty: bool) -> Map<H160, Account>;
pub uninterp spec fn rest_after(s: St, c: Changes, delete_empty: bool) -> Rest;
pub open spec fn applied(s: St, c: Changes, l: Seq<Log>, d: bool) -> St { St { acc: accounts_after(s, c, d), rest: rest_after(s, c, d), logs: l, ..s } }
pub uninterp spec fn root_of(s: St) -> H256;
pub uninterp spec fn committed(s: St) -> St;
#[verifier::external_body] pub struct Adapter { x: u8 }
impl Adapter {
    pub uninterp spec fn view(&self) -> St;
    #[verifier::external_body] pub fn gas_price(&self) -> (r: U256) ensures r@ == self@.price { unimplemented!() }
    #[verifier::external_body] pub fn origin(&self) -> (r: H160) ensures r == self@.origin { unimplemented!() }
    #[verifier::external_body] pub fn block_number(&self) -> (r: U256) ensures r == self@.number { unimplemented!() }
    // no account's nonce has reached 2^256 - 1
    #[verifier::external_body] pub fn get_account(&self, a: &H160) -> (r: Account) ensures r == row(self@, *a), r.nonce@ + 1 < pow256() { unimplemented!() }
    #[verifier::external_body] pub fn save_account(&mut self, a: &H160, x: &Account) ensures final(self)@ == set(old(self)@, *a, *x) { unimplemented!() }
    #[verifier::external_body] pub fn set_origin(&mut self, a: H160) ensures final(self)@ == (St { origin: a, ..old(self)@ }) { unimplemented!() }
    #[verifier::external_body] pub fn set_gas_price(&mut self, p: U64) ensures final(self)@ == (St { price: p@, ..old(self)@ }) { unimplemented!() }
    #[verifier::external_body] pub fn take_logs(&mut self) -> (r: Vec<Log>) ensures r@ == old(self)@.logs, final(self)@ == (St { logs: Seq::empty(), ..old(self)@ }) { unimplemented!() }
    #[verifier::external_body] pub fn apply(&mut self, c: Changes, l: Vec<Log>, d: bool) ensures final(self)@ == applied(old(self)@, c, l@, d) { unimplemented!() }
    #[verifier::external_body] pub fn commit(&mut self) -> (r: H256) ensures r == root_of(old(self)@), final(self)@ == committed(old(self)@) { unimplemented!() }
}

// ---- the virtual machine (crate evm): what it returns is a function of the state and the question ----
pub enum ExitSucceed { Stopped, Returned, Suicided }
pub enum ExitRevert { Reverted }
pub enum ExitError { OutOfGas, OutOfFund, Other(u8) }
pub enum ExitFatal { Other }
pub enum ExitReason { Succeed(ExitSucceed), Error(ExitError), Revert(ExitRevert), Fatal(ExitFatal) }
impl ExitReason { pub fn is_succeed(&self) -> (r: bool) ensures r == (*self is Succeed) { match self { ExitReason::Succeed(_) => true, _ => false } } }
impl FromSpecImpl<ExitError> for ExitReason { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: ExitError) -> ExitReason { ExitReason::Error(e) } }
impl From<ExitError> for ExitReason { #[verifier::external_body] fn from(e: ExitError) -> ExitReason { unimplemented!() } }
pub struct Config { pub create_contract_limit: Option<usize>, pub rest: u64 }
#[verifier::external_body] pub struct Precompiles { x: u8 }
pub uninterp spec fn precompiled() -> Precompiles;
#[verifier::external_body] pub fn build_precompile_set() -> (r: Precompiles) ensures r == precompiled() { unimplemented!() }
pub ghost struct Ask { pub from: H160, pub to: Option<H160>, pub value: U256, pub data: Seq<u8>, pub gas: u64, pub list: Seq<(H160, Vec<H256>)>, pub conf: Config, pub pre: Precompiles }
pub ghost struct Run { pub exit: ExitReason, pub ret: Seq<u8>, pub used: u64, pub left: u64, pub changes: Changes, pub logs: Seq<Log> }
pub uninterp spec fn run(s: St, q: Ask) -> Run;
pub uninterp spec fn created_by(s: St, a: H160) -> H160;
/// a question asked of a machine that was given another amount of gas
pub uninterp spec fn odd_run(s: St, q: Ask, gas: u64) -> Run;
/// what is used, refunds taken off, and what is left of the gas never come to more than the limit
pub axiom fn gas_bound(s: St, q: Ask) ensures run(s, q).used + run(s, q).left <= q.gas;
#[verifier::external_body] pub struct StackSubstateMetadata { x: u8 }
impl StackSubstateMetadata {
    pub uninterp spec fn gas(&self) -> u64;
    pub uninterp spec fn conf(&self) -> Config;
    #[verifier::external_body] pub fn new(gas: u64, c: &Config) -> (r: StackSubstateMetadata) ensures r.gas() == gas, r.conf() == *c { unimplemented!() }
}
#[verifier::external_body] pub struct MemoryStackState { x: u8 }
impl MemoryStackState {
    pub uninterp spec fn st(&self) -> St;
    pub uninterp spec fn gas(&self) -> u64;
    pub uninterp spec fn ran(&self) -> Option<Run>;
    #[verifier::external_body] pub fn new(m: StackSubstateMetadata, a: &Adapter) -> (r: MemoryStackState) ensures r.st() == a@, r.gas() == m.gas(), r.ran() is None { unimplemented!() }
    #[verifier::external_body] pub fn deconstruct(self) -> (r: (Changes, Vec<Log>)) ensures self.ran() matches Some(x) ==> r.0 == x.changes && r.1@ == x.logs { unimplemented!() }
}
#[verifier::external_body] pub struct StackExecutor { x: u8 }
impl StackExecutor {
    pub uninterp spec fn st(&self) -> St;
    pub uninterp spec fn gas_limit(&self) -> u64;
    pub uninterp spec fn conf(&self) -> Config;
    pub uninterp spec fn pre(&self) -> Precompiles;
    pub uninterp spec fn ran(&self) -> Option<Run>;
    pub open spec fn asked(&self, q: Ask) -> Run { if q.gas == self.gas_limit() { run(self.st(), q) } else { odd_run(self.st(), q, self.gas_limit()) } }
    #[verifier::external_body] pub fn new_with_precompiles(s: MemoryStackState, c: &Config, p: &Precompiles) -> (r: StackExecutor)
        ensures r.st() == s.st(), r.gas_limit() == s.gas(), r.conf() == *c, r.pre() == *p, r.ran() is None { unimplemented!() }
    #[verifier::external_body] pub fn transact_call(&mut self, from: H160, to: H160, value: U256, data: Vec<u8>, gas: u64, list: Vec<(H160, Vec<H256>)>) -> (r: (ExitReason, Vec<u8>))
        requires old(self).ran() is None,
        ensures ({ let x = old(self).asked(Ask { from, to: Some(to), value, data: data@, gas, list: list@, conf: old(self).conf(), pre: old(self).pre() });
            final(self).ran() == Some(x) && r.0 == x.exit && r.1@ == x.ret && final(self).st() == old(self).st() }) { unimplemented!() }
    #[verifier::external_body] pub fn transact_create(&mut self, from: H160, value: U256, data: Vec<u8>, gas: u64, list: Vec<(H160, Vec<H256>)>) -> (r: (ExitReason, Vec<u8>))
        requires old(self).ran() is None,
        ensures ({ let x = old(self).asked(Ask { from, to: None, value, data: data@, gas, list: list@, conf: old(self).conf(), pre: old(self).pre() });
            final(self).ran() == Some(x) && r.0 == x.exit && r.1@ == x.ret && final(self).st() == old(self).st() }) { unimplemented!() }
    #[verifier::external_body] pub fn used_gas(&self) -> (r: u64) ensures self.ran() matches Some(x) ==> r == x.used { unimplemented!() }
    #[verifier::external_body] pub fn gas(&self) -> (r: u64) ensures self.ran() matches Some(x) ==> r == x.left { unimplemented!() }
    #[verifier::external_body] pub fn create_address(&self, s: CreateScheme) -> (r: H160) ensures s matches CreateScheme::Legacy { caller } ==> r == created_by(self.st(), caller) { unimplemented!() }
    #[verifier::external_body] pub fn into_state(self) -> (r: MemoryStackState) ensures r.ran() == self.ran() { unimplemented!() }
}
pub enum CreateScheme { Legacy { caller: H160 } }
pub uninterp spec fn wide(a: H160) -> H256;
impl FromSpecImpl<H160> for H256 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(a: H160) -> H256 { wide(a) } }
impl From<H160> for H256 { #[verifier::external_body] fn from(a: H160) -> H256 { unimplemented!() } }
#[verifier::external_body] pub fn address_or_default_(a: Option<H160>) -> (r: H160) ensures r == (match a { Some(x) => x, None => h160(Seq::new(20, |i: int| 0u8)) }) { unimplemented!() }

// ---- results ----
//@item protocol/src/types/executor.rs :: struct TxResp
//@end
//@item protocol/src/types/executor.rs :: struct ExecResp
//@end
pub ghost struct Resp { pub exit: ExitReason, pub ret: Seq<u8>, pub used: u64, pub left: u64, pub fee: nat, pub logs: Seq<Log>, pub code: Option<H256>, pub removed: bool }
pub open spec fn tr(r: TxResp) -> Resp { Resp { exit: r.exit_reason, ret: r.ret@, used: r.gas_used, left: r.remain_gas, fee: r.fee_cost@, logs: r.logs@, code: r.code_address, removed: r.removed } }
/// the digest of the list of an address and its nonce: its last 20 bytes are the address of the contract created
pub open spec fn code_addr(a: H160, n: U256) -> H256 { keccak(ser(flat(Item::List(seq![Item::Str(a@), Item::Num(n@)])))) }
#[verifier::external_body] pub fn new_list_(n: usize) -> (r: RlpStream) ensures r@ == seq![Tok::List(n as nat)] { unimplemented!() }
//@fn core/executor/src/utils.rs :: fn code_address
//@ ret r
//@ sub /rlp::RlpStream::new_list\(([^()]*)\)/ => /new_list_(\1)/
//@ spec
    ensures r == code_addr(*sender, *nonce),
//@ start
    proof { reveal_with_fuel(flats, 4); reveal_with_fuel(flat, 4); let i = Item::List(seq![Item::Str(sender@), Item::Num(nonce@)]); assert(seq![Tok::List(2nat)] + flat(Item::Str(sender@)) + flat(Item::Num(nonce@)) =~= flat(i)); }
//@ end
//@end

// ---- system contracts (C26 decides which transactions these are) ----
pub uninterp spec fn is_system(s: St, tx: SignedTransaction) -> bool;
pub uninterp spec fn system_result(s: St, tx: SignedTransaction) -> Resp;
pub uninterp spec fn system_state(s: St, tx: SignedTransaction) -> St;
pub uninterp spec fn hooked_before(s: St) -> St;
pub uninterp spec fn hooked_after(s: St) -> St;
pub open spec fn plain(r: Resp, limit: nat) -> bool { r.fee == 0 && r.used + r.left == limit && r.code is None && !r.removed }
#[verifier::external_body] pub fn system_contract_dispatch(a: &mut Adapter, tx: &SignedTransaction) -> (r: Option<TxResp>)
    ensures (r is Some) == is_system(old(a)@, *tx), r is None ==> final(a)@ == old(a)@,
        r matches Some(x) ==> tr(x) == system_result(old(a)@, *tx) && final(a)@ == system_state(old(a)@, *tx) { unimplemented!() }
#[verifier::external_body] pub fn before_block_hook(a: &mut Adapter) ensures final(a)@ == hooked_before(old(a)@) { unimplemented!() }
#[verifier::external_body] pub fn after_block_hook(a: &mut Adapter) ensures final(a)@ == hooked_after(old(a)@) { unimplemented!() }
//@fn core/executor/src/system_contract/utils.rs :: fn revert_resp
//@ ret r
//@ sub /vec!\[\]/ => /Vec::new()/
//@ spec
    requires gas_limit@ >= 1,
    ensures r.exit_reason is Revert, plain(tr(r), gas_limit@), r.logs@.len() == 0, r.ret@.len() == 0,
//@end
//@fn core/executor/src/system_contract/utils.rs :: fn succeed_resp
//@ ret r
//@ sub /vec!\[\]/ => /Vec::new()/
//@ spec
    ensures r.exit_reason is Succeed, plain(tr(r), gas_limit@), r.gas_used == 0, r.logs@.len() == 0, r.ret@.len() == 0,
//@end

// ---- one transaction ----
pub open spec fn ask(tx: SignedTransaction, c: Config, p: Precompiles) -> Ask {
    let u = tx.transaction.unsigned;
    Ask { from: tx.sender, to: (match spec_action(u) { TransactionAction::Call(a) => Some(a), TransactionAction::Create => None }), value: spec_value(u), data: spec_data(u), gas: spec_limit(u) as u64, list: spec_list(u), conf: c, pre: p }
}
pub open spec fn capped(n: nat) -> nat { if n < pow256() { n } else { (pow256() - 1) as nat } }
pub open spec fn prepaid(s: St, tx: SignedTransaction) -> nat { s.price * spec_limit(tx.transaction.unsigned) }
pub open spec fn with_balance(x: Account, n: nat) -> Account { Account { balance: u256(n), ..x } }
pub open spec fn with_nonce(x: Account, n: nat) -> Account { Account { nonce: u256(n), ..x } }
pub open spec fn broke(s: St, tx: SignedTransaction) -> bool { row(s, tx.sender).balance@ < prepaid(s, tx) }
/// the state the machine starts from: the gas is paid
pub open spec fn paid(s: St, tx: SignedTransaction) -> St { set(s, tx.sender, with_balance(row(s, tx.sender), (row(s, tx.sender).balance@ - prepaid(s, tx)) as nat)) }
pub open spec fn ran(s: St, tx: SignedTransaction, c: Config, p: Precompiles) -> Run { run(paid(s, tx), ask(tx, c, p)) }
/// the state it leaves, before the rest of the gas is returned
pub open spec fn left(s: St, tx: SignedTransaction, c: Config, p: Precompiles) -> St {
    let x = ran(s, tx, c, p);
    if x.exit is Succeed { applied(paid(s, tx), x.changes, x.logs, true) } else { paid(s, tx) }
}
pub open spec fn returned(s: St, tx: SignedTransaction, c: Config, p: Precompiles) -> nat { ((spec_limit(tx.transaction.unsigned) - ran(s, tx, c, p).used) as nat) * s.price }
pub open spec fn evm_state(s: St, tx: SignedTransaction, c: Config, p: Precompiles) -> St {
    let me = row(s, tx.sender);
    if broke(s, tx) { set(s, tx.sender, with_nonce(me, me.nonce@ + 1)) } else {
        let t = left(s, tx, c, p);
        let mine = row(t, tx.sender);
        set(t, tx.sender, with_nonce(with_balance(mine, capped(mine.balance@ + returned(s, tx, c, p))), me.nonce@ + 1))
    }
}
pub open spec fn evm_result(s: St, tx: SignedTransaction, c: Config, p: Precompiles) -> Resp {
    let limit = spec_limit(tx.transaction.unsigned);
    if broke(s, tx) { Resp { exit: ExitReason::Error(ExitError::OutOfFund), ret: Seq::empty(), used: 0, left: limit as u64, fee: 0, logs: Seq::empty(), code: None, removed: false } } else {
        let x = ran(s, tx, c, p);
        Resp { exit: x.exit, ret: x.ret, used: x.used, left: (limit - x.used) as u64, fee: x.used as nat * s.price, logs: Seq::empty(),
            code: if spec_action(tx.transaction.unsigned) is Create && x.exit is Succeed { Some(code_addr(tx.sender, row(s, tx.sender).nonce)) } else { None }, removed: false }
    }
}
proof fn products(p: nat, l: nat)
    requires p < pow64(), l < pow64(),
    ensures p * l == l * p, p * l < pow64() * pow64(), pow64() * pow64() < pow256(), l == 0 ==> p * l == 0,
{
    assert(p * l == l * p) by (nonlinear_arith);
    assert(l == 0 ==> p * l == 0) by (nonlinear_arith);
    assert(p * l < pow64() * pow64()) by (nonlinear_arith) requires p < pow64(), l < pow64();
    assert(pow64() * pow64() < pow256()) by (compute);
}

// ---- the block ----
pub ghost struct FeeShare { pub address: H160, pub amount: nat }
pub struct Hex { pub h: u8 }
//@item protocol/src/types/primitive.rs :: struct ValidatorExtend
//@ sub /#\[cfg_attr\([^\]]*\]/ => //
//@end
//@item core/executor/src/utils.rs :: struct FeeInlet
//@end
pub struct DefaultFeeAllocator;
pub open spec fn weight(v: Seq<ValidatorExtend>, n: nat) -> int decreases n { if n == 0 || n > v.len() { 0 } else { weight(v, (n - 1) as nat) + v[n - 1].vote_weight } }
proof fn weight_grows(v: Seq<ValidatorExtend>, a: nat, b: nat) requires a <= b <= v.len() ensures 0 <= weight(v, a) <= weight(v, b) decreases b { if b > 0 { if a < b { weight_grows(v, a, (b - 1) as nat); } else { weight_grows(v, (a - 1) as nat, (b - 1) as nat); } } }
/// what each validator is due of the fees
pub open spec fn share(v: Seq<ValidatorExtend>, fee: nat, i: int) -> FeeShare { FeeShare { address: v[i].address, amount: (fee / (weight(v, v.len()) as nat)) * (v[i].vote_weight as nat) } }
pub open spec fn shares(number: nat, fee: nat, v: Seq<ValidatorExtend>) -> Seq<FeeShare> { if fee == 0 || number == 0 { Seq::empty() } else { Seq::new(v.len(), |i: int| share(v, fee, i)) } }
pub open spec fn inlets(l: Seq<FeeInlet>) -> Seq<FeeShare> { l.map_values(|x: FeeInlet| FeeShare { address: x.address, amount: x.amount@ }) }
pub open spec fn handed(v: Seq<FeeShare>, n: nat) -> nat decreases n { if n == 0 || n > v.len() { 0 } else { handed(v, (n - 1) as nat) + v[n - 1].amount } }
/// no more than the fees is handed out, and what is not is less than the total weight
proof fn shares_within(v: Seq<ValidatorExtend>, fee: nat, n: nat)
    requires n <= v.len(), weight(v, v.len()) > 0,
    ensures handed(Seq::new(v.len(), |i: int| share(v, fee, i)), n) == (fee / (weight(v, v.len()) as nat)) * (weight(v, n) as nat),
        handed(Seq::new(v.len(), |i: int| share(v, fee, i)), n) <= fee,
        n == v.len() ==> fee - handed(Seq::new(v.len(), |i: int| share(v, fee, i)), n) < weight(v, v.len()),
    decreases n,
{
    let w = weight(v, v.len()) as nat; let q = fee / w;
    let l = Seq::new(v.len(), |i: int| share(v, fee, i));
    weight_grows(v, n, v.len());
    assert(q * w <= fee && fee - q * w < w) by (nonlinear_arith) requires q == fee / w, w > 0;
    if n > 0 {
        shares_within(v, fee, (n - 1) as nat);
        weight_grows(v, (n - 1) as nat, v.len());
        let a = weight(v, (n - 1) as nat); let b = v[n - 1].vote_weight as int;
        assert(q * (a + b) == q * a + q * b) by (nonlinear_arith);
    } else { assert(q * 0 == 0) by (nonlinear_arith); }
    let m = weight(v, n) as nat;
    assert(q * m <= q * w) by (nonlinear_arith) requires m <= w;
}
impl DefaultFeeAllocator {
//@fn core/executor/src/utils.rs :: impl FeeAllocate for DefaultFeeAllocator/fn allocate
//@ isolate
//@ ret r
//@ sub /protocol::types::ValidatorExtend/ => /ValidatorExtend/
//@ collect u32 FeeInlet
//@ spec
    requires weight(validators@, validators@.len()) <= u32::MAX, validators@.len() > 0 ==> weight(validators@, validators@.len()) > 0,
    ensures inlets(r@) == shares(block_number@, fee_collect@, validators@),
//@ start
    proof { broadcast use num_axioms; if !(fee_collect@ == 0 || block_number@ == 0) { } }
//@ loop 0
    invariant at0_ <= validators@.len(), out0_ == weight(validators@, at0_ as nat), weight(validators@, validators@.len()) <= u32::MAX,
    decreases validators@.len() - at0_,
//@ loopstart 0
    proof { weight_grows(validators@, (at0_ + 1) as nat, validators@.len()); }
//@ loop 1
    invariant at1_ <= validators@.len(), weight_sum@ == weight(validators@, validators@.len()), validators@.len() > 0 ==> weight(validators@, validators@.len()) > 0,
        out1_@.len() == at1_, forall|i: int| 0 <= i < at1_ ==> (#[trigger] out1_@[i]).address == share(validators@, fee_collect@, i).address && out1_@[i].amount@ == share(validators@, fee_collect@, i).amount,
    decreases validators@.len() - at1_,
//@ loopstart 1
    proof {
        let w = weight(validators@, validators@.len()) as nat; let q = fee_collect@ / w; let b = validators@[at1_ as int].vote_weight as nat;
        weight_grows(validators@, at1_ as nat, validators@.len()); weight_grows(validators@, (at1_ + 1) as nat, validators@.len()); weight_grows(validators@, 0, at1_ as nat);
        assert(q * b <= fee_collect@ && q <= fee_collect@) by (nonlinear_arith) requires b <= w, q == fee_collect@ / w, w > 0;
        assert(fee_collect@ < pow256() && u256(q)@ == q && u256(q * b)@ == q * b);
    }
//@ loopend 1
    proof { let k = (at1_ - 1) as int; assert(out1_@[k].address == validators@[k].address); assert(inlets(out1_@)[k].amount == share(validators@, fee_collect@, k).amount); }
//@ loopafter 1
    proof { assert(inlets(out1_@) =~= Seq::new(validators@.len(), |i: int| share(validators@, fee_collect@, i))); }
//@end
}
pub open spec fn next_state(s: St, tx: SignedTransaction, c: Config) -> St {
    let b = St { price: spec_price(tx.transaction.unsigned), origin: tx.sender, ..s };
    let e = if is_system(b, tx) { system_state(b, tx) } else { evm_state(b, tx, c, precompiled()) };
    St { logs: Seq::empty(), ..e }
}
pub open spec fn next_result(s: St, tx: SignedTransaction, c: Config) -> Resp {
    let b = St { price: spec_price(tx.transaction.unsigned), origin: tx.sender, ..s };
    if is_system(b, tx) { Resp { logs: system_state(b, tx).logs, ..system_result(b, tx) } } else { Resp { logs: evm_state(b, tx, c, precompiled()).logs, ..evm_result(b, tx, c, precompiled()) } }
}
/// the state after the first n transactions, and the result of the one after them
pub open spec fn after(s: St, txs: Seq<SignedTransaction>, c: Config, n: nat) -> St decreases n { if n == 0 { s } else { next_state(after(s, txs, c, (n - 1) as nat), txs[n - 1], c) } }
pub open spec fn result(s: St, txs: Seq<SignedTransaction>, c: Config, n: nat) -> Resp { next_result(after(s, txs, c, n), txs[n as int], c) }
pub open spec fn gas_sum(s: St, txs: Seq<SignedTransaction>, c: Config, n: nat) -> nat decreases n { if n == 0 { 0 } else { gas_sum(s, txs, c, (n - 1) as nat) + result(s, txs, c, (n - 1) as nat).used as nat } }
pub open spec fn fee_sum(s: St, txs: Seq<SignedTransaction>, c: Config, n: nat) -> nat decreases n { if n == 0 { 0 } else { capped(fee_sum(s, txs, c, (n - 1) as nat) + result(s, txs, c, (n - 1) as nat).fee) } }
pub open spec fn begun(s: St) -> St { hooked_before(s) }
pub open spec fn done(s: St, txs: Seq<SignedTransaction>) -> St { after(begun(s), txs, conf_at(metadata_root(s)), txs.len()) }
pub open spec fn shares_of(s: St, txs: Seq<SignedTransaction>, v: Seq<ValidatorExtend>) -> Seq<FeeShare> { shares(s.number@, fee_sum(begun(s), txs, conf_at(metadata_root(s)), txs.len()), v) }
pub open spec fn given(s: St, l: Seq<FeeShare>, n: nat) -> St decreases n {
    if n == 0 { s } else { let t = given(s, l, (n - 1) as nat); let x = l[n - 1]; if x.amount == 0 { t } else { set(t, x.address, with_balance(row(t, x.address), row(t, x.address).balance@ + x.amount)) } }
}
/// no balance overflows
pub open spec fn room(s: St, l: Seq<FeeShare>) -> bool { forall|i: int| 0 <= i < l.len() ==> row(given(s, l, i as nat), (#[trigger] l[i]).address).balance@ + l[i].amount < pow256() }
pub uninterp spec fn metadata_root(s: St) -> H256;
pub uninterp spec fn max_contract_limit_at(root: H256) -> u64;
pub uninterp spec fn andromeda() -> bool;
pub uninterp spec fn london() -> Config;
pub open spec fn conf_at(root: H256) -> Config { if andromeda() { Config { create_contract_limit: Some(max_contract_limit_at(root) as usize), ..london() } } else { london() } }
impl Config { #[verifier::external_body] pub fn london() -> (r: Config) ensures r == london() { unimplemented!() } }
pub enum HardforkName { None, Andromeda }
#[verifier::external_body] pub fn enable_hardfork(n: HardforkName) -> (r: bool) ensures n is Andromeda ==> r == andromeda() { unimplemented!() }
pub struct Roots { pub metadata: H256 }
pub struct ConsensusConfig { pub max_contract_limit: u64 }
pub struct MetadataHandle { pub root: H256 }
#[derive(Debug)] pub struct Error0;
impl MetadataHandle {
    pub fn new(root: H256) -> (r: MetadataHandle) ensures r.root == root { MetadataHandle { root } }
    #[verifier::external_body] pub fn get_consensus_config(&self) -> (r: Result<ConsensusConfig, Error0>) ensures r matches Ok(c) && c.max_contract_limit == max_contract_limit_at(self.root) { unimplemented!() }
}
pub open spec fn bv(b: Bytes) -> Seq<u8> { b@ }
pub open spec fn after_refund(total: int) -> int { total - total / 5 }
#[verifier::external_body] pub struct Bloom { x: u8 }
pub uninterp spec fn bloom_of(l: Seq<Log>) -> Bloom;
#[verifier::external_body] pub fn logs_bloom(l: &Vec<Log>) -> (r: Bloom) ensures r == bloom_of(l@) { unimplemented!() }
/// a transaction's receipt as C05 says it is encoded
pub uninterp spec fn receipt_bytes(tx: SignedTransaction, r: Resp, b: Bloom) -> Seq<u8>;
pub open spec fn receipts(s: St, txs: Seq<SignedTransaction>, c: Config) -> Seq<Seq<u8>> { Seq::new(txs.len(), |i: int| receipt_bytes(txs[i], result(s, txs, c, i as nat), bloom_of(result(s, txs, c, i as nat).logs))) }
impl SignedTransaction { #[verifier::external_body] pub fn encode_receipt(&self, r: &TxResp, b: Bloom) -> (e: Bytes) ensures e@ == receipt_bytes(*self, tr(*r), b) { unimplemented!() } }
/// the root of a trie over the receipts (C14)
pub uninterp spec fn receipts_root(l: Seq<Seq<u8>>) -> H256;
pub uninterp spec fn null_root() -> H256;
#[verifier::external_body] pub fn rlp_null_() -> (r: H256) ensures r == null_root() { unimplemented!() }
#[verifier::external_body] pub struct TrieMerkle { x: u8 }
impl TrieMerkle {
    pub uninterp spec fn view(&self) -> Seq<Seq<u8>>;
    #[verifier::external_body] pub fn from_receipts(l: &Vec<Bytes>) -> (r: TrieMerkle) ensures r@ == l@.map_values(|b: Bytes| b@) { unimplemented!() }
    #[verifier::external_body] pub fn root_hash(&self) -> (r: Result<H256, Error0>) ensures r matches Ok(h) && h == receipts_root(self@) { unimplemented!() }
}
/// the statement for one transaction
proof fn charged(s: St, tx: SignedTransaction, c: Config, p: Precompiles, v: nat)
    requires s.price < pow64(), row(s, tx.sender).nonce@ + 1 < pow256(),
    ensures ({
        let t = evm_state(s, tx, c, p); let r = evm_result(s, tx, c, p); let me = row(s, tx.sender); let now = row(t, tx.sender);
        let limit = spec_limit(tx.transaction.unsigned);
        &&& now.nonce@ == me.nonce@ + 1
        &&& r.used + r.left == limit && r.fee == r.used as nat * s.price && r.fee <= limit * s.price
        &&& broke(s, tx) ==> r.fee == 0 && !(r.exit is Succeed) && now.balance@ == me.balance@ && (forall|a: H160| a != tx.sender ==> #[trigger] row(t, a) == row(s, a))
        // one that fails pays for its gas and does nothing else
        &&& !broke(s, tx) && !(r.exit is Succeed) ==> now.balance@ == me.balance@ - r.fee && now.storage_root == me.storage_root && now.code_hash == me.code_hash && t.rest == s.rest && t.logs == s.logs
            && (forall|a: H160| a != tx.sender ==> #[trigger] row(t, a) == row(s, a))
        // one that succeeds pays for its gas besides the v the machine moved out of its account
        &&& !broke(s, tx) && r.exit is Succeed && row(left(s, tx, c, p), tx.sender).balance@ + v == row(paid(s, tx), tx.sender).balance@ ==> now.balance@ == me.balance@ - v - r.fee
            && (forall|a: H160| a != tx.sender ==> #[trigger] row(t, a) == row(left(s, tx, c, p), a))
    }),
{
    let l = spec_limit(tx.transaction.unsigned); let x = ran(s, tx, c, p);
    gas_bound(paid(s, tx), ask(tx, c, p));
    assert(pow64() < pow256()) by (compute);
    products(s.price, l); products(s.price, x.used as nat); products(s.price, (l - x.used) as nat);
    assert(s.price * (x.used as nat) + s.price * ((l - x.used) as nat) == s.price * l) by (nonlinear_arith) requires x.used <= l;
}
pub struct AxonExecutor;
impl AxonExecutor {
//@fn core/executor/src/lib.rs :: impl AxonExecutor/fn evm_exec
//@ ret r
//@ collect (H160,Vec<H256>)
//@ sub /<Adapter: ExecutorAdapter>/ => //
//@ sub /&BTreeMap<H160, PrecompileFn>/ => /&Precompiles/
//@ sub /vec!\[\]/ => /Vec::new()/
//@ sub /(\w+(?:\s*\.\s*\w+(?:\(\))?)*)\s*\.to_vec\(\)/ => /to_vec_(\1)/
//@ sub /tx\.transaction\.unsigned\.action\(\) == &TransactionAction::Create/ => /matches!(*tx.transaction.unsigned.action(), TransactionAction::Create)/ 0
//@ sub /account\s*\.balance\s*\.checked_add\(([^()]*)\)\s*\.unwrap_or_else\(U256::max_value\)/ => /account.balance.saturating_add(\1)/ 0
//@ sub /(\w+\.\w+)\s*-=\s*/ => /\1 = \1 - / 0
//@ sub /(\w+\.\w+)\s*\+=\s*/ => /\1 = \1 + / 0
//@ spec
    requires old(adapter)@.price < pow64(),
    ensures final(adapter)@ == evm_state(old(adapter)@, *tx, *config, *precompiles),
        tr(r) == evm_result(old(adapter)@, *tx, *config, *precompiles),
//@ start
    proof {
        broadcast use num_axioms;
        let s = old(adapter)@;
        products(s.price, spec_limit(tx.transaction.unsigned));
        gas_bound(paid(s, *tx), ask(*tx, *config, *precompiles));
        let l = spec_limit(tx.transaction.unsigned);
        let x = ran(s, *tx, *config, *precompiles);
        assert(pow64() < pow256()) by (compute);
        assert(x.used <= l && x.left <= l);
        products(s.price, x.used as nat); products(s.price, (l - x.used) as nat);
    }
//@ loop 0
    invariant at0_ <= src0_@.len(), out0_@ =~= pairs(src0_@).subrange(0, at0_ as int),
    decreases src0_@.len() - at0_,
//@ loopafter 0
    proof { assert(out0_@ =~= spec_list(tx.transaction.unsigned)); }
//@end
//@fn core/executor/src/lib.rs :: impl AxonExecutor/fn config
//@ ret r
//@ sub /\(&self\)/ => /(&self, roots_: &Roots)/
//@ sub /MetadataHandle::new\(CURRENT_METADATA_ROOT\.with\(\|r\| \*r\.borrow\(\)\)\)/ => /MetadataHandle::new(roots_.metadata)/
//@ spec
    ensures r == conf_at(roots_.metadata),
//@end
    // the roots kept by the thread are those of the state (C22 reads them)
    #[verifier::external_body] fn init_local_system_contract_roots(&self, a: &Adapter) -> (r: Roots) ensures r.metadata == metadata_root(a@) { unimplemented!() }
//@fn core/executor/src/lib.rs :: impl Executor for AxonExecutor/fn call
//@ ret r
//@ sub /<B: Backend>/ => //
//@ sub /backend: &B,/ => /backend: &Adapter,/
//@ sub /self\.init_local_system_contract_roots\(/ => /let roots_ = self.init_local_system_contract_roots(/
//@ sub /self\.config\(\)/ => /self.config(&roots_)/
//@ sub /from\.unwrap_or_default\(\)/ => /address_or_default_(from)/
//@ sub /vec!\[\]/ => /Vec::new()/
//@ spec
    requires backend@.price < pow64(), is_estimate ==> gas_limit + gas_limit / 4 <= u64::MAX,
    ensures ({
        let q = Ask { from: (match from { Some(x) => x, None => h160(Seq::new(20, |i: int| 0u8)) }), to, value, data: data@, gas: gas_limit, list: Seq::empty(), conf: conf_at(metadata_root(backend@)), pre: precompiled() };
        let x = run(backend@, q);
        let g = if is_estimate { x.used + x.used / 4 } else { x.used as int };
        &&& r.exit_reason == x.exit && r.ret@ == x.ret && r.remain_gas == x.left && r.gas_used == g
        &&& r.fee_cost@ == capped(backend@.price * (g as nat))
        &&& r.logs@.len() == 0 && !r.removed
        &&& r.code_address == (if to is None { Some(wide(created_by(backend@, q.from))) } else { None::<H256> })
        // an estimate covers what was used before the refund, which is at most a fifth of it
        &&& forall|total: int| 0 <= total && #[trigger] after_refund(total) <= x.used && is_estimate ==> total <= r.gas_used
    }),
//@ start
    proof {
        broadcast use num_axioms;
        let q = Ask { from: (match from { Some(x) => x, None => h160(Seq::new(20, |i: int| 0u8)) }), to, value, data: data@, gas: gas_limit, list: Seq::empty(), conf: conf_at(metadata_root(backend@)), pre: precompiled() };
        gas_bound(backend@, q);
        assert(pow64() < pow256()) by (compute);
    }
//@end
//@fn core/executor/src/lib.rs :: impl Executor for AxonExecutor/fn exec
//@ ret r
//@ sub /<Adapter: ExecutorAdapter>/ => //
//@ sub /self\.init_local_system_contract_roots\(/ => /let roots_ = self.init_local_system_contract_roots(/
//@ sub /self\.config\(\)/ => /self.config(&roots_)/
//@ sub /system_contract_dispatch\(adapter, tx\)\s*\.unwrap_or_else\(\|\| ([^|;]*)\);/ => /match system_contract_dispatch(adapter, tx) { Some(r_) => r_, None => \1 };/ 0
//@ sub /logs_bloom\((\w+)\.logs\.iter\(\)\)/ => /logs_bloom(&\1.logs)/
//@ sub /\(\*FEE_ALLOCATOR\)\s*\.load\(\)\s*\.allocate\(/ => /DefaultFeeAllocator.allocate(/
//@ sub /\.unwrap_or_else\(\|\w+\| \{\s*panic!\([^;]*?\)\s*\}\)/ => /.unwrap()/ 0
//@ sub /RLP_NULL/ => /rlp_null_()/
//@ sub /(\w+\.\w+)\s*\+=\s*/ => /\1 = \1 + / 0
//@ spec
    requires
        forall|n: nat| n <= txs@.len() ==> #[trigger] gas_sum(begun(old(adapter)@), txs@, conf_at(metadata_root(old(adapter)@)), n) <= u64::MAX,
        forall|i: int| 0 <= i < txs@.len() ==> spec_price((#[trigger] txs@[i]).transaction.unsigned) < pow64(),
        weight(validators@, validators@.len() as nat) <= u32::MAX,
        validators@.len() > 0 ==> weight(validators@, validators@.len() as nat) > 0,
        room(done(old(adapter)@, txs@), shares_of(old(adapter)@, txs@, validators@)),
    ensures ({
        let s = begun(old(adapter)@);
        let c = conf_at(metadata_root(old(adapter)@));
        let n = txs@.len();
        let end = hooked_after(given(done(old(adapter)@, txs@), shares_of(old(adapter)@, txs@, validators@), shares_of(old(adapter)@, txs@, validators@).len()));
        &&& final(adapter)@ == committed(end) && r.state_root == root_of(end)
        &&& r.tx_resp@.len() == n && (forall|i: int| 0 <= i < n ==> tr(#[trigger] r.tx_resp@[i]) == result(s, txs@, c, i as nat))
        &&& r.gas_used == gas_sum(s, txs@, c, n)
        &&& r.receipt_root == (if n == 0 { null_root() } else { receipts_root(receipts(s, txs@, c)) })
    }),
//@ loop 0 it
    invariant
        it.seq().len() == txs@.len(), forall|i: int| 0 <= i < txs@.len() ==> *(#[trigger] it.seq()[i]) == txs@[i], res@.len() == it.index@, encode_receipts@.len() == it.index@, begun(s0_) == s_, c_ == config, c_ == conf_at(metadata_root(s0_)), precompiles == precompiled(),
        adapter@ == after(s_, txs@, c_, it.index@ as nat),
        forall|i: int| 0 <= i < it.index@ ==> tr(#[trigger] res@[i]) == result(s_, txs@, c_, i as nat),
        forall|i: int| 0 <= i < it.index@ ==> bv(#[trigger] encode_receipts@[i]) == receipt_bytes(txs@[i], result(s_, txs@, c_, i as nat), bloom_of(result(s_, txs@, c_, i as nat).logs)),
        gas == gas_sum(s_, txs@, c_, it.index@ as nat), fee@ == fee_sum(s_, txs@, c_, it.index@ as nat),
        forall|n: nat| n <= txs@.len() ==> #[trigger] gas_sum(s_, txs@, c_, n) <= u64::MAX,
        forall|i: int| 0 <= i < txs@.len() ==> spec_price((#[trigger] txs@[i]).transaction.unsigned) < pow64(),
//@ loopstart 0
    proof { assert(*tx == txs@[it.index@ as int]); assert(gas_sum(s_, txs@, c_, (it.index@ + 1) as nat) <= u64::MAX); assert(after(s_, txs@, c_, (it.index@ + 1) as nat) == next_state(adapter@, *tx, c_)); assert(fee_sum(s_, txs@, c_, (it.index@ + 1) as nat) == capped(fee@ + result(s_, txs@, c_, it.index@ as nat).fee)); }
//@ loopafter 0
    proof { assert(encode_receipts@.map_values(|b: Bytes| b@) =~= receipts(s_, txs@, c_)); }
//@ loop 1 it
    invariant
        it.seq().len() == shares_of(s0_, txs@, validators@).len(), forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i]).address == shares_of(s0_, txs@, validators@)[i].address && it.seq()[i].amount@ == shares_of(s0_, txs@, validators@)[i].amount, room(done(s0_, txs@), shares_of(s0_, txs@, validators@)),
        adapter@ == given(done(s0_, txs@), shares_of(s0_, txs@, validators@), it.index@ as nat),
//@ loopstart 1
    proof { let l = shares_of(s0_, txs@, validators@); let k = it.index@ as int; assert(l[k] == FeeShare { address: i.address, amount: i.amount@ }); }
//@ start
    let ghost s0_ = adapter@; let ghost s_ = begun(adapter@); let ghost c_ = conf_at(metadata_root(adapter@));
//@end
}
}
} // verus!
fn main() {}
