pub enum ExitSucceed { Stopped, Returned, Suicided }
pub struct PrecompileOutput { pub exit_status: ExitSucceed, pub output: Vec<u8> }
#[derive(Debug)]
pub enum PrecompileFailure { OutOfGas, Other }
pub struct Context;
pub type Out = Result<(PrecompileOutput, u64), PrecompileFailure>;
pub fn out_of_gas_() -> (r: PrecompileFailure) ensures r is OutOfGas { PrecompileFailure::OutOfGas }
pub fn other_() -> (r: PrecompileFailure) ensures r is Other { PrecompileFailure::Other }
/// what a run answers: nothing, or its output and its price
pub struct Answer { pub out: Seq<u8>, pub gas: nat }
pub open spec fn answer(r: Out) -> Option<Answer> { match r { Ok(x) if x.0.exit_status is Returned => Some(Answer { out: x.0.output@, gas: x.1 as nat }), _ => None } }
/// does the limit cover the price? (no limit: an inquiry)
pub open spec fn covers(limit: Option<u64>, gas: nat) -> bool { match limit { Some(l) => l >= gas, None => true } }
/// the answer of a contract of this price and result: too little gas, or an input it refuses, gives none
pub open spec fn priced(limit: Option<u64>, gas: nat, out: Option<Seq<u8>>) -> Option<Answer> { if covers(limit, gas) && out is Some { Some(Answer { out: out.unwrap(), gas }) } else { None } }
/// the caller takes the price from the limit, so an answer that costs more than the limit is none
pub open spec fn paid(limit: Option<u64>, a: Option<Answer>) -> Option<Answer> { if a is Some && covers(limit, a.unwrap().gas) { a } else { None } }
pub open spec fn words(n: nat) -> nat { (n + 31) / 32 }
/// 32 bytes from `at` on, zero beyond the end
pub open spec fn word(s: Seq<u8>, at: int) -> Seq<u8> { Seq::new(32, |i: int| if at + i < s.len() { s[at + i] } else { 0 }) }
pub open spec fn zeros(n: nat) -> Seq<u8> { Seq::new(n, |i: int| 0u8) }
pub open spec fn left_pad(s: Seq<u8>) -> Seq<u8> { zeros((32 - s.len()) as nat) + s }
/// the addresses 0x00..00NN and 0x00..01NN
pub open spec fn eip(n: u8) -> Seq<u8> { zeros(19).push(n) }
pub open spec fn axon(n: u8) -> Seq<u8> { zeros(18).push(1).push(n) }
#[verifier::external_body] pub fn to_vec_(s: &[u8]) -> (r: Vec<u8>) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body] pub fn mk160(x: [u8; 20]) -> (r: H160) ensures r@ == x@ { unimplemented!() }
//@fn core/executor/src/precompiles/mod.rs :: fn eip_precompile_address
//@ ret r
//@ sub /const fn/ => /fn/
//@ sub /H160\(\[/ => /mk160([/
//@ spec
    ensures r@ =~= eip(addr),
//@end
//@fn core/executor/src/precompiles/mod.rs :: fn axon_precompile_address
//@ ret r
//@ sub /const fn/ => /fn/
//@ sub /H160\(\[/ => /mk160([/
//@ spec
    ensures r@ =~= axon(addr),
//@end
