//@include head.rs
// C34: a call into a CKB program, and the CKB forms of cells, out points and scripts.
pub mod sh {
use super::*;
#[verifier::external_body] pub struct Bytes { x: Vec<u8> }
impl Bytes {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body] pub fn pack(&self) -> (r: PBytes) ensures r@ == self@ { unimplemented!() }
}
/// crate ethereum_types' and ckb_types' 32 bytes
#[derive(Clone, Copy)]
pub struct H256(pub [u8; 32]);
#[derive(Clone, Copy)]
pub struct CkbH256(pub [u8; 32]);
// ---- crate ckb_types, trusted: a packed value holds what it was packed from ----
#[verifier::external_body] pub struct PBytes { x: Vec<u8> }
impl PBytes { pub uninterp spec fn view(&self) -> Seq<u8>; }
pub trait Pack<T> { fn pack(&self) -> T; }
pub trait Unpack<T> { fn unpack(&self) -> T; }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Byte32 { x: [u8; 32] }
impl Byte32 { pub uninterp spec fn view(&self) -> [u8; 32]; #[verifier::external_body] pub fn unpack(&self) -> (r: CkbH256) ensures r.0 == self@ { unimplemented!() } }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Uint32 { x: [u8; 4] }
impl Uint32 { pub uninterp spec fn view(&self) -> u32; #[verifier::external_body] pub fn unpack(&self) -> (r: u32) ensures r == self@ { unimplemented!() } }
impl Pack<Byte32> for [u8; 32] { #[verifier::external_body] fn pack(&self) -> (r: Byte32) ensures r@ == *self { unimplemented!() } }
impl Pack<Uint32> for u32 { #[verifier::external_body] fn pack(&self) -> (r: Uint32) ensures r@ == *self { unimplemented!() } }
pub mod packed {
use super::*;
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Byte { x: u8 }
impl Byte { pub uninterp spec fn view(&self) -> u8; #[verifier::external_body] pub fn new(b: u8) -> (r: Byte) ensures r@ == b { unimplemented!() } }
#[verifier::external_body] pub fn byte_from(b: u8) -> (r: Byte) ensures r@ == b { unimplemented!() }
pub struct OutPoint { pub tx_hash_: Byte32, pub index_: Uint32 }
impl OutPoint {
    pub fn tx_hash(&self) -> (r: Byte32) ensures r == self.tx_hash_ { self.tx_hash_ }
    pub fn index(&self) -> (r: Uint32) ensures r == self.index_ { self.index_ }
}
pub struct OutPointBuilder { pub b: OutPoint }
impl OutPointBuilder {
    #[verifier::external_body] pub fn default() -> (r: OutPointBuilder) { unimplemented!() }
    pub fn tx_hash(self, v: Byte32) -> (r: Self) ensures r.b == (OutPoint { tx_hash_: v, ..self.b }) { OutPointBuilder { b: OutPoint { tx_hash_: v, index_: self.b.index_ } } }
    pub fn index(self, v: Uint32) -> (r: Self) ensures r.b == (OutPoint { index_: v, ..self.b }) { OutPointBuilder { b: OutPoint { index_: v, tx_hash_: self.b.tx_hash_ } } }
    pub fn build(self) -> (r: OutPoint) ensures r == self.b { self.b }
}
pub struct CellDep { pub out_point_: OutPoint, pub dep_type_: Byte }
impl CellDep { #[verifier::external_body] pub fn out_point(&self) -> (r: OutPoint) ensures r == self.out_point_ { unimplemented!() } }
pub struct CellDepBuilder { pub b: CellDep }
impl CellDepBuilder {
    #[verifier::external_body] pub fn default() -> (r: CellDepBuilder) { unimplemented!() }
    pub fn out_point(self, v: OutPoint) -> (r: Self) ensures r.b == (CellDep { out_point_: v, ..self.b }) { CellDepBuilder { b: CellDep { out_point_: v, dep_type_: self.b.dep_type_ } } }
    pub fn dep_type(self, v: Byte) -> (r: Self) ensures r.b == (CellDep { dep_type_: v, ..self.b }) { CellDepBuilder { b: CellDep { dep_type_: v, out_point_: self.b.out_point_ } } }
    pub fn build(self) -> (r: CellDep) ensures r == self.b { self.b }
}
pub struct Script { pub code_hash_: Byte32, pub args_: PBytes, pub hash_type_: Byte }
pub struct ScriptBuilder { pub b: Script }
impl ScriptBuilder {
    #[verifier::external_body] pub fn default() -> (r: ScriptBuilder) { unimplemented!() }
    pub fn code_hash(self, v: Byte32) -> (r: Self) ensures r.b == (Script { code_hash_: v, ..self.b }) { ScriptBuilder { b: Script { code_hash_: v, args_: self.b.args_, hash_type_: self.b.hash_type_ } } }
    pub fn args(self, v: PBytes) -> (r: Self) ensures r.b == (Script { args_: v, ..self.b }) { ScriptBuilder { b: Script { args_: v, code_hash_: self.b.code_hash_, hash_type_: self.b.hash_type_ } } }
    pub fn hash_type(self, v: Byte) -> (r: Self) ensures r.b == (Script { hash_type_: v, ..self.b }) { ScriptBuilder { b: Script { hash_type_: v, code_hash_: self.b.code_hash_, args_: self.b.args_ } } }
    pub fn build(self) -> (r: Script) ensures r == self.b { self.b }
}
}
// ---- crate ckb_vm, trusted: what a program does is a function of the machine, the program, its arguments and the limit ----
pub const ISA_IMC: u8 = 0b0000_0000;
pub const ISA_B: u8 = 0b0000_0001;
pub const ISA_MOP: u8 = 0b0000_0010;
pub const VERSION1: u32 = 1;
#[verifier::external_body] pub struct VMError { x: u8 }
/// what each instruction costs: nothing unless it is said otherwise, or the model CKB has
pub enum Cost { Free, Estimate }
pub uninterp spec fn load_error(isa: u8, version: u32, max: u64, program: Seq<u8>, args: Seq<Seq<u8>>) -> Option<VMError>;
/// how it ends, and the cycles it took
pub uninterp spec fn outcome(cost: Cost, isa: u8, version: u32, max: u64, program: Seq<u8>, args: Seq<Seq<u8>>) -> (Result<i8, VMError>, u64);
pub struct AsmCoreMachine { pub isa: u8, pub version: u32, pub max: u64 }
impl AsmCoreMachine { pub fn new(isa: u8, version: u32, max: u64) -> (r: AsmCoreMachine) ensures r == (AsmCoreMachine { isa, version, max }) { AsmCoreMachine { isa, version, max } } }
pub struct DefaultMachine { pub core: AsmCoreMachine, pub cost: Cost, pub spent: u64 }
impl DefaultMachine { pub fn cycles(&self) -> (r: u64) ensures r == self.spent { self.spent } }
pub struct DefaultMachineBuilder { pub core: AsmCoreMachine, pub cost: Cost }
impl DefaultMachineBuilder {
    pub fn new(core: AsmCoreMachine) -> (r: DefaultMachineBuilder) ensures r.core == core, r.cost is Free { DefaultMachineBuilder { core, cost: Cost::Free } }
    pub fn instruction_cycle_func(self, cost: Cost) -> (r: DefaultMachineBuilder) ensures r.core == self.core, r.cost == cost { DefaultMachineBuilder { core: self.core, cost } }
    pub fn build(self) -> (r: DefaultMachine) ensures r.core == self.core, r.cost == self.cost, r.spent == 0 { DefaultMachine { core: self.core, cost: self.cost, spent: 0 } }
}
pub struct AsmMachine { pub machine: DefaultMachine, pub loaded: Ghost<Option<(Seq<u8>, Seq<Seq<u8>>)>> }
pub open spec fn views(a: Seq<Bytes>) -> Seq<Seq<u8>> { a.map_values(|b: Bytes| b@) }
impl AsmMachine {
    pub fn new(m: DefaultMachine) -> (r: AsmMachine) ensures r.machine == m, r.loaded@ is None { AsmMachine { machine: m, loaded: Ghost(None) } }
    #[verifier::external_body] pub fn load_program(&mut self, program: &Bytes, args: &[Bytes]) -> (r: Result<u64, VMError>)
        ensures final(self).machine.core == old(self).machine.core, final(self).machine.cost == old(self).machine.cost, final(self).loaded@ == Some((program@, views(args@))),
            match load_error(old(self).machine.core.isa, old(self).machine.core.version, old(self).machine.core.max, program@, views(args@)) { Some(e) => r == Err::<u64, VMError>(e), None => r is Ok } { unimplemented!() }
    #[verifier::external_body] pub fn run(&mut self) -> (r: Result<i8, VMError>)
        requires old(self).loaded@ is Some
        ensures final(self).machine.core == old(self).machine.core, final(self).machine.cost == old(self).machine.cost, final(self).loaded == old(self).loaded,
            (r, final(self).machine.spent) == outcome(old(self).machine.cost, old(self).machine.core.isa, old(self).machine.core.version, old(self).machine.core.max, old(self).loaded@.unwrap().0, old(self).loaded@.unwrap().1) { unimplemented!() }
}
/// the cells a call may read
pub trait CellDataProvider {
    spec fn holds(&self, tx: [u8; 32], index: u32) -> Option<Seq<u8>>;
    fn get_cell_data(&self, out_point: &packed::OutPoint) -> (r: Option<Bytes>)
        ensures match self.holds(out_point.tx_hash_@, out_point.index_@) { Some(p) => r matches Some(b) && b@ == p, None => r is None };
}
}
use sh::*;
use sh::packed;
//@item protocol/src/types/interoperation.rs :: struct VMResp
//@end
//@item protocol/src/types/interoperation.rs :: struct Script
//@end
//@item protocol/src/types/interoperation.rs :: struct OutPoint
//@end
//@item protocol/src/types/interoperation.rs :: struct CellDep
//@end
/// a packed value says the same
pub open spec fn same_dep(p: packed::CellDep, d: CellDep) -> bool { p.out_point_.tx_hash_@ == d.tx_hash.0 && p.out_point_.index_@ == d.index && p.dep_type_@ == d.dep_type }
pub open spec fn same_script(p: packed::Script, d: Script) -> bool { p.code_hash_@ == d.code_hash.0 && p.args_@ == d.args@ && p.hash_type_@ == d.hash_type }
//@fn protocol/src/types/interoperation.rs :: impl From<&Script> for packed::Script/fn from
//@ ret r
//@ sub /fn from\(/ => /fn script_from_(/
//@ sub /-> Self/ => /-> packed::Script/
//@ sub /(\w+)\.hash_type\.into\(\)/ => /packed::byte_from(\1.hash_type)/ 0
//@ spec
    ensures same_script(r, *s),
//@end
//@fn protocol/src/types/interoperation.rs :: impl From<&CellDep> for packed::CellDep/fn from
//@ ret r
//@ sub /fn from\(/ => /fn dep_from_(/
//@ spec
    ensures same_dep(r, *dep),
//@end
//@fn protocol/src/types/interoperation.rs :: impl From<&packed::OutPoint> for OutPoint/fn from
//@ ret r
//@ sub /fn from\(/ => /fn out_point_from_(/
//@ sub /-> Self/ => /-> OutPoint/
//@ spec
    ensures r.tx_hash.0 == out_point.tx_hash_@, r.index == out_point.index_@,
//@end
impl Script {
//@fn protocol/src/types/interoperation.rs :: impl Script/fn len
//@ ret r
//@ spec
    requires self.args@.len() <= usize::MAX - 33,
    ensures r == 33 + self.args@.len(),
//@end
}
pub mod vm {
use super::*;
use super::sh::*;
//@item core/interoperation/src/lib.rs :: const ISA
//@end
pub enum InteroperationError { GetProgram(OutPoint), CkbVM(VMError), Other }
pub enum ProtocolError { Interoperation(InteroperationError), Other }
impl FromSpecImpl<InteroperationError> for ProtocolError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: InteroperationError) -> ProtocolError { ProtocolError::Interoperation(e) } }
impl From<InteroperationError> for ProtocolError { fn from(e: InteroperationError) -> ProtocolError { ProtocolError::Interoperation(e) } }
pub type ProtocolResult<T> = Result<T, ProtocolError>;
pub struct Context { pub x: u8 }
/// all three instruction sets
proof fn isa_all() ensures ISA == 3u8 { assert(0u8 | 1u8 | 2u8 == 3u8) by (bit_vector); }
/// the named cell's program on these arguments, within the limit
pub open spec fn answer<DL: CellDataProvider>(dl: &DL, c: CellDep, args: Seq<Seq<u8>>, max: u64, r: ProtocolResult<VMResp>) -> bool {
    match dl.holds(c.tx_hash.0, c.index) {
        Some(p) if load_error(3, 1, max, p, args) is None && outcome(Cost::Estimate, 3, 1, max, p, args).0 is Ok
            => r == Ok::<VMResp, ProtocolError>(VMResp { exit_code: outcome(Cost::Estimate, 3, 1, max, p, args).0->Ok_0, cycles: outcome(Cost::Estimate, 3, 1, max, p, args).1 }),
        _ => r is Err,
    }
}
//@fn core/interoperation/src/lib.rs :: impl Interoperation for InteroperationImpl/fn call_ckb_vm
//@ ret r
//@ sub /let data_cell_dep: packed::CellDep = \(&data_cell_dep\)\.into\(\);/ => /let data_cell_dep: packed::CellDep = dep_from_(&data_cell_dep);/ 1
//@ sub /\(&data_cell_dep\.out_point\(\)\)\.into\(\)/ => /out_point_from_(&data_cell_dep.out_point())/ 1
//@ sub /\.ok_or_else\(\|\|\s*(InteroperationError::GetProgram\(.*?\))\)\?;/ => /.ok_or(\1)?;/ 1
//@ sub /\.map_err\(InteroperationError::CkbVM\)/ => /.map_err(|e: VMError| -> (o: InteroperationError) ensures o == InteroperationError::CkbVM(e) { InteroperationError::CkbVM(e) })/
//@ sub /Box::new\(estimate_cycles\)/ => /Cost::Estimate/ 0
//@ sub /ckb_vm::machine::asm::AsmMachine/ => /AsmMachine/ 0
//@ spec
    ensures answer(data_loader, data_cell_dep, views(args@), max_cycles, r),
//@ start
    proof { isa_all(); }
//@end
}
}
fn main() {}
