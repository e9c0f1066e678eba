//@include head.rs
pub mod sh {
use super::*;
//@include num.rs
//@include bytes.rs
}
use sh::*;
global size_of usize == 8;
// C36: the image cell contract's store.
pub mod shim {
use super::*;
use super::sh::*;
broadcast use {num_axioms, bytes_axioms};
pub type M = Map<Seq<u8>, Seq<u8>>;
#[verifier::external_body] pub struct SystemScriptError { x: u8 }
#[verifier::external_body] pub struct ProtocolError { x: u8 }
impl From<SystemScriptError> for ProtocolError { #[verifier::external_body] fn from(e: SystemScriptError) -> ProtocolError { unimplemented!() } }
pub type ProtocolResult<T> = Result<T, ProtocolError>;
#[verifier::external_body] pub fn fail_() -> (r: SystemScriptError) { unimplemented!() }
#[verifier::external_body] pub fn perr_() -> (r: ProtocolError) { unimplemented!() }
/// the trie (C32): what it holds, what was last committed, and whether its database can be read and written
pub struct Trie { pub m: Ghost<M>, pub done: Ghost<M>, pub well: Ghost<bool> }
impl Trie {
    #[verifier::external_body] pub fn get(&self, k: &[u8]) -> (r: Result<Option<Vec<u8>>, SystemScriptError>)
        ensures self.well@ ==> r is Ok, r matches Ok(v) ==> (match v { Some(b) => self.m@.dom().contains(k@) && b@ == self.m@[k@], None => !self.m@.dom().contains(k@) }) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: Vec<u8>, v: Vec<u8>) -> (r: Result<(), SystemScriptError>)
        ensures old(self).well@ ==> r is Ok, final(self).well@ == old(self).well@, final(self).done@ == old(self).done@, r is Ok ==> final(self).m@ == old(self).m@.insert(k@, v@) { unimplemented!() }
    #[verifier::external_body] pub fn remove(&mut self, k: &[u8]) -> (r: Result<bool, SystemScriptError>)
        ensures old(self).well@ ==> r is Ok, final(self).well@ == old(self).well@, final(self).done@ == old(self).done@,
            r matches Ok(b) ==> b == old(self).m@.dom().contains(k@) && final(self).m@ == old(self).m@.remove(k@) { unimplemented!() }
    #[verifier::external_body] pub fn commit(&mut self) -> (r: Result<H256, SystemScriptError>)
        ensures old(self).well@ ==> r is Ok, final(self).well@ == old(self).well@, final(self).m@ == old(self).m@, r is Ok ==> final(self).done@ == old(self).m@, r is Err ==> final(self).done@ == old(self).done@ { unimplemented!() }
}
#[verifier::external_body] pub fn set_root_(h: H256) { unimplemented!() }
/// `Ok(())` if a key was there to be removed
#[verifier::external_body] pub fn gone_(r: Result<bool, SystemScriptError>) -> (o: Result<(), SystemScriptError>) ensures o is Ok == (r == Ok::<bool, SystemScriptError>(true)) { unimplemented!() }
#[verifier::external_body] pub fn lift_<T>(r: Result<T, SystemScriptError>) -> (o: ProtocolResult<T>) ensures o is Ok == r is Ok, r matches Ok(v) ==> o == Ok::<T, ProtocolError>(v) { unimplemented!() }
#[verifier::external_body] pub fn bvec_(b: Bytes) -> (r: Vec<u8>) ensures r@ == b@ { unimplemented!() }
pub struct EthBytes(pub Bytes);
pub uninterp spec fn le4(i: u32) -> Seq<u8>;
#[verifier::external_body] pub fn le_(i: &u32) -> (r: Vec<u8>) ensures r@ == le4(*i) { unimplemented!() }
#[verifier::external_body] pub fn h256_(a: [u8; 32]) -> (r: H256) ensures r@ == a@ { unimplemented!() }
pub open spec fn key_of(h: Seq<u8>, i: u32) -> Seq<u8> { h + le4(i) }
/// a cell's output as CKB has it; the lock, the first type script if any, the capacity
#[verifier::external_body] pub struct PackedOutput { x: u8 }
pub struct Output { pub rest: Ghost<int> }
pub uninterp spec fn packed_output(o: Output) -> Seq<u8>;
impl PackedOutput { pub uninterp spec fn view(&self) -> Seq<u8>; #[verifier::external_body] pub fn as_bytes(&self) -> (r: Bytes) ensures r@ == self@ { unimplemented!() } }
#[verifier::external_body] pub fn output_(o: Output) -> (r: PackedOutput) ensures r@ == packed_output(o) { unimplemented!() }
pub mod image_cell_abi { use super::*; use super::super::sh::*;
    pub struct OutPoint { pub tx_hash: [u8; 32], pub index: u32 }
    pub struct CellInfo { pub out_point: OutPoint, pub output: Output, pub data: EthBytes }
    pub struct BlockUpdate { pub block_number: u64, pub tx_inputs: Vec<OutPoint>, pub tx_outputs: Vec<CellInfo> }
    pub struct BlockRollBlack { pub tx_inputs: Vec<OutPoint>, pub tx_outputs: Vec<OutPoint> }
    pub struct UpdateCall { pub blocks: Vec<BlockUpdate> }
    pub struct RollbackCall { pub blocks: Vec<BlockRollBlack> }
}
use image_cell_abi::{BlockRollBlack, BlockUpdate, OutPoint};
//@item core/executor/src/system_contract/image_cell/store.rs :: struct CellKey
//@end
//@item core/executor/src/system_contract/image_cell/store.rs :: struct CellInfo
//@end
/// what is stored of a cell, and read back (rlp)
pub ghost struct CellV { pub output: Seq<u8>, pub data: Seq<u8>, pub created: u64, pub consumed: Option<u64> }
pub open spec fn cell_v(c: CellInfo) -> CellV { CellV { output: c.cell_output@, data: c.cell_data@, created: c.created_number, consumed: c.consumed_number } }
pub uninterp spec fn enc(c: CellV) -> Seq<u8>;
pub uninterp spec fn dec(b: Seq<u8>) -> Option<CellV>;
#[verifier::external_body] pub fn encode_(c: &CellInfo) -> (r: Vec<u8>) ensures r@ == enc(cell_v(*c)) { unimplemented!() }
#[verifier::external_body] pub fn decode_(b: &Vec<u8>) -> (r: ProtocolResult<CellInfo>) ensures match dec(b@) { Some(v) => r matches Ok(c) && cell_v(c) == v, None => r is Err } { unimplemented!() }
pub struct ImageCellStore { pub trie: Trie }
pub open spec fn pkey(o: OutPoint) -> Seq<u8> { key_of(o.tx_hash@, o.index) }
/// the cells made by a block
pub open spec fn made(m: M, s: Seq<image_cell_abi::CellInfo>, n: u64) -> M decreases s.len() {
    if s.len() == 0 { m } else { made(m, s.drop_last(), n).insert(pkey(s.last().out_point), enc(CellV { output: packed_output(s.last().output), data: s.last().data.0@, created: n, consumed: None })) }
}
/// a known cell is marked as consumed by a block, or as not consumed; an unknown one is passed over
pub open spec fn mark(m: M, k: Seq<u8>, n: Option<u64>) -> M { if m.dom().contains(k) { m.insert(k, enc(CellV { consumed: n, ..dec(m[k])->0 })) } else { m } }
pub open spec fn marked(m: M, s: Seq<OutPoint>, n: Option<u64>) -> M decreases s.len() { if s.len() == 0 { m } else { mark(marked(m, s.drop_last(), n), pkey(s.last()), n) } }
pub open spec fn gone(m: M, s: Seq<OutPoint>) -> Option<M> decreases s.len() {
    if s.len() == 0 { Some(m) } else { match gone(m, s.drop_last()) { Some(n) => if n.dom().contains(pkey(s.last())) { Some(n.remove(pkey(s.last()))) } else { None }, None => None } }
}
pub open spec fn updated(m: M, s: Seq<BlockUpdate>) -> M decreases s.len() {
    if s.len() == 0 { m } else { marked(made(updated(m, s.drop_last()), s.last().tx_outputs@, s.last().block_number), s.last().tx_inputs@, Some(s.last().block_number)) }
}
pub open spec fn back(m: M, s: Seq<BlockRollBlack>) -> Option<M> decreases s.len() {
    if s.len() == 0 { Some(m) } else { match back(m, s.drop_last()) { Some(n) => (match gone(n, s.last().tx_outputs@) { Some(x) => Some(marked(x, s.last().tx_inputs@, None)), None => None }), None => None } }
}
/// taking cells away and releasing others may be done in either order
pub proof fn gone_mark(m: M, s: Seq<OutPoint>, k: Seq<u8>, n: Option<u64>)
    ensures gone(mark(m, k, n), s) == (match gone(m, s) { Some(x) => Some(mark(x, k, n)), None => None })
    decreases s.len()
{
    if s.len() > 0 {
        gone_mark(m, s.drop_last(), k, n);
        let j = pkey(s.last());
        match gone(m, s.drop_last()) {
            Some(x) => { if x.dom().contains(j) { assert(mark(x, k, n).remove(j) =~= mark(x.remove(j), k, n)); } }
            None => {}
        }
    }
}
pub proof fn gone_marked(m: M, s: Seq<OutPoint>, t: Seq<OutPoint>, n: Option<u64>)
    ensures gone(marked(m, t, n), s) == (match gone(m, s) { Some(x) => Some(marked(x, t, n)), None => None })
    decreases t.len()
{
    if t.len() > 0 { gone_marked(m, s, t.drop_last(), n); gone_mark(marked(m, t.drop_last(), n), s, pkey(t.last()), n); }
}
pub proof fn step<T>(s: Seq<T>, i: int) requires 0 <= i < s.len() ensures s.take(i + 1).drop_last() == s.take(i), s.take(i + 1).last() == s[i], s.take(i + 1).len() == i + 1 { assert(s.take(i + 1).drop_last() =~= s.take(i)); }
}
use shim::*;
broadcast use {num_axioms, bytes_axioms};
impl CellKey {
//@item core/executor/src/system_contract/image_cell/store.rs :: impl CellKey/const ENCODED_LEN
//@end
//@fn core/executor/src/system_contract/image_cell/store.rs :: impl CellKey/fn new
//@ ret r
//@ sub /\bH256\(tx_hash\)/ => /h256_(tx_hash)/
//@ spec
    ensures r.tx_hash@ == tx_hash@, r.index == index,
//@end
//@fn core/executor/src/system_contract/image_cell/store.rs :: impl CellKey/fn encode
//@ ret r
//@ sub /&self\.tx_hash\.0/ => /self.tx_hash.as_bytes()/ 0
//@ sub /&self\.index\.to_le_bytes\(\)/ => /&le_(&self.index)/ 0
//@ sub /ret\.into\(\)/ => /Bytes::from(ret)/ 0
//@ spec
    ensures r@ == key_of(self.tx_hash@, self.index),
//@end
}
impl ImageCellStore {
//@fn core/executor/src/system_contract/image_cell/store.rs :: impl ImageCellStore/fn update
//@ ret r
//@ loop 0 it
    invariant it.seq() == data.blocks@, 0 <= it.index@ <= data.blocks@.len(), self.trie.done@ == old(self).trie.done@, self.trie.m@ == updated(old(self).trie.m@, data.blocks@.take(it.index@ as int)),
//@ loopstart 0
    proof { step(data.blocks@, it.index@ as int); }
//@ loopafter 0
    proof { assert(data.blocks@.take(data.blocks@.len() as int) =~= data.blocks@); }
//@ spec
    ensures r is Ok ==> final(self).trie.done@ == updated(old(self).trie.m@, data.blocks@), r is Err ==> final(self).trie.done@ == old(self).trie.done@,
//@end
//@fn core/executor/src/system_contract/image_cell/store.rs :: impl ImageCellStore/fn rollback
//@ ret r
//@ loop 0 it
    invariant it.seq() == data.blocks@, 0 <= it.index@ <= data.blocks@.len(), self.trie.done@ == old(self).trie.done@, back(old(self).trie.m@, data.blocks@.take(it.index@ as int)) == Some(self.trie.m@),
//@ loopstart 0
    proof { step(data.blocks@, it.index@ as int); gone_marked(self.trie.m@, data.blocks@[it.index@ as int].tx_outputs@, data.blocks@[it.index@ as int].tx_inputs@, None); }
//@ loopafter 0
    proof { assert(data.blocks@.take(data.blocks@.len() as int) =~= data.blocks@); }
//@ spec
    ensures r is Ok ==> back(old(self).trie.m@, data.blocks@) == Some(final(self).trie.done@), r is Err ==> final(self).trie.done@ == old(self).trie.done@,
//@end
//@fn core/executor/src/system_contract/image_cell/store.rs :: impl ImageCellStore/fn mark_cells_consumed
//@ ret r
//@ sub /if let Some\(ref mut cell\) = self\.get_cell\(&key\)\? \{/ => /if let Some(cell0_) = self.get_cell(&key)? { let mut cell = cell0_;/ 0
//@ sub /self\.insert_cell\(&key, cell\)/ => /self.insert_cell(&key, &cell)/ 0
//@ loop 0 it
    invariant it.seq() == inputs@, 0 <= it.index@ <= inputs@.len(), self.trie.done@ == old(self).trie.done@, self.trie.m@ == marked(old(self).trie.m@, inputs@.take(it.index@ as int), Some(new_block_number)),
//@ loopstart 0
    proof { step(inputs@, it.index@ as int); }
//@ loopafter 0
    proof { assert(inputs@.take(inputs@.len() as int) =~= inputs@); }
//@ spec
    ensures r is Ok ==> final(self).trie.m@ == marked(old(self).trie.m@, inputs@, Some(new_block_number)), final(self).trie.done@ == old(self).trie.done@,
//@end
//@fn core/executor/src/system_contract/image_cell/store.rs :: impl ImageCellStore/fn mark_cells_not_consumed
//@ ret r
//@ sub /if let Some\(ref mut cell\) = self\.get_cell\(&key\)\? \{/ => /if let Some(cell0_) = self.get_cell(&key)? { let mut cell = cell0_;/ 0
//@ sub /self\.insert_cell\(&key, cell\)/ => /self.insert_cell(&key, &cell)/ 0
//@ loop 0 it
    invariant it.seq() == inputs@, 0 <= it.index@ <= inputs@.len(), self.trie.done@ == old(self).trie.done@, self.trie.m@ == marked(old(self).trie.m@, inputs@.take(it.index@ as int), None),
//@ loopstart 0
    proof { step(inputs@, it.index@ as int); }
//@ loopafter 0
    proof { assert(inputs@.take(inputs@.len() as int) =~= inputs@); }
//@ spec
    ensures r is Ok ==> final(self).trie.m@ == marked(old(self).trie.m@, inputs@, None), final(self).trie.done@ == old(self).trie.done@,
//@end
//@fn core/executor/src/system_contract/image_cell/store.rs :: impl ImageCellStore/fn remove_cells
//@ ret r
//@ loop 0 it
    invariant it.seq() == outputs@, 0 <= it.index@ <= outputs@.len(), self.trie.done@ == old(self).trie.done@, gone(old(self).trie.m@, outputs@.take(it.index@ as int)) == Some(self.trie.m@),
//@ loopstart 0
    proof { step(outputs@, it.index@ as int); }
//@ loopafter 0
    proof { assert(outputs@.take(outputs@.len() as int) =~= outputs@); }
//@ spec
    ensures r is Ok ==> gone(old(self).trie.m@, outputs@) == Some(final(self).trie.m@), final(self).trie.done@ == old(self).trie.done@,
//@end
//@fn core/executor/src/system_contract/image_cell/store.rs :: impl ImageCellStore/fn save_cells
//@ ret r
//@ sub /let lock = cell\.output\.lock;.*?let cell_output = packed::CellOutput::new_builder\(\)(?:\s*\.\w+\((?:[^()]|\([^()]*\))*\))*;/ => /let cell_output = output_(cell.output);/
//@ loop 0 it
    invariant it.seq() == outputs@, 0 <= it.index@ <= outputs@.len(), self.trie.done@ == old(self).trie.done@, self.trie.m@ == made(old(self).trie.m@, outputs@.take(it.index@ as int), created_number),
//@ loopstart 0
    proof { step(outputs@, it.index@ as int); }
//@ loopafter 0
    proof { assert(outputs@.take(outputs@.len() as int) =~= outputs@); }
//@ spec
    ensures r is Ok ==> final(self).trie.m@ == made(old(self).trie.m@, outputs@, created_number), final(self).trie.done@ == old(self).trie.done@,
//@end
//@fn core/executor/src/system_contract/image_cell/store.rs :: impl ImageCellStore/fn get_cell
//@ ret r
//@ sub /SystemScriptError::GetCell\(\w+\.to_string\(\)\)/ => /fail_()/ 0
//@ sub /rlp::decode\(&cell\)\s*\.map_err\(SystemScriptError::DecodeCell\)/ => /decode_(&cell)/ 0
//@ spec
    ensures *final(self) == *old(self), r matches Ok(c) ==> (match c { Some(x) => final(self).trie.m@.dom().contains(key_of(key.tx_hash@, key.index)) && dec(final(self).trie.m@[key_of(key.tx_hash@, key.index)]) == Some(cell_v(x)), None => !final(self).trie.m@.dom().contains(key_of(key.tx_hash@, key.index)) }),
//@end
//@fn core/executor/src/system_contract/image_cell/store.rs :: impl ImageCellStore/fn insert_cell
//@ ret r
//@ sub /key\.encode\(\)\.to_vec\(\)/ => /bvec_(key.encode())/ 0
//@ sub /rlp::encode\(cell\)\.to_vec\(\)/ => /encode_(cell)/ 0
//@ sub /self\.trie\s*\.insert\((.*)\)\s*\.map_err\(\|e\| SystemScriptError::\w+\(e\.to_string\(\)\)\.into\(\)\)/ => /lift_(self.trie.insert(\1))/
//@ spec
    ensures r is Ok ==> final(self).trie.m@ == old(self).trie.m@.insert(key_of(key.tx_hash@, key.index), enc(cell_v(*cell))), final(self).trie.done@ == old(self).trie.done@,
//@end
//@fn core/executor/src/system_contract/image_cell/store.rs :: impl ImageCellStore/fn remove_cell
//@ ret r
//@ sub /self\.trie\s*\.remove\(&(\w+)\)\s*\.map_err\(\|e\| SystemScriptError::\w+\(e\.to_string\(\)\)\)\s*\.and_then\(\|removed\| \{\s*if removed \{\s*Ok\(\(\)\)\s*\} else \{[^{}]*\{[^{}]*\}[^{}]*Err\([^{}]*\}\s*\}\)\s*\.map_err\(Into::into\)/ => /lift_(gone_(self.trie.remove(\1.as_ref())))/
//@ spec
    ensures r is Ok ==> old(self).trie.m@.dom().contains(key_of(cell_key.tx_hash@, cell_key.index)) && final(self).trie.m@ == old(self).trie.m@.remove(key_of(cell_key.tx_hash@, cell_key.index)), final(self).trie.done@ == old(self).trie.done@,
//@end
//@fn core/executor/src/system_contract/image_cell/store.rs :: impl ImageCellStore/fn commit
//@ ret r
//@ sub /CURRENT_HEADER_CELL_ROOT\.with\(\|r\| \*r\.borrow_mut\(\) = (\w+)\)/ => /set_root_(\1)/
//@ sub /SystemScriptError::CommitError\(\w+\.to_string\(\)\)/ => /fail_()/ 0
//@ spec
    ensures r is Ok ==> final(self).trie.done@ == old(self).trie.m@, r is Err ==> final(self).trie.done@ == old(self).trie.done@,
//@end
}
}
fn main() {}
