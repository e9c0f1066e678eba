//@include head.rs
pub mod sh {
use super::*;
//@include num.rs
//@include bytes.rs
}
use sh::*;
global size_of usize == 8;
// C36: what the CKB light client and the image cell contract hold of CKB.
pub mod shim {
use super::*;
use super::sh::*;
broadcast use {num_axioms, bytes_axioms};
pub type M = Map<Seq<u8>, Seq<u8>>;
#[verifier::external_body] pub struct SystemScriptError { x: u8 }
#[verifier::external_body] pub struct ProtocolError { x: u8 }
impl From<SystemScriptError> for ProtocolError { #[verifier::external_body] fn from(e: SystemScriptError) -> ProtocolError { unimplemented!() } }
pub type ProtocolResult<T> = Result<T, ProtocolError>;
#[verifier::external_body] pub fn fail_() -> (r: SystemScriptError) { unimplemented!() }
#[verifier::external_body] pub fn perr_() -> (r: ProtocolError) { unimplemented!() }
/// the trie (C32): what it holds, what was last committed, and whether its database can be read and written
pub struct Trie { pub m: Ghost<M>, pub done: Ghost<M>, pub well: Ghost<bool> }
impl Trie {
    #[verifier::external_body] pub fn get(&self, k: &[u8]) -> (r: Result<Option<Vec<u8>>, SystemScriptError>)
        ensures self.well@ ==> r is Ok, r matches Ok(v) ==> (match v { Some(b) => self.m@.dom().contains(k@) && b@ == self.m@[k@], None => !self.m@.dom().contains(k@) }) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: Vec<u8>, v: Vec<u8>) -> (r: Result<(), SystemScriptError>)
        ensures old(self).well@ ==> r is Ok, final(self).well@ == old(self).well@, final(self).done@ == old(self).done@, r is Ok ==> final(self).m@ == old(self).m@.insert(k@, v@) { unimplemented!() }
    #[verifier::external_body] pub fn remove(&mut self, k: &[u8]) -> (r: Result<bool, SystemScriptError>)
        ensures old(self).well@ ==> r is Ok, final(self).well@ == old(self).well@, final(self).done@ == old(self).done@,
            r matches Ok(b) ==> b == old(self).m@.dom().contains(k@) && final(self).m@ == old(self).m@.remove(k@) { unimplemented!() }
    #[verifier::external_body] pub fn commit(&mut self) -> (r: Result<H256, SystemScriptError>)
        ensures old(self).well@ ==> r is Ok, final(self).well@ == old(self).well@, final(self).m@ == old(self).m@, r is Ok ==> final(self).done@ == old(self).m@, r is Err ==> final(self).done@ == old(self).done@ { unimplemented!() }
}
#[verifier::external_body] pub fn set_root_(h: H256) { unimplemented!() }
/// `Ok(())` if a key was there to be removed
#[verifier::external_body] pub fn gone_(r: Result<bool, SystemScriptError>) -> (o: Result<(), SystemScriptError>) ensures o is Ok == (r == Ok::<bool, SystemScriptError>(true)) { unimplemented!() }
#[verifier::external_body] pub fn lift_<T>(r: Result<T, SystemScriptError>) -> (o: ProtocolResult<T>) ensures o is Ok == r is Ok, r matches Ok(v) ==> o == Ok::<T, ProtocolError>(v) { unimplemented!() }
#[verifier::external_body] pub fn arr_vec_(a: &[u8; 32]) -> (r: Vec<u8>) ensures r@ == a@ { unimplemented!() }
#[verifier::external_body] pub fn arr_ref_(a: &[u8; 32]) -> (r: &[u8]) ensures r@ == a@ { unimplemented!() }
/// a header as the contract's interface has it, and its encoding, which decodes to it (ethers)
pub struct Header { pub rest: Ghost<int>, pub block_hash: [u8; 32] }
pub uninterp spec fn abi(h: Header) -> Seq<u8>;
pub uninterp spec fn unabi(b: Seq<u8>) -> Option<Header>;
impl Header {
    #[verifier::external_body] pub fn clone(&self) -> (r: Header) ensures r == *self { unimplemented!() }
    #[verifier::external_body] pub fn encode(self) -> (r: Vec<u8>) ensures r@ == abi(self) { unimplemented!() }
}
pub mod ckb_light_client_abi { pub use super::Header; use super::*; pub struct UpdateCall { pub headers: Vec<Header> } pub struct RollbackCall { pub block_hashes: Vec<[u8; 32]> } }
#[verifier::external_body] pub fn decode_header_(b: Vec<u8>) -> (r: ProtocolResult<Header>) ensures match unabi(b@) { Some(h) => r == Ok::<Header, ProtocolError>(h), None => r is Err } { unimplemented!() }
pub struct CkbLightClientStore { pub trie: Trie }
pub open spec fn put_heads(m: M, s: Seq<Header>) -> M decreases s.len() { if s.len() == 0 { m } else { put_heads(m, s.drop_last()).insert(s.last().block_hash@, abi(s.last())) } }
/// without the headers of those hashes; none if one of them is not there (any more)
pub open spec fn drop_heads(m: M, s: Seq<[u8; 32]>) -> Option<M> decreases s.len() {
    if s.len() == 0 { Some(m) } else { match drop_heads(m, s.drop_last()) { Some(n) => if n.dom().contains(s.last()@) { Some(n.remove(s.last()@)) } else { None }, None => None } }
}
pub proof fn put_heads_next(m: M, s: Seq<Header>, i: int) requires 0 <= i < s.len() ensures put_heads(m, s.take(i + 1)) == put_heads(m, s.take(i)).insert(s[i].block_hash@, abi(s[i])) { assert(s.take(i + 1).drop_last() =~= s.take(i)); }
pub proof fn drop_heads_next(m: M, s: Seq<[u8; 32]>, i: int) requires 0 <= i < s.len()
    ensures drop_heads(m, s.take(i + 1)) == (match drop_heads(m, s.take(i)) { Some(n) => if n.dom().contains(s[i]@) { Some(n.remove(s[i]@)) } else { None }, None => None }) { assert(s.take(i + 1).drop_last() =~= s.take(i)); }
pub proof fn drop_heads_stuck(m: M, s: Seq<[u8; 32]>, i: int) requires 0 <= i <= s.len(), drop_heads(m, s.take(i)) is None ensures drop_heads(m, s) is None decreases s.len() - i
{ if i < s.len() { drop_heads_next(m, s, i); drop_heads_stuck(m, s, i + 1); } else { assert(s.take(i) =~= s); } }
}
use shim::*;
broadcast use {num_axioms, bytes_axioms};
impl CkbLightClientStore {
//@fn core/executor/src/system_contract/ckb_light_client/store.rs :: impl CkbLightClientStore/fn update
//@ ret r
//@ loop 0 it
    invariant it.seq() == data.headers@, 0 <= it.index@ <= data.headers@.len(), self.trie.done@ == old(self).trie.done@, self.trie.well@ == old(self).trie.well@, self.trie.m@ == put_heads(old(self).trie.m@, data.headers@.take(it.index@ as int)),
//@ loopend 0
    proof { put_heads_next(old(self).trie.m@, data.headers@, it.index@ as int); }
//@ loopafter 0
    proof { assert(data.headers@.take(data.headers@.len() as int) =~= data.headers@); }
//@ spec
    ensures r is Ok ==> final(self).trie.done@ == put_heads(old(self).trie.m@, data.headers@), r is Err ==> final(self).trie.done@ == old(self).trie.done@, old(self).trie.well@ ==> r is Ok,
//@end
//@fn core/executor/src/system_contract/ckb_light_client/store.rs :: impl CkbLightClientStore/fn rollback
//@ ret r
//@ sub /self\.remove_header\(&block_hash\)/ => /self.remove_header(arr_ref_(&block_hash))/ 0
//@ loop 0 it
    invariant it.seq() == data.block_hashes@, 0 <= it.index@ <= data.block_hashes@.len(), self.trie.done@ == old(self).trie.done@, self.trie.well@ == old(self).trie.well@, drop_heads(old(self).trie.m@, data.block_hashes@.take(it.index@ as int)) == Some(self.trie.m@),
//@ loopstart 0
    proof { drop_heads_next(old(self).trie.m@, data.block_hashes@, it.index@ as int);
        if drop_heads(old(self).trie.m@, data.block_hashes@.take(it.index@ + 1)) is None { drop_heads_stuck(old(self).trie.m@, data.block_hashes@, it.index@ + 1); } }
//@ loopafter 0
    proof { assert(data.block_hashes@.take(data.block_hashes@.len() as int) =~= data.block_hashes@); }
//@ spec
    ensures
        r is Ok ==> drop_heads(old(self).trie.m@, data.block_hashes@) == Some(final(self).trie.done@), r is Err ==> final(self).trie.done@ == old(self).trie.done@,
        old(self).trie.well@ ==> r is Ok == drop_heads(old(self).trie.m@, data.block_hashes@) is Some,
//@end
//@fn core/executor/src/system_contract/ckb_light_client/store.rs :: impl CkbLightClientStore/fn get_header
//@ ret r
//@ sub /SystemScriptError::GetHeader\(\w+\.to_string\(\)\)/ => /fail_()/ 0
//@ sub /<ckb_light_client_abi::Header as AbiDecode>::decode\(raw\)\s*\.map_err\(SystemScriptError::AbiDecode\)/ => /decode_header_(raw)/ 0
//@ spec
    ensures r matches Ok(h) ==> h == (if self.trie.m@.dom().contains(block_hash@) { unabi(self.trie.m@[block_hash@]) } else { None }),
        self.trie.well@ ==> r is Ok == (!self.trie.m@.dom().contains(block_hash@) || unabi(self.trie.m@[block_hash@]) is Some),
//@end
//@fn core/executor/src/system_contract/ckb_light_client/store.rs :: impl CkbLightClientStore/fn save_header
//@ ret r
//@ sub /header\.block_hash\.to_vec\(\)/ => /arr_vec_(&header.block_hash)/ 0
//@ sub /\.encode\(\)\.to_vec\(\)/ => /.encode()/ 0
//@ sub /self\.trie\s*\.insert\((.*)\)\s*\.map_err\(\|e\| SystemScriptError::\w+\(e\.to_string\(\)\)\.into\(\)\)/ => /lift_(self.trie.insert(\1))/
//@ spec
    ensures r is Ok ==> final(self).trie.m@ == old(self).trie.m@.insert(header.block_hash@, abi(*header)), final(self).trie.done@ == old(self).trie.done@, final(self).trie.well@ == old(self).trie.well@, old(self).trie.well@ ==> r is Ok,
//@end
//@fn core/executor/src/system_contract/ckb_light_client/store.rs :: impl CkbLightClientStore/fn remove_header
//@ ret r
//@ sub /self\.trie\s*\.remove\((\w+)\)\s*\.map_err\(\|e\| SystemScriptError::\w+\(e\.to_string\(\)\)\)\s*\.and_then\(\|removed\| \{\s*if removed \{\s*Ok\(\(\)\)\s*\} else \{[^{}]*\{[^{}]*\}[^{}]*Err\([^{}]*\}\s*\}\)\s*\.map_err\(Into::into\)/ => /lift_(gone_(self.trie.remove(\1)))/
//@ spec
    ensures r is Ok ==> old(self).trie.m@.dom().contains(block_hash@) && final(self).trie.m@ == old(self).trie.m@.remove(block_hash@), final(self).trie.done@ == old(self).trie.done@, final(self).trie.well@ == old(self).trie.well@,
        old(self).trie.well@ ==> r is Ok == old(self).trie.m@.dom().contains(block_hash@),
//@end
//@fn core/executor/src/system_contract/ckb_light_client/store.rs :: impl CkbLightClientStore/fn commit
//@ ret r
//@ sub /CURRENT_HEADER_CELL_ROOT\.with\(\|r\| \*r\.borrow_mut\(\) = (\w+)\)/ => /set_root_(\1)/
//@ sub /SystemScriptError::CommitError\(\w+\.to_string\(\)\)/ => /fail_()/ 0
//@ spec
    ensures r is Ok ==> final(self).trie.done@ == old(self).trie.m@, r is Err ==> final(self).trie.done@ == old(self).trie.done@, final(self).trie.well@ == old(self).trie.well@, old(self).trie.well@ ==> r is Ok,
//@end
}
}
fn main() {}
