//@include head.rs
pub mod sh {
use super::*;
//@include num.rs
//@include bytes.rs
//@include rlp.rs
//@include types.rs
}
use sh::*;
// C09: the list of hard forks, its flags, and what the metadata store keeps of it.
pub mod hf {
use super::*;
use super::sh::*;
broadcast use {num_axioms, bytes_axioms, rlp_axioms, vec_axioms};
//@include flags.rs
//@include mdstore.rs
impl Record for HardforkInfo {}
pub struct MetadataStore { pub trie: MetaTrie }
/// the list a metadata trie holds
pub open spec fn stored(m: Map<Seq<u8>, Seq<u8>>) -> Seq<HardforkInfoInner> { if m.contains_key(hardfork_key()) { HardforkInfo::of(parse(m[hardfork_key()])).inner@ } else { Seq::empty() } }
/// the flags in force at a height: those of the last record at or below it
pub open spec fn active(s: Seq<HardforkInfoInner>, n: u64) -> H256 decreases s.len() { if s.len() == 0 { no_flags() } else if s.last().block_number <= n { s.last().flags } else { active(s.drop_last(), n) } }
#[verifier::external_body] pub fn reversed<'a, T>(v: &'a Vec<T>) -> (r: Vec<&'a T>) ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> *(#[trigger] r@[i]) == v@[v@.len() - 1 - i] { unimplemented!() }
impl MetadataStore {
//@fn core/executor/src/system_contract/metadata/store.rs :: impl MetadataStore/fn set_hardfork_info
//@ ret r
//@ sub /HARDFORK_KEY\.as_bytes\(\)\.to_vec\(\)/ => /key_names::owned(key_names::hardfork())/
//@ sub /HARDFORK_KEY\.as_bytes\(\)/ => /key_names::hardfork()/
//@ sub /HardforkInfo::decode\((\w+)\)/ => /HardforkInfo::decode_record(&\1)/
//@ sub /(\w+)\.encode\(\)\?\.to_vec\(\)/ => /\1.encode_record()?/
//@ sub /CURRENT_METADATA_ROOT\.with\(\|r\| \*r\.borrow_mut\(\) = (\w+)\)/ => /set_current_root(\1)/
//@ sub /ProtocolResult</ => /StoreResult</
//@ spec
    ensures r is Ok ==> recorded(stored(old(self).trie@), HardforkInfoInner { block_number, flags: info }, stored(final(self).trie@)) && final(self).trie@.remove(hardfork_key()) =~= old(self).trie@.remove(hardfork_key()),
//@ start
    proof { assert forall|x: HardforkInfo| #[trigger] HardforkInfo::of(x.item()) == x by { HardforkInfo::law(x); } }
//@end
//@fn core/executor/src/system_contract/metadata/store.rs :: impl MetadataStore/fn hardfork_info
//@ ret r
//@ sub /HARDFORK_KEY\.as_bytes\(\)/ => /key_names::hardfork()/
//@ sub /HardforkInfo::decode\((\w+)\)/ => /HardforkInfo::decode_record(&\1)/
//@ sub /(\w+)\.inner\.iter\(\)\.rev\(\)/ => /reversed(&\1.inner)/
//@ sub /ProtocolResult</ => /StoreResult</
//@ spec
    ensures r matches Ok(f) ==> f == active(stored(self.trie@), target_number),
//@ loop 0 it
    invariant hardfork_info.inner@ == stored(self.trie@), it.seq().len() == hardfork_info.inner@.len(), forall|i: int| 0 <= i < hardfork_info.inner@.len() ==> *(#[trigger] it.seq()[i]) == hardfork_info.inner@[hardfork_info.inner@.len() - 1 - i],
        active(stored(self.trie@), target_number) == active(hardfork_info.inner@.take(hardfork_info.inner@.len() - it.index@), target_number),
//@ loopstart 0
    proof { let t = hardfork_info.inner@.take(hardfork_info.inner@.len() - it.index@); assert(t.drop_last() =~= hardfork_info.inner@.take(hardfork_info.inner@.len() - it.index@ - 1)); assert(t.last() == *k); }
//@ loopbefore 0
    assert(hardfork_info.inner@.take(hardfork_info.inner@.len() as int) =~= hardfork_info.inner@);
//@end
//@fn core/executor/src/system_contract/metadata/store.rs :: impl MetadataStore/fn hardfork_infos
//@ ret r
//@ sub /HARDFORK_KEY\.as_bytes\(\)/ => /key_names::hardfork()/
//@ sub /HardforkInfo::decode\((\w+)\)/ => /HardforkInfo::decode_record(&\1)/
//@ sub /HardforkInfo::default\(\)/ => /no_hardforks()/
//@ sub /ProtocolResult</ => /StoreResult</
//@ spec
    ensures r matches Ok(l) ==> l.inner@ =~= stored(self.trie@),
//@end
}
#[verifier::external_body] pub fn no_hardforks() -> (r: HardforkInfo) ensures r.inner@.len() == 0 { unimplemented!() }
/// recording at or above the last height: from the announced height on the flags in force are the old ones and the announced ones, below it nothing changes
proof fn active_after(s: Seq<HardforkInfoInner>, o: HardforkInfoInner, t: Seq<HardforkInfoInner>, n: u64)
    requires ordered(s), recorded(s, o, t), s.len() == 0 || o.block_number >= s.last().block_number
    ensures n < o.block_number ==> active(t, n) == active(s, n), n >= o.block_number ==> forall|i: int| #[trigger] flag(active(t, n), i) == (flag(o.flags, i) || flag(active(s, n), i)),
{
    flags_zero(); reveal_with_fuel(active, 3);
    if s.len() == 0 { assert(s =~= Seq::empty()); assert(t =~= seq![o]); assert(t.drop_last() =~= Seq::empty()); }
    else if !idle(s, o) {
        if s.last().block_number == o.block_number { assert(t.drop_last() =~= s.drop_last()); } else { assert(t.drop_last() =~= s); }
    } else { assert(t =~= s); }
}
/// the flags the executor currently works with
pub uninterp spec fn current_flags() -> H256;
#[verifier::external_body] pub fn loaded_flags() -> (r: H256) ensures r == current_flags() { unimplemented!() }
//@fn core/executor/src/lib.rs :: fn enable_hardfork
//@ ret r
//@ sub /&\*\*HARDFORK_INFO\.load\(\)/ => /loaded_flags()/
//@ sub /\b(\w+) as u64/ => /\1.as_num()/
//@ sub /H256::from_low_u64_be\(\s*(.+?)\.to_be\(\)\s*\)/ => /H256::from_swapped(\1)/
//@ sub /(\w+) & &?(\w+) == (\w+)/ => /\1.and(\2).same(\3)/
//@ spec
    ensures r == under(place(name.num()), current_flags()),
//@ start
    proof {
        let n = place(name.num());
        assert forall|f: H256| #[trigger] met(current_flags(), n, f) implies (f == n) == under(n, current_flags()) by { if under(n, current_flags()) { flags_ext(f, n); } }
    }
//@end
}
}
fn main() {}
