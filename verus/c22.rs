//@include head.rs
pub mod sh {
use super::*;
//@include num.rs
//@include bytes.rs
//@include rlp.rs
//@include types.rs
}
use sh::*;
// C22: the epochs' boundaries and what the metadata store keeps per epoch.
pub mod ep {
use super::*;
use super::sh::*;
broadcast use {num_axioms, bytes_axioms, rlp_axioms, vec_axioms};
//@include mdstore.rs
impl Record for MetadataInner {}
//@include seg.rs
pub struct MetadataStore { pub trie: MetaTrie }
pub uninterp spec fn be64(n: u64) -> Seq<u8>;
pub broadcast axiom fn be64_law(a: u64) ensures (#[trigger] be64(a)).len() == 8;
pub axiom fn be64_apart(a: u64, b: u64) requires be64(a) == be64(b) ensures a == b;
#[verifier::external_body] pub fn be64_vec(n: u64) -> (r: Vec<u8>) ensures r@ == be64(n) { unimplemented!() }
/// the boundaries a trie holds
pub open spec fn segs(m: Map<Seq<u8>, Seq<u8>>) -> Seq<u64> { of_be64s(m[segment_key()]) }
pub open spec fn sound(m: Map<Seq<u8>, Seq<u8>>) -> bool { m.contains_key(segment_key()) && boundaries(segs(m)) && m[segment_key()] == be64s(segs(m)) }
/// the record an epoch has
pub open spec fn record_of(m: Map<Seq<u8>, Seq<u8>>, e: u64) -> MetadataInner { MetadataInner::of(parse(m[be64(e)])) }
#[verifier::external_body] pub fn zero_counts(m: &Metadata) -> (r: Vec<ProposeCount>) ensures forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).count == 0 { unimplemented!() }
#[verifier::external_body] pub fn copy_of(m: &Metadata) -> (r: Metadata) ensures r == *m { unimplemented!() }
#[verifier::external_body] pub fn loaded_flags() -> H256 { unimplemented!() }
#[verifier::external_body] pub fn encode_consensus_config(f: H256, c: ConsensusConfig) -> StoreResult<Vec<u8>> { unimplemented!() }
impl Metadata {
//@fn protocol/src/types/primitive.rs :: impl Metadata/fn into_part
//@ ret r
//@ spec
    ensures r.0 == (MetadataInner { version: self.version, epoch: self.epoch, verifier_list: self.verifier_list, propose_counter: self.propose_counter }), r.1 == self.consensus_config,
//@end
}
impl MetadataStore {
//@fn core/executor/src/system_contract/metadata/store.rs :: impl MetadataStore/fn get_epoch_segment
//@ ret r
//@ sub /EPOCH_SEGMENT_KEY\.as_bytes\(\)/ => /key_names::segment()/
//@ sub /(\w+)\.to_vec\(\)/ => /\1/
//@ sub /ProtocolResult</ => /StoreResult</
//@ spec
    requires sound(self.trie@),
    ensures r matches Ok(s) ==> s.seg@ == segs(self.trie@),
//@end
//@fn core/executor/src/system_contract/metadata/store.rs :: impl MetadataStore/fn get_epoch_by_block_number
//@ ret r
//@ sub /ProtocolResult</ => /StoreResult</
//@ spec
    requires sound(self.trie@),
    ensures r matches Ok(e) ==> in_epoch(segs(self.trie@), block_number, e as int), block_number == 0 || block_number > segs(self.trie@).last() ==> r is Err,
//@end
//@fn core/executor/src/system_contract/metadata/store.rs :: impl MetadataStore/fn get_metadata_inner
//@ ret r
//@ sub /&epoch\.to_be_bytes\(\)/ => /&be64_vec(epoch)/
//@ sub /MetadataInner::decode\((\w+)\)/ => /MetadataInner::decode_record(&\1)/
//@ sub /\.ok_or_else\(\|\| SystemScriptError::MissingRecord\(epoch\)\)\?/ => /.ok_or(missing(epoch))?/
//@ sub /ProtocolResult</ => /StoreResult</
//@ spec
    ensures r matches Ok(m) ==> self.trie@.contains_key(be64(epoch)) && m == record_of(self.trie@, epoch),
//@end
//@fn core/executor/src/system_contract/metadata/store.rs :: impl MetadataStore/fn append_metadata
//@ ret r
//@ sub /self\s*\.trie\s*\.get\(EPOCH_SEGMENT_KEY\.as_bytes\(\)\)\?\s*\.unwrap\(\)\s*\.to_vec\(\)/ => /self.trie.get(key_names::segment())?.unwrap()/
//@ sub /EPOCH_SEGMENT_KEY\.as_bytes\(\)\.to_vec\(\)/ => /key_names::owned(key_names::segment())/
//@ sub /CONSENSUS_CONFIG\.as_bytes\(\)\.to_vec\(\)/ => /key_names::owned(key_names::config())/
//@ sub /let map = metadata\s*\.verifier_list\s*\.iter\(\)\s*\.map\(\|v\| \(v\.address, 0u64\)\)\s*\.collect::<BTreeMap<_, _>>\(\);/ => /let map = zero_counts(metadata);/
//@ sub /metadata\.clone\(\)/ => /copy_of(metadata)/
//@ sub /map\.into_iter\(\)\.map\(Into::into\)\.collect\(\)/ => /map/
//@ sub /\*\*HARDFORK_INFO\.load\(\)/ => /loaded_flags()/
//@ sub /(\w+\.epoch)\.to_be_bytes\(\)\.to_vec\(\)/ => /be64_vec(\1)/
//@ sub /(\w+)\.encode\(\)\?\.to_vec\(\)/ => /\1.encode_record()?/
//@ sub /CURRENT_METADATA_ROOT\.with\(\|r\| \*r\.borrow_mut\(\) = (\w+)\)/ => /set_current_root(\1)/
//@ sub /ProtocolResult</ => /StoreResult</
//@ spec
    requires sound(old(self).trie@), segs(old(self).trie@).last() < u64::MAX, segs(old(self).trie@).len() < u64::MAX,
    ensures r is Ok ==> sound(final(self).trie@) && segs(final(self).trie@) == segs(old(self).trie@).push(metadata.version.end)
            && metadata.epoch == segs(old(self).trie@).len() - 1 && (metadata.epoch > 0 ==> metadata.version.start == segs(old(self).trie@).last() + 1)
            && ({ let m = record_of(final(self).trie@, metadata.epoch); m.version == metadata.version && m.epoch == metadata.epoch && m.verifier_list == metadata.verifier_list })
            && (forall|e: u64| e != metadata.epoch ==> record_of(final(self).trie@, e) == #[trigger] record_of(old(self).trie@, e)),
//@ start
    broadcast use be64s_law, be64_law;
    proof { keys_apart(); assert forall|a: u64, b: u64| a != b implies #[trigger] be64(a) != #[trigger] be64(b) by { if be64(a) == be64(b) { be64_apart(a, b); } }
        assert forall|x: MetadataInner| #[trigger] MetadataInner::of(x.item()) == x by { MetadataInner::law(x); } }
//@end
}
#[verifier::external_body] pub fn missing(e: u64) -> StoreError { unimplemented!() }
}
}
fn main() {}
