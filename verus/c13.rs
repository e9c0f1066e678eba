//@include head.rs
pub mod sh {
use super::*;
//@include num.rs
//@include bytes.rs
//@include rlp.rs
//@include types.rs
}
use sh::*;
//@include at.rs
// C13: the light-client library writes what the node writes.
broadcast use {num_axioms, bytes_axioms, rlp_axioms, vec_axioms};
#[verifier::external_body] pub fn bytes_vec(b: &Bytes) -> (r: Vec<u8>) ensures r@ == b@ { unimplemented!() }
impl at::BlockVersion {
//@fn devtools/axon-tools/src/types.rs :: impl From<BlockVersion> for u8/fn from
//@ sub /fn from\(/ => /fn u8_from(/ 1
//@ sub /\bBlockVersion\b/ => /at::BlockVersion/
//@ ret r
//@ sub /-> Self/ => /-> u8/
//@ spec
    ensures r == at::at_ver(value),
//@end
//@fn devtools/axon-tools/src/rlp_codec.rs :: impl Encodable for BlockVersion/fn rlp_append
//@ sub /\(\*self\)\.into\(\)/ => /at::BlockVersion::u8_from(*self)/
//@ spec
    ensures final(s)@ == old(s)@ + flat(self.item()),
//@ start
    let ghost s0 = s@;
//@ end
    proof { let v = self.item()->List_0; flat_list(v); reveal_with_fuel(toks_to, 3); assert(s@ =~= s0 + flat(self.item())); }
//@end
}
impl at::Vote {
//@fn devtools/axon-tools/src/rlp_codec.rs :: impl Encodable for Vote/fn rlp_append
//@ sub /self\.proposal_hash\.to_vec\(\)/ => /bytes_vec(&self.proposal_hash)/
//@ spec
    ensures final(s)@ == old(s)@ + flat(self.item()),
//@ start
    let ghost s0 = s@;
//@ end
    proof { let v = self.item()->List_0; flat_list(v); reveal_with_fuel(toks_to, 6); assert(s@ =~= s0 + flat(self.item())); }
//@end
}
impl at::Proposal {
//@fn devtools/axon-tools/src/rlp_codec.rs :: impl Encodable for Proposal/fn rlp_append
//@ spec
    ensures final(s)@ == old(s)@ + flat(self.item()),
//@ start
    let ghost s0 = s@;
//@ end
    proof { let v = self.item()->List_0; flat_list(v); reveal_with_fuel(toks_to, 14); assert(s@ =~= s0 + flat(self.item())); }
//@end
}
impl BlockVersion {
//@fn protocol/src/types/block.rs :: impl From<BlockVersion> for u8/fn from
//@ sub /fn from\(/ => /fn u8_from(/ 1
//@ ret r
//@ sub /-> Self/ => /-> u8/
//@ spec
    ensures r == ver_num(value),
//@end
//@fn protocol/src/codec/block.rs :: impl Encodable for BlockVersion/fn rlp_append
//@ sub /\(\*self\)\.into\(\)/ => /BlockVersion::u8_from(*self)/
//@ spec
    ensures final(s)@ == old(s)@ + flat(self.item()),
//@ start
    let ghost s0 = s@;
//@ end
    proof { let v = self.item()->List_0; flat_list(v); reveal_with_fuel(toks_to, 3); assert(s@ =~= s0 + flat(self.item())); }
//@end
}
impl Proposal {
//@fn protocol/src/codec/block.rs :: impl Encodable for Proposal/fn rlp_append
//@ spec
    ensures final(s)@ == old(s)@ + flat(self.item()),
//@ start
    let ghost s0 = s@;
//@ end
    proof { let v = self.item()->List_0; flat_list(v); reveal_with_fuel(toks_to, 14); assert(s@ =~= s0 + flat(self.item())); }
//@end
}
impl Hex {
//@fn protocol/src/codec/mod.rs :: impl Encodable for Hex/fn rlp_append
//@ spec
    ensures final(s)@ == old(s)@ + flat(self.item()),
//@ start
    let ghost s0 = s@;
//@ end
    proof { let v = self.item()->List_0; flat_list(v); reveal_with_fuel(toks_to, 3); assert(s@ =~= s0 + flat(self.item())); }
//@end
//@fn protocol/src/types/primitive.rs :: impl AsRef<[u8]> for Hex/fn as_ref
//@ ret r
//@ spec
    ensures r@ == self.0@,
//@end
}
// ---- the property: same content, same item (and so the same bytes and digest) ----
pub open spec fn same_ver(a: at::BlockVersion, b: BlockVersion) -> bool { at::at_ver(a) == ver_num(b) }
pub open spec fn same_proof(a: at::Proof, b: Proof) -> bool { a.number == b.number && a.round == b.round && a.proposal_hash == b.block_hash && a.signature == b.signature && a.bitmap == b.bitmap }
pub open spec fn same_extra(a: Seq<at::ExtraData>, b: Seq<ExtraData>) -> bool { a.len() == b.len() && (forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).inner == b[i].inner) }
pub open spec fn same_header(a: at::Header, b: Header) -> bool {
    same_ver(a.version, b.version) && a.prev_hash == b.prev_hash && a.proposer == b.proposer && a.state_root == b.state_root && a.transactions_root == b.transactions_root && a.signed_txs_hash == b.signed_txs_hash
    && a.receipts_root == b.receipts_root && a.log_bloom == b.log_bloom && a.timestamp == b.timestamp && a.number == b.number && a.gas_used == b.gas_used && a.gas_limit == b.gas_limit
    && same_extra(a.extra_data@, b.extra_data@) && a.base_fee_per_gas == b.base_fee_per_gas && same_proof(a.proof, b.proof) && a.call_system_script_count == b.call_system_script_count && a.chain_id == b.chain_id
}
proof fn extra_lists(a: Seq<at::ExtraData>, b: Seq<ExtraData>) requires same_extra(a, b) ensures list_item(a) == list_item(b)
{ assert forall|i: int| 0 <= i < a.len() implies (#[trigger] a[i]).item() == b[i].item() by { assert(a[i].item()->List_0 =~= b[i].item()->List_0); } assert(list_item(a)->List_0 =~= list_item(b)->List_0); }
proof fn proofs_agree(a: at::Proof, b: Proof) requires same_proof(a, b) ensures a.item() == b.item() { assert(a.item()->List_0 =~= b.item()->List_0); }
proof fn headers_agree(a: at::Header, b: Header) requires same_header(a, b) ensures a.item() == b.item()
{ extra_lists(a.extra_data@, b.extra_data@); proofs_agree(a.proof, b.proof); assert(a.version.item() == b.version.item()); assert(a.item()->List_0 =~= b.item()->List_0); }
proof fn blocks_agree(a: at::Block, b: Block) requires same_header(a.header, b.header), a.tx_hashes@ == b.tx_hashes@ ensures a.item() == b.item(), keccak(ser(flat(a.item()))) == keccak(ser(flat(b.item())))
{ headers_agree(a.header, b.header); assert(a.item()->List_0 =~= b.item()->List_0); }
proof fn proposals_agree(a: at::Proposal, b: Proposal)
    requires same_ver(a.version, b.version), a.prev_hash == b.prev_hash, a.proposer == b.proposer, a.prev_state_root == b.prev_state_root, a.transactions_root == b.transactions_root, a.signed_txs_hash == b.signed_txs_hash,
        a.timestamp == b.timestamp, a.number == b.number, a.gas_limit == b.gas_limit, same_extra(a.extra_data@, b.extra_data@), same_proof(a.proof, b.proof), a.call_system_script_count == b.call_system_script_count, a.tx_hashes@ == b.tx_hashes@,
    ensures a.item() == b.item(), keccak(ser(flat(a.item()))) == keccak(ser(flat(b.item()))),
{ extra_lists(a.extra_data@, b.extra_data@); proofs_agree(a.proof, b.proof); assert(a.version.item() == b.version.item()); assert(a.item()->List_0 =~= b.item()->List_0); }
proof fn validators_agree(a: at::ValidatorExtend, b: ValidatorExtend)
    requires a.bls_pub_key.0 == b.bls_pub_key.0, a.pub_key.0 == b.pub_key.0, a.address == b.address, a.propose_weight == b.propose_weight, a.vote_weight == b.vote_weight
    ensures a.item() == b.item()
{ assert(a.bls_pub_key.item()->List_0 =~= b.bls_pub_key.item()->List_0); assert(a.pub_key.item()->List_0 =~= b.pub_key.item()->List_0); assert(a.item()->List_0 =~= b.item()->List_0); }
proof fn counts_agree(a: at::ProposeCount, b: ProposeCount) requires a.address == b.address, a.count == b.count ensures a.item() == b.item() { assert(a.item()->List_0 =~= b.item()->List_0); }
proof fn versions_agree(a: at::MetadataVersion, b: MetadataVersion) requires a.start == b.start, a.end == b.end ensures a.item() == b.item() { assert(a.item()->List_0 =~= b.item()->List_0); }
/// the library's configuration is the one without the contract size limit
proof fn configs_agree(a: at::ConsensusConfig, b: ConsensusConfigV0)
    requires a.gas_limit == b.gas_limit, a.interval == b.interval, a.propose_ratio == b.propose_ratio, a.prevote_ratio == b.prevote_ratio, a.precommit_ratio == b.precommit_ratio, a.brake_ratio == b.brake_ratio, a.tx_num_limit == b.tx_num_limit, a.max_tx_size == b.max_tx_size
    ensures a.item() == b.item() { assert(a.item()->List_0 =~= b.item()->List_0); }
proof fn validator_lists(a: Seq<at::ValidatorExtend>, b: Seq<ValidatorExtend>)
    requires a.len() == b.len(), forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).bls_pub_key.0 == b[i].bls_pub_key.0 && a[i].pub_key.0 == b[i].pub_key.0 && a[i].address == b[i].address && a[i].propose_weight == b[i].propose_weight && a[i].vote_weight == b[i].vote_weight
    ensures list_item(a) == list_item(b)
{ assert forall|i: int| 0 <= i < a.len() implies (#[trigger] a[i]).item() == b[i].item() by { validators_agree(a[i], b[i]); } assert(list_item(a)->List_0 =~= list_item(b)->List_0); }
}
fn main() {}
