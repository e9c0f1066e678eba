// ---- the light-client library's own definitions, copied from /repo ----
pub mod at {
use super::*;
use super::sh::*;
broadcast use {num_axioms, bytes_axioms, rlp_axioms, vec_axioms};
//@item devtools/axon-tools/src/types.rs :: enum BlockVersion
//@end
pub open spec fn at_ver(v: BlockVersion) -> u8 { match v { BlockVersion::V0 => 0 } }
impl Clone for BlockVersion { fn clone(&self) -> (r: BlockVersion) ensures r == *self { match self { BlockVersion::V0 => BlockVersion::V0 } } }
impl Copy for BlockVersion {}
impl Enc for BlockVersion { open spec fn item(&self) -> Item { Item::List(seq![Item::Num(at_ver(*self) as nat)]) } }
impl Dec for BlockVersion { open spec fn fits(it: Item) -> bool { it == Item::List(seq![Item::Num(0)]) } open spec fn of(it: Item) -> BlockVersion { BlockVersion::V0 } }
impl Lawful for BlockVersion { proof fn law(x: BlockVersion) {} }
//@derive devtools/axon-tools/src/types.rs :: struct Hex
//@derive devtools/axon-tools/src/types.rs :: struct ExtraData
//@derive devtools/axon-tools/src/types.rs :: struct Proof
//@derive devtools/axon-tools/src/types.rs :: struct Header
//@derive devtools/axon-tools/src/types.rs :: struct Block
//@derive devtools/axon-tools/src/types.rs :: struct MetadataVersion
//@derive devtools/axon-tools/src/types.rs :: struct ValidatorExtend
//@derive devtools/axon-tools/src/types.rs :: struct ProposeCount
//@derive devtools/axon-tools/src/types.rs :: struct ConsensusConfig
//@derive devtools/axon-tools/src/types.rs :: struct Metadata
//@item devtools/axon-tools/src/types.rs :: struct Proposal
//@end
//@item devtools/axon-tools/src/types.rs :: struct Vote
//@end
impl Enc for Proposal { open spec fn item(&self) -> Item { Item::List(seq![self.version.item(), self.prev_hash.item(), self.proposer.item(), self.prev_state_root.item(), self.transactions_root.item(), self.signed_txs_hash.item(),
    self.timestamp.item(), self.number.item(), self.gas_limit.item(), list_item(self.extra_data@), self.proof.item(), self.call_system_script_count.item(), list_item(self.tx_hashes@)]) } }
/// what the validators sign: height, round, kind, digest
impl Enc for Vote { open spec fn item(&self) -> Item { Item::List(seq![self.height.item(), self.round.item(), self.vote_type.item(), Item::Str(self.proposal_hash@)]) } }
}
