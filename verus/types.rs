// ---- protocol types copied from /repo, and what their codecs have to write ----
pub enum TypesError { InvalidBlockVersion(u8), Unsigned, MissingSignature, InvalidSignatureRType, SignatureRIsEmpty, DecodeInteroperationSigR(DecoderError), Crypto(CryptoError), TxHashMismatch { origin: H256, calc: H256 }, Other }
pub struct CryptoError;
//@item protocol/src/types/block.rs :: enum BlockVersion
//@end
pub open spec fn ver_num(v: BlockVersion) -> u8 { match v { BlockVersion::V0 => 0 } }
impl Clone for BlockVersion { fn clone(&self) -> (r: BlockVersion) ensures r == *self { match self { BlockVersion::V0 => BlockVersion::V0 } } }
impl Copy for BlockVersion {}
impl Enc for BlockVersion { open spec fn item(&self) -> Item { Item::List(seq![Item::Num(ver_num(*self) as nat)]) } }
impl Dec for BlockVersion { open spec fn fits(it: Item) -> bool { it == Item::List(seq![Item::Num(0)]) } open spec fn of(it: Item) -> BlockVersion { BlockVersion::V0 } }
impl Lawful for BlockVersion { proof fn law(x: BlockVersion) {} }
pub type BlockNumber = u64;
//@derive protocol/src/types/block.rs :: struct ExtraData
//@derive protocol/src/types/block.rs :: struct Proof
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Bloom { x: [u8; 256] }
impl Bloom { pub uninterp spec fn view(&self) -> Seq<u8>; }
pub uninterp spec fn bloom_(s: Seq<u8>) -> Bloom;
pub axiom fn axiom_bloom(b: Bloom) ensures b@.len() == 256, bloom_(b@) == b;
impl Enc for Bloom { open spec fn item(&self) -> Item { Item::Str(self@) } }
impl Dec for Bloom { open spec fn fits(it: Item) -> bool { it matches Item::Str(s) && s.len() == 256 } open spec fn of(it: Item) -> Bloom { bloom_(it->Str_0) } }
impl Lawful for Bloom { proof fn law(x: Bloom) { axiom_bloom(x); } }
//@derive protocol/src/types/block.rs :: struct Header
//@derive protocol/src/types/block.rs :: struct Block
//@item protocol/src/types/block.rs :: struct Proposal
//@end
//@item protocol/src/constants/configs.rs :: const BASE_FEE_PER_GAS
//@end
pub uninterp spec fn chain_id_of() -> u64;
#[verifier::external_body] pub fn the_chain_id() -> (r: u64) ensures r == chain_id_of() { unimplemented!() }
impl Enc for Proposal { open spec fn item(&self) -> Item { Item::List(seq![self.version.item(), self.prev_hash.item(), self.proposer.item(), self.prev_state_root.item(), self.transactions_root.item(), self.signed_txs_hash.item(),
    self.timestamp.item(), self.number.item(), self.gas_limit.item(), list_item(self.extra_data@), self.proof.item(), self.call_system_script_count.item(), list_item(self.tx_hashes@)]) } }
// the EVM library's log and exit reason
pub struct Log { pub address: H160, pub topics: Vec<H256>, pub data: Vec<u8> }
impl Enc for Log { open spec fn item(&self) -> Item { Item::List(seq![self.address.item(), list_item(self.topics@), self.data.item()]) } }
impl Dec for Log {
    open spec fn fits(it: Item) -> bool { it matches Item::List(v) && v.len() == 3 && H160::fits(v[0]) && list_fits::<H256>(v[1]) && <Vec<u8> as Dec>::fits(v[2]) }
    open spec fn of(it: Item) -> Log { Log { address: H160::of(it->List_0[0]), topics: list_of::<H256>(it->List_0[1]), data: <Vec<u8> as Dec>::of(it->List_0[2]) } }
}
impl Lawful for Log { proof fn law(x: Log) { H160::law(x.address); law_list::<H256>(x.topics); <Vec<u8> as Lawful>::law(x.data); } }
#[verifier::external_body] pub struct ExitSucceed { x: u8 }
#[verifier::external_body] pub struct ExitError { x: u8 }
#[verifier::external_body] pub struct ExitRevert { x: u8 }
#[verifier::external_body] pub struct ExitFatal { x: u8 }
/// crate evm's, its variants opaque
pub enum ExitReason { Succeed(ExitSucceed), Error(ExitError), Revert(ExitRevert), Fatal(ExitFatal) }
pub uninterp spec fn binc(e: ExitReason) -> Seq<u8>;
pub mod bincode {
    use super::*;
    #[verifier::external_body] pub fn serialize(e: &ExitReason) -> (r: Result<Vec<u8>, ()>) ensures r matches Ok(v) && v@ == binc(*e) { unimplemented!() }
    #[verifier::external_body] pub fn deserialize(b: &[u8]) -> (r: Result<ExitReason, ()>) ensures forall|e: ExitReason| b@ == #[trigger] binc(e) ==> r == Ok::<ExitReason, ()>(e) { unimplemented!() }
}
//@item protocol/src/types/receipt.rs :: struct Receipt
//@end
impl Enc for Receipt { open spec fn item(&self) -> Item { Item::List(seq![self.tx_hash.item(), self.block_number.item(), self.block_hash.item(), self.tx_index.item(), self.state_root.item(), self.used_gas.item(), self.logs_bloom.item(),
    list_item(self.logs@), self.log_index.item(), self.code_address.item(), self.sender.item(), Item::Str(binc(self.ret)), self.removed.item()]) } }
//@item protocol/src/types/executor.rs :: struct TxResp
//@end
impl Enc for TxResp { open spec fn item(&self) -> Item { Item::List(seq![Item::Str(binc(self.exit_reason)), self.ret.item(), self.gas_used.item(), self.remain_gas.item(), self.fee_cost.item(), list_item(self.logs@), self.code_address.item(), self.removed.item()]) } }
//@item protocol/src/types/primitive.rs :: struct Hex
//@ sub /Hex\(Bytes\)/ => /Hex(pub Bytes)/ 1
//@end
impl Enc for Hex { open spec fn item(&self) -> Item { Item::List(seq![Item::Str(self.0@)]) } }
impl Dec for Hex { open spec fn fits(it: Item) -> bool { it matches Item::List(v) && v.len() == 1 && v[0] is Str } open spec fn of(it: Item) -> Hex { Hex(bytes_(it->List_0[0]->Str_0)) } }
impl Lawful for Hex { proof fn law(x: Hex) { broadcast use bytes_axioms; } }
//@item protocol/src/types/primitive.rs :: struct Address
//@end
impl Enc for Address { open spec fn item(&self) -> Item { Item::List(seq![Item::Str(self.0@)]) } }
//@derive protocol/src/types/primitive.rs :: struct ProposeCount
//@derive protocol/src/types/primitive.rs :: struct ConsensusValidator
//@derive protocol/src/types/primitive.rs :: struct Validator
//@derive protocol/src/types/primitive.rs :: struct ValidatorExtend
//@derive protocol/src/types/primitive.rs :: struct MetadataVersion
//@derive protocol/src/types/primitive.rs :: struct MetadataInner
//@derive protocol/src/types/primitive.rs :: struct ConsensusConfigV0
//@derive protocol/src/types/primitive.rs :: struct ConsensusConfig
//@derive protocol/src/types/primitive.rs :: struct Metadata
//@derive protocol/src/types/primitive.rs :: struct CkbRelatedInfo
//@derive protocol/src/types/primitive.rs :: struct HardforkInfoInner
//@derive protocol/src/types/primitive.rs :: struct HardforkInfo
//@derive protocol/src/types/executor.rs :: struct ExecutorContext
//@derive protocol/src/types/interoperation.rs :: struct CellDep
//@derive protocol/src/types/interoperation.rs :: struct Script
//@derive protocol/src/types/interoperation.rs :: struct Witness
//@derive protocol/src/types/interoperation.rs :: struct SignatureS
//@derive protocol/src/types/interoperation.rs :: struct CellDepWithPubKey
//@derive protocol/src/types/interoperation.rs :: struct CellWithData
//@derive protocol/src/types/interoperation.rs :: struct OutPoint
