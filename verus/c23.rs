//@include head.rs
pub mod sh {
use super::*;
//@include num.rs
//@include bytes.rs
//@include rlp.rs
//@include types.rs
}
use sh::*;
// C23: what has to hold of a block before the consensus engine votes on it, and before synchronization stores it.
pub mod con {
use super::*;
use super::sh::*;
broadcast use {num_axioms, bytes_axioms, rlp_axioms, vec_axioms};
pub type Hash = H256;
pub type MerkleRoot = H256;
pub struct ProtocolError;
pub type ProtocolResult<T> = Result<T, ProtocolError>;
pub struct Context;
impl Context { #[verifier::external_body] pub fn clone(&self) -> Context { unimplemented!() } #[verifier::external_body] pub fn new() -> Context { unimplemented!() } }
pub struct CryptoErr;
//@item core/consensus/src/lib.rs :: enum ConsensusError
//@ sub /Box<dyn Error \+ Send>/ => /u8/ 0
//@ sub /Box<CryptoError>/ => /CryptoErr/ 0
//@ sub /std::io::Error/ => /u8/ 0
//@ sub /std::time::SystemTimeError/ => /u8/ 0
//@ sub /ConsensusType/ => /u8/ 0
//@end
//@item core/consensus/src/lib.rs :: enum BlockHeaderField
//@end
//@item core/consensus/src/lib.rs :: enum BlockProofField
//@end
use BlockHeaderField::{Version, PreviousBlockHash, ChainId, BaseFee};
use BlockProofField::{BitMap, HashMismatch, HeightMismatch, Signature, WeightNotFound};
impl FromSpecImpl<ConsensusError> for ProtocolError { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(x: ConsensusError) -> ProtocolError { arbitrary() } }
impl From<ConsensusError> for ProtocolError { #[verifier::external_body] fn from(x: ConsensusError) -> ProtocolError { unimplemented!() } }
impl PartialEqSpecImpl for BlockVersion { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &BlockVersion) -> bool { *self == *o } }
impl PartialEq for BlockVersion { #[verifier::external_body] fn eq(&self, o: &BlockVersion) -> bool { unimplemented!() } }
impl PartialEqSpecImpl for Bloom { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Bloom) -> bool { *self == *o } }
impl PartialEq for Bloom { #[verifier::external_body] fn eq(&self, o: &Bloom) -> bool { unimplemented!() } }
#[verifier::external_body] pub fn same<T>(x: &T) -> (r: T) ensures r == *x { unimplemented!() }
impl Block { #[verifier::external_body] pub fn clone(&self) -> (r: Block) ensures r == *self { unimplemented!() } }
impl Proof { #[verifier::external_body] pub fn clone(&self) -> (r: Proof) ensures r == *self { unimplemented!() } }
impl Hex { #[verifier::external_body] pub fn clone(&self) -> (r: Hex) ensures r == *self { unimplemented!() } #[verifier::external_body] pub fn as_bytes(&self) -> (r: Bytes) ensures r == self.0 { unimplemented!() } }
#[verifier::external_body] pub fn time_now() -> (r: u64) ensures r == now() { unimplemented!() }
pub uninterp spec fn now() -> u64;
// the signed transaction is known by its digest only
#[verifier::external_body] pub struct SignedTransaction { x: u8 }
impl SignedTransaction { pub uninterp spec fn hash(&self) -> H256; #[verifier::external_body] pub fn tx_hash(&self) -> (r: H256) ensures r == self.hash() { unimplemented!() } }
pub uninterp spec fn stx_list(t: Seq<SignedTransaction>) -> Seq<u8>;
#[verifier::external_body] pub fn encode_list(t: &[SignedTransaction]) -> (r: Bytes) ensures r@ == stx_list(t@) { unimplemented!() }
pub uninterp spec fn empty_list_digest() -> H256;
#[verifier::external_body] pub fn rlp_empty_list() -> (r: H256) ensures r == empty_list_digest() { unimplemented!() }
pub open spec fn digest_of(t: Seq<SignedTransaction>) -> H256 { if t.len() == 0 { empty_list_digest() } else { keccak(stx_list(t)) } }
//@fn core/consensus/src/util.rs :: fn digest_signed_transactions
//@ ret r
//@ sub /RLP_EMPTY_LIST/ => /rlp_empty_list()/
//@ sub /rlp::encode_list\(/ => /encode_list(/
//@ spec
    ensures r == digest_of(stxs@),
//@end
// the root of the trie that lists the transactions' digests in order (C06 is about the trie)
pub uninterp spec fn listed_root(h: Seq<H256>) -> H256;
pub uninterp spec fn null_root() -> H256;
#[verifier::external_body] pub fn rlp_null() -> (r: H256) ensures r == null_root() { unimplemented!() }
#[verifier::external_body] pub fn trie_root(h: &Vec<H256>) -> (r: H256) ensures r == listed_root(h@) { unimplemented!() }
pub open spec fn root_of(h: Seq<H256>) -> H256 { if h.len() == 0 { null_root() } else { listed_root(h) } }
// digests and rebuilding, as C11's check establishes
//@item protocol/src/types/executor.rs :: struct ExecResp
//@end
impl ExecResp { #[verifier::external_body] pub fn clone(&self) -> (r: ExecResp) ensures r == *self { unimplemented!() } }
pub open spec fn bhash(b: Block) -> H256 { keccak(ser(flat(b.header.item()))) }
pub open spec fn phash(p: Proposal) -> H256 { keccak(ser(flat(p.item()))) }
pub open spec fn rebuilt(h: Header, state_root: H256, hashes: Vec<H256>) -> Proposal {
    Proposal { version: h.version, prev_hash: h.prev_hash, proposer: h.proposer, prev_state_root: state_root, transactions_root: h.transactions_root, signed_txs_hash: h.signed_txs_hash,
        timestamp: h.timestamp, number: h.number, gas_limit: h.gas_limit, extra_data: h.extra_data, base_fee_per_gas: h.base_fee_per_gas, proof: h.proof, chain_id: h.chain_id,
        call_system_script_count: h.call_system_script_count, tx_hashes: hashes }
}
pub uninterp spec fn log_filter(t: Seq<TxResp>) -> Bloom;
impl Block {
    #[verifier::external_body] pub fn hash(&self) -> (r: H256) ensures r == bhash(*self) { unimplemented!() }
    #[verifier::external_body] pub fn new(proposal: Proposal, exec_resp: ExecResp) -> (r: Block) ensures r.header.gas_used == u64_(exec_resp.gas_used as nat), r.header.log_bloom == log_filter(exec_resp.tx_resp@) { unimplemented!() }
}
impl Proposal {
    #[verifier::external_body] pub fn hash(&self) -> (r: H256) ensures r == phash(*self) { unimplemented!() }
    #[verifier::external_body] pub fn new_with_state_root(h: &Header, state_root: H256, hashes: Vec<H256>) -> (r: Proposal) ensures r == rebuilt(*h, state_root, hashes) { unimplemented!() }
}
impl MetadataVersion {
//@fn protocol/src/types/primitive.rs :: impl MetadataVersion/fn contains
//@ ret r
//@ spec
    ensures r == (self.start <= number <= self.end),
//@end
}
// ---- the consensus library's vote and validator list ----
pub struct Node { pub address: Bytes, pub propose_weight: u32, pub vote_weight: u32 }
pub enum VoteType { Prevote, Precommit }
pub struct Vote { pub height: u64, pub round: u64, pub vote_type: VoteType, pub block_hash: Bytes }
pub uninterp spec fn vote_bytes(height: u64, round: u64, vote_type: VoteType, block_hash: Seq<u8>) -> Seq<u8>;
#[verifier::external_body] pub fn encode_vote(v: &Vote) -> (r: Bytes) ensures r@ == vote_bytes(v.height, v.round, v.vote_type, v.block_hash@) { unimplemented!() }
#[verifier::external_body] pub fn bytes_of(s: &[u8]) -> (r: Bytes) ensures r@ == s@ { unimplemented!() }
/// the addresses a bitmap marks in the sorted list
pub uninterp spec fn marked(l: Seq<Node>, bitmap: Seq<u8>) -> Seq<Bytes>;
pub open spec fn nodes(v: Seq<ValidatorExtend>) -> Seq<Node> { v.map_values(|x: ValidatorExtend| Node { address: x.pub_key.0, propose_weight: x.propose_weight, vote_weight: x.vote_weight }) }
#[verifier::external_body] pub fn extract_voters(l: &mut Vec<Node>, bitmap: &Bytes) -> (r: Result<Vec<Bytes>, ProtocolError>)
    ensures final(l)@.to_multiset() == old(l)@.to_multiset(), r matches Ok(v) ==> v@ == marked(old(l)@, bitmap@) && v@.len() <= old(l)@.len() { unimplemented!() }
/// address to voting weight
#[verifier::external_body] pub struct Weights { x: u8 }
impl Weights {
    pub uninterp spec fn view(&self) -> Map<Seq<u8>, u32>;
    #[verifier::external_body] pub fn contains_key(&self, k: &[u8]) -> (r: bool) ensures r == self@.contains_key(k@) { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &[u8]) -> (r: Option<&u32>) ensures r == (if self@.contains_key(k@) { Some(&self@[k@]) } else { None::<&u32> }) { unimplemented!() }
    #[verifier::external_body] pub fn total(&self) -> (r: u64) ensures r as nat == total(self@) { unimplemented!() }
}
pub uninterp spec fn weight_map(l: Seq<Node>) -> Map<Seq<u8>, u32>;
/// whatever the order of the list: the addresses are distinct
pub broadcast axiom fn weight_map_order(a: Seq<Node>, b: Seq<Node>) requires #[trigger] a.to_multiset() == #[trigger] b.to_multiset() ensures weight_map(a) == weight_map(b);
#[verifier::external_body] pub fn weights_of(l: &Vec<Node>) -> (r: Weights) ensures r@ == weight_map(l@), small(r@) { unimplemented!() }
pub uninterp spec fn total(w: Map<Seq<u8>, u32>) -> nat;
/// so few validators that no sum of weights overflows
pub open spec fn small(w: Map<Seq<u8>, u32>) -> bool { total(w) < 0x4000_0000_0000_0000 }
pub open spec fn backing(w: Map<Seq<u8>, u32>, v: Seq<Bytes>) -> nat decreases v.len() { if v.len() == 0 { 0 } else { backing(w, v.drop_last()) + w[v.last()@] as nat } }
pub proof fn backing_bound(w: Map<Seq<u8>, u32>, v: Seq<Bytes>) ensures backing(w, v) <= v.len() * 0xffff_ffff decreases v.len() { if v.len() > 0 { backing_bound(w, v.drop_last()); } }
pub open spec fn known(w: Map<Seq<u8>, u32>, v: Seq<Bytes>) -> bool { forall|i: int| 0 <= i < v.len() ==> w.contains_key((#[trigger] v[i])@) }
/// strictly more than two thirds
pub open spec fn enough(w: Map<Seq<u8>, u32>, v: Seq<Bytes>) -> bool { known(w, v) && 3 * backing(w, v) > 2 * total(w) }
#[verifier::external_body] pub struct BlsPublicKey { x: u8 }
pub uninterp spec fn bls_key(b: Seq<u8>) -> BlsPublicKey;
#[verifier::external_body] pub fn convert_hex_to_bls_pubkeys(h: Hex) -> (r: ProtocolResult<BlsPublicKey>) ensures r matches Ok(k) ==> k == bls_key(h.0@) { unimplemented!() }
#[verifier::external_body] pub fn all_keys(h: Vec<Hex>) -> (r: ProtocolResult<Vec<BlsPublicKey>>) ensures r matches Ok(k) ==> k@ == h@.map_values(|x: Hex| bls_key(x.0@)) { unimplemented!() }
pub open spec fn keys(h: Seq<Hex>) -> Seq<BlsPublicKey> { h.map_values(|x: Hex| bls_key(x.0@)) }
pub uninterp spec fn aggregate_valid(digest: Seq<u8>, keys: Seq<BlsPublicKey>, sig: Seq<u8>) -> bool;
#[verifier::external_body] pub struct OverlordCrypto { x: u8 }
impl OverlordCrypto {
    #[verifier::external_body] pub fn hash(&self, m: Bytes) -> (r: Bytes) ensures r@ == keccak(m@)@ { unimplemented!() }
    #[verifier::external_body] pub fn inner_verify_aggregated_signature(&self, h: Bytes, k: Vec<BlsPublicKey>, s: Bytes) -> (r: ProtocolResult<()>) ensures r is Ok ==> aggregate_valid(h@, k@, s@) { unimplemented!() }
}
/// the second keys of those of the list whose first key is among the voters
pub open spec fn keys_of(l: Seq<ValidatorExtend>, v: Seq<Bytes>) -> Seq<Hex> decreases l.len()
{ if l.len() == 0 { Seq::empty() } else { let k = keys_of(l.drop_last(), v); if v.contains(l.last().pub_key.0) { k.push(l.last().bls_pub_key) } else { k } } }
#[verifier::external_body] pub fn keys_of_voters(l: &Vec<ValidatorExtend>, v: &Vec<Bytes>) -> (r: Vec<Hex>) ensures r@ == keys_of(l@, v@) { unimplemented!() }
#[verifier::external_body] pub fn nodes_of(l: &Vec<ValidatorExtend>) -> (r: Vec<Node>) ensures r@ == nodes(l@), r@.len() < 0x4000_0000 { unimplemented!() }
// ---- the chain as the node has it: a block is stored once under its number ----
pub uninterp spec fn stored(n: u64) -> Option<Block>;
pub uninterp spec fn metadata_at(n: u64) -> Option<Metadata>;
pub uninterp spec fn executed(root: H256, p: Proposal, t: Seq<SignedTransaction>) -> Option<ExecResp>;
/// execution sees a proposal without its parent's state root (ExecutorContext has no such field)
pub broadcast axiom fn executed_without_parent_root(root: H256, h: Header, a: H256, t: Vec<H256>, x: Seq<SignedTransaction>) ensures #[trigger] executed(root, rebuilt(h, a, t), x) == executed(root, rebuilt(h, root, t), x);
pub uninterp spec fn pool_accepts(n: u64, h: Seq<H256>) -> bool;
#[verifier::external_body] pub struct MetadataHandle { x: u8 }
impl MetadataHandle { #[verifier::external_body] pub fn get_metadata_by_block_number(&self, n: u64) -> (r: ProtocolResult<Metadata>) ensures r matches Ok(m) ==> metadata_at(n) == Some(m) { unimplemented!() } }
// ---- what the checks are to establish ----
/// b's proposal extends `prev`: version, parent, chain id, base fee
pub open spec fn follows(p: Proposal, prev: Block) -> bool {
    &&& p.version == prev.header.version
    &&& p.prev_hash == bhash(prev)
    &&& p.chain_id == prev.header.chain_id
    &&& p.base_fee_per_gas == u64_(BASE_FEE_PER_GAS as nat)
}
/// a proof that carries, for the proposal the block was built from, signatures of validators of its epoch holding more than two thirds of the weight
pub open spec fn proves(pf: Proof, b: Block) -> bool {
    b.header.number == 0 || (pf.number == b.header.number
    && (stored((b.header.number - 1) as u64) matches Some(prev) && pf.block_hash == phash(rebuilt(b.header, prev.header.state_root, b.tx_hashes)))
    && (metadata_at(b.header.number) matches Some(m) && m.version.start <= b.header.number <= m.version.end && {
        let voters = marked(nodes(m.verifier_list@), pf.bitmap@);
        enough(weight_map(nodes(m.verifier_list@)), voters)
        && aggregate_valid(keccak(vote_bytes(pf.number, pf.round, VoteType::Precommit, pf.block_hash@))@, keys(keys_of(m.verifier_list@, voters)), pf.signature@) }))
}
/// everything that is checked of a proposal against its parent
pub open spec fn acceptable(p: Proposal) -> bool {
    &&& p.number > 0
    &&& stored((p.number - 1) as u64) matches Some(prev)
    &&& follows(p, prev)
    &&& p.prev_state_root == prev.header.state_root
    &&& prev.header.timestamp <= p.timestamp <= now()
    &&& proves(p.proof, prev)
    &&& pool_accepts(p.number, p.tx_hashes@)
    &&& p.transactions_root == root_of(p.tx_hashes@)
    &&& (exists|t: Seq<SignedTransaction>| #[trigger] listed(t, p.tx_hashes@) && p.signed_txs_hash == digest_of(t))
}
pub open spec fn listed(t: Seq<SignedTransaction>, h: Seq<H256>) -> bool { t.len() == h.len() && forall|i: int| 0 <= i < h.len() ==> (#[trigger] t[i]).hash() == h[i] }
/// everything that must hold of a block from another node before it is stored
pub open spec fn storable(b: Block, t: Seq<SignedTransaction>) -> bool {
    &&& b.header.number > 0
    &&& stored((b.header.number - 1) as u64) matches Some(prev)
    &&& follows(rebuilt(b.header, prev.header.state_root, b.tx_hashes), prev)
    &&& proves(b.header.proof, prev)
    &&& (exists|pf: Proof| #[trigger] proves(pf, b))
    &&& b.header.signed_txs_hash == digest_of(t)
    &&& executed(prev.header.state_root, rebuilt(b.header, prev.header.state_root, b.tx_hashes), t) matches Some(e)
    &&& b.header.state_root == e.state_root
    &&& b.header.receipts_root == e.receipt_root
    &&& b.header.gas_used == u64_(e.gas_used as nat)
    &&& b.header.log_bloom == log_filter(e.tx_resp@)
    &&& b.tx_hashes@.no_duplicates() ==> listed(t, b.tx_hashes@)
}
//@fn core/consensus/src/engine.rs :: fn validate_timestamp
//@ ret r
//@ spec
    ensures r == (previous_timestamp <= proposal_timestamp <= current_timestamp),
//@end
// ---- the adapter ----
pub struct Adapter { pub crypto: OverlordCrypto }
impl Adapter {
    #[verifier::external_body] pub fn get_block_by_number(&self, ctx: Context, n: u64) -> (r: ProtocolResult<Block>) ensures r matches Ok(b) ==> stored(n) == Some(b) && b.header.number == n { unimplemented!() }
    #[verifier::external_body] pub fn get_metadata_handle(&self, ctx: Context) -> ProtocolResult<MetadataHandle> { unimplemented!() }
    #[verifier::external_body] pub fn get_metadata_by_block_number(&self, n: u64) -> (r: ProtocolResult<Metadata>) ensures r matches Ok(m) ==> metadata_at(n) == Some(m) { unimplemented!() }
    #[verifier::external_body] pub fn verify_txs(&self, ctx: Context, n: u64, h: &Vec<H256>) -> (r: ProtocolResult<()>) ensures r is Ok ==> pool_accepts(n, h@) { unimplemented!() }
    #[verifier::external_body] pub fn get_full_txs(&self, ctx: Context, h: &Vec<H256>) -> (r: ProtocolResult<Vec<SignedTransaction>>) ensures r matches Ok(t) ==> listed(t@, h@) { unimplemented!() }
    #[verifier::external_body] pub fn exec(&self, ctx: Context, root: H256, p: &Proposal, t: &Vec<SignedTransaction>) -> (r: ProtocolResult<ExecResp>) ensures r matches Ok(e) ==> executed(root, *p, t@) == Some(e) { unimplemented!() }
    #[verifier::external_body] pub fn get_proof_from_remote(&self, ctx: Context, n: u64) -> ProtocolResult<Proof> { unimplemented!() }
    #[verifier::external_body] pub fn get_block_from_remote(&self, ctx: Context, n: u64) -> ProtocolResult<Block> { unimplemented!() }
    #[verifier::external_body] pub fn get_txs_from_remote(&self, ctx: Context, n: u64, h: &[H256]) -> ProtocolResult<Vec<SignedTransaction>> { unimplemented!() }
    #[verifier::external_body] pub fn get_tx_from_mem(&self, ctx: Context, h: &H256) -> (r: Option<SignedTransaction>) ensures r matches Some(t) ==> t.hash() == *h { unimplemented!() }
    #[verifier::external_body] pub fn save_signed_txs(&self, ctx: Context, n: u64, t: Vec<SignedTransaction>) -> ProtocolResult<()> { unimplemented!() }
    #[verifier::external_body] pub fn save_receipts(&self, ctx: Context, n: u64, t: Vec<Receipt>) -> ProtocolResult<()> { unimplemented!() }
    #[verifier::external_body] pub fn save_proof(&self, ctx: Context, p: Proof) -> ProtocolResult<()> { unimplemented!() }
    /// nothing else is ever stored
    #[verifier::external_body] pub fn save_block(&self, ctx: Context, b: Block) -> (r: ProtocolResult<()>) requires exists|t: Seq<SignedTransaction>| #[trigger] storable(b, t) ensures r is Ok ==> stored(b.header.number) == Some(b) { unimplemented!() }
    #[verifier::external_body] pub fn flush_mempool(&self, ctx: Context, h: &Vec<H256>, n: u64) -> ProtocolResult<()> { unimplemented!() }
//@fn core/consensus/src/adapter.rs :: impl CommonConsensusAdapter for OverlordConsensusAdapter<M, N, S, DB>/fn verify_block_header
//@ ret r
//@ sub /async fn/ => /fn/
//@ sub /\s*\.await/ => //
//@ sub /\.into\(\)\s*\{/ => /.into_u64() {/ 0
//@ sub /BASE_FEE_PER_GAS\.into\(\)/ => /U64::from(BASE_FEE_PER_GAS)/ 0
//@ sub /BASE_FEE_PER_GAS\.into_u64\(\)/ => /U64::from(BASE_FEE_PER_GAS)/ 0
//@ spec
    requires proposal.number > 0,
    ensures r is Ok ==> (stored((proposal.number - 1) as u64) matches Some(prev) && follows(*proposal, prev)),
//@end
//@fn core/consensus/src/adapter.rs :: impl CommonConsensusAdapter for OverlordConsensusAdapter<M, N, S, DB>/fn verify_proof
//@ ret r
//@ sub /async fn/ => /fn/
//@ sub /\s*\.await/ => //
//@ sub /metadata\s*\.verifier_list\s*\.iter\(\)\s*\.map\(\|v\| Node \{\s*address:\s*v\.pub_key\.as_bytes\(\),\s*propose_weight:\s*v\.propose_weight,\s*vote_weight:\s*v\.vote_weight,\s*\}\)\s*\.collect::<Vec<(?:Node|_)>>\(\)/ => /nodes_of(&metadata.verifier_list)/
//@ sub /authority_list\s*\.iter\(\)\s*\.map\(\|node\| \(node\.address\.clone\(\), node\.vote_weight\)\)\s*\.collect::<HashMap<[^>]*>>\(\)/ => /weights_of(&authority_list)/
//@ sub /Bytes::from\(((?:\w+\.)*\w+)\.as_bytes\(\)\.to_vec\(\)\)/ => /bytes_of(\1.as_bytes())/
//@ sub /Bytes::from\(rlp::encode\(&vote\)\)/ => /encode_vote(&vote)/
//@ sub /signed_voters\.clone\(\)/ => /same(&signed_voters)/
//@ sub /metadata\s*\.verifier_list\s*\.iter\(\)\s*\.filter_map\(\|v\| \{\s*if signed_voters\.contains\(&v\.pub_key\.as_bytes\(\)\) \{\s*Some\(v\.bls_pub_key\.clone\(\)\)\s*\} else \{\s*None\s*\}\s*\}\)\s*\.collect::<Vec<_>>\(\)/ => /keys_of_voters(&metadata.verifier_list, &signed_voters)/
//@ spec
    ensures r is Ok ==> proves(proof, block),
//@ start
    broadcast use weight_map_order;
//@end
//@fn core/consensus/src/adapter.rs :: impl CommonConsensusAdapter for OverlordConsensusAdapter<M, N, S, DB>/fn verify_proof_signature
//@ ret r
//@ sub /async fn/ => /fn/
//@ sub /\s*\.await/ => //
//@ sub /vote_keys\s*\.into_iter\(\)\s*\.map\(convert_hex_to_bls_pubkeys\)\s*\.collect::<Result<Vec<_>, _>>\(\)/ => /all_keys(vote_keys)/
//@ spec
    ensures r is Ok ==> aggregate_valid(vote_hash@, keys(vote_keys@), aggregated_signature_bytes@),
//@end
//@fn core/consensus/src/adapter.rs :: impl CommonConsensusAdapter for OverlordConsensusAdapter<M, N, S, DB>/fn verify_proof_weight
//@ ret r
//@ sub /async fn/ => /fn/
//@ sub /\s*\.await/ => //
//@ sub /HashMap<Bytes, u32>/ => /Weights/
//@ sub /weight_map\.iter\(\)\.map\(\|pair\| u64::from\(\*pair\.1\)\)\.sum\(\)/ => /weight_map.total()/
//@ spec
    requires small(weight_map@), signed_voters@.len() < 0x4000_0000,
    ensures r is Ok == enough(weight_map@, signed_voters@),
//@ loop 0 it
    invariant it.seq() == signed_voters@, signed_voters@.len() < 0x4000_0000, accumulator as nat == backing(weight_map@, signed_voters@.take(it.index@)), known(weight_map@, signed_voters@.take(it.index@)),
//@ loopstart 0
    proof { let t = signed_voters@.take(it.index@ + 1); assert(t.drop_last() =~= signed_voters@.take(it.index@)); assert(t.last() == signed_voters@[it.index@]); backing_bound(weight_map@, t.drop_last()); }
//@ loopafter 0
    proof { assert(signed_voters@.take(signed_voters@.len() as int) =~= signed_voters@); backing_bound(weight_map@, signed_voters@); }
//@end
}
// ---- the engine: a proposal on which this node is asked to vote ----
#[verifier::external_body] pub struct Known { x: u8 }
impl Known { pub uninterp spec fn view(&self) -> Set<H256>; #[verifier::external_body] pub fn has(&self, h: &H256) -> (r: bool) ensures r == self@.contains(*h) { unimplemented!() } }
pub struct NodeInfo { pub hardfork: Option<HardforkInfoInner> }
impl NodeInfo { #[verifier::external_body] pub fn announces(&self, d: &HardforkInfoInner) -> (r: bool) ensures r == (self.hardfork == Some(*d)) { unimplemented!() } }
#[verifier::external_body] pub fn decode_fork(b: &Bytes) -> (r: Result<HardforkInfoInner, ProtocolError>) ensures r matches Ok(h) ==> fork_in(b@) == Some(h) { unimplemented!() }
pub uninterp spec fn fork_in(b: Seq<u8>) -> Option<HardforkInfoInner>;
pub struct Wal { pub x: u8 }
impl Wal { #[verifier::external_body] pub fn save(&self, n: u64, root: H256, t: Vec<SignedTransaction>) -> ProtocolResult<()> { unimplemented!() } }
#[verifier::external_body] pub fn first_of(v: &Vec<ExtraData>) -> (r: Option<&ExtraData>) ensures r == (if v@.len() > 0 { Some(&v@[0]) } else { None::<&ExtraData> }) { unimplemented!() }
#[verifier::external_body] pub fn hex_text(b: &Bytes) -> String { unimplemented!() }
pub struct Engine { pub adapter: Adapter, pub exemption_hash: Known, pub node_info: NodeInfo, pub txs_wal: Wal }
impl Engine {
//@fn core/consensus/src/engine.rs :: impl Engine<Proposal> for ConsensusEngine<Adapter>/fn check_block
//@ ret r
//@ sub /async fn/ => /fn/
//@ sub /\s*\.await/ => //
//@ sub /Box<dyn Error \+ Send>/ => /ProtocolError/
//@ sub /\)\s*\)\s*\.into\(\)/ => /))/ 0
//@ sub /\}\s*\)\s*\.into\(\)/ => /}))/ 0
//@ sub /Err\(e\.into\(\)\)/ => /Err(e)/ 0
//@ sub /\}\)\)\)/ => /}))/ 0
//@ sub /let time = Instant::now\(\);/ => // 0
//@ sub /common_apm::metrics::[^;]*;/ => // 0
//@ sub /gauge_txs_len\(&proposal\);/ => // 0
//@ sub /format!\("\{:x\}", hash\)/ => /hex_text(&hash)/ 0
//@ sub /"[^"]*"\s*\.to_string\(\)/ => /hex_text(&hash)/ 0
//@ sub /proposal\.extra_data\.get\(0\)/ => /first_of(&proposal.extra_data)/
//@ sub /HardforkInfoInner::decode\(&(\w+)\.inner\)/ => /decode_fork(&\1.inner)/
//@ sub /self\s*\.node_info\s*\.hardfork_proposals\s*\.read\(\)\s*\.unwrap\(\)\s*\.as_ref\(\)\s*\.map\(\|v\| &data == v\)\s*\.unwrap_or_default\(\)/ => /self.node_info.announces(&data)/
//@ sub /self\.exemption_hash\s*\.read\(\)\s*\.contains\(&(\w+)\)/ => /self.exemption_hash.has(&\1)/
//@ sub /let mut reason = self\.last_check_block_fail_reason\.write\(\);\s*\*reason = e\.to_string\(\);/ => // 0
//@ sub /(\w+\.tx_hashes)\.clone\(\)/ => /same(&\1)/
//@ spec
    ensures r is Ok ==> proposal.number == next_number && hash@ == phash(proposal)@ && proposal.number == proposal.proof.number + 1
        && (proposal.extra_data@.len() > 0 ==> self.node_info.hardfork is Some && fork_in(proposal.extra_data@[0].inner@) == self.node_info.hardfork)
        && (self.exemption_hash@.contains(phash(proposal)) || acceptable(proposal)),
//@end
//@fn core/consensus/src/engine.rs :: impl ConsensusEngine<Adapter>/fn inner_check_block
//@ ret r
//@ sub /async fn/ => /fn/
//@ sub /\s*\.await/ => //
//@ spec
    requires proposal.number > 0,
    ensures r is Ok ==> acceptable(*proposal),
//@end
//@fn core/consensus/src/engine.rs :: impl ConsensusEngine<Adapter>/fn check_order_transactions
//@ ret r
//@ sub /RLP_NULL/ => /rlp_null()/
//@ sub /TrieMerkle::from_iter\(proposal\.tx_hashes\.iter\(\)\.enumerate\(\)\)\s*\.root_hash\(\)\s*\.unwrap_or_else\(\|err\| \{\s*panic!\("[^"]*"\)\s*\}\)/ => /trie_root(&proposal.tx_hashes)/
//@ spec
    ensures r is Ok == (proposal.signed_txs_hash == digest_of(signed_txs@) && proposal.transactions_root == root_of(proposal.tx_hashes@)),
//@end
}
// ---- synchronization: blocks of other nodes ----
pub struct CurrentStatus { pub prev_hash: H256, pub last_number: u64, pub last_state_root: H256, pub tx_num_limit: u64, pub max_tx_size: U256, pub proof: Proof }
pub struct StatusAgent { pub st: CurrentStatus }
impl StatusAgent {
    #[verifier::external_body] pub fn inner(&self) -> (r: CurrentStatus) ensures r == self.st { unimplemented!() }
    #[verifier::external_body] pub fn swap(&mut self, new: CurrentStatus) ensures final(self).st == new { unimplemented!() }
}
/// the status is that of the block stored last
pub open spec fn tip(s: CurrentStatus) -> bool { stored(s.last_number) matches Some(b) && b.header.state_root == s.last_state_root && bhash(b) == s.prev_hash }
pub struct RichBlock { pub block: Block, pub txs: Vec<SignedTransaction> }
impl RichBlock { #[verifier::external_body] pub fn generate_receipts_and_logs(&self, e: &ExecResp) -> (Vec<Receipt>, Vec<Vec<Log>>) { unimplemented!() } }
/// the transactions are the block's
pub open spec fn complete(b: RichBlock) -> bool { b.block.tx_hashes@.no_duplicates() ==> listed(b.txs@, b.block.tx_hashes@) }
pub const ONCE_SYNC_BLOCK_LIMIT: u64 = 50;
/// position to transaction, and digest to position, of what is still missing
#[verifier::external_body] pub struct Found { x: u8 }
impl Found {
    pub uninterp spec fn view(&self) -> Map<nat, SignedTransaction>;
    #[verifier::external_body] pub fn new() -> (r: Found) ensures r@ == Map::<nat, SignedTransaction>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: usize, t: SignedTransaction) ensures final(self)@ == old(self)@.insert(k as nat, t) { unimplemented!() }
    /// in the order of the positions
    #[verifier::external_body] pub fn in_order(self) -> (r: Vec<SignedTransaction>) ensures forall|n: nat| #[trigger] covers(self@, n) ==> r@.len() == n && forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == self@[i as nat] { unimplemented!() }
}
pub open spec fn covers(m: Map<nat, SignedTransaction>, n: nat) -> bool { forall|k: nat| (#[trigger] m.contains_key(k)) == (k < n) }
#[verifier::external_body] pub struct Missing { x: u8 }
impl Missing {
    pub uninterp spec fn view(&self) -> Map<H256, nat>;
    #[verifier::external_body] pub fn new() -> (r: Missing) ensures r@ == Map::<H256, nat>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, h: &H256, k: usize) ensures final(self)@ == old(self)@.insert(*h, k as nat) { unimplemented!() }
    #[verifier::external_body] pub fn remove(&mut self, h: &H256) -> (r: Option<usize>) ensures (r matches Some(k) ==> old(self)@.contains_key(*h) && old(self)@[*h] == k as nat), r is None ==> !old(self)@.contains_key(*h), final(self)@ == old(self)@.remove(*h) { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r ==> self@ == Map::<H256, nat>::empty() { unimplemented!() }
}
/// of the first n positions each is found, with the transaction of that digest, or missing (if no digest occurs twice)
pub open spec fn split(f: Map<nat, SignedTransaction>, m: Map<H256, nat>, h: Seq<H256>, n: int) -> bool {
    &&& n <= h.len() <= usize::MAX
    &&& forall|k: nat| #[trigger] f.contains_key(k) ==> k < n && f[k].hash() == h[k as int]
    &&& forall|d: H256| #[trigger] m.contains_key(d) ==> m[d] < n && h[m[d] as int] == d
    &&& h.no_duplicates() ==> forall|k: nat| k < n ==> f.contains_key(k) || m.contains_key(#[trigger] h[k as int])
}
#[verifier::external_body] pub fn parts_of(v: &Vec<H256>, n: usize) -> Vec<Vec<H256>> { unimplemented!() }
#[verifier::external_body] pub fn numbered(v: &Vec<H256>) -> (r: Vec<(usize, H256)>) ensures r@.len() == v@.len() <= usize::MAX, forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == (i as usize, v@[i]) { unimplemented!() }
#[verifier::external_body] pub fn config_limit(m: &Metadata) -> u64 { unimplemented!() }
pub struct Sync { pub adapter: Adapter, pub status: StatusAgent, pub sync_txs_chunk_size: usize }
impl Sync {
//@fn core/consensus/src/synchronization.rs :: impl OverlordSynchronization<Adapter>/fn verify_block
//@ ret r
//@ sub /async fn/ => /fn/
//@ sub /\s*\.await/ => //
//@ sub /((?:\w+\.)*tx_hashes)\.clone\(\)/ => /same(&\1)/
//@ spec
    requires consenting_rich_block.block.header.number > 0,
    ensures r matches Ok(pf) ==> ({ let b = consenting_rich_block.block;
        proves(pf, b) && (stored((b.header.number - 1) as u64) matches Some(prev) && follows(rebuilt(b.header, prev.header.state_root, b.tx_hashes), prev) && proves(b.header.proof, prev)) && b.header.signed_txs_hash == digest_of(consenting_rich_block.txs@) }),
//@end
//@fn core/consensus/src/synchronization.rs :: impl OverlordSynchronization<Adapter>/fn commit_block
//@ ret r
//@ sub /async fn/ => /fn/
//@ sub /\s*\.await/ => //
//@ sub /status_agent: StatusAgent/ => /status_agent: &mut StatusAgent/
//@ sub /((?:\w+\.)*(?:tx_hashes|txs))\.clone\(\)/ => /same(&\1)/
//@ sub /(\w+\.consensus_config\.\w+)\.into\(\)/ => /U256::from(\1)/
//@ sub /self\.save_chain_data\(/ => /proof { assert(proves(proof, rich_block.block)); assert(storable(rich_block.block, rich_block.txs@)); } self.save_chain_data(/ 0
//@ spec
    requires complete(rich_block), tip(old(status_agent).st), rich_block.block.header.number == old(status_agent).st.last_number + 1, proves(proof, rich_block.block),
        stored(old(status_agent).st.last_number) matches Some(prev) && follows(rebuilt(rich_block.block.header, prev.header.state_root, rich_block.block.tx_hashes), prev) && proves(rich_block.block.header.proof, prev),
        rich_block.block.header.signed_txs_hash == digest_of(rich_block.txs@),
    ensures tip(final(status_agent).st), r is Ok ==> final(status_agent).st.last_number == old(status_agent).st.last_number + 1,
//@ start
    broadcast use executed_without_parent_root;
//@end
//@fn core/consensus/src/synchronization.rs :: impl OverlordSynchronization<Adapter>/fn save_chain_data
//@ ret r
//@ sub /async fn/ => /fn/
//@ sub /\s*\.await/ => //
//@ spec
    requires exists|t: Seq<SignedTransaction>| #[trigger] storable(block, t),
    ensures r is Ok ==> stored(block.header.number) == Some(block),
//@end
//@fn core/consensus/src/synchronization.rs :: impl OverlordSynchronization<Adapter>/fn start_sync
//@ ret r
//@ sub /async fn/ => /fn/
//@ sub /\s*\.await/ => //
//@ sub /sync_status_agent: StatusAgent/ => /sync_status_agent: &mut StatusAgent/
//@ sub /sync_status_agent\.clone\(\)/ => /sync_status_agent/
//@ sub /SYNC_STATUS\s*\.write\(\)\s*\.\w+\([^;]*\);/ => // 0
//@ sub /let (?:time|inst) = Instant::now\(\);/ => // 0
//@ sub /common_apm::metrics::[^;]*;/ => // 0
//@ spec
    requires tip(old(sync_status_agent).st), old(sync_status_agent).st.last_number == current_number, current_number < u64::MAX - 100,
    ensures tip(final(sync_status_agent).st),
//@ loop 0
    invariant tip(sync_status_agent.st), sync_status_agent.st.last_number == current_consented_number, current_consented_number <= current_number + 50 || current_consented_number <= current_number, remote_number <= current_number + 50, current_number < u64::MAX - 100,
    decreases u64::MAX - current_consented_number,
//@end
//@fn core/consensus/src/synchronization.rs :: impl OverlordSynchronization<Adapter>/fn get_block_from_remote
//@ ret r
//@ sub /async fn/ => /fn/
//@ sub /\s*\.await/ => //
//@end
//@fn core/consensus/src/synchronization.rs :: impl OverlordSynchronization<Adapter>/fn get_rich_block_from_remote
//@ ret r
//@ sub /async fn/ => /fn/
//@ sub /\s*\.await/ => //
//@ sub /std::collections::BTreeMap::new\(\)/ => /Found::new()/
//@ sub /std::collections::HashMap::new\(\)/ => /Missing::new()/
//@ sub /Vec::with_capacity\([^;]*\);/ => /Vec::new();/
//@ sub /block\.tx_hashes\.iter\(\)\.enumerate\(\)/ => /numbered(&block.tx_hashes)/
//@ sub /get_tx_from_mem\(ctx\.clone\(\), hash\)/ => /get_tx_from_mem(ctx.clone(), &hash)/
//@ sub /missing_list\.push\(\*hash\)/ => /missing_list.push(hash)/
//@ sub /missing\.insert\(hash, index\)/ => /missing.insert(&hash, index)/
//@ sub /missing_list\.chunks\(([\w.]+)\)/ => /parts_of(&missing_list, \1)/
//@ sub /get_txs_from_remote\(ctx\.clone\(\), number, tx_hashes\)/ => /get_txs_from_remote(ctx.clone(), number, tx_hashes.as_slice())/
//@ sub /missing\.remove\(&tx\.transaction\.hash\)/ => /missing.remove(&tx.tx_hash())/
//@ sub /res\.into_values\(\)\.collect\(\)/ => /res.in_order()/
//@ sub /crate::ConsensusError/ => /ConsensusError/
//@ spec
    ensures r matches Ok(b) ==> b.block.header.number == number && complete(b),
//@ loop 0 it
    invariant it.seq().len() == block.tx_hashes@.len() <= usize::MAX, forall|i: int| 0 <= i < it.seq().len() ==> #[trigger] it.seq()[i] == (i as usize, block.tx_hashes@[i]),
        split(res@, missing@, block.tx_hashes@, it.index@ as int),
//@ loop 1
    invariant split(res@, missing@, block.tx_hashes@, block.tx_hashes@.len() as int),
//@ loop 2
    invariant split(res@, missing@, block.tx_hashes@, block.tx_hashes@.len() as int),
//@ loopafter 1
    proof { if block.tx_hashes@.no_duplicates() { if missing@ == Map::<H256, nat>::empty() {
        assert forall|k: nat| (#[trigger] res@.contains_key(k)) == (k < block.tx_hashes@.len()) by { if k < block.tx_hashes@.len() { let d = block.tx_hashes@[k as int]; assert(!missing@.contains_key(d)); } }
        assert(covers(res@, block.tx_hashes@.len())); } } }
//@end
}
}
}
fn main() {}
