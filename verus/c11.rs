//@include head.rs
pub mod sh {
use super::*;
//@include num.rs
//@include bytes.rs
//@include rlp.rs
//@include types.rs
}
use sh::*;
// C11: what a block takes from its proposal and its execution result, the proposal rebuilt from it, and the two digests.
pub mod blk {
use super::*;
use super::sh::*;
broadcast use {num_axioms, bytes_axioms, rlp_axioms, vec_axioms};
pub type Hash = H256;
pub type MerkleRoot = H256;
//@item protocol/src/types/executor.rs :: struct ExecResp
//@end
#[verifier::external_body] pub fn same<T>(x: &T) -> (r: T) ensures r == *x { unimplemented!() }
pub fn zero_hash() -> (r: H256) ensures r == h256(zeros(32)) { zero_h256() }
#[verifier::external_body] pub fn zero_h256() -> (r: H256) ensures r == h256(zeros(32)) { unimplemented!() }
pub open spec fn zeros(n: nat) -> Seq<u8> { Seq::new(n, |i: int| 0u8) }
/// the filter over the logs of every execution result (an opaque function of them)
pub uninterp spec fn log_filter(t: Seq<TxResp>) -> Bloom;
pub uninterp spec fn filters(t: Seq<TxResp>) -> Seq<Bloom>;
#[verifier::external_body] pub fn filters_of(t: &Vec<TxResp>) -> (r: Vec<Bloom>) ensures r@ == filters(t@) { unimplemented!() }
#[verifier::external_body] pub fn filter_over(v: &Vec<Bloom>) -> (r: Bloom) ensures forall|t: Seq<TxResp>| v@ == #[trigger] filters(t) ==> r == log_filter(t) { unimplemented!() }
#[verifier::external_body] pub fn wire<T: Enc>(x: &T) -> (r: Bytes) ensures r@ == ser(flat(x.item())) { unimplemented!() }
impl Header {
//@fn protocol/src/types/block.rs :: impl Header/fn hash
//@ ret r
//@ sub /(\w+)\.encode\(\)\.unwrap\(\)/ => /wire(\1)/
//@ spec
    ensures r == keccak(ser(flat(self.item()))),
//@end
}
impl Proposal {
//@fn protocol/src/types/block.rs :: impl Proposal/fn hash
//@ ret r
//@ sub /(\w+)\.encode\(\)\.unwrap\(\)/ => /wire(\1)/
//@ spec
    ensures r == keccak(ser(flat(self.item()))),
//@end
//@fn protocol/src/types/block.rs :: impl Proposal/fn new_with_state_root
//@ ret r
//@ sub /((?:\w+\.)*\w+)\.clone\(\)/ => /same(&\1)/
//@ spec
    ensures r == rebuilt(*h, state_root, hashes),
//@end
//@fn protocol/src/types/block.rs :: impl Proposal/fn new_without_state_root
//@ ret r
//@ sub /((?:\w+\.)*\w+)\.clone\(\)/ => /same(&\1)/
//@ sub /prev_state_root:\s*(?:Default|Hash|MerkleRoot|H256)::(?:default|zero)\(\)/ => /prev_state_root: zero_hash()/
//@ spec
    ensures r.tx_hashes@.len() == 0, r == rebuilt(*h, h256(zeros(32)), r.tx_hashes),
//@end
}
pub open spec fn rebuilt(h: Header, state_root: H256, hashes: Vec<H256>) -> Proposal {
    Proposal { version: h.version, prev_hash: h.prev_hash, proposer: h.proposer, prev_state_root: state_root, transactions_root: h.transactions_root, signed_txs_hash: h.signed_txs_hash,
        timestamp: h.timestamp, number: h.number, gas_limit: h.gas_limit, extra_data: h.extra_data, base_fee_per_gas: h.base_fee_per_gas, proof: h.proof, chain_id: h.chain_id,
        call_system_script_count: h.call_system_script_count, tx_hashes: hashes }
}
impl Block {
//@fn protocol/src/types/block.rs :: impl Block/fn new
//@ ret r
//@ sub /exec_resp\s*\.tx_resp\s*\.iter\(\)\s*\.map\(\|(\w+)\| Bloom::from\(BloomInput::Raw\(rlp::encode_list\(&\1\.logs\)\.as_ref\(\)\)\)\)\s*\.collect(?:::<Vec<_>>)?\(\)/ => /filters_of(&exec_resp.tx_resp)/
//@ sub /Bloom::from\(BloomInput::Raw\(\s*rlp::encode_list\(&(\w+)\)\.as_ref\(\),?\s*\)\)/ => /filter_over(&\1)/
//@ sub /((?:\w+\.)*\w+)\.into\(\)/ => /U64::from(\1)/
//@ spec
    ensures r.tx_hashes == proposal.tx_hashes,
        r.header == (Header { version: proposal.version, prev_hash: proposal.prev_hash, proposer: proposal.proposer, state_root: exec_resp.state_root, transactions_root: proposal.transactions_root,
            signed_txs_hash: proposal.signed_txs_hash, receipts_root: exec_resp.receipt_root, log_bloom: log_filter(exec_resp.tx_resp@), timestamp: proposal.timestamp, number: proposal.number,
            gas_used: u64_(exec_resp.gas_used as nat), gas_limit: proposal.gas_limit, extra_data: proposal.extra_data, base_fee_per_gas: proposal.base_fee_per_gas, proof: proposal.proof,
            call_system_script_count: proposal.call_system_script_count, chain_id: proposal.chain_id }),
//@end
//@fn protocol/src/types/block.rs :: impl Block/fn hash
//@ ret r
//@ spec
    ensures r == keccak(ser(flat(self.header.item()))),
//@end
}
/// the proposal rebuilt from the committed block is the one it was built from, and signs as it
fn rebuilt_from_the_block(p: Proposal, e: ExecResp) -> (r: bool) {
    let q = same(&p);
    let hash = p.hash();
    let b = Block::new(p, e);
    let back = Proposal::new_with_state_root(&b.header, q.prev_state_root, b.tx_hashes);
    assert(back == q);
    let h2 = back.hash();
    assert(h2 == hash);
    true
}
/// two headers with the same digest are the same header, in every field (the digest being collision free)
proof fn hash_covers_every_field(a: Header, b: Header)
    requires keccak(ser(flat(a.item()))) == keccak(ser(flat(b.item()))), forall|x: Seq<u8>, y: Seq<u8>| keccak(x) == keccak(y) ==> x == y,
    ensures a == b,
{
    Header::law(a); Header::law(b);
    assert(ser(flat(a.item())) == ser(flat(b.item())));
    assert(parse(ser(flat(a.item()))) == a.item());
    assert(parse(ser(flat(b.item()))) == b.item());
}
/// two proposals with the same digest agree in every field that consensus signs
proof fn proposal_hash_covers(a: Proposal, b: Proposal)
    requires keccak(ser(flat(a.item()))) == keccak(ser(flat(b.item()))), forall|x: Seq<u8>, y: Seq<u8>| keccak(x) == keccak(y) ==> x == y,
    ensures a.version == b.version, a.prev_hash == b.prev_hash, a.proposer == b.proposer, a.prev_state_root == b.prev_state_root, a.transactions_root == b.transactions_root, a.signed_txs_hash == b.signed_txs_hash,
        a.timestamp == b.timestamp, a.number == b.number, a.gas_limit == b.gas_limit, a.extra_data == b.extra_data, a.proof == b.proof, a.call_system_script_count == b.call_system_script_count, a.tx_hashes == b.tx_hashes,
{
    assert(ser(flat(a.item())) == ser(flat(b.item())));
    assert(parse(ser(flat(a.item()))) == a.item());
    assert(parse(ser(flat(b.item()))) == b.item());
    let x = a.item()->List_0; let y = b.item()->List_0;
    assert(x == y);
    H256::law(a.prev_hash); H256::law(b.prev_hash); H160::law(a.proposer); H160::law(b.proposer); H256::law(a.prev_state_root); H256::law(b.prev_state_root);
    H256::law(a.transactions_root); H256::law(b.transactions_root); H256::law(a.signed_txs_hash); H256::law(b.signed_txs_hash);
    assert(x[1] == y[1] && x[2] == y[2] && x[3] == y[3] && x[4] == y[4] && x[5] == y[5] && x[6] == y[6] && x[7] == y[7] && x[8] == y[8] && x[9] == y[9] && x[10] == y[10] && x[11] == y[11] && x[12] == y[12]);
    <u64 as Lawful>::law(a.timestamp); <u64 as Lawful>::law(b.timestamp); <u64 as Lawful>::law(a.number); <u64 as Lawful>::law(b.number); U64::law(a.gas_limit); U64::law(b.gas_limit);
    law_list::<ExtraData>(a.extra_data); law_list::<ExtraData>(b.extra_data); Proof::law(a.proof); Proof::law(b.proof); <u32 as Lawful>::law(a.call_system_script_count); <u32 as Lawful>::law(b.call_system_script_count);
    law_list::<H256>(a.tx_hashes); law_list::<H256>(b.tx_hashes);
}
}
}
fn main() {}
