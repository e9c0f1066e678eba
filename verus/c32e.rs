//@include head.rs
pub mod sh {
use super::*;
//@include num.rs
//@include bytes.rs
//@include rlp.rs
//@include types.rs
}
use sh::*;
// C32: the block an adapter reports is the one it was made for.
pub mod ec {
use super::*;
use super::sh::*;
broadcast use {num_axioms, bytes_axioms, rlp_axioms, vec_axioms};
/// what execution sees of a block
pub open spec fn sees(c: ExecutorContext, number: u64, proposer: H160, time: u64, chain: u64, limit: U64, base_fee: U64, extra: Seq<ExtraData>) -> bool {
    c.block_number@ == number && c.block_coinbase == proposer && c.block_timestamp@ == time && c.chain_id@ == chain && c.origin == proposer && c.gas_price@ == 1
        && c.block_gas_limit == limit && c.block_base_fee_per_gas == base_fee && c.extra_data@ == extra }
impl ExecutorContext {
//@fn protocol/src/types/executor.rs :: impl From<Proposal> for ExecutorContext/fn from
//@ alias from_proposal
//@ ret r
//@ sub /fn from\(/ => /fn from_proposal(/ 1
//@ sub /h\.(number|timestamp|chain_id)\.into\(\)/ => /U256::from(h.\1)/ 0
//@ sub /(\w+)\.extra_data\.clone\(\)/ => /same_(&\1.extra_data)/ 0
//@ spec
    ensures sees(r, h.number, h.proposer, h.timestamp, h.chain_id, h.gas_limit, h.base_fee_per_gas, h.extra_data@),
//@end
//@fn protocol/src/types/executor.rs :: impl From<&Header> for ExecutorContext/fn from
//@ alias from_header
//@ ret r
//@ sub /fn from\(/ => /fn from_header(/ 1
//@ sub /h\.(number|timestamp|chain_id)\.into\(\)/ => /U256::from(h.\1)/ 0
//@ sub /(\w+)\.extra_data\.clone\(\)/ => /same_(&\1.extra_data)/ 0
//@ spec
    ensures sees(r, h.number, h.proposer, h.timestamp, h.chain_id, h.gas_limit, h.base_fee_per_gas, h.extra_data@),
//@end
}
#[verifier::external_body] pub fn same_<T>(x: &Vec<T>) -> (r: Vec<T>) ensures r@ == x@ { unimplemented!() }
}
}
fn main() {}
