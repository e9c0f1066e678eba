// Generators of arbitrary protocol values (included by drivers; every field independent, boundary values favoured).
use crate::axv::Rng;
use protocol::types::executor::ExitFatal;
use protocol::types::*;

pub fn h256(r: &mut Rng) -> H256 { H256::from_slice(&r.bytes(32)) }
pub fn h160(r: &mut Rng) -> H160 { H160::from_slice(&r.bytes(20)) }
pub fn u256(r: &mut Rng) -> U256 {
    match r.below(6) { 0 => U256::zero(), 1 => U256::MAX, 2 => U256::one() << r.below(256) as usize, 3 => U256::from(r.int()), _ => { let n = r.range(1, 32) as usize; U256::from_big_endian(&r.bytes(n)) } }
}
pub fn u64_(r: &mut Rng) -> U64 { U64::from(r.int()) }
pub fn blob(r: &mut Rng) -> Bytes { if let Some(k) = r.long(3) { return Bytes::from(r.bytes([300, 1025, 4097, 66_000, 300_000][k as usize % 5])); } Bytes::from(r.blob(400)) }
pub fn count(r: &mut Rng) -> usize { match r.below(5) { 0 => 0, 1 => 1, 2 => 2, 3 => 3, _ => r.below(8) as usize } }
pub fn many<T>(r: &mut Rng, f: fn(&mut Rng) -> T) -> Vec<T> { let n = if let Some(k) = r.long(2) { [257, 300, 1025, 1040, 2100][k as usize % 5] } else if r.one_in(12) { r.below(70) as usize } else { count(r) }; (0..n).map(|_| f(r)).collect() }
pub fn opt<T>(r: &mut Rng, f: fn(&mut Rng) -> T) -> Option<T> { if r.bool() { Some(f(r)) } else { None } }
pub fn bloom(r: &mut Rng) -> Bloom { Bloom::from_slice(&r.bytes(256)) }
pub fn log(r: &mut Rng) -> Log { Log { address: h160(r), topics: many(r, h256), data: blob(r).to_vec() } }
pub fn extra(r: &mut Rng) -> ExtraData { ExtraData { inner: blob(r) } }
pub fn exit_reason(r: &mut Rng) -> ExitReason {
    match r.below(12) {
        0 => ExitReason::Succeed(ExitSucceed::Stopped),
        1 => ExitReason::Succeed(ExitSucceed::Returned),
        2 => ExitReason::Succeed(ExitSucceed::Suicided),
        3 => ExitReason::Revert(ExitRevert::Reverted),
        4 => ExitReason::Error(ExitError::OutOfGas),
        5 => ExitReason::Error(ExitError::Other("some text".into())),
        6 => ExitReason::Error(ExitError::CreateContractLimit),
        7 => ExitReason::Fatal(ExitFatal::NotSupported),
        8 => ExitReason::Fatal(ExitFatal::CallErrorAsFatal(ExitError::StackOverflow)),
        9 => ExitReason::Fatal(ExitFatal::Other("".into())),
        10 => ExitReason::Error(ExitError::OutOfOffset),
        _ => ExitReason::Error(ExitError::InvalidJump),
    }
}
pub fn receipt(r: &mut Rng) -> Receipt {
    Receipt { tx_hash: h256(r), block_number: r.int(), block_hash: h256(r), tx_index: r.int() as u32, state_root: h256(r), used_gas: u64_(r), logs_bloom: bloom(r), logs: many(r, log),
        log_index: r.int() as u32, code_address: opt(r, h256), sender: h160(r), ret: exit_reason(r), removed: r.bool() }
}
pub fn tx_resp(r: &mut Rng) -> TxResp {
    TxResp { exit_reason: exit_reason(r), ret: r.blob(300), gas_used: r.int(), remain_gas: r.int(), fee_cost: u256(r), logs: many(r, log), code_address: opt(r, h256), removed: r.bool() }
}
pub fn proof(r: &mut Rng) -> Proof { Proof { number: r.int(), round: r.int(), block_hash: h256(r), signature: blob(r), bitmap: blob(r) } }
pub fn header(r: &mut Rng) -> Header {
    Header { version: BlockVersion::V0, prev_hash: h256(r), proposer: h160(r), state_root: h256(r), transactions_root: h256(r), signed_txs_hash: h256(r), receipts_root: h256(r), log_bloom: bloom(r),
        timestamp: r.int(), number: r.int(), gas_used: u64_(r), gas_limit: u64_(r), extra_data: many(r, extra), base_fee_per_gas: u64_(r), proof: proof(r), call_system_script_count: r.int() as u32, chain_id: r.int() }
}
pub fn block(r: &mut Rng) -> Block { Block { header: header(r), tx_hashes: many(r, h256) } }
/// base fee and chain id are not on the wire: they are the chain's constants
pub fn proposal(r: &mut Rng) -> Proposal {
    Proposal { version: BlockVersion::V0, prev_hash: h256(r), proposer: h160(r), prev_state_root: h256(r), transactions_root: h256(r), signed_txs_hash: h256(r), timestamp: r.int(), number: r.int(), gas_limit: u64_(r),
        extra_data: many(r, extra), base_fee_per_gas: u64_(r), proof: proof(r), chain_id: r.int(), call_system_script_count: r.int() as u32, tx_hashes: many(r, h256) }
}
pub fn action(r: &mut Rng) -> TransactionAction { if r.bool() { TransactionAction::Call(h160(r)) } else { TransactionAction::Create } }
pub fn access_item(r: &mut Rng) -> AccessListItem { AccessListItem { address: h160(r), storage_keys: many(r, h256) } }
pub fn unsigned(r: &mut Rng) -> UnsignedTransaction {
    match r.below(3) {
        0 => UnsignedTransaction::Legacy(LegacyTransaction { nonce: u64_(r), gas_price: u64_(r), gas_limit: u64_(r), action: action(r), value: u256(r), data: blob(r) }),
        1 => UnsignedTransaction::Eip2930(Eip2930Transaction { nonce: u64_(r), gas_price: u64_(r), gas_limit: u64_(r), action: action(r), value: u256(r), data: blob(r), access_list: many(r, access_item) }),
        _ => UnsignedTransaction::Eip1559(Eip1559Transaction { nonce: u64_(r), max_priority_fee_per_gas: u64_(r), gas_price: u64_(r), gas_limit: u64_(r), action: action(r), value: u256(r), data: blob(r), access_list: many(r, access_item) }),
    }
}
pub const MAX_CHAIN_ID: u64 = (u64::MAX - 36) / 2;
pub fn chain_id(r: &mut Rng) -> u64 { match r.below(8) { 0 => MAX_CHAIN_ID, _ => r.int().min(MAX_CHAIN_ID) } }
pub fn eth_sig(r: &mut Rng) -> SignatureComponents { SignatureComponents { r: Bytes::from(r.bytes(32)), s: Bytes::from(r.bytes(32)), standard_v: r.below(2) as u8 } }
/// an interoperation signature is longer than an Ethereum one
pub fn interop_sig(r: &mut Rng) -> SignatureComponents {
    let n = r.range(1, 200) as usize; let m = if n >= 65 { r.below(200) } else { r.range(65 - n as u64, 300) } as usize;
    SignatureComponents { r: Bytes::from(r.bytes(n)), s: Bytes::from(r.bytes(m)), standard_v: r.below(2) as u8 }
}
pub fn signature(r: &mut Rng) -> SignatureComponents { if r.one_in(4) { interop_sig(r) } else { eth_sig(r) } }
/// hash not set
pub fn utx(r: &mut Rng) -> UnverifiedTransaction {
    let unsigned = unsigned(r);
    let chain_id = if unsigned.is_legacy() { opt(r, chain_id) } else { Some(r.int()) };
    UnverifiedTransaction { unsigned, signature: Some(signature(r)), chain_id, hash: H256::zero() }
}
pub fn cell_dep(r: &mut Rng) -> CellDep { CellDep { tx_hash: h256(r), index: r.int() as u32, dep_type: r.u8() } }
pub fn hexv(r: &mut Rng) -> Hex { Hex::encode(r.blob(100)) }
pub fn validator(r: &mut Rng) -> Validator { Validator { bls_pub_key: hexv(r), pub_key: hexv(r), propose_weight: r.int() as u32, vote_weight: r.int() as u32 } }
pub fn validator_extend(r: &mut Rng) -> ValidatorExtend { ValidatorExtend { bls_pub_key: hexv(r), pub_key: hexv(r), address: h160(r), propose_weight: r.int() as u32, vote_weight: r.int() as u32 } }
pub fn propose_count(r: &mut Rng) -> ProposeCount { ProposeCount { address: h160(r), count: r.int() } }
pub fn consensus_config(r: &mut Rng) -> ConsensusConfig {
    ConsensusConfig { gas_limit: r.int(), interval: r.int(), propose_ratio: r.int(), prevote_ratio: r.int(), precommit_ratio: r.int(), brake_ratio: r.int(), tx_num_limit: r.int(), max_tx_size: r.int(), max_contract_limit: r.int() }
}
pub fn consensus_config_v0(r: &mut Rng) -> ConsensusConfigV0 {
    ConsensusConfigV0 { gas_limit: r.int(), interval: r.int(), propose_ratio: r.int(), prevote_ratio: r.int(), precommit_ratio: r.int(), brake_ratio: r.int(), tx_num_limit: r.int(), max_tx_size: r.int() }
}
pub fn metadata(r: &mut Rng) -> Metadata {
    Metadata { version: MetadataVersion { start: r.int(), end: r.int() }, epoch: r.int(), verifier_list: many(r, validator_extend), propose_counter: many(r, propose_count), consensus_config: consensus_config(r) }
}
pub fn hardfork_inner(r: &mut Rng) -> HardforkInfoInner { HardforkInfoInner { block_number: r.int(), flags: h256(r) } }
pub fn script(r: &mut Rng) -> Script { Script { code_hash: h256(r), args: blob(r), hash_type: r.u8() } }
pub fn witness(r: &mut Rng) -> Witness { Witness { lock: opt(r, blob), input_type: opt(r, blob), output_type: opt(r, blob) } }
