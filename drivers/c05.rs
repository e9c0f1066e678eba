//@extern protocol=axon_protocol rlp overlord common_crypto=common_crypto
#[path = "common.rs"] mod axv;
#[path = "gen.rs"] mod gen;
#[path = "gen_tx.rs"] mod gen_tx;
use axv::*;
use protocol::types::*;
use protocol::codec::ProtocolCodec;
use protocol::traits::MessageCodec;
use rlp::{Decodable, Encodable};
fn rt<T: Decodable + Encodable + PartialEq + std::fmt::Debug + Send + Clone>(x: T) -> Result<(), String> {
    let b = rlp::encode(&x);
    let y: T = rlp::decode(&b).map_err(|e| format!("decode of {}: {}", hex(&b), e))?;
    ensure_eq!(y, x, "decoded value");
    let c = ProtocolCodec::encode(&x).map_err(|e| e.to_string())?;
    let z = <T as ProtocolCodec>::decode(&c).map_err(|e| format!("ProtocolCodec: {}", e))?;
    ensure_eq!(z, x, "ProtocolCodec round trip");
    // inside a list, as a batch carries it
    let l = vec![x.clone(), x.clone()];
    // a list is a header that covers all its items, and the items
    let e = rlp::encode_list::<T, T>(&l);
    let mut w = rlp::RlpStream::new_list(2); w.append_raw(&b, 1).append_raw(&b, 1);
    ensure_eq!(hex(&e), hex(&w.out()), "a list of two");
    let v: Vec<T> = rlp::Rlp::new(&rlp::encode_list::<T, T>(&l)).as_list().map_err(|e| format!("in a list: {}", e))?;
    ensure_eq!(v, l, "list");
    Ok(())
}
macro_rules! chk { ($h:expr, $name:expr, $n:expr, $g:expr) => { $h.check($name, $n, |r, d| { let x = $g(r); *d = format!("{:?}", x); rt(x) }); } }
fn main() {
    let mut h = H::new();
    chk!(h, "header", 1500, gen::header);
    chk!(h, "block", 1000, gen::block);
    chk!(h, "proof", 1500, gen::proof);
    chk!(h, "receipt", 2000, gen::receipt);
    chk!(h, "tx_resp", 2000, gen::tx_resp);
    chk!(h, "log", 1000, gen::log);
    chk!(h, "extra", 300, gen::extra);
    chk!(h, "metadata", 800, gen::metadata);
    chk!(h, "metadata_inner", 500, |r: &mut Rng| gen::metadata(r).into_part().0);
    chk!(h, "consensus_config", 1000, gen::consensus_config);
    chk!(h, "consensus_config_v0", 500, gen::consensus_config_v0);
    chk!(h, "validator", 800, gen::validator);
    chk!(h, "validator_extend", 800, gen::validator_extend);
    chk!(h, "propose_count", 500, gen::propose_count);
    chk!(h, "consensus_validator", 500, |r: &mut Rng| ConsensusValidator { pub_key: gen::blob(r), propose_weight: r.int() as u32, vote_weight: r.int() as u32 });
    chk!(h, "spec_metadata", 500, |r: &mut Rng| { let m = gen::metadata(r); SpecMetadata { version: m.version, epoch: m.epoch, verifier_list: gen::many(r, gen::validator), propose_counter: m.propose_counter, consensus_config: m.consensus_config } });
    chk!(h, "hex", 500, gen::hexv);
    chk!(h, "address", 300, |r: &mut Rng| Address(gen::h160(r)));
    chk!(h, "ckb_related_info", 300, |r: &mut Rng| CkbRelatedInfo { metadata_type_id: gen::h256(r), checkpoint_type_id: gen::h256(r), xudt_args: gen::h256(r), stake_smt_type_id: gen::h256(r), delegate_smt_type_id: gen::h256(r), reward_smt_type_id: gen::h256(r) });
    chk!(h, "hardfork_info", 500, |r: &mut Rng| HardforkInfo { inner: gen::many(r, gen::hardfork_inner) });
    chk!(h, "cell_dep", 500, gen::cell_dep);
    chk!(h, "script", 500, gen::script);
    chk!(h, "witness", 500, gen::witness);
    chk!(h, "signature_s", 300, |r: &mut Rng| SignatureS::new(gen::many(r, gen::witness)));
    chk!(h, "cell_dep_pk", 300, |r: &mut Rng| CellDepWithPubKey { cell_dep: gen::cell_dep(r), pub_key: gen::blob(r) });
    chk!(h, "cell_with_data", 300, |r: &mut Rng| CellWithData { type_script: gen::opt(r, gen::script), lock_script: gen::script(r), data: gen::blob(r) });
    chk!(h, "out_point", 300, |r: &mut Rng| OutPoint { tx_hash: gen::h256(r), index: r.int() as u32 });
    chk!(h, "executor_context", 300, |r: &mut Rng| ExecutorContext { block_number: gen::u256(r), block_coinbase: gen::h160(r), block_timestamp: gen::u256(r), chain_id: gen::u256(r), origin: gen::h160(r), gas_price: gen::u256(r), block_gas_limit: gen::u64_(r), block_base_fee_per_gas: gen::u64_(r), extra_data: gen::many(r, gen::extra) });
    h.check("proposal", 1500, |r, d| {
        let mut x = gen::proposal(r);
        // not on the wire: the chain's constants
        x.base_fee_per_gas = protocol::constants::BASE_FEE_PER_GAS.into();
        x.chain_id = **protocol::lazy::CHAIN_ID.load();
        *d = format!("{:?}", x);
        let b = overlord::Codec::encode(&x).map_err(|e| e.to_string())?;
        ensure_eq!(<Proposal as overlord::Codec>::decode(b).map_err(|e| e.to_string())?, x, "overlord codec");
        rt(x)
    });
    h.check("signed_tx", 400, |r, d| {
        let (x, _, _) = gen_tx::stx(r);
        *d = format!("{:?}", x);
        rt(x)
    });
    h.check("batches", 60, |r, d| {
        let n = r.below(6) as usize;
        let v: Vec<SignedTransaction> = (0..n).map(|_| gen_tx::stx(r).0).collect();
        *d = format!("{:?}", v);
        let mut b = BatchSignedTxs::new(v.clone());
        let e = b.encode_msg().map_err(|e| e.to_string())?;
        ensure_eq!(BatchSignedTxs::decode_msg(e).map_err(|e| e.to_string())?.inner(), v, "batch of transactions");
        let bl = gen::many(r, gen::block);
        *d = format!("{:?}", bl);
        let e = BatchBlocks::new(bl.clone()).encode_msg().map_err(|e| e.to_string())?;
        ensure_eq!(BatchBlocks::decode_msg(e).map_err(|e| e.to_string())?.inner(), bl, "batch of blocks");
        Ok(())
    });
    h.check("db_bytes", 300, |r, d| {
        let b = gen::blob(r);
        *d = hex(&b);
        let x = DBBytes(b);
        ensure_eq!(<DBBytes as ProtocolCodec>::decode(x.encode().map_err(|e| e.to_string())?).map_err(|e| e.to_string())?, x, "DBBytes");
        Ok(())
    });
    h.finish()
}
