//@extern protocol=axon_protocol overlord common_crypto=common_crypto core_executor rlp rocksdb core_db
// C10: metadata records, validators and consensus configurations through every conversion the node makes.
#[path = "common.rs"] mod axv;
#[path = "gen.rs"] mod gen;
#[path = "gen_tx.rs"] mod gen_tx;
#[path = "store.rs"] mod store;
use axv::*;
use common_crypto::{ToPublicKey, PublicKey, UncompressedPublicKey};
use core_executor::system_contract::metadata::{encode_consensus_config, MetadataStore, HARDFORK_INFO};
use protocol::types::*;
use std::sync::Arc;
fn validator(r: &mut Rng) -> (Validator, H160) {
    let k = gen_tx::key(r);
    let (_, a) = gen_tx::account(&k);
    let p = k.pub_key();
    let raw = if r.bool() { p.to_bytes() } else { p.to_uncompressed_bytes() };
    (Validator { bls_pub_key: gen::hexv(r), pub_key: Hex::encode(raw), propose_weight: r.int() as u32, vote_weight: r.int() as u32 }, a)
}
fn extended(v: &Validator, a: H160, e: &ValidatorExtend) -> Result<(), String> {
    ensure_eq!(e.bls_pub_key, v.bls_pub_key, "bls key");
    ensure_eq!(e.pub_key, v.pub_key, "key");
    ensure_eq!(e.address, a, "address");
    ensure_eq!(e.propose_weight, v.propose_weight, "propose weight");
    ensure_eq!(e.vote_weight, v.vote_weight, "vote weight");
    Ok(())
}
/// what the old form of a configuration keeps
fn aged(c: &ConsensusConfig) -> ConsensusConfig { let mut a = c.clone(); a.max_contract_limit = 0x6000; a }
fn main() {
    let mut h = H::new();
    store::open("c10");
    h.check("window", 20000, |r, d| {
        let s = r.int();
        let e = match r.below(4) { 0 => s, 1 => s.saturating_add(r.below(4)), 2 => s.saturating_sub(1), _ => r.int() };
        let n = match r.below(7) { 0 => s, 1 => e, 2 => s.wrapping_sub(1), 3 => e.wrapping_add(1), 4 => s.wrapping_add(1), 5 => e.wrapping_sub(1), _ => r.int() };
        d.push_str(&format!("[{}, {}] {}", s, e, n));
        let v = MetadataVersion::new(s, e);
        ensure_eq!((v.start, v.end), (s, e), "bounds");
        ensure_eq!(v.contains(n), s <= n && n <= e, "contains");
        Ok(())
    });
    h.check("split and join", 2000, |r, d| {
        let m = gen::metadata(r);
        d.push_str(&format!("{:?}", m));
        let (inner, config) = m.clone().into_part();
        ensure_eq!(inner.version, m.version, "version");
        ensure_eq!(inner.epoch, m.epoch, "epoch");
        ensure_eq!(inner.verifier_list, m.verifier_list, "validators");
        ensure_eq!(inner.propose_counter, m.propose_counter, "counters");
        ensure_eq!(config, m.consensus_config, "configuration");
        ensure_eq!(Metadata::from_parts(inner.clone(), config.clone()), m, "joined again");
        let c2 = gen::consensus_config(r);
        let j = Metadata::from_parts(inner.clone(), c2.clone());
        ensure_eq!(j.into_part(), (inner, c2), "parts of a joined record");
        let dc: overlord::DurationConfig = m.clone().into();
        ensure_eq!((dc.propose_ratio, dc.prevote_ratio, dc.precommit_ratio, dc.brake_ratio), (config.propose_ratio, config.prevote_ratio, config.precommit_ratio, config.brake_ratio), "durations");
        Ok(())
    });
    h.check("configuration forms", 4000, |r, d| {
        let c = gen::consensus_config(r);
        d.push_str(&format!("{:?}", c));
        let old: ConsensusConfigV0 = c.clone().into();
        ensure_eq!((old.gas_limit, old.interval, old.propose_ratio, old.prevote_ratio), (c.gas_limit, c.interval, c.propose_ratio, c.prevote_ratio), "old form");
        ensure_eq!((old.precommit_ratio, old.brake_ratio, old.tx_num_limit, old.max_tx_size), (c.precommit_ratio, c.brake_ratio, c.tx_num_limit, c.max_tx_size), "old form");
        let back: ConsensusConfig = old.clone().into();
        ensure_eq!(back, aged(&c), "back to the current form");
        ensure_eq!(ConsensusConfigV0::from(back), old, "old form again");
        Ok(())
    });
    h.check("validators", 400, |r, d| {
        let n = gen::count(r);
        let vs: Vec<(Validator, H160)> = (0..n).map(|_| validator(r)).collect();
        d.push_str(&format!("{:?}", vs));
        for (v, a) in &vs {
            let e: ValidatorExtend = v.clone().into();
            extended(v, *a, &e)?;
            let c = ConsensusValidator::from(&e);
            ensure_eq!(c.pub_key, v.pub_key.as_bytes(), "consensus key");
            ensure_eq!((c.propose_weight, c.vote_weight), (v.propose_weight, v.vote_weight), "consensus weights");
        }
        let m = gen::metadata(r);
        let s = SpecMetadata { version: m.version, epoch: m.epoch, verifier_list: vs.iter().map(|x| x.0.clone()).collect(), propose_counter: m.propose_counter.clone(), consensus_config: m.consensus_config.clone() };
        let g: Metadata = s.into();
        ensure_eq!((g.version, g.epoch), (m.version, m.epoch), "version and epoch of a configured record");
        ensure_eq!(g.propose_counter, m.propose_counter, "counters of a configured record");
        ensure_eq!(g.consensus_config, m.consensus_config, "configuration of a configured record");
        ensure_eq!(g.verifier_list.len(), vs.len(), "number of validators");
        for (e, (v, a)) in g.verifier_list.iter().zip(&vs) { extended(v, *a, e)?; }
        Ok(())
    });
    h.check("stored configuration", 1000, |r, d| {
        let c = gen::consensus_config(r);
        let mut f = gen::h256(r); if r.bool() { f.0[24] |= 1 } else { f.0[24] &= !1 }
        let new = f.0[24] & 1 == 1;
        d.push_str(&format!("{} {:?}", hex(&f.0), c));
        let b = encode_consensus_config(f, c.clone()).map_err(|e| e.to_string())?;
        let body = if new { rlp::encode(&c) } else { rlp::encode(&ConsensusConfigV0::from(c.clone())) };
        let mut want = vec![0u8, new as u8]; want.extend_from_slice(&body);
        ensure_eq!(hex(&b), hex(&want), "stored bytes");
        HARDFORK_INFO.swap(Arc::new(f));
        let mut s = MetadataStore::new(H256::zero()).map_err(|e| e.to_string())?;
        s.update_consensus_config(c.clone()).map_err(|e| e.to_string())?;
        // the form is recorded with the value: what is read does not depend on the flags now in force
        HARDFORK_INFO.swap(Arc::new(gen::h256(r)));
        let got = s.get_consensus_config().map_err(|e| e.to_string())?;
        ensure_eq!(got, if new { c } else { aged(&c) }, "configuration read back");
        Ok(())
    });
    h.finish();
}
