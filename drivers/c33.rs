//@extern protocol=axon_protocol axon_tools rlp serde serde_json
// C33: what the node prints as JSON is read by the light-client library as the same value.
#[path = "common.rs"] mod axv;
#[path = "gen.rs"] mod gen;
#[path = "atconv.rs"] mod atconv;
use atconv::*;
use axon_tools::types as at;
use axv::*;
use protocol::types::*;
fn via<A: serde::Serialize, B: for<'a> serde::Deserialize<'a> + PartialEq + std::fmt::Debug>(a: &A, want: &B) -> Result<(), String> {
    let j = serde_json::to_string(a).map_err(|e| e.to_string())?;
    let b: B = serde_json::from_str(&j).map_err(|e| format!("the library cannot read {}: {}", j, e))?;
    ensure_eq!(b, *want, "read from {}", j);
    Ok(())
}
fn main() {
    let mut h = H::new();
    h.check("proof", 3000, |r, d| { let p = gen::proof(r); *d = format!("{:?}", p); via(&p, &proof(&p)) });
    h.check("header", 3000, |r, d| { let p = gen::header(r); *d = format!("{:?}", p); via(&p, &header(&p)) });
    h.check("block", 2000, |r, d| { let p = gen::block(r); *d = format!("{:?}", p); via(&p, &block(&p)) });
    h.check("validator", 2000, |r, d| { let v = gen::validator_extend(r); *d = format!("{:?}", v); via(&v, &validator(&v)) });
    h.check("metadata", 2000, |r, d| {
        let m = gen::metadata(r);
        *d = format!("{:?}", m);
        let c = &m.consensus_config;
        let config = at::ConsensusConfig { gas_limit: c.gas_limit, interval: c.interval, propose_ratio: c.propose_ratio, prevote_ratio: c.prevote_ratio, precommit_ratio: c.precommit_ratio, brake_ratio: c.brake_ratio, tx_num_limit: c.tx_num_limit, max_tx_size: c.max_tx_size };
        via(c, &config)?;
        via(&m.version, &at::MetadataVersion { start: m.version.start, end: m.version.end })?;
        for p in &m.propose_counter { via(p, &at::ProposeCount { address: p.address.0.into(), count: p.count })?; }
        // the counters are left out, as the library documents
        let want = at::Metadata { version: at::MetadataVersion { start: m.version.start, end: m.version.end }, epoch: m.epoch, verifier_list: m.verifier_list.iter().map(validator).collect(), propose_counter: vec![], consensus_config: config };
        let j = serde_json::to_string(&m).map_err(|e| e.to_string())?;
        let got: at::Metadata = serde_json::from_str(&j).map_err(|e| format!("the library cannot read {}: {}", j, e))?;
        ensure!(got == want, "read otherwise from {}", j);
        let v: serde_json::Value = serde_json::from_str(&j).map_err(|e| e.to_string())?;
        ensure_eq!(v["epoch"].as_str().map(str::to_string), Some(format!("0x{:x}", m.epoch)), "the number as printed");
        ensure_eq!(v["consensus_config"]["max_contract_limit"].as_str().map(str::to_string), Some(format!("0x{:x}", m.consensus_config.max_contract_limit)), "the contract limit as printed");
        let n = if r.bool() { m.version.start.wrapping_add(r.below(3)).wrapping_sub(1) } else { r.u64() };
        ensure_eq!(got.version.contains(n), m.version.start <= n && n <= m.version.end, "the window of {:?} and {}", m.version, n);
        Ok(())
    });
    h.check("proposal", 2000, |r, d| {
        let p = gen::proposal(r);
        *d = format!("{:?}", p);
        let j = serde_json::to_string(&p).map_err(|e| e.to_string())?;
        let q: at::Proposal = serde_json::from_str(&j).map_err(|e| format!("the library cannot read {}: {}", j, e))?;
        ensure!(rlp::encode(&q) == rlp::encode(&p), "another proposal read from {}", j);
        ensure!(H256(axon_tools::keccak_256(&rlp::encode(&q))) == p.hash(), "another digest");
        Ok(())
    });
    h.check("ckb_info", 500, |r, d| {
        let c = CkbRelatedInfo { metadata_type_id: gen::h256(r), checkpoint_type_id: gen::h256(r), xudt_args: gen::h256(r), stake_smt_type_id: gen::h256(r), delegate_smt_type_id: gen::h256(r), reward_smt_type_id: gen::h256(r) };
        *d = format!("{:?}", c);
        via(&c, &at::CkbRelatedInfo { metadata_type_id: c.metadata_type_id.0.into(), checkpoint_type_id: c.checkpoint_type_id.0.into(), xudt_args: c.xudt_args.0.into(), stake_smt_type_id: c.stake_smt_type_id.0.into(), delegate_smt_type_id: c.delegate_smt_type_id.0.into(), reward_smt_type_id: c.reward_smt_type_id.0.into() })
    });
    // texts near the accepted ones
    h.check("number_text", 8000, |r, d| {
        let mut s = String::new();
        s.push_str(match r.below(9) { 0 => "", 1 => "0X", 2 => "x", 3 => "0x0x", _ => "0x" });
        let n = match r.below(8) { 0 => 0, 1 => r.range(7, 9), 2 => r.range(15, 17), 3 => r.range(62, 67), 4 => 1, _ => r.below(12) };
        let zeros = if r.bool() { n.saturating_sub(r.below(18)) } else { 0 };
        for i in 0..n { s.push(if i < zeros { '0' } else { *r.pick(&['0', '1', '7', '9', 'a', 'c', 'f', 'b', 'e', 'F', 'A', '5']) }); }
        if r.one_in(5) { let mut v: Vec<char> = s.chars().collect(); let i = r.below(v.len() as u64 + 1) as usize; v.insert(i, *r.pick(&['g', '+', '-', ' ', '_', 'x', 'é', '\0'])); s = v.into_iter().collect(); }
        *d = format!("{:?}", s);
        let want: Option<u128> = s.strip_prefix("0x").filter(|t| t.bytes().all(|b| b.is_ascii_hexdigit()) && t.len() <= 64).and_then(|t| { let t = t.trim_start_matches('0'); if t.len() > 16 { None } else if t.is_empty() { Some(0) } else { u128::from_str_radix(t, 16).ok() } });
        let text = serde_json::to_string(&s).unwrap();
        let got = serde_json::from_str::<at::MetadataVersion>(&format!("{{\"start\":{},\"end\":\"0x7\"}}", text)).ok().map(|v| v.start as u128);
        ensure_eq!(got, want, "as a 64-bit number");
        let got = serde_json::from_str::<at::ValidatorExtend>(&format!("{{\"bls_pub_key\":\"0x\",\"pub_key\":\"0x\",\"address\":\"0x{}\",\"propose_weight\":{},\"vote_weight\":\"0x1\"}}", "0".repeat(40), text)).ok().map(|v| v.propose_weight as u128);
        ensure_eq!(got, want.filter(|x| *x <= u32::MAX as u128), "as a 32-bit number");
        Ok(())
    });
    h.check("hex_text", 4000, |r, d| {
        use std::str::FromStr;
        let b = r.blob(80);
        let x = at::Hex::encode(&b);
        *d = hex(&b);
        ensure_eq!(x.as_string(), format!("0x{}", hex(&b)), "as_string");
        ensure_eq!(x.as_string_trim0x(), hex(&b), "as_string_trim0x");
        ensure_eq!((x.len(), x.is_empty(), x.as_bytes().to_vec(), x.as_ref().to_vec(), Bytes::from(x.clone()).to_vec()), (b.len(), b.is_empty(), b.clone(), b.clone(), b.clone()), "parts");
        ensure_eq!(at::Hex::from(b.clone()), x, "from bytes");
        via(&Hex::encode(&b), &x)?;
        let mut s = match r.below(6) { 0 => hex(&b), 1 => format!("0X{}", hex(&b)), 2 => format!("0x0x{}", hex(&b)), _ => format!("0x{}", hex(&b)) };
        if r.one_in(3) { s = s.to_uppercase().replacen('X', "x", 1); }
        if r.one_in(3) { let mut v: Vec<char> = s.chars().collect(); let i = r.below(v.len() as u64 + 1) as usize; if r.bool() { v.insert(i, *r.pick(&['0', 'g', 'x', 'é', ' '])) } else if i < v.len() { v.remove(i); } s = v.into_iter().collect(); }
        *d = format!("{:?}", s);
        let ok = |t: &str| t.len() % 2 == 0 && t.bytes().all(|b| b.is_ascii_hexdigit());
        let spells = |t: &str| if ok(t) { Some((0..t.len() / 2).map(|i| u8::from_str_radix(&t[2 * i..2 * i + 2], 16).unwrap()).collect::<Vec<u8>>()) } else { None };
        ensure_eq!(at::Hex::from_str(&s).ok().map(|x| x.as_bytes().to_vec()), s.strip_prefix("0x").and_then(spells), "Hex::from_str");
        ensure_eq!(axon_tools::hex::hex_decode(&s).ok(), spells(s.strip_prefix("0x").unwrap_or(&s)), "hex_decode");
        ensure_eq!(axon_tools::hex::hex_encode(&b), hex(&b), "hex_encode");
        Ok(())
    });
    h.finish()
}
