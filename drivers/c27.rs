//@extern protocol=axon_protocol core_executor core_consensus core_storage core_db core_mempool core_interoperation common_crypto common_config_parser common_apm common_apm_derive either jsonrpsee jsonrpsee_types ckb_jsonrpc_types ckb_traits ckb_types hasher log parking_lot rlp serde serde_json strum rocksdb overlord
//@snippet rpc.rs core/api/src/jsonrpc/mod.rs :: @trait Web3Rpc ; @trait Web3Filter ; @trait AxonNodeRpc ; @trait AxonRpc ; @trait CkbLightClientRpc
//@snippet api.rs core/api/src/lib.rs :: @enum APIError ; impl Error for APIError ; impl From<APIError> for ProtocolError
// C27: the JSON-RPC methods over a chain, a state and a pool that the case makes up (and over the real adapter and
// storage), against answers computed from that data and written as JSON by hand.
#[path = "common.rs"] mod axv;
#[path = "gen.rs"] mod gen;
#[path = "gen_tx.rs"] mod gen_tx;
#[path = "store.rs"] mod store;
#[path = "chain.rs"] mod chain;
#[path = "/repo/core/api/src/adapter.rs"] #[allow(dead_code)] mod adapter;
#[allow(dead_code, unused_imports)]
mod jsonrpc {
    #[path = "/repo/core/api/src/jsonrpc/error.rs"] pub mod error;
    #[path = "/repo/core/api/src/jsonrpc/impl/mod.rs"] pub mod r#impl;
    #[path = "/repo/core/api/src/jsonrpc/web3_types.rs"] pub mod web3_types;
    pub mod hub {
        include!("/repo/core/api/src/jsonrpc/impl/filter.rs");
        /// all filters were last used `secs` seconds earlier than they were
        pub fn age<A>(h: &mut FilterHub<A>, secs: u64) {
            for (_, t) in h.blocks_hub.values_mut() { *t = t.checked_sub(Duration::from_secs(secs)).unwrap(); }
            for (_, t) in h.logs_hub.values_mut() { *t = t.checked_sub(Duration::from_secs(secs)).unwrap(); }
        }
        pub fn sweep<A: APIAdapter + 'static>(h: &mut FilterHub<A>) { h.check_hubs() }
        pub async fn ask<A: APIAdapter + 'static>(h: &mut FilterHub<A>, c: Command) { h.handle(c).await }
    }
    use ckb_jsonrpc_types::{CellInfo, HeaderView as CkbHeaderView, OutPoint};
    use common_config_parser::types::spec::HardforkName;
    use jsonrpsee::{core::RpcResult, proc_macros::rpc};
    use protocol::traits::APIAdapter;
    use protocol::types::{Block, CkbRelatedInfo, EthAccountProof, Hash, Hex, Metadata, Proof, Proposal, H160, H256, U256};
    use protocol::ProtocolResult;
    use std::{collections::HashMap, sync::Arc};
    use crate::jsonrpc::web3_types::*;
    include!(concat!(env!("AXV_GEN"), "/rpc.rs"));
}
mod api {
    use protocol::{Display, ProtocolError, ProtocolErrorKind};
    use std::error::Error;
    include!(concat!(env!("AXV_GEN"), "/api.rs"));
}
pub use api::APIError;

use axv::*;
use jsonrpc::r#impl::{filter_module, AxonRpcImpl, Web3RpcImpl};
use jsonrpc::web3_types::*;
use jsonrpc::{AxonRpcServer as _, Web3FilterServer as _, Web3RpcServer as _};
use protocol::codec::ProtocolCodec as _;
use protocol::traits::*;
use protocol::types::*;
use protocol::{async_trait, tokio, ProtocolError, ProtocolResult};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::sync::{Arc, RwLock};

include!("webchain.rs");

fn main() {
    let mut h = H::new();
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
    let api = |m: &Data, cap: u64, range: u64| { let f = Arc::new(Fake(RwLock::new(m.clone()))); (Web3RpcImpl::new(Arc::clone(&f), cap, range), f) };

    h.check("blocks", 500, |r, desc| {
        let m = data(r, 6);
        let (a, _) = api(&m, 1, 1);
        let (v, n) = block_id(r, &m);
        let rich = r.bool();
        *desc = format!("block {} of {}, rich {}", v, m.blocks.len(), rich);
        rt.block_on(async {
            let unknown = v.get("blockHash").is_some() && n.is_err();
            if unknown {
                ensure_eq!(err_code(a.get_block_by_number(id(&v), rich).await, "block by an unknown hash")?, -40019, "error");
                ensure_eq!(err_code(a.get_block_transaction_count_by_number(id(&v)).await, "count by an unknown hash")?, -40019, "error");
                ensure_eq!(err_code(a.get_transaction_by_block_number_and_index(id(&v), U256::zero()).await, "transaction by an unknown hash")?, -40019, "error");
            } else {
                let want = n.map(|n| block_json(&m.blocks[n as usize], &m, rich)).unwrap_or(Value::Null);
                same(&out(&ok(a.get_block_by_number(id(&v), rich).await, "eth_getBlockByNumber")?), &want, "block")?;
                let count = n.map(|n| m.blocks[n as usize].tx_hashes.len()).unwrap_or(0);
                ensure_eq!(ok(a.get_block_transaction_count_by_number(id(&v)).await, "count")?, U256::from(count), "count");
                let i = match r.below(4) { 0 => gen::u256(r), 1 => U256::from(count), _ => U256::from(r.below(count as u64 + 1)) };
                let x = a.get_transaction_by_block_number_and_index(id(&v), i).await;
                at(&m, n, i, x)?;
            }
            let hash = match n { Ok(n) => m.blocks[n as usize].hash(), _ => gen::h256(r) };
            let want = n.map(|n| block_json(&m.blocks[n as usize], &m, rich)).unwrap_or(Value::Null);
            same(&out(&ok(a.get_block_by_hash(hash, rich).await, "eth_getBlockByHash")?), &want, "block")?;
            let count = n.map(|n| m.blocks[n as usize].tx_hashes.len()).unwrap_or(0);
            ensure_eq!(ok(a.get_block_transaction_count_by_hash(hash).await, "count")?, U256::from(count), "count by hash");
            let i = match r.below(4) { 0 => gen::u256(r), 1 => U256::from(count), _ => U256::from(r.below(count as u64 + 1)) };
            let x = a.get_transaction_by_block_hash_and_index(hash, i).await;
            at(&m, n, i, x)?;
            ensure_eq!(ok(a.block_number().await, "eth_blockNumber")?, U256::from(m.last()), "newest block");
            ensure_eq!(out(&ok(a.get_uncle_by_block_hash_and_index(hash, i).await, "uncle")?), Value::Null, "uncle");
            ensure_eq!(ok(a.get_uncle_count_by_block_hash(hash).await, "uncles")?, U256::zero(), "uncles");
            Ok(())
        })
    });
    fn at(m: &Data, n: Result<u64, ()>, i: U256, x: Result<Option<Web3Transaction>, jsonrpsee_types::ErrorObjectOwned>) -> Result<(), String> {
        if i > U256::from(u64::MAX) { ensure_eq!(err_code(x, "position beyond any block")?, -40018, "error"); return Ok(()); }
        let t = n.ok().and_then(|n| m.blocks[n as usize].tx_hashes.get(i.as_u64() as usize).map(|h| (n, *h)));
        let want = t.map(|(n, h)| tx_json(&m.txs[&h], Some((n, m.blocks[n as usize].hash(), i.as_u64())))).unwrap_or(Value::Null);
        same(&out(&ok(x, "transaction of a block")?), &want, "transaction")
    }

    h.check("transactions", 500, |r, desc| {
        let m = data(r, 5);
        let (a, _) = api(&m, 1, 1);
        let all: Vec<H256> = m.txs.keys().chain(m.pool.keys()).cloned().collect();
        let hash = if all.is_empty() || r.one_in(6) { gen::h256(r) } else { let mut v = all; v.sort(); *r.pick(&v) };
        *desc = format!("{:x}", hash);
        rt.block_on(async {
            let at = m.receipts.get(&hash).map(|x| (x.block_number, x.block_hash, x.tx_index as u64));
            let want = m.tx(&hash).map(|t| tx_json(&t, at)).unwrap_or(Value::Null);
            same(&out(&ok(a.get_transaction_by_hash(hash).await, "eth_getTransactionByHash")?), &want, "transaction")?;
            let want = m.receipts.get(&hash).map(|x| receipt_json(x, &m.txs[&hash])).unwrap_or(Value::Null);
            same(&out(&ok(a.get_transaction_receipt(hash).await, "eth_getTransactionReceipt")?), &want, "receipt")
        })
    });
    h.once("cumulative_gas_used", "the cumulative gas of a receipt is that of the block up to it", || {
        let mut r = Rng::new(3);
        let m = loop { let m = data(&mut r, 6); if m.blocks.iter().any(|b| b.tx_hashes.len() > 1) { break m; } };
        let (a, _) = api(&m, 1, 1);
        let b = m.blocks.iter().find(|b| b.tx_hashes.len() > 1).unwrap();
        let sum = U256::from(m.receipts[&b.tx_hashes[0]].used_gas.as_u64()) + U256::from(m.receipts[&b.tx_hashes[1]].used_gas.as_u64());
        let x = rt.block_on(a.get_transaction_receipt(b.tx_hashes[1])).map_err(|e| e.to_string())?.unwrap();
        ensure_eq!(out(&x)["cumulativeGasUsed"], json!(q(sum)), "cumulative gas of the second transaction");
        Ok(())
    });

    h.check("state", 700, |r, desc| {
        let mut m = data(r, 6);
        let system = r.one_in(8);
        let who = if system { let mut a = [0xff; 20]; a[19] = r.u8(); H160(a) } else { small_address(r) };
        if r.bool() { let c = U256::from(r.below(5)); m.pending.insert(who, (c, if r.bool() { Some(r.below(m.last() + 1)) } else { None })); }
        let (a, _) = api(&m, 1, 1);
        let (b, n, s) = opt_id(r, &m);
        *desc = format!("{:x} at {}", who, s);
        rt.block_on(async {
            let unknown = matches!(b, Some(BlockId::Hash(_))) && n.is_err();
            let acc = n.map(|n| m.accounts[n as usize].get(&who).cloned());
            let x = a.get_balance(who, b.clone()).await;
            if unknown { ensure_eq!(err_code(x, "balance at an unknown block")?, -40019, "error"); }
            else { ensure_eq!(ok(x, "eth_getBalance")?, acc.clone().ok().flatten().map(|a| a.balance).unwrap_or_default(), "balance"); }
            let x = a.get_transaction_count(who, b.clone()).await;
            if unknown { ensure_eq!(err_code(x, "nonce at an unknown block")?, -40019, "error"); }
            else if let Some(BlockId::Pending) = b {
                let (c, at) = m.pending.get(&who).cloned().unwrap_or_default();
                let n = m.accounts[at.unwrap_or(m.last()) as usize].get(&who).map(|a| a.nonce).unwrap_or_default();
                ensure_eq!(ok(x, "eth_getTransactionCount")?, n + c, "pending nonce");
            } else { ensure_eq!(ok(x, "eth_getTransactionCount")?, acc.clone().ok().flatten().map(|a| a.nonce).unwrap_or_default(), "nonce"); }
            let x = a.get_code(who, b.clone()).await;
            match &acc {
                Err(_) => { err_code(x, "code at an unknown block")?; }
                Ok(acc) => { let c = acc.as_ref().and_then(|a| m.codes.get(&a.code_hash)).map(|c| d(c)).unwrap_or("0x".into()); ensure_eq!(out(&ok(x, "eth_getCode")?), json!(c), "code"); }
            }
            let pos = U256::from(r.below(4));
            let x = a.get_storage_at(who, pos, b.clone()).await;
            let p = a.get_proof(who, vec![pos, U256::MAX], b.clone().unwrap_or_default()).await;
            if system { ensure_eq!((err_code(x, "slot of a system contract")?, err_code(p, "proof of a system contract")?), (-40023, -40023), "error"); }
            else if n.is_err() { ensure_eq!((err_code(x, "slot at an unknown block")?, err_code(p, "proof at an unknown block")?), (-40019, -40019), "error"); }
            else {
                let n = n.unwrap() as usize;
                let w = if m.accounts[n].contains_key(&who) { m.slots[n].get(&(who, pos)).cloned().unwrap_or_default() } else { H256::zero() };
                ensure_eq!(out(&ok(x, "eth_getStorageAt")?), json!(da(w)), "slot");
                let root = m.blocks[n].header.state_root;
                same(&out(&ok(p, "eth_getProof")?), &json!({"address": da(who), "balance": q(n as u64), "codeHash": da(root), "nonce": "0x0", "storageHash": da(root), "accountProof": [], "storageProof": [{"key": q(pos), "value": q(pos), "proof": []}, {"key": q(U256::MAX), "value": q(U256::MAX), "proof": []}]}), "proof")?;
            }
            Ok(())
        })
    });

    h.check("calls", 800, |r, desc| {
        let mut m = data(r, 5);
        m.resp = if r.one_in(10) { None } else { Some(TxResp { ret: if r.one_in(3) { let n = r.range(60, 200) as usize; r.bytes(n) } else { r.blob(100) }, ..gen::tx_resp(r) }) };
        let (a, f) = api(&m, r.int(), 1);
        let (b, n, s) = opt_id(r, &m);
        let mut j = serde_json::Map::new();
        let from = gen::opt(r, gen::h160);
        let to = match r.below(5) { 0 => None, 1 if r.one_in(4) => { let mut a = [0xff; 20]; a[19] = r.u8(); Some(H160(a)) } _ => Some(gen::h160(r)) };
        let gas = match r.below(6) { 0 => Some(30_000_000), 1 => Some(30_000_001), 2 => Some(r.int()), 3 => Some(r.range(20_998, 21_002)), 4 => Some(r.range(21_000, 30_000_000)), _ => None };
        let price = match r.below(5) { 0 => Some(500_000_000_000), 1 => Some(500_000_000_001), 2 => Some(r.below(500_000_000_000)), _ => None };
        let value = gen::opt(r, gen::u256);
        let input = gen::opt(r, |r| r.blob(50));
        let fee = gen::opt(r, |r| r.int());
        let chain = gen::opt(r, |r| r.int());
        for (k, v) in [("from", from.map(da)), ("to", to.map(da)), ("gas", gas.map(q)), ("gasPrice", price.map(q)), ("value", value.map(q)), ("data", input.as_ref().map(|b| d(b))), ("maxFeePerGas", fee.map(q)), ("chainId", chain.map(q))] {
            if let Some(v) = v { j.insert(k.into(), json!(v)); }
        }
        *desc = format!("{} at {}", Value::Object(j.clone()), s);
        let req: Web3CallRequest = serde_json::from_value(Value::Object(j)).map_err(|e| e.to_string())?;
        let estimate = r.bool();
        rt.block_on(async {
            let x = if estimate { a.estimate_gas(req, b.clone()).await.map(|g| json!(q(g))) } else { a.call(req, b.clone()).await.map(|x| out(&x)) };
            let calls = f.0.read().unwrap().calls.clone();
            let refused = if estimate && gas.map_or(false, |g| g < 21_000) { Some(-40008) } else if gas.map_or(false, |g| g > 30_000_000) { Some(-40009) } else if price.map_or(false, |p| p > 500_000_000_000) { Some(-40007) }
                else if to.map_or(false, |t| t.0[..19] == [0xff; 19]) { Some(-40023) } else if matches!(b, Some(BlockId::Hash(_))) && n.is_err() { Some(-40019) } else if from.is_none() && to.is_none() || n.is_err() { Some(INTERNAL) } else { None };
            if let Some(c) = refused { ensure_eq!(err_code(x, "a refused call")?, c, "error"); ensure!(calls.is_empty(), "a refused call was run"); return Ok(()); }
            ensure_eq!(calls.len(), 1, "runs");
            let hd = &m.blocks[n.unwrap() as usize].header;
            let (cf, ct, cp, cg, cv, cd, ce, root, p) = calls[0].clone();
            ensure_eq!((cf, ct, cp, cg, cv, ce, root), (from, to, price.map(U64::from), gas.map(U64::from), value.unwrap_or_default(), estimate, hd.state_root), "what was run");
            ensure_eq!(hex(&cd), hex(&input.unwrap_or_default()), "input");
            ensure_eq!((p.number, p.timestamp, p.proposer, p.prev_hash), (hd.number, hd.timestamp, hd.proposer, hd.prev_hash), "block of the run");
            ensure_eq!((p.gas_limit, p.base_fee_per_gas, p.chain_id), (gas.map(U64::from).unwrap_or(hd.gas_limit), fee.map(U64::from).unwrap_or(hd.base_fee_per_gas), chain.unwrap_or(hd.chain_id)), "limit, base fee and chain of the run");
            match &m.resp {
                None => ensure_eq!(err_code(x, "a failed run")?, INTERNAL, "error"),
                Some(t) if matches!(t.exit_reason, ExitReason::Succeed(_)) => ensure_eq!(x.map_err(|e| e.to_string())?, if estimate { json!(q(t.gas_used)) } else { json!(d(&t.ret)) }, "answer"),
                Some(t) => {
                    let e = match x { Ok(v) => return Err(format!("a call that failed answered {}", v)), Err(e) => e };
                    ensure_eq!(e.code(), -49998, "error");
                    let got: Value = serde_json::from_str(e.data().map(|d| d.get()).unwrap_or("null")).unwrap();
                    let want = match &t.exit_reason { ExitReason::Revert(_) => d(&t.ret), ExitReason::Error(e) => format!("{:?}", e), ExitReason::Fatal(e) => format!("{:?}", e), _ => unreachable!() };
                    ensure_eq!(got, json!(want), "reason");
                }
            }
            Ok(())
        })
    });
    h.check("reverts", 300, |r, desc| {
        // a Solidity revert reason and near misses of one: the answer is an error that carries the bytes
        let mut m = data(r, 2);
        let n = r.range(60, 140) as usize;
        let mut ret = r.bytes(n);
        if ret.len() >= 68 { let l = match r.below(5) { 0 => U256::MAX, 1 => U256::from(u64::MAX), 2 => U256::from(u64::MAX - r.below(70)), 3 => U256::from(r.below(100)), _ => gen::u256(r) }; l.to_big_endian(&mut ret[36..68]); }
        *desc = hex(&ret);
        m.resp = Some(TxResp { exit_reason: ExitReason::Revert(ExitRevert::Reverted), ret: ret.clone(), ..gen::tx_resp(r) });
        let (a, _) = api(&m, 1, 1);
        let req: Web3CallRequest = serde_json::from_value(json!({"to": da(small_address(r))})).unwrap();
        let e = match rt.block_on(a.call(req, None)) { Ok(v) => return Err(format!("a reverted call answered {}", out(&v))), Err(e) => e };
        ensure_eq!((e.code(), e.data().map(|x| x.get().to_string())), (-49998, Some(format!("\"{}\"", d(&ret)))), "error");
        let len = if ret.len() >= 68 { U256::from_big_endian(&ret[36..68]) } else { U256::MAX };
        let text: Vec<u8> = if len <= U256::from(ret.len().saturating_sub(68)) { ret[68..68 + len.as_usize()].to_vec() } else { ret.clone() };
        let text: String = text.iter().map(|b| *b as char).collect();
        ensure!(e.message().ends_with(&text), "message {:?}", e.message());
        Ok(())
    });

    h.check("send", 120, |r, desc| {
        let mut m = data(r, 2);
        m.refuse = r.one_in(5);
        let cap = r.range(21_000, 60_000_000);
        let (a, f) = api(&m, cap, 1);
        let k = gen_tx::key(r);
        let mut t = gen::utx(r);
        t.signature = None;
        let price = match r.below(6) { 0 => 0, 1 => 500_000_000_000, 2 => 500_000_000_001, 3 => r.int() >> 1, _ => r.range(1, 500_000_000_000) };
        let limit = match r.below(6) { 0 => r.range(20_999, 21_001), 1 => cap, 2 => cap + 1, _ => r.range(21_000, cap) };
        let prio = r.below(price + 1);
        match &mut t.unsigned {
            UnsignedTransaction::Legacy(x) => { x.gas_price = price.into(); x.gas_limit = limit.into(); }
            UnsignedTransaction::Eip2930(x) => { x.gas_price = price.into(); x.gas_limit = limit.into(); }
            UnsignedTransaction::Eip1559(x) => { x.gas_price = price.into(); x.max_priority_fee_per_gas = prio.into(); x.gas_limit = limit.into(); }
        }
        gen_tx::sign(&mut t, &k);
        t.hash = t.get_hash();
        let mut raw = t.encode().unwrap().to_vec();
        let broken = r.one_in(6);
        if broken { let i = r.below(raw.len() as u64) as usize; raw.truncate(i); }
        *desc = format!("price {} limit {} cap {} broken {} refused {}", price, limit, cap, broken, m.refuse);
        let x = rt.block_on(a.send_raw_transaction(Hex::encode(&raw)));
        let sent = f.0.read().unwrap().sent.clone();
        let code = if broken { Some(INTERNAL) } else if price == 0 { Some(-40006) } else if price > 500_000_000_000 { Some(-40007) } else if limit < 21_000 { Some(-40008) } else if limit > cap { Some(-40009) } else if m.refuse { Some(INTERNAL) } else { None };
        if let Some(c) = code { ensure_eq!(err_code(x, "a refused transaction")?, c, "error"); ensure!(sent.is_empty(), "a refused transaction reached the pool"); return Ok(()); }
        ensure_eq!(ok(x, "eth_sendRawTransaction")?, t.hash, "hash");
        ensure_eq!(sent.len(), 1, "transactions handed to the pool");
        let (p, who) = gen_tx::account(&k);
        ensure!(sent[0].transaction == t && sent[0].sender == who && sent[0].public == Some(p), "the pool got {:?}", sent[0]);
        Ok(())
    });

    h.check("logs", 900, |r, desc| {
        let m = data(r, 8);
        let range = r.below(8);
        let (a, _) = api(&m, 1, range);
        let f = log_query(r);
        let mut j = f.json.clone();
        let last = m.last();
        if r.one_in(4) {
            let known = !r.one_in(4);
            let b = r.pick(&m.blocks);
            let h = if known { b.hash() } else { gen::h256(r) };
            j.insert("blockHash".into(), json!(da(h)));
            *desc = Value::Object(j.clone()).to_string();
            let q: Web3Filter = serde_json::from_value(Value::Object(j)).map_err(|e| e.to_string())?;
            let x = rt.block_on(a.get_logs(q));
            if !known { ensure_eq!(err_code(x, "logs of an unknown block")?, -40014, "error"); return Ok(()); }
            return same(&out(&ok(x, "eth_getLogs")?), &Value::Array(logs_of(&m, b.header.number, b.header.number, &f)), "logs");
        }
        let mut side = |r: &mut Rng, k: &str| -> u64 {
            match r.below(6) { 0 => last, 1 => { j.insert(k.into(), json!("latest")); last } 2 => { j.insert(k.into(), json!("earliest")); 0 } 3 if r.bool() => { j.insert(k.into(), json!("pending")); last } _ => { let n = r.below(last + 3); j.insert(k.into(), json!(q(n))); n } }
        };
        let (from, to) = (side(r, "fromBlock"), side(r, "toBlock").min(last));
        *desc = format!("{} range {} newest {}", Value::Object(j.clone()), range, last);
        let q: Web3Filter = serde_json::from_value(Value::Object(j)).map_err(|e| e.to_string())?;
        let x = rt.block_on(a.get_logs(q));
        if from > last { ensure_eq!(err_code(x, "logs from a block that is not there")?, -40015, "error"); return Ok(()); }
        if to.saturating_sub(from) > range { ensure_eq!(err_code(x, "logs of too many blocks")?, -40016, "error"); return Ok(()); }
        same(&out(&ok(x, "eth_getLogs")?), &Value::Array(logs_of(&m, from, to, &f)), "logs")
    });

    h.check("filters", 300, |r, desc| {
        let mut m = data(r, 5);
        let f = Arc::new(Fake(RwLock::new(m.clone())));
        let range = if r.one_in(3) { r.below(4) } else { 1000 };
        rt.block_on(async {
            let s = filter_module(Arc::clone(&f), range);
            let blocks = r.one_in(3);
            let q_ = log_query(r);
            let mut j = q_.json.clone();
            let last = m.last();
            let mut next = last + 1;
            let mut bound: Option<u64> = None;
            if !blocks {
                match r.below(6) { 0 => { let n = r.below(last + 4); j.insert("fromBlock".into(), json!(q(n))); next = if n < last { last + 1 } else { n }; } 1 => { j.insert("fromBlock".into(), json!("latest")); } 2 => { j.insert("fromBlock".into(), json!("earliest")); } _ => () }
                match r.below(6) { 0 => { let n = r.range(1, last + 6); j.insert("toBlock".into(), json!(q(n))); bound = Some(n); } 1 => { j.insert("toBlock".into(), json!("latest")); } _ => () }
            }
            *desc = format!("{} {} newest {} range {}", if blocks { "blocks" } else { "logs" }, Value::Object(j.clone()), last, range);
            if r.one_in(6) {
                let mut k = j.clone();
                let c = match r.below(3) { 0 => { k.insert("fromBlock".into(), json!("pending")); -40021 } 1 => { k.insert("toBlock".into(), json!("earliest")); INTERNAL } _ => { k.insert("toBlock".into(), json!("0x0")); INTERNAL } };
                if c != INTERNAL { k.remove("toBlock"); } else { k.remove("fromBlock"); }
                ensure_eq!(err_code(s.new_filter(serde_json::from_value(Value::Object(k)).unwrap()).await, "such a filter")?, c, "error");
            }
            let id = if blocks { ok(s.block_filter().await, "eth_newBlockFilter")? } else { ok(s.new_filter(serde_json::from_value(Value::Object(j)).map_err(|e| e.to_string())?).await, "eth_newFilter")? };
            let other = ok(s.block_filter().await, "eth_newBlockFilter")?;
            ensure!(id != other, "two filters have one id");
            for step in 0..r.range(2, 6) {
                for _ in 0..r.below(4) { add_block(r, &mut m); }
                *f.0.write().unwrap() = m.clone();
                let last = m.last();
                if r.one_in(4) {
                    let unknown = if r.bool() { gen::u256(r) } else { U256::from(r.u64()) };
                    ensure_eq!(err_code(s.get_filter_changes(unknown).await, "an unknown filter")?, -40022, "error");
                    ensure_eq!(ok(s.uninstall_filter(unknown).await, "eth_uninstallFilter")?, false, "removal of an unknown filter");
                }
                let x = if r.bool() { s.get_filter_changes(id).await } else { s.get_filter_logs(id).await };
                if blocks {
                    let want: Vec<String> = (next..=last).map(|n| da(m.blocks[n as usize].hash())).collect();
                    ensure_eq!(out(&ok(x, "changes")?), json!(want), "new blocks at poll {}", step);
                    next = last + 1;
                } else {
                    let end = bound.unwrap_or(last).min(last);
                    if next > last { ensure_eq!(out(&ok(x, "changes")?), json!([]), "changes before the first block at poll {}", step); continue; }
                    if end.saturating_sub(next) > range { ensure_eq!(err_code(x, "too many blocks")?, -40016, "error"); ensure_eq!(err_code(s.get_filter_changes(id).await, "a dropped filter")?, -40022, "error"); return Ok(()); }
                    let want = if end >= next { logs_of(&m, next, end, &q_) } else { vec![] };
                    same(&out(&ok(x, "changes")?), &Value::Array(want), &format!("logs at poll {}", step))?;
                    next = next.max(end + 1);
                }
            }
            ensure_eq!(ok(s.uninstall_filter(id).await, "eth_uninstallFilter")?, true, "removal");
            ensure_eq!(err_code(s.get_filter_changes(id).await, "a removed filter")?, -40022, "error");
            ensure_eq!(ok(s.uninstall_filter(id).await, "eth_uninstallFilter")?, false, "second removal");
            ok(s.get_filter_changes(other).await, "the other filter")?;
            Ok(())
        })
    });
    h.check("expiry", 60, |r, desc| {
        use jsonrpc::hub::{age, ask, sweep, Command, FilterHub, LoggerFilter};
        let m = data(r, 4);
        let f = Arc::new(Fake(RwLock::new(m.clone())));
        let blocks = r.bool();
        *desc = format!("a filter of {}", if blocks { "blocks" } else { "logs" });
        rt.block_on(async {
            let (_tx, rx) = tokio::sync::mpsc::channel(1);
            let mut hub = FilterHub::new(f, rx, 10);
            let (tx, got) = tokio::sync::oneshot::channel();
            let filter = LoggerFilter { from_block: None, to_block: None, address: None, topics: vec![] };
            ask(&mut hub, if blocks { Command::NewBlocks(tx) } else { Command::NewLogs((filter, tx)) }).await;
            let id = got.await.unwrap();
            for k in 0..3 {
                age(&mut hub, 35);
                sweep(&mut hub);
                let (tx, got) = tokio::sync::oneshot::channel();
                ask(&mut hub, Command::FilterRequest((id, tx))).await;
                ensure!(got.await.unwrap().is_ok(), "a filter asked every 35 seconds was gone at {} seconds", 35 * (k + 1));
            }
            age(&mut hub, 41);
            sweep(&mut hub);
            let (tx, got) = tokio::sync::oneshot::channel();
            ask(&mut hub, Command::FilterRequest((id, tx))).await;
            ensure!(got.await.unwrap().is_err(), "a filter nobody asked for 41 seconds is still there");
            Ok(())
        })
    });

    h.once("hang_up", "a client that goes away before its answer comes leaves the others' filters alone", || {
        use jsonrpc::hub::{ask, Command, FilterHub, LoggerFilter};
        let mut r = Rng::new(27);
        let f = Arc::new(Fake(RwLock::new(data(&mut r, 4))));
        rt.block_on(async {
            let (_tx, rx) = tokio::sync::mpsc::channel(1);
            let mut hub = FilterHub::new(f, rx, 10);
            fn nobody<T>() -> tokio::sync::oneshot::Sender<T> { let (tx, _) = tokio::sync::oneshot::channel(); tx }
            let filter = || LoggerFilter { from_block: None, to_block: None, address: None, topics: vec![] };
            let mut ids = vec![];
            for blocks in [true, false] {
                let (tx, got) = tokio::sync::oneshot::channel();
                ask(&mut hub, if blocks { Command::NewBlocks(tx) } else { Command::NewLogs((filter(), tx)) }).await;
                ids.push(got.await.unwrap());
            }
            ask(&mut hub, Command::NewBlocks(nobody())).await;
            ask(&mut hub, Command::NewLogs((filter(), nobody()))).await;
            for id in [ids[0], ids[1], U256::zero()] { ask(&mut hub, Command::FilterRequest((id, nobody()))).await; }
            ask(&mut hub, Command::Uninstall((U256::zero(), nobody()))).await;
            for id in ids {
                let (tx, got) = tokio::sync::oneshot::channel();
                ask(&mut hub, Command::FilterRequest((id, tx))).await;
                ensure!(got.await.unwrap().is_ok(), "a filter was gone after other clients hung up");
            }
            Ok(())
        })
    });

    h.check("fees", 400, |r, desc| {
        let m = data(r, 8);
        let (a, _) = api(&m, 1, 1);
        let (v, n) = block_id(r, &m);
        let count = match r.below(5) { 0 => U256::from(r.int()), 1 => U256::MAX, _ => U256::from(r.below(10)) };
        let percent: Option<Vec<f64>> = match r.below(4) { 0 => None, 1 => Some(vec![]), 2 => { let mut x: Vec<f64> = (0..r.range(1, 4)).map(|_| r.below(101) as f64).collect(); x.sort_by(|a, b| a.partial_cmp(b).unwrap()); x.dedup(); Some(x) } _ => Some((0..r.range(1, 4)).map(|_| r.below(140) as f64 - 20.0).collect()) };
        *desc = format!("{} blocks up to {} of {}, percentiles {:?}", count, v, m.blocks.len(), percent);
        let c = if count <= U256::from(u64::MAX) && r.bool() { json!(count.as_u64()) } else { json!(q(count)) };
        let x = rt.block_on(a.fee_history(serde_json::from_value(c).map_err(|e| e.to_string())?, id(&v), percent.clone()));
        let good = percent.as_ref().map_or(true, |p| p.iter().all(|x| (0.0..=100.0).contains(x)) && p.windows(2).all(|w| w[0] < w[1]));
        if !good { ensure_eq!(err_code(x, "such percentiles")?, -40020, "error"); return Ok(()); }
        if count.is_zero() { return same(&out(&ok(x, "eth_feeHistory")?), &json!({"oldestBlock": "0x0"}), "no blocks"); }
        if v.get("blockHash").is_some() { ensure_eq!(err_code(x, "a block named by its hash")?, -40017, "error"); return Ok(()); }
        if n.is_err() { ensure_eq!(err_code(x, "an unknown block")?, -40013, "error"); return Ok(()); }
        let (new, count) = (n.unwrap(), count.min(U256::from(1024)).as_u64());
        let old = (new + 1).saturating_sub(count);
        let mut fees: Vec<String> = (old..=new).map(|n| q(m.blocks[n as usize].header.base_fee_per_gas.as_u64())).collect();
        fees.push(q(1337));
        let x = out(&ok(x, "eth_feeHistory")?);
        same(&x, &json!({"oldestBlock": q(old), "baseFeePerGas": fees}), "fee history")?;
        let ratios = x["gasUsedRatio"].as_array().cloned().unwrap_or_default();
        ensure_eq!(ratios.len() as u64, new + 1 - old, "ratios");
        for (i, g) in ratios.iter().enumerate() {
            let hd = &m.blocks[old as usize + i].header;
            let w = if hd.gas_limit.is_zero() { 0.0 } else { hd.gas_used.as_u64() as f64 / hd.gas_limit.as_u64() as f64 };
            ensure!((g.as_f64().unwrap() / 100.0 - w).abs() < 1e-9, "ratio of block {}: {} instead of {} percent", old as usize + i, g, w * 100.0);
        }
        match percent { Some(p) if !p.is_empty() => { let rw = x["reward"].as_array().cloned().unwrap_or_default(); ensure!(rw.len() as u64 == new + 1 - old && rw.iter().all(|x| x.as_array().map_or(false, |x| x.len() == p.len())), "rewards {:?}", rw); } _ => ensure!(x.get("reward").is_none(), "rewards nobody asked for") }
        Ok(())
    });

    h.check("parameters", 1200, |r, desc| {
        // block parameters in every JSON form
        let n = r.int();
        let text = match r.below(8) { 0 => format!("{:x}", n), 1 => format!("0x{:X}", n), 2 => format!("0x{:x}0", u64::MAX), 3 => "0x".into(), 4 => format!("{}", n), 5 => format!("0X{:x}", n), _ => format!("0x{:x}", n) };
        let good = text.starts_with("0x") && text.len() > 2 && u64::from_str_radix(&text[2..], 16).is_ok();
        let hash = gen::h256(r);
        let ht = match r.below(4) { 0 => d(&hash.0[1..]), 1 => format!("{}00", da(hash)), 2 => hex(&hash.0), _ => da(hash) };
        let hgood = ht == da(hash);
        let (v, want) = match r.below(4) {
            0 => (json!({"blockNumber": text}), if good { Some(BlockId::Num(u64::from_str_radix(&text[2..], 16).unwrap().into())) } else { None }),
            1 => (json!({"blockHash": ht}), if hgood { Some(BlockId::Hash(hash)) } else { None }),
            2 => (if r.bool() { json!({"number": text}) } else { json!({}) }, None),
            _ => match r.below(6) { 0 => (json!("latest"), Some(BlockId::Latest)), 1 => (json!("earliest"), Some(BlockId::Earliest)), 2 => (json!("pending"), Some(BlockId::Pending)), 3 => (json!(n), None), _ => (json!(text), if good { Some(BlockId::Num(u64::from_str_radix(&text[2..], 16).unwrap().into())) } else { None }) },
        };
        *desc = v.to_string();
        let got: Option<BlockId> = serde_json::from_value(v.clone()).ok();
        ensure_eq!(got, want, "block parameter {}", v);
        Ok(())
    });

    h.check("axon", 300, |r, desc| {
        let mut m = data(r, 6);
        let flag = |b: u64| { let mut x = [0; 32]; x[24 + (b / 8) as usize] = 1 << (b % 8); H256(x) };
        let _ = flag;
        let (v, n) = block_id(r, &m);
        *desc = v.to_string();
        let last = m.last();
        let mut at = 0;
        let mut flags = 0u64;
        for _ in 0..r.below(4) { flags |= 1 << r.below(2); m.forks.push(HardforkInfoInner { block_number: at, flags: H256::from_low_u64_be(flags.to_be()) }); at += r.range(1, 4); }
        if r.one_in(3) { m.proposed = Some(HardforkInfoInner { block_number: last + 10, flags: H256::from_low_u64_be((1u64 << r.below(2)).to_be()) }); }
        let a = AxonRpcImpl::new(Arc::new(Fake(RwLock::new(m.clone()))));
        rt.block_on(async {
            let b = a.get_block_by_id(id(&v)).await;
            let p = a.get_proof_by_id(id(&v)).await;
            if v == json!("earliest") || v == json!("pending") { err_code(b, "such a block")?; err_code(p, "such a block")?; }
            else {
                let want = n.ok().map(|n| m.blocks[n as usize].clone());
                ensure!(ok(b, "axon_getBlockById")? == want, "another block");
                ensure!(ok(p, "axon_getProofById")? == want.map(|b| b.header.proof), "another proof");
            }
            let k = r.below(last + 3);
            let x = a.get_proposal_by_number(k.into()).await;
            if k > last { err_code(x, "a proposal that is not there")?; }
            else {
                let hd = &m.blocks[k as usize].header;
                let root = if k == 0 { H256::zero() } else { m.blocks[k as usize - 1].header.state_root };
                let want = Proposal { version: hd.version, prev_hash: hd.prev_hash, proposer: hd.proposer, prev_state_root: root, transactions_root: hd.transactions_root, signed_txs_hash: hd.signed_txs_hash, timestamp: hd.timestamp, number: hd.number,
                    gas_limit: hd.gas_limit, extra_data: hd.extra_data.clone(), base_fee_per_gas: hd.base_fee_per_gas, proof: hd.proof.clone(), chain_id: hd.chain_id, call_system_script_count: hd.call_system_script_count, tx_hashes: m.blocks[k as usize].tx_hashes.clone() };
                ensure!(ok(x, "axon_getProposalByNumber")? == want, "another proposal");
            }
            let far = U256::from(u64::MAX) + U256::one() + U256::from(k);
            err_code(a.get_proposal_by_number(far).await, "a proposal beyond 2^64")?;
            err_code(a.get_metadata_by_number(far).await, "the metadata of a block beyond 2^64")?;
            ensure_eq!(ok(a.get_metadata_by_number(k.into()).await, "axon_getMetadataByNumber")?.epoch, k, "the metadata of another block");
            ensure_eq!(ok(a.get_current_metadata().await, "axon_getCurrentMetadata")?.epoch, u64::MAX, "the current metadata");
            // hard forks: enabled when the newest entry at or below the newest block has the flag, determined when a later one has, else proposed
            let got = ok(a.hardfork_infos().await, "axon_getHardforkInfo")?;
            let low = |h: &H256| u64::from_be(h.to_low_u64_be());
            let on = m.forks.iter().filter(|f| f.block_number <= last).last().map_or(0, |f| low(&f.flags));
            let soon = m.forks.last().map_or(0, |f| low(&f.flags)) & !on;
            let prop = m.proposed.as_ref().map_or(0, |f| low(&f.flags));
            for name in <common_config_parser::types::spec::HardforkName as strum::IntoEnumIterator>::iter() {
                let bit = name as u64;
                let want = if on & bit != 0 { json!("enabled") } else if soon & bit != 0 { json!("determined") } else if prop & bit != 0 { json!("proposed") } else { Value::Null };
                ensure_eq!(got.get(&name).map(out).unwrap_or(Value::Null), want, "{:?}", name);
            }
            Ok(())
        })
    });
    h.once("names", "the names the methods are served under", || {
        let want: [(&[(&str, &str)], &[(&str, &str)]); 3] = [
            (jsonrpc::Web3Rpc_METHODS, &[("eth_sendRawTransaction", "send_raw_transaction"), ("eth_getTransactionByHash", "get_transaction_by_hash"), ("eth_getBlockByNumber", "get_block_by_number"), ("eth_getBlockByHash", "get_block_by_hash"), ("eth_blockNumber", "block_number"),
                ("eth_getTransactionCount", "get_transaction_count"), ("eth_getBlockTransactionCountByNumber", "get_block_transaction_count_by_number"), ("eth_getBalance", "get_balance"), ("eth_call", "call"), ("eth_estimateGas", "estimate_gas"), ("eth_getCode", "get_code"),
                ("eth_getTransactionReceipt", "get_transaction_receipt"), ("eth_gasPrice", "gas_price"), ("eth_getLogs", "get_logs"), ("eth_feeHistory", "fee_history"), ("eth_getBlockTransactionCountByHash", "get_block_transaction_count_by_hash"),
                ("eth_getTransactionByBlockHashAndIndex", "get_transaction_by_block_hash_and_index"), ("eth_getTransactionByBlockNumberAndIndex", "get_transaction_by_block_number_and_index"), ("eth_getStorageAt", "get_storage_at"), ("eth_getProof", "get_proof")]),
            (jsonrpc::Web3Filter_METHODS, &[("eth_newFilter", "new_filter"), ("eth_newBlockFilter", "block_filter"), ("eth_getFilterChanges", "get_filter_changes"), ("eth_uninstallFilter", "uninstall_filter")]),
            (jsonrpc::AxonRpc_METHODS, &[("axon_getBlockById", "get_block_by_id"), ("axon_getProofById", "get_proof_by_id"), ("axon_getMetadataByNumber", "get_metadata_by_number"), ("axon_getProposalByNumber", "get_proposal_by_number"), ("axon_getCurrentMetadata", "get_current_metadata")]),
        ];
        for (have, want) in want { for w in want { ensure!(have.contains(w), "{} is not served by {}", w.0, w.1); } }
        Ok(())
    });
    h.finish()
}
