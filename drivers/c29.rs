//@extern protocol=axon_protocol core_executor core_consensus core_storage core_db core_mempool core_interoperation common_crypto common_config_parser common_apm common_apm_derive either jsonrpsee jsonrpsee_types ckb_jsonrpc_types ckb_traits ckb_types hasher log parking_lot rlp serde serde_json strum rocksdb overlord beef
//@snippet rpc.rs core/api/src/jsonrpc/mod.rs :: @trait Web3Rpc ; @trait Web3Filter ; @trait AxonNodeRpc ; @trait AxonRpc ; @trait CkbLightClientRpc
//@snippet api.rs core/api/src/lib.rs :: @enum APIError ; impl Error for APIError ; impl From<APIError> for ProtocolError
// C29: subscriptions over a chain that grows, against the messages computed from the blocks that were added.
#[path = "common.rs"] mod axv;
#[path = "gen.rs"] mod gen;
#[path = "gen_tx.rs"] mod gen_tx;
#[path = "/repo/core/api/src/adapter.rs"] #[allow(dead_code)] mod adapter;
#[allow(dead_code, unused_imports)]
mod jsonrpc {
    #[path = "/repo/core/api/src/jsonrpc/error.rs"] pub mod error;
    #[path = "/repo/core/api/src/jsonrpc/impl/mod.rs"] pub mod r#impl;
    #[path = "/repo/core/api/src/jsonrpc/web3_types.rs"] pub mod web3_types;
    pub mod ws {
        include!("/repo/core/api/src/jsonrpc/ws_subscription.rs");
        /// what the task does when a subscription arrives, and at a tick
        pub fn add<A>(s: &mut Subscription<A>, params: &str, b: &jsonrpsee::server::Inbox) -> Result<(), ErrorObjectOwned> where A: APIAdapter + 'static {
            let text: &'static str = Box::leak(params.to_string().into_boxed_str());
            let sink = b.sink();
            match Type::try_from(Params::new(Some(text)))? {
                Type::NewHeads => s.header_hubs.push(Hub { filter: (), sink }),
                Type::Logs(filter) => s.log_hubs.push(Hub { filter, sink }),
                Type::Syncing => s.sync_hubs.push(Hub { filter: (), sink }),
            }
            Ok(())
        }
        pub async fn tick<A>(s: &mut Subscription<A>) where A: APIAdapter + 'static { s.notify().await }
        pub fn idle() -> Receiver<RawHub> { channel(1).1 }
    }
    use ckb_jsonrpc_types::{CellInfo, HeaderView as CkbHeaderView, OutPoint};
    use common_config_parser::types::spec::HardforkName;
    use jsonrpsee::{core::RpcResult, proc_macros::rpc};
    use protocol::traits::APIAdapter;
    use protocol::types::{Block, CkbRelatedInfo, EthAccountProof, Hash, Hex, Metadata, Proof, Proposal, H160, H256, U256};
    use protocol::ProtocolResult;
    use std::{collections::HashMap, sync::Arc};
    use crate::jsonrpc::web3_types::*;
    include!(concat!(env!("AXV_GEN"), "/rpc.rs"));
}
mod api {
    use protocol::{Display, ProtocolError, ProtocolErrorKind};
    use std::error::Error;
    include!(concat!(env!("AXV_GEN"), "/api.rs"));
}
pub use api::APIError;

use axv::*;
use jsonrpc::web3_types::*;
use jsonrpc::ws;
use jsonrpsee::server::{IdProvider as _, Inbox};
use protocol::codec::ProtocolCodec as _;
use protocol::traits::*;
use protocol::types::*;
use protocol::{async_trait, tokio, ProtocolError, ProtocolResult};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::sync::{Arc, RwLock};
use std::time::Duration;
include!("webchain.rs");

fn head_json(b: &Block) -> Value {
    let h = &b.header;
    json!({"number": q(h.number), "parentHash": da(h.prev_hash), "stateRoot": da(h.state_root), "transactionsRoot": da(h.transactions_root), "receiptsRoot": da(h.receipts_root), "miner": da(h.proposer), "gasLimit": q(h.gas_limit.as_u64()),
        "gasUsed": q(h.gas_used.as_u64()), "timestamp": q(h.timestamp), "logsBloom": da(h.log_bloom.0), "difficulty": "0x1", "extraData": da(rlp::encode_list(&h.extra_data))})
}
enum Kind { Heads, Logs(LogQuery), Sync }
/// one subscription: what it asked for, where its messages arrive, and what it must have been told
struct Sub { kind: Kind, inbox: Inbox, want: Vec<Value>, open: bool, name: String }
fn request(r: &mut Rng) -> (Kind, String) {
    match r.below(4) {
        0 => (Kind::Heads, json!(["newHeads"]).to_string()),
        1 if r.one_in(2) => (Kind::Sync, json!(["syncing"]).to_string()),
        _ => { let f = log_query(r); let p = json!(["logs", Value::Object(f.json.clone())]).to_string(); (Kind::Logs(f), p) }
    }
}
/// the blocks after `from` became known: what each open subscription must be told
fn told(subs: &mut [Sub], m: &Data, from: u64, sync: &Value) {
    if m.last() == from { return; }
    for s in subs.iter_mut().filter(|s| s.open) {
        match &s.kind {
            Kind::Heads => s.want.extend((from + 1..=m.last()).map(|n| head_json(&m.blocks[n as usize]))),
            Kind::Logs(f) => s.want.extend(logs_of(m, from + 1, m.last(), f)),
            Kind::Sync => s.want.push(sync.clone()),
        }
    }
}
fn compare(subs: &[Sub]) -> Result<(), String> {
    for s in subs {
        let got = s.inbox.got();
        ensure!(got.len() == s.want.len(), "{}: {} messages instead of {}", s.name, got.len(), s.want.len());
        for (a, b) in got.iter().zip(&s.want) { same(a, b, &s.name)?; }
    }
    Ok(())
}
fn sync_json(n: Option<(u64, u64, u64)>) -> Value {
    match n { None => json!(false), Some((a, b, c)) => json!({"startingBlock": q(a), "currentBlock": q(b), "highestBlock": q(c)}) }
}
fn set_sync(n: Option<(u64, u64, u64)>) {
    *core_consensus::SYNC_STATUS.write() = match n { None => core_consensus::SyncStatus::False, Some((a, b, c)) => core_consensus::SyncStatus::Syncing { start: a.into(), current: b.into(), highest: c.into() } };
}

fn main() {
    let mut h = H::new();
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().unwrap();

    h.check("notify", 1500, |r, desc| {
        let fake = Arc::new(Fake(RwLock::new(data(r, 3))));
        rt.block_on(async {
            let mut s = ws::Subscription::new(Arc::clone(&fake), ws::idle()).await;
            let mut subs: Vec<Sub> = vec![];
            for _ in 0..r.range(1, 7) {
                match r.below(6) {
                    0 | 1 => {
                        let (kind, p) = request(r);
                        *desc += &format!("subscribe {}; ", p);
                        let inbox = Inbox::default();
                        ws::add(&mut s, &p, &inbox).map_err(|e| format!("{}: {} {}", p, e.code(), e.message()))?;
                        subs.push(Sub { kind, inbox, want: vec![], open: true, name: p });
                    }
                    2 if !subs.is_empty() => { let k = r.below(subs.len() as u64) as usize; *desc += &format!("close {}; ", k); subs[k].inbox.close(); subs[k].open = false; }
                    _ => {}
                }
                let k = if r.bool() { r.below(2) } else { r.below(5) };
                *desc += &format!("{} blocks; ", k);
                let from = fake.0.read().unwrap().last();
                for _ in 0..k { add_block(r, &mut fake.0.write().unwrap()); }
                let n = if r.bool() { None } else { Some((r.u64(), r.u64(), r.u64())) };
                set_sync(n);
                ws::tick(&mut s).await;
                told(&mut subs, &fake.0.read().unwrap(), from, &sync_json(n));
                compare(&subs)?;
            }
            Ok(())
        })
    });

    // the whole task, with its clock: a tick every three seconds
    h.once("task", "subscribers of the running task are told of each new block and matching log once", || {
        set_sync(None);
        rt.block_on(async {
            let mut all = vec![];
            for k in 0..60u64 {
                all.push(tokio::spawn(async move {
                    let mut r = Rng::new(k + 1);
                    let fake = Arc::new(Fake(RwLock::new(data(&mut r, 3))));
                    let module = ws::ws_subscription_module(Arc::clone(&fake)).await;
                    let mut subs: Vec<Sub> = vec![];
                    for round in 0..3 {
                        for _ in 0..r.range(1, 4) {
                            // the first one tells when a tick has passed
                            let (kind, p) = if subs.is_empty() { (Kind::Heads, "[\"newHeads\"]".to_string()) } else { request(&mut r) };
                            let inbox = module.subscribe("eth_subscribe", p.clone()).await.ok_or("eth_subscribe is not served")?;
                            if let Some(e) = inbox.refused() { return Err(format!("{}: refused {} {}", p, e.code(), e.message())); }
                            subs.push(Sub { kind, inbox, want: vec![], open: true, name: p });
                        }
                        if round > 0 && r.one_in(3) { let k = r.below(subs.len() as u64) as usize; if k > 0 { subs[k].inbox.close(); subs[k].open = false; } }
                        tokio::time::sleep(Duration::from_millis(400)).await; // the subscriptions reach the task
                        let from = fake.0.read().unwrap().last();
                        let mut grown = fake.0.read().unwrap().clone();
                        for _ in 0..r.range(1, 3) { add_block(&mut r, &mut grown); }
                        *fake.0.write().unwrap() = grown;
                        told(&mut subs, &fake.0.read().unwrap(), from, &sync_json(None));
                        let mut waited = 0;
                        while compare(&subs).is_err() && waited < 150 { tokio::time::sleep(Duration::from_millis(100)).await; waited += 1; }
                        compare(&subs)?;
                    }
                    tokio::time::sleep(Duration::from_millis(3500)).await;
                    compare(&subs).map_err(|e| format!("once more: {}", e))
                }));
            }
            for (k, x) in all.into_iter().enumerate() { x.await.map_err(|e| format!("chain {}: {}", k, e))?.map_err(|e| format!("chain {}: {}", k, e))?; }
            Ok(())
        })
    });

    h.once("requests", "what can be subscribed to, and under which names", || {
        rt.block_on(async {
            let mut r = Rng::new(7);
            let fake = Arc::new(Fake(RwLock::new(data(&mut r, 2))));
            let module = ws::ws_subscription_module(fake).await;
            ensure_eq!(module.names(), vec![("eth_subscribe", "eth_subscription", "eth_unsubscribe")], "names");
            for p in ["[\"newHeads\"]", "[\"syncing\"]", "[\"logs\", {}]", "[\"logs\", {\"address\": null, \"topics\": [null]}]"] {
                let b = module.subscribe("eth_subscribe", p.to_string()).await.unwrap();
                ensure!(b.accepted() && b.refused().is_none(), "{} is refused", p);
            }
            for p in ["[]", "[\"newheads\"]", "[\"newPendingTransactions\"]", "[\"logs\"]", "[\"logs\", 3]", "[3]", "{}", "[\"logs\", {\"address\": \"0x12\"}]"] {
                let b = module.subscribe("eth_subscribe", p.to_string()).await.unwrap();
                ensure!(!b.accepted() && b.refused().is_some(), "{} is accepted", p);
            }
            Ok(())
        })
    });

    h.once("ids", "subscription ids are 32-byte numbers, each given once", || {
        let p = ws::HexIdProvider::default();
        let mut seen = std::collections::BTreeSet::new();
        for _ in 0..2000 {
            let s = serde_json::to_value(p.next_id()).map_err(|e| e.to_string())?;
            let s = s.as_str().ok_or("not a text")?.to_string();
            ensure!(s.len() == 66 && s.starts_with("0x") && s[2..].bytes().all(|b| b.is_ascii_digit() || (b'a'..=b'f').contains(&b)), "{}", s);
            ensure!(seen.insert(s.clone()), "{} twice", s);
        }
        Ok(())
    });
    h.finish();
}
