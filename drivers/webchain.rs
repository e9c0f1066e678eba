// A chain, a state and a pool a case makes up, the adapter that answers from them, and what the JSON-RPC says of them
// (included by the drivers of C27 and C29).
fn q<T: Into<U256>>(n: T) -> String { format!("0x{:x}", n.into()) }
fn d(b: &[u8]) -> String { format!("0x{}", hex(b)) }
fn da<T: AsRef<[u8]>>(b: T) -> String { d(b.as_ref()) }
fn no(m: &str) -> ProtocolError { APIError::Adapter(m.to_string()).into() }

type Call = (Option<H160>, Option<H160>, Option<U64>, Option<U64>, U256, Vec<u8>, bool, Hash, Proposal);
#[derive(Default, Clone)]
struct Data {
    blocks: Vec<Block>, txs: HashMap<H256, SignedTransaction>, pool: HashMap<H256, SignedTransaction>, receipts: HashMap<H256, Receipt>,
    accounts: Vec<BTreeMap<H160, Account>>, codes: HashMap<H256, Bytes>, slots: Vec<HashMap<(H160, U256), H256>>, pending: HashMap<H160, (U256, Option<u64>)>,
    resp: Option<TxResp>, calls: Vec<Call>, sent: Vec<SignedTransaction>, refuse: bool, forks: Vec<HardforkInfoInner>, proposed: Option<HardforkInfoInner>,
}
impl Data {
    fn last(&self) -> u64 { self.blocks.len() as u64 - 1 }
    fn tx(&self, h: &H256) -> Option<SignedTransaction> { self.pool.get(h).or_else(|| self.txs.get(h)).cloned() }
    fn state(&self, root: Hash) -> Option<usize> { self.blocks.iter().position(|b| b.header.state_root == root) }
}
struct Fake(RwLock<Data>);
#[async_trait]
impl APIAdapter for Fake {
    async fn insert_signed_txs(&self, _: Context, t: SignedTransaction) -> ProtocolResult<()> { let mut m = self.0.write().unwrap(); if m.refuse { return Err(no("refused")); } m.sent.push(t); Ok(()) }
    async fn mempool_contains_tx(&self, _: Context, h: &Hash) -> bool { self.0.read().unwrap().pool.contains_key(h) }
    async fn get_block_by_number(&self, _: Context, n: Option<u64>) -> ProtocolResult<Option<Block>> { let m = self.0.read().unwrap(); Ok(match n { Some(n) => m.blocks.get(n as usize).cloned(), None => m.blocks.last().cloned() }) }
    async fn get_block_by_hash(&self, _: Context, h: Hash) -> ProtocolResult<Option<Block>> { Ok(self.0.read().unwrap().blocks.iter().find(|b| b.hash() == h).cloned()) }
    async fn get_block_header_by_number(&self, c: Context, n: Option<u64>) -> ProtocolResult<Option<Header>> { Ok(self.get_block_by_number(c, n).await?.map(|b| b.header)) }
    async fn get_block_number_by_hash(&self, c: Context, h: Hash) -> ProtocolResult<Option<u64>> { Ok(self.get_block_by_hash(c, h).await?.map(|b| b.header.number)) }
    async fn get_receipt_by_tx_hash(&self, _: Context, h: Hash) -> ProtocolResult<Option<Receipt>> { Ok(self.0.read().unwrap().receipts.get(&h).cloned()) }
    async fn get_receipts_by_hashes(&self, _: Context, n: u64, hs: &[Hash]) -> ProtocolResult<Vec<Option<Receipt>>> { let m = self.0.read().unwrap(); Ok(hs.iter().map(|h| m.receipts.get(h).filter(|r| r.block_number == n).cloned()).collect()) }
    async fn get_transaction_by_hash(&self, _: Context, h: Hash) -> ProtocolResult<Option<SignedTransaction>> { Ok(self.0.read().unwrap().tx(&h)) }
    async fn get_transactions_by_hashes(&self, _: Context, _: u64, hs: &[Hash]) -> ProtocolResult<Vec<Option<SignedTransaction>>> { let m = self.0.read().unwrap(); Ok(hs.iter().map(|h| m.txs.get(h).cloned()).collect()) }
    async fn get_account(&self, _: Context, a: H160, n: Option<u64>) -> ProtocolResult<Account> {
        let m = self.0.read().unwrap();
        let n = n.unwrap_or(m.last());
        let s = m.accounts.get(n as usize).ok_or_else(|| no("no such block"))?;
        Ok(s.get(&a).cloned().unwrap_or(Account { nonce: U256::zero(), balance: U256::zero(), storage_root: RLP_NULL, code_hash: NIL_DATA }))
    }
    async fn get_pending_tx_count(&self, _: Context, a: H160) -> ProtocolResult<(U256, Option<u64>)> { Ok(self.0.read().unwrap().pending.get(&a).cloned().unwrap_or_default()) }
    async fn evm_call(&self, _: Context, from: Option<H160>, to: Option<H160>, price: Option<U64>, gas: Option<U64>, value: U256, data: Vec<u8>, estimate: bool, root: Hash, p: Proposal) -> ProtocolResult<TxResp> {
        let mut m = self.0.write().unwrap();
        m.calls.push((from, to, price, gas, value, data, estimate, root, p));
        m.resp.clone().ok_or_else(|| no("no answer"))
    }
    async fn get_code_by_hash(&self, _: Context, h: &Hash) -> ProtocolResult<Option<Bytes>> { Ok(self.0.read().unwrap().codes.get(h).cloned()) }
    async fn peer_count(&self, _: Context) -> ProtocolResult<U256> { Ok(U256::from(7)) }
    async fn get_storage_at(&self, _: Context, a: H160, p: U256, root: Hash) -> ProtocolResult<Bytes> {
        let m = self.0.read().unwrap();
        let k = m.state(root).ok_or_else(|| no("no state"))?;
        if !m.accounts[k].contains_key(&a) { return Err(no("no account")); }
        Ok(Bytes::from(m.slots[k].get(&(a, p)).cloned().unwrap_or_default().0.to_vec()))
    }
    async fn get_metadata_by_number(&self, _: Context, n: Option<u64>) -> ProtocolResult<Metadata> { Ok(Metadata { epoch: n.unwrap_or(u64::MAX), ..Default::default() }) }
    async fn get_ckb_related_info(&self, _: Context) -> ProtocolResult<CkbRelatedInfo> { Err(no("none")) }
    async fn get_image_cell_root(&self, _: Context) -> ProtocolResult<H256> { Err(no("none")) }
    async fn get_metadata_root(&self, _: Context, _: Option<u64>) -> ProtocolResult<H256> { Err(no("none")) }
    async fn hardfork_info(&self, _: Context) -> ProtocolResult<HardforkInfo> { Ok(HardforkInfo { inner: self.0.read().unwrap().forks.clone() }) }
    async fn hardfork_proposal(&self, _: Context) -> ProtocolResult<Option<HardforkInfoInner>> { Ok(self.0.read().unwrap().proposed.clone()) }
    async fn get_proof(&self, _: Context, a: H160, ps: Vec<U256>, root: Hash) -> ProtocolResult<EthAccountProof> {
        let m = self.0.read().unwrap();
        let k = m.state(root).ok_or_else(|| no("no state"))?;
        Ok(EthAccountProof { address: a, balance: U256::from(k), code_hash: root, nonce: U256::zero(), storage_hash: root, account_proof: vec![], storage_proof: ps.into_iter().map(|key| EthStorageProof { key, value: key, proof: vec![] }).collect() })
    }
}

// ---- what a case is made of
fn small_address(r: &mut Rng) -> H160 { H160::from_low_u64_be(r.range(1, 4)) }
fn topic(r: &mut Rng) -> H256 { H256::from_low_u64_be(r.range(1, 4)) }
/// the chain's id is a 32-bit number
fn transaction(r: &mut Rng) -> SignedTransaction { loop { let t = gen_tx::stx(r).0; if t.transaction.chain_id.map_or(true, |c| c <= u32::MAX as u64) { return t; } } }
fn add_block(r: &mut Rng, m: &mut Data) {
    let n = m.blocks.len() as u64;
    let mut b = gen::block(r);
    b.header.number = n;
    b.header.state_root = Hasher::digest(n.to_be_bytes());
    b.header.gas_limit = if r.one_in(5) { U64::zero() } else { U64::from(r.range(1, 60_000_000)) };
    b.header.gas_used = U64::from(r.below(b.header.gas_limit.as_u64() + 1));
    b.tx_hashes.clear();
    let k = match r.below(4) { 0 => 0, 1 => 1, _ => r.below(5) };
    let txs: Vec<SignedTransaction> = (0..k).map(|_| transaction(r)).collect();
    b.tx_hashes = txs.iter().map(|t| t.transaction.hash).collect();
    let h = b.hash();
    for (i, t) in txs.into_iter().enumerate() {
        let logs = (0..r.below(4)).map(|_| Log { address: small_address(r), topics: (0..r.below(5)).map(|_| topic(r)).collect(), data: r.blob(40) }).collect();
        let rc = Receipt { tx_hash: t.transaction.hash, block_number: n, block_hash: h, tx_index: i as u32, logs, removed: false, ..gen::receipt(r) };
        m.receipts.insert(rc.tx_hash, rc);
        m.txs.insert(t.transaction.hash, t);
    }
    let mut s = m.accounts.last().cloned().unwrap_or_default();
    let mut slots = m.slots.last().cloned().unwrap_or_default();
    for _ in 0..r.below(3) {
        let code = gen::blob(r);
        let ch = if r.bool() { let h = Hasher::digest(&code); if r.one_in(5) { } else { m.codes.insert(h, code); } h } else { NIL_DATA };
        let a = small_address(r);
        s.insert(a, Account { nonce: U256::from(r.int() >> 1), balance: gen::u256(r), storage_root: gen::h256(r), code_hash: ch });
        slots.insert((a, U256::from(r.below(3))), gen::h256(r));
    }
    m.accounts.push(s);
    m.slots.push(slots);
    m.blocks.push(b);
}
fn data(r: &mut Rng, n: u64) -> Data {
    let mut m = Data::default();
    for _ in 0..r.range(1, n) { add_block(r, &mut m); }
    for _ in 0..r.below(3) { let t = transaction(r); m.pool.insert(t.transaction.hash, t); }
    m
}
/// a block parameter as JSON, and the number of the block it names: `Err` when there is none
fn block_id(r: &mut Rng, m: &Data) -> (Value, Result<u64, ()>) {
    let last = m.last();
    match r.below(8) {
        0 => (json!("latest"), Ok(last)),
        1 => (json!("pending"), Ok(last)),
        2 => (json!("earliest"), Ok(0)),
        3 => { let b = r.pick(&m.blocks).clone(); (json!({"blockHash": d(b.hash().as_bytes())}), Ok(b.header.number)) }
        4 if r.one_in(2) => (json!({"blockHash": d(gen::h256(r).as_bytes())}), Err(())),
        5 => { let n = r.below(last + 1); (json!({"blockNumber": q(n)}), Ok(n)) }
        6 if r.one_in(2) => { let n = last + 1 + r.below(3); (json!(q(n)), Err(())) }
        _ => { let n = r.below(last + 1); (json!(q(n)), Ok(n)) }
    }
}
fn id(v: &Value) -> BlockId { serde_json::from_value(v.clone()).unwrap_or_else(|e| panic!("block parameter {}: {}", v, e)) }
fn opt_id(r: &mut Rng, m: &Data) -> (Option<BlockId>, Result<u64, ()>, String) {
    if r.one_in(5) { return (None, Ok(m.last()), "none".into()); }
    let (v, n) = block_id(r, m);
    (Some(id(&v)), n, v.to_string())
}
fn out<T: serde::Serialize>(x: &T) -> Value { serde_json::to_value(x).unwrap() }
/// `a` has every entry of `want`
fn same(a: &Value, want: &Value, what: &str) -> Result<(), String> {
    match (a, want) {
        (Value::Object(x), Value::Object(y)) => { for (k, v) in y { same(x.get(k).unwrap_or(&Value::Null), v, &format!("{}.{}", what, k))?; } Ok(()) }
        (Value::Array(x), Value::Array(y)) => { ensure_eq!(x.len(), y.len(), "length of {}", what); for (i, (p, w)) in x.iter().zip(y).enumerate() { same(p, w, &format!("{}[{}]", what, i))?; } Ok(()) }
        _ => { ensure!(a == want, "{}: {} instead of {}", what, a, want); Ok(()) }
    }
}
fn unsigned(t: &SignedTransaction) -> (u64, U64, U64, U64, Option<U64>, U256, Option<H160>, Vec<u8>, Value) {
    let to = |a: &TransactionAction| match a { TransactionAction::Call(h) => Some(*h), _ => None };
    match &t.transaction.unsigned {
        UnsignedTransaction::Legacy(x) => (0, x.nonce, x.gas_limit, x.gas_price, None, x.value, to(&x.action), x.data.to_vec(), json!([])),
        UnsignedTransaction::Eip2930(x) => (1, x.nonce, x.gas_limit, x.gas_price, None, x.value, to(&x.action), x.data.to_vec(), list(&x.access_list)),
        UnsignedTransaction::Eip1559(x) => (2, x.nonce, x.gas_limit, x.gas_price.max(x.max_priority_fee_per_gas), Some(x.max_priority_fee_per_gas), x.value, to(&x.action), x.data.to_vec(), list(&x.access_list)),
    }
}
fn list(l: &AccessList) -> Value { Value::Array(l.iter().map(|i| json!({"address": da(i.address), "storageKeys": i.storage_keys.iter().map(da).collect::<Vec<_>>()})).collect()) }
fn tx_json(t: &SignedTransaction, at: Option<(u64, H256, u64)>) -> Value {
    let (ty, nonce, gas, price, prio, value, to, data, acl) = unsigned(t);
    let s = t.transaction.signature.clone().unwrap();
    let eth = s.r.len() + s.s.len() + 1 == 65;
    let rs = |b: &[u8]| if eth { q(U256::from_big_endian(b)) } else { d(b) };
    let v = match t.transaction.chain_id { Some(c) => c as u128 * 2 + 35 + s.standard_v as u128, None => 27 + s.standard_v as u128 };
    let mut j = json!({"type": q(ty), "hash": da(t.transaction.hash), "nonce": q(nonce.as_u64()), "from": da(t.sender), "to": to.map(da), "value": q(value), "gas": q(gas.as_u64()), "gasPrice": q(price.as_u64()),
        "raw": d(&t.transaction.encode().unwrap()), "input": d(&data), "publicKey": t.public.map(da), "accessList": acl, "chainId": t.transaction.chain_id.map(q), "v": q(v as u64), "r": rs(&s.r), "s": rs(&s.s),
        "blockNumber": at.map(|x| q(x.0)), "blockHash": at.map(|x| da(x.1)), "transactionIndex": at.map(|x| q(x.2))});
    if let Some(p) = prio { j["maxPriorityFeePerGas"] = json!(q(p.as_u64())); }
    j
}
fn block_json(b: &Block, m: &Data, rich: bool) -> Value {
    let h = &b.header;
    let txs: Vec<Value> = b.tx_hashes.iter().enumerate().map(|(i, t)| if rich { tx_json(&m.tx(t).unwrap(), Some((h.number, b.hash(), i as u64))) } else { json!(da(t)) }).collect();
    json!({"hash": da(b.hash()), "parentHash": da(h.prev_hash), "sha3Uncles": da(Hasher::digest([0xc0])), "author": da(h.proposer), "miner": da(h.proposer), "stateRoot": da(h.state_root), "transactionsRoot": da(h.transactions_root),
        "receiptsRoot": da(h.receipts_root), "number": q(h.number), "gasUsed": q(h.gas_used.as_u64()), "gasLimit": q(h.gas_limit.as_u64()), "extraData": d(&rlp::encode_list(&h.extra_data)), "logsBloom": da(h.log_bloom),
        "timestamp": q(h.timestamp), "difficulty": "0x1", "baseFeePerGas": q(h.base_fee_per_gas.as_u64()), "uncles": [], "size": q(h.encode().unwrap().len() as u64), "transactions": txs})
}
fn log_json(l: &Log, i: usize, rc: &Receipt) -> Value {
    json!({"address": da(l.address), "topics": l.topics.iter().map(da).collect::<Vec<_>>(), "data": d(&l.data), "blockNumber": q(rc.block_number), "blockHash": da(rc.block_hash), "transactionHash": da(rc.tx_hash),
        "transactionIndex": q(rc.tx_index), "logIndex": q(i as u64), "removed": false})
}
fn receipt_json(rc: &Receipt, t: &SignedTransaction) -> Value {
    let (ty, _, _, price, _, _, to, _, _) = unsigned(t);
    json!({"blockNumber": q(rc.block_number), "blockHash": da(rc.block_hash), "contractAddress": rc.code_address.map(|a| d(&a.as_bytes()[12..])), "effectiveGasPrice": q(price.as_u64()), "from": da(rc.sender), "gasUsed": q(rc.used_gas.as_u64()),
        "logs": rc.logs.iter().enumerate().map(|(i, l)| log_json(l, i, rc)).collect::<Vec<_>>(), "logsBloom": da(rc.logs_bloom), "root": da(rc.state_root),
        "status": if matches!(rc.ret, ExitReason::Succeed(_)) { "0x1" } else { "0x0" }, "to": to.map(da), "transactionHash": da(rc.tx_hash), "transactionIndex": q(rc.tx_index), "type": q(ty)})
}

// ---- log filters, from the JSON-RPC description of eth_getLogs
struct LogQuery { addresses: Option<Vec<H160>>, topics: Vec<Option<Vec<Option<H256>>>>, json: serde_json::Map<String, Value> }
fn log_query(r: &mut Rng) -> LogQuery {
    let mut j = serde_json::Map::new();
    let addresses = match r.below(4) {
        0 => { if r.bool() { j.insert("address".into(), Value::Null); } None }
        1 => { let a = small_address(r); j.insert("address".into(), json!(da(a))); Some(vec![a]) }
        2 => { let a: Vec<H160> = (0..r.range(1, 3)).map(|_| small_address(r)).collect(); j.insert("address".into(), json!(a.iter().map(da).collect::<Vec<_>>())); Some(a) }
        _ => None,
    };
    let topics: Vec<Option<Vec<Option<H256>>>> = (0..if r.bool() { r.below(2) } else { r.below(5) }).map(|_| match r.below(4) { 0 => None, 1 => Some(vec![Some(topic(r))]), _ => Some((0..r.range(1, 3)).map(|_| if r.one_in(8) { None } else { Some(topic(r)) }).collect()) }).collect();
    if !topics.is_empty() || r.bool() {
        let v: Vec<Value> = topics.iter().map(|t| match t { None => Value::Null, Some(l) if l.len() == 1 && l[0].is_some() && r.bool() => json!(da(l[0].unwrap())), Some(l) => json!(l.iter().map(|x| x.map(da)).collect::<Vec<_>>()) }).collect();
        j.insert("topics".into(), json!(v));
    }
    LogQuery { addresses, topics, json: j }
}
fn wanted(l: &Log, f: &LogQuery) -> bool {
    f.addresses.as_ref().map_or(true, |a| a.contains(&l.address)) && l.topics.len() >= f.topics.len()
        && f.topics.iter().zip(&l.topics).all(|(want, t)| match want { None => true, Some(l) => l.iter().any(|x| x.map_or(true, |x| x == *t)) })
}
fn logs_of(m: &Data, from: u64, to: u64, f: &LogQuery) -> Vec<Value> {
    let mut v = vec![];
    for n in from..=to { for h in &m.blocks[n as usize].tx_hashes { let rc = &m.receipts[h]; for (i, l) in rc.logs.iter().enumerate() { if wanted(l, f) { v.push(log_json(l, i, rc)); } } } }
    v
}
fn err_code<T: std::fmt::Debug>(x: Result<T, jsonrpsee_types::ErrorObjectOwned>, what: &str) -> Result<i32, String> { match x { Ok(v) => Err(format!("{}: answered {:?}", what, v).chars().take(400).collect()), Err(e) => Ok(e.code()) } }
fn ok<T>(x: Result<T, jsonrpsee_types::ErrorObjectOwned>, what: &str) -> Result<T, String> { x.map_err(|e| format!("{}: {} {}", what, e.code(), e.message())) }
const INTERNAL: i32 = -49999;

