//! A small chain on the real engine: real storage (in memory, see stubs/rocksdb.rs), trie, executor, consensus
//! adapter, engine and synchronization; only the transaction pool and the network are stand-ins.
#![allow(dead_code)]
use crate::axv::Rng;
use crate::{gen, gen_tx, store};
use common_crypto::{BlsPrivateKey, BlsPublicKey, BlsSignature, HashValue, PrivateKey, Secp256k1PrivateKey, Secp256k1RecoverablePrivateKey, Signature, ToBlsPublicKey, ToPublicKey};
use core_consensus::engine::{generate_new_crypto_map, ConsensusEngine};
use core_consensus::status::{CurrentStatus, StatusAgent};
use core_consensus::stop_signal::StopSignal;
use core_consensus::util::OverlordCrypto;
use core_consensus::{ConsensusWal, OverlordConsensusAdapter, OverlordSynchronization, SignedTxsWAL};
use core_db::RocksAdapter;
use core_executor::{system_contract, AxonExecutor, AxonExecutorApplyAdapter, MPTTrie, RocksTrieDB};
use core_storage::ImplStorage;
use overlord::Consensus as _;
use protocol::codec::ProtocolCodec as _;
use protocol::tokio;
use protocol::traits::*;
use protocol::trie::Trie as _;
use protocol::types::*;
use protocol::{async_trait, ProtocolError, ProtocolResult};
use std::collections::HashMap;
use std::sync::{Arc, Mutex};

pub const CHAIN: u64 = 5;
pub const EPOCH: u64 = 3;
/// the system contracts keep one database per process
fn shared() -> &'static (RocksAdapter, Arc<RocksTrieDB>) {
    static D: std::sync::OnceLock<(RocksAdapter, Arc<RocksTrieDB>)> = std::sync::OnceLock::new();
    D.get_or_init(|| { let d = store::db("chain"); let t = Arc::new(RocksTrieDB::new_evm(d.inner_db(), 1000)); (d, t) })
}
/// the database the CKB light client and the image cell contract keep
#[allow(dead_code)]
pub fn cells_db() -> Arc<RocksTrieDB> { Arc::new(RocksTrieDB::new_ckb_light_client(shared().0.inner_db(), 100)) }
fn no(m: &str) -> ProtocolError { core_consensus::ConsensusError::Other(m.to_string()).into() }

#[derive(Default)]
pub struct Pool { pub txs: Mutex<HashMap<Hash, SignedTransaction>>, pub next: Mutex<Vec<Hash>> }
#[async_trait]
impl MemPool for Pool {
    async fn insert(&self, _: Context, tx: SignedTransaction) -> ProtocolResult<()> { self.txs.lock().unwrap().insert(tx.transaction.hash, tx); Ok(()) }
    async fn contains(&self, _: Context, h: &Hash) -> bool { self.txs.lock().unwrap().contains_key(h) }
    async fn package(&self, _: Context, _: U256, _: u64) -> ProtocolResult<PackedTxHashes> { Ok(PackedTxHashes { hashes: self.next.lock().unwrap().clone(), call_system_script_count: 0 }) }
    async fn flush(&self, _: Context, _: &[Hash], _: BlockNumber) -> ProtocolResult<()> { Ok(()) }
    async fn get_full_txs(&self, _: Context, _: Option<u64>, hs: &[Hash]) -> ProtocolResult<Vec<SignedTransaction>> {
        let m = self.txs.lock().unwrap();
        hs.iter().map(|h| m.get(h).cloned().ok_or_else(|| no("unknown transaction"))).collect()
    }
    async fn ensure_order_txs(&self, c: Context, n: Option<u64>, hs: &[Hash]) -> ProtocolResult<()> { self.get_full_txs(c, n, hs).await.map(|_| ()) }
    async fn get_tx_count_by_address(&self, _: Context, _: H160) -> ProtocolResult<(usize, Option<BlockNumber>)> { Ok((0, None)) }
    fn get_tx_from_mem(&self, _: Context, h: &Hash) -> Option<SignedTransaction> { self.txs.lock().unwrap().get(h).cloned() }
    fn set_args(&self, _: Context, _: MerkleRoot, _: u64, _: u64) {}
}

type Answer = Box<dyn Fn(&str, Bytes) -> Option<Bytes> + Send + Sync>;
#[derive(Default)]
pub struct Net { pub answer: Mutex<Option<Answer>> }
#[async_trait]
impl Gossip for Net {
    async fn broadcast<M: MessageCodec>(&self, _: Context, _: &str, _: M, _: Priority) -> ProtocolResult<()> { Ok(()) }
    async fn gossip<M: MessageCodec>(&self, _: Context, _: Option<usize>, _: &str, _: M, _: Priority) -> ProtocolResult<()> { Ok(()) }
    async fn multicast<'a, M: MessageCodec, P: AsRef<[Bytes]> + Send + 'a>(&self, _: Context, _: &str, _: P, _: M, _: Priority) -> ProtocolResult<()> { Ok(()) }
}
#[async_trait]
impl Rpc for Net {
    async fn call<M: MessageCodec, R: MessageCodec>(&self, _: Context, end: &str, mut msg: M, _: Priority) -> ProtocolResult<R> {
        let q = msg.encode_msg()?;
        let a = self.answer.lock().unwrap().as_ref().and_then(|f| f(end, q)).ok_or_else(|| no("no answer"))?;
        R::decode_msg(a)
    }
    async fn response<M: MessageCodec>(&self, _: Context, _: &str, _: ProtocolResult<M>, _: Priority) -> ProtocolResult<()> { Ok(()) }
}
impl Network for Net {
    fn tag(&self, _: Context, _: Bytes, _: PeerTag) -> ProtocolResult<()> { Ok(()) }
    fn untag(&self, _: Context, _: Bytes, _: &PeerTag) -> ProtocolResult<()> { Ok(()) }
    fn tag_consensus(&self, _: Context, _: Vec<Bytes>) -> ProtocolResult<()> { Ok(()) }
    fn peer_count(&self, _: Context) -> ProtocolResult<usize> { Ok(1) }
}
impl PeerTrust for Net { fn report(&self, _: Context, _: TrustFeedback) {} }

pub type Store = ImplStorage<RocksAdapter>;
pub type Adapter = OverlordConsensusAdapter<Pool, Net, Store, RocksTrieDB>;
pub struct Validator { pub ext: ValidatorExtend, pub bls: Vec<u8> }
pub struct World {
    pub validators: Vec<Validator>,
    /// vote weights per epoch
    pub weights:    [Vec<u32>; 2],
    pub genesis:    Block,
    /// the blocks after the genesis block, their transactions and receipts and the proof of each
    pub blocks:     Vec<(Block, Vec<SignedTransaction>, Vec<Receipt>, Proof)>,
    pub proposals:  Vec<Proposal>,
    pub accounts:   Vec<Secp256k1RecoverablePrivateKey>,
    pub trie:       Arc<RocksTrieDB>,
    pub rt:         tokio::runtime::Runtime,
    pub dir:        std::path::PathBuf,
    seq:            std::cell::Cell<u64>,
}
pub struct Node { pub store: Arc<Store>, pub pool: Arc<Pool>, pub net: Arc<Net>, pub adapter: Arc<Adapter>, pub engine: Arc<ConsensusEngine<Adapter>>, overlord: overlord::Overlord<Proposal, ConsensusEngine<Adapter>, OverlordCrypto, ConsensusEngine<Adapter>>, pub status: StatusAgent, pub sync: OverlordSynchronization<Adapter>, pub info: NodeInfo, pub dir: std::path::PathBuf, rx: tokio::sync::oneshot::Receiver<()> }
impl Drop for Node { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.dir); } }
impl Drop for World { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.dir); } }

pub fn now() -> u64 { core_consensus::util::time_now() }
pub fn transfer(r: &mut Rng, k: &Secp256k1RecoverablePrivateKey, nonce: u64, to: H160, value: u64) -> SignedTransaction {
    let logs = r.one_in(2);
    let mut t = UnverifiedTransaction {
        unsigned: UnsignedTransaction::Legacy(LegacyTransaction {
            nonce: nonce.into(), gas_price: r.range(1, 3000).into(), gas_limit: r.range(90_000, 200_000).into(), value: value.into(),
            action: if logs { TransactionAction::Create } else { TransactionAction::Call(to) },
            data: if logs { vec![0x60, r.u8(), 0x60, 0, 0x52, 0x60, r.below(5) as u8, 0x60, 0x20, 0x60, 0, 0xa1, 0].into() } else { Default::default() },
        }), signature: None, chain_id: Some(CHAIN), hash: H256::zero() };
    gen_tx::sign(&mut t, k);
    t.hash = t.get_hash();
    let (p, a) = gen_tx::account(k);
    SignedTransaction { transaction: t, sender: a, public: Some(p) }
}

impl World {
    /// a chain of `n` blocks after genesis, with `v` validators
    pub fn new(name: &str, r: &mut Rng, v: usize, n: u64) -> World {
        protocol::lazy::CHAIN_ID.swap(Arc::new(CHAIN));
        let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(1).enable_all().build().unwrap();
        let dir = std::env::temp_dir().join(format!("axv-{}-{}-{}", name, std::process::id(), r.u64()));
        std::fs::create_dir_all(&dir).unwrap();
        let (db, trie) = shared();
        let trie = Arc::clone(trie);
        let mut validators = vec![];
        let same = r.one_in(4);
        for _ in 0..v {
            let k = loop { let b: Vec<u8> = (0..32).map(|_| r.u64() as u8).collect(); if Secp256k1PrivateKey::try_from(b.as_slice()).is_ok() { break b; } };
            let mut b: Vec<u8> = (0..32).map(|_| r.u64() as u8).collect();
            b[0] &= 0x3f;
            let bls = BlsPrivateKey::try_from(b.as_slice()).unwrap();
            let pk = Secp256k1PrivateKey::try_from(k.as_slice()).unwrap().pub_key();
            use common_crypto::PublicKey as _;
            let ext = ValidatorExtend { bls_pub_key: Hex::encode(bls.pub_key(&String::new()).to_bytes()), pub_key: Hex::encode(pk.to_bytes()), address: gen::h160(r), propose_weight: 1, vote_weight: if same { 1 } else { r.range(1, 9) as u32 } };
            validators.push(Validator { ext, bls: b });
        }
        let w0: Vec<u32> = validators.iter().map(|v| v.ext.vote_weight).collect();
        let w1: Vec<u32> = if r.bool() { w0.clone() } else { w0.iter().map(|_| r.range(1, 9) as u32).collect() };
        let accounts: Vec<_> = (0..3).map(|_| gen_tx::key(r)).collect();
        let mut w = World { validators, weights: [w0, w1], genesis: Block { header: Header { number: 0, chain_id: CHAIN, timestamp: r.range(1, 1_600_000_000), ..gen_header() }, tx_hashes: vec![] }, blocks: vec![], proposals: vec![], accounts, trie, rt, dir, seq: Default::default() };
        // the genesis state, as in core/run
        let mut t = MPTTrie::new(Arc::clone(&w.trie));
        for k in &w.accounts {
            let a = Account { nonce: U256::zero(), balance: U256::from(10u64).pow(U256::from(20u64)), storage_root: RLP_NULL, code_hash: NIL_DATA };
            t.insert(gen_tx::account(k).1.as_bytes().to_vec(), a.encode().unwrap().to_vec()).unwrap();
        }
        let root = t.commit().unwrap();
        let st = w.storage();
        let mut b = AxonExecutorApplyAdapter::from_root(root, Arc::clone(&w.trie), Arc::clone(&st), Proposal::new_without_state_root(&w.genesis.header).into()).unwrap();
        system_contract::init(db.inner_db(), &mut b, &[w.metadata(0), w.metadata(1)], HardforkInfoInner { block_number: 0, flags: H256::zero() }).unwrap();
        let resp = AxonExecutor.exec(&mut b, &[], &[]);
        w.genesis.header.state_root = resp.state_root;
        w.genesis.header.receipts_root = resp.receipt_root;
        let mut nonces = [0u64; 3];
        let a = w.node(0);
        for k in 1..=n {
            let txs: Vec<SignedTransaction> = (0..r.below(4)).map(|_| { let i = r.below(3) as usize; nonces[i] += 1; let to = gen::h160(r); let v = r.below(1000); transfer(r, &w.accounts[i], nonces[i] - 1, to, v) }).collect();
            for t in &txs { a.pool.txs.lock().unwrap().insert(t.transaction.hash, t.clone()); }
            *a.pool.next.lock().unwrap() = txs.iter().map(|t| t.transaction.hash).collect();
            let (p, hash) = w.rt.block_on(a.engine.get_block(Default::default(), k)).unwrap();
            let all: Vec<usize> = (0..v).collect();
            let proof = w.prove(k, r.below(3), Hash::from_slice(&hash), &all);
            w.commit(&a, k, p.clone(), &proof).unwrap();
            let blk = w.stored(&a, k).unwrap();
            let rs: Vec<Receipt> = w.rt.block_on(a.store.get_receipts(Default::default(), k, &blk.tx_hashes)).unwrap().into_iter().flatten().collect();
            w.blocks.push((blk, txs, rs, proof));
            w.proposals.push(p);
        }
        w
    }
    pub fn metadata(&self, e: u64) -> Metadata {
        let vs = self.validators.iter().zip(&self.weights[e as usize]).map(|(v, w)| ValidatorExtend { vote_weight: *w, ..v.ext.clone() }).collect();
        Metadata { version: MetadataVersion::new(e * EPOCH + 1, (e + 1) * EPOCH), epoch: e, verifier_list: vs, propose_counter: vec![],
            consensus_config: ConsensusConfig { gas_limit: 30_000_000, interval: 0, propose_ratio: 15, prevote_ratio: 10, precommit_ratio: 10, brake_ratio: 10, tx_num_limit: 1000, max_tx_size: 100_000, max_contract_limit: 0x6000 } }
    }
    fn storage(&self) -> Arc<Store> { self.seq.set(self.seq.get() + 1); Arc::new(ImplStorage::new(Arc::new(store::db(&format!("n{}-{}", self.seq.get(), self.dir.file_name().unwrap().to_string_lossy()))), 10)) }
    pub fn block(&self, n: u64) -> &Block { if n == 0 { &self.genesis } else { &self.blocks[n as usize - 1].0 } }
    pub fn proof(&self, n: u64) -> Proof { if n == 0 { self.genesis.header.proof.clone() } else { self.blocks[n as usize - 1].3.clone() } }
    /// a node that has the chain up to block `n`
    pub fn node(&self, n: u64) -> Node {
        let store = self.storage();
        self.rt.block_on(async {
            for k in 0..=n {
                store.update_latest_proof(Context::new(), self.proof(k)).await.unwrap();
                store.insert_block(Context::new(), self.block(k).clone()).await.unwrap();
                if k > 0 {
                    let (b, t, rs, _) = &self.blocks[k as usize - 1];
                    store.insert_transactions(Context::new(), b.header.number, t.clone()).await.unwrap();
                    store.insert_receipts(Context::new(), b.header.number, rs.clone()).await.unwrap();
                }
            }
        });
        let m = self.metadata((n / EPOCH).min(1));
        let crypto = Arc::new(OverlordCrypto::new(BlsPrivateKey::try_from(self.validators[0].bls.as_slice()).unwrap(), generate_new_crypto_map(m).unwrap(), String::new()));
        let (pool, net) = (Arc::new(Pool::default()), Arc::new(Net::default()));
        let adapter = Arc::new(OverlordConsensusAdapter::new(Arc::clone(&net), Arc::clone(&pool), Arc::clone(&store), Arc::clone(&self.trie), Arc::clone(&crypto)).unwrap());
        let b = self.block(n);
        let status = StatusAgent::new(CurrentStatus { prev_hash: b.hash(), last_number: n, last_state_root: b.header.state_root, tx_num_limit: 1000, max_tx_size: 100_000u64.into(), proof: self.proof(n) });
        let dir = self.dir.join(format!("{}", self.seq.get()));
        std::fs::create_dir_all(dir.join("t")).unwrap();
        std::fs::create_dir_all(dir.join("c")).unwrap();
        let lock = Arc::new(tokio::sync::Mutex::new(()));
        let (tx, rx) = tokio::sync::oneshot::channel();
        let pk = { use common_crypto::Secp256k1PublicKey; Secp256k1PublicKey::try_from(self.validators[0].ext.pub_key.as_bytes().as_ref()).unwrap() };
        let mut info = NodeInfo::new(CHAIN, pk, None);
        info.self_address = Address(self.validators[0].ext.address);
        let engine = Arc::new(ConsensusEngine::new(status.clone(), info.clone(), Arc::new(SignedTxsWAL::new(dir.join("t"))), Arc::clone(&adapter), Arc::clone(&crypto), Arc::clone(&lock), Arc::new(ConsensusWal::new(dir.join("c"))), StopSignal::new(tx)));
        let overlord = overlord::Overlord::new(Bytes::new(), Arc::clone(&engine), crypto, Arc::clone(&engine));
        adapter.set_overlord_handler(overlord.get_handler());
        let sync = OverlordSynchronization::new(2, Arc::clone(&adapter), status.clone(), lock);
        Node { store, pool, net, adapter, engine, overlord, status, sync, info, dir, rx }
    }
    pub fn stored(&self, n: &Node, k: u64) -> Option<Block> { self.rt.block_on(n.store.get_block(Default::default(), k)).ok().flatten() }
    /// validators in the order of their keys
    pub fn order(&self) -> Vec<usize> { let mut o: Vec<usize> = (0..self.validators.len()).collect(); o.sort_by_key(|i| self.validators[*i].ext.pub_key.as_bytes()); o }
    pub fn bitmap(&self, who: &[usize]) -> Bytes {
        let mut b = vec![0u8; (self.validators.len() + 7) / 8];
        for (k, i) in self.order().iter().enumerate() { if who.contains(i) { b[k / 8] |= 0x80 >> (k % 8); } }
        b.into()
    }
    pub fn signature(&self, vote: &overlord::types::Vote, who: &[usize]) -> Bytes {
        let h = HashValue::try_from(Hasher::digest(rlp::encode(vote)).as_bytes()).unwrap();
        let s: Vec<(BlsSignature, BlsPublicKey)> = who.iter().map(|i| { let k = BlsPrivateKey::try_from(self.validators[*i].bls.as_slice()).unwrap(); (k.sign_message(&h), k.pub_key(&String::new())) }).collect();
        if s.is_empty() { return Bytes::new(); }
        BlsSignature::combine(s).unwrap().to_bytes()
    }
    /// the proof for a block: the named validators' votes
    pub fn prove(&self, number: u64, round: u64, hash: Hash, who: &[usize]) -> Proof {
        let vote = overlord::types::Vote { height: number, round, vote_type: overlord::types::VoteType::Precommit, block_hash: Bytes::from(hash.as_bytes().to_vec()) };
        Proof { number, round, block_hash: hash, signature: self.signature(&vote, who), bitmap: self.bitmap(who) }
    }
    /// do these validators hold more than two thirds of the weight for the block?
    pub fn quorum(&self, number: u64, who: &[usize]) -> bool {
        let w = &self.weights[((number.max(1) - 1) / EPOCH) as usize];
        let total: u64 = w.iter().map(|x| *x as u64).sum();
        let mut who = who.to_vec(); who.sort(); who.dedup();
        who.iter().map(|i| w[*i] as u64).sum::<u64>() * 3 > total * 2
    }
    pub fn check(&self, n: &Node, number: u64, hash: Bytes, p: Proposal) -> Result<(), String> { self.rt.block_on(n.engine.check_block(Default::default(), number, hash, p)).map_err(|e| e.to_string()) }
    pub fn commit(&self, n: &Node, number: u64, p: Proposal, proof: &Proof) -> Result<(), String> {
        let c = overlord::types::Commit { height: number, content: p, proof: overlord::types::Proof { height: proof.number, round: proof.round, block_hash: Bytes::from(proof.block_hash.as_bytes().to_vec()), signature: overlord::types::AggregatedSignature { signature: proof.signature.clone(), address_bitmap: proof.bitmap.clone() } } };
        self.rt.block_on(n.engine.commit(Default::default(), number, c)).map(|_| ()).map_err(|e| e.to_string())
    }
}
pub fn gen_header() -> Header {
    Header { version: BlockVersion::V0, prev_hash: H256::zero(), proposer: H160::zero(), state_root: H256::zero(), transactions_root: RLP_NULL, signed_txs_hash: H256::zero(), receipts_root: RLP_NULL, log_bloom: Bloom::zero(), timestamp: 0, number: 0, gas_used: U64::zero(), gas_limit: U64::zero(), extra_data: vec![], base_fee_per_gas: 0x539u64.into(), proof: Proof::default(), call_system_script_count: 0, chain_id: CHAIN }
}
