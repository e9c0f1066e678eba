//@extern protocol=axon_protocol common_config_parser core_db core_executor core_storage core_interoperation common_crypto rlp rocksdb clap log
//@snippet c28.rs core/run/src/lib.rs :: fn execute_genesis ; fn execute_genesis_transactions
// C28: from the text of a chain specification to the stored genesis block and its state, by the code of core/run.
#[path = "common.rs"] mod axv;
#[path = "gen.rs"] mod gen;
#[path = "gen_tx.rs"] mod gen_tx;
#[path = "/repo/core/run/src/components/chain_spec.rs"] #[allow(dead_code)] mod chain_spec;
#[path = "/repo/core/run/src/components/storage.rs"] #[allow(dead_code)] mod storage;
use axv::*;
use chain_spec::ChainSpecExt as _;
use clap::builder::TypedValueParser as _;
use common_config_parser::types::spec::*;
use common_config_parser::types::ConfigRocksDB;
use common_crypto::{PrivateKey as _, Secp256k1PrivateKey, ToPublicKey as _, PublicKey as _, UncompressedPublicKey as _};
use core_executor::system_contract::{self, metadata::MetadataHandle};
use core_executor::{AxonExecutor, AxonExecutorApplyAdapter, AxonExecutorReadOnlyAdapter, MPTTrie};
use protocol::codec::ProtocolCodec as _;
use protocol::traits::*;
use protocol::trie::{PatriciaTrie, Trie, DB as TrieDB};
use protocol::types::*;
use protocol::{tokio, ProtocolResult};
use std::collections::BTreeMap;
use std::sync::Arc;
use storage::{DatabaseGroup, StorageExt as _, TrieExt as _};

include!(concat!(env!("AXV_GEN"), "/c28.rs"));

fn hexs(b: &[u8]) -> String { format!("0x{}", hex(b)) }
/// EIP-55, from its text
fn checksummed(a: &[u8]) -> String {
    let t = hex(a);
    let d = Hasher::digest(t.as_bytes());
    let s: String = t.chars().enumerate().map(|(i, c)| { let n = d.0[i / 2] >> (4 * (1 - i % 2)) & 15; if n >= 8 { c.to_ascii_uppercase() } else { c } }).collect();
    format!("0x{}", s)
}
struct Spec { time: u64, base: u64, chain: u64, forks: Vec<&'static str>, accounts: Vec<(H160, U256)>, epoch: u64, start: u64, end: u64, nums: [u64; 8], limit: Option<u64>, vals: Vec<(Vec<u8>, Vec<u8>, u32, u32)> }
const NAMES: [&str; 8] = ["propose_ratio", "prevote_ratio", "precommit_ratio", "brake_ratio", "tx_num_limit", "max_tx_size", "gas_limit", "interval"];
/// the numbers of a TOML file are below 2^63
fn num(r: &mut Rng) -> u64 { r.int() >> 1 }
fn balance(r: &mut Rng) -> U256 { match r.below(5) { 0 => U256::zero(), 1 => U256::from(r.int()), 2 => U256::MAX, 3 => U256::one() << r.below(256) as usize, _ => U256::from_big_endian(&r.bytes(32)) } }
fn spec(r: &mut Rng) -> Spec {
    let n = r.below(5);
    let mut accounts: Vec<(H160, U256)> = (0..n).map(|_| (gen::h160(r), balance(r))).collect();
    if n > 1 && r.one_in(4) { accounts[1].0 = accounts[0].0; }
    if n > 0 && r.one_in(8) { let mut a = [0xff; 20]; a[19] = r.below(5) as u8; accounts[0].0 = H160(a); }
    let start = if r.one_in(4) { r.below(3) } else { 1 };
    let forks = match r.below(4) { 0 => vec![], 1 => vec!["None"], 2 => vec!["Andromeda"], _ => { let mut v = vec!["None", "Andromeda"]; if r.bool() { v.push("Andromeda"); } r.shuffle(&mut v); v } };
    let mut nums = [0; 8];
    for k in nums.iter_mut() { *k = num(r); }
    let m = r.below(4);
    let vals = (0..m).map(|_| { let k = gen_tx::key(r); let w = |r: &mut Rng| r.int() as u32; (r.bytes(48), if r.bool() { k.pub_key().to_bytes().to_vec() } else { k.pub_key().to_uncompressed_bytes().to_vec() }, w(r), w(r)) }).collect();
    Spec { time: num(r), base: r.int(), chain: num(r), forks, accounts, epoch: 0, start, end: start.max(1) + match r.below(3) { 0 => r.below(3), 1 => r.below(1000), _ => num(r) >> 2 }, nums, limit: if r.bool() { None } else { Some(num(r)) }, vals }
}
impl Spec {
    fn forked(&self) -> bool { self.forks.is_empty() || self.forks.contains(&"Andromeda") }
    fn text(&self, r: &mut Rng) -> String {
        let mut g = vec![format!("timestamp = {}", self.time), format!("base_fee_per_gas = \"{:#x}\"", self.base), format!("chain_id = {}", if r.bool() { self.chain.to_string() } else { format!("{:#x}", self.chain) }), format!("hardforks = {:?}", self.forks)];
        r.shuffle(&mut g);
        let mut parts = vec![format!("[genesis]\n{}\n", g.join("\n"))];
        if self.accounts.is_empty() { parts.insert(0, "accounts = []\n".into()); }
        for (a, b) in &self.accounts { parts.push(format!("[[accounts]]\naddress = \"{}\"\nbalance = \"{}\"\n", checksummed(a.as_bytes()), if r.bool() { format!("{:#x}", b) } else { format!("{:x}", b) })); }
        parts.push(format!("[params]\nepoch = {}\n{}[params.version]\nstart = {}\nend = {}\n", self.epoch, if self.vals.is_empty() { "verifier_list = []\n" } else { "" }, self.start, self.end));
        let mut c: Vec<String> = NAMES.iter().zip(self.nums.iter()).map(|(n, v)| format!("{} = {}", n, v)).collect();
        if let Some(l) = self.limit { c.push(format!("max_contract_limit = {}", l)); }
        r.shuffle(&mut c);
        parts.push(format!("[params.consensus_config]\n{}\n", c.join("\n")));
        for v in &self.vals { parts.push(format!("[[params.verifier_list]]\nbls_pub_key = \"{}\"\npub_key = \"{}\"\npropose_weight = {}\nvote_weight = {}\n", hexs(&v.0), hexs(&v.1), v.2, v.3)); }
        parts.join("\n")
    }
}
fn dir() -> std::path::PathBuf { let p = std::env::temp_dir().join(format!("axv-c28-{}", std::process::id())); std::fs::create_dir_all(&p).unwrap(); p }
fn parse(text: &str) -> Result<ChainSpec, String> {
    let p = dir().join("spec.toml");
    std::fs::write(&p, text).unwrap();
    ChainSpecValueParser.parse_ref(&clap::Command::new("axon"), None, p.as_os_str()).map_err(|e| e.to_string())
}
fn read_key(text: &str) -> Result<Vec<u8>, String> { PrivateKeyDataValueParser.parse_ref(&clap::Command::new("axon"), None, text.as_ref()).map(|k| k.as_ref().to_vec()).map_err(|e| e.to_string()) }
fn read_key_file(data: &[u8]) -> Result<Vec<u8>, String> {
    let p = dir().join("key");
    std::fs::write(&p, data).unwrap();
    PrivateKeyFileValueParser.parse_ref(&clap::Command::new("axon"), None, p.as_os_str()).map(|k| k.as_ref().to_vec()).map_err(|e| e.to_string())
}
struct Built { db: DatabaseGroup, rich: RichBlock, meta: H256 }
fn build(s: &ChainSpec, rt: &tokio::runtime::Runtime) -> Built {
    let p = dir().join("db");
    let db = DatabaseGroup::new(&ConfigRocksDB::default(), &p, true, 100).unwrap();
    let _ = std::fs::remove_dir_all(&p);
    let rich = rt.block_on(execute_genesis(s.generate_genesis_block(), s, &db)).unwrap();
    let meta = adapter(&db, &rich.block.header).get_metadata_root();
    Built { db, rich, meta }
}
fn adapter(db: &DatabaseGroup, h: &Header) -> AxonExecutorReadOnlyAdapter<core_storage::ImplStorage<core_db::RocksAdapter>, core_executor::RocksTrieDB> {
    AxonExecutorReadOnlyAdapter::from_root(h.state_root, db.trie_db(), db.storage(), Proposal::new_without_state_root(h).into()).unwrap()
}
fn bloom() -> Bloom { Bloom::from(BloomInput::Raw(&rlp::encode_list::<Bloom, Bloom>(&[]))) }

fn main() {
    let mut h = H::new();
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(1).enable_all().build().unwrap();
    h.check("genesis", 400, |r, d| {
        let s = spec(r);
        let text = s.text(r);
        *d = text.replace('\n', " ");
        let c = parse(&text)?;
        let head = c.genesis.build_header();
        let want = Header { transactions_root: RLP_NULL, signed_txs_hash: RLP_EMPTY_LIST, timestamp: s.time, base_fee_per_gas: s.base.into(), chain_id: s.chain, ..Header::default() };
        ensure_eq!(head, want, "header");
        ensure_eq!(c.genesis.build_header(), head, "a second header");
        let fork = c.genesis.generate_hardfork_info();
        let mut flags = [0; 32];
        if s.forked() { flags[24] = 1; }
        ensure_eq!(fork, HardforkInfoInner { block_number: 0, flags: H256(flags) }, "hard fork of the genesis");
        let b = build(&c, &rt);
        // the block
        let g = &b.rich.block.header;
        let want = Header { state_root: g.state_root, receipts_root: RLP_NULL, log_bloom: bloom(), ..want };
        ensure_eq!(*g, want, "genesis header");
        ensure!(b.rich.txs.is_empty() && b.rich.block.tx_hashes.is_empty(), "genesis transactions");
        let st = b.db.storage();
        ensure_eq!(rt.block_on(st.get_block(Context::new(), 0)).unwrap(), Some(b.rich.block.clone()), "stored block");
        ensure_eq!(rt.block_on(st.get_latest_block(Context::new())).unwrap(), b.rich.block, "latest block");
        ensure_eq!(rt.block_on(st.get_latest_proof(Context::new())).unwrap(), g.proof, "latest proof");
        // the state
        let t = PatriciaTrie::from(b.db.trie_db(), Arc::new(HasherKeccak::new()), g.state_root.as_bytes()).unwrap();
        let got: BTreeMap<Vec<u8>, Account> = t.iter().map(|(k, v)| (k, Account::decode(v).unwrap())).collect();
        let system: Vec<H160> = (1..4).map(|i| { let mut a = [0xff; 20]; a[19] = i; H160(a) }).collect();
        let mut want: BTreeMap<H160, U256> = system.iter().map(|a| (*a, U256::zero())).collect();
        for (a, x) in &s.accounts { want.insert(*a, *x); }
        ensure_eq!(got.len(), want.len(), "accounts in the state");
        for (a, x) in &want {
            let k = Hasher::digest(a.as_bytes()).as_bytes().to_vec();
            let v = got.get(&k).ok_or(format!("no account {:?}", a))?;
            ensure_eq!(v.balance, *x, "balance of {:?}", a);
            let system = system.contains(a);
            ensure!(v.nonce.is_zero() && v.code_hash == NIL_DATA && (system || v.storage_root == RLP_NULL), "account {}: {:?}", hexs(&k), v);
        }
        // the metadata
        let m = MetadataHandle::new(b.meta);
        ensure_eq!(m.hardfork_infos().unwrap(), HardforkInfo { inner: vec![fork] }, "recorded hard forks");
        let vals: Vec<ValidatorExtend> = s.vals.iter().map(|v| ValidatorExtend { bls_pub_key: Hex::encode(&v.0), pub_key: Hex::encode(&v.1), address: Address::from_pubkey_bytes(&v.1).unwrap().0, propose_weight: v.2, vote_weight: v.3 }).collect();
        let mut counter: Vec<ProposeCount> = vals.iter().map(|v| (v.address, 0u64)).collect::<BTreeMap<_, _>>().into_iter().map(Into::into).collect();
        counter.sort_by_key(|x| x.address);
        let [propose_ratio, prevote_ratio, precommit_ratio, brake_ratio, tx_num_limit, max_tx_size, gas_limit, interval] = s.nums;
        let limit = s.limit.unwrap_or(0x6000);
        for e in 0..2 {
            let mut x = m.get_metadata_by_epoch(e).map_err(|x| format!("epoch {}: {}", e, x))?;
            // (the limit is the business of the check below)
            ensure!(x.consensus_config.max_contract_limit == limit || x.consensus_config.max_contract_limit == 0x6000, "contract limit {}", x.consensus_config.max_contract_limit);
            x.consensus_config.max_contract_limit = limit;
            let (start, end) = if e == 0 { (s.start, s.end) } else { (s.end + 1, s.end + s.end) };
            let want = Metadata { version: MetadataVersion { start, end }, epoch: e, verifier_list: vals.clone(), propose_counter: counter.clone(), consensus_config: ConsensusConfig { gas_limit, interval, propose_ratio, prevote_ratio, precommit_ratio, brake_ratio, tx_num_limit, max_tx_size, max_contract_limit: limit } };
            ensure_eq!(x, want, "metadata of epoch {}", e);
            if s.start == 1 { for n in [start, end] { ensure_eq!(m.get_metadata_by_block_number(n).unwrap().epoch, e, "epoch of block {}", n); } }
        }
        if s.limit.is_some() && s.forked() { return Ok(()); }
        // and again
        let other = build(&parse(&s.text(r))?, &rt);
        ensure_eq!(other.rich.block, b.rich.block, "the same specification, another genesis");
        Ok(())
    });
    // known: the configuration of genesis is stored in the form that has no limit of contract sizes
    h.once("contract_limit_at_genesis", "hardforks = [\"Andromeda\"], max_contract_limit = 65536", || {
        let s = Spec { time: 0, base: 1337, chain: 5, forks: vec!["Andromeda"], accounts: vec![], epoch: 0, start: 1, end: 100, nums: [10; 8], limit: Some(65536), vals: vec![] };
        let b = build(&parse(&s.text(&mut Rng::new(1)))?, &rt);
        ensure_eq!(MetadataHandle::new(b.meta).get_metadata_by_epoch(0).unwrap().consensus_config.max_contract_limit, 65536, "the configured limit of contract sizes");
        Ok(())
    });
    h.check("numbers", 600, |r, d| {
        let s = spec(r);
        let n = r.range(1, 70) as usize;
        let mut t: String = (0..n).map(|_| *r.pick(&['0', '1', '7', '9', 'a', 'f', 'A', 'F'])).collect();
        if r.one_in(4) { let i = r.below(n as u64) as usize; t.replace_range(i..i + 1, *r.pick(&["g", "-", "/", ":", "@", "`", "x", "."])); }
        if t.starts_with("0x") { return Ok(()); }
        let v = t.trim_start_matches('0');
        let want = if t.chars().all(|c| c.is_ascii_hexdigit()) { Some(v) } else { None };
        let text = Spec { accounts: vec![(H160::zero(), U256::from(0x123321))], base: 0x456654, ..s }.text(r).replace("0x123321", "123321");
        let pre = if r.bool() { "0x" } else { "" };
        *d = format!("{}{}", pre, t);
        let b = parse(&text.replace("123321", d)).ok().map(|c| format!("{:x}", c.accounts[0].balance));
        let f = parse(&text.replace("0x456654", d)).ok().map(|c| format!("{:x}", c.genesis.base_fee_per_gas));
        let exp = |max: usize| want.filter(|v| v.len() <= max).map(|v| if v.is_empty() { "0".to_string() } else { v.to_lowercase() });
        // (the library that reads the numbers skips white space in them) leading zeros may be too many; never a wrong number
        ensure!(b == exp(64) || b.is_none() && t.len() > 64, "balance {:?}", b);
        ensure!(f == exp(16) || f.is_none() && t.len() > 16, "base fee {:?}", f);
        Ok(())
    });
    h.check("spec_text", 400, |r, d| {
        let s = spec(r);
        let a = checksummed(gen::h160(r).as_bytes());
        let mut t = a.clone();
        let at = 2 + r.below(40) as usize;
        let c = t.as_bytes()[at] as char;
        let swap = |t: &str, c: char| format!("{}{}{}", &t[..at], c, &t[at + 1..]);
        let mut good = false;
        match r.below(9) {
            0 => t = swap(&t, *r.pick(&['g', ' ', ':', '`', '@', '/'])), 1 => t = swap(&t, if c.is_uppercase() { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() }),
            2 => { t.remove(at); } 3 => t.insert(at, 'a'), 4 => t = format!("0x{}", t), 5 => t = t[2..].to_string(), 6 => t = t.to_uppercase(), 7 => t = swap(&t, 'é'), _ => good = true,
        }
        if t == a { good = true; }
        let text = format!("{}\n[[accounts]]\naddress = \"{}\"\nbalance = \"1\"\n", Spec { accounts: vec![(H160::zero(), U256::zero())], ..s }.text(r), t);
        *d = t.clone();
        match parse(&text) {
            Ok(c) => { ensure_eq!(hexs(c.accounts[1].address.as_bytes()), a.to_lowercase(), "address"); ensure!(good || t == a[2..], "accepted"); }
            Err(e) => ensure!(!good, "refused: {}", e),
        }
        Ok(())
    });
    h.check("missing", 100, |r, d| {
        let t = spec(r).text(r);
        let lines: Vec<&str> = t.lines().filter(|l| !l.is_empty()).collect();
        let at: Vec<usize> = (0..lines.len()).filter(|i| !lines[*i].contains("max_contract_limit")).collect();
        let k = *r.pick(&at);
        *d = format!("without `{}`", lines[k]);
        // an account or validator may lack its heading only if the field moves to a table that has none
        let rest: Vec<&str> = lines.iter().enumerate().filter(|(i, _)| *i != k).map(|(_, l)| *l).collect();
        ensure!(lines[k].starts_with("[[") || parse(&rest.join("\n")).is_err(), "accepted");
        Ok(())
    });
    h.check("keys", 2000, |r, d| {
        let k = r.bytes(32);
        let mut t: String = hex(&k).chars().map(|c| if r.one_in(3) { c.to_ascii_uppercase() } else { c }).collect();
        let mut good = true;
        match r.below(10) {
            0 => { t.pop(); good = false; } 1 => { t.push('0'); good = false; } 2 => { let i = r.below(64) as usize; t.replace_range(i..i + 1, *r.pick(&["g", "-", " ", "/", ":", "@", "`", "x"])); good = false; }
            3 => { t.truncate(62); t.push('é'); good = false; } 4 => { t.truncate(2 * r.below(32) as usize); good = false; } _ => {}
        }
        let p = match r.below(8) { 0 => { good = false; "" } 1 => "0X", 2 => { good = false; "0x0x" } 3 => { good = false; "x0" } _ => "0x" };
        let t = format!("{}{}", p, t);
        *d = t.clone();
        match read_key(&t) { Ok(x) => { ensure!(good, "accepted"); ensure_eq!(x, k, "key"); } Err(e) => ensure!(!good, "refused: {}", e) }
        Ok(())
    });
    h.check("key_files", 300, |r, d| {
        let n = match r.below(4) { 0 => r.below(70), 1 => 31, 2 => 33, _ => 32 };
        let k = r.bytes(n as usize);
        *d = hexs(&k);
        match read_key_file(&k) { Ok(x) => { ensure!(n == 32, "accepted"); ensure_eq!(x, k, "key"); } Err(e) => ensure!(n != 32, "refused: {}", e) }
        Ok(())
    });
    h.check("key_args", 200, |r, d| {
        #[derive(clap::Parser)]
        struct Cli { #[command(flatten)] key: PrivateKey }
        let k = match r.below(6) { 0 => vec![0; 32], 1 => vec![0xff; 32], _ => r.bytes(32) };
        let (cli, file) = (r.bool(), r.bool());
        let f = dir().join("key");
        std::fs::write(&f, &k).unwrap();
        let t = hexs(&k);
        let mut a = vec!["axon"];
        if cli { a.extend(["-k", &t]); }
        if file { a.extend(["--key-file", f.to_str().unwrap()]); }
        *d = a.join(" ");
        let want = if cli != file { Secp256k1PrivateKey::try_from(k.as_slice()).ok() } else { None };
        let got = <Cli as clap::Parser>::try_parse_from(a).ok().and_then(|c| c.key.data().ok());
        ensure_eq!(got.map(|x| x.pub_key().to_bytes()), want.map(|x| x.pub_key().to_bytes()), "public key of the key");
        Ok(())
    });
    let _ = std::fs::remove_dir_all(dir());
    h.finish()
}
