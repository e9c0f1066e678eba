//! An in-memory database (see stubs/rocksdb.rs) under the executor's system contracts.
#![allow(dead_code)]
use core_db::RocksAdapter;
use core_executor::system_contract::init_system_contract_db;
use protocol::types::{MemoryBackend, MemoryVicinity, H160, U256};
use std::collections::BTreeMap;
pub fn vicinity(number: u64) -> MemoryVicinity {
    MemoryVicinity { gas_price: U256::zero(), origin: H160::default(), block_hashes: vec![], block_number: number.into(), block_coinbase: Default::default(), block_timestamp: Default::default(), block_difficulty: Default::default(), block_gas_limit: Default::default(), chain_id: U256::one(), block_base_fee_per_gas: U256::zero() }
}
pub fn db(name: &str) -> RocksAdapter {
    let p = std::env::temp_dir().join(format!("axv-{}-{}", name, std::process::id()));
    let a = RocksAdapter::new(&p, Default::default()).unwrap();
    let _ = std::fs::remove_dir(&p);
    a
}
pub fn open(name: &str) {
    let v = vicinity(0);
    let mut b = MemoryBackend::new(&v, BTreeMap::new());
    init_system_contract_db(db(name).inner_db(), &mut b);
}
