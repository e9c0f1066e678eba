//! Stand-in for common-apm: metrics and tracing that record nothing (its git dependencies are not available offline).
pub use common_apm_derive::{metrics_rpc, trace_span};
pub use std::time::Instant;
#[derive(Clone, Debug, Default)]
pub struct TraceId { pub high: u64, pub low: u64 }
impl std::fmt::Display for TraceId { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{:x}", self.low) } }
pub struct Metric;
impl Metric {
    pub fn inc(&self) {}
    pub fn dec(&self) {}
    pub fn inc_by<T>(&self, _: T) {}
    pub fn set<T>(&self, _: T) {}
    pub fn observe(&self, _: f64) {}
}
pub mod metrics {
    pub fn duration_to_sec(d: std::time::Duration) -> f64 { d.as_secs_f64() }
    pub mod storage {
        use protocol::traits::StorageCategory;
        use std::time::Duration;
        pub fn on_storage_get_state(_: Duration, _: f64) {}
        pub fn on_storage_put_state(_: Duration, _: f64) {}
        pub fn on_storage_get_cf(_: StorageCategory, _: Duration, _: f64) {}
        pub fn on_storage_put_cf(_: StorageCategory, _: Duration, _: f64) {}
    }
    pub mod mempool {
        use crate::Metric;
        pub struct K { pub insert_tx_from_p2p: Metric, pub package: Metric, pub current_size: Metric }
        pub struct R { pub success: Metric, pub failure: Metric }
        pub struct KR { pub insert_tx_from_p2p: R, pub package: R, pub current_size: R }
        pub static MEMPOOL_COUNTER_STATIC: K = K { insert_tx_from_p2p: Metric, package: Metric, current_size: Metric };
        pub static MEMPOOL_RESULT_COUNTER_STATIC: KR = KR {
            insert_tx_from_p2p: R { success: Metric, failure: Metric }, package: R { success: Metric, failure: Metric },
            current_size: R { success: Metric, failure: Metric } };
        pub static MEMPOOL_TIME_STATIC: K = K { insert_tx_from_p2p: Metric, package: Metric, current_size: Metric };
        pub static MEMPOOL_PACKAGE_SIZE_VEC_STATIC: K = K { insert_tx_from_p2p: Metric, package: Metric, current_size: Metric };
        pub static MEMPOOL_LEN_GAUGE: Metric = Metric;
        pub static MEMPOOL_CO_QUEUE_LEN: Metric = Metric;
    }
    pub mod consensus {
        use crate::Metric;
        pub struct C { pub check_block_cost: Metric, pub write_wal_cost: Metric, pub get_txs_cost: Metric, pub check_order_txs_cost: Metric, pub exec: Metric, pub commit: Metric,
            pub block: Metric, pub full_txs: Metric, pub wal: Metric, pub proposal: Metric, pub save_txs_wal: Metric, pub sync_txs: Metric, pub get_block_cost: Metric, pub inner_check_block_cost: Metric, pub wait_sync_txs_cost: Metric }
        pub struct R { pub success: Metric, pub failure: Metric }
        pub struct CR { pub check_block_cost: R, pub get_block_from_remote: R, pub get_block_cost: R, pub commit: R, pub proposal: R, pub pull_txs: R, pub exec: R, pub get_block: R, pub get_proof_from_remote: R, pub save_block: R, pub signed_proposal: R, pub vote: R, pub check_block: R, pub sync_block: R, pub signed_vote: R }
        const fn c() -> C { C { check_block_cost: Metric, write_wal_cost: Metric, get_txs_cost: Metric, check_order_txs_cost: Metric, exec: Metric, commit: Metric, block: Metric,
            full_txs: Metric, wal: Metric, proposal: Metric, save_txs_wal: Metric, sync_txs: Metric, get_block_cost: Metric, inner_check_block_cost: Metric, wait_sync_txs_cost: Metric } }
        const fn r() -> R { R { success: Metric, failure: Metric } }
        const fn cr() -> CR { CR { check_block_cost: r(), get_block_from_remote: r(), get_block_cost: r(), commit: r(), proposal: r(), pull_txs: r(), exec: r(), get_block: r(), get_proof_from_remote: r(), save_block: r(), signed_proposal: r(), vote: r(), check_block: r(), sync_block: r(), signed_vote: r() } }
        pub static CONSENSUS_CHECK_BLOCK_HISTOGRAM_VEC_STATIC: C = c();
        pub static CONSENSUS_TIME_HISTOGRAM_VEC_STATIC: C = c();
        pub static CONSENSUS_RESULT_COUNTER_VEC_STATIC: CR = cr();
        pub static ENGINE_COMMITTED_TX_COUNTER: Metric = Metric;
        pub static ENGINE_CONSENSUS_COST_TIME: Metric = Metric;
        pub static ENGINE_HEIGHT_GAUGE: Metric = Metric;
        pub static ENGINE_ORDER_TX_GAUGE: Metric = Metric;
        pub static ENGINE_ROUND_GAUGE: Metric = Metric;
        pub static ENGINE_SYNC_BLOCK_COUNTER: Metric = Metric;
        pub static ENGINE_SYNC_BLOCK_HISTOGRAM: Metric = Metric;
    }
}
pub mod tracing {
    #[derive(Default)]
    pub struct AxonTracer;
    pub struct Tag;
    impl Tag { pub fn new<A, B>(_: A, _: B) -> Tag { Tag } }
    #[derive(Clone)]
    #[derive(Debug)]
    pub struct SpanContext;
    pub struct Span;
    pub struct Log;
    impl Log { pub fn time<T>(&mut self, _: T) {} }
    impl Span {
        pub fn log<F: FnOnce(&mut Log)>(&mut self, f: F) { let mut l = Log; f(&mut l) }
        pub fn context(&self) -> Option<&SpanContext> { None }
    }
    impl AxonTracer {
        /// fails on text that is not a trace id, as the real one does
        pub fn str_to_trace(s: &str) -> Result<crate::TraceId, std::num::ParseIntError> { u64::from_str_radix(s, 16).map(|low| crate::TraceId { high: 0, low }) }
        pub fn span<N>(&self, _: N, _: Vec<Tag>) -> Option<Span> { None }
    }
}
