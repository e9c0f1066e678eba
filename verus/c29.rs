//@include head.rs
pub mod sh {
use super::*;
//@include num.rs
//@include bytes.rs
//@include rlp.rs
//@include types.rs
//@include tx.rs
//@include web3.rs
}
use sh::*;
// C29: every subscriber is told of every new block and of every matching log, once and in order.
global size_of usize == 8;
pub mod shim {
use super::*;
use super::sh::*;
broadcast use {num_axioms, bytes_axioms, rlp_axioms, vec_axioms};
//@include weblogs.rs
//@item core/consensus/src/synchronization.rs :: enum SyncStatus
//@ sub /pub enum SyncStatus/ => /pub enum InnerSyncStatus/
//@end
//@item core/api/src/jsonrpc/web3_types.rs :: struct SyncStatus
//@end
//@item core/api/src/jsonrpc/web3_types.rs :: enum Web3SyncStatus
//@end
//@item core/api/src/jsonrpc/web3_types.rs :: struct Web3Header
//@end
/// how far synchronization is
pub uninterp spec fn progress() -> InnerSyncStatus;
#[verifier::external_body] pub fn sync_now() -> (r: InnerSyncStatus) ensures r == progress() { unimplemented!() }
// ---- what a message says ----
pub ghost struct HeadV { pub difficulty: nat, pub extra_data: Seq<u8>, pub gas_limit: U64, pub gas_used: U64, pub logs_bloom: Option<Bloom>, pub miner: H160, pub nonce: nat, pub number: nat, pub parent_hash: H256,
    pub receipts_root: H256, pub sha3_uncles: H256, pub state_root: H256, pub timestamp: nat, pub transactions_root: H256 }
pub ghost enum Msg { Head(HeadV), Log(LogV), Sync(Web3SyncStatus) }
pub open spec fn head_v(h: Header) -> HeadV { HeadV { difficulty: 1, extra_data: extra_bytes(h.extra_data@), gas_limit: h.gas_limit, gas_used: h.gas_used, logs_bloom: Some(h.log_bloom), miner: h.proposer, nonce: 0, number: h.number as nat,
    parent_hash: h.prev_hash, receipts_root: h.receipts_root, sha3_uncles: no_uncles(), state_root: h.state_root, timestamp: h.timestamp as nat, transactions_root: h.transactions_root } }
pub open spec fn status_of(s: InnerSyncStatus) -> Web3SyncStatus { match s { InnerSyncStatus::False => Web3SyncStatus::False,
    InnerSyncStatus::Syncing { start, current, highest } => Web3SyncStatus::Doing(SyncStatus { starting_block: start, current_block: current, highest_block: highest, known_states: u256(0), pulled_states: u256(0) }) } }
pub trait Told { spec fn msg(&self) -> Msg; }
impl Told for Web3Header { open spec fn msg(&self) -> Msg { Msg::Head(HeadV { difficulty: self.difficulty@, extra_data: self.extra_data.0@, gas_limit: self.gas_limit, gas_used: self.gas_used, logs_bloom: self.logs_bloom, miner: self.miner, nonce: self.nonce@,
    number: self.number@, parent_hash: self.parent_hash, receipts_root: self.receipts_root, sha3_uncles: self.sha3_uncles, state_root: self.state_root, timestamp: self.timestamp@, transactions_root: self.transactions_root }) } }
impl Told for Web3Log { open spec fn msg(&self) -> Msg { Msg::Log(shown(*self)) } }
impl Told for Web3SyncStatus { open spec fn msg(&self) -> Msg { Msg::Sync(*self) } }
#[derive(Debug)] pub struct JsonError;
#[verifier::external_body] pub struct SubscriptionMessage { x: u8 }
impl SubscriptionMessage {
    pub uninterp spec fn view(&self) -> Msg;
    #[verifier::external_body] pub fn from_json<T: Told>(x: &T) -> (r: Result<SubscriptionMessage, JsonError>) ensures r matches Ok(m) && m@ == x.msg() { unimplemented!() }
    #[verifier::external_body] pub fn clone(&self) -> (r: SubscriptionMessage) ensures r@ == self@ { unimplemented!() }
}
/// where a subscriber's messages go: what it was told so far, and whether it is still there
pub struct SubscriptionSink { pub told: Ghost<Seq<Msg>>, pub open: Ghost<bool> }
impl SubscriptionSink { #[verifier::external_body] pub fn send(&mut self, m: SubscriptionMessage) -> (r: Result<(), JsonError>) ensures final(self).told@ == old(self).told@.push(m@), final(self).open == old(self).open { unimplemented!() } }
// ---- the subscriptions ----
pub struct LoggerFilter { pub address: Option<Vec<H160>>, pub topics: Vec<Option<Vec<Option<H256>>>> }
pub struct Hub<T> { pub filter: T, pub sink: SubscriptionSink }
pub open spec fn there<T>(s: Seq<Hub<T>>) -> Seq<Hub<T>> { s.filter(|h: Hub<T>| h.sink.open@) }
#[verifier::external_body] pub fn drop_closed<T>(v: &mut Vec<Hub<T>>) ensures final(v)@ == there(old(v)@) { unimplemented!() }
pub open spec fn heads(a: Adapter, lo: int, hi: int) -> Seq<Msg> { Seq::new((hi - lo) as nat, |i: int| Msg::Head(head_v(a.at(lo + i).header))) }
pub open spec fn asked(f: LoggerFilter) -> Seq<H160> { match f.address { Some(a) => a@, None => Seq::empty() } }
pub open spec fn of_receipt(f: LoggerFilter, k: Receipt, index: int) -> Seq<Msg> { picks(k, k.logs@.len() as int, asked(f), f.topics@).map_values(|i: int| Msg::Log(log_v(k, i, index))) }
pub open spec fn of_receipts(f: LoggerFilter, k: Seq<Receipt>, n: int) -> Seq<Msg> decreases n { if n <= 0 { Seq::empty() } else { of_receipts(f, k, n - 1) + of_receipt(f, k[n - 1], n - 1) } }
pub open spec fn of_blocks(a: Adapter, f: LoggerFilter, lo: int, hi: int) -> Seq<Msg> decreases hi - lo { if hi <= lo { Seq::empty() } else { of_blocks(a, f, lo, hi - 1) + of_receipts(f, a.present(hi - 1), a.present(hi - 1).len() as int) } }
pub open spec fn filters_ok(s: Seq<Hub<LoggerFilter>>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).filter.topics@.len() <= 4 }
/// the same subscribers, told `f` of each more
pub open spec fn more<T>(now: Seq<Hub<T>>, then: Seq<Hub<T>>, f: spec_fn(T) -> Seq<Msg>) -> bool {
    &&& now.len() == then.len()
    &&& forall|i: int| 0 <= i < now.len() ==> (#[trigger] now[i]).filter == then[i].filter && now[i].sink.open == then[i].sink.open && now[i].sink.told@ == then[i].sink.told@ + f(then[i].filter)
}
pub open spec fn heads_f(a: Adapter, lo: int, hi: int) -> spec_fn(()) -> Seq<Msg> { |x: ()| heads(a, lo, hi) }
pub open spec fn only(m: Msg) -> spec_fn(()) -> Seq<Msg> { |x: ()| seq![m] }
pub open spec fn nothing<T>() -> spec_fn(T) -> Seq<Msg> { |x: T| Seq::<Msg>::empty() }
pub open spec fn receipt_f(k: Receipt, index: int) -> spec_fn(LoggerFilter) -> Seq<Msg> { |f: LoggerFilter| of_receipt(f, k, index) }
pub open spec fn receipts_f(k: Seq<Receipt>, n: int) -> spec_fn(LoggerFilter) -> Seq<Msg> { |f: LoggerFilter| of_receipts(f, k, n) }
pub open spec fn blocks_f(a: Adapter, lo: int, hi: int) -> spec_fn(LoggerFilter) -> Seq<Msg> { |f: LoggerFilter| of_blocks(a, f, lo, hi) }
pub open spec fn kept<T>(x: Hub<T>, y: Hub<T>) -> bool { x.filter == y.filter && x.sink.open == y.sink.open }
/// the first k were told `f` of each more
pub open spec fn partly<T>(now: Seq<Hub<T>>, then: Seq<Hub<T>>, k: int, f: spec_fn(T) -> Seq<Msg>) -> bool {
    &&& now.len() == then.len()
    &&& forall|i: int| 0 <= i < k ==> kept(#[trigger] now[i], then[i]) && now[i].sink.told@ == then[i].sink.told@ + f(then[i].filter)
    &&& forall|i: int| k <= i < now.len() ==> #[trigger] now[i] == then[i]
}
pub open spec fn listed(a: Adapter, v: Seq<(u64, Vec<H256>)>, lo: int, hi: int) -> bool { v.len() == hi - lo && forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).0 == lo + i && v[i].1@ == a.at(lo + i).tx_hashes@ }
pub proof fn more_then<T>(x: Seq<Hub<T>>, y: Seq<Hub<T>>, z: Seq<Hub<T>>, f: spec_fn(T) -> Seq<Msg>, g: spec_fn(T) -> Seq<Msg>, h: spec_fn(T) -> Seq<Msg>)
    requires more(y, x, f), partly(z, y, y.len() as int, g), forall|t: T| f(t) + g(t) == #[trigger] h(t),
    ensures more(z, x, h),
{
    assert forall|i: int| 0 <= i < z.len() implies (#[trigger] z[i]).filter == x[i].filter && z[i].sink.open == x[i].sink.open && z[i].sink.told@ == x[i].sink.told@ + h(x[i].filter) by {
        let t = x[i].filter;
        assert(kept(z[i], y[i]) && y[i].filter == t);
        assert(h(t) == f(t) + g(t));
        assert(z[i].sink.told@ =~= x[i].sink.told@ + h(t));
    }
}
pub proof fn same_more<T>(x: Seq<Hub<T>>, f: spec_fn(T) -> Seq<Msg>) requires forall|t: T| (#[trigger] f(t)).len() == 0 ensures more(x, x, f) {
    assert forall|i: int| 0 <= i < x.len() implies x[i].sink.told@ == #[trigger] x[i].sink.told@ + f(x[i].filter) by { assert(f(x[i].filter).len() == 0); assert(x[i].sink.told@ =~= x[i].sink.told@ + f(x[i].filter)); }
}
pub proof fn head_more(x: Seq<Hub<()>>, y: Seq<Hub<()>>, z: Seq<Hub<()>>, a: Adapter, lo: int, n: int, m: Msg)
    requires more(y, x, heads_f(a, lo, n)), partly(z, y, y.len() as int, only(m)), lo <= n, m == Msg::Head(head_v(a.at(n).header)),
    ensures more(z, x, heads_f(a, lo, n + 1)),
{
    let (f, g, h) = (heads_f(a, lo, n), only(m), heads_f(a, lo, n + 1));
    assert(heads(a, lo, n) + seq![m] =~= heads(a, lo, n + 1));
    assert forall|t: ()| f(t) + g(t) == #[trigger] h(t) by {}
    more_then(x, y, z, f, g, h);
}
pub proof fn receipt_more(x: Seq<Hub<LoggerFilter>>, y: Seq<Hub<LoggerFilter>>, z: Seq<Hub<LoggerFilter>>, k: Seq<Receipt>, n: int)
    requires more(y, x, receipts_f(k, n)), partly(z, y, y.len() as int, receipt_f(k[n], n)), 0 <= n < k.len(),
    ensures more(z, x, receipts_f(k, n + 1)),
{
    let (f, g, h) = (receipts_f(k, n), receipt_f(k[n], n), receipts_f(k, n + 1));
    assert forall|t: LoggerFilter| f(t) + g(t) == #[trigger] h(t) by {}
    more_then(x, y, z, f, g, h);
}
pub proof fn block_more(x: Seq<Hub<LoggerFilter>>, y: Seq<Hub<LoggerFilter>>, z: Seq<Hub<LoggerFilter>>, a: Adapter, lo: int, n: int)
    requires more(y, x, blocks_f(a, lo, n)), more(z, y, receipts_f(a.present(n), a.present(n).len() as int)), lo <= n,
    ensures more(z, x, blocks_f(a, lo, n + 1)),
{
    let (f, g, h) = (blocks_f(a, lo, n), receipts_f(a.present(n), a.present(n).len() as int), blocks_f(a, lo, n + 1));
    assert forall|t: LoggerFilter| f(t) + g(t) == #[trigger] h(t) by {}
    more_then(x, y, z, f, g, h);
}
pub proof fn there_ok(s: Seq<Hub<LoggerFilter>>) requires filters_ok(s) ensures filters_ok(there(s)) decreases s.len() {
    reveal(Seq::filter);
    if s.len() > 0 { there_ok(s.drop_last()); assert(s.last() == s[s.len() - 1]); }
}
pub proof fn all_there<T>(x: Seq<Hub<T>>, z: Seq<Hub<T>>, f: spec_fn(T) -> Seq<Msg>) requires partly(z, x, x.len() as int, f) ensures more(z, x, f) {
    assert forall|i: int| 0 <= i < z.len() implies (#[trigger] z[i]).filter == x[i].filter && z[i].sink.open == x[i].sink.open && z[i].sink.told@ == x[i].sink.told@ + f(x[i].filter) by { assert(kept(z[i], x[i])); }
}
pub proof fn one_log(w: Web3Log, k: Receipt, i: int, index: usize) requires log_out(w, k, i, index) ensures w.msg() == Msg::Log(log_v(k, i, index as int)) {}
#[verifier::external_body] pub fn take_all<T>(v: &mut Vec<T>) -> (r: Vec<T>) ensures r@ == old(v)@, final(v)@.len() == 0 { unimplemented!() }
}
pub mod m {
use super::*;
use super::sh::*;
use super::shim::*;
broadcast use {num_axioms, bytes_axioms, rlp_axioms, vec_axioms};
impl Web3SyncStatus {
//@fn core/api/src/jsonrpc/web3_types.rs :: impl From<InnerSyncStatus> for Web3SyncStatus/fn from
//@ ret r
//@ sub /U256::default\(\)/ => /U256::zero()/
//@ spec
    ensures r == status_of(inner),
//@end
}
impl Web3Header {
//@fn core/api/src/jsonrpc/web3_types.rs :: impl From<Header> for Web3Header/fn from
//@ ret r
//@ sub /EMPTY_UNCLE_HASH/ => /empty_uncles()/ 0
//@ sub /U256::default\(\)/ => /U256::zero()/
//@ sub /rlp::encode_list\(&h\.extra_data\)/ => /encode_extra(&h.extra_data)/ 0
//@ spec
    ensures r.msg() == Msg::Head(head_v(h)),
//@end
}
//@item core/api/src/jsonrpc/ws_subscription.rs :: struct Subscription
//@ sub /Arc<Adapter>/ => /Adapter/
//@ sub /<Adapter>/ => //
//@ sub /\n\s*recv:\s*Receiver<RawHub>,/ => //
//@ sub /(\n\s*)(log_hubs|header_hubs|sync_hubs|adapter|current_number):/ => /\1pub \2:/
//@end
impl Subscription {
//@fn core/api/src/jsonrpc/ws_subscription.rs :: impl Subscription<Adapter>/fn notify
//@ isolate
//@ sub /async fn/ => /fn/
//@ sub /\s*\.await/ => //
//@ sub /(self\.\w+)\.retain\(\|hub\| !hub\.sink\.is_closed\(\)\);/ => /drop_closed(&mut \1);/
//@ sub /SYNC_STATUS\.read\(\)\.clone\(\)\.into\(\)/ => /Web3SyncStatus::from(sync_now())/ 0
//@ sub /for hub in (self\.\w+)\.iter_mut\(\) \{/ => /let n_ = \1.len(); for k_ in 0..n_ { let hub = &mut \1[k_];/
//@ sub /for \((\w+), (\w+)\) in log_vec \{/ => /for j_ in 0..log_vec.len() { let (\1, \2) = same_(&log_vec[j_]);/
//@ sub /for \((\w+), receipt\) in receipts\.into_iter\(\)\.flatten\(\)\.enumerate\(\) \{/ => /let recs_ = present_(receipts); for \1 in 0..recs_.len() { let receipt = same_(&recs_[\1]);/
//@ sub /for log in logs\.drain\(\.\.\) \{/ => /let all_ = take_all(&mut logs); for l_ in 0..all_.len() { let log = same_(&all_[l_]);/
//@ sub /hub\.sink\.send\(msg\)/ => /self.log_hubs[k_].sink.send(msg)/ 0
//@ sub /hub\.filter\.address\.as_ref\(\)\.unwrap_or\(&Vec::new\(\)\)/ => /slice_(hub.filter.address.as_ref().unwrap_or(no_addresses()))/
//@ sub /hub\.filter\.topics\.as_slice\(\)/ => /slice_(&hub.filter.topics)/
//@ spec
    requires old(self).adapter.sound(), old(self).current_number <= old(self).adapter.newest().header.number, filters_ok(old(self).log_hubs@),
    ensures final(self).adapter == old(self).adapter, final(self).current_number == old(self).adapter.newest().header.number, filters_ok(final(self).log_hubs@),
        more(final(self).header_hubs@, there(old(self).header_hubs@), heads_f(old(self).adapter, old(self).current_number + 1, final(self).current_number + 1)),
        more(final(self).sync_hubs@, there(old(self).sync_hubs@), if final(self).current_number == old(self).current_number { nothing() } else { only(Msg::Sync(status_of(progress()))) }),
        more(final(self).log_hubs@, there(old(self).log_hubs@), blocks_f(old(self).adapter, old(self).current_number + 1, final(self).current_number + 1)),
//@ start
    let ghost (a, cur, last) = (self.adapter, self.current_number as int, self.adapter.newest().header.number as int);
    let ghost (h0, s0, l0) = (there(self.header_hubs@), there(self.sync_hubs@), there(self.log_hubs@));
    proof {
        there_ok(self.log_hubs@);
        same_more(h0, heads_f(a, cur + 1, cur + 1)); same_more(s0, nothing()); same_more(l0, blocks_f(a, cur + 1, cur + 1));
    }
//@ loop 0
    invariant self.adapter == a, a.sound(), self.current_number == cur, cur < last, last == a.newest().header.number, latest_block == a.newest(), self.sync_hubs@ == s0, self.log_hubs@ == l0,
        more(self.header_hubs@, h0, heads_f(a, cur + 1, number as int)), listed(a, log_vec@, cur + 1, number as int),
//@ loopbefore 1
    let ghost h1 = self.header_hubs@;
//@ loopend 1
    proof { let k = k_ as int; assert(self.header_hubs@[k].sink.told@ =~= h1[k].sink.told@ + (only(msg@))(h1[k].filter)); }
//@ loop 1
    invariant n_ == self.header_hubs@.len(), self.adapter == a, self.current_number == cur, self.sync_hubs@ == s0, self.log_hubs@ == l0, partly(self.header_hubs@, h1, k_ as int, only(msg@)),
//@ loopafter 1
    proof {
        head_more(h0, h1, self.header_hubs@, a, cur + 1, number as int, msg@);
    }
//@ loopbefore 2
    let ghost h2 = self.header_hubs@;
//@ loopend 2
    proof { let k = k_ as int; assert(self.header_hubs@[k].sink.told@ =~= h2[k].sink.told@ + (only(msg@))(h2[k].filter)); }
//@ loop 2
    invariant n_ == self.header_hubs@.len(), self.adapter == a, self.current_number == cur, self.sync_hubs@ == s0, self.log_hubs@ == l0, partly(self.header_hubs@, h2, k_ as int, only(msg@)),
//@ loopafter 2
    proof {
        head_more(h0, h2, self.header_hubs@, a, cur + 1, last, msg@);
    }
//@ loopend 3
    proof { let k = k_ as int; assert(self.sync_hubs@[k].sink.told@ =~= s0[k].sink.told@ + (only(msg@))(s0[k].filter)); }
//@ loop 3
    invariant n_ == self.sync_hubs@.len(), self.adapter == a, self.current_number == cur, self.log_hubs@ == l0, more(self.header_hubs@, h0, heads_f(a, cur + 1, last + 1)), partly(self.sync_hubs@, s0, k_ as int, only(msg@)),
//@ loop 4
    invariant self.adapter == a, a.sound(), self.current_number == cur, cur < last, last == a.newest().header.number, latest_header_number == last, self.log_hubs@ == l0, listed(a, log_vec@, cur + 1, number as int),
        more(self.header_hubs@, h0, heads_f(a, cur + 1, last + 1)), more(self.sync_hubs@, s0, only(Msg::Sync(status_of(progress())))),
//@ loop 5
    invariant self.adapter == a, a.sound(), self.current_number == cur, cur < last, last == a.newest().header.number, latest_header_number == last, listed(a, log_vec@, cur + 1, last + 1),
        more(self.header_hubs@, h0, heads_f(a, cur + 1, last + 1)), more(self.sync_hubs@, s0, only(Msg::Sync(status_of(progress())))),
        filters_ok(self.log_hubs@), more(self.log_hubs@, l0, blocks_f(a, cur + 1, cur + 1 + j_)),
//@ loopbefore 6
    let ghost l1 = self.log_hubs@;
    proof { same_more(l1, receipts_f(recs_@, 0)); }
//@ loop 6
    invariant self.adapter == a, self.current_number == cur, filters_ok(self.log_hubs@), more(self.log_hubs@, l1, receipts_f(recs_@, index as int)), logs@.len() == 0,
        more(self.header_hubs@, h0, heads_f(a, cur + 1, last + 1)), more(self.sync_hubs@, s0, only(Msg::Sync(status_of(progress())))),
//@ loopbefore 7
    let ghost l2 = self.log_hubs@;
//@ loop 7
    invariant n_ == self.log_hubs@.len(), self.adapter == a, self.current_number == cur, filters_ok(self.log_hubs@), partly(self.log_hubs@, l2, k_ as int, receipt_f(receipt, index as int)), logs@.len() == 0,
        more(self.header_hubs@, h0, heads_f(a, cur + 1, last + 1)), more(self.sync_hubs@, s0, only(Msg::Sync(status_of(progress())))),
//@ loopbefore 8
    let ghost (l3, f3) = (self.log_hubs@, self.log_hubs@[k_ as int].filter);
    proof {
        let ps = picks(receipt, receipt.logs@.len() as int, asked(f3), f3.topics@);
        assert(all_@.len() == ps.len());
        assert forall|j: int| 0 <= j < all_@.len() implies (#[trigger] all_@[j]).msg() == of_receipt(f3, receipt, index as int)[j] by { assert(log_out(all_@[0 + j], receipt, ps[j], index)); one_log(all_@[j], receipt, ps[j], index); }
    }
//@ loop 8
    invariant self.adapter == a, self.current_number == cur, filters_ok(self.log_hubs@), logs@.len() == 0, self.log_hubs@.len() == l3.len(), k_ < l3.len(), kept(self.log_hubs@[k_ as int], l3[k_ as int]),
        forall|i: int| 0 <= i < l3.len() && i != k_ ==> #[trigger] self.log_hubs@[i] == l3[i],
        all_@.len() == of_receipt(f3, receipt, index as int).len(), forall|j: int| 0 <= j < all_@.len() ==> (#[trigger] all_@[j]).msg() == of_receipt(f3, receipt, index as int)[j],
        self.log_hubs@[k_ as int].sink.told@ == l3[k_ as int].sink.told@ + of_receipt(f3, receipt, index as int).take(l_ as int),
        more(self.header_hubs@, h0, heads_f(a, cur + 1, last + 1)), more(self.sync_hubs@, s0, only(Msg::Sync(status_of(progress())))),
//@ loopend 8
    proof { assert(of_receipt(f3, receipt, index as int).take(l_ + 1) =~= of_receipt(f3, receipt, index as int).take(l_ as int).push(of_receipt(f3, receipt, index as int)[l_ as int])); }
//@ loopafter 8
    proof { assert(of_receipt(f3, receipt, index as int).take(all_@.len() as int) =~= of_receipt(f3, receipt, index as int)); }
//@ loopafter 6
    proof { block_more(l0, l1, self.log_hubs@, a, cur + 1, cur + 1 + j_); }
//@ loopafter 7
    proof {
        receipt_more(l1, l2, self.log_hubs@, recs_@, index as int);
    }
//@end
}
}
}
fn main() {}
