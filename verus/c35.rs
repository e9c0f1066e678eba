//@include head.rs
pub mod sh {
use super::*;
//@include num.rs
//@include bytes.rs
}
use sh::*;
global size_of usize == 8;
// C35: what the pool takes in is handed on to the peers, each transaction once.
pub mod shim {
use super::*;
use super::sh::*;
broadcast use {num_axioms, bytes_axioms};
#[verifier::external_body] pub struct ProtocolError { x: u8 }
impl ProtocolError { #[verifier::external_body] pub fn clone(&self) -> (r: ProtocolError) { unimplemented!() } }
pub type ProtocolResult<T> = Result<T, ProtocolError>;
pub struct UnverifiedTransaction { pub hash: H256 }
pub struct SignedTransaction { pub transaction: UnverifiedTransaction, pub body: Ghost<int> }
impl SignedTransaction { #[verifier::external_body] pub fn clone(&self) -> (r: SignedTransaction) ensures r == *self { unimplemented!() } }
pub struct SessionId { pub v: usize }
impl SessionId { pub fn value(&self) -> (r: usize) ensures r == self.v { self.v } }
/// the context of a request: whether it came from a peer's gossip, and in which session
pub struct Context { pub from_peer: bool, pub session: usize }
#[derive(Debug)] pub struct NoSession;
impl Context {
    #[verifier::external_body] pub fn new() -> (r: Context) { unimplemented!() }
    pub fn clone(&self) -> (r: Context) ensures r == *self { Context { from_peer: self.from_peer, session: self.session } }
    pub fn is_network_origin_txs(&self) -> (r: bool) ensures r == self.from_peer { self.from_peer }
    #[verifier::external_body] pub fn session_id(&self) -> (r: Result<SessionId, NoSession>) ensures self.from_peer ==> r is Ok, r matches Ok(s) ==> s.v == self.session { unimplemented!() }
}
pub struct BatchSignedTxs(pub Vec<SignedTransaction>);
impl BatchSignedTxs { pub fn new(v: Vec<SignedTransaction>) -> (r: BatchSignedTxs) ensures r.0@ == v@ { BatchSignedTxs(v) } pub fn inner(self) -> (r: Vec<SignedTransaction>) ensures r@ == self.0@ { self.0 } }
pub enum Priority { High, Normal }
pub type Origin = Option<usize>;
/// one message to the peers
pub ghost struct Sent { pub origin: Origin, pub end: Seq<char>, pub txs: Seq<SignedTransaction> }
pub trait Gossip: Sized {
    spec fn sent(&self) -> Seq<Sent>;
    fn gossip(&mut self, ctx: Context, origin: Origin, end: &str, m: BatchSignedTxs, p: Priority) -> (r: ProtocolResult<()>)
        ensures final(self).sent() == old(self).sent().push(Sent { origin, end: end@, txs: m.0@ });
}
/// a queue's sending end
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct UnboundedSender<T> { x: core::marker::PhantomData<T> }
pub struct SendError;
impl<T> UnboundedSender<T> {
    pub uninterp spec fn view(&self) -> Seq<T>;
    #[verifier::external_body] pub fn unbounded_send(&mut self, t: T) -> (r: Result<(), SendError>) ensures r is Ok ==> final(self)@ == old(self)@.push(t), r is Err ==> final(self)@ == old(self)@ { unimplemented!() }
    #[verifier::external_body] pub fn clone(&self) -> (r: Self) { unimplemented!() }
}
pub struct AdapterError;
impl AdapterError { #[verifier::external_body] pub fn from(e: SendError) -> (r: AdapterError) { unimplemented!() } }
impl From<AdapterError> for ProtocolError { #[verifier::external_body] fn from(e: AdapterError) -> ProtocolError { unimplemented!() } }
/// a queue's receiving end: what came out of it so far; None once nothing can come any more
#[verifier::external_body] pub struct Receiver { x: u8 }
impl Receiver {
    pub uninterp spec fn got(&self) -> Seq<(Origin, SignedTransaction)>;
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<(Origin, SignedTransaction)>)
        ensures match r { Some(t) => final(self).got() == old(self).got().push(t), None => final(self).got() == old(self).got() } { unimplemented!() }
}
/// HashMap<Option<usize>, Vec<SignedTransaction>>: the transactions waiting under each origin (none where there is no entry), and how many
#[verifier::external_body] pub struct Cache { x: u8 }
impl Cache {
    pub uninterp spec fn of(&self, o: Origin) -> Seq<SignedTransaction>;
    pub uninterp spec fn count(&self) -> nat;
    #[verifier::external_body] pub fn new_() -> (r: Cache) ensures r.count() == 0, forall|o: Origin| #[trigger] r.of(o) == Seq::<SignedTransaction>::empty() { unimplemented!() }
    /// `entry(o).or_default().push(t)`
    #[verifier::external_body] pub fn push_to(&mut self, o: Origin, t: SignedTransaction)
        ensures final(self).count() == old(self).count() + 1, final(self).count() <= usize::MAX, forall|q: Origin| #[trigger] final(self).of(q) == (if q == o { old(self).of(q).push(t) } else { old(self).of(q) }) { unimplemented!() }
    /// `values().map(|v| v.len()).sum()`
    #[verifier::external_body] pub fn total(&self) -> (r: usize) ensures r == self.count() { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r ==> self.count() == 0 && forall|o: Origin| #[trigger] self.of(o) == Seq::<SignedTransaction>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == 0 ==> self.count() == 0 && forall|o: Origin| #[trigger] self.of(o) == Seq::<SignedTransaction>::empty() { unimplemented!() }
    /// `drain()`: every entry once
    #[verifier::external_body] pub fn drain_(&mut self) -> (r: Vec<(Origin, Vec<SignedTransaction>)>)
        ensures final(self).count() == 0, forall|o: Origin| #[trigger] final(self).of(o) == Seq::<SignedTransaction>::empty(),
            forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).1@ == old(self).of(r@[i].0),
            forall|i: int, j: int| 0 <= i < j < r@.len() ==> (#[trigger] r@[i]).0 != (#[trigger] r@[j]).0,
            forall|o: Origin| (#[trigger] old(self).of(o)).len() > 0 ==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i]).0 == o { unimplemented!() }
}
pub struct Interval;
impl Interval { #[verifier::external_body] pub fn tick(&mut self) { unimplemented!() } #[verifier::external_body] pub fn set_missed_tick_behavior(&mut self, b: u8) { unimplemented!() } }
#[verifier::external_body] pub fn interval_(ms: u64) -> (r: Interval) { unimplemented!() }
/// which of a select's branches comes first
#[verifier::external_body] pub fn which_() -> (r: u8) { unimplemented!() }
/// the messages to the peers under one origin, in order, all on the topic of new transactions
pub open spec fn told(s: Seq<Sent>, o: Origin) -> Seq<SignedTransaction> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else if s.last().origin == o { told(s.drop_last(), o) + s.last().txs } else { told(s.drop_last(), o) }
}
pub open spec fn of_origin(s: Seq<(Origin, SignedTransaction)>, o: Origin) -> Seq<SignedTransaction> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else if s.last().0 == o { of_origin(s.drop_last(), o).push(s.last().1) } else { of_origin(s.drop_last(), o) }
}
pub open spec fn on_topic(s: Seq<Sent>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).end == "/gossip/mempool/new_txs"@ }
/// each origin's transactions went out once and in order: those already told, then those waiting
pub open spec fn handed_on<G: Gossip>(g: G, before: G, c: Cache, got: Seq<(Origin, SignedTransaction)>) -> bool {
    forall|o: Origin| #[trigger] told(g.sent(), o) + c.of(o) == told(before.sent(), o) + of_origin(got, o)
}
pub proof fn told_push(s: Seq<Sent>, m: Sent) ensures forall|o: Origin| #[trigger] told(s.push(m), o) == (if m.origin == o { told(s, o) + m.txs } else { told(s, o) }) {
    assert(s.push(m).drop_last() =~= s);
}
pub proof fn got_push(s: Seq<(Origin, SignedTransaction)>, m: (Origin, SignedTransaction)) ensures forall|o: Origin| #[trigger] of_origin(s.push(m), o) == (if m.0 == o { of_origin(s, o).push(m.1) } else { of_origin(s, o) }) {
    assert(s.push(m).drop_last() =~= s);
}
//@item protocol/src/constants/endpoints.rs :: const END_GOSSIP_NEW_TXS
//@ sub /: &str/ => /: &'static str/
//@end
pub struct IntervalTxsBroadcaster;
/// reporting a failed message to whom it may concern
#[verifier::external_body] pub fn report_if_err(r: ProtocolResult<()>) { unimplemented!() }
/// what the peers' messages gave back
#[verifier::external_body] pub struct Errors { x: u8 }
#[verifier::external_body] pub struct ErrorRx { x: u8 }
pub struct Closed;
impl Errors { #[verifier::external_body] pub fn try_lock(&self) -> (r: Option<ErrorRx>) { unimplemented!() } }
impl ErrorRx { #[verifier::external_body] pub fn try_next(&mut self) -> (r: Result<Option<ProtocolError>, Closed>) { unimplemented!() } }
pub struct DefaultMemPoolAdapter { pub stx_tx: UnboundedSender<(Origin, SignedTransaction)>, pub err_rx: Errors }
/// the pool and what it took in so far
pub struct TxPool { pub taken: Ghost<Seq<SignedTransaction>> }
impl TxPool {
    #[verifier::external_body] pub fn reach_limit(&self) -> (r: Result<(), usize>) { unimplemented!() }
    #[verifier::external_body] pub fn contains(&self, h: &H256) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, t: SignedTransaction, check_limit: bool, n: U64) -> (r: ProtocolResult<()>)
        ensures r is Ok ==> final(self).taken@ == old(self).taken@.push(t), r is Err ==> final(self).taken@ == old(self).taken@ { unimplemented!() }
    #[verifier::external_body] pub fn insert_system_script_tx(&mut self, t: SignedTransaction) -> (r: ProtocolResult<()>)
        ensures r is Ok ==> final(self).taken@ == old(self).taken@.push(t), r is Err ==> final(self).taken@ == old(self).taken@ { unimplemented!() }
}
pub enum MemPoolError { ReachLimit(usize), Other }
impl From<MemPoolError> for ProtocolError { #[verifier::external_body] fn from(e: MemPoolError) -> ProtocolError { unimplemented!() } }
impl DefaultMemPoolAdapter {
    #[verifier::external_body] pub fn check_authorization(&mut self, c: Context, t: &SignedTransaction) -> (r: ProtocolResult<U64>) ensures final(self).stx_tx@ == old(self).stx_tx@ { unimplemented!() }
    #[verifier::external_body] pub fn check_transaction(&self, c: Context, t: &SignedTransaction) -> (r: ProtocolResult<()>) { unimplemented!() }
    #[verifier::external_body] pub fn check_storage_exist(&self, c: Context, h: &H256) -> (r: ProtocolResult<()>) { unimplemented!() }
    #[verifier::external_body] pub fn report_good(&self, c: Context) { unimplemented!() }
}
pub struct MemPoolImpl { pub pool: TxPool, pub adapter: DefaultMemPoolAdapter }
/// where a transaction came from: the session of the peer that gossiped it, or nowhere
pub open spec fn origin_of(c: Context) -> Origin { if c.from_peer { Some(c.session) } else { None } }
}
use shim::*;
broadcast use {num_axioms, bytes_axioms};
impl IntervalTxsBroadcaster {
//@fn core/mempool/src/adapter/mod.rs :: impl IntervalTxsBroadcaster/fn do_broadcast
//@ sub /async fn/ => /fn/
//@ sub /\s*\.await/ => //
//@ sub /HashMap<Option<usize>, Vec<SignedTransaction>>/ => /Cache/
//@ sub /gossip: &G,/ => /gossip: &mut G,/
//@ sub /G: Gossip \+ Unpin/ => /G: Gossip/
//@ sub /let report_if_err = move \|\w+: ProtocolResult<\(\)>\| \{.*?\n        \};/ => // ?
//@ sub /(report_if_err\((?:[^()]|\((?:[^()]|\([^()]*\))*\))*\))\s*\}/ => /\1; }/ ?
//@ sub /err_tx: Un/ => /mut err_tx: Un/
//@ sub /for \((\w+), (\w+)\) in txs_cache\.drain\(\) \{/ => /let d_ = txs_cache.drain_(); let ghost dd = d_@; for it_ in d_ { let (\1, \2) = it_;/
//@ loop 0 it
    invariant
        it.seq() == dd, 0 <= it.index@ <= dd.len(),
        on_topic(old(gossip).sent()) ==> on_topic(gossip.sent()),
        txs_cache.count() == 0, forall|o: Origin| #[trigger] txs_cache.of(o) == Seq::<SignedTransaction>::empty(),
        forall|i: int| 0 <= i < it.index@ ==> #[trigger] told(gossip.sent(), dd[i].0) == told(old(gossip).sent(), dd[i].0) + old(txs_cache).of(dd[i].0),
        forall|o: Origin| (forall|i: int| 0 <= i < it.index@ ==> (#[trigger] dd[i]).0 != o) ==> #[trigger] told(gossip.sent(), o) == told(old(gossip).sent(), o),
//@ loopstart 0
    let ghost s_ = gossip.sent();
    assert(it_ == dd[it.index@ as int]);
//@ loopend 0
    proof { told_push(s_, gossip.sent().last()); assert(gossip.sent() =~= s_.push(gossip.sent().last()));
        assert(told(s_, dd[it.index@ as int].0) == told(old(gossip).sent(), dd[it.index@ as int].0));
        assert(told(gossip.sent(), dd[it.index@ as int].0) == told(old(gossip).sent(), dd[it.index@ as int].0) + old(txs_cache).of(dd[it.index@ as int].0)); }
//@ end
    proof { assert forall|o: Origin| #[trigger] told(gossip.sent(), o) == told(old(gossip).sent(), o) + old(txs_cache).of(o) by {
        if forall|i: int| 0 <= i < dd.len() ==> (#[trigger] dd[i]).0 != o { assert(old(txs_cache).of(o).len() == 0); assert(old(txs_cache).of(o) =~= Seq::empty()); }
        else { let i = choose|i: int| 0 <= i < dd.len() && (#[trigger] dd[i]).0 == o; assert(told(gossip.sent(), dd[i].0) == told(old(gossip).sent(), dd[i].0) + old(txs_cache).of(dd[i].0)); }
    } }
//@ spec
    ensures
        final(txs_cache).count() == 0, forall|o: Origin| #[trigger] final(txs_cache).of(o) == Seq::<SignedTransaction>::empty(),
        forall|o: Origin| #[trigger] told(final(gossip).sent(), o) == told(old(gossip).sent(), o) + old(txs_cache).of(o),
        on_topic(old(gossip).sent()) ==> on_topic(final(gossip).sent()),
//@end
//@fn core/mempool/src/adapter/mod.rs :: impl IntervalTxsBroadcaster/fn broadcast
//@ sub /pub async fn/ => /#[verifier::exec_allows_no_decreases_clause] pub fn/
//@ sub /\s*\.await/ => //
//@ sub /UnboundedReceiver<\(Option<usize>, SignedTransaction\)>/ => /Receiver/
//@ sub /gossip: G,/ => /gossip: &mut G,/
//@ sub /err_tx: Un/ => /mut err_tx: Un/
//@ sub /G: Gossip \+ Clone \+ Unpin \+ 'static/ => /G: Gossip/
//@ sub /HashMap<_, Vec<SignedTransaction>> = HashMap::with_capacity\(\w+\)/ => /Cache = Cache::new_()/
//@ sub /tokio::time::interval\(Duration::from_millis\((\w+)\)\)/ => /interval_(\1)/
//@ sub /tokio::time::MissedTickBehavior::\w+/ => /0/ ?
//@ sub /txs_cache\.entry\((\w+)\)\.or_default\(\)\.push\((\w+)\)/ => /txs_cache.push_to(\1, \2)/
//@ sub /txs_cache\s*\.values\(\)\s*\.map\((?:\|v\| v\.len\(\)|Vec::len)\)\s*\.sum\(\)/ => /txs_cache.total()/
//@ sub /tokio::select! \{\s*(\w+) = stx_rx\.next\(\) => \{/ => /let at_ = which_(); if at_ == 0 { let \1 = stx_rx.next(); {/
//@ sub /\},\s*_ = interval\.tick\(\) => \{/ => /} } else if at_ == 1 { interval.tick(); {/
//@ sub /\},\s*else => \{(.*?)\}\s*\};/ => /} } else {\1}/
//@ sub /&gossip, / => /gossip, /
//@ loop 0
    invariant
        stx_rx.got().len() >= rx0.got().len(), stx_rx.got().take(rx0.got().len() as int) == rx0.got(),
        handed_on(*gossip, g0, txs_cache, stx_rx.got().skip(rx0.got().len() as int)),
        on_topic(g0.sent()) ==> on_topic(gossip.sent()),
        tx_size > 0 ==> txs_cache.count() < tx_size,
//@ loopstart 0
    let ghost n_ = rx0.got().len() as int;
    let ghost got_ = stx_rx.got();
    let ghost c_ = txs_cache;
    let ghost s_ = gossip.sent();
//@ loopend 0
    proof {
        if stx_rx.got().len() > got_.len() {
            let t = stx_rx.got().last();
            assert(stx_rx.got() =~= got_.push(t));
            assert(stx_rx.got().skip(n_) =~= got_.skip(n_).push(t)); got_push(got_.skip(n_), t);
            assert(stx_rx.got().take(n_) =~= got_.take(n_));
        } else { assert(stx_rx.got() == got_); }
        assert forall|o: Origin| #[trigger] told(gossip.sent(), o) + txs_cache.of(o) == told(g0.sent(), o) + of_origin(stx_rx.got().skip(n_), o) by {
            assert(told(s_, o) + c_.of(o) == told(g0.sent(), o) + of_origin(got_.skip(n_), o));
            if stx_rx.got().len() > got_.len() {
                let t = stx_rx.got().last();
                assert(of_origin(got_.skip(n_).push(t), o) == of_origin(stx_rx.got().skip(n_), o));
                if t.0 == o { assert(told(g0.sent(), o) + of_origin(got_.skip(n_), o).push(t.1) =~= (told(g0.sent(), o) + of_origin(got_.skip(n_), o)).push(t.1));
                    assert(told(s_, o) + c_.of(o).push(t.1) =~= (told(s_, o) + c_.of(o)).push(t.1)); }
                assert(told(gossip.sent(), o) + txs_cache.of(o) =~= told(s_, o) + (if t.0 == o { c_.of(o).push(t.1) } else { c_.of(o) }));
            } else { assert(told(gossip.sent(), o) + txs_cache.of(o) =~= told(s_, o) + c_.of(o)); }
        }
    }
//@ start
    let ghost g0 = *gossip;
    let ghost rx0 = stx_rx;
    proof { assert(rx0.got().skip(rx0.got().len() as int) =~= Seq::empty()); assert(rx0.got().take(rx0.got().len() as int) =~= rx0.got());
        assert forall|o: Origin| #[trigger] told(g0.sent(), o) + Seq::<SignedTransaction>::empty() == told(g0.sent(), o) + of_origin(Seq::empty(), o) by { assert(of_origin(Seq::empty(), o) =~= Seq::empty()); } }
//@end
}
impl DefaultMemPoolAdapter {
//@fn core/mempool/src/adapter/mod.rs :: impl MemPoolAdapter for DefaultMemPoolAdapter<C, N, S, DB, I>/fn broadcast_tx
//@ ret r
//@ sub /async fn/ => /pub fn/
//@ sub /\s*\.await/ => //
//@ sub /\(\s*&self,/ => /(&mut self,/
//@ sub /\.map_err\(AdapterError::from\)\?/ => /.map_err(|e_: SendError| AdapterError::from(e_))?/ ?
//@ spec
    ensures
        r is Ok ==> final(self).stx_tx@ == old(self).stx_tx@.push((origin, stx)),
        final(self).stx_tx@ == old(self).stx_tx@ || final(self).stx_tx@ == old(self).stx_tx@.push((origin, stx)),
//@end
}
impl MemPoolImpl {
//@fn core/mempool/src/lib.rs :: impl MemPoolImpl<Adapter>/fn insert_tx
//@ ret r
//@ sub /async fn/ => /fn/
//@ sub /\s*\.await/ => //
//@ sub /\(\s*&self,/ => /(&mut self,/
//@ spec
    ensures
        (final(self).pool.taken@ == old(self).pool.taken@ && final(self).adapter.stx_tx@ == old(self).adapter.stx_tx@)
            || (final(self).pool.taken@ == old(self).pool.taken@.push(tx)
                && (final(self).adapter.stx_tx@ == old(self).adapter.stx_tx@.push((origin_of(ctx), tx)) || (r is Err && final(self).adapter.stx_tx@ == old(self).adapter.stx_tx@))),
//@end
}
}
fn main() {}
