//@include head.rs
pub mod sh {
use super::*;
//@include num.rs
//@include bytes.rs
//@include rlp.rs
//@include types.rs
//@include tx.rs
//@include web3.rs
}
use sh::*;
// C27, the logs: what eth_getLogs and the polls of a filter answer is every log of the blocks asked for that the filter wants, in order, and no other.
global size_of usize == 8;
pub mod shim {
use super::*;
use super::sh::*;
broadcast use {num_axioms, bytes_axioms, rlp_axioms, vec_axioms};
//@include weblogs.rs
pub type RpcResult<T> = Result<T, RpcError>;


//@item core/api/src/jsonrpc/error.rs :: enum RpcError
//@end
//@item core/api/src/jsonrpc/web3_types.rs :: enum MultiNestType
//@end
//@item core/api/src/jsonrpc/web3_types.rs :: enum MultiType
//@end
//@item core/api/src/jsonrpc/web3_types.rs :: struct Web3Filter
//@end
//@item core/api/src/jsonrpc/web3_types.rs :: struct RawLoggerFilter
//@end
//@item core/api/src/jsonrpc/web3_types.rs :: enum FilterChanges
//@end
//@item core/api/src/jsonrpc/impl/filter.rs :: struct LoggerFilter
//@end
//@item core/api/src/jsonrpc/impl/filter.rs :: enum Command
//@ sub /oneshot::Sender/ => /Sender/
//@end
//@item core/api/src/jsonrpc/impl/web3.rs :: const MAX_LOG_NUM
//@ sub /pub\(crate\) const/ => /pub const/ 0
//@end
/// where an answer goes: `gets` is what is sent there (a sender is used up by sending)
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct Sender<T> { x: Option<T> }
impl<T> Sender<T> {
    pub uninterp spec fn gets(&self) -> T;
    #[verifier::external_body] pub fn send(self, x: T) -> (r: Result<(), T>) ensures self.gets() == x { unimplemented!() }
}
#[derive(Clone, Copy)] pub struct Instant(pub u64);
/// read from the clock during this call
pub uninterp spec fn recent(i: Instant) -> bool;
impl Instant { #[verifier::external_body] pub fn now() -> (r: Instant) ensures recent(r) { unimplemented!() } }
/// whether i is less than so many seconds before now
pub uninterp spec fn younger(now: Instant, i: Instant, secs: u64) -> bool;
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)] pub struct HashMap<K, V> { k: Option<K>, v: Option<V> }
impl<K, V> HashMap<K, V> {
    pub uninterp spec fn view(&self) -> Map<K, V>;
    #[verifier::external_body] pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
    #[verifier::external_body] pub fn remove(&mut self, k: &K) -> (r: Option<V>) ensures final(self)@ == old(self)@.remove(*k), r is Some == old(self)@.dom().contains(*k) { unimplemented!() }
    #[verifier::external_body] pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.dom().contains(*k) { unimplemented!() }
    #[verifier::external_body] pub fn get_mut<'a>(&'a mut self, k: &K) -> (r: Option<&'a mut V>)
        ensures match r { Some(m) => old(self)@.dom().contains(*k) && *m == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(m)), None => !old(self)@.dom().contains(*k) && final(self)@ == old(self)@ } { unimplemented!() }
}
/// those of `m` that are younger than so many seconds
pub open spec fn left_over<K, T>(x: Map<K, (T, Instant)>, m: Map<K, (T, Instant)>, now: Instant, secs: u64) -> bool {
    forall|k: K| #![trigger x.dom().contains(k)] #![trigger x[k]] (x.dom().contains(k) <==> m.dom().contains(k) && younger(now, m[k].1, secs)) && (x.dom().contains(k) ==> x[k] == m[k])
}
#[verifier::external_body] pub fn keep_younger<K, T>(m: &mut HashMap<K, (T, Instant)>, now: Instant, secs: u64)
    ensures left_over(final(m)@, old(m)@, now, secs) { unimplemented!() }
#[verifier::external_body] pub fn random_id() -> (r: U256) { unimplemented!() }
// ---- what is asked for ----
pub type Topics = Seq<Option<Vec<Option<H256>>>>;
/// a topic position: nothing, one topic, or a list of them (`null` in it: any)
pub open spec fn one_says(m: MultiNestType<H256>, w: Option<Vec<Option<H256>>>) -> bool { match m { MultiNestType::Null => w is None, MultiNestType::Single(t) => w matches Some(l) && l@ =~= seq![Some(t)], MultiNestType::Multi(l) => w == Some(l) } }
pub open spec fn listed(t: Option<Vec<MultiNestType<H256>>>) -> Seq<MultiNestType<H256>> { match t { Some(v) => v@, None => Seq::empty() } }
pub open spec fn first_say(t: Option<Vec<MultiNestType<H256>>>, n: int, w: Topics) -> bool { w.len() == least(listed(t).len() as int, n) && forall|i: int| 0 <= i < w.len() ==> one_says(#[trigger] listed(t)[i], w[i]) }
/// the first four positions
pub open spec fn topics_say(t: Option<Vec<MultiNestType<H256>>>, w: Topics) -> bool { first_say(t, 4, w) }
pub open spec fn addresses_say(m: MultiType<H160>, w: Option<Vec<H160>>) -> bool { match m { MultiType::Null => w is None, MultiType::Single(a) => w matches Some(l) && l@ =~= seq![a], MultiType::Multi(l) => w == Some(l) } }
pub open spec fn asked(a: Option<Vec<H160>>) -> Seq<H160> { match a { Some(l) => l@, None => Seq::empty() } }
pub open spec fn asked_ref(a: Option<&Vec<H160>>) -> Seq<H160> { match a { Some(l) => l@, None => Seq::empty() } }
#[verifier::external_body] pub fn topics_of(t: Option<Vec<MultiNestType<H256>>>, n: usize) -> (r: Vec<Option<Vec<Option<H256>>>>)
    ensures first_say(t, n as int, r@), n == 4 ==> topics_say(t, r@) { unimplemented!() }
#[verifier::external_body] pub fn or_none_<'a>(a: Option<&'a Vec<H160>>) -> (r: &'a [H160]) ensures r@ == asked_ref(a) { unimplemented!() }
#[verifier::external_body] pub fn min_(x: u64, y: u64) -> (r: u64) ensures r == (if x <= y { x } else { y }) { unimplemented!() }
// ---- the logs of a receipt, of receipts, of blocks ----
pub open spec fn lines(k: Receipt, index: int, a: Seq<H160>, t: Topics) -> Seq<LogV> { picks(k, k.logs@.len() as int, a, t).map_values(|i: int| log_v(k, i, index)) }
pub open spec fn lines_of(k: Seq<Receipt>, n: int, a: Seq<H160>, t: Topics) -> Seq<LogV> decreases n { if n <= 0 { Seq::empty() } else { lines_of(k, n - 1, a, t) + lines(k[n - 1], n - 1, a, t) } }
pub open spec fn present_of(c: Adapter, b: Block) -> Seq<Receipt> { c.receipts(b.header.number, b.tx_hashes@)->Ok_0@.map_values(|x: Option<Receipt>| x->Some_0) }
pub open spec fn block_lines(c: Adapter, b: Block, a: Seq<H160>, t: Topics) -> Seq<LogV> { lines_of(present_of(c, b), present_of(c, b).len() as int, a, t) }
/// those of the blocks lo, …, hi - 1
pub open spec fn lines_in(c: Adapter, lo: int, hi: int, a: Seq<H160>, t: Topics) -> Seq<LogV> decreases hi - lo { if hi <= lo { Seq::empty() } else { lines_in(c, lo, hi - 1, a, t) + block_lines(c, c.at(hi - 1), a, t) } }
pub open spec fn all_shown(v: Seq<Web3Log>) -> Seq<LogV> { v.map_values(|w: Web3Log| shown(w)) }
pub open spec fn begins(x: Seq<LogV>, y: Seq<LogV>) -> bool { x.len() <= y.len() && forall|i: int| 0 <= i < x.len() ==> #[trigger] x[i] == y[i] }
pub open spec fn all_some(v: Seq<Option<Receipt>>) -> bool { forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]) is Some }
pub proof fn add_lines(x: Seq<Web3Log>, y: Seq<Web3Log>, k: Receipt, index: usize, a: Seq<H160>, t: Topics)
    requires y.len() == x.len() + picks(k, k.logs@.len() as int, a, t).len(), forall|j: int| 0 <= j < x.len() ==> #[trigger] y[j] == x[j],
        forall|j: int| 0 <= j < picks(k, k.logs@.len() as int, a, t).len() ==> log_out(#[trigger] y[x.len() + j], k, picks(k, k.logs@.len() as int, a, t)[j], index),
    ensures all_shown(y) == all_shown(x) + lines(k, index as int, a, t)
{
    let l = lines(k, index as int, a, t);
    assert forall|i: int| 0 <= i < y.len() implies #[trigger] all_shown(y)[i] == (all_shown(x) + l)[i] by {
        if i >= x.len() { let j = i - x.len(); assert(log_out(y[x.len() + j], k, picks(k, k.logs@.len() as int, a, t)[j], index)); }
    }
    assert(all_shown(y) =~= all_shown(x) + l);
}
pub proof fn part_of(k: Seq<Receipt>, n: int, m: int, a: Seq<H160>, t: Topics) requires 0 <= n <= m ensures begins(lines_of(k, n, a, t), lines_of(k, m, a, t)) decreases m - n { if n < m { part_of(k, n, m - 1, a, t); } }
pub proof fn part_in(c: Adapter, lo: int, n: int, m: int, a: Seq<H160>, t: Topics) requires n <= m ensures begins(lines_in(c, lo, n, a, t), lines_in(c, lo, m, a, t)) decreases m - n { if n < m { part_in(c, lo, n, m - 1, a, t); } }
/// all of `all`, or, if those are too many, some from the front
pub open spec fn answers(v: Seq<Web3Log>, all: Seq<LogV>) -> bool { all_shown(v) == all || (v.len() > MAX_LOG_NUM && begins(all_shown(v), all)) }
/// the number a block parameter of a filter names: anything but a number and `earliest` is the newest
pub open spec fn number_in(id: Option<BlockId>, newest: u64) -> int { match id { Some(BlockId::Num(n)) => n@ as int, Some(BlockId::Earliest) => 0, _ => newest as int } }
pub open spec fn least(x: int, y: int) -> int { if x <= y { x } else { y } }
/// the blocks from, …, to that a filter means
pub open spec fn span(c: Adapter, from: Option<BlockId>, to: Option<BlockId>) -> (int, int) { let last = c.newest().header.number; (number_in(from, last), least(number_in(to, last), last as int)) }
pub open spec fn found(c: Adapter, f: Web3Filter, range: int, t: Topics, a: Seq<H160>, v: Seq<Web3Log>) -> bool {
    match f.block_hash {
        Some(h) => c.named(h) matches Ok(Some(b)) && answers(v, block_lines(c, b, a, t)),
        None => ({ let (lo, hi) = span(c, f.from_block, f.to_block); lo <= c.newest().header.number && hi - lo <= range && answers(v, lines_in(c, lo, hi + 1, a, t)) }),
    }
}
pub open spec fn target(c: Adapter, p: BlockPosition) -> Option<Block> { match p { BlockPosition::Hash(h) => (match c.named(h) { Ok(Some(b)) => Some(b), _ => None }), BlockPosition::Num(n) => Some(c.at(n as int)), BlockPosition::Block(b) => Some(b) } }
pub open spec fn reachable(c: Adapter, p: BlockPosition) -> bool { match p { BlockPosition::Num(n) => n <= c.newest().header.number, BlockPosition::Block(b) => b == c.newest(), _ => true } }

// ---- filters ----
pub type Logs = Map<U256, (LoggerFilter, Instant)>;
pub type Blocks = Map<U256, (u64, Instant)>;
pub struct FilterHub { pub logs_hub: HashMap<U256, (LoggerFilter, Instant)>, pub blocks_hub: HashMap<U256, (u64, Instant)>, pub adapter: Adapter, pub log_filter_max_block_range: u64 }
/// every filter of logs knows the number it is to look at next
pub open spec fn kept_ok(m: Logs) -> bool { forall|k: U256| #[trigger] m.dom().contains(k) ==> m[k].0.topics@.len() <= 4 && m[k].0.from_block matches Some(BlockId::Num(_)) }
/// the hashes of the blocks lo, …, hi - 1
pub open spec fn hashes_in(c: Adapter, lo: int, hi: int) -> Seq<H256> { Seq::new((if hi > lo { hi - lo } else { 0 }) as nat, |i: int| bhash(c.at(lo + i))) }
pub open spec fn filter_lines(c: Adapter, f: LoggerFilter) -> Seq<LogV> { let (lo, hi) = span(c, f.from_block, f.to_block); lines_in(c, lo, hi + 1, asked(f.address), f.topics@) }
/// the filter, having been told of the blocks that are there
pub open spec fn moved_on(c: Adapter, f: LoggerFilter, g: LoggerFilter) -> bool {
    let (lo, hi) = span(c, f.from_block, f.to_block);
    g.to_block == f.to_block && g.address == f.address && g.topics == f.topics && (if lo > c.newest().header.number { g.from_block == f.from_block } else { g.from_block == Some(BlockId::Num(u64_((hi + 1) as nat))) })
}
pub open spec fn too_wide(h: FilterHub, f: LoggerFilter) -> bool { let (lo, hi) = span(h.adapter, f.from_block, f.to_block); lo <= h.adapter.newest().header.number && hi - lo > h.log_filter_max_block_range }
pub open spec fn polled_blocks(o: FilterHub, f: FilterHub, id: U256, v: Seq<H256>) -> bool {
    let last = o.adapter.newest().header.number;
    &&& v =~= hashes_in(o.adapter, o.blocks_hub@[id].0 + 1, last + 1) && f.logs_hub@ == o.logs_hub@ && recent(f.blocks_hub@[id].1)
    &&& f.blocks_hub@ =~= o.blocks_hub@.insert(id, (if o.blocks_hub@[id].0 >= last { o.blocks_hub@[id].0 } else { last }, f.blocks_hub@[id].1))
}
pub open spec fn polled_logs(o: FilterHub, f: FilterHub, id: U256, r: RpcResult<Vec<Web3Log>>) -> bool {
    &&& f.blocks_hub@ == o.blocks_hub@ && kept_ok(f.logs_hub@) && f.logs_hub@.dom() =~= o.logs_hub@.dom() && recent(f.logs_hub@[id].1)
    &&& forall|k: U256| k != id && #[trigger] o.logs_hub@.dom().contains(k) ==> f.logs_hub@[k] == o.logs_hub@[k]
    &&& r is Ok == !too_wide(o, o.logs_hub@[id].0)
    &&& r matches Ok(v) ==> all_shown(v@) =~= filter_lines(o.adapter, o.logs_hub@[id].0) && moved_on(o.adapter, o.logs_hub@[id].0, f.logs_hub@[id].0)
}
pub open spec fn same_node(o: FilterHub, f: FilterHub) -> bool { f.adapter == o.adapter && f.log_filter_max_block_range == o.log_filter_max_block_range }
pub open spec fn polled(o: FilterHub, f: FilterHub, id: U256, x: RpcResult<FilterChanges>) -> bool {
    if o.blocks_hub@.dom().contains(id) { x matches Ok(FilterChanges::Blocks(v)) && polled_blocks(o, f, id, v@) }
    else if o.logs_hub@.dom().contains(id) {
        if too_wide(o, o.logs_hub@[id].0) { x is Err && f.blocks_hub@ == o.blocks_hub@ && f.logs_hub@ =~= o.logs_hub@.remove(id) }
        else { x matches Ok(FilterChanges::Logs(v)) && polled_logs(o, f, id, Ok(v)) }
    }
    else { x == Err::<FilterChanges, RpcError>(RpcError::CannotFindFilterId(id)) && f.blocks_hub@ == o.blocks_hub@ && f.logs_hub@ == o.logs_hub@ }
}
/// a new filter of logs, as it is kept: from the next block on, or from the later one it names
pub open spec fn kept_as(c: Adapter, f: LoggerFilter, g: LoggerFilter) -> bool {
    let last = c.newest().header.number;
    g.to_block == f.to_block && g.address == f.address && g.topics == f.topics && g.from_block == (match f.from_block { Some(BlockId::Num(n)) => if n@ < last { Some(BlockId::Num(u64_((last + 1) as nat))) } else { f.from_block }, _ => Some(BlockId::Num(u64_((last + 1) as nat))) })
}
pub open spec fn handled(o: FilterHub, f: FilterHub, c: Command) -> bool {
    match c {
        Command::NewLogs((q, s)) => s.gets() == s.gets() && f.blocks_hub@ == o.blocks_hub@ && f.logs_hub@ =~= o.logs_hub@.insert(s.gets(), f.logs_hub@[s.gets()]) && kept_as(o.adapter, q, f.logs_hub@[s.gets()].0) && recent(f.logs_hub@[s.gets()].1),
        Command::NewBlocks(s) => f.logs_hub@ == o.logs_hub@ && f.blocks_hub@ =~= o.blocks_hub@.insert(s.gets(), (o.adapter.newest().header.number, f.blocks_hub@[s.gets()].1)) && recent(f.blocks_hub@[s.gets()].1),
        Command::FilterRequest((id, s)) => polled(o, f, id, s.gets()),
        Command::Uninstall((id, s)) => s.gets() == (o.blocks_hub@.dom().contains(id) || o.logs_hub@.dom().contains(id)) && f.blocks_hub@ =~= o.blocks_hub@.remove(id)
            && (if o.blocks_hub@.dom().contains(id) { f.logs_hub@ == o.logs_hub@ } else { f.logs_hub@ =~= o.logs_hub@.remove(id) }),
    }
}
//@item core/api/src/jsonrpc/impl/web3.rs :: impl Web3RpcServer for Web3RpcImpl<Adapter>/fn get_logs
//@ sub /^.*?(enum BlockPosition \{.*?\n\s*\}\n).*$/ => /pub \1/
//@end
}
pub mod m {
use super::*;
use super::sh::*;
use super::shim::*;
broadcast use {num_axioms, bytes_axioms, rlp_axioms, vec_axioms};
//@fn core/api/src/jsonrpc/web3_types.rs :: impl From<MultiNestType<T>> for Option<Vec<Option<T>>>/fn from
//@ alias one_topic
//@ sub /fn from\(src: MultiNestType<T>\) -> Self/ => /pub fn one_topic(src: MultiNestType<H256>) -> Option<Vec<Option<H256>>>/
//@ ret r
//@ spec
    ensures one_says(src, r),
//@end
//@fn core/api/src/jsonrpc/web3_types.rs :: impl From<MultiType<T>> for Option<Vec<T>>/fn from
//@ alias addresses_from
//@ sub /fn from\(src: MultiType<T>\) -> Self/ => /pub fn addresses_from(src: MultiType<H160>) -> Option<Vec<H160>>/
//@ ret r
//@ spec
    ensures addresses_say(src, r),
//@end
//@fn core/api/src/jsonrpc/impl/filter.rs :: impl From<RawLoggerFilter> for LoggerFilter/fn from
//@ alias as_filter
//@ sub /fn from\(src: RawLoggerFilter\) -> Self/ => /pub fn as_filter(src: RawLoggerFilter) -> LoggerFilter/
//@ sub /src\s*\.topics\s*\.unwrap_or_default\(\)\s*\.into_iter\(\)\s*\.take\((\w+)\)\s*\.map\(Into::<Option<Vec<Option<H256>>>>::into\)\s*\.collect\(\)/ => /topics_of(src.topics, \1)/
//@ sub /src\.address\.into\(\)/ => /addresses_from(src.address)/
//@ ret r
//@ spec
    ensures r.from_block == src.from_block, r.to_block == src.to_block, addresses_say(src.address, r.address), topics_say(src.topics, r.topics@),
//@end
//@fn core/api/src/jsonrpc/impl/web3.rs :: impl Web3RpcServer for Web3RpcImpl<Adapter>/fn get_logs
//@ alias extend_logs
//@ sub /^.*?let extend_logs = \|logs: &mut Vec<Web3Log>,\s*receipts: Vec<Option<Receipt>>,\s*early_return: &mut bool\| \{(.*?)\n            \};.*$/ => /pub fn extend_logs(logs: &mut Vec<Web3Log>, receipts: Vec<Option<Receipt>>, early_return: &mut bool, topics: &[Option<Vec<Option<H256>>>], address: Option<&Vec<H160>>) {\1\n}/
//@ sub /for \((\w+), receipt\) in receipts\.into_iter\(\)\.flatten\(\)\.enumerate\(\) \{/ => /let recs_ = present_(receipts); for \1 in 0..recs_.len() { let receipt = same_(&recs_[\1]);/
//@ sub /address\.as_ref\(\)\.unwrap_or\(&&Vec::new\(\)\)/ => /or_none_(address)/
//@ sub /(from_receipt_to_web3_log\([^;]*;)/ => /\1 proof { add_lines(before, logs@, receipt, index, asked_ref(address), topics@); part_of(recs_@, index + 1, recs_@.len() as int, asked_ref(address), topics@); assert(all_shown(logs@) =~= all_shown(old(logs)@) + lines_of(recs_@, index + 1, asked_ref(address), topics@)); }/
//@ spec
    requires topics@.len() <= 4, all_some(receipts@), !*old(early_return),
    ensures ({ let k = receipts@.map_values(|x: Option<Receipt>| x->Some_0); let all = all_shown(old(logs)@) + lines_of(k, k.len() as int, asked_ref(address), topics@);
        if *final(early_return) { final(logs)@.len() > MAX_LOG_NUM && begins(all_shown(final(logs)@), all) } else { all_shown(final(logs)@) == all } }),
//@ start
    proof { assert(all_shown(logs@) + lines_of(receipts@.map_values(|x: Option<Receipt>| x->Some_0), 0, asked_ref(address), topics@) =~= all_shown(logs@)); }
//@ loop 0
    invariant topics@.len() <= 4, !*early_return, recs_@ == receipts@.map_values(|x: Option<Receipt>| x->Some_0), all_shown(logs@) == all_shown(old(logs)@) + lines_of(recs_@, index as int, asked_ref(address), topics@),
//@ loopstart 0
    let ghost before = logs@;
//@end
//@fn core/api/src/jsonrpc/impl/web3.rs :: impl Web3RpcServer for Web3RpcImpl<Adapter>/fn get_logs
//@ alias logs_at
//@ sub /^.*?(async fn get_logs<T: APIAdapter>\(.*?\n        \}\n).*$/ => /pub \1/
//@ sub /fn get_logs<T: APIAdapter>/ => /fn logs_at/
//@ sub /adapter: &T/ => /adapter: &Adapter/
//@ sub /let extend_logs = .*?\n            \};\n/ => //
//@ sub /extend_logs\((\w+), (\w+), (\w+)\)/ => /extend_logs(\1, \2, \3, topics, address)/
//@ sub /async fn/ => /fn/
//@ sub /\s*\.await/ => //
//@ sub /\|e\| RpcError::Internal\(e\.to_string\(\)\)/ => /|e: ProtocolError| -> (x: RpcError) { RpcError::Internal(e.to_string()) }/ 0
//@ sub /(RpcError::\w+(?:\([^()]*\))?)\s*\.into\(\)/ => /\1/ 0
//@ ret r
//@ spec
    requires adapter.sound(), reachable(*adapter, position), topics@.len() <= 4, !*old(early_return),
        target(*adapter, position) matches Some(b) ==> all_receipts(adapter.receipts(b.header.number, b.tx_hashes@)),
    ensures r is Ok ==> (target(*adapter, position) matches Some(b) && ({ let all = all_shown(old(logs)@) + block_lines(*adapter, b, asked_ref(address), topics@);
            if *final(early_return) { final(logs)@.len() > MAX_LOG_NUM && begins(all_shown(final(logs)@), all) } else { all_shown(final(logs)@) == all } })),
        r is Err ==> position is Hash && target(*adapter, position) is None,
//@end
pub struct Web3RpcImpl { pub adapter: Adapter, pub log_filter_max_block_range: u64 }
impl Web3RpcImpl {
//@fn core/api/src/jsonrpc/impl/web3.rs :: impl Web3RpcServer for Web3RpcImpl<Adapter>/fn get_logs
//@ alias get_logs
//@ sub /enum BlockPosition \{.*?(let address_filter)/ => /\1/
//@ sub /filter\s*\.topics\s*\.map\(\|s\| \{\s*s\.into_iter\(\)\s*\.take\((\w+)\)\s*\.map\(Into::<Option<Vec<Option<H256>>>>::into\)\s*\.collect\(\)\s*\}\)\s*\.unwrap_or_default\(\)/ => /topics_of(filter.topics, \1)/
//@ sub /filter\.address\.into\(\)/ => /addresses_from(filter.address)/
//@ sub /(let mut all_logs = Vec::new\(\);)/ => /\1 proof { assert forall|x: Seq<LogV>| #[trigger] (all_shown(all_logs@) + x) == x by { assert(all_shown(all_logs@) + x =~= x); } }/
//@ sub /get_logs\(\s*&\*self\.adapter,/ => /logs_at(&self.adapter,/
//@ sub /&topics,/ => /slice_(&topics),/
//@ sub /std::cmp::min\(/ => /min_(/
//@ sub /for (\w+) in (\w+)\.\.=(\w+) \{/ => /for \1 in \2..\3 + 1 {/
//@ sub /async fn/ => /fn/
//@ sub /\s*\.await/ => //
//@ sub /\|e\| RpcError::Internal\(e\.to_string\(\)\)/ => /|e: ProtocolError| -> (x: RpcError) { RpcError::Internal(e.to_string()) }/ 0
//@ sub /(RpcError::\w+(?:\([^()]*\))?)\s*\.into\(\)/ => /\1/ 0
//@ ret r
//@ closure 1
    -> (x: BlockNumber) ensures x == number_in(Some(id), latest_number)
//@ spec
    requires self.adapter.sound(), self.adapter.newest().header.number < u64::MAX,
        forall|h: H256| #[trigger] self.adapter.named(h) matches Ok(Some(b)) ==> all_receipts(self.adapter.receipts(b.header.number, b.tx_hashes@)),
    ensures r matches Ok(v) ==> exists|t: Topics, a: Option<Vec<H160>>| #[trigger] topics_say(filter.topics, t) && #[trigger] addresses_say(filter.address, a) && found(self.adapter, filter, self.log_filter_max_block_range as int, t, asked(a), v@),
        r is Err ==> (match filter.block_hash { Some(h) => !(self.adapter.named(h) matches Ok(Some(b))), None => ({ let (lo, hi) = span(self.adapter, filter.from_block, filter.to_block); lo > self.adapter.newest().header.number || hi - lo > self.log_filter_max_block_range }) }),
//@ loop 0
    invariant self.adapter.sound(), latest_block == self.adapter.newest(), latest_number == latest_block.header.number, topics@.len() <= 4, !early_return, topics_say(filter.topics, topics@), addresses_say(filter.address, address_filter),
        filter.block_hash is None, (start as int, end as int) == span(self.adapter, filter.from_block, filter.to_block), start <= latest_number, end <= latest_number < u64::MAX, end - start <= self.log_filter_max_block_range,
        start > end ==> !visiter_last_block && all_logs@.len() == 0,
        start <= end ==> visiter_last_block == (n > latest_number) && all_shown(all_logs@) == lines_in(self.adapter, start as int, least(n as int, latest_number as int), asked(address_filter), topics@),
//@ loopstart 0
    proof { if n != latest_number { part_in(self.adapter, start as int, n + 1, end + 1, asked(address_filter), topics@); } }
//@ loopafter 0
    proof { assert(self.adapter.at(latest_number as int) == latest_block); if start > end { assert(all_shown(all_logs@) =~= Seq::empty()); } }
//@end
}

//@fn core/api/src/jsonrpc/impl/filter.rs :: impl FilterHub<Adapter>/fn filter_logs
//@ alias extend_hub
//@ sub /^.*?let extend_logs = \|logs: &mut Vec<Web3Log>,\s*receipts: Vec<Option<Receipt>>\| \{(.*?)\n        \};.*$/ => /pub fn extend_hub(logs: &mut Vec<Web3Log>, receipts: Vec<Option<Receipt>>, topics: &[Option<Vec<Option<H256>>>], filter: &LoggerFilter) {\1\n}/
//@ sub /for \((\w+), receipt\) in receipts\.into_iter\(\)\.flatten\(\)\.enumerate\(\) \{/ => /let recs_ = present_(receipts); for \1 in 0..recs_.len() { let receipt = same_(&recs_[\1]);/
//@ sub /filter\.address\.as_ref\(\)\.unwrap_or\(&Vec::new\(\)\)/ => /slice_(filter.address.as_ref().unwrap_or(no_addresses()))/
//@ sub /(from_receipt_to_web3_log\(.*?logs,?\s*\))(\s*\})/ => /\1; proof { add_lines(before, logs@, receipt, index, asked(filter.address), topics@); assert(all_shown(logs@) =~= all_shown(old(logs)@) + lines_of(recs_@, index + 1, asked(filter.address), topics@)); }\2/
//@ spec
    requires topics@.len() <= 4, all_some(receipts@),
    ensures ({ let k = receipts@.map_values(|x: Option<Receipt>| x->Some_0); all_shown(final(logs)@) == all_shown(old(logs)@) + lines_of(k, k.len() as int, asked(filter.address), topics@) }),
//@ start
    proof { assert(all_shown(logs@) + lines_of(receipts@.map_values(|x: Option<Receipt>| x->Some_0), 0, asked(filter.address), topics@) =~= all_shown(logs@)); }
//@ loop 0
    invariant topics@.len() <= 4, recs_@ == receipts@.map_values(|x: Option<Receipt>| x->Some_0), all_shown(logs@) == all_shown(old(logs)@) + lines_of(recs_@, index as int, asked(filter.address), topics@),
//@ loopstart 0
    let ghost before = logs@;
//@end
impl FilterHub {
//@fn core/api/src/jsonrpc/impl/filter.rs :: impl FilterHub<Adapter>/fn check_hubs
//@ sub /self\s*\.(\w+)\s*\.retain\(\|_\w*, \(_\w*, time\)\| now\.saturating_duration_since\(\*time\) < Duration::from_secs\((\w+)\)\)/ => /keep_younger(&mut self.\1, now, \2)/ 2
//@ spec
    ensures same_node(*old(self), *final(self)), exists|now: Instant| #[trigger] recent(now) && left_over(final(self).blocks_hub@, old(self).blocks_hub@, now, 40) && left_over(final(self).logs_hub@, old(self).logs_hub@, now, 40),
//@end
//@fn core/api/src/jsonrpc/impl/filter.rs :: impl FilterHub<Adapter>/fn filter_block
//@ sub /async fn/ => /fn/
//@ sub /\s*\.await/ => //
//@ sub /\|e\| RpcError::Internal\(e\.to_string\(\)\)/ => /|e: ProtocolError| -> (x: RpcError) { RpcError::Internal(e.to_string()) }/ 0
//@ sub /(RpcError::\w+(?:\([^()]*\))?)\s*\.into\(\)/ => /\1/ 0
//@ ret r
//@ spec
    requires old(self).adapter.sound(), old(self).blocks_hub@.dom().contains(*id),
    ensures same_node(*old(self), *final(self)), polled_blocks(*old(self), *final(self), *id, r@),
//@ loop 0
    invariant self.adapter == old(self).adapter, self.adapter.sound(), latest == self.adapter.newest(), *start == old(self).blocks_hub@[*id].0, *start < latest.header.number, block_hashes@ == hashes_in(self.adapter, *start + 1, number as int),
//@ loopend 0
    proof { assert(block_hashes@ =~= hashes_in(self.adapter, *start + 1, number + 1)); }
//@end
//@fn core/api/src/jsonrpc/impl/filter.rs :: impl FilterHub<Adapter>/fn filter_logs
//@ sub /async fn/ => /fn/
//@ sub /\s*\.await/ => //
//@ sub /\|e\| RpcError::Internal\(e\.to_string\(\)\)/ => /|e: ProtocolError| -> (x: RpcError) { RpcError::Internal(e.to_string()) }/ 0
//@ sub /(RpcError::\w+(?:\([^()]*\))?)\s*\.into\(\)/ => /\1/ 0
//@ sub /let extend_logs = .*?\n        \};\n/ => //
//@ sub /extend_logs\(&mut (\w+), (\w+)\)/ => /extend_hub(&mut \1, \2, topics, filter)/
//@ sub /filter\.topics\.as_slice\(\)/ => /slice_(&filter.topics)/
//@ sub /std::cmp::min\(/ => /min_(/
//@ sub /for (\w+) in (\w+)\.\.=(\w+) \{/ => /for \1 in \2..\3 + 1 {/
//@ ret r
//@ closure 1
    -> (x: BlockNumber) ensures x == number_in(Some(*id), latest_number)
//@ spec
    requires old(self).adapter.sound(), old(self).adapter.newest().header.number < u64::MAX, old(self).logs_hub@.dom().contains(*id), kept_ok(old(self).logs_hub@),
    ensures same_node(*old(self), *final(self)), polled_logs(*old(self), *final(self), *id, r),
//@ start
    let ghost f0 = self.logs_hub@[*id].0;
//@ loop 0
    invariant self.adapter == old(self).adapter, self.log_filter_max_block_range == old(self).log_filter_max_block_range, self.adapter.sound(), latest_block == self.adapter.newest(), latest_number == latest_block.header.number,
        *filter == f0, topics@ == f0.topics@, topics@.len() <= 4, (start as int, end as int) == span(self.adapter, f0.from_block, f0.to_block), start <= latest_number, end <= latest_number < u64::MAX,
        start > end ==> !visiter_last_block && all_logs@.len() == 0,
        start <= end ==> visiter_last_block == (n > latest_number) && all_shown(all_logs@) == lines_in(self.adapter, start as int, least(n as int, latest_number as int), asked(f0.address), topics@),
//@ loopafter 0
    proof { assert(self.adapter.at(latest_number as int) == latest_block); if start > end { assert(all_shown(all_logs@) =~= Seq::empty()); } }
//@end
//@fn core/api/src/jsonrpc/impl/filter.rs :: impl FilterHub<Adapter>/fn impl_filter
//@ sub /async fn/ => /fn/
//@ sub /\s*\.await/ => //
//@ sub /\|e\| RpcError::Internal\(e\.to_string\(\)\)/ => /|e: ProtocolError| -> (x: RpcError) { RpcError::Internal(e.to_string()) }/ 0
//@ sub /(RpcError::\w+(?:\([^()]*\))?)\s*\.into\(\)/ => /\1/ 0
//@ sub /oneshot::Sender/ => /Sender/
//@ sub /\.map\(FilterChanges::Logs\)/ => /.map(|v: Vec<Web3Log>| -> (x: FilterChanges) ensures x == FilterChanges::Logs(v) { FilterChanges::Logs(v) })/
//@ spec
    requires old(self).adapter.sound(), old(self).adapter.newest().header.number < u64::MAX, kept_ok(old(self).logs_hub@),
    ensures same_node(*old(self), *final(self)), polled(*old(self), *final(self), id, sender.gets()), kept_ok(final(self).logs_hub@),
//@end
//@fn core/api/src/jsonrpc/impl/filter.rs :: impl FilterHub<Adapter>/fn handle
//@ sub /async fn/ => /fn/
//@ sub /\s*\.await/ => //
//@ sub /\|e\| RpcError::Internal\(e\.to_string\(\)\)/ => /|e: ProtocolError| -> (x: RpcError) { RpcError::Internal(e.to_string()) }/ 0
//@ sub /(RpcError::\w+(?:\([^()]*\))?)\s*\.into\(\)/ => /\1/ 0
//@ spec
    requires old(self).adapter.sound(), old(self).adapter.newest().header.number < u64::MAX, kept_ok(old(self).logs_hub@),
        cmd matches Command::NewLogs((q, s)) ==> q.topics@.len() <= 4,
    ensures same_node(*old(self), *final(self)), handled(*old(self), *final(self), cmd), kept_ok(final(self).logs_hub@),
//@end
}
}
}
fn main() {}
