//@include head.rs
pub mod sh {
use super::*;
//@include num.rs
//@include bytes.rs
}
use sh::*;
// C18: the pool's queues. The pool shares each transaction's state byte between its containers; here every pointer
// carries an identity and the state bytes are kept in one place (`Flags`), which every function that reads or sets
// one is handed.
pub mod pool {
use super::*;
use super::sh::*;
broadcast use {num_axioms, bytes_axioms};
pub struct UnsignedTransaction { pub n: U64, pub p: U64 }
impl UnsignedTransaction {
    #[verifier::external_body] pub fn nonce(&self) -> (r: &U64) ensures *r == self.n { unimplemented!() }
    #[verifier::external_body] pub fn gas_price(&self) -> (r: U64) ensures r == self.p { unimplemented!() }
}
pub struct UnverifiedTransaction { pub unsigned: UnsignedTransaction, pub hash: Hash }
pub struct SignedTransaction { pub transaction: UnverifiedTransaction, pub sender: H160 }
impl SignedTransaction { #[verifier::external_body] pub fn clone(&self) -> (r: SignedTransaction) ensures r == *self { unimplemented!() } }
/// a pointer to a pooled transaction
pub struct TxWrapper { pub tx: SignedTransaction, pub id: Ghost<int> }
pub type TxPtr = TxWrapper;
#[verifier::external_body] pub fn share_(p: &TxPtr) -> (r: TxPtr) ensures r == *p { unimplemented!() }
impl TxWrapper {
    #[verifier::inline] pub open spec fn s_hash(self) -> H256 { self.tx.transaction.hash }
    #[verifier::inline] pub open spec fn s_nonce(self) -> nat { self.tx.transaction.unsigned.n@ }
    #[verifier::inline] pub open spec fn s_price(self) -> nat { self.tx.transaction.unsigned.p@ }
    #[verifier::inline] pub open spec fn s_sender(self) -> H160 { self.tx.sender }
//@fn core/mempool/src/tx_wrapper.rs :: impl TxWrapper/fn hash
//@ ret r
//@ spec
    ensures r == self.s_hash(),
//@end
//@fn core/mempool/src/tx_wrapper.rs :: impl TxWrapper/fn nonce
//@ ret r
//@ spec
    ensures r@ == self.s_nonce(), *r == self.tx.transaction.unsigned.n,
//@end
//@fn core/mempool/src/tx_wrapper.rs :: impl TxWrapper/fn sender
//@ ret r
//@ spec
    ensures r == self.s_sender(),
//@end
//@fn core/mempool/src/tx_wrapper.rs :: impl TxWrapper/fn gas_price
//@ ret r
//@ spec
    ensures r@ == self.s_price(),
//@end
//@fn core/mempool/src/tx_wrapper.rs :: impl TxWrapper/fn raw_tx
//@ ret r
//@ spec
    ensures r == self.tx,
//@end
}
// ---- the state bytes ----
#[verifier::external_body] pub struct Flags { x: u8 }
impl Flags {
    pub uninterp spec fn of(&self, p: TxPtr) -> u8;
    /// pointers that exist
    pub uninterp spec fn used(&self, p: TxPtr) -> bool;
    pub open spec fn dropped(&self, p: TxPtr) -> bool { self.of(p) & 0x10 == 0x10 }
    pub open spec fn packaged(&self, p: TxPtr) -> bool { self.of(p) & 0x01 == 0x01 }
    pub open spec fn alive(&self, p: TxPtr) -> bool { !self.dropped(p) }
    pub open spec fn only(&self, o: &Flags, p: TxPtr) -> bool { (forall|q: TxPtr| q != p ==> #[trigger] self.of(q) == o.of(q)) && forall|q: TxPtr| #[trigger] self.used(q) == o.used(q) }
    #[verifier::external_body] pub fn load_(&self, p: &TxPtr) -> (r: u8) ensures r == self.of(*p) { unimplemented!() }
    #[verifier::external_body] pub fn fetch_or_(&mut self, p: &TxPtr, m: u8) ensures final(self).of(*p) == old(self).of(*p) | m, final(self).only(old(self), *p) { unimplemented!() }
    #[verifier::external_body] pub fn fetch_and_(&mut self, p: &TxPtr, m: u8) ensures final(self).of(*p) == old(self).of(*p) & m, final(self).only(old(self), *p) { unimplemented!() }
    #[verifier::external_body] pub fn fresh_(&mut self, t: SignedTransaction) -> (r: TxPtr) ensures r.tx == t, !old(self).used(r), final(self).used(r), final(self).of(r) == 0, final(self).only(old(self), r) || forall|q: TxPtr| q != r ==> final(self).used(q) == old(self).used(q) && final(self).of(q) == old(self).of(q) { unimplemented!() }
//@fn core/mempool/src/tx_wrapper.rs :: impl TxWrapper/fn is_dropped
//@ ret r
//@ sub /\(&self\)/ => /(&self, p: &TxPtr)/
//@ sub /self\.state\.load\(AtomicOrdering::Acquire\)/ => /self.load_(p)/
//@ spec
    ensures r == self.dropped(*p),
//@end
//@fn core/mempool/src/tx_wrapper.rs :: impl TxWrapper/fn is_package
//@ ret r
//@ sub /(pub )?fn is_package\(&self\)/ => /pub fn is_package(&self, p: &TxPtr)/
//@ sub /self\.state\.load\(AtomicOrdering::Acquire\)/ => /self.load_(p)/
//@ spec
    ensures r == self.packaged(*p),
//@end
//@fn core/mempool/src/tx_wrapper.rs :: impl TxWrapper/fn set_dropped
//@ sub /\(&self\)/ => /(&mut self, p: &TxPtr)/
//@ sub /self\.state\.fetch_or\((.*), AtomicOrdering::AcqRel\)/ => /let ghost b = self.of(*p); proof { bits(b); } self.fetch_or_(p, \1)/
//@ spec
    ensures final(self).only(old(self), *p), final(self).dropped(*p), final(self).packaged(*p) == old(self).packaged(*p),
//@end
//@fn core/mempool/src/tx_wrapper.rs :: impl TxWrapper/fn set_package
//@ sub /(pub )?fn set_package\(&self\)/ => /pub fn set_package(&mut self, p: &TxPtr)/
//@ sub /self\.state\.fetch_or\((.*), AtomicOrdering::AcqRel\)/ => /let ghost b = self.of(*p); proof { bits(b); } self.fetch_or_(p, \1)/
//@ spec
    ensures final(self).only(old(self), *p), final(self).packaged(*p), final(self).dropped(*p) == old(self).dropped(*p),
//@end
//@fn core/mempool/src/tx_wrapper.rs :: impl TxWrapper/fn unset_package
//@ sub /(pub )?fn unset_package\(&self\)/ => /pub fn unset_package(&mut self, p: &TxPtr)/
//@ sub /self\.state\.fetch_and\((.*), AtomicOrdering::AcqRel\)/ => /let ghost b = self.of(*p); proof { bits(b); } self.fetch_and_(p, \1)/
//@ spec
    ensures final(self).only(old(self), *p), !final(self).packaged(*p), final(self).dropped(*p) == old(self).dropped(*p),
//@end
}
pub proof fn bits(b: u8)
    ensures (b | 0x10) & 0x10 == 0x10, (b | 0x10) & 0x01 == b & 0x01, (b | 0x01) & 0x01 == 0x01, (b | 0x01) & 0x10 == b & 0x10, (b & !0x01) & 0x01 == 0, (b & !0x01) & 0x10 == b & 0x10,
{
    assert((b | 0x10) & 0x10 == 0x10) by (bit_vector); assert((b | 0x10) & 0x01 == b & 0x01) by (bit_vector); assert((b | 0x01) & 0x01 == 0x01) by (bit_vector);
    assert((b | 0x01) & 0x10 == b & 0x10) by (bit_vector); assert((b & !0x01u8) & 0x01 == 0) by (bit_vector); assert((b & !0x01u8) & 0x10 == b & 0x10) by (bit_vector);
}
// ---- one sender's queue ----
/// the map from nonces to pointers (trusted: a BTreeMap)
#[verifier::external_body] pub struct QueueMap { x: u8 }
/// a stretch of it, nonces rising
pub open spec fn stretch(m: Map<nat, TxPtr>, v: Seq<(U64, TxPtr)>, lo: nat, hi: nat) -> bool {
    &&& forall|i: int| 0 <= i < v.len() ==> m.contains_key((#[trigger] v[i]).0@) && m[v[i].0@] == v[i].1 && lo <= v[i].0@ <= hi
    &&& forall|i: int, j: int| 0 <= i < j < v.len() ==> (#[trigger] v[i]).0@ < (#[trigger] v[j]).0@
    &&& forall|n: nat| lo <= n <= hi && #[trigger] m.contains_key(n) ==> exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).0@ == n
}
/// the nonces of those that are f
pub open spec fn alive_of(m: Map<nat, TxPtr>, f: spec_fn(TxPtr) -> bool) -> Set<nat> { m.dom().filter(|n: nat| f(m[n])) }
impl QueueMap {
    #[verifier::external_body] pub fn count_<F: Fn(&TxPtr) -> bool>(&self, f: F, g: Ghost<spec_fn(TxPtr) -> bool>) -> (r: usize) requires forall|p: &TxPtr| call_requires(f, (p,)), forall|p: &TxPtr, b: bool| call_ensures(f, (p,), b) ==> b == (g@)(*p)
        ensures r == alive_of(self@, g@).len() { unimplemented!() }
    pub uninterp spec fn view(&self) -> Map<nat, TxPtr>;
    #[verifier::external_body] pub fn new_() -> (r: QueueMap) ensures r@ == Map::<nat, TxPtr>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures self@.dom().finite() && r == self@.dom().len() { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@ =~= Map::<nat, TxPtr>::empty()) { unimplemented!() }
    #[verifier::external_body] pub fn find_(&self, n: &U64) -> (r: Option<TxPtr>) ensures r == (if self@.contains_key(n@) { Some(self@[n@]) } else { None }) { unimplemented!() }
    #[verifier::external_body] pub fn swap_(&mut self, n: U64, p: TxPtr) -> (r: TxPtr) requires old(self)@.contains_key(n@) ensures r == old(self)@[n@], final(self)@ == old(self)@.insert(n@, p) { unimplemented!() }
    #[verifier::external_body] pub fn put_(&mut self, n: U64, p: TxPtr) ensures final(self)@ == old(self)@.insert(n@, p) { unimplemented!() }
    #[verifier::external_body] pub fn from_(&self, n: &U64) -> (r: Vec<(U64, TxPtr)>) ensures stretch(self@, r@, n@, (pow64() - 1) as nat) { unimplemented!() }
    #[verifier::external_body] pub fn between_(&self, a: &U64, b: &U64) -> (r: Vec<(U64, TxPtr)>) ensures stretch(self@, r@, a@, b@) { unimplemented!() }
    #[verifier::external_body] pub fn retain_<F: Fn(&TxPtr) -> bool>(&mut self, f: F) requires forall|p: &TxPtr| call_requires(f, (p,))
        ensures forall|n: nat| #[trigger] final(self)@.contains_key(n) ==> old(self)@.contains_key(n) && final(self)@[n] == old(self)@[n] && call_ensures(f, (&old(self)@[n],), true),
            forall|n: nat| #[trigger] old(self)@.contains_key(n) && !final(self)@.contains_key(n) ==> call_ensures(f, (&old(self)@[n],), false) { unimplemented!() }
}
pub proof fn ends(m: Map<nat, TxPtr>, v: Seq<(U64, TxPtr)>, lo: nat, t: nat)
    requires stretch(m, v, lo, (pow64() - 1) as nat), t <= v.len(), forall|i: int| 0 <= i < t ==> (#[trigger] v[i]).0@ == lo + i, t < v.len() ==> v[t as int].0@ != lo + t, lo < pow64(),
    ensures lo + t <= pow64(), lo + t == pow64() || !m.contains_key(lo + t),
{
    if t > 0 { assert(v[t - 1].0@ < pow64()); }
    if lo + t < pow64() && m.contains_key(lo + t) { let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]).0@ == lo + t; if i > t { if t > 0 { assert(v[t - 1].0@ < v[t as int].0@); } assert(v[t as int].0@ < v[i].0@); } }
}
#[verifier::external_body] pub fn item_(v: &Vec<(U64, TxPtr)>, i: usize) -> (r: (U64, TxPtr)) requires i < v@.len() ensures r == v@[i as int] { unimplemented!() }
//@item core/mempool/src/tx_wrapper.rs :: struct PendingQueue
//@ sub /BTreeMap<U64, TxPtr>/ => /QueueMap/
//@ sub /\n\s*(queue|pop_tip_nonce|current_tip_nonce|need_remove):/ => /\n    pub \1:/
//@end
pub open spec fn most(a: nat, b: nat) -> nat { if a >= b { a } else { b } }
pub open spec fn least(a: nat, b: nat) -> nat { if a <= b { a } else { b } }
/// those of the nonces a..b that were not on the package list, nonces rising
pub open spec fn newly(m: Map<nat, TxPtr>, f: &Flags, a: nat, b: nat) -> Seq<TxPtr> decreases b { if b <= a { Seq::empty() } else { let r = newly(m, f, a, (b - 1) as nat); if f.packaged(m[(b - 1) as nat]) { r } else { r.push(m[(b - 1) as nat]) } } }
impl PendingQueue {
    #[verifier::inline] pub open spec fn q(&self) -> Map<nat, TxPtr> { self.queue@ }
    #[verifier::inline] pub open spec fn cur(&self) -> nat { self.current_tip_nonce@ }
    #[verifier::inline] pub open spec fn pop(&self) -> nat { self.pop_tip_nonce@ }
    /// every entry is of the sender and under its nonce
    pub open spec fn keyed(&self, s: H160, f: &Flags) -> bool { self.cur() <= self.pop() && self.cur() < pow64() && forall|n: nat| #[trigger] self.q().contains_key(n) ==> self.q()[n].s_nonce() == n && self.q()[n].s_sender() == s && f.used(self.q()[n]) }
    /// from the account's nonce on: nothing is dropped, and what is on the package list is [cur, e), without a gap
    pub open spec fn run(&self, f: &Flags, e: nat) -> bool {
        &&& self.pop() <= e
        &&& forall|n: nat| self.cur() <= n < e ==> #[trigger] self.q().contains_key(n)
        &&& forall|n: nat| self.cur() <= n && #[trigger] self.q().contains_key(n) ==> f.alive(self.q()[n]) && (f.packaged(self.q()[n]) <==> n < e)
    }
    /// ... and goes as far as it can
    pub open spec fn full(&self, f: &Flags, e: nat) -> bool { self.run(f, e) && self.pop() == least(e, (pow64() - 1) as nat) && !self.q().contains_key(e) }
    /// the state of the search after t of the nonces from `pop` on
    pub open spec fn searched(&self, f0: &Flags, l0: Seq<TxPtr>, f: &Flags, l: Seq<TxPtr>, current: nat, t: nat) -> bool {
        let e = self.pop() + t;
        &&& l == l0 + newly(self.q(), f0, self.pop(), e)
        &&& current == least(e, (pow64() - 1) as nat) && e <= pow64()
        &&& forall|p: TxPtr| #[trigger] f.dropped(p) == f0.dropped(p)
        &&& forall|p: TxPtr| #[trigger] f.used(p) == f0.used(p)
        &&& forall|n: nat| self.pop() <= n < e ==> #[trigger] self.q().contains_key(n) && f.packaged(self.q()[n])
        &&& forall|p: TxPtr| #[trigger] f.of(p) != f0.of(p) ==> self.taken(p, e)
    }
    pub open spec fn taken(&self, p: TxPtr, e: nat) -> bool { self.pop() <= p.s_nonce() < e && self.q().contains_key(p.s_nonce()) && self.q()[p.s_nonce()] == p }
}
/// one more step of the search
pub proof fn stepped(q: &PendingQueue, s: H160, f0: &Flags, l0: Seq<TxPtr>, f: &Flags, l: Seq<TxPtr>, cur: nat, t: nat, f2: &Flags, l2: Seq<TxPtr>, cur2: nat)
    requires q.keyed(s, f0), q.searched(f0, l0, f, l, cur, t), q.pop() + t < pow64(), q.q().contains_key((q.pop() + t) as nat), cur2 == least((q.pop() + t + 1) as nat, (pow64() - 1) as nat),
        f.packaged(q.q()[(q.pop() + t) as nat]) ==> *f2 == *f && l2 == l,
        !f.packaged(q.q()[(q.pop() + t) as nat]) ==> l2 == l.push(q.q()[(q.pop() + t) as nat]) && f2.only(f, q.q()[(q.pop() + t) as nat]) && f2.packaged(q.q()[(q.pop() + t) as nat]) && f2.dropped(q.q()[(q.pop() + t) as nat]) == f.dropped(q.q()[(q.pop() + t) as nat]),
    ensures q.searched(f0, l0, f2, l2, cur2, t + 1),
{
    let n = (q.pop() + t) as nat; let v = q.q()[n];
    assert(v.s_nonce() == n);
    assert(f.of(v) == f0.of(v)) by { if f.of(v) != f0.of(v) { assert(q.taken(v, n)); } }
    assert(newly(q.q(), f0, q.pop(), n + 1) == (if f0.packaged(v) { newly(q.q(), f0, q.pop(), n) } else { newly(q.q(), f0, q.pop(), n).push(v) }));
    assert(l2 =~= l0 + newly(q.q(), f0, q.pop(), n + 1));
    assert forall|p: TxPtr| #[trigger] f2.dropped(p) == f0.dropped(p) by { assert(f.dropped(p) == f0.dropped(p)); if p != v { assert(f2.of(p) == f.of(p)); } }
    assert forall|p: TxPtr| #[trigger] f2.used(p) == f0.used(p) by { assert(f.used(p) == f0.used(p)); }
    assert forall|m: nat| q.pop() <= m < n + 1 implies #[trigger] q.q().contains_key(m) && f2.packaged(q.q()[m]) by { if m < n { let e = q.pop() + t; assert(q.pop() <= m < e); assert(q.q().contains_key(m)); assert(f.packaged(q.q()[m])); assert(q.q()[m].s_nonce() == m); assert(f2.of(q.q()[m]) == f.of(q.q()[m])); } }
    assert forall|p: TxPtr| #[trigger] f2.of(p) != f0.of(p) implies q.taken(p, n + 1) by { if p != v { assert(f2.of(p) == f.of(p)); assert(q.taken(p, n)); } }
}
/// where the search stops
pub proof fn stopped(q: &PendingQueue, q2: &PendingQueue, s: H160, f0: &Flags, l0: Seq<TxPtr>, f: &Flags, l: Seq<TxPtr>, cur: nat, t: nat, e0: nat)
    requires q.keyed(s, f0), q.searched(f0, l0, f, l, cur, t), q.run(f0, e0), (q.pop() + t) as nat == pow64() || !q.q().contains_key((q.pop() + t) as nat), q2.q() == q.q(), q2.cur() == q.cur(), q2.pop() == cur,
    ensures q2.full(f, (q.pop() + t) as nat), q2.keyed(s, f),
{
    let e = (q.pop() + t) as nat;
    assert(e0 <= e) by { if e0 > e { assert(q.q().contains_key(e)); assert(q.q()[e].s_nonce() == e); } }
    if q.q().contains_key(e) { assert(q.q()[e].s_nonce() == e); }
    assert forall|n: nat| q.cur() <= n < e implies #[trigger] q.q().contains_key(n) by { }
    assert forall|n: nat| q.cur() <= n && #[trigger] q.q().contains_key(n) implies f.alive(q.q()[n]) && (f.packaged(q.q()[n]) <==> n < e) by {
        let p = q.q()[n]; assert(p.s_nonce() == n); assert(f.dropped(p) == f0.dropped(p)); assert(f0.alive(p));
        if n >= e || n < q.pop() { assert(f.of(p) == f0.of(p)) by { if f.of(p) != f0.of(p) { assert(q.taken(p, e)); } } }
    }
    assert forall|n: nat| #[trigger] q.q().contains_key(n) implies q.q()[n].s_nonce() == n && q.q()[n].s_sender() == s && f.used(q.q()[n]) by { assert(f0.used(q.q()[n])); }
}
pub proof fn cleared_on(q: &PendingQueue, s: H160, v: Seq<(U64, TxPtr)>, f0: &Flags, f: &Flags, gap: bool, pop: nat, f2: &Flags, gap2: bool, g: nat, pop2: nat, t: nat)
    requires q.keyed(s, f0), stretch(q.q(), v, q.cur(), (pow64() - 1) as nat), t < v.len(), q.cleared(v, f0, f, gap, g, pop, t), gap2 == (gap || f.dropped(v[t as int].1)), !gap && gap2 ==> g == t,
        pop2 == (if !gap && gap2 { least(pop, v[t as int].0@) } else { pop }),
        gap2 ==> f2.only(f, v[t as int].1) && !f2.packaged(v[t as int].1) && f2.dropped(v[t as int].1) == f.dropped(v[t as int].1), !gap2 ==> *f2 == *f,
    ensures q.cleared(v, f0, f2, gap2, g, pop2, t + 1),
{
    let x = v[t as int].1;
    assert(f.dropped(x) == f0.dropped(x));
    assert forall|p: TxPtr| #[trigger] f2.dropped(p) == f0.dropped(p) by { assert(f.dropped(p) == f0.dropped(p)); if p != x { assert(f2.of(p) == f.of(p)); } }
    assert forall|p: TxPtr| #[trigger] f2.used(p) == f0.used(p) by { assert(f.used(p) == f0.used(p)); }
    assert forall|i: int| 0 <= i < t + 1 && gap2 && i >= g implies !f2.packaged((#[trigger] v[i]).1) by { if i < t { assert(v[i].0@ < v[t as int].0@); assert(v[i].1.s_nonce() == v[i].0@ && x.s_nonce() == v[t as int].0@); assert(f2.of(v[i].1) == f.of(v[i].1)); assert(!f.packaged(v[i].1)); } }
    assert forall|p: TxPtr| #[trigger] f2.of(p) != f0.of(p) implies gap2 && exists|i: int| g <= i < t + 1 && (#[trigger] v[i]).1 == p by {
        if f2.of(p) != f.of(p) { assert(p == x); assert(v[t as int].1 == p); } else { let i = choose|i: int| g <= i < t && (#[trigger] v[i]).1 == p; assert(v[i].1 == p); } }
}
pub proof fn gapped(q: &PendingQueue, s: H160, v: Seq<(U64, TxPtr)>, f0: &Flags, f: &Flags, gap: bool, g: nat, pop: nat, e0: nat)
    requires q.keyed(s, f0), q.half(f0, e0), stretch(q.q(), v, q.cur(), (pow64() - 1) as nat), q.cleared(v, f0, f, gap, g, pop, v.len()),
    ensures q.cur() <= pop, ({ let e = if gap { least(e0, v[g as int].0@) } else { e0 };
        pop <= e && (forall|n: nat| q.cur() <= n < e ==> #[trigger] q.q().contains_key(n) && f.alive(q.q()[n])) && forall|n: nat| q.cur() <= n && #[trigger] q.q().contains_key(n) && f.alive(q.q()[n]) ==> (f.packaged(q.q()[n]) <==> n < e) }),
        forall|p: TxPtr| #[trigger] f.of(p) != f0.of(p) ==> q.q().contains_key(p.s_nonce()) && q.q()[p.s_nonce()] == p,
        forall|p: TxPtr| #[trigger] f.packaged(p) ==> f0.packaged(p),
{
    let e = if gap { least(e0, v[g as int].0@) } else { e0 };
    assert forall|n: nat| q.cur() <= n && #[trigger] q.q().contains_key(n) && f.alive(q.q()[n]) implies (f.packaged(q.q()[n]) <==> n < e) by {
        assert(q.q()[n].s_nonce() == n);
        let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]).0@ == n; let p = v[i].1;
        assert(f.dropped(p) == f0.dropped(p));
        if gap && i >= g { assert(!f.packaged(p)); if i > g { assert(v[g as int].0@ < v[i].0@); } }
        else { assert(f.of(p) == f0.of(p)) by { if f.of(p) != f0.of(p) { let j = choose|j: int| g <= j < v.len() && (#[trigger] v[j]).1 == p; assert(v[i].0@ < v[j].0@ && v[j].1.s_nonce() == v[j].0@ && v[i].1.s_nonce() == v[i].0@); } } if gap { assert(v[i].0@ < v[g as int].0@); } }
    }
    assert forall|n: nat| q.cur() <= n < e implies #[trigger] q.q().contains_key(n) && f.alive(q.q()[n]) by {
        assert(q.q().contains_key(n)); assert(q.q()[n].s_nonce() == n);
        let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]).0@ == n; if gap && i >= g { if i > g { assert(v[g as int].0@ < v[i].0@); } } assert(f0.alive(v[i].1)); assert(f.dropped(v[i].1) == f0.dropped(v[i].1));
    }
    assert forall|p: TxPtr| #[trigger] f.of(p) != f0.of(p) implies q.q().contains_key(p.s_nonce()) && q.q()[p.s_nonce()] == p by { let i = choose|i: int| g <= i < v.len() && (#[trigger] v[i]).1 == p; assert(v[i].1.s_nonce() == v[i].0@); }
    assert forall|p: TxPtr| #[trigger] f.packaged(p) implies f0.packaged(p) by { if f.of(p) != f0.of(p) { let i = choose|i: int| g <= i < v.len() && (#[trigger] v[i]).1 == p; assert(!f.packaged(v[i].1)); } }
}
impl PendingQueue {
//@fn core/mempool/src/tx_wrapper.rs :: impl PendingQueue/fn insert
//@ ret r
//@ sub /nonce_diff: U64\)/ => /nonce_diff: U64, fl: &mut Flags)/
//@ sub /(\w+)\.(set_dropped|set_package|is_package|is_dropped)\(\)/ => /fl.\2(&\1)/
//@ sub /Arc::clone\(/ => /share_(/
//@ sub /self\.queue\.entry\(nonce\)/ => /self.queue.find_(&nonce)/
//@ sub /Entry::Occupied\(mut (\w+)\)/ => /Some(\1)/
//@ sub /Entry::Vacant\(\w+\)/ => /None/
//@ sub /\bo\.get\(\)/ => /o/
//@ sub /\bo\.insert\(/ => /self.queue.swap_(nonce, /
//@ sub /\bv\.insert\(tx\)/ => /self.queue.put_(nonce, tx)/
//@ sub /return (true|false);/ => /{ proof { assert(self.run(fl, most(e0, self.cur()))); } return \1; }/
//@ sub /\bfalse(\s*\}\s*)$/ => /proof { assert(self.run(fl, most(e0, self.cur()))); } false\1/
//@ spec
    requires old(self).keyed(tx.s_sender(), old(fl)), nonce_diff@ <= tx.s_nonce(), old(fl).used(tx), old(fl).alive(tx), !old(fl).packaged(tx), exists|e: nat| old(self).run(old(fl), e),
        forall|n: nat| #[trigger] old(self).q().contains_key(n) ==> old(self).q()[n] != tx,
    ensures final(self).keyed(tx.s_sender(), final(fl)), exists|e: nat| final(self).run(final(fl), e),
        // a transaction of a nonce the account is past is not taken
        final(self).cur() == (if tx.s_nonce() >= old(self).cur() && tx.s_nonce() - nonce_diff@ > old(self).cur() { (tx.s_nonce() - nonce_diff@) as nat } else { old(self).cur() }),
        tx.s_nonce() < old(self).cur() ==> final(self).q() == old(self).q() && final(fl).dropped(tx) && final(fl).only(old(fl), tx) && !r,
        // one of a new nonce is
        tx.s_nonce() >= old(self).cur() && !old(self).q().contains_key(tx.s_nonce()) ==> final(self).q() == old(self).q().insert(tx.s_nonce(), tx) && *final(fl) == *old(fl) && !r,
        // one replaces another of its sender and nonce only for a higher price, and takes its place on the package list
        tx.s_nonce() >= old(self).cur() && old(self).q().contains_key(tx.s_nonce()) && old(self).q()[tx.s_nonce()].s_price() >= tx.s_price() ==> final(self).q() == old(self).q() && final(fl).dropped(tx) && final(fl).only(old(fl), tx) && !r,
        tx.s_nonce() >= old(self).cur() && old(self).q().contains_key(tx.s_nonce()) && old(self).q()[tx.s_nonce()].s_price() < tx.s_price() ==> final(self).q() == old(self).q().insert(tx.s_nonce(), tx) && final(fl).dropped(old(self).q()[tx.s_nonce()])
            && final(fl).alive(tx) && final(fl).packaged(tx) == r && r == old(fl).packaged(old(self).q()[tx.s_nonce()]) && (forall|p: TxPtr| p != tx && p != old(self).q()[tx.s_nonce()] ==> #[trigger] final(fl).of(p) == old(fl).of(p)) && forall|p: TxPtr| #[trigger] final(fl).used(p) == old(fl).used(p),
//@ start
    let ghost e0 = choose|e: nat| old(self).run(old(fl), e);
//@end
//@fn core/mempool/src/tx_wrapper.rs :: impl PendingQueue/fn try_search_package_list
//@ isolate
//@ sub /list: &mut Vec<TxPtr>\)/ => /list: &mut Vec<TxPtr>, fl: &mut Flags)/
//@ sub /(\w+)\.(set_dropped|set_package|is_package|is_dropped)\(\)/ => /fl.\2(&\1)/
//@ sub /Arc::clone\((\w+)\)/ => /share_(&\1)/
//@ sub /for \(k, v\) in self\.queue\.range\(\(Included\(current\), Unbounded\)\) \{/ => /let run_ = self.queue.from_(&current); let mut at_: usize = 0; while at_ < run_.len() { let (k, v) = item_(&run_, at_); at_ = at_ + 1; proof { let t = (at_ - 1) as nat; if t > 0 { assert(run_@[t - 1].0@ < run_@[t as int].0@); } assert(run_@[t as int] == (k, v)); assert(v.s_nonce() == k@); if k@ != old(self).pop() + t { ends(self.q(), run_@, old(self).pop(), t); assert(old(self).searched(old(fl), old(list)@, fl, list@, current@, t)); } else { assert(current@ == k@); assert(current == k); } } let ghost (b0, b1, b2, b3) = (*fl, list@, current@, (at_ - 1) as nat);/
//@ sub /        self\.pop_tip_nonce = current;/ => /        let ghost t = choose|t: nat| #[trigger] old(self).searched(old(fl), old(list)@, fl, list@, current@, t) && ((old(self).pop() + t) as nat == pow64() || !self.q().contains_key((old(self).pop() + t) as nat)); self.pop_tip_nonce = current; proof { let s = choose|s: H160| old(self).keyed(s, old(fl)); let e0 = choose|e: nat| old(self).run(old(fl), e); stopped(old(self), self, s, old(fl), old(list)@, fl, list@, current@, t, e0); assert forall|s: H160| old(self).keyed(s, old(fl)) implies self.keyed(s, fl) by { stopped(old(self), self, s, old(fl), old(list)@, fl, list@, current@, t, e0); } }/
//@ sub /k == &current/ => /k == current/
//@ sub /continue;/ => /{ proof { let s = choose|s: H160| self.keyed(s, old(fl)); stepped(old(self), s, old(fl), old(list)@, &b0, b1, b2, b3, fl, list@, current@); } continue; }/
//@ sub /list\.push\(([^;]*)\);/ => /list.push(\1); proof { let s = choose|s: H160| self.keyed(s, old(fl)); stepped(old(self), s, old(fl), old(list)@, &b0, b1, b2, b3, fl, list@, current@); }/
//@ nloops 1
//@ loop 0
    invariant_except_break forall|i: int| 0 <= i < at_ ==> (#[trigger] run_@[i]).0@ == old(self).pop() + i, old(self).searched(old(fl), old(list)@, fl, list@, current@, at_ as nat),
    invariant *self == *old(self), stretch(self.q(), run_@, old(self).pop(), (pow64() - 1) as nat), at_ <= run_@.len(), exists|s: H160| self.keyed(s, old(fl)),
    ensures *self == *old(self), exists|t: nat| #[trigger] old(self).searched(old(fl), old(list)@, fl, list@, current@, t) && ((old(self).pop() + t) as nat == pow64() || !self.q().contains_key((old(self).pop() + t) as nat)),
    decreases run_@.len() - at_,
//@ spec
    requires exists|e: nat| old(self).run(old(fl), e), exists|s: H160| old(self).keyed(s, old(fl)),
    ensures final(self).q() == old(self).q(), final(self).cur() == old(self).cur(), final(self).need_remove == old(self).need_remove,
        exists|e: nat| #[trigger] final(self).full(final(fl), e) && final(list)@ == old(list)@ + newly(old(self).q(), old(fl), old(self).pop(), e) && forall|p: TxPtr| #[trigger] final(fl).of(p) != old(fl).of(p) ==> old(self).taken(p, e),
        forall|s: H160| old(self).keyed(s, old(fl)) ==> final(self).keyed(s, final(fl)),
        forall|p: TxPtr| #[trigger] final(fl).dropped(p) == old(fl).dropped(p), forall|p: TxPtr| #[trigger] final(fl).used(p) == old(fl).used(p),
        forall|p: TxPtr| #[trigger] final(fl).of(p) != old(fl).of(p) ==> old(self).q().contains_key(p.s_nonce()) && old(self).q()[p.s_nonce()] == p,
//@end
    /// what there is while flushed ones may be dropped already
    pub open spec fn half(&self, f: &Flags, e: nat) -> bool {
        &&& self.pop() <= e
        &&& forall|n: nat| self.cur() <= n < e ==> #[trigger] self.q().contains_key(n)
        &&& forall|n: nat| self.cur() <= n && #[trigger] self.q().contains_key(n) ==> (f.packaged(self.q()[n]) <==> n < e)
    }
    /// the clearing after t of the nonces from `cur` on, the first dropped one being the g-th
    pub open spec fn cleared(&self, v: Seq<(U64, TxPtr)>, f0: &Flags, f: &Flags, gap: bool, g: nat, pop: nat, t: nat) -> bool {
        &&& forall|i: int| 0 <= i < t && !(gap && i >= g) ==> f0.alive((#[trigger] v[i]).1)
        &&& gap ==> g < t && f0.dropped(v[g as int].1)
        &&& gap ==> pop == least(self.pop(), v[g as int].0@)
        &&& !gap ==> pop == self.pop()
        &&& forall|p: TxPtr| #[trigger] f.dropped(p) == f0.dropped(p)
        &&& forall|p: TxPtr| #[trigger] f.used(p) == f0.used(p)
        &&& forall|i: int| 0 <= i < t && gap && i >= g ==> !f.packaged((#[trigger] v[i]).1)
        &&& forall|p: TxPtr| #[trigger] f.of(p) != f0.of(p) ==> gap && exists|i: int| g <= i < t && (#[trigger] v[i]).1 == p
    }
//@fn core/mempool/src/tx_wrapper.rs :: impl PendingQueue/fn clear_droped
//@ sub /\(&mut self\)/ => /(&mut self, fl: &mut Flags)/
//@ sub /(\w+)\.(set_dropped|set_package|unset_package)\(\)/ => /fl.\2(&\1)/
//@ sub /!v\.is_dropped\(\)\);/ => /!fl.is_dropped(v));/
//@ sub /(\w+)\.(is_package|is_dropped)\(\)/ => /fl.\2(&\1)/
//@ sub /for \(k, v\) in self\s*\.queue\s*\.range\(\(Included\(self\.current_tip_nonce\), Unbounded\)\)\s*\{/ => /let run_ = self.queue.from_(&self.current_tip_nonce); let ghost mut g: nat = 0; let mut at_: usize = 0; while at_ < run_.len() { let (k, v) = item_(&run_, at_); at_ = at_ + 1; let ghost (b0, b1, b2) = (*fl, gap, self.pop());/
//@ sub /gap = true;/ => /gap = true; proof { g = (at_ - 1) as nat; }/
//@ sub /\*k\b/ => /k/
//@ sub /self\.queue\.retain\(\|_\w*, v\| (.*)\);/ => /proof { gapped(old(self), s0, run_@, old(fl), fl, gap, g, self.pop(), e0); } let ghost mid = *self; let fl_ = &*fl; self.queue.retain_(|v: &TxPtr| -> (b: bool) ensures b == fl_.alive(*v) { \1 }); proof { let e = if gap { least(e0, run_@[g as int].0@) } else { e0 }; assert forall|n: nat| self.cur() <= n < e implies #[trigger] self.q().contains_key(n) by { assert(old(self).q().contains_key(n)); assert(mid.q().contains_key(n)); } assert(self.pop() <= e); assert forall|n: nat| self.cur() <= n && #[trigger] self.q().contains_key(n) implies fl.alive(self.q()[n]) && (fl.packaged(self.q()[n]) <==> n < e) by { assert(mid.q().contains_key(n)); assert(fl.alive(self.q()[n])); } assert(self.run(fl, e)); }/
//@ nloops 1
//@ start
    let ghost e0 = choose|e: nat| old(self).half(old(fl), e); let ghost s0 = choose|s: H160| old(self).keyed(s, old(fl));
//@ loop 0
    invariant self.q() == old(self).q(), self.current_tip_nonce == old(self).current_tip_nonce, self.need_remove == (old(self).need_remove || old(self).q() =~= Map::<nat, TxPtr>::empty()), stretch(self.q(), run_@, self.cur(), (pow64() - 1) as nat), at_ <= run_@.len(),
        old(self).keyed(s0, old(fl)), old(self).half(old(fl), e0), old(self).cleared(run_@, old(fl), fl, gap, g, self.pop(), at_ as nat),
    decreases run_@.len() - at_,
//@ loopend 0
    proof { cleared_on(old(self), s0, run_@, old(fl), &b0, b1, b2, fl, gap, g, self.pop(), (at_ - 1) as nat); }
//@ spec
    requires exists|e: nat| old(self).half(old(fl), e), exists|s: H160| old(self).keyed(s, old(fl)),
    ensures // the dropped ones are gone, no other is
        forall|n: nat| #[trigger] final(self).q().contains_key(n) <==> old(self).q().contains_key(n) && old(fl).alive(old(self).q()[n]),
        forall|n: nat| #[trigger] final(self).q().contains_key(n) ==> final(self).q()[n] == old(self).q()[n],
        final(self).cur() == old(self).cur(), exists|e: nat| final(self).run(final(fl), e), forall|s: H160| old(self).keyed(s, old(fl)) ==> final(self).keyed(s, final(fl)),
        final(self).need_remove ==> old(self).need_remove || old(self).q() =~= Map::<nat, TxPtr>::empty(),
        forall|p: TxPtr| #[trigger] final(fl).dropped(p) == old(fl).dropped(p), forall|p: TxPtr| #[trigger] final(fl).used(p) == old(fl).used(p),
        forall|p: TxPtr| #[trigger] final(fl).of(p) != old(fl).of(p) ==> old(self).q().contains_key(p.s_nonce()) && old(self).q()[p.s_nonce()] == p,
        forall|p: TxPtr| #[trigger] final(fl).packaged(p) ==> old(fl).packaged(p),
//@end
//@fn core/mempool/src/tx_wrapper.rs :: impl PendingQueue/fn set_drop_by_nonce_tip
//@ sub /nonce: U64\)/ => /nonce: U64, fl: &mut Flags)/
//@ sub /(\w+)\.(set_dropped|set_package|unset_package|is_package|is_dropped)\(\)/ => /fl.\2(&\1)/
//@ sub /for \(_, v\) in self\s*\.queue\s*\.range\(\(Included\(0\.into\(\)\), Included\(nonce\)\)\)\s*\{/ => /let run_ = self.queue.between_(&U64::zero(), &nonce); let mut at_: usize = 0; while at_ < run_.len() { let (k, v) = item_(&run_, at_); at_ = at_ + 1; let ghost b0 = *fl;/
//@ nloops 1
//@ loop 0
    invariant *self == *old(self), stretch(self.q(), run_@, 0, nonce@), at_ <= run_@.len(), exists|s: H160| old(self).keyed(s, old(fl)),
        forall|i: int| 0 <= i < at_ ==> fl.dropped((#[trigger] run_@[i]).1),
        forall|p: TxPtr| #[trigger] fl.packaged(p) == old(fl).packaged(p), forall|p: TxPtr| #[trigger] fl.used(p) == old(fl).used(p), forall|p: TxPtr| old(fl).dropped(p) ==> #[trigger] fl.dropped(p),
        forall|p: TxPtr| #[trigger] fl.of(p) != old(fl).of(p) ==> self.q().contains_key(p.s_nonce()) && self.q()[p.s_nonce()] == p && p.s_nonce() <= nonce@,
    decreases run_@.len() - at_,
//@ loopend 0
    proof { let x = run_@[at_ - 1].1; assert(x == v); assert(x.s_nonce() == k@);
        assert forall|i: int| 0 <= i < at_ implies fl.dropped((#[trigger] run_@[i]).1) by { if run_@[i].1 != x { assert(fl.of(run_@[i].1) == b0.of(run_@[i].1)); assert(b0.dropped(run_@[i].1)); } }
        assert forall|p: TxPtr| #[trigger] fl.packaged(p) == old(fl).packaged(p) by { assert(b0.packaged(p) == old(fl).packaged(p)); if p != x { assert(fl.of(p) == b0.of(p)); } }
        assert forall|p: TxPtr| #[trigger] fl.used(p) == old(fl).used(p) by { assert(b0.used(p) == old(fl).used(p)); }
        assert forall|p: TxPtr| old(fl).dropped(p) implies #[trigger] fl.dropped(p) by { assert(b0.dropped(p)); if p != x { assert(fl.of(p) == b0.of(p)); } }
        assert forall|p: TxPtr| #[trigger] fl.of(p) != old(fl).of(p) implies self.q().contains_key(p.s_nonce()) && self.q()[p.s_nonce()] == p && p.s_nonce() <= nonce@ by { if p != x { assert(fl.of(p) == b0.of(p)); } }
    }
//@ end
    proof {
        let e0 = choose|e: nat| old(self).half(old(fl), e);
        let e = most(e0, self.cur());
        assert forall|n: nat| self.cur() <= n && #[trigger] self.q().contains_key(n) implies (fl.packaged(self.q()[n]) <==> n < e) by { assert(self.q()[n].s_nonce() == n); assert(fl.packaged(self.q()[n]) == old(fl).packaged(self.q()[n])); }
        assert(old(self).cur() <= nonce@ + 1 ==> self.half(fl, e));
        assert forall|n: nat| n <= nonce@ && #[trigger] self.q().contains_key(n) implies fl.dropped(self.q()[n]) by { let i = choose|i: int| 0 <= i < run_@.len() && (#[trigger] run_@[i]).0@ == n; assert(run_@[i].1 == self.q()[n]); }
        assert forall|s: H160| old(self).keyed(s, old(fl)) implies self.keyed(s, fl) by { assert forall|n: nat| #[trigger] self.q().contains_key(n) implies self.q()[n].s_nonce() == n && self.q()[n].s_sender() == s && fl.used(self.q()[n]) by { assert(old(self).q().contains_key(n)); assert(old(fl).used(self.q()[n])); } }
    }
//@ spec
    requires exists|e: nat| old(self).half(old(fl), e), exists|s: H160| old(self).keyed(s, old(fl)), old(self).cur() <= nonce@ + 1,
    ensures // every one of the sender's up to this nonce is dropped, no other is
        forall|n: nat| n <= nonce@ && #[trigger] final(self).q().contains_key(n) ==> final(fl).dropped(final(self).q()[n]),
        forall|p: TxPtr| #[trigger] final(fl).of(p) != old(fl).of(p) ==> old(self).q().contains_key(p.s_nonce()) && old(self).q()[p.s_nonce()] == p && p.s_nonce() <= nonce@,
        final(self).q() == old(self).q(), final(self).need_remove == old(self).need_remove, final(self).cur() == least((nonce@ + 1) as nat, (pow64() - 1) as nat), exists|e: nat| final(self).half(final(fl), e), forall|s: H160| old(self).keyed(s, old(fl)) ==> final(self).keyed(s, final(fl)),
        forall|p: TxPtr| #[trigger] final(fl).packaged(p) == old(fl).packaged(p), forall|p: TxPtr| #[trigger] final(fl).used(p) == old(fl).used(p), forall|p: TxPtr| old(fl).dropped(p) ==> #[trigger] final(fl).dropped(p),
//@end
//@fn core/mempool/src/tx_wrapper.rs :: impl PendingQueue/fn count
//@ ret r
//@ sub /\(&self\)/ => /(&self, fl: &Flags)/
//@ sub /(\w+)\.(is_package|is_dropped)\(\)/ => /fl.\2(\1)/
//@ sub /self\.queue\.values\(\)\.filter\(\|tx\| ([^;]*)\)\.count\(\)/ => /self.queue.count_(|tx: &TxPtr| -> (b: bool) ensures b == fl.alive(*tx) { \1 }, Ghost(|tx: TxPtr| fl.alive(tx)))/
//@ spec
    ensures r == alive_of(self.q(), |p: TxPtr| fl.alive(p)).len(),
//@end
//@fn core/mempool/src/tx_wrapper.rs :: impl PendingQueue/fn need_remove
//@ ret r
//@ spec
    ensures r == self.need_remove,
//@end
//@fn core/mempool/src/tx_wrapper.rs :: impl PendingQueue/fn len
//@ ret r
//@ spec
    ensures self.q().dom().finite(), r == self.q().dom().len(),
//@end
}
// ---- the order of the list ----
pub uninterp spec fn sle(a: H160, b: H160) -> bool;
pub broadcast axiom fn axiom_sle_total(a: H160, b: H160) ensures #[trigger] sle(a, b) || sle(b, a);
pub axiom fn axiom_sle_anti(a: H160, b: H160) requires sle(a, b), sle(b, a) ensures a == b;
/// a pair's order: senders first, then nonces
pub open spec fn kle(a: (H160, U64), b: (H160, U64)) -> bool { if a.0 == b.0 { a.1@ <= b.1@ } else { sle(a.0, b.0) } }
/// `b` is `a` with its items moved, the i-th having been the p[i]-th
pub open spec fn hit(p: Seq<int>, k: int) -> bool { exists|i: int| 0 <= i < p.len() && #[trigger] p[i] == k }
pub open spec fn moved<T>(a: Seq<T>, b: Seq<T>, p: Seq<int>) -> bool {
    &&& p.len() == a.len() && b.len() == a.len()
    &&& forall|i: int| 0 <= i < p.len() ==> 0 <= #[trigger] p[i] < a.len() && b[i] == a[p[i]]
    &&& forall|i: int, j: int| 0 <= i < p.len() && 0 <= j < p.len() && #[trigger] p[i] == #[trigger] p[j] ==> i == j
    &&& forall|k: int| 0 <= k < a.len() ==> #[trigger] hit(p, k)
}
pub open spec fn moved_some<T>(a: Seq<T>, b: Seq<T>) -> bool { exists|p: Seq<int>| moved(a, b, p) }
/// the same, equal keys staying in their order
pub open spec fn by_key<F: Fn(&TxPtr) -> (H160, U64)>(f: F, x: TxPtr, y: TxPtr) -> bool { exists|a: (H160, U64), b: (H160, U64)| call_ensures(f, (&x,), a) && call_ensures(f, (&y,), b) && #[trigger] kle(a, b) }
#[verifier::external_body] pub fn sort_ptrs_<F: Fn(&TxPtr) -> (H160, U64)>(v: &mut Vec<TxPtr>, f: F) requires forall|p: &TxPtr| call_requires(f, (p,))
    ensures moved_some(old(v)@, final(v)@), forall|i: int, j: int| 0 <= i < j < final(v)@.len() ==> by_key(f, #[trigger] final(v)@[i], #[trigger] final(v)@[j]) { unimplemented!() }
pub open spec fn ple(a: U64, b: U64, before: bool) -> bool { a@ <= b@ && (a@ == b@ ==> before) }
pub open spec fn by_price<F: Fn(&(U64, TxPtr)) -> U64>(f: F, x: (U64, TxPtr), y: (U64, TxPtr), before: bool) -> bool { exists|a: U64, b: U64| call_ensures(f, (&x,), a) && call_ensures(f, (&y,), b) && #[trigger] ple(a, b, before) }
#[verifier::external_body] pub fn sort_priced_<F: Fn(&(U64, TxPtr)) -> U64>(v: &mut Vec<(U64, TxPtr)>, f: F) requires forall|p: &(U64, TxPtr)| call_requires(f, (p,))
    ensures exists|p: Seq<int>| #[trigger] moved(old(v)@, final(v)@, p) && forall|i: int, j: int| 0 <= i < j < p.len() ==> by_price(f, final(v)@[i], final(v)@[j], #[trigger] p[i] < #[trigger] p[j]) { unimplemented!() }
#[verifier::external_body] pub fn drain_all_(v: &mut Vec<TxPtr>) -> (r: Vec<TxPtr>) ensures r@ == old(v)@, final(v)@ == Seq::<TxPtr>::empty() { unimplemented!() }
#[verifier::external_body] pub fn last_of_(v: &Vec<(U64, TxPtr)>) -> (r: Option<(U64, TxPtr)>) ensures r == (if v@.len() > 0 { Some(v@.last()) } else { None }) { unimplemented!() }
#[verifier::external_body] pub fn extend_seconds_(v: &mut Vec<TxPtr>, w: Vec<(U64, TxPtr)>) ensures final(v)@ == old(v)@ + w@.map_values(|x: (U64, TxPtr)| x.1) { unimplemented!() }
/// each sender's transactions in the order of their nonces
pub open spec fn in_order(v: Seq<TxPtr>) -> bool { forall|i: int, j: int| 0 <= i < j < v.len() && (#[trigger] v[i]).s_sender() == (#[trigger] v[j]).s_sender() ==> v[i].s_nonce() <= v[j].s_nonce() }
pub open spec fn grouped(v: Seq<TxPtr>) -> bool { forall|i: int, j: int| 0 <= i < j < v.len() ==> kle(((#[trigger] v[i]).s_sender(), v[i].tx.transaction.unsigned.n), ((#[trigger] v[j]).s_sender(), v[j].tx.transaction.unsigned.n)) }
pub proof fn between(v: Seq<TxPtr>, i: int, j: int) requires grouped(v), 0 <= i < j < v.len(), v[i].s_sender() == v[j].s_sender() ensures v[j - 1].s_sender() == v[j].s_sender()
{ if i < j - 1 { let (a, b, c) = (v[i], v[j - 1], v[j]); assert(kle((a.s_sender(), a.tx.transaction.unsigned.n), (b.s_sender(), b.tx.transaction.unsigned.n))); assert(kle((b.s_sender(), b.tx.transaction.unsigned.n), (c.s_sender(), c.tx.transaction.unsigned.n))); if b.s_sender() != a.s_sender() { axiom_sle_anti(a.s_sender(), b.s_sender()); } } }
/// the priced ones: a sender's prices do not fall
pub open spec fn rising(w: Seq<(U64, TxPtr)>) -> bool { forall|i: int, j: int| 0 <= i < j < w.len() && (#[trigger] w[i]).1.s_sender() == (#[trigger] w[j]).1.s_sender() ==> w[i].0@ <= w[j].0@ }
pub proof fn moved_twice<T>(a: Seq<T>, b: Seq<T>, c: Seq<T>) requires moved_some(a, b), moved_some(b, c) ensures moved_some(a, c)
{
    let p = choose|p: Seq<int>| moved(a, b, p); let q = choose|q: Seq<int>| moved(b, c, q);
    let r = Seq::new(q.len(), |i: int| p[q[i]]);
    assert forall|k: int| 0 <= k < a.len() implies #[trigger] hit(r, k) by { assert(hit(p, k)); let j = choose|j: int| 0 <= j < p.len() && #[trigger] p[j] == k; assert(hit(q, j)); let i = choose|i: int| 0 <= i < q.len() && #[trigger] q[i] == j; assert(r[i] == k); }
    assert(moved(a, c, r));
}
pub proof fn ordered(v0: Seq<TxPtr>, v1: Seq<TxPtr>, w1: Seq<(U64, TxPtr)>, w2: Seq<(U64, TxPtr)>, v: Seq<TxPtr>)
    requires moved_some(v0, v1), grouped(v1), w1.len() == v1.len(), forall|i: int| 0 <= i < w1.len() ==> (#[trigger] w1[i]).1 == v1[i], rising(w1), v == w2.map_values(|x: (U64, TxPtr)| x.1),
        exists|p: Seq<int>| #[trigger] moved(w1, w2, p) && stable(w2, p),
    ensures moved_some(v0, v), in_order(v),
{
    let p = choose|p: Seq<int>| #[trigger] moved(w1, w2, p) && stable(w2, p);
    assert(moved(v1, v, p)) by { assert forall|i: int| 0 <= i < p.len() implies 0 <= #[trigger] p[i] < v1.len() && v[i] == v1[p[i]] by { assert(w2[i] == w1[p[i]]); assert(v[i] == w2[i].1); } }
    moved_twice(v0, v1, v);
    assert forall|i: int, j: int| 0 <= i < j < v.len() && (#[trigger] v[i]).s_sender() == (#[trigger] v[j]).s_sender() implies v[i].s_nonce() <= v[j].s_nonce() by {
        let a = p[i]; let b = p[j];
        assert(v[i] == v1[a] && v[j] == v1[b] && w2[i] == w1[a] && w2[j] == w1[b]);
        assert(a != b);
        if a > b { assert(w1[b].0@ <= w1[a].0@); assert(w2[i].0@ <= w2[j].0@); }
        assert(a < b);
        assert(kle((v1[a].s_sender(), v1[a].tx.transaction.unsigned.n), (v1[b].s_sender(), v1[b].tx.transaction.unsigned.n)));
    }
}
pub open spec fn stable(w: Seq<(U64, TxPtr)>, p: Seq<int>) -> bool { forall|i: int, j: int| 0 <= i < j < p.len() ==> (#[trigger] w[i]).0@ <= (#[trigger] w[j]).0@ && (w[i].0@ == w[j].0@ ==> p[i] < p[j]) }
//@fn core/mempool/src/pool.rs :: fn sort_by_price_and_nonce
//@ sub /txs\.sort_by_key\(\|tx\| ([^;]*)\);/ => /let f1 = |tx: &TxPtr| -> (k: (H160, U64)) ensures k == (tx.s_sender(), tx.tx.transaction.unsigned.n) { \1 }; sort_ptrs_(txs, f1); let ghost v1 = txs@; proof { assert forall|i: int, j: int| 0 <= i < j < v1.len() implies kle(((#[trigger] v1[i]).s_sender(), v1[i].tx.transaction.unsigned.n), ((#[trigger] v1[j]).s_sender(), v1[j].tx.transaction.unsigned.n)) by { assert(by_key(f1, v1[i], v1[j])); } }/
//@ sub /Vec::with_capacity\(txs\.len\(\)\)/ => /Vec::new()/
//@ sub /for tx in txs\.drain\(\.\.\) \{/ => /let all_ = drain_all_(txs); let mut at_: usize = 0; while at_ < all_.len() { let tx = share_(&all_[at_]); at_ = at_ + 1; let ghost w0 = priced@;/
//@ sub /priced\.last\(\)/ => /last_of_(&priced)/
//@ sub /tx\.gas_price\(\)\.max\(\*price\)/ => /tx.gas_price().max(price)/
//@ sub /priced\.sort_by_key\(\|\(price, _\)\| \*price\);/ => /let ghost w1 = priced@; let f2 = |x_: &(U64, TxPtr)| -> (k: U64) ensures k == x_.0 { let (price, _) = x_; *price }; sort_priced_(&mut priced, f2); let ghost w2 = priced@; proof { let p = choose|p: Seq<int>| #[trigger] moved(w1, w2, p) && forall|i: int, j: int| 0 <= i < j < p.len() ==> by_price(f2, w2[i], w2[j], #[trigger] p[i] < #[trigger] p[j]); assert(moved(w1, w2, p)); assert forall|i: int, j: int| 0 <= i < j < p.len() implies (#[trigger] w2[i]).0@ <= (#[trigger] w2[j]).0@ && (w2[i].0@ == w2[j].0@ ==> p[i] < p[j]) by { let before = p[i] < p[j]; assert(by_price(f2, w2[i], w2[j], before)); let (a, b) = choose|a: U64, b: U64| call_ensures(f2, (&w2[i],), a) && call_ensures(f2, (&w2[j],), b) && #[trigger] ple(a, b, before); assert(a == w2[i].0 && b == w2[j].0); assert(w2[i].0@ <= w2[j].0@); } assert(stable(w2, p)); }/
//@ sub /txs\.extend\(priced\.into_iter\(\)\.map\(\|\(_, tx\)\| tx\)\);/ => /extend_seconds_(txs, priced); proof { ordered(old(txs)@, v1, w1, w2, txs@); }/
//@ nloops 1
//@ loop 0
    invariant all_@ == v1, txs@ == Seq::<TxPtr>::empty(), at_ <= all_@.len(), grouped(v1), priced@.len() == at_, forall|i: int| 0 <= i < at_ ==> (#[trigger] priced@[i]).1 == v1[i], rising(priced@),
    decreases all_@.len() - at_,
//@ loopend 0
    proof { assert(priced@.last().1 == v1[at_ - 1]);
        assert forall|i: int, j: int| 0 <= i < j < priced@.len() && (#[trigger] priced@[i]).1.s_sender() == (#[trigger] priced@[j]).1.s_sender() implies priced@[i].0@ <= priced@[j].0@ by { if j == at_ - 1 { between(v1, i, j); assert(w0[j - 1] == priced@[j - 1]); assert(w0[i] == priced@[i]); if i < j - 1 { assert(w0[i].0@ <= w0[j - 1].0@); } } else { assert(w0[i] == priced@[i] && w0[j] == priced@[j]); } } }
//@ spec
    ensures moved_some(old(txs)@, final(txs)@), in_order(final(txs)@),
//@end
// ---- the pool ----
#[verifier::external_body] pub struct Queues { x: u8 }
impl Queues {
    pub uninterp spec fn view(&self) -> Map<H160, PendingQueue>;
    #[verifier::external_body] pub fn or_default_(&mut self, s: H160) -> (r: &mut PendingQueue) ensures *r == at(old(self)@, s), final(self)@ == old(self)@.insert(s, *final(r)) { unimplemented!() }
}
#[verifier::external_body] pub struct CoQueue { x: u8 }
impl CoQueue {
    pub uninterp spec fn view(&self) -> Seq<(TxPtr, U64)>;
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body] pub fn pop_all_(&mut self) -> (r: Vec<(TxPtr, U64)>) ensures r@ == old(self)@, final(self)@ == Seq::<(TxPtr, U64)>::empty() { unimplemented!() }
}
#[verifier::external_body] pub fn pair_(v: &Vec<(TxPtr, U64)>, i: usize) -> (r: (TxPtr, U64)) requires i < v@.len() ensures r == v@[i as int] { unimplemented!() }
pub uninterp spec fn empty_queue() -> PendingQueue;
pub axiom fn axiom_empty_queue() ensures empty_queue().queue@ == Map::<nat, TxPtr>::empty(), empty_queue().pop_tip_nonce@ == 0, empty_queue().current_tip_nonce@ == 0, !empty_queue().need_remove;
/// the sender's queue, an empty one if there is none
pub open spec fn at(m: Map<H160, PendingQueue>, s: H160) -> PendingQueue { if m.contains_key(s) { m[s] } else { empty_queue() } }
pub open spec fn placed(m: Map<H160, PendingQueue>, p: TxPtr) -> bool { at(m, p.s_sender()).q().contains_key(p.s_nonce()) && at(m, p.s_sender()).q()[p.s_nonce()] == p }
pub open spec fn good(m: Map<H160, PendingQueue>, s: H160, f: &Flags) -> bool { at(m, s).keyed(s, f) && exists|e: nat| at(m, s).run(f, e) }
/// the queues and the package list agree: what is on the list and was not dropped is in its queue and marked, once,
/// and what is marked is on the list
pub open spec fn agree(m: Map<H160, PendingQueue>, l: Seq<TxPtr>, f: &Flags) -> bool {
    &&& forall|s: H160| #[trigger] good(m, s, f)
    &&& forall|i: int| 0 <= i < l.len() ==> f.used(#[trigger] l[i]) && (f.alive(l[i]) ==> placed(m, l[i]) && f.packaged(l[i]))
    &&& forall|i: int, j: int| 0 <= i < j < l.len() && #[trigger] l[i] == #[trigger] l[j] ==> f.dropped(l[i])
    &&& forall|p: TxPtr| #[trigger] placed(m, p) && f.alive(p) && f.packaged(p) ==> l.contains(p)
}
/// new ones, in no queue yet
pub open spec fn waiting(m: Map<H160, PendingQueue>, w: Seq<(TxPtr, U64)>, f: &Flags) -> bool {
    &&& forall|i: int| 0 <= i < w.len() ==> f.used((#[trigger] w[i]).0) && f.alive(w[i].0) && !f.packaged(w[i].0) && !placed(m, w[i].0) && w[i].1@ <= w[i].0.s_nonce()
    &&& forall|i: int, j: int| 0 <= i < j < w.len() ==> (#[trigger] w[i]).0 != (#[trigger] w[j]).0
}
pub proof fn newly_all(m: Map<nat, TxPtr>, f: &Flags, a: nat, b: nat)
    requires forall|n: nat| a <= n < b ==> #[trigger] m.contains_key(n) && m[n].s_nonce() == n
    ensures forall|n: nat| a <= n < b && !f.packaged(#[trigger] m[n]) ==> newly(m, f, a, b).contains(m[n]),
        forall|i: int| 0 <= i < newly(m, f, a, b).len() ==> ({ let p = #[trigger] newly(m, f, a, b)[i]; a <= p.s_nonce() < b && m.contains_key(p.s_nonce()) && m[p.s_nonce()] == p && !f.packaged(p) }),
        forall|i: int, j: int| 0 <= i < j < newly(m, f, a, b).len() ==> (#[trigger] newly(m, f, a, b)[i]).s_nonce() < (#[trigger] newly(m, f, a, b)[j]).s_nonce(),
    decreases b
{
    if b > a {
        let c = (b - 1) as nat; newly_all(m, f, a, c); let r = newly(m, f, a, c); let v = newly(m, f, a, b);
        assert(m.contains_key(c));
        assert forall|n: nat| a <= n < b && !f.packaged(#[trigger] m[n]) implies v.contains(m[n]) by { if n < c { let i = choose|i: int| 0 <= i < r.len() && r[i] == m[n]; assert(v[i] == m[n]); } else { assert(v[v.len() - 1] == m[n]); } }
    }
}
/// after a new one is put in its queue
pub proof fn put_agree(m: Map<H160, PendingQueue>, m2: Map<H160, PendingQueue>, l: Seq<TxPtr>, l2: Seq<TxPtr>, f: &Flags, f2: &Flags, tx: TxPtr, r: bool)
    requires agree(m, l, f), f.used(tx), f.alive(tx), !f.packaged(tx), !placed(m, tx), forall|s: H160| s != tx.s_sender() ==> #[trigger] at(m2, s) == at(m, s), good(m2, tx.s_sender(), f2) || at(m2, tx.s_sender()) == at(m, tx.s_sender()), l2 == (if r { l.push(tx) } else { l }),
        forall|p: TxPtr| #[trigger] f2.used(p) == f.used(p),
        ({ let (a, b) = (at(m, tx.s_sender()), at(m2, tx.s_sender())); let n = tx.s_nonce();
            ||| b.q() == a.q() && f2.dropped(tx) && f2.only(f, tx) && !r
            ||| !a.q().contains_key(n) && b.q() == a.q().insert(n, tx) && *f2 == *f && !r
            ||| a.q().contains_key(n) && b.q() == a.q().insert(n, tx) && f2.dropped(a.q()[n]) && f2.alive(tx) && f2.packaged(tx) == r && r == f.packaged(a.q()[n]) && forall|p: TxPtr| p != tx && p != a.q()[n] ==> #[trigger] f2.of(p) == f.of(p) }),
    ensures agree(m2, l2, f2),
{
    let s0 = tx.s_sender(); let a = at(m, s0); let b = at(m2, s0); let n = tx.s_nonce();
    assert(good(m, s0, f));
    if l.contains(tx) { let i = choose|i: int| 0 <= i < l.len() && l[i] == tx; assert(f.alive(l[i])); }
    assert forall|p: TxPtr| p.s_sender() != s0 implies #[trigger] f2.of(p) == f.of(p) by { if a.q().contains_key(n) { assert(a.q()[n].s_sender() == s0); } }
    assert(at(m2, s0) == a ==> b.q() == a.q());
    if at(m2, s0) == a { if a.q().contains_key(n) { assert(a.q()[n] != tx); } assert(!a.q().contains_key(n) ==> !a.q().insert(n, tx).contains_key(n) || b.q() != a.q().insert(n, tx)); assert(a.q().insert(n, tx)[n] == tx); assert(f2.only(f, tx)); assert forall|k: nat| #[trigger] a.q().contains_key(k) implies f2.of(a.q()[k]) == f.of(a.q()[k]) by { assert(a.q()[k].s_nonce() == k && a.q()[k].s_sender() == s0); } }
    assert forall|s: H160| #[trigger] good(m2, s, f2) by {
        if s != s0 || at(m2, s0) == a { assert(good(m, s, f)); let x = at(m, s); let e = choose|e: nat| x.run(f, e); assert(at(m2, s) == x);
            assert forall|k: nat| #[trigger] x.q().contains_key(k) implies x.q()[k].s_nonce() == k && x.q()[k].s_sender() == s && f2.used(x.q()[k]) by { assert(f.used(x.q()[k])); }
            assert forall|k: nat| x.cur() <= k && #[trigger] x.q().contains_key(k) implies f2.alive(x.q()[k]) && (f2.packaged(x.q()[k]) <==> k < e) by { assert(f2.of(x.q()[k]) == f.of(x.q()[k])); }
            assert(x.run(f2, e)); }
    }
    assert forall|p: TxPtr| #[trigger] placed(m2, p) && f2.alive(p) && f2.packaged(p) implies l2.contains(p) by {
        if p.s_sender() == s0 { if p == tx { assert(l2[l2.len() - 1] == tx); } else { if a.q().contains_key(n) { assert(a.q()[n].s_nonce() == n); } assert(f2.of(p) == f.of(p)); assert(placed(m, p)); let i = choose|i: int| 0 <= i < l.len() && l[i] == p; assert(l2[i] == p); } }
        else { assert(at(m2, p.s_sender()) == at(m, p.s_sender())); assert(placed(m, p)); assert(f2.of(p) == f.of(p)); let i = choose|i: int| 0 <= i < l.len() && l[i] == p; assert(l2[i] == p); }
    }
    assert forall|i: int| 0 <= i < l2.len() implies f2.used(#[trigger] l2[i]) && (f2.alive(l2[i]) ==> placed(m2, l2[i]) && f2.packaged(l2[i])) by {
        let p = l2[i];
        if i < l.len() { assert(p == l[i]); assert(f.used(l[i])); assert(p != tx); assert(f2.used(p) == f.used(p));
            if f2.alive(p) { if p.s_sender() == s0 { if a.q().contains_key(n) { assert(a.q()[n].s_nonce() == n); } assert(f2.of(p) == f.of(p)); assert(f.alive(p)); assert(placed(m, p)); } else { assert(f2.of(p) == f.of(p)); assert(at(m2, p.s_sender()) == at(m, p.s_sender())); assert(placed(m, p)); } } }
        else { assert(p == tx && r); assert(f2.used(p) == f.used(p)); assert(placed(m2, tx)); }
    }
    assert forall|i: int, j: int| 0 <= i < j < l2.len() && #[trigger] l2[i] == #[trigger] l2[j] implies f2.dropped(l2[i]) by {
        if j < l.len() { assert(l[i] == l[j]); assert(f.dropped(l[i])); let p = l[i]; if a.q().contains_key(n) && p == a.q()[n] { } else { assert(p != tx); assert(f2.of(p) == f.of(p)); } } else { assert(l[i] == tx); }
    }
}
/// after the search of one sender's queue
pub proof fn search_agree(m: Map<H160, PendingQueue>, m2: Map<H160, PendingQueue>, s0: H160, l: Seq<TxPtr>, l2: Seq<TxPtr>, f: &Flags, f2: &Flags, e: nat)
    requires agree(m, l, f), forall|s: H160| s != s0 ==> #[trigger] at(m2, s) == at(m, s), at(m2, s0).keyed(s0, f2), at(m2, s0).full(f2, e), at(m2, s0).q() == at(m, s0).q(), at(m2, s0).cur() == at(m, s0).cur(),
        l2 == l + newly(at(m, s0).q(), f, at(m, s0).pop(), e), forall|p: TxPtr| #[trigger] f2.of(p) != f.of(p) ==> at(m, s0).taken(p, e),
        forall|p: TxPtr| #[trigger] f2.dropped(p) == f.dropped(p), forall|p: TxPtr| #[trigger] f2.used(p) == f.used(p),
    ensures agree(m2, l2, f2),
{
    let a = at(m, s0); let v = newly(a.q(), f, a.pop(), e);
    assert(good(m, s0, f));
    assert forall|n: nat| a.pop() <= n < e implies #[trigger] a.q().contains_key(n) && a.q()[n].s_nonce() == n by { assert(at(m2, s0).q().contains_key(n)); }
    newly_all(a.q(), f, a.pop(), e);
    assert forall|p: TxPtr| placed(m, p) == #[trigger] placed(m2, p) by { if p.s_sender() != s0 { assert(at(m2, p.s_sender()) == at(m, p.s_sender())); } }
    assert forall|p: TxPtr| f.packaged(p) && placed(m, p) && f.alive(p) implies #[trigger] f2.packaged(p) by { if f2.of(p) != f.of(p) { assert(a.taken(p, e)); assert(at(m2, s0).q().contains_key(p.s_nonce())); } }
    assert forall|s: H160| #[trigger] good(m2, s, f2) by {
        if s != s0 { assert(good(m, s, f)); let x = at(m, s); let e1 = choose|e1: nat| x.run(f, e1); assert(at(m2, s) == x);
            assert forall|k: nat| #[trigger] x.q().contains_key(k) implies x.q()[k].s_nonce() == k && x.q()[k].s_sender() == s && f2.used(x.q()[k]) by { assert(f.used(x.q()[k])); }
            assert forall|k: nat| x.cur() <= k && #[trigger] x.q().contains_key(k) implies f2.alive(x.q()[k]) && (f2.packaged(x.q()[k]) <==> k < e1) by { let p = x.q()[k]; if f2.of(p) != f.of(p) { assert(a.taken(p, e)); assert(a.q()[p.s_nonce()].s_sender() == s0); } }
            assert(x.run(f2, e1)); }
        else { assert(at(m2, s0).run(f2, e)); }
    }
    assert forall|i: int| 0 <= i < l2.len() implies f2.used(#[trigger] l2[i]) && (f2.alive(l2[i]) ==> placed(m2, l2[i]) && f2.packaged(l2[i])) by {
        let p = l2[i]; assert(f2.used(p) == f.used(p)); assert(f2.dropped(p) == f.dropped(p)); assert(placed(m, p) == placed(m2, p));
        if i < l.len() { assert(p == l[i]); assert(f.used(l[i])); } else { assert(p == v[i - l.len()]); assert(a.q().contains_key(p.s_nonce())); assert(p.s_sender() == s0); assert(placed(m, p)); assert(f.used(p)); assert(at(m2, s0).q().contains_key(p.s_nonce())); }
    }
    assert forall|i: int, j: int| 0 <= i < j < l2.len() && #[trigger] l2[i] == #[trigger] l2[j] implies f2.dropped(l2[i]) by {
        let p = l2[i]; assert(f2.dropped(p) == f.dropped(p));
        if j < l.len() { assert(l[i] == l[j]); } else { assert(l2[j] == v[j - l.len()]); if i < l.len() { assert(l[i] == p); assert(!f.packaged(p)); } else { assert(l2[i] == v[i - l.len()]); } }
    }
    assert forall|p: TxPtr| #[trigger] placed(m2, p) && f2.alive(p) && f2.packaged(p) implies l2.contains(p) by {
        assert(placed(m, p) == placed(m2, p)); assert(f2.dropped(p) == f.dropped(p));
        if f.packaged(p) { assert(l.contains(p)); let i = choose|i: int| 0 <= i < l.len() && l[i] == p; assert(l2[i] == p); }
        else { assert(a.taken(p, e)); assert(a.q()[p.s_nonce()] == p); assert(v.contains(p)); let i = choose|i: int| 0 <= i < v.len() && v[i] == p; assert(l2[l.len() + i] == p); }
    }
}
//@item core/mempool/src/pool.rs :: struct PriorityPool
//@ sub /Arc<DashMap<H160, PendingQueue>>/ => /Queues/
//@ sub /Arc<ArrayQueue<\(TxPtr, U64\)>>/ => /CoQueue/
//@ sub /Arc<Mutex<Vec<TxPtr>>>/ => /Vec<TxPtr>/
//@ sub /DashMap<Hash, TxPtr>/ => /PtrMap/
//@ sub /AtomicUsize/ => /usize/
//@ sub /Mutex<BTreeMap<BlockNumber, HashSet<Hash>>>/ => /Gaps/
//@ sub /Arc<RwLock<\(\)>>/ => /()/
//@ sub /\n\s*(pub\(crate\) )?(\w+):/ => /\n    pub \2:/
//@ sub /flush_lock: \(\),/ => /flush_lock: (), pub fl: Flags,/
//@end
#[verifier::external_body] pub struct PtrMap { x: u8 }
impl PtrMap { pub uninterp spec fn view(&self) -> Map<H256, TxPtr>; }
#[verifier::external_body] pub struct Gaps { x: u8 }
//@item core/mempool/src/pool.rs :: struct BuiltInContractTxBucket
//@ sub /(pub )?struct BuiltIn/ => /pub struct BuiltIn/
//@ sub /DashMap<Hash, Bytes>/ => /DataMap/
//@ sub /DashMap<Bytes, BTreeMap<Hash, SignedTransaction>>/ => /Buckets/
//@ sub /\n\s*(\w+):/ => /\n    pub \1:/
//@end
#[verifier::external_body] pub struct DataMap { x: u8 }
#[verifier::external_body] pub struct Buckets { x: u8 }
impl DataMap { pub uninterp spec fn view(&self) -> Map<H256, Seq<u8>>; }
impl Buckets {
    pub uninterp spec fn view(&self) -> Map<Seq<u8>, Map<H256, SignedTransaction>>;
    /// the first hash of every bucket
    #[verifier::external_body] pub fn firsts_(&self) -> (r: Vec<H256>) requires forall|d: Seq<u8>| #[trigger] self@.contains_key(d) ==> self@[d].dom().finite() && self@[d].dom().len() > 0 ensures one_each(self@, r@) { unimplemented!() }
}
/// one transaction of every bucket
pub open spec fn one_each(b: Map<Seq<u8>, Map<H256, SignedTransaction>>, r: Seq<H256>) -> bool { exists|d: Seq<Seq<u8>>| #[trigger] of_buckets(b, r, d) }
pub open spec fn of_buckets(b: Map<Seq<u8>, Map<H256, SignedTransaction>>, r: Seq<H256>, d: Seq<Seq<u8>>) -> bool {
    &&& d.len() == r.len() && d.no_duplicates() && d.to_set() =~= b.dom()
    &&& forall|i: int| 0 <= i < d.len() ==> b[#[trigger] d[i]].contains_key(r[i])
}
/// a queued one is still queued, or was dropped
pub open spec fn kept_or_dropped(m: Map<H160, PendingQueue>, m2: Map<H160, PendingQueue>, f2: &Flags) -> bool { forall|p: TxPtr| #[trigger] placed(m, p) ==> placed(m2, p) || f2.dropped(p) }
/// what changes by one new one
pub open spec fn by_one(m: Map<H160, PendingQueue>, m2: Map<H160, PendingQueue>, f: &Flags, f2: &Flags, tx: TxPtr) -> bool {
    &&& forall|p: TxPtr| #[trigger] f2.of(p) != f.of(p) ==> p == tx || placed(m, p)
    &&& forall|p: TxPtr| f.dropped(p) ==> #[trigger] f2.dropped(p)
    &&& forall|p: TxPtr| #[trigger] f2.used(p) == f.used(p)
    &&& kept_or_dropped(m, m2, f2)
    &&& forall|p: TxPtr| #[trigger] placed(m2, p) ==> placed(m, p) || p == tx
    &&& placed(m2, tx) || f2.dropped(tx)
}
/// what changes when the new ones are taken in
pub open spec fn taken_in(m: Map<H160, PendingQueue>, m2: Map<H160, PendingQueue>, f: &Flags, f2: &Flags, w: Seq<(TxPtr, U64)>, t: int) -> bool {
    &&& forall|p: TxPtr| #[trigger] f2.of(p) != f.of(p) ==> placed(m, p) || among(w, t, p)
    &&& forall|p: TxPtr| f.dropped(p) ==> #[trigger] f2.dropped(p)
    &&& forall|p: TxPtr| #[trigger] f2.used(p) == f.used(p)
    &&& kept_or_dropped(m, m2, f2)
    &&& forall|p: TxPtr| #[trigger] placed(m2, p) ==> placed(m, p) || among(w, t, p)
    &&& forall|i: int| 0 <= i < t ==> placed(m2, (#[trigger] w[i]).0) || f2.dropped(w[i].0)
}
pub open spec fn among(w: Seq<(TxPtr, U64)>, t: int, p: TxPtr) -> bool { exists|i: int| 0 <= i < t && (#[trigger] w[i]).0 == p }
pub proof fn take_on(m0: Map<H160, PendingQueue>, f0: &Flags, w: Seq<(TxPtr, U64)>, t: int, m: Map<H160, PendingQueue>, f: &Flags, m2: Map<H160, PendingQueue>, f2: &Flags)
    requires 0 <= t < w.len(), taken_in(m0, m, f0, f, w, t), waiting(m, w.skip(t), f), by_one(m, m2, f, f2, w[t].0)
    ensures taken_in(m0, m2, f0, f2, w, t + 1), waiting(m2, w.skip(t + 1), f2)
{
    let tx = w[t].0;
    assert forall|p: TxPtr| among(w, t, p) implies #[trigger] among(w, t + 1, p) by { let i = choose|i: int| 0 <= i < t && (#[trigger] w[i]).0 == p; assert(w[i].0 == p); }
    assert(among(w, t + 1, tx));
    assert forall|p: TxPtr| #[trigger] f2.of(p) != f0.of(p) implies placed(m0, p) || among(w, t + 1, p) by { if f.of(p) != f0.of(p) { } else { assert(p == tx || placed(m, p)); } if among(w, t, p) { assert(among(w, t + 1, p)); } }
    assert forall|p: TxPtr| f0.dropped(p) implies #[trigger] f2.dropped(p) by { assert(f.dropped(p)); }
    assert forall|p: TxPtr| #[trigger] f2.used(p) == f0.used(p) by { assert(f.used(p) == f0.used(p)); }
    assert forall|p: TxPtr| #[trigger] placed(m0, p) implies placed(m2, p) || f2.dropped(p) by { if !placed(m, p) { assert(f.dropped(p)); } }
    assert forall|p: TxPtr| #[trigger] placed(m2, p) implies placed(m0, p) || among(w, t + 1, p) by { if p != tx { assert(placed(m, p)); if among(w, t, p) { assert(among(w, t + 1, p)); } } }
    assert forall|i: int| 0 <= i < t + 1 implies placed(m2, (#[trigger] w[i]).0) || f2.dropped(w[i].0) by { if i < t { if !placed(m, w[i].0) { assert(f.dropped(w[i].0)); } } }
    let a = w.skip(t); let b = w.skip(t + 1);
    assert(a[0] == w[t]);
    assert forall|i: int| 0 <= i < b.len() implies f2.used((#[trigger] b[i]).0) && f2.alive(b[i].0) && !f2.packaged(b[i].0) && !placed(m2, b[i].0) && b[i].1@ <= b[i].0.s_nonce() by { assert(b[i] == a[i + 1]); assert(a[0].0 != a[i + 1].0); let p = b[i].0; assert(f2.of(p) == f.of(p)); assert(f2.used(p) == f.used(p)); }
    assert forall|i: int, j: int| 0 <= i < j < b.len() implies (#[trigger] b[i]).0 != (#[trigger] b[j]).0 by { assert(b[i] == a[i + 1] && b[j] == a[j + 1]); }
}
impl PriorityPool {
    #[verifier::inline] pub open spec fn m(&self) -> Map<H160, PendingQueue> { self.pending_queue@ }
    pub open spec fn ok(&self) -> bool { agree(self.m(), self.real_queue@, &self.fl) && waiting(self.m(), self.co_queue@, &self.fl) }
//@fn core/mempool/src/pool.rs :: impl PriorityPool/fn flush_to_pending_queue
//@ sub /\(&self\)/ => /(&mut self)/
//@ sub /let mut q = self\.real_queue\.lock\(\);/ => //
//@ sub /pop_all_item\(Arc::clone\(&self\.co_queue\)\)/ => /self.co_queue.pop_all_()/
//@ sub /for \(tx, nonce_diff\) in txs \{/ => /let mut at_: usize = 0; while at_ < txs.len() { let (tx, nonce_diff) = pair_(&txs, at_); at_ = at_ + 1; let ghost (m0, f0, q0) = (self.pending_queue@, self.fl, self.real_queue@); proof { assert(txs@.skip(at_ - 1)[0] == txs@[at_ - 1]); assert(good(m0, tx.s_sender(), &f0)); }/
//@ sub /let mut pending_queue = self\.pending_queue\.entry\(tx\.sender\(\)\)\.or_default\(\);/ => /let pending_queue = self.pending_queue.or_default_(tx.sender());/
//@ sub /(\w+)\.(set_dropped|set_package|unset_package|is_package|is_dropped)\(\)/ => /self.fl.\2(&\1)/
//@ sub /continue;/ => /{ proof { put_agree(m0, self.pending_queue@, q0, self.real_queue@, &f0, &self.fl, tx, false); take_on(old(self).m(), &old(self).fl, txs@, at_ - 1, m0, &f0, self.pending_queue@, &self.fl); } continue; }/
//@ sub /pending_queue\.insert\(Arc::clone\(&tx\), nonce_diff\)/ => /pending_queue.insert(share_(&tx), nonce_diff, &mut self.fl)/
//@ sub /q\.push\(tx\);/ => /self.real_queue.push(tx);/
//@ sub /pending_queue\.try_search_package_list\(&mut q\);/ => /let ghost (p1, f1, q1) = (*pending_queue, self.fl, self.real_queue@); let ghost m1 = m0.insert(tx.s_sender(), p1); proof { put_agree(m0, m1, q0, q1, &f0, &f1, tx, q1.len() > q0.len()); } pending_queue.try_search_package_list(&mut self.real_queue, &mut self.fl);/
//@ nloops 1
//@ loop 0
    invariant at_ <= txs@.len(), txs@ == old(self).co_queue@, agree(self.m(), self.real_queue@, &self.fl), waiting(self.m(), txs@.skip(at_ as int), &self.fl), taken_in(old(self).m(), self.m(), &old(self).fl, &self.fl, txs@, at_ as int),
        self.co_queue@.len() == 0, self.tx_map == old(self).tx_map, self.stock_len == old(self).stock_len, self.sys_tx_bucket == old(self).sys_tx_bucket, self.timeout_gap == old(self).timeout_gap, self.timeout_config == old(self).timeout_config,
    decreases txs@.len() - at_,
//@ loopend 0
    proof { let e = choose|e: nat| #[trigger] at(self.m(), tx.s_sender()).full(&self.fl, e) && self.real_queue@ == q1 + newly(p1.q(), &f1, p1.pop(), e) && forall|p: TxPtr| #[trigger] self.fl.of(p) != f1.of(p) ==> p1.taken(p, e);
        search_agree(m1, self.m(), tx.s_sender(), q1, self.real_queue@, &f1, &self.fl, e);
        take_on(old(self).m(), &old(self).fl, txs@, at_ - 1, m0, &f0, self.pending_queue@, &self.fl); }
//@ start
    proof { assert(self.co_queue@.skip(0) =~= self.co_queue@); }
//@ spec
    requires old(self).ok(),
    ensures final(self).ok(), final(self).co_queue@.len() == 0, taken_in(old(self).m(), final(self).m(), &old(self).fl, &final(self).fl, old(self).co_queue@, old(self).co_queue@.len() as int),
        final(self).tx_map == old(self).tx_map, final(self).stock_len == old(self).stock_len, final(self).sys_tx_bucket == old(self).sys_tx_bucket, final(self).timeout_gap == old(self).timeout_gap, final(self).timeout_config == old(self).timeout_config,
//@end
}
/// the pointers of a list that pass
pub open spec fn passed(v: Seq<TxPtr>, f: spec_fn(TxPtr) -> bool) -> Seq<TxPtr> decreases v.len() { if v.len() == 0 { Seq::empty() } else { let r = passed(v.drop_last(), f); if f(v.last()) { r.push(v.last()) } else { r } } }
/// where they were
pub open spec fn places(v: Seq<TxPtr>, f: spec_fn(TxPtr) -> bool) -> Seq<int> decreases v.len() { if v.len() == 0 { Seq::empty() } else { let r = places(v.drop_last(), f); if f(v.last()) { r.push(v.len() - 1) } else { r } } }
pub proof fn passed_at(v: Seq<TxPtr>, f: spec_fn(TxPtr) -> bool)
    ensures passed(v, f).len() == places(v, f).len(), passed(v, f).len() <= v.len(),
        forall|i: int| 0 <= i < passed(v, f).len() ==> 0 <= #[trigger] places(v, f)[i] < v.len() && passed(v, f)[i] == v[places(v, f)[i]] && f(passed(v, f)[i]),
        forall|i: int, j: int| 0 <= i < j < passed(v, f).len() ==> #[trigger] places(v, f)[i] < #[trigger] places(v, f)[j],
        forall|k: int| 0 <= k < v.len() && f(#[trigger] v[k]) ==> hit(places(v, f), k),
    decreases v.len()
{
    if v.len() > 0 { let w = v.drop_last(); passed_at(w, f);
        let a = places(w, f); let b = places(v, f);
        assert forall|i: int| 0 <= i < passed(v, f).len() implies 0 <= #[trigger] b[i] < v.len() && passed(v, f)[i] == v[b[i]] && f(passed(v, f)[i]) by { if i < a.len() { assert(b[i] == a[i]); assert(w[a[i]] == v[a[i]]); } }
        assert forall|i: int, j: int| 0 <= i < j < passed(v, f).len() implies #[trigger] b[i] < #[trigger] b[j] by { assert(b[i] == a[i]); if j < a.len() { assert(b[j] == a[j]); } }
        assert forall|k: int| 0 <= k < v.len() && f(#[trigger] v[k]) implies hit(b, k) by { if k < w.len() { assert(w[k] == v[k]); assert(hit(a, k)); let i = choose|i: int| 0 <= i < a.len() && #[trigger] a[i] == k; assert(b[i] == k); } else { assert(b[b.len() - 1] == k); } }
    }
}
pub open spec fn hashes_of(v: Seq<TxPtr>) -> Seq<H256> { v.map_values(|p: TxPtr| p.s_hash()) }
#[verifier::external_body] pub fn pick_<F: Fn(&TxPtr) -> Option<Hash>>(v: &Vec<TxPtr>, f: F, g: Ghost<spec_fn(TxPtr) -> bool>, limit: usize) -> (r: Vec<Hash>)
    requires forall|p: &TxPtr| call_requires(f, (p,)), forall|p: &TxPtr, o: Option<Hash>| call_ensures(f, (p,), o) ==> o == (if (g@)(*p) { Some(p.s_hash()) } else { None })
    ensures r@ == hashes_of(passed(v@, g@).take(least(passed(v@, g@).len(), limit as nat) as int)) { unimplemented!() }
#[verifier::external_body] pub fn extend_(v: &mut Vec<Hash>, w: Vec<Hash>) ensures final(v)@ == old(v)@ + w@ { unimplemented!() }
/// what is offered: pooled transactions that were not dropped, no two the same, each sender's in the order of the nonces, none twice, and behind the account's nonce each directly follows one
pub open spec fn offered(m: Map<H160, PendingQueue>, f: &Flags, v: Seq<TxPtr>) -> bool {
    &&& forall|i: int| 0 <= i < v.len() ==> placed(m, #[trigger] v[i]) && f.alive(v[i])
    &&& forall|i: int, j: int| 0 <= i < j < v.len() && (#[trigger] v[i]).s_sender() == (#[trigger] v[j]).s_sender() ==> v[i].s_nonce() < v[j].s_nonce()
    &&& forall|i: int| 0 <= i < v.len() && (#[trigger] v[i]).s_nonce() > at(m, v[i].s_sender()).cur() ==> follows(v, i)
}
pub open spec fn follows(v: Seq<TxPtr>, i: int) -> bool { exists|j: int| 0 <= j < i && (#[trigger] v[j]).s_sender() == v[i].s_sender() && v[j].s_nonce() + 1 == v[i].s_nonce() }
pub proof fn offers(m: Map<H160, PendingQueue>, f: &Flags, l: Seq<TxPtr>, v: Seq<TxPtr>, n: nat)
    requires agree(m, l, f), moved_some(l, v), in_order(v), n <= passed(v, |p: TxPtr| f.alive(p)).len()
    ensures offered(m, f, passed(v, |p: TxPtr| f.alive(p)).take(n as int)), n == passed(v, |p: TxPtr| f.alive(p)).len() ==> forall|p: TxPtr| #[trigger] placed(m, p) && f.alive(p) && f.packaged(p) ==> passed(v, |p: TxPtr| f.alive(p)).contains(p)
{
    let g = |p: TxPtr| f.alive(p);
    passed_at(v, g);
    let all = passed(v, g); let o = all.take(n as int); let pl = places(v, g);
    let q = choose|q: Seq<int>| moved(l, v, q);
    assert forall|i: int| 0 <= i < all.len() implies placed(m, #[trigger] all[i]) && f.alive(all[i]) && f.packaged(all[i]) by { let k = pl[i]; assert(v[k] == l[q[k]]); assert(f.alive(l[q[k]])); }
    assert forall|i: int, j: int| 0 <= i < j < all.len() && (#[trigger] all[i]).s_sender() == (#[trigger] all[j]).s_sender() implies all[i].s_nonce() < all[j].s_nonce() by {
        let (a, b) = (pl[i], pl[j]); assert(all[i] == v[a] && all[j] == v[b]); assert(a < b);
        if v[a].s_nonce() == v[b].s_nonce() { assert(placed(m, all[i]) && placed(m, all[j])); assert(v[a] == v[b]); let (x, y) = (q[a], q[b]); assert(v[a] == l[x] && v[b] == l[y]); assert(x != y); if x < y { assert(l[x] == l[y]); } else { assert(l[y] == l[x]); } assert(false); }
    }
    assert forall|p: TxPtr| #[trigger] placed(m, p) && f.alive(p) && f.packaged(p) implies all.contains(p) by {
        assert(l.contains(p)); let k = choose|k: int| 0 <= k < l.len() && l[k] == p; assert(hit(q, k)); let a = choose|a: int| 0 <= a < q.len() && #[trigger] q[a] == k; assert(v[a] == p); assert(g(v[a])); assert(hit(pl, a)); let i = choose|i: int| 0 <= i < pl.len() && #[trigger] pl[i] == a; assert(all[i] == p);
    }
    assert forall|i: int| 0 <= i < o.len() && (#[trigger] o[i]).s_nonce() > at(m, o[i].s_sender()).cur() implies follows(o, i) by {
        let p = o[i]; assert(p == all[i]); let s = p.s_sender(); assert(placed(m, all[i])); assert(good(m, s, f)); let e = choose|e: nat| at(m, s).run(f, e);
        assert(at(m, s).q().contains_key(p.s_nonce())); assert(f.packaged(at(m, s).q()[p.s_nonce()])); assert(p.s_nonce() < e);
        let k = (p.s_nonce() - 1) as nat; assert(at(m, s).q().contains_key(k)); let x = at(m, s).q()[k]; assert(x.s_nonce() == k && x.s_sender() == s); assert(f.alive(x) && f.packaged(x)); assert(placed(m, x)); assert(all.contains(x));
        let j = choose|j: int| 0 <= j < all.len() && all[j] == x; if j > i { assert(all[i].s_nonce() < all[j].s_nonce()); } assert(o[j] == x);
    }
    assert forall|i: int| 0 <= i < o.len() implies placed(m, #[trigger] o[i]) && f.alive(o[i]) by { assert(o[i] == all[i]); }
    assert forall|i: int, j: int| 0 <= i < j < o.len() && (#[trigger] o[i]).s_sender() == (#[trigger] o[j]).s_sender() implies o[i].s_nonce() < o[j].s_nonce() by { assert(o[i] == all[i] && o[j] == all[j]); }
}
/// sorting keeps the agreement
pub proof fn sorted_agree(m: Map<H160, PendingQueue>, f: &Flags, l: Seq<TxPtr>, v: Seq<TxPtr>) requires agree(m, l, f), moved_some(l, v) ensures agree(m, v, f)
{
    let q = choose|q: Seq<int>| moved(l, v, q);
    assert forall|i: int| 0 <= i < v.len() implies f.used(#[trigger] v[i]) && (f.alive(v[i]) ==> placed(m, v[i]) && f.packaged(v[i])) by { assert(v[i] == l[q[i]]); assert(f.used(l[q[i]])); }
    assert forall|i: int, j: int| 0 <= i < j < v.len() && #[trigger] v[i] == #[trigger] v[j] implies f.dropped(v[i]) by { let (x, y) = (q[i], q[j]); assert(v[i] == l[x] && v[j] == l[y]); assert(x != y); if x < y { assert(l[x] == l[y]); } else { assert(l[y] == l[x]); } }
    assert forall|p: TxPtr| #[trigger] placed(m, p) && f.alive(p) && f.packaged(p) implies v.contains(p) by { assert(l.contains(p)); let k = choose|k: int| 0 <= k < l.len() && l[k] == p; assert(hit(q, k)); let a = choose|a: int| 0 <= a < q.len() && #[trigger] q[a] == k; assert(v[a] == p); }
}
//@item protocol/src/types/block.rs :: struct PackedTxHashes
//@end
impl BuiltInContractTxBucket {
    /// the two maps name the same transactions
    pub open spec fn ok(&self) -> bool {
        &&& forall|h: H256| #[trigger] self.hash_data_map@.contains_key(h) ==> self.tx_buckets@.contains_key(self.hash_data_map@[h]) && self.tx_buckets@[self.hash_data_map@[h]].contains_key(h)
        &&& forall|d: Seq<u8>| #[trigger] self.tx_buckets@.contains_key(d) ==> self.tx_buckets@[d].dom().finite() && self.tx_buckets@[d].dom().len() > 0
        &&& forall|d: Seq<u8>, h: H256| self.tx_buckets@.contains_key(d) && #[trigger] self.tx_buckets@[d].contains_key(h) ==> self.hash_data_map@.contains_key(h) && self.hash_data_map@[h] == d
    }
//@fn core/mempool/src/pool.rs :: impl BuiltInContractTxBucket/fn package
//@ ret r
//@ sub /self\s*\.tx_buckets\s*\.iter\(\)\s*\.map\(\|kv\| \{\s*kv\.value\(\)\s*\.iter\(\)\s*\.take\(1\)\s*\.next\(\)\s*\.map\(\|\(hash, _tx\)\| \*hash\)\s*\.unwrap\(\)\s*\}\)\s*\.collect\(\)/ => /self.tx_buckets.firsts_()/
//@ spec
    requires self.ok(),
    ensures one_each(self.tx_buckets@, r@),
//@end
}
/// one system call of every kind, then at most `limit` of the others
pub open spec fn packed(p: &PriorityPool, limit: nat, r: PackedTxHashes) -> bool {
    exists|sys: Seq<H256>, v: Seq<TxPtr>| one_each(p.sys_tx_bucket.tx_buckets@, sys) && offered(p.m(), &p.fl, v) && v.len() <= limit && r.hashes@ == #[trigger] packs(sys, v) && (sys.len() <= u32::MAX ==> r.call_system_script_count == sys.len())
}
pub open spec fn packs(sys: Seq<H256>, v: Seq<TxPtr>) -> Seq<H256> { sys + hashes_of(v) }
impl PriorityPool {
//@fn core/mempool/src/pool.rs :: impl PriorityPool/fn package
//@ ret r
//@ sub /\(&self, / => /(&mut self, /
//@ sub /let _flushing = self\.flush_lock\.\w+\(\);/ => //
//@ sub /let mut q = self\.real_queue\.lock\(\);/ => /let ghost (m1, f1, l1) = (self.m(), self.fl, self.real_queue@);/
//@ sub /sort_by_price_and_nonce\(&mut q\);/ => /sort_by_price_and_nonce(&mut self.real_queue); let ghost sys = hashes@; let ghost alive = |p: TxPtr| self.fl.alive(p); proof { sorted_agree(m1, &f1, l1, self.real_queue@); passed_at(self.real_queue@, alive); offers(m1, &f1, l1, self.real_queue@, least(passed(self.real_queue@, alive).len(), limit as nat)); assert(alive =~= |p: TxPtr| f1.alive(p)); }/
//@ sub /(\w+)\.(set_dropped|set_package|unset_package|is_package|is_dropped)\(\)/ => /self.fl.\2(\1)/
//@ sub /hashes\.extend\(\s*q\.iter\(\)\s*\.filter_map\(\|ptr\| (\{.*?\})\)\s*\.take\(limit\),?\s*\);/ => /extend_(&mut hashes, pick_(&self.real_queue, |ptr: &TxPtr| -> (o: Option<Hash>) ensures o == (if self.fl.alive(*ptr) { Some(ptr.s_hash()) } else { None::<Hash> }) \1, Ghost(alive), limit)); let ghost v = passed(self.real_queue@, alive).take(least(passed(self.real_queue@, alive).len(), limit as nat) as int); proof { assert(hashes@ == packs(sys, v)); assert(offered(self.m(), &self.fl, v)); assert(one_each(self.sys_tx_bucket.tx_buckets@, sys)); }/
//@ spec
    requires old(self).ok(), old(self).sys_tx_bucket.ok(),
    ensures final(self).ok(), packed(final(self), limit as nat, r),
        final(self).sys_tx_bucket == old(self).sys_tx_bucket, final(self).tx_map == old(self).tx_map, final(self).stock_len == old(self).stock_len,
//@ end
//@end
}
}
}
fn main() {}
