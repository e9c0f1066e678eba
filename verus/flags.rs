// ---- flags: a set of 256 bits ----
pub uninterp spec fn flag(h: H256, i: int) -> bool;
pub axiom fn flags_ext(a: H256, b: H256) requires forall|i: int| flag(a, i) == flag(b, i) ensures a == b;
pub axiom fn flags_zero() ensures forall|i: int| !#[trigger] flag(no_flags(), i);
pub open spec fn no_flags() -> H256 { h256(Seq::new(32, |i: int| 0u8)) }
/// bit i of a number, placed by from_low_u64_be(n.to_be()): an injective place for each of the 64 bits
pub open spec fn nbit(n: u64, i: int) -> bool { 0 <= i < 64 && (n >> (i as u64)) & 1 == 1 }
pub uninterp spec fn place(n: u64) -> H256;
pub axiom fn place_bits(n: u64) ensures forall|i: int| #[trigger] flag(place(n), i) == nbit(n, i);
pub open spec fn under(a: H256, b: H256) -> bool { forall|i: int| #[trigger] flag(a, i) ==> flag(b, i) }
impl H256 {
    #[verifier::external_body] pub fn or(self, o: H256) -> (r: H256) ensures joined(self, o, r), joined(o, self, r) { unimplemented!() }
    #[verifier::external_body] pub fn and(self, o: H256) -> (r: H256) ensures met(self, o, r) { unimplemented!() }
    #[verifier::external_body] pub fn same(self, o: H256) -> (r: bool) ensures r == (self == o) { unimplemented!() }
    #[verifier::external_body] pub fn from_swapped(n: u64) -> (r: H256) ensures r == place(n) { unimplemented!() }
}
#[verifier::external_body] pub fn last_mut<T>(v: &mut Vec<T>) -> (r: Option<&mut T>)
    ensures match r { None => old(v)@.len() == 0 && final(v)@ == old(v)@, Some(x) => old(v)@.len() > 0 && *x == old(v)@.last() && final(v)@ == old(v)@.update(old(v)@.len() - 1, *final(x)) } { unimplemented!() }
pub open spec fn met(a: H256, b: H256, c: H256) -> bool { forall|i: int| #[trigger] flag(c, i) == (flag(a, i) && flag(b, i)) }
pub open spec fn joined(a: H256, b: H256, c: H256) -> bool { forall|i: int| #[trigger] flag(c, i) == (flag(a, i) || flag(b, i)) }
/// an announcement that changes nothing
pub open spec fn idle(s: Seq<HardforkInfoInner>, o: HardforkInfoInner) -> bool { s.len() > 0 && (under(o.flags, s.last().flags) || o.block_number < s.last().block_number) }
/// what recording an announcement leads to
pub open spec fn recorded(s: Seq<HardforkInfoInner>, o: HardforkInfoInner, t: Seq<HardforkInfoInner>) -> bool {
    if s.len() == 0 { t =~= seq![o] }
    else if idle(s, o) { t =~= s }
    else if s.last().block_number == o.block_number { t.len() == s.len() && t.drop_last() =~= s.drop_last() && t.last().block_number == o.block_number && joined(s.last().flags, o.flags, t.last().flags) }
    else { t.len() == s.len() + 1 && t.drop_last() =~= s && t.last().block_number == o.block_number && joined(s.last().flags, o.flags, t.last().flags) }
}
impl HardforkInfo {
//@fn protocol/src/types/primitive.rs :: impl HardforkInfo/fn push
//@ sub /([\w.]+) \|= ([\w.]+);/ => /\1 = \1.or(\2);/
//@ sub /self\.inner\.last_mut\(\)/ => /last_mut(&mut self.inner)/
//@ sub /(\w+\.flags) == (\w+\.flags)/ => /\1.same(\2)/
//@ spec
    ensures recorded(old(self).inner@, other, final(self).inner@),
//@ start
    let ghost given = other;
    proof {
        if self.inner@.len() > 0 {
            let last = self.inner@.last();
            assert forall|f: H256| joined(given.flags, last.flags, f) implies (f == last.flags) == under(given.flags, last.flags) by { if under(given.flags, last.flags) { flags_ext(f, last.flags); } }
        }
    }
//@end
}
/// a well-formed list: heights go up, flags only grow
pub open spec fn ordered(s: Seq<HardforkInfoInner>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).block_number < (#[trigger] s[j]).block_number && under(s[i].flags, s[j].flags) }
/// recording keeps a list well formed, and never touches a record below the announced height
proof fn recording_keeps(s: Seq<HardforkInfoInner>, o: HardforkInfoInner, t: Seq<HardforkInfoInner>)
    requires ordered(s), recorded(s, o, t)
    ensures ordered(t), t.len() >= s.len(), t.len() <= s.len() + 1,
        forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]).block_number < o.block_number ==> t[i] == s[i],
        forall|i: int| 0 <= i < s.len() ==> t[i].block_number == (#[trigger] s[i]).block_number && under(s[i].flags, t[i].flags),
        t.len() > 0 && (s.len() == 0 || o.block_number >= s.last().block_number ==> under(o.flags, t.last().flags)),
{
    if s.len() > 0 && !idle(s, o) {
        assert forall|i: int| 0 <= i < s.len() - 1 implies t[i] == #[trigger] s[i] by { if s.last().block_number == o.block_number { assert(t.drop_last()[i] == s.drop_last()[i]); } else { assert(t.drop_last()[i] == s[i]); } }
        if s.last().block_number != o.block_number { assert(t.drop_last()[s.len() - 1] == s[s.len() - 1]); }
        assert(under(s.last().flags, t.last().flags));
        assert forall|i: int, j: int| 0 <= i < j < t.len() implies (#[trigger] t[i]).block_number < (#[trigger] t[j]).block_number && under(t[i].flags, t[j].flags) by {
            if i < s.len() - 1 { assert(t[i] == s[i]); if j < s.len() - 1 { assert(t[j] == s[j]); } assert(s[i].block_number < s.last().block_number && under(s[i].flags, s.last().flags)); }
        }
    }
}
// ---- names to flags ----
//@enum common/config-parser/src/types/spec.rs :: enum HardforkName
//@item common/config-parser/src/types/spec.rs :: struct HardforkInput
//@end
/// every name there is (strum's derived iterator)
pub open spec fn every_name(s: Seq<HardforkName>) -> bool { forall|n: HardforkName| #[trigger] s.contains(n) }
impl HardforkName {
#[verifier::external_body] pub fn each() -> (r: Vec<HardforkName>) ensures every_name(r@), r@.len() > 0 { unimplemented!() }
}
/// the bits of a list of names
pub open spec fn bits_of(s: Seq<HardforkName>, n: u64) -> bool { forall|i: int| 0 <= i < 64 ==> #[trigger] nbit(n, i) == exists|k: int| 0 <= k < s.len() && #[trigger] nbit(s[k].num(), i) }
proof fn or_bits(a: u64, b: u64) ensures forall|i: int| 0 <= i < 64 ==> #[trigger] nbit(a | b, i) == (nbit(a, i) || nbit(b, i))
{
    assert forall|i: int| 0 <= i < 64 implies #[trigger] nbit(a | b, i) == (nbit(a, i) || nbit(b, i)) by { let k = i as u64; assert(((a | b) >> k) & 1 == 1 <==> ((a >> k) & 1 == 1 || (b >> k) & 1 == 1)) by (bit_vector) requires k < 64u64; }
}
proof fn zero_bits() ensures forall|i: int| 0 <= i < 64 ==> !#[trigger] nbit(0, i), forall|s: Seq<HardforkName>| s.len() == 0 ==> #[trigger] bits_of(s, 0) { assert forall|i: int| 0 <= i < 64 implies !#[trigger] nbit(0, i) by { let k = i as u64; assert((0u64 >> k) & 1 != 1) by (bit_vector) requires k < 64u64; } }
proof fn bits_step(s: Seq<HardforkName>, k: int, a: u64, b: u64) requires 0 <= k < s.len(), bits_of(s.take(k), a), b == a | s[k].num() ensures bits_of(s.take(k + 1), b)
{
    or_bits(a, s[k].num());
    let t = s.take(k + 1);
    assert(forall|j: int| 0 <= j < k ==> t[j] == s.take(k)[j]);
    assert forall|i: int| 0 <= i < 64 implies #[trigger] nbit(b, i) == exists|j: int| 0 <= j < t.len() && #[trigger] nbit(t[j].num(), i) by {
        if nbit(a, i) { let j = choose|j: int| 0 <= j < k && #[trigger] nbit(s.take(k)[j].num(), i); assert(nbit(t[j].num(), i)); }
        if nbit(s[k].num(), i) { assert(nbit(t[k].num(), i)); }
        if exists|j: int| 0 <= j < t.len() && #[trigger] nbit(t[j].num(), i) { let j = choose|j: int| 0 <= j < t.len() && #[trigger] nbit(t[j].num(), i); if j < k { assert(nbit(s.take(k)[j].num(), i)); } }
    }
}
pub open spec fn all_names(n: u64) -> bool { exists|s: Seq<HardforkName>| every_name(s) && #[trigger] bits_of(s, n) }
/// the flags of a configured list: those of its names, of every name there is if the list is empty
pub open spec fn configured(s: Seq<HardforkName>, f: H256) -> bool { forall|i: int| #[trigger] flag(f, i) == (0 <= i < 64 && exists|n: HardforkName| (s.len() == 0 || s.contains(n)) && #[trigger] nbit(n.num(), i)) }
impl HardforkName {
//@fn common/config-parser/src/types/spec.rs :: impl HardforkName/fn all
//@ ret r
//@ sub /HardforkName::iter\(\)/ => /HardforkName::each()/
//@ sub /\b(\w+) as u64/ => /\1.as_num()/
//@ sub /(\w+) \|= ([^;}]+?)\s*([;}])/ => /\1 = \1 | (\2); \3/
//@ spec
    ensures all_names(r),
//@ loopbefore 0
    proof { zero_bits(); }
//@ loop 0 it
    invariant every_name(it.seq()), it.seq().len() > 0, bits_of(it.seq().take(it.index@ as int), res), it.index@ == it.seq().len() ==> all_names(res),
//@ loopstart 0
    proof { assert forall|b: u64| b == res | name.num() implies #[trigger] bits_of(it.seq().take(it.index@ + 1), b) by { bits_step(it.seq(), it.index@ as int, res, b); } assert(it.seq().take(it.seq().len() as int) =~= it.seq()); }
//@end
}
impl HardforkName {
//@fn common/config-parser/src/types/spec.rs :: impl From<HardforkInput> for HardforkInfoInner/fn from
//@ ret r
//@ fold
//@ sub /\b(\w+) as u64/ => /\1.as_num()/
//@ sub /-> Self/ => /-> HardforkInfoInner/
//@ sub /H256::from_low_u64_be\(\s*([\w:]+(?:\(\))?)\.to_be\(\)\s*\)/ => /H256::from_swapped(\1)/
//@ spec
    ensures r.block_number == value.block_number, configured(value.hardforks@, r.flags),
//@ start
    proof {
        zero_bits(); flags_zero();
        assert forall|s: Seq<HardforkName>, n: u64| s.len() > 0 && #[trigger] bits_of(s, n) implies configured(s, place(n)) by { listed(s, n); }
        assert forall|n: u64| #[trigger] all_names(n) implies configured(Seq::empty(), place(n)) by { listed_all(n); }
        assert(value.hardforks@.len() == 0 ==> value.hardforks@ =~= Seq::empty());
        if value.hardforks@.len() == 1 && value.hardforks@[0] == HardforkName::None {
            assert forall|i: int, n: HardforkName| value.hardforks@.contains(n) && 0 <= i < 64 implies !#[trigger] nbit(n.num(), i) by { assert(n == HardforkName::None); }
            assert(no_flags() == h256(Seq::new(32, |i: int| 0u8)));
            assert(configured(value.hardforks@, no_flags()));
        }
    }
//@ closure 0
    -> (r: H256) ensures exists|n: u64| bits_of(hardforks@, n) && r == place(n)
//@ loop 0 it
    invariant it.seq() == hardforks@, bits_of(it.seq().take(it.index@ as int), acc), it.index@ == it.seq().len() ==> bits_of(hardforks@, acc),
//@ loopstart 0
    proof { assert forall|b: u64| b == acc | item_.num() implies #[trigger] bits_of(it.seq().take(it.index@ + 1), b) by { bits_step(it.seq(), it.index@ as int, acc, b); } assert(it.seq().take(it.seq().len() as int) =~= it.seq()); }
//@end
}
proof fn listed(s: Seq<HardforkName>, n: u64) requires s.len() > 0, bits_of(s, n) ensures configured(s, place(n)) {
    place_bits(n);
    assert forall|i: int| #[trigger] flag(place(n), i) == (0 <= i < 64 && exists|m: HardforkName| (s.len() == 0 || s.contains(m)) && #[trigger] nbit(m.num(), i)) by {
        if 0 <= i < 64 {
            if nbit(n, i) { let k = choose|k: int| 0 <= k < s.len() && #[trigger] nbit(s[k].num(), i); assert(s.contains(s[k]) && nbit(s[k].num(), i)); }
            if exists|m: HardforkName| s.contains(m) && #[trigger] nbit(m.num(), i) { let m = choose|m: HardforkName| s.contains(m) && #[trigger] nbit(m.num(), i); let k = choose|k: int| 0 <= k < s.len() && s[k] == m; assert(nbit(s[k].num(), i)); }
        }
    }
}
proof fn listed_all(n: u64) requires all_names(n) ensures configured(Seq::empty(), place(n)) {
    let s = choose|s: Seq<HardforkName>| every_name(s) && #[trigger] bits_of(s, n);
    assert(s.contains(HardforkName::None));
    listed(s, n);
    assert forall|i: int| #[trigger] flag(place(n), i) == (0 <= i < 64 && exists|m: HardforkName| (Seq::<HardforkName>::empty().len() == 0 || Seq::<HardforkName>::empty().contains(m)) && #[trigger] nbit(m.num(), i)) by {
        if 0 <= i < 64 && exists|m: HardforkName| #[trigger] nbit(m.num(), i) { let m = choose|m: HardforkName| #[trigger] nbit(m.num(), i); assert(s.contains(m) && nbit(m.num(), i)); }
    }
}
