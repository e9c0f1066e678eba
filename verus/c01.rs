//@include head.rs
pub mod sh {
use super::*;
//@include num.rs
//@include bytes.rs
//@include rlp.rs
}
use sh::*;
//@include tx.rs
// C01: the wire codec of transactions.
broadcast use {num_axioms, bytes_axioms, rlp_axioms};
impl FromSpecImpl<&[u8]> for U256 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(x: &[u8]) -> U256 { u256(be(x@)) } }
impl From<&[u8]> for U256 { #[verifier::external_body] fn from(x: &[u8]) -> U256 { unimplemented!() } }
/// H256::from_uint(u).as_bytes().to_vec(): the 32 big-endian bytes
#[verifier::external_body] pub fn be32(u: &U256) -> (r: Vec<u8>) ensures r@.len() == 32, be(r@) == u@ { unimplemented!() }
#[verifier::external_body] pub fn concat2(t: u8, b: &[u8]) -> (r: Vec<u8>) ensures r@ == seq![t] + b@ { unimplemented!() }

//@fn protocol/src/codec/transaction.rs :: fn truncate_slice
//@ ret r
//@ spec
    ensures r@ == (if s@.len() <= n { s@ } else { s@.take(n as int) }),
//@end
proof fn be32_eq(a: Bytes, u: nat, b: Seq<u8>)
    requires a@.len() == 32, b.len() == 32, u == be(a@), be(b) == u,
    ensures bytes_(b) == a,
{ be_injective(a@, b); }
proof fn be_fits(a: Seq<u8>) requires a.len() == 32 ensures be(a) < pow256() { be_bound(a); p256_32(); }

impl SignatureComponents {
//@item protocol/src/types/transaction.rs :: impl SignatureComponents/const SECP256K1_SIGNATURE_LEN
//@end
//@fn protocol/src/types/transaction.rs :: impl SignatureComponents/fn len
//@ ret r
//@ spec
    requires sig_lens(*self),
    ensures r == self.r@.len() + self.s@.len() + 1,
//@end
//@fn protocol/src/types/transaction.rs :: impl SignatureComponents/fn is_eth_sig
//@ ret r
//@ spec
    requires sig_lens(*self),
    ensures r == eth(*self),
//@end
//@fn protocol/src/types/transaction.rs :: impl SignatureComponents/fn add_chain_replay_protection
//@ ret r
//@ spec
    requires self.standard_v <= 1, v_of(self.standard_v as int, chain_id) <= u64::MAX,
    ensures r == v_of(self.standard_v as int, chain_id),
//@ closure 0
    -> (o: u64) requires 2 * i + 35 <= u64::MAX, ensures o == 2 * i + 35,
//@end
//@fn protocol/src/types/transaction.rs :: impl SignatureComponents/fn extract_standard_v
//@ ret r
//@ spec
    ensures v == 27 ==> r == Some(0u8), v == 28 ==> r == Some(1u8), v >= 35 ==> (r matches Some(p) && p == ((v - 35) % 2)), v < 27 || 28 < v < 35 ==> r is None,
//@end
//@fn protocol/src/types/transaction.rs :: impl SignatureComponents/fn extract_chain_id
//@ ret r
//@ spec
    ensures v < 35 ==> r is None, v >= 35 ==> (r matches Some(i) && i == (v - 35) / 2),
//@end
//@fn protocol/src/codec/transaction.rs :: impl Encodable for SignatureComponents/fn rlp_append
//@ spec
    requires sig_lens(*self), eth(*self) ==> self.r@.len() == 32 && self.s@.len() == 32,
    ensures final(s)@ == old(s)@ + seq![Tok::Num(self.standard_v as nat)] + flat(r_item(*self)) + flat(s_item(*self)),
//@ start
    proof { if eth(*self) { be_fits(self.r@); be_fits(self.s@); } }
    assert(self.r@.take(32 as int) =~= self.r@ || self.r@.len() != 32);
    assert(self.s@.take(32 as int) =~= self.s@ || self.s@.len() != 32);
    let ghost s0 = s@;
//@ end
    proof { assert(s@ =~= s0 + seq![Tok::Num(self.standard_v as nat)] + flat(r_item(*self)) + flat(s_item(*self))); }
//@end
//@fn protocol/src/codec/transaction.rs :: impl SignatureComponents/fn rlp_decode
//@ ret res
//@ sub /<H256 as BigEndianHash>::from_uint\(&tmp_r\)\s*\.as_bytes\(\)\s*\.to_vec\(\)/ => /be32(&tmp_r)/ 1
//@ sub /<H256 as BigEndianHash>::from_uint\(&tmp_s\)\s*\.as_bytes\(\)\s*\.to_vec\(\)/ => /be32(&tmp_s)/ 1
//@ spec
    requires offset <= 1000,
    ensures res matches Ok(g) ==> sig_lens(g) && (eth(g) ==> g.r@.len() == 32 && g.s@.len() == 32) && (legacy_v matches Some(n) ==> g.standard_v <= 1 && (n == 27 || n == 28 || n >= 35) && g.standard_v == (if n >= 35 { (n - 35) % 2 } else { n - 27 })),
        forall|g: SignatureComponents| sig_wf(g) && sig_lens(g) && #[trigger] sig_at(rlp@, offset as int, legacy_v, g) ==> res == Ok::<SignatureComponents, DecoderError>(g),
//@ start
    proof {
        assert forall|g: SignatureComponents| sig_wf(g) && #[trigger] sig_at(rlp@, offset as int, legacy_v, g) && eth(g) implies be(g.r@) < pow256() && be(g.s@) < pow256() by { be_fits(g.r@); be_fits(g.s@); }
        assert forall|a: Bytes, b: Seq<u8>| a@.len() == 32 && b.len() == 32 && #[trigger] be(a@) == #[trigger] be(b) implies bytes_(b) == a by { be_injective(a@, b); }
    }
//@end
}
pub open spec fn sig_at(it: Item, o: int, lv: Option<u64>, g: SignatureComponents) -> bool {
    it matches Item::List(v) && o + 2 < v.len() && v[o + 1] == r_item(g) && v[o + 2] == s_item(g)
        && (match lv { Some(n) => g.standard_v <= 1 && (n == 27 + g.standard_v || (n >= 35 && (n - 35) % 2 == g.standard_v)), None => v[o] == Item::Num(g.standard_v as nat) })
}
proof fn acl_loop_done(v: Seq<AccessListItem>) ensures flat(acl_item(v)) == seq![Tok::List(v.len())] + toks_to(acl_item(v)->List_0, v.len() as int) { flat_list(acl_item(v)->List_0); }
proof fn acc_toks(a: AccessListItem)
    ensures flat(acc_item(a)) == seq![Tok::List(2), Tok::Str(a.address@), Tok::List(a.storage_keys@.len())] + toks_to(keys_item(a.storage_keys@)->List_0, a.storage_keys@.len() as int),
{
    let v = seq![Item::Str(a.address@), keys_item(a.storage_keys@)];
    flat_list(v);
    flat_list(keys_item(a.storage_keys@)->List_0);
    reveal_with_fuel(toks_to, 3);
    assert(flat(acc_item(a)) =~= seq![Tok::List(2), Tok::Str(a.address@), Tok::List(a.storage_keys@.len())] + toks_to(keys_item(a.storage_keys@)->List_0, a.storage_keys@.len() as int));
}
impl LegacyTransaction {
//@fn protocol/src/codec/transaction.rs :: impl LegacyTransaction/fn rlp_encode
//@ spec
    requires tx_enc_ok(UnverifiedTransaction { unsigned: UnsignedTransaction::Legacy(*self), chain_id, signature: sig_of(signature), hash: h256(seq![]) }),
    ensures final(rlp)@ == old(rlp)@ + flat(legacy_item(*self, chain_id, sig_of(signature))),
//@ start
    let ghost s0 = rlp@;
    proof {
        if let Some(g) = sig_of(signature) {
            if eth(g) { be_fits(g.r@); be_fits(g.s@); }
            assert(g.r@.take(32 as int) =~= g.r@ || g.r@.len() != 32);
            assert(g.s@.take(32 as int) =~= g.s@ || g.s@.len() != 32);
        }
    }
//@ end
    proof { flat_list(legacy_item(*self, chain_id, sig_of(signature))->List_0); reveal_with_fuel(toks_to, 10);
        assert(rlp@ =~= s0 + flat(legacy_item(*self, chain_id, sig_of(signature)))); }
//@end
//@fn protocol/src/codec/transaction.rs :: impl LegacyTransaction/fn rlp_decode
//@ ret res
//@ spec
    ensures res matches Ok(t) ==> t.unsigned is Legacy && items_ok(t, r.raw()),
        res matches Ok(t) ==> tx_enc_ok(t) && t.signature is Some,
        forall|t: UnverifiedTransaction| t.unsigned is Legacy && tx_wf(t) && tx_enc_ok(t) && r@ == #[trigger] tx_item(t) ==> dec_ok(res, t, r.raw()),
//@ start
    proof { assert forall|t: UnverifiedTransaction| t.unsigned is Legacy && tx_wf(t) && tx_enc_ok(t) && r@ == #[trigger] tx_item(t) implies sig_at(r@, 6, Some(v_of(t.signature->0.standard_v as int, t.chain_id) as u64), t.signature->0) by {} }
//@end
}
impl Eip2930Transaction {
//@fn protocol/src/codec/transaction.rs :: impl Eip2930Transaction/fn rlp_encode
//@ isolate
//@ nloops 2
//@ spec
    requires tx_enc_ok(UnverifiedTransaction { unsigned: UnsignedTransaction::Eip2930(*self), chain_id, signature: sig_of(signature), hash: h256(seq![]) }),
    ensures final(rlp)@ == old(rlp)@ + flat(eip2930_item(*self, chain_id, sig_of(signature))),
//@ start
    let ghost s0 = rlp@;
    let ghost al = acl_item(self.access_list@)->List_0;
//@ loopbefore 0
    let ghost s1 = rlp@;
//@ loop 0 it
    invariant
        al == acl_item(self.access_list@)->List_0, it.seq() == self.access_list@.map_values(|x: AccessListItem| &x), 0 <= it.index@ <= self.access_list@.len(),
        rlp@ == s1 + toks_to(al, it.index@ as int),
//@ loopstart 0
    let ghost n = it.index@ as int;
    let ghost s2 = rlp@;
    let ghost ks = keys_item(access.storage_keys@)->List_0;
    let ghost kn = access.storage_keys@.len();
//@ loopbefore 1
    let ghost s3 = rlp@;
//@ loop 1 jt
    invariant
        ks == keys_item(access.storage_keys@)->List_0, jt.seq() == access.storage_keys@.map_values(|x: H256| &x), 0 <= jt.index@ <= access.storage_keys@.len(),
        rlp@ == s3 + toks_to(ks, jt.index@ as int),
//@ loopstart 1
    let ghost s4 = rlp@;
    let ghost k = jt.index@ as int;
//@ loopend 1
    proof { assert(rlp@ =~= s3 + (toks_to(ks, k) + flat(ks[k]))); }
//@ loopend 0
    proof {
        acc_toks(*access);
        assert(rlp@ =~= s2 + flat(al[n]));
        assert(rlp@ =~= s1 + (toks_to(al, n) + flat(al[n])));
    }
//@ loopafter 0
    proof {
        let v = eip2930_item(*self, chain_id, sig_of(signature))->List_0;
        flat_list(v); reveal_with_fuel(toks_to, 13); acl_loop_done(self.access_list@);
        if signature is None { assert(rlp@ =~= s0 + flat(eip2930_item(*self, chain_id, sig_of(signature)))); }
        assert(rlp@ =~= s0 + (seq![Tok::List(v.len())] + toks_to(v, 8)));
    }
    let ghost s5 = rlp@;
//@ end
    proof { let v = eip2930_item(*self, chain_id, sig_of(signature))->List_0; flat_list(v); reveal_with_fuel(toks_to, 5); 
        assert(rlp@ =~= s0 + flat(eip2930_item(*self, chain_id, sig_of(signature)))); }
//@end
//@fn protocol/src/codec/transaction.rs :: impl Eip2930Transaction/fn rlp_decode
//@ ret res
//@ nloops 1
//@ sub /Hasher::digest\(\[&\[tx\.as_u8\(\)\], r\.as_raw\(\)\]\.concat\(\)\)/ => /Hasher::digest(concat2(tx.as_u8(), r.as_raw()))/ 1
//@ spec
    ensures res matches Ok(t) ==> t.unsigned is Eip2930 && items_ok(t, r.raw()),
        res matches Ok(t) ==> tx_enc_ok(t) && t.signature is Some,
        forall|t: UnverifiedTransaction| t.unsigned is Eip2930 && tx_wf(t) && tx_enc_ok(t) && r@ == #[trigger] tx_item(t) ==> dec_ok(res, t, r.raw()),
//@ start
    proof { assert forall|t: UnverifiedTransaction| t.unsigned is Eip2930 && tx_wf(t) && tx_enc_ok(t) && r@ == #[trigger] tx_item(t) implies sig_at(r@, 8, None, t.signature->0) by {} }
//@ loop 0 it
    invariant
        r@ matches Item::List(v) ==> v.len() > 7 ==> accl_rlp@ == v[7],
        accl_rlp.raw() == nth(r.raw(), 7), it.seq().len() == icount(nth(r.raw(), 7)), access_list@.len() == it.index@,
        forall|j: nat| j < it.index@ ==> #[trigger] icount(nth(nth(r.raw(), 7), j)) == 2,
        forall|l: Seq<AccessListItem>| accl_rlp@ == #[trigger] acl_item(l) ==> it.seq().len() == l.len() && it.index@ <= l.len() && same_acl(access_list@, l.take(it.index@ as int)),
        forall|j: int| 0 <= j < it.seq().len() ==> it.seq()[j] == j,
//@ loopstart 0
    let ghost n = it.index@ as int;
    proof {
        assert forall|l: Seq<AccessListItem>| accl_rlp@ == #[trigger] acl_item(l) implies (accl_rlp@->List_0)[n] == acc_item(l[n]) && h160(l[n].address@) == l[n].address by { }
        assert forall|ks: Seq<H256>| (#[trigger] keys_item(ks))->List_0.map_values(|x: Item| H256::of(x)) == ks by { assert(keys_item(ks)->List_0.map_values(|x: Item| H256::of(x)) =~= ks); }
    }
//@end
}
proof fn eip1559_toks(x: Eip1559Transaction, c: Option<u64>, g: Option<SignatureComponents>)
    ensures ({ let v = eip1559_item(x, c, g)->List_0;
        toks_to(v, 9) == seq![Tok::Num(cid(c)), Tok::Num(x.nonce@), Tok::Num(x.max_priority_fee_per_gas@), Tok::Num(x.gas_price@), Tok::Num(x.gas_limit@)] + flat(x.action.item()) + seq![Tok::Num(x.value@), Tok::Str(x.data@)] + flat(acl_item(x.access_list@))
        && (g matches Some(g) ==> toks_to(v, 12) == toks_to(v, 9) + seq![Tok::Num(g.standard_v as nat)] + flat(r_item(g)) + flat(s_item(g))) }),
{
    let v = eip1559_item(x, c, g)->List_0;
    reveal_with_fuel(toks_to, 10);
    assert(toks_to(v, 9) =~= seq![Tok::Num(cid(c)), Tok::Num(x.nonce@), Tok::Num(x.max_priority_fee_per_gas@), Tok::Num(x.gas_price@), Tok::Num(x.gas_limit@)] + flat(x.action.item()) + seq![Tok::Num(x.value@), Tok::Str(x.data@)] + flat(acl_item(x.access_list@)));
    if g is Some { assert(toks_to(v, 12) == toks_to(v, 11) + flat(v[11])); assert(toks_to(v, 11) == toks_to(v, 10) + flat(v[10])); assert(toks_to(v, 10) == toks_to(v, 9) + flat(v[9])); }
}
impl Eip1559Transaction {
//@fn protocol/src/codec/transaction.rs :: impl Eip1559Transaction/fn rlp_encode
//@ isolate
//@ nloops 2
//@ spec
    requires tx_enc_ok(UnverifiedTransaction { unsigned: UnsignedTransaction::Eip1559(*self), chain_id, signature: sig_of(signature), hash: h256(seq![]) }),
    ensures final(rlp)@ == old(rlp)@ + flat(eip1559_item(*self, chain_id, sig_of(signature))),
//@ start
    let ghost s0 = rlp@;
    let ghost al = acl_item(self.access_list@)->List_0;
//@ loopbefore 0
    let ghost s1 = rlp@;
//@ loop 0 it
    invariant
        al == acl_item(self.access_list@)->List_0, it.seq() == self.access_list@.map_values(|x: AccessListItem| &x), 0 <= it.index@ <= self.access_list@.len(),
        rlp@ == s1 + toks_to(al, it.index@ as int),
//@ loopstart 0
    let ghost n = it.index@ as int;
    let ghost s2 = rlp@;
    let ghost ks = keys_item(access.storage_keys@)->List_0;
    let ghost kn = access.storage_keys@.len();
//@ loopbefore 1
    let ghost s3 = rlp@;
//@ loop 1 jt
    invariant
        ks == keys_item(access.storage_keys@)->List_0, jt.seq() == access.storage_keys@.map_values(|x: H256| &x), 0 <= jt.index@ <= access.storage_keys@.len(),
        rlp@ == s3 + toks_to(ks, jt.index@ as int),
//@ loopstart 1
    let ghost s4 = rlp@;
    let ghost k = jt.index@ as int;
//@ loopend 1
    proof { assert(rlp@ =~= s3 + (toks_to(ks, k) + flat(ks[k]))); }
//@ loopend 0
    proof {
        acc_toks(*access);
        assert(rlp@ =~= s2 + flat(al[n]));
        assert(rlp@ =~= s1 + (toks_to(al, n) + flat(al[n])));
    }
//@ loopafter 0
    proof {
        let v = eip1559_item(*self, chain_id, sig_of(signature))->List_0;
        flat_list(v); eip1559_toks(*self, chain_id, sig_of(signature)); acl_loop_done(self.access_list@);
        if signature is None { assert(rlp@ =~= s0 + flat(eip1559_item(*self, chain_id, sig_of(signature)))); }
        assert(rlp@ =~= s0 + (seq![Tok::List(v.len())] + toks_to(v, 9)));
    }
    let ghost s5 = rlp@;
//@ end
    proof { let v = eip1559_item(*self, chain_id, sig_of(signature))->List_0; flat_list(v); eip1559_toks(*self, chain_id, sig_of(signature));
        assert(rlp@ =~= s0 + flat(eip1559_item(*self, chain_id, sig_of(signature)))); }
//@end
//@fn protocol/src/codec/transaction.rs :: impl Eip1559Transaction/fn rlp_decode
//@ ret res
//@ nloops 1
//@ sub /Hasher::digest\(\[&\[tx\.as_u8\(\)\], r\.as_raw\(\)\]\.concat\(\)\)/ => /Hasher::digest(concat2(tx.as_u8(), r.as_raw()))/ 1
//@ spec
    ensures res matches Ok(t) ==> t.unsigned is Eip1559 && items_ok(t, r.raw()),
        res matches Ok(t) ==> tx_enc_ok(t) && t.signature is Some,
        forall|t: UnverifiedTransaction| t.unsigned is Eip1559 && tx_wf(t) && tx_enc_ok(t) && r@ == #[trigger] tx_item(t) ==> dec_ok(res, t, r.raw()),
//@ start
    proof { assert forall|t: UnverifiedTransaction| t.unsigned is Eip1559 && tx_wf(t) && tx_enc_ok(t) && r@ == #[trigger] tx_item(t) implies sig_at(r@, 9, None, t.signature->0) by {} }
//@ loop 0 it
    invariant
        r@ matches Item::List(v) ==> v.len() > 8 ==> accl_rlp@ == v[8],
        accl_rlp.raw() == nth(r.raw(), 8), it.seq().len() == icount(nth(r.raw(), 8)), access_list@.len() == it.index@,
        forall|j: nat| j < it.index@ ==> #[trigger] icount(nth(nth(r.raw(), 8), j)) == 2,
        forall|l: Seq<AccessListItem>| accl_rlp@ == #[trigger] acl_item(l) ==> it.seq().len() == l.len() && it.index@ <= l.len() && same_acl(access_list@, l.take(it.index@ as int)),
        forall|j: int| 0 <= j < it.seq().len() ==> it.seq()[j] == j,
//@ loopstart 0
    let ghost n = it.index@ as int;
    proof {
        assert forall|l: Seq<AccessListItem>| accl_rlp@ == #[trigger] acl_item(l) implies (accl_rlp@->List_0)[n] == acc_item(l[n]) && h160(l[n].address@) == l[n].address by { }
        assert forall|ks: Seq<H256>| (#[trigger] keys_item(ks))->List_0.map_values(|x: Item| H256::of(x)) == ks by { assert(keys_item(ks)->List_0.map_values(|x: Item| H256::of(x)) =~= ks); }
    }
//@end
}
impl UnsignedTransaction {
//@fn protocol/src/types/transaction.rs :: impl UnsignedTransaction/fn is_legacy
//@ ret r
//@ spec
    ensures r == (self is Legacy),
//@end
//@fn protocol/src/types/transaction.rs :: impl UnsignedTransaction/fn as_u8
//@ ret r
//@ spec
    requires !(self is Legacy),
    ensures seq![r] == tx_prefix(*self),
//@end
}
impl UnverifiedTransaction {
//@fn protocol/src/codec/transaction.rs :: impl Encodable for UnverifiedTransaction/fn rlp_append
//@ spec
    requires tx_enc_ok(*self),
    ensures final(s)@ == old(s)@ + flat(tx_item(*self)),
//@end
//@fn protocol/src/codec/transaction.rs :: impl Encodable for UnverifiedTransaction/fn rlp_bytes
//@ ret r
//@ spec
    requires tx_enc_ok(*self),
    ensures r@ == tx_bytes(*self),
//@ start
    proof { assert(Seq::<Tok>::empty() + flat(tx_item(*self)) =~= flat(tx_item(*self))); }
//@end
//@fn protocol/src/codec/transaction.rs :: impl Decodable for UnverifiedTransaction/fn decode
//@ ret res
//@ spec
    ensures res matches Ok(t) ==> r.raw().len() > 0 && (r.raw()[0] & 0x80 != 0 ==> t.unsigned is Legacy && items_ok(t, r.raw()))
            && (r.raw()[0] & 0x80 == 0 ==> r.raw()[0] == (if t.unsigned is Eip2930 { 1u8 } else { 2u8 }) && !(t.unsigned is Legacy) && items_ok(t, r.raw().skip(1))),
        res matches Ok(t) ==> tx_enc_ok(t) && t.signature is Some,
        forall|t: UnverifiedTransaction| tx_wf(t) && tx_enc_ok(t) && r.raw() == #[trigger] tx_bytes(t) ==> dec_ok(res, t, ser(flat(tx_item(t)))) && (res matches Ok(u) && u.hash == keccak(r.raw())),
//@ start
    proof {
        assert(forall|h: u8| h >= 0xc0 ==> #[trigger] (h & 0x80) != 0) by (bit_vector);
        assert(1u8 & 0x80 == 0 && 2u8 & 0x80 == 0) by (bit_vector);
        assert forall|t: UnverifiedTransaction| tx_wf(t) && tx_enc_ok(t) && r.raw() == #[trigger] tx_bytes(t) implies
            (t.unsigned is Legacy ==> r.raw() == ser(flat(tx_item(t))) && r.raw()[0] >= 0xc0 && r@ == tx_item(t))
            && (!(t.unsigned is Legacy) ==> r.raw()[0] == tx_prefix(t.unsigned)[0] && r.raw().skip(1) == ser(flat(tx_item(t))) && parse(r.raw().skip(1)) == tx_item(t))
            && tx_prefix(t.unsigned) + ser(flat(tx_item(t))) == r.raw() by {
            assert(seq![] + ser(flat(tx_item(t))) =~= ser(flat(tx_item(t))));
            if !(t.unsigned is Legacy) { assert(tx_bytes(t).skip(1) =~= ser(flat(tx_item(t)))); }
        }
    }
//@end
}
/// a list of exactly the items its type has, an access list of pairs
pub open spec fn items_ok(t: UnverifiedTransaction, raw: Seq<u8>) -> bool {
    match t.unsigned {
        UnsignedTransaction::Legacy(_) => icount(raw) == 9,
        UnsignedTransaction::Eip2930(x) => icount(raw) == 11 && x.access_list@.len() == icount(nth(raw, 7)) && (forall|j: nat| j < icount(nth(raw, 7)) ==> #[trigger] icount(nth(nth(raw, 7), j)) == 2),
        UnsignedTransaction::Eip1559(x) => icount(raw) == 12 && x.access_list@.len() == icount(nth(raw, 8)) && (forall|j: nat| j < icount(nth(raw, 8)) ==> #[trigger] icount(nth(nth(raw, 8), j)) == 2),
    }
}
pub open spec fn sig_of(s: Option<&SignatureComponents>) -> Option<SignatureComponents> { match s { Some(g) => Some(*g), None => None } }
pub open spec fn dec_ok(res: Result<UnverifiedTransaction, DecoderError>, t: UnverifiedTransaction, raw: Seq<u8>) -> bool {
    res matches Ok(u) && same_unsigned(u.unsigned, t.unsigned) && u.signature == t.signature && u.chain_id == t.chain_id && u.hash == keccak(tx_prefix(t.unsigned) + raw)
}
}
fn main() {}
