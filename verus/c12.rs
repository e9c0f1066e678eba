//@include head.rs
pub mod sh {
use super::*;
//@include num.rs
//@include bytes.rs
//@include rlp.rs
//@include types.rs
}
use sh::*;
//@include at.rs
// C12: the light client's acceptance of a block.
pub mod pf {
use super::*;
use super::sh::*;
use super::at::{Block, Proof, Proposal, ValidatorExtend, Vote, Hex, Header, ExtraData};
broadcast use {num_axioms, bytes_axioms, rlp_axioms, vec_axioms};
// ---- the library's digest (32 bytes, here as the hash type) ----
#[verifier::external_body] pub fn keccak_256(b: &[u8]) -> (r: H256) ensures r == keccak(b@) { unimplemented!() }
impl H256 { #[verifier::external_body] pub fn to_vec(&self) -> (r: Vec<u8>) ensures r@ == self@ { unimplemented!() } }
impl Proposal { #[verifier::external_body] pub fn rlp_bytes(&self) -> (r: BytesMut) ensures r@ == ser(flat(self.item())) { unimplemented!() } }
pub mod rlp { use super::*;
    #[verifier::external_body] pub fn encode<E: Enc>(e: &E) -> (r: BytesMut) ensures r@ == ser(flat(e.item())) { unimplemented!() }
}
// ---- the BLS library: keys and signatures are their encodings; aggregation and verification are functions of those ----
#[allow(non_camel_case_types)]
pub enum BLST_ERROR { BLST_SUCCESS, BLST_VERIFY_FAIL, Other }
impl PartialEqSpecImpl for BLST_ERROR { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &BLST_ERROR) -> bool { *self == *o } }
impl PartialEq for BLST_ERROR { #[verifier::external_body] fn eq(&self, o: &BLST_ERROR) -> bool { unimplemented!() } }
pub enum Error { InvalidProofBlockHash, NotEnoughSignatures, Bls(BLST_ERROR) }
impl FromSpecImpl<BLST_ERROR> for Error { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(x: BLST_ERROR) -> Error { Error::Bls(x) } }
impl From<BLST_ERROR> for Error { fn from(x: BLST_ERROR) -> Error { Error::Bls(x) } }
pub uninterp spec fn key_ok(k: Seq<u8>) -> bool;
pub uninterp spec fn sig_ok(k: Seq<u8>) -> bool;
/// the aggregate of keys whose group membership was checked; none if there is no key or a bad one
pub uninterp spec fn aggregated(keys: Seq<Seq<u8>>, checked: bool) -> Option<AggKey>;
/// signature over message under an aggregate key, with the membership of the signature and the key's validity checked
pub uninterp spec fn bls_valid(sig: Seq<u8>, sig_checked: bool, msg: Seq<u8>, dst: Seq<char>, aug: Seq<u8>, key: AggKey, key_checked: bool) -> bool;
#[verifier::external_body] pub struct PublicKey { x: u8 }
#[verifier::external_body] pub struct AggKey { x: u8 }
#[verifier::external_body] pub struct AggregatePublicKey { x: u8 }
#[verifier::external_body] pub struct Signature { x: u8 }
impl PublicKey {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    pub uninterp spec fn agg(&self) -> AggKey;
    #[verifier::external_body] pub fn from_bytes(b: &[u8]) -> (r: Result<PublicKey, BLST_ERROR>) ensures r is Ok == key_ok(b@), r matches Ok(k) ==> k@ == b@ { unimplemented!() }
    #[verifier::external_body] pub fn from_aggregate(a: &AggregatePublicKey) -> (r: PublicKey) ensures r.agg() == a.agg() { unimplemented!() }
}
impl AggregatePublicKey {
    pub uninterp spec fn agg(&self) -> AggKey;
    #[verifier::external_body] pub fn aggregate(keys: &Vec<&PublicKey>, check: bool) -> (r: Result<AggregatePublicKey, BLST_ERROR>)
        ensures match aggregated(ref_keys(keys@), check) { Some(a) => r matches Ok(g) && g.agg() == a, None => r is Err } { unimplemented!() }
}
impl Signature {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn from_bytes(b: &Bytes) -> (r: Result<Signature, BLST_ERROR>) ensures r is Ok == sig_ok(b@), r matches Ok(k) ==> k@ == b@ { unimplemented!() }
    #[verifier::external_body] pub fn verify(&self, sig_check: bool, msg: &H256, dst: &str, aug: &[u8], key: &PublicKey, key_check: bool) -> (r: BLST_ERROR)
        ensures (r is BLST_SUCCESS) == bls_valid(self@, sig_check, msg@, dst@, aug@, key.agg(), key_check) { unimplemented!() }
}
#[verifier::external_body] pub fn refs<'a>(v: &'a Vec<PublicKey>) -> (r: Vec<&'a PublicKey>) ensures ref_keys(r@) == key_seq(v@) { unimplemented!() }
// ---- bit vectors: most significant bit first ----
pub open spec fn bits(s: Seq<u8>) -> Seq<bool> { Seq::new(8 * s.len(), |i: int| bit_of(s, i)) }
pub open spec fn bit_of(s: Seq<u8>, i: int) -> bool { (s[i / 8] / p2(7 - i % 8) as u8) % 2 == 1 }
pub open spec fn p2(n: int) -> int { if n == 0 { 1 } else if n == 1 { 2 } else if n == 2 { 4 } else if n == 3 { 8 } else if n == 4 { 16 } else if n == 5 { 32 } else if n == 6 { 64 } else { 128 } }
#[verifier::external_body] pub struct BitVec { x: u8 }
impl BitVec {
    pub uninterp spec fn view(&self) -> Seq<bool>;
    #[verifier::external_body] pub fn from_bytes(b: &Bytes) -> (r: BitVec) ensures r@ == bits(b@) { unimplemented!() }
}
pub open spec fn least(a: nat, b: nat) -> nat { if a < b { a } else { b } }
/// the pairs of a list and a bit vector, as far as both reach
#[verifier::external_body] pub fn zipped<'a>(l: &'a [ValidatorExtend], b: &BitVec) -> (r: Vec<(&'a ValidatorExtend, bool)>)
    ensures r@.len() == least(l@.len(), b@.len()), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]).0 == l@[i] && r@[i].1 == b@[i] { unimplemented!() }
// ---- order of validators ----
/// the lexicographic order of byte strings
pub uninterp spec fn lexcmp(a: Seq<u8>, b: Seq<u8>) -> core::cmp::Ordering;
impl Bytes { #[verifier::external_body] pub fn cmp(&self, o: &Bytes) -> (r: core::cmp::Ordering) ensures r == lexcmp(self@, o@) { unimplemented!() } }
impl Hex {
//@fn devtools/axon-tools/src/types.rs :: impl Hex/fn as_bytes
//@ ret r
//@ spec
    ensures r == self.0,
//@end
}
impl ValidatorExtend {
//@fn devtools/axon-tools/src/types.rs :: impl Ord for ValidatorExtend/fn cmp
//@ ret r
//@ sub /\bOrdering\b/ => /core::cmp::Ordering/
//@ spec
    ensures r == vcmp(*self, *other),
//@end
}
pub open spec fn vcmp(a: ValidatorExtend, b: ValidatorExtend) -> core::cmp::Ordering { lexcmp(a.pub_key.0@, b.pub_key.0@) }
pub open spec fn sorted(s: Seq<ValidatorExtend>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> vcmp(#[trigger] s[i], #[trigger] s[j]) != core::cmp::Ordering::Greater }
/// the order in which bitmap bits count: a function of the list (sorting is stable)
pub uninterp spec fn ordered(s: Seq<ValidatorExtend>) -> Seq<ValidatorExtend>;
pub broadcast axiom fn axiom_ordered(s: Seq<ValidatorExtend>) ensures sorted(#[trigger] ordered(s)), ordered(s).to_multiset() == s.to_multiset(), ordered(s).len() == s.len();
#[verifier::external_body] pub fn sort_by_cmp(l: &mut [ValidatorExtend]) ensures final(l)@ == ordered(old(l)@) { unimplemented!() }

/// the keys of the first n validators whose bit is set
pub open spec fn voters(l: Seq<ValidatorExtend>, b: Seq<bool>, n: nat) -> Seq<Seq<u8>> decreases n {
    if n == 0 || n > l.len() || n > b.len() { Seq::empty() } else if b[n - 1] { voters(l, b, (n - 1) as nat).push(l[n - 1].bls_pub_key.0@) } else { voters(l, b, (n - 1) as nat) }
}
pub open spec fn all_voters(l: Seq<ValidatorExtend>, bitmap: Seq<u8>) -> Seq<Seq<u8>> { voters(l, bits(bitmap), least(l.len(), bits(bitmap).len())) }
proof fn voters_len(l: Seq<ValidatorExtend>, b: Seq<bool>, n: nat) ensures voters(l, b, n).len() <= n decreases n { if n > 0 { voters_len(l, b, (n - 1) as nat); } }
pub open spec fn keys_ok(k: Seq<Seq<u8>>) -> bool { forall|i: int| 0 <= i < k.len() ==> key_ok(#[trigger] k[i]) }
pub open spec fn quorum(votes: nat, of: nat) -> bool { votes * 3 > of * 2 }
pub open spec fn ref_keys(v: Seq<&PublicKey>) -> Seq<Seq<u8>> { v.map_values(|k: &PublicKey| k@) }
pub open spec fn key_seq(v: Seq<PublicKey>) -> Seq<Seq<u8>> { v.map_values(|k: PublicKey| k@) }
proof fn voters_stop(l: Seq<ValidatorExtend>, b: Seq<bool>, n: nat, m: nat) requires n <= m <= least(l.len(), b.len()), keys_ok(voters(l, b, m)) ensures keys_ok(voters(l, b, n)) decreases m
{ if n < m { assert forall|i: int| 0 <= i < voters(l, b, (m - 1) as nat).len() implies key_ok(#[trigger] voters(l, b, (m - 1) as nat)[i]) by { if b[m - 1] { assert(voters(l, b, m)[i] == voters(l, b, (m - 1) as nat)[i]); } } voters_stop(l, b, n, (m - 1) as nat); } }

//@item devtools/axon-tools/src/proof.rs :: const DST
//@ sub /&str/ => /&'static str/ 1
//@end
//@fn devtools/axon-tools/src/proof.rs :: fn extract_pks
//@ ret r
//@ sub /validator_list\.sort\(\)/ => /sort_by_cmp(validator_list)/
//@ sub /validator_list\.iter\(\)\.zip\((\w+)\.iter\(\)\)/ => /zipped(validator_list, &\1)/
//@ spec
    requires old(validator_list)@.len() <= usize::MAX / 3,
    ensures final(validator_list)@ == ordered(old(validator_list)@),
        r is Ok == (keys_ok(all_voters(final(validator_list)@, proof.bitmap@)) && quorum(all_voters(final(validator_list)@, proof.bitmap@).len(), old(validator_list)@.len())),
        r matches Ok(k) ==> key_seq(k@) == all_voters(final(validator_list)@, proof.bitmap@),
//@ start
    broadcast use axiom_ordered;
//@ loopstart 0
    let ghost n = it.index@ as nat;
    proof {
        voters_len(validator_list@, bit_map@, n);
        if keys_ok(voters(validator_list@, bit_map@, least(validator_list@.len(), bit_map@.len()))) {
            voters_stop(validator_list@, bit_map@, n + 1, least(validator_list@.len(), bit_map@.len()));
            if bit { assert(voters(validator_list@, bit_map@, n + 1).last() == v.bls_pub_key.0@); }
        }
        assert forall|p: PublicKey| #[trigger] p@ == v.bls_pub_key.0@ implies key_seq(pks@.push(p)) =~= key_seq(pks@).push(p@) by { }
    }
//@ loop 0 it
    invariant
        it.seq().len() == least(validator_list@.len(), bit_map@.len()), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]).0 == validator_list@[i] && it.seq()[i].1 == bit_map@[i],
        validator_list@ == ordered(old(validator_list)@), bit_map@ == bits(proof.bitmap@), validator_list@.len() <= usize::MAX / 3,
        key_seq(pks@) == voters(validator_list@, bit_map@, it.index@ as nat), count == voters(validator_list@, bit_map@, it.index@ as nat).len(), count <= it.index@, keys_ok(voters(validator_list@, bit_map@, it.index@ as nat)),
//@end
/// the proposal a block was committed from
pub open spec fn proposal_of(b: Block, root: H256) -> Proposal {
    Proposal { version: b.header.version, prev_hash: b.header.prev_hash, proposer: b.header.proposer, prev_state_root: root, transactions_root: b.header.transactions_root, signed_txs_hash: b.header.signed_txs_hash,
        timestamp: b.header.timestamp, number: b.header.number, gas_limit: b.header.gas_limit, extra_data: b.header.extra_data, base_fee_per_gas: b.header.base_fee_per_gas, proof: b.header.proof, chain_id: b.header.chain_id,
        call_system_script_count: b.header.call_system_script_count, tx_hashes: b.tx_hashes }
}
/// what a voter signed: precommit of the digest at the proof's height and round
pub open spec fn vote_digest(p: Proof) -> H256 { keccak(ser(flat(Item::List(seq![Item::Num(p.number as nat), Item::Num(p.round as nat), Item::Num(2), Item::Str(p.proposal_hash@)])))) }
pub open spec fn accepted(b: Block, root: H256, l: Seq<ValidatorExtend>, p: Proof) -> bool {
    &&& keccak(ser(flat(proposal_of(b, root).item()))) == p.proposal_hash
    &&& quorum(all_voters(ordered(l), p.bitmap@).len(), l.len()) && keys_ok(all_voters(ordered(l), p.bitmap@))
    &&& sig_ok(p.signature@)
    &&& aggregated(all_voters(ordered(l), p.bitmap@), true) matches Some(a) && bls_valid(p.signature@, true, vote_digest(p)@, "BLS_SIG_BLS12381G2_XMD:SHA-256_SSWU_RONUL"@, Seq::empty(), a, true)
}
#[verifier::external_body] pub fn no_bytes<'a>() -> (r: &'a [u8]) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
//@fn devtools/axon-tools/src/proof.rs :: fn verify_proof
//@ ret r
//@ sub /\.proposal_hash\.0\b/ => /.proposal_hash/
//@ sub /(\w+)\.iter\(\)\.collect::<Vec<_>>\(\)/ => /refs(&\1)/
//@ sub /DST\.as_bytes\(\)/ => /DST/
//@ sub /&\[\]/ => /no_bytes()/
//@ spec
    requires old(validator_list)@.len() <= usize::MAX / 3,
    ensures r is Ok == accepted(block, previous_state_root, old(validator_list)@, proof),
//@ start
    broadcast use axiom_ordered;
    proof {
        assert forall|v: Vote| v.height == proof.number && v.round == proof.round && v.vote_type == 2 && v.proposal_hash@ == proof.proposal_hash@ implies #[trigger] keccak(ser(flat(v.item()))) == vote_digest(proof) by {
            assert(v.item()->List_0 =~= seq![Item::Num(proof.number as nat), Item::Num(proof.round as nat), Item::Num(2), Item::Str(proof.proposal_hash@)]); }
    }
//@end
}
}
fn main() {}
