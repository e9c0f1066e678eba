//@include head.rs
pub mod sh {
use super::*;
//@include num.rs
//@include bytes.rs
//@include rlp.rs
}
use sh::*;
// C14: Merkle roots and proofs.
pub mod mk {
use super::*;
use super::sh::*;
broadcast use {num_axioms, bytes_axioms, rlp_axioms, vec_axioms};
pub type Hash = H256;
#[verifier::external_body] pub fn own_<T>(x: &T) -> (r: T) ensures r == *x { unimplemented!() }
/// the digest of an inner node
pub open spec fn joined(l: H256, r: H256) -> H256 { keccak(l@ + r@) }
/// node k of the complete binary tree over l, whose leaves are the last nodes in order
pub open spec fn node(l: Seq<H256>, k: int) -> H256 decreases 2 * l.len() - 1 - k { if k < 0 || k >= l.len() - 1 { l[k - (l.len() - 1)] } else { joined(node(l, 2 * k + 1), node(l, 2 * k + 2)) } }
pub open spec fn brother(k: int) -> int { if k % 2 == 1 { k + 1 } else { k - 1 } }
/// the brothers on the way from node k to the root
pub open spec fn path(l: Seq<H256>, k: int) -> Seq<ProofNode> decreases k { if k <= 0 { seq![] } else { seq![ProofNode { is_right: brother(k) % 2 == 0, hash: node(l, brother(k)) }] + path(l, (k - 1) / 2) } }
/// what a verifier computes from a leaf and a proof
pub open spec fn climb(h: H256, p: Seq<ProofNode>) -> H256 decreases p.len() { if p.len() == 0 { h } else { climb(if p[0].is_right { joined(h, p[0].hash) } else { joined(p[0].hash, h) }, p.skip(1)) } }
//@item common/merkle/src/lib.rs :: struct ProofNode
//@end
// the tree library (trusted): its nodes are those of the complete binary tree, its proofs the brothers on the way up
#[verifier::external_body] pub struct Tree { x: u8 }
pub struct LibNode { pub is_right: bool, pub hash: H256 }
pub struct LibProof(pub Vec<LibNode>);
pub open spec fn same_nodes(a: Seq<LibNode>, b: Seq<ProofNode>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).is_right == b[i].is_right && a[i].hash == b[i].hash }
impl Tree {
    pub uninterp spec fn view(&self) -> Seq<H256>;
    #[verifier::external_body] pub fn from_hashes<M: Fn(&H256, &H256) -> H256>(input: Vec<H256>, merge: M) -> (r: Tree)
        requires forall|a: &H256, b: &H256| #[trigger] merge.requires((a, b)), forall|a: &H256, b: &H256, o: H256| #[trigger] merge.ensures((a, b), o) ==> o == joined(*a, *b)
        ensures r@ == input@ { unimplemented!() }
    #[verifier::external_body] pub fn get_root_hash(&self) -> (r: Option<&H256>) ensures self@.len() == 0 ==> r is None, self@.len() > 0 ==> (r matches Some(h) && *h == node(self@, 0)) { unimplemented!() }
    #[verifier::external_body] pub fn get_proof_by_input_index(&self, i: usize) -> (r: Option<LibProof>)
        ensures i < self@.len() ==> (r matches Some(p) && same_nodes(p.0@, path(self@, self@.len() - 1 + i))), self@.len() > 0 && i >= self@.len() ==> r is None { unimplemented!() }
}
#[verifier::external_body] pub fn copied<'a>(o: Option<&'a H256>) -> (r: Option<H256>) ensures o is None ==> r is None, o matches Some(x) ==> r == Some(*x) { unimplemented!() }
//@item common/merkle/src/lib.rs :: struct Merkle
//@ sub /Tree<Hash>/ => /Tree/
//@ sub /\btree:/ => /pub tree:/
//@end
//@fn common/merkle/src/lib.rs :: fn merge
//@ ret r
//@ sub /(\w+)\.extend_from_slice\((\w+)\);/ => /append(&mut \1, \2);/
//@ sub /Vec::with_capacity\([^;]*\);/ => /Vec::<u8>::new();/
//@ spec
    ensures r == joined(*left, *right),
//@end
pub fn append(v: &mut Vec<u8>, s: &[u8]) ensures final(v)@ == old(v)@ + s@ { v.extend_from_slice(s); assert(v@ =~= old(v)@ + s@); }
impl Merkle {
//@fn common/merkle/src/lib.rs :: impl Merkle/fn from_hashes
//@ ret r
//@ spec
    ensures r.tree@ == hashes@,
//@end
//@fn common/merkle/src/lib.rs :: impl Merkle/fn get_root_hash
//@ ret r
//@ sub /(self\.tree\.get_root_hash\(\))\.(?:copied|cloned)\(\)/ => /copied(\1)/
//@ spec
    ensures r == (if self.tree@.len() == 0 { None::<H256> } else { Some(node(self.tree@, 0)) }),
//@end
//@fn common/merkle/src/lib.rs :: impl Merkle/fn get_proof_by_input_index
//@ ret r
//@ collect ProofNode
//@ spec
    ensures input_index < self.tree@.len() ==> (r matches Some(p) && p@ == path(self.tree@, self.tree@.len() - 1 + input_index)), self.tree@.len() > 0 && input_index >= self.tree@.len() ==> r is None,
//@ start
    proof { assert forall|a: Seq<LibNode>, b: Seq<ProofNode>, c: Seq<ProofNode>| #[trigger] same_nodes(a, b) && #[trigger] same_nodes(a, c) implies b == c by { assert forall|i: int| 0 <= i < b.len() implies b[i] == c[i] by { let x = a[i]; assert(x.is_right == b[i].is_right && x.hash == b[i].hash); assert(x.is_right == c[i].is_right); } assert(b =~= c); } }
//@ closure 0
    -> (v: Vec<ProofNode>) ensures same_nodes(proof.0@, v@),
//@ loop 0
    invariant at0_ <= proof.0@.len(), out0_@.len() == at0_, forall|i: int| 0 <= i < at0_ ==> (#[trigger] proof.0@[i]).is_right == out0_@[i].is_right && proof.0@[i].hash == out0_@[i].hash,
    decreases proof.0@.len() - at0_,
//@end
}
/// a proof leads from its leaf to the root
proof fn proof_leads_to_root(l: Seq<H256>, k: int) requires 0 <= k < 2 * l.len() - 1 ensures climb(node(l, k), path(l, k)) == node(l, 0) decreases k {
    if k > 0 {
        let up = (k - 1) / 2;
        proof_leads_to_root(l, up);
        assert(path(l, k).skip(1) =~= path(l, up));
        assert(0 <= up < l.len() - 1);
        assert(node(l, up) == joined(node(l, 2 * up + 1), node(l, 2 * up + 2)));
        if k % 2 == 1 { assert(k == 2 * up + 1 && brother(k) == 2 * up + 2); } else { assert(k == 2 * up + 2 && brother(k) == 2 * up + 1); }
    }
}
proof fn joined_apart(a: H256, b: H256, c: H256, d: H256) requires joined(a, b) == joined(c, d), forall|x: Seq<u8>, y: Seq<u8>| keccak(x) == keccak(y) ==> x == y ensures a == c, b == d {
    assert((a@ + b@).subrange(0, 32) =~= a@); assert((c@ + d@).subrange(0, 32) =~= c@); assert((a@ + b@).subrange(32, 64) =~= b@); assert((c@ + d@).subrange(32, 64) =~= d@);
    H256::law(a); H256::law(b); H256::law(c); H256::law(d);
}
/// and from no other one (the digest being collision free)
proof fn proof_holds_for_its_item_only(a: H256, b: H256, p: Seq<ProofNode>) requires climb(a, p) == climb(b, p), forall|x: Seq<u8>, y: Seq<u8>| keccak(x) == keccak(y) ==> x == y ensures a == b decreases p.len() {
    if p.len() > 0 {
        if p[0].is_right { proof_holds_for_its_item_only(joined(a, p[0].hash), joined(b, p[0].hash), p.skip(1)); joined_apart(a, p[0].hash, b, p[0].hash); }
        else { proof_holds_for_its_item_only(joined(p[0].hash, a), joined(p[0].hash, b), p.skip(1)); joined_apart(p[0].hash, a, p[0].hash, b); }
    }
}
/// the root commits to every item and its place: two lists of one length with the same root are the same list
proof fn nodes_apart(a: Seq<H256>, b: Seq<H256>, k: int)
    requires a.len() == b.len(), 0 <= k < 2 * a.len() - 1, node(a, 0) == node(b, 0), forall|x: Seq<u8>, y: Seq<u8>| keccak(x) == keccak(y) ==> x == y,
    ensures node(a, k) == node(b, k) decreases k {
    if k > 0 {
        let up = (k - 1) / 2;
        nodes_apart(a, b, up);
        joined_apart(node(a, 2 * up + 1), node(a, 2 * up + 2), node(b, 2 * up + 1), node(b, 2 * up + 2));
    }
}
proof fn root_commits(a: Seq<H256>, b: Seq<H256>) requires a.len() == b.len(), a.len() > 0, node(a, 0) == node(b, 0), forall|x: Seq<u8>, y: Seq<u8>| keccak(x) == keccak(y) ==> x == y ensures a == b {
    assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { nodes_apart(a, b, a.len() - 1 + i); }
    assert(a =~= b);
}
// the Patricia trie (trusted): a map from byte strings to byte strings that has a root and proofs
#[verifier::external_body] pub struct PatriciaTrie { x: u8 }
#[derive(Debug)]
pub struct TrieError { pub k: u8 }

pub uninterp spec fn trie_root(m: Map<Seq<u8>, Seq<u8>>) -> Seq<u8>;
pub uninterp spec fn trie_proof(m: Map<Seq<u8>, Seq<u8>>, k: Seq<u8>) -> Seq<Vec<u8>>;
impl PatriciaTrie {
    pub uninterp spec fn view(&self) -> Map<Seq<u8>, Seq<u8>>;
    #[verifier::external_body] pub fn empty() -> (r: PatriciaTrie) ensures r@ == Map::<Seq<u8>, Seq<u8>>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: Vec<u8>, v: Vec<u8>) -> (r: Result<(), TrieError>) ensures r is Ok, v@.len() > 0 ==> final(self)@ == old(self)@.insert(k@, v@) { unimplemented!() }
    #[verifier::external_body] pub fn root(&mut self) -> (r: Result<Vec<u8>, TrieError>) ensures final(self)@ == old(self)@, r matches Ok(h) ==> h@ == trie_root(old(self)@) && h@.len() == 32 { unimplemented!() }
    #[verifier::external_body] pub fn get_proof(&self, k: &Vec<u8>) -> (r: Result<Vec<Vec<u8>>, TrieError>) ensures r matches Ok(p) ==> p@ == trie_proof(self@, k@) { unimplemented!() }
}
#[verifier::external_body] pub fn wire<T: Enc>(x: &T) -> (r: Vec<u8>) ensures r@ == ser(flat(x.item())) { unimplemented!() }
#[verifier::external_body] pub fn index_key(i: &usize) -> (r: Vec<u8>) ensures r@ == ser(flat(Item::Num(*i as nat))) { unimplemented!() }
#[verifier::external_body] pub fn bytes_of(b: &Bytes) -> (r: Vec<u8>) ensures r@ == b@ { unimplemented!() }
pub open spec fn key(i: int) -> Seq<u8> { ser(flat(Item::Num(i as nat))) }
pub struct TrieMerkle(pub PatriciaTrie);
/// index -> encoding
pub open spec fn filed<C: Enc>(v: Seq<(usize, &C)>, n: int) -> Map<Seq<u8>, Seq<u8>> decreases n { if n <= 0 { Map::empty() } else { filed(v, n - 1).insert(key(v[n - 1].0 as int), ser(flat((*v[n - 1].1).item()))) } }
pub open spec fn listed(v: Seq<Seq<u8>>, n: int) -> Map<Seq<u8>, Seq<u8>> decreases n { if n <= 0 { Map::empty() } else { listed(v, n - 1).insert(key(n - 1), v[n - 1]) } }
pub open spec fn texts(v: Seq<Bytes>) -> Seq<Seq<u8>> { v.map_values(|b: Bytes| b@) }
proof fn keys_apart(a: int, b: int) requires 0 <= a, 0 <= b, key(a) == key(b) ensures a == b { assert(parse(ser(flat(Item::Num(a as nat)))) == Item::Num(a as nat)); assert(parse(ser(flat(Item::Num(b as nat)))) == Item::Num(b as nat)); }
/// every item is filed under its own index
proof fn listed_all(v: Seq<Seq<u8>>, n: int, i: int) requires 0 <= i < n <= v.len() ensures listed(v, n).contains_key(key(i)), listed(v, n)[key(i)] == v[i] decreases n {
    if i < n - 1 { listed_all(v, n - 1, i); if key(i) == key(n - 1) { keys_apart(i, n - 1); } }
}
impl TrieMerkle {
//@fn common/merkle/src/lib.rs :: impl Default for TrieMerkle/fn default
//@ ret r
//@ sub /PatriciaTrie::new\(.*?HasherKeccak::new\(\)\),?\s*\)/ => /PatriciaTrie::empty()/
//@ spec
    ensures r.0@ == Map::<Seq<u8>, Seq<u8>>::empty(),
//@end
//@fn common/merkle/src/lib.rs :: impl FromIterator<(usize, &'a C)> for TrieMerkle/fn from_iter
//@ ret r
//@ sub /fn from_iter<T: IntoIterator<Item = \(usize, &'a C\)>>\((\w+): T\)/ => /fn from_iter<'a, C: Enc>(\1: Vec<(usize, &'a C)>)/
//@ sub /rlp::encode\((&\w+)\)\.to_vec\(\)/ => /index_key(\1)/
//@ sub /(\w+)\.encode\(\)\.unwrap\(\)\.to_vec\(\)/ => /wire(\1)/
//@ collect
//@ spec
    requires forall|i: int| 0 <= i < iter@.len() ==> ser(flat((*(#[trigger] iter@[i]).1).item())).len() > 0,
    ensures r.0@ == filed(iter@, iter@.len() as int),
//@ loop 0
    invariant at0_ <= iter@.len(), forall|i: int| 0 <= i < iter@.len() ==> ser(flat((*(#[trigger] iter@[i]).1).item())).len() > 0, trie.0@ == filed(iter@, at0_ as int),
    decreases iter@.len() - at0_,
//@end
//@fn common/merkle/src/lib.rs :: impl TrieMerkle/fn root_hash
//@ ret r
//@ sub /Box<dyn Error \+ 'static>/ => /TrieError/
//@ spec
    ensures final(self).0@ == old(self).0@, r matches Ok(h) ==> h == h256(trie_root(old(self).0@)),
//@end
//@fn common/merkle/src/lib.rs :: impl TrieMerkle/fn get_proof_by_index
//@ ret r
//@ sub /Box<dyn Error \+ 'static>/ => /TrieError/
//@ sub /rlp::encode\((&\w+)\)\.to_vec\(\)/ => /index_key(\1)/
//@ spec
    ensures r matches Ok(p) ==> p@ == trie_proof(self.0@, key(index as int)),
//@end
//@fn common/merkle/src/lib.rs :: impl TrieMerkle/fn from_receipts
//@ ret r
//@ sub /for \((\w+), (\w+)\) in (\w+)\.iter\(\)\.enumerate\(\) \{/ => /for \1 in 0..\3.len() { let \2 = &\3[\1];/
//@ sub /rlp::encode\((&\w+)\)\.to_vec\(\)/ => /index_key(\1)/
//@ sub /\b(\w+)\.to_vec\(\)/ => /bytes_of(\1)/
//@ spec
    requires forall|i: int| 0 <= i < receipts@.len() ==> (#[trigger] receipts@[i])@.len() > 0,
    ensures r.0@ == listed(texts(receipts@), receipts@.len() as int),
//@ loop 0
    invariant forall|i: int| 0 <= i < receipts@.len() ==> (#[trigger] receipts@[i])@.len() > 0, trie.0@ == listed(texts(receipts@), i as int),
//@end
}
}
}
fn main() {}
