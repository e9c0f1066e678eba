// ---- the metadata trie: a map from byte strings to byte strings (trusted: the Patricia trie and its database) ----
#[verifier::external_body] pub struct MetaTrie { x: u8 }
pub struct StoreError { pub k: u8 }
pub type StoreResult<T> = Result<T, StoreError>;
impl MetaTrie {
    pub uninterp spec fn view(&self) -> Map<Seq<u8>, Seq<u8>>;
    #[verifier::external_body] pub fn get(&self, k: &[u8]) -> (r: StoreResult<Option<Vec<u8>>>)
        ensures r matches Ok(Some(v)) ==> self@.contains_key(k@) && v@ == self@[k@], r matches Ok(None) ==> !self@.contains_key(k@) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: Vec<u8>, v: Vec<u8>) -> (r: StoreResult<()>) ensures r is Ok ==> final(self)@ == old(self)@.insert(k@, v@) { unimplemented!() }
    #[verifier::external_body] pub fn commit(&mut self) -> (r: StoreResult<H256>) ensures final(self)@ == old(self)@, r matches Ok(h) ==> h == root_of(old(self)@) { unimplemented!() }
}
pub uninterp spec fn root_of(m: Map<Seq<u8>, Seq<u8>>) -> H256;
#[verifier::external_body] pub fn set_current_root(r: H256) { unimplemented!() }
/// the digests of the four key names
pub uninterp spec fn hardfork_key() -> Seq<u8>;
pub uninterp spec fn segment_key() -> Seq<u8>;
pub uninterp spec fn ckb_key() -> Seq<u8>;
pub uninterp spec fn config_key() -> Seq<u8>;
pub axiom fn keys_apart() ensures hardfork_key().len() == 32, segment_key().len() == 32, ckb_key().len() == 32, config_key().len() == 32, hardfork_key() != segment_key(), hardfork_key() != ckb_key(), hardfork_key() != config_key(), segment_key() != ckb_key(), segment_key() != config_key(), ckb_key() != config_key();
#[allow(non_camel_case_types)] pub struct KeyRef { x: u8 }
pub mod key_names { use super::*;
#[verifier::external_body] pub fn hardfork<'a>() -> (r: &'a [u8]) ensures r@ == hardfork_key() { unimplemented!() }
#[verifier::external_body] pub fn segment<'a>() -> (r: &'a [u8]) ensures r@ == segment_key() { unimplemented!() }
#[verifier::external_body] pub fn ckb<'a>() -> (r: &'a [u8]) ensures r@ == ckb_key() { unimplemented!() }
#[verifier::external_body] pub fn config<'a>() -> (r: &'a [u8]) ensures r@ == config_key() { unimplemented!() }
#[verifier::external_body] pub fn owned(b: &[u8]) -> (r: Vec<u8>) ensures r@ == b@ { unimplemented!() }
}
/// encoding and decoding of a stored record (what C05 is about)
pub trait Record: Lawful { 
    #[verifier::external_body] fn encode_record(&self) -> (r: StoreResult<Vec<u8>>) where Self: Sized ensures r matches Ok(b) ==> b@ == ser(flat(self.item())) { unimplemented!() }
    #[verifier::external_body] fn decode_record(b: &[u8]) -> (r: StoreResult<Self>) where Self: Sized ensures r matches Ok(x) ==> x == Self::of(parse(b@)), Self::fits(parse(b@)) ==> r is Ok { unimplemented!() }
}
