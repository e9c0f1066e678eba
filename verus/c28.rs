//@include head.rs
global size_of usize == 8;
pub mod sh {
use super::*;
//@include num.rs
//@include bytes.rs
//@include rlp.rs
//@include types.rs
}
use sh::*;
// C28: the genesis block and state, as the chain specification says.
pub mod genesis {
use super::*;
use super::sh::*;
broadcast use {num_axioms, bytes_axioms, rlp_axioms, vec_axioms};
//@include flags.rs
//@include mdstore.rs
//@include seg.rs
impl Record for HardforkInfo {}
impl Record for MetadataInner {}

// ---- the header ----
pub uninterp spec fn null_root() -> H256;
pub uninterp spec fn empty_list_hash() -> H256;
pub uninterp spec fn nil_hash() -> H256;
#[verifier::external_body] pub fn rlp_null() -> (r: H256) ensures r == null_root() { unimplemented!() }
#[verifier::external_body] pub fn rlp_empty_list() -> (r: H256) ensures r == empty_list_hash() { unimplemented!() }
#[verifier::external_body] pub fn nil_data() -> (r: H256) ensures r == nil_hash() { unimplemented!() }
pub open spec fn zero_h256() -> H256 { h256(Seq::new(32, |i: int| 0u8)) }
pub open spec fn zero_h160() -> H160 { h160(Seq::new(20, |i: int| 0u8)) }
pub uninterp spec fn zero_bloom() -> Bloom;
pub uninterp spec fn zero_proof() -> Proof;
/// what `Header::default()` (derived) is
#[verifier::external_body] pub fn default_header() -> (r: Header)
    ensures r.version is V0, r.prev_hash == zero_h256(), r.proposer == zero_h160(), r.state_root == zero_h256(), r.transactions_root == zero_h256(), r.signed_txs_hash == zero_h256(), r.receipts_root == zero_h256(), r.log_bloom == zero_bloom(),
        r.timestamp == 0, r.number == 0, r.gas_used@ == 0, r.gas_limit@ == 0, r.extra_data@.len() == 0, r.base_fee_per_gas@ == 0, r.proof == zero_proof(), r.call_system_script_count == 0, r.chain_id == 0 { unimplemented!() }
//@item common/config-parser/src/types/spec.rs :: struct Genesis
//@end
//@item common/config-parser/src/types/spec.rs :: struct InitialAccount
//@end
/// the genesis header a specification asks for
pub open spec fn specified(g: Genesis, h: Header) -> bool {
    &&& h.version is V0 && h.prev_hash == zero_h256() && h.proposer == zero_h160() && h.transactions_root == null_root() && h.signed_txs_hash == empty_list_hash()
    &&& h.timestamp == g.timestamp && h.base_fee_per_gas == g.base_fee_per_gas && h.chain_id == g.chain_id
    &&& h.number == 0 && h.gas_used@ == 0 && h.gas_limit@ == 0 && h.extra_data@.len() == 0 && h.proof == zero_proof() && h.call_system_script_count == 0
}
impl Genesis {
//@fn common/config-parser/src/types/spec.rs :: impl Genesis/fn build_header
//@ ret r
//@ sub /RLP_NULL/ => /rlp_null()/
//@ sub /RLP_EMPTY_LIST/ => /rlp_empty_list()/
//@ sub /\.\.(?:Default|Header)::default\(\)/ => /..default_header()/
//@ sub /Header::default\(\)/ => /default_header()/
//@ spec
    ensures specified(*self, r), r.state_root == zero_h256(), r.receipts_root == zero_h256(), r.log_bloom == zero_bloom(),
//@end
//@fn common/config-parser/src/types/spec.rs :: impl Genesis/fn generate_hardfork_info
//@ ret r
//@ sub /Into::<HardforkInfoInner>::into\((HardforkInput \{[^{}]*\})\)/ => /HardforkName::from(\1)/
//@ sub /(HardforkInput \{[^{}]*\})\.into\(\)/ => /HardforkName::from(\1)/
//@ sub /HardforkInfoInner::from\(/ => /HardforkName::from(/
//@ sub /self\.hardforks\.clone\(\)/ => /own_names(&self.hardforks)/
//@ spec
    ensures r.block_number == 0, configured(self.hardforks@, r.flags),
//@end
}
#[verifier::external_body] pub fn own_names(v: &Vec<HardforkName>) -> (r: Vec<HardforkName>) ensures r@ == v@ { unimplemented!() }
//@item protocol/src/types/primitive.rs :: struct SpecMetadata
//@end
//@item common/config-parser/src/types/spec.rs :: struct ChainSpec
//@end
#[verifier::external_body] pub struct SignedTransaction { x: u8 }
//@item protocol/src/types/block.rs :: struct RichBlock
//@end
impl ChainSpec {
//@fn core/run/src/components/chain_spec.rs :: impl ChainSpecExt for ChainSpec/fn generate_genesis_block
//@ ret r
//@ spec
    ensures specified(self.genesis, r.block.header), r.block.tx_hashes@.len() == 0, r.txs@.len() == 0,
//@end
}

// ---- the private key on the command line ----
/// a key, as C08's contract of decode_256bits_key gives it
pub struct Key256Bits { pub k: [u8; 32] }
impl Key256Bits {
    #[verifier::external_body] pub fn from(v: [u8; 32]) -> (r: Key256Bits) ensures r.k == v { unimplemented!() }
    pub fn as_ref(&self) -> (r: &[u8; 32]) ensures *r == self.k { &self.k }
}
pub assume_specification<T, E, U, F> [std::result::Result::<T, E>::and_then] (x: std::result::Result<T, E>, f: F) -> (r: std::result::Result<U, E>)
    where F: std::ops::FnOnce(T,) -> std::result::Result<U, E> + std::marker::Destruct
    requires x matches Ok(v) ==> f.requires((v,))
    ensures match x { Ok(v) => f.ensures((v,), r), Err(e) => r == Err::<U, E>(e) };
#[derive(Clone, Copy)] pub struct Text { pub k: u8 }
pub uninterp spec fn chars(t: Text) -> Seq<u8>;
#[verifier::external_body] pub struct OsText { x: u8 }
#[verifier::external_body] pub struct Cmd { x: u8 }
#[verifier::external_body] pub struct Opt { x: u8 }
pub struct ClapError { pub k: u8 }
#[verifier::external_body] pub fn clap_error() -> ClapError { unimplemented!() }
#[verifier::external_body] pub fn text_() -> Text { unimplemented!() }
/// the argument as UTF-8 text, if it is
pub uninterp spec fn utf8_of(o: OsText) -> Option<Text>;
pub struct StringValueParser;
impl StringValueParser {
    #[verifier::external_body] pub fn new() -> StringValueParser { unimplemented!() }
    #[verifier::external_body] pub fn parse_ref(&self, c: &Cmd, a: Option<&Opt>, v: &OsText) -> (r: Result<Text, ClapError>) ensures r is Ok == utf8_of(*v) is Some, r matches Ok(t) ==> utf8_of(*v) == Some(t) { unimplemented!() }
}
pub uninterp spec fn key_of_text(t: Text) -> Option<Seq<u8>>;
/// C08: exactly 0x and 64 hexadecimal digits are a key, the one they spell
#[verifier::external_body] pub fn decode_256bits_key(s: &Text) -> (r: Result<Key256Bits, Text>) ensures r is Ok == key_of_text(*s) is Some, r matches Ok(k) ==> key_of_text(*s) == Some(k.k@) { unimplemented!() }
/// what a file holds, if it can be read
pub uninterp spec fn file_of(p: Text) -> Option<Seq<u8>>;
pub struct IoError { pub k: u8 }
pub struct OpenFile { pub p: Text }
pub struct File;
impl File { #[verifier::external_body] pub fn open(p: Text) -> (r: Result<OpenFile, IoError>) ensures file_of(p) is Some ==> r is Ok, r matches Ok(f) ==> f.p == p { unimplemented!() } }
impl OpenFile { #[verifier::external_body] pub fn read_to_end(&mut self, b: &mut Vec<u8>) -> (r: Result<usize, IoError>) ensures final(self).p == old(self).p, r is Ok == file_of(old(self).p) is Some, r is Ok ==> final(b)@ == old(b)@ + file_of(old(self).p)->0 { unimplemented!() } }
pub struct PrivateKeyDataValueParser;
impl PrivateKeyDataValueParser {
//@fn common/config-parser/src/types/spec.rs :: impl TypedValueParser for PrivateKeyDataValueParser/fn parse_ref
//@ ret r
//@ sub /Self::Value/ => /Key256Bits/
//@ sub /clap::Command/ => /Cmd/
//@ sub /clap::Arg\b/ => /Opt/
//@ sub /&OsStr/ => /&OsText/
//@ sub /let kind = clap::error::ErrorKind::\w+;/ => //
//@ sub /let msg = format!\((?:[^()]|\([^()]*\))*\);/ => //
//@ sub /clap::Error::raw\([^()]*\)/ => /clap_error()/
//@ sub /clap::Error/ => /ClapError/
//@ closure 0
    -> (q: Result<Key256Bits, ClapError>) ensures q is Ok == key_of_text(s) is Some, q matches Ok(k) ==> key_of_text(s) == Some(k.k@)
//@ spec
    ensures r is Ok == (utf8_of(*value) is Some && key_of_text(utf8_of(*value)->0) is Some), r matches Ok(k) ==> key_of_text(utf8_of(*value)->0) == Some(k.k@),
//@end
}
pub struct PrivateKeyFileValueParser;
#[verifier::external_body] pub fn copied(v: &mut [u8; 32], s: &Vec<u8>) requires s@.len() == 32 ensures final(v)@ == s@ { unimplemented!() }
impl PrivateKeyFileValueParser {
//@fn common/config-parser/src/types/spec.rs :: impl TypedValueParser for PrivateKeyFileValueParser/fn parse_ref
//@ ret r
//@ sub /Self::Value/ => /Key256Bits/
//@ sub /clap::Command/ => /Cmd/
//@ sub /clap::Arg\b/ => /Opt/
//@ sub /&OsStr/ => /&OsText/
//@ sub /let kind = clap::error::ErrorKind::\w+;/ => //
//@ sub /let msg = format!\((?:[^()]|\([^()]*\))*\);/ => //
//@ sub /clap::Error::raw\([^()]*\)/ => /clap_error()/
//@ sub /clap::Error/ => /ClapError/
//@ sub /\s*\.map\(PathBuf::from\)/ => //
//@ sub /\|mut (\w+)\| \{/ => /|\1_| { let mut \1 = \1_;/
//@ sub /(\w+)\.copy_from_slice\(&(\w+)\);/ => /copied(&mut \1, &\2);/
//@ closure 0
    -> (q: Result<Vec<u8>, ClapError>) ensures q is Ok == file_of(p) is Some, q matches Ok(b) ==> file_of(p) == Some(b@)
//@ closure 1
    -> (q: Result<Vec<u8>, IoError>) requires f_.p == p ensures q is Ok == file_of(p) is Some, q matches Ok(b) ==> file_of(p) == Some(b@)
//@ closure 2
    -> (q: Vec<u8>) ensures q == buffer
//@ closure 3
    -> (q: ClapError) ensures true
//@ closure 4
    -> (q: Result<Key256Bits, ClapError>) ensures q is Ok == (bytes@.len() == 32), q matches Ok(k) ==> k.k@ == bytes@
//@ spec
    ensures r is Ok == (utf8_of(*value) is Some && file_of(utf8_of(*value)->0) is Some && file_of(utf8_of(*value)->0)->0.len() == 32), r matches Ok(k) ==> k.k@ == file_of(utf8_of(*value)->0)->0,
//@end
}
//@item common/config-parser/src/types/spec.rs :: struct PrivateKey
//@ sub /from_cli:/ => /pub from_cli:/
//@ sub /from_file:/ => /pub from_file:/
//@end
#[verifier::external_body] pub struct Secp256k1RecoverablePrivateKey { x: u8 }
impl Secp256k1RecoverablePrivateKey {
    pub uninterp spec fn scalar(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn try_from(b: &[u8; 32]) -> (r: Result<Secp256k1RecoverablePrivateKey, IoError>) ensures r is Ok == valid_scalar(b@), r matches Ok(k) ==> k.scalar() == b@ { unimplemented!() }
}
/// between one and the order of the group less one (the cryptographic library's check)
pub uninterp spec fn valid_scalar(s: Seq<u8>) -> bool;
/// the one key given, if exactly one is
pub open spec fn only_key(a: Option<Key256Bits>, b: Option<Key256Bits>) -> Option<Seq<u8>> { if a is Some && b is None { Some(a->0.k@) } else if a is None && b is Some { Some(b->0.k@) } else { None } }
impl PrivateKey {
//@fn common/config-parser/src/types/spec.rs :: impl PrivateKey/fn data
//@ ret r
//@ sub /, String>/ => /, Text>/
//@ sub /err\.to_string\(\)/ => /text_()/
//@ sub /"failed[^"]*"/ => /text_()/
//@ sub /msg\.to_owned\(\)/ => /msg/
//@ sub /let Self \{/ => /let PrivateKey {/
//@ spec
    ensures r is Ok == (only_key(self.from_cli, self.from_file) is Some && valid_scalar(only_key(self.from_cli, self.from_file)->0)), r matches Ok(k) ==> Some(k.scalar()) == only_key(self.from_cli, self.from_file),
//@end
}

// ---- the accounts ----
pub struct Account { pub nonce: U256, pub balance: U256, pub storage_root: H256, pub code_hash: H256 }
pub uninterp spec fn account_bytes(a: Account) -> Seq<u8>;
impl Account { #[verifier::external_body] pub fn encode_(&self) -> (r: StoreResult<Vec<u8>>) ensures r is Ok, r->Ok_0@ == account_bytes(*self) { unimplemented!() } }
/// the state trie: a map from addresses to encoded accounts
#[verifier::external_body] pub struct StateTrie { x: u8 }
pub uninterp spec fn state_root_of(m: Map<Seq<u8>, Seq<u8>>) -> H256;
impl StateTrie {
    pub uninterp spec fn view(&self) -> Map<Seq<u8>, Seq<u8>>;
    #[verifier::external_body] pub fn empty_() -> (r: StateTrie) ensures r@ == Map::<Seq<u8>, Seq<u8>>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: Vec<u8>, v: Vec<u8>) -> (r: StoreResult<()>) ensures r is Ok ==> final(self)@ == old(self)@.insert(k@, v@) { unimplemented!() }
    #[verifier::external_body] pub fn commit(&mut self) -> (r: StoreResult<H256>) ensures final(self)@ == old(self)@, r matches Ok(h) ==> h == state_root_of(old(self)@) { unimplemented!() }
}
/// an account that has only a balance
pub open spec fn only_balance(a: Account, b: U256) -> bool { a.nonce@ == 0 && a.balance == b && a.storage_root == null_root() && a.code_hash == nil_hash() }
pub open spec fn funded(b: U256) -> Account { Account { nonce: u256(0), balance: b, storage_root: null_root(), code_hash: nil_hash() } }
pub open spec fn with_accounts(m: Map<Seq<u8>, Seq<u8>>, a: Seq<InitialAccount>, n: nat) -> Map<Seq<u8>, Seq<u8>> decreases n {
    if n == 0 { m } else { with_accounts(m, a, (n - 1) as nat).insert(a[n - 1].address@, account_bytes(funded(a[n - 1].balance))) }
}
/// every listed address holds what it was listed with last, and no other address is there
proof fn listed_accounts(a: Seq<InitialAccount>, n: nat)
    requires n <= a.len()
    ensures
        forall|k: Seq<u8>| with_accounts(Map::empty(), a, n).contains_key(k) == exists|i: int| 0 <= i < n && (#[trigger] a[i]).address@ == k,
        forall|i: int| 0 <= i < n && (forall|j: int| i < j < n ==> (#[trigger] a[j]).address != a[i].address) ==> with_accounts(Map::empty(), a, n)[(#[trigger] a[i]).address@] == account_bytes(funded(a[i].balance)),
    decreases n
{
    if n > 0 {
        listed_accounts(a, (n - 1) as nat);
        let m = with_accounts(Map::empty(), a, (n - 1) as nat);
        assert forall|k: Seq<u8>| with_accounts(Map::empty(), a, n).contains_key(k) == exists|i: int| 0 <= i < n && (#[trigger] a[i]).address@ == k by {
            if k == a[n - 1].address@ { assert(a[n - 1].address@ == k); }
            if m.contains_key(k) { let i = choose|i: int| 0 <= i < n - 1 && (#[trigger] a[i]).address@ == k; assert(a[i].address@ == k); }
        }
        assert forall|i: int| 0 <= i < n && (forall|j: int| i < j < n ==> (#[trigger] a[j]).address != a[i].address) implies with_accounts(Map::empty(), a, n)[(#[trigger] a[i]).address@] == account_bytes(funded(a[i].balance)) by {
            if i < n - 1 { assert(a[n - 1].address != a[i].address); axiom_h160_ext(a[n - 1].address); axiom_h160_ext(a[i].address); }
        }
    }
}
#[verifier::external_body] pub fn vec_of(b: &[u8]) -> (r: Vec<u8>) ensures r@ == b@ { unimplemented!() }
#[verifier::external_body] pub fn own_accounts<'a>(v: &'a [InitialAccount]) -> (r: Vec<&'a InitialAccount>) ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> *(#[trigger] r@[i]) == v@[i] { unimplemented!() }
impl StateTrie {
//@fn core/run/src/components/storage.rs :: trait TrieExt/fn insert_accounts
//@ ret r
//@ sub /mut self,/ => /self,/
//@ sub /ProtocolResult<Self>/ => /StoreResult<StateTrie>/
//@ sub /\bself\b/ => /trie/
//@ sub /\(trie,/ => /(self,/ 1
//@ sub /RLP_NULL/ => /rlp_null()/
//@ sub /NIL_DATA/ => /nil_data()/
//@ sub /\b(\d+)u64\.into\(\)/ => /U256::from(\1u64)/
//@ sub /\.encode\(\)\?/ => /.encode_()?/
//@ sub /(\w+(?:\.\w+)*\.as_bytes\(\))\.to_vec\(\)/ => /vec_of(\1)/
//@ sub /raw_account\.to_vec\(\)/ => /raw_account/
//@ sub /in accounts\b(?:\.iter\(\))?/ => /in own_accounts(accounts)/
//@ spec
    ensures r matches Ok(t) ==> t@ == with_accounts(self@, accounts@, accounts@.len()),
//@ start
    let mut trie = self;
//@ loop 0 it
    invariant it.seq().len() == accounts@.len(), forall|i: int| 0 <= i < accounts@.len() ==> *(#[trigger] it.seq()[i]) == accounts@[i], trie@ == with_accounts(self@, accounts@, it.index@ as nat),
//@ loopstart 0
    let ghost k = it.index@;
    proof { assert(*account == accounts@[k as int]); }
//@ loopend 0
    proof { reveal_with_fuel(with_accounts, 2); }
//@end
}
// ---- the executor's state: accounts' rows, contracts' slots, and the two roots that the system contracts publish ----
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Row { x: u8 }
pub struct World { pub rows: Map<H160, Row>, pub slots: Map<(H160, H256), H256>, pub meta: H256, pub header: H256, pub meta_db: bool, pub header_db: bool }
#[verifier::external_body] pub struct Backend { x: u8 }
pub uninterp spec fn metadata_address() -> H160;
pub uninterp spec fn light_client_address() -> H160;
pub uninterp spec fn image_cell_address() -> H160;
pub axiom fn contracts_apart() ensures metadata_address() != light_client_address(), metadata_address() != image_cell_address(), light_client_address() != image_cell_address();
pub uninterp spec fn metadata_slot() -> H256;
pub uninterp spec fn header_slot() -> H256;
#[verifier::external_body] pub fn metadata_address_() -> (r: H160) ensures r == metadata_address() { unimplemented!() }
#[verifier::external_body] pub fn light_client_address_() -> (r: H160) ensures r == light_client_address() { unimplemented!() }
#[verifier::external_body] pub fn image_cell_address_() -> (r: H160) ensures r == image_cell_address() { unimplemented!() }
#[verifier::external_body] pub fn metadata_slot_() -> (r: H256) ensures r == metadata_slot() { unimplemented!() }
#[verifier::external_body] pub fn header_slot_() -> (r: H256) ensures r == header_slot() { unimplemented!() }
pub enum Apply { Modify { address: H160, basic: Row, code: Option<Vec<u8>>, storage: Vec<(H256, H256)>, reset_storage: bool }, Delete { address: H160 } }
pub open spec fn slots_set(m: Map<(H160, H256), H256>, a: H160, l: Seq<(H256, H256)>, n: nat) -> Map<(H160, H256), H256> decreases n { if n == 0 { m } else { slots_set(m, a, l, (n - 1) as nat).insert((a, l[n - 1].0), l[n - 1].1) } }
/// what applying changes leads to
pub open spec fn applied(w: World, l: Seq<Apply>, n: nat) -> World decreases n {
    if n == 0 { w } else { let v = applied(w, l, (n - 1) as nat); match l[n - 1] { Apply::Modify { address, basic, code, storage, reset_storage } => World { rows: v.rows.insert(address, basic), slots: slots_set(v.slots, address, storage@, storage@.len()), ..v }, _ => arbitrary() } }
}
/// modifications that touch neither code nor other slots
pub open spec fn modest(l: Seq<Apply>) -> bool { forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i] matches Apply::Modify { address, basic, code, storage, reset_storage } && code is None && !reset_storage) }
pub uninterp spec fn row_at(w: World, a: H160) -> Row;
pub uninterp spec fn slot_at(w: World, a: H160, k: H256) -> H256;
impl Backend {
    pub uninterp spec fn view(&self) -> World;
    #[verifier::external_body] pub fn basic(&self, a: H160) -> (r: Row) ensures r == row_at(self@, a) { unimplemented!() }
    #[verifier::external_body] pub fn storage(&self, a: H160, k: H256) -> (r: H256) ensures r == slot_at(self@, a, k) { unimplemented!() }
    #[verifier::external_body] pub fn apply(&mut self, l: Vec<Apply>, logs: Vec<Log>, delete_empty: bool) requires modest(l@) ensures final(self)@ == applied(old(self)@, l@, l@.len()) { unimplemented!() }
    // the thread's published roots and the process' two databases
    #[verifier::external_body] pub fn header_published(&self) -> (r: H256) ensures r == self@.header { unimplemented!() }
    #[verifier::external_body] pub fn meta_published(&self) -> (r: H256) ensures r == self@.meta { unimplemented!() }
    #[verifier::external_body] pub fn publish_meta(&mut self, h: H256) ensures final(self)@ == (World { meta: h, ..old(self)@ }) { unimplemented!() }
    #[verifier::external_body] pub fn open_meta_db(&mut self) ensures final(self)@ == (World { meta_db: true, ..old(self)@ }) { unimplemented!() }
    #[verifier::external_body] pub fn open_header_db(&mut self) ensures final(self)@ == (World { header_db: true, ..old(self)@ }) { unimplemented!() }
    #[verifier::external_body] pub fn meta_db(&self) -> (r: Option<TrieDb>) ensures r is Some == self@.meta_db { unimplemented!() }
}
#[verifier::external_body] pub struct TrieDb { x: u8 }
#[verifier::external_body] pub fn own_slots(v: &Vec<(H256, H256)>) -> (r: Vec<(H256, H256)>) ensures r == *v { unimplemented!() }
/// the slot change that publishes a contract's root
pub open spec fn root_change(w: World, a: H160, k: H256, h: H256, x: Apply) -> bool { x matches Apply::Modify { address, basic, code, storage, reset_storage } && address == a && basic == row_at(w, a) && code is None && storage@ =~= seq![(k, h)] && !reset_storage }
//@fn core/executor/src/system_contract/utils.rs :: fn generate_mpt_root_changes
//@ ret r
//@ sub /<B: Backend \+ ApplyBackend>/ => //
//@ sub /backend: &mut B\b/ => /backend: &mut Backend/
//@ sub /Vec<Apply<Vec<\(H256, H256\)>>>/ => /Vec<Apply>/
//@ sub /CKB_LIGHT_CLIENT_CONTRACT_ADDRESS/ => /light_client_address_()/
//@ sub /IMAGE_CELL_CONTRACT_ADDRESS/ => /image_cell_address_()/
//@ sub /METADATA_CONTRACT_ADDRESS/ => /metadata_address_()/
//@ sub /\*HEADER_CELL_ROOT_KEY/ => /header_slot_()/
//@ sub /\*METADATA_ROOT_KEY/ => /metadata_slot_()/
//@ sub /CURRENT_HEADER_CELL_ROOT\.with\(\|r\| \*r\.borrow\(\)\)/ => /backend.header_published()/
//@ sub /CURRENT_METADATA_ROOT\.with\(\|r\| \*r\.borrow\(\)\)/ => /backend.meta_published()/
//@ sub /(\w+)\.clone\(\)/ => /own_slots(&\1)/
//@ sub /unreachable!\(\)/ => /never()/
//@ spec
    requires contract_address == metadata_address() || contract_address == light_client_address() || contract_address == image_cell_address(),
    ensures final(backend)@ == old(backend)@, modest(r@),
        contract_address == metadata_address() ==> r@.len() == 1 && root_change(old(backend)@, metadata_address(), metadata_slot(), old(backend)@.meta, r@[0]),
        contract_address != metadata_address() ==> r@.len() == 2 && root_change(old(backend)@, light_client_address(), header_slot(), old(backend)@.header, r@[0])
            && root_change(old(backend)@, image_cell_address(), header_slot(), old(backend)@.header, r@[1]),
//@ start
    proof { contracts_apart(); }
//@end
#[verifier::external_body] pub fn never() -> (r: Vec<Apply>) requires false { unimplemented!() }
pub struct MetadataStore { pub trie: MetaTrie }
impl MetaTrie {
    #[verifier::external_body] pub fn new(d: TrieDb) -> (r: MetaTrie) ensures r@ == Map::<Seq<u8>, Seq<u8>>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn from_root(h: H256, d: TrieDb) -> (r: StoreResult<MetaTrie>) ensures r matches Ok(t) ==> root_of(t@) == h { unimplemented!() }
}
pub uninterp spec fn be64(n: u64) -> Seq<u8>;
pub broadcast axiom fn be64_law(a: u64) ensures (#[trigger] be64(a)).len() == 8;
pub axiom fn be64_apart(a: u64, b: u64) requires be64(a) == be64(b) ensures a == b;
#[verifier::external_body] pub fn be64_vec(n: u64) -> (r: Vec<u8>) ensures r@ == be64(n) { unimplemented!() }
/// the boundaries, an epoch's record, the hard forks and the consensus configuration of a metadata trie
pub open spec fn segs(m: Map<Seq<u8>, Seq<u8>>) -> Seq<u64> { of_be64s(m[segment_key()]) }
pub open spec fn sound(m: Map<Seq<u8>, Seq<u8>>) -> bool { m.contains_key(segment_key()) && boundaries(segs(m)) && m[segment_key()] == be64s(segs(m)) }
pub open spec fn record_of(m: Map<Seq<u8>, Seq<u8>>, e: u64) -> MetadataInner { MetadataInner::of(parse(m[be64(e)])) }
pub open spec fn stored(m: Map<Seq<u8>, Seq<u8>>) -> Seq<HardforkInfoInner> { if m.contains_key(hardfork_key()) { HardforkInfo::of(parse(m[hardfork_key()])).inner@ } else { Seq::empty() } }
pub uninterp spec fn loaded() -> H256;
pub uninterp spec fn config_bytes(f: H256, c: ConsensusConfig) -> Seq<u8>;
pub open spec fn address_seq(v: Seq<ValidatorExtend>) -> Seq<H160> { v.map_values(|x: ValidatorExtend| x.address) }
#[verifier::external_body] pub fn loaded_flags() -> (r: H256) ensures r == loaded() { unimplemented!() }
#[verifier::external_body] pub fn encode_consensus_config(f: H256, c: ConsensusConfig) -> (r: StoreResult<Vec<u8>>) ensures r matches Ok(b) ==> b@ == config_bytes(f, c) { unimplemented!() }
/// one counter per validator address, in the order of the addresses, each at zero
#[verifier::external_body] pub fn zero_counts(m: &Metadata) -> (r: Vec<ProposeCount>)
    ensures forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).count == 0, forall|a: H160| address_seq(m.verifier_list@).contains(a) == exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i]).address == a { unimplemented!() }
#[verifier::external_body] pub fn copy_of(m: &Metadata) -> (r: Metadata) ensures r == *m { unimplemented!() }
impl Metadata {
//@fn protocol/src/types/primitive.rs :: impl Metadata/fn into_part
//@ ret r
//@ spec
    ensures r.0 == (MetadataInner { version: self.version, epoch: self.epoch, verifier_list: self.verifier_list, propose_counter: self.propose_counter }), r.1 == self.consensus_config,
//@end
}
/// an epoch's record as its metadata says, with every counter at zero
pub open spec fn recorded_as(r: MetadataInner, m: Metadata) -> bool {
    &&& r.version == m.version && r.epoch == m.epoch && r.verifier_list == m.verifier_list
    &&& forall|i: int| 0 <= i < r.propose_counter@.len() ==> (#[trigger] r.propose_counter@[i]).count == 0
    &&& forall|a: H160| address_seq(m.verifier_list@).contains(a) == exists|i: int| 0 <= i < r.propose_counter@.len() && (#[trigger] r.propose_counter@[i]).address == a
}
impl MetadataStore {
//@fn core/executor/src/system_contract/metadata/store.rs :: impl MetadataStore/fn new
//@ ret r
//@ sub /root: H256/ => /world: &Backend, root: H256/
//@ sub /METADATA_DB\.read\(\)\.clone\(\)/ => /world.meta_db()/
//@ sub /SystemScriptError::RestoreMpt\(\w+\.to_string\(\)\)/ => /SystemScriptError::TrieDbNotInit/
//@ sub /SystemScriptError::TrieDbNotInit\.into\(\)/ => /store_error()/
//@ sub /MPTTrie::/ => /MetaTrie::/
//@ sub /Arc::clone\(&(\w+)\)/ => /\1/
//@ sub /(\w+) == H256::default\(\)/ => /\1.same(H256::zero())/
//@ sub /H256::default\(\)/ => /H256::zero()/
//@ sub /EPOCH_SEGMENT_KEY\.as_bytes\(\)\.to_vec\(\)/ => /key_names::owned(key_names::segment())/
//@ sub /ProtocolResult<Self>/ => /StoreResult<MetadataStore>/
//@ spec
    ensures r is Ok ==> world@.meta_db, r matches Ok(s) ==> (if root == zero_h256() { s.trie@ =~= map![segment_key() => be64s(seq![0u64])] && sound(s.trie@) && segs(s.trie@) =~= seq![0u64] && stored(s.trie@) =~= Seq::empty() } else { root_of(s.trie@) == root }),
//@ start
    broadcast use be64s_law;
    proof { keys_apart(); assert(of_be64s(be64s(seq![0u64])) == seq![0u64]); }
//@end
//@fn core/executor/src/system_contract/metadata/store.rs :: impl MetadataStore/fn append_metadata
//@ ret r
//@ sub /&mut self,/ => /&mut self, world: &mut Backend,/
//@ sub /self\s*\.trie\s*\.get\(EPOCH_SEGMENT_KEY\.as_bytes\(\)\)\?\s*\.unwrap\(\)\s*\.to_vec\(\)/ => /self.trie.get(key_names::segment())?.unwrap()/
//@ sub /EPOCH_SEGMENT_KEY\.as_bytes\(\)\.to_vec\(\)/ => /key_names::owned(key_names::segment())/
//@ sub /CONSENSUS_CONFIG\.as_bytes\(\)\.to_vec\(\)/ => /key_names::owned(key_names::config())/
//@ sub /let map = metadata\s*\.verifier_list\s*\.iter\(\)\s*\.map\(\|v\| \(v\.address, 0u64\)\)\s*\.collect::<BTreeMap<_, _>>\(\);/ => /let map = zero_counts(metadata);/
//@ sub /metadata\.clone\(\)/ => /copy_of(metadata)/
//@ sub /map\.into_iter\(\)\.map\(Into::into\)\.collect\(\)/ => /map/
//@ sub /\*\*HARDFORK_INFO\.load\(\)/ => /loaded_flags()/
//@ sub /(\w+\.epoch)\.to_be_bytes\(\)\.to_vec\(\)/ => /be64_vec(\1)/
//@ sub /(\w+)\.encode\(\)\?\.to_vec\(\)/ => /\1.encode_record()?/
//@ sub /CURRENT_METADATA_ROOT\.with\(\|r\| \*r\.borrow_mut\(\) = (\w+)\)/ => /world.publish_meta(\1)/
//@ sub /ProtocolResult</ => /StoreResult</
//@ spec
    requires sound(old(self).trie@), segs(old(self).trie@).last() < u64::MAX, segs(old(self).trie@).len() < u64::MAX,
    ensures r is Ok ==> ({
        let (m, n) = (old(self).trie@, final(self).trie@);
        &&& sound(n) && segs(n) == segs(m).push(metadata.version.end) && metadata.epoch == segs(m).len() - 1 && (metadata.epoch > 0 ==> metadata.version.start == segs(m).last() + 1) && metadata.version.end > segs(m).last()
        &&& recorded_as(record_of(n, metadata.epoch), *metadata) && n.contains_key(be64(metadata.epoch)) && (forall|e: u64| e != metadata.epoch ==> record_of(n, e) == #[trigger] record_of(m, e)) && (forall|e: u64| e != metadata.epoch ==> #[trigger] n.contains_key(be64(e)) == m.contains_key(be64(e)))
        &&& stored(n) == stored(m) && n.contains_key(config_key()) && n[config_key()] == config_bytes(loaded(), metadata.consensus_config)
        &&& final(world)@ == World { meta: root_of(n), ..old(world)@ }
    }),
//@ start
    broadcast use be64s_law, be64_law;
    proof { keys_apart(); assert forall|a: u64, b: u64| a != b implies #[trigger] be64(a) != #[trigger] be64(b) by { if be64(a) == be64(b) { be64_apart(a, b); } }
        assert forall|x: MetadataInner| #[trigger] MetadataInner::of(x.item()) == x by { MetadataInner::law(x); } }
//@end
//@fn core/executor/src/system_contract/metadata/store.rs :: impl MetadataStore/fn set_hardfork_info
//@ ret r
//@ sub /&mut self,/ => /&mut self, world: &mut Backend,/
//@ sub /HARDFORK_KEY\.as_bytes\(\)\.to_vec\(\)/ => /key_names::owned(key_names::hardfork())/
//@ sub /HARDFORK_KEY\.as_bytes\(\)/ => /key_names::hardfork()/
//@ sub /HardforkInfo::decode\((\w+)\)/ => /HardforkInfo::decode_record(&\1)/
//@ sub /(\w+)\.encode\(\)\?\.to_vec\(\)/ => /\1.encode_record()?/
//@ sub /CURRENT_METADATA_ROOT\.with\(\|r\| \*r\.borrow_mut\(\) = (\w+)\)/ => /world.publish_meta(\1)/
//@ sub /ProtocolResult</ => /StoreResult</
//@ spec
    ensures r is Ok ==> recorded(stored(old(self).trie@), HardforkInfoInner { block_number, flags: info }, stored(final(self).trie@)) && (forall|k: Seq<u8>| k != hardfork_key() ==> #[trigger] final(self).trie@.contains_key(k) == old(self).trie@.contains_key(k)) && (forall|k: Seq<u8>| k != hardfork_key() ==> #[trigger] final(self).trie@[k] == old(self).trie@[k])
        && final(world)@ == (World { meta: root_of(final(self).trie@), ..old(world)@ }),
//@ start
    proof { assert forall|x: HardforkInfo| #[trigger] HardforkInfo::of(x.item()) == x by { HardforkInfo::law(x); } }
//@end
}
#[verifier::external_body] pub fn store_error() -> StoreError { unimplemented!() }
/// the metadata trie that two epochs and a hard fork make
pub open spec fn founded(m: Map<Seq<u8>, Seq<u8>>, a: Metadata, b: Metadata, h: HardforkInfoInner) -> bool {
    &&& segs(m) =~= seq![0u64, a.version.end, b.version.end]
    &&& a.epoch == 0 && b.epoch == 1 && b.version.start == a.version.end + 1 && 0 < a.version.end < b.version.end
    &&& m.contains_key(be64(0)) && recorded_as(record_of(m, 0), a) && m.contains_key(be64(1)) && recorded_as(record_of(m, 1), b)
    &&& stored(m) =~= seq![h]
    &&& m.contains_key(config_key()) && m[config_key()] == config_bytes(loaded(), b.consensus_config)
}
/// publishing the metadata root in the contract's slot
pub open spec fn metadata_published(w: World, h: H256) -> World { World { rows: w.rows.insert(metadata_address(), row_at(World { meta: h, ..w }, metadata_address())), slots: w.slots.insert((metadata_address(), metadata_slot()), h), meta: h, ..w } }
/// publishing the header cell root in the two contracts' slots
pub open spec fn header_published(w: World) -> World {
    World { rows: w.rows.insert(light_client_address(), row_at(w, light_client_address())).insert(image_cell_address(), row_at(w, image_cell_address())),
        slots: w.slots.insert((light_client_address(), header_slot()), w.header).insert((image_cell_address(), header_slot()), w.header), ..w }
}
proof fn one_change(w: World, l: Seq<Apply>)
    ensures l.len() == 1 && root_change(w, metadata_address(), metadata_slot(), w.meta, l[0]) ==> applied(w, l, 1) == (World { rows: w.rows.insert(metadata_address(), row_at(w, metadata_address())), slots: w.slots.insert((metadata_address(), metadata_slot()), w.meta), ..w }),
        l.len() == 2 && root_change(w, light_client_address(), header_slot(), w.header, l[0]) && root_change(w, image_cell_address(), header_slot(), w.header, l[1]) ==> applied(w, l, 2) == header_published(w),
{
    reveal_with_fuel(applied, 3); reveal_with_fuel(slots_set, 3);
}
//@fn core/executor/src/system_contract/mod.rs :: fn init_metadata_and_hardfork
//@ ret r
//@ sub /<Adapter: ExecutorAdapter \+ ApplyBackend>/ => //
//@ sub /adapter: &mut Adapter/ => /adapter: &mut Backend/
//@ sub /MetadataStore::new\(/ => /MetadataStore::new(adapter, /
//@ sub /store\.(\w+)\(/ => /store.\1(adapter, /
//@ sub /METADATA_CONTRACT_ADDRESS/ => /metadata_address_()/
//@ sub /ProtocolResult</ => /StoreResult</
//@ spec
    requires metadata_list@.len() == 2, metadata_list@[0].version.end < u64::MAX, metadata_root == zero_h256(),
    ensures r is Ok ==> exists|m: Map<Seq<u8>, Seq<u8>>| founded(m, metadata_list@[0], metadata_list@[1], hardfork) && final(adapter)@ == metadata_published(old(adapter)@, #[trigger] root_of(m)),
//@ start
    broadcast use be64_law;
    proof { keys_apart();
        assert forall|w: World, l: Seq<Apply>| l.len() == 1 && root_change(w, metadata_address(), metadata_slot(), w.meta, l[0]) implies #[trigger] applied(w, l, 1) == (World { rows: w.rows.insert(metadata_address(), row_at(w, metadata_address())), slots: w.slots.insert((metadata_address(), metadata_slot()), w.meta), ..w }) by { one_change(w, l); }
    }
//@ end
//@end
//@fn core/executor/src/system_contract/mod.rs :: fn init_system_contract_db
//@ ret r
//@ sub /<Adapter: ExecutorAdapter \+ ApplyBackend>/ => //
//@ sub /adapter: &mut Adapter/ => /adapter: &mut Backend/
//@ sub /db: Arc<DB>/ => /db: TrieDb/
//@ sub /let mut _db = METADATA_DB\.write\(\);\s*_db\.replace\(Arc::new\(RocksTrieDB::new_metadata\((?:[^()]|\([^()]*\))*\)\)\);/ => /adapter.open_meta_db();/
//@ sub /let mut _db = HEADER_CELL_DB\.write\(\);\s*_db\.replace\(Arc::new\(RocksTrieDB::new_ckb_light_client\((?:[^()]|\([^()]*\))*\)\)\);/ => /adapter.open_header_db();/
//@ sub /CKB_LIGHT_CLIENT_CONTRACT_ADDRESS/ => /light_client_address_()/
//@ sub /METADATA_CONTRACT_ADDRESS/ => /metadata_address_()/
//@ sub /\*HEADER_CELL_ROOT_KEY/ => /header_slot_()/
//@ sub /\*METADATA_ROOT_KEY/ => /metadata_slot_()/
//@ sub /(\w+)\.is_zero\(\)/ => /\1.same(H256::zero())/
//@ spec
    ensures r.0 == slot_at(old(adapter)@, metadata_address(), metadata_slot()),
        ({ let w = World { meta_db: true, header_db: true, ..old(adapter)@ }; r.1 == slot_at(w, light_client_address(), header_slot()) && final(adapter)@ == (if r.1 == zero_h256() { header_published(w) } else { w }) }),
//@ start
    proof { contracts_apart();
        assert forall|w: World, l: Seq<Apply>| l.len() == 2 && root_change(w, light_client_address(), header_slot(), w.header, l[0]) && root_change(w, image_cell_address(), header_slot(), w.header, l[1]) implies #[trigger] applied(w, l, 2) == header_published(w) by { one_change(w, l); }
    }
//@end
/// what founding leads to, from an executor state whose contracts' slots are still zero
pub open spec fn initialised(w: World, a: Metadata, b: Metadata, h: HardforkInfoInner, v: World) -> bool {
    exists|m: Map<Seq<u8>, Seq<u8>>| founded(m, a, b, h) && v == metadata_published(header_published(World { meta_db: true, header_db: true, ..w }), #[trigger] root_of(m))
}
//@fn core/executor/src/system_contract/mod.rs :: fn init
//@ ret r
//@ sub /<Adapter: ExecutorAdapter \+ ApplyBackend>/ => //
//@ sub /adapter: &mut Adapter/ => /adapter: &mut Backend/
//@ sub /db: Arc<DB>/ => /db: TrieDb/
//@ sub /ProtocolResult</ => /StoreResult</
//@ spec
    requires metadata_list@.len() == 2, metadata_list@[0].version.end < u64::MAX, untouched(old(adapter)@),
    ensures r is Ok ==> initialised(old(adapter)@, metadata_list@[0], metadata_list@[1], hardfork, final(adapter)@),
//@end
/// neither contract has published a root yet
pub open spec fn untouched(w: World) -> bool { slot_at(w, metadata_address(), metadata_slot()) == zero_h256() && slot_at(World { meta_db: true, header_db: true, ..w }, light_client_address(), header_slot()) == zero_h256() }
// ---- running and saving the genesis block ----
//@item protocol/src/types/executor.rs :: struct ExecResp
//@end
#[verifier::external_body] pub struct Ctx { x: u8 }
#[verifier::external_body] pub fn ctx_() -> Ctx { unimplemented!() }
#[verifier::external_body] pub fn same_<T>(x: &T) -> (r: T) ensures r == *x { unimplemented!() }
/// what the node's store keeps (C18)
pub struct Kept { pub proof: Option<Proof>, pub blocks: Map<u64, Block>, pub txs: Map<u64, Seq<SignedTransaction>>, pub receipts: Map<u64, Seq<Receipt>> }
#[verifier::external_body] pub struct Store { x: u8 }
pub uninterp spec fn receipts_of(b: Block, t: Seq<SignedTransaction>, r: ExecResp) -> Seq<Receipt>;
impl RichBlock { #[verifier::external_body] pub fn generate_receipts_and_logs(&self, r: &ExecResp) -> (x: (Vec<Receipt>, Vec<Vec<Log>>)) ensures x.0@ == receipts_of(self.block, self.txs@, *r) { unimplemented!() } }
impl Store {
    pub uninterp spec fn view(&self) -> Kept;
    #[verifier::external_body] pub fn update_latest_proof(&mut self, c: Ctx, p: Proof) -> (r: StoreResult<()>) ensures r is Ok ==> final(self)@ == (Kept { proof: Some(p), ..old(self)@ }) { unimplemented!() }
    #[verifier::external_body] pub fn insert_block(&mut self, c: Ctx, b: Block) -> (r: StoreResult<()>) ensures r is Ok ==> final(self)@ == (Kept { blocks: old(self)@.blocks.insert(b.header.number, b), ..old(self)@ }) { unimplemented!() }
    #[verifier::external_body] pub fn insert_transactions(&mut self, c: Ctx, n: u64, t: Vec<SignedTransaction>) -> (r: StoreResult<()>) ensures r is Ok ==> final(self)@ == (Kept { txs: old(self)@.txs.insert(n, t@), ..old(self)@ }) { unimplemented!() }
    #[verifier::external_body] pub fn insert_receipts(&mut self, c: Ctx, n: u64, t: Vec<Receipt>) -> (r: StoreResult<()>) ensures r is Ok ==> final(self)@ == (Kept { receipts: old(self)@.receipts.insert(n, t@), ..old(self)@ }) { unimplemented!() }
//@fn core/run/src/components/storage.rs :: trait StorageExt/fn save_block
//@ ret r
//@ sub /async fn/ => /fn/
//@ sub /\s*\.await/ => //
//@ sub /\(&self,/ => /(&mut self,/ 1
//@ sub /Context::new\(\)/ => /ctx_()/
//@ sub /([\w.]+)\.clone\(\)/ => /same_(&\1)/
//@ sub /ProtocolResult</ => /StoreResult</
//@ spec
    ensures r is Ok ==> ({
        let n = rich.block.header.number;
        final(self)@ == Kept { proof: Some(rich.block.header.proof), blocks: old(self)@.blocks.insert(n, rich.block), txs: old(self)@.txs.insert(n, rich.txs@), receipts: old(self)@.receipts.insert(n, receipts_of(rich.block, rich.txs@, *resp)) }
    }),
//@end
}
/// the node's databases: its store and the tries it knows by their roots
pub struct DatabaseGroup { pub store: Store, pub tries: TrieDb }
impl DatabaseGroup {
    #[verifier::external_body] pub fn trie_db(&self) -> TrieDb { unimplemented!() }
    #[verifier::external_body] pub fn inner_db(&self) -> TrieDb { unimplemented!() }
    #[verifier::external_body] pub fn storage_handle(&self) -> StoreHandle { unimplemented!() }
}
#[verifier::external_body] pub struct StoreHandle { x: u8 }
#[verifier::external_body] pub fn expected<T, E>(x: Result<T, E>) -> (r: T) ensures x is Ok, r == x->Ok_0 { unimplemented!() }
impl StateTrie { #[verifier::external_body] pub fn new(d: TrieDb) -> (r: StateTrie) ensures r@ == Map::<Seq<u8>, Seq<u8>>::empty() { unimplemented!() } }
/// the executor's state over a state trie, for a block
pub uninterp spec fn opened(root: H256, p: Proposal) -> World;
/// an account that was only given a balance has no slot set
pub axiom fn fresh_slots(a: Seq<InitialAccount>, p: Proposal) ensures untouched(opened(state_root_of(with_accounts(Map::empty(), a, a.len())), p));
impl Backend { #[verifier::external_body] pub fn from_root(h: H256, d: TrieDb, s: StoreHandle, p: Proposal) -> (r: StoreResult<Backend>) ensures r matches Ok(b) ==> b@ == opened(h, p) { unimplemented!() } }
pub uninterp spec fn partial_proposal(h: Header) -> Proposal;
#[verifier::external_body] pub fn without_state_root(h: &Header) -> (r: Proposal) ensures r == partial_proposal(*h) { unimplemented!() }
/// what running a block's transactions reports (C20)
pub uninterp spec fn executed(w: World, t: Seq<SignedTransaction>) -> ExecResp;
pub struct AxonExecutor;
impl AxonExecutor { #[verifier::external_body] pub fn exec(&self, b: &mut Backend, t: &[SignedTransaction]) -> (r: ExecResp) ensures r == executed(old(b)@, t@) { unimplemented!() } }
/// what the genesis' execution reports
pub open spec fn founding(rich: RichBlock, accounts: Seq<InitialAccount>, a: Metadata, b: Metadata, h: HardforkInfoInner, r: ExecResp) -> bool {
    exists|v: World| initialised(opened(state_root_of(with_accounts(Map::empty(), accounts, accounts.len())), partial_proposal(rich.block.header)), a, b, h, v) && r == #[trigger] executed(v, rich.txs@)
}
//@fn core/run/src/lib.rs :: fn execute_genesis_transactions
//@ ret r
//@ sub /MPTTrie::new\(([\w.()]+)\)\s*\.insert_accounts\((\w+)\)\s*\.expect\("[^"]*"\)\s*\.commit\(\)\?/ => /{ let mut state_trie = expected(StateTrie::new(\1).insert_accounts(\2)); state_trie.commit()? }/
//@ sub /AxonExecutorApplyAdapter::from_root/ => /Backend::from_root/
//@ sub /Proposal::new_without_state_root\((&[\w.]+)\)\.into\(\)/ => /without_state_root(\1)/
//@ sub /db_group\.storage\(\)/ => /db_group.storage_handle()/
//@ sub /system_contract::init\(/ => /init(/
//@ sub /AxonExecutor\.exec\(([^;]*?), &\[\]\)/ => /AxonExecutor.exec(\1)/
//@ sub /resp\.tx_resp\.iter\(\)\.enumerate\(\)\.for_each\(.*?\}\s*\}\);/ => //
//@ sub /&rich\.txs/ => /rich.txs.as_slice()/
//@ sub /ProtocolResult</ => /StoreResult</
//@ spec
    requires metadata_list@.len() == 2, metadata_list@[0].version.end < u64::MAX,
    ensures r matches Ok(x) ==> founding(*rich, accounts@, metadata_list@[0], metadata_list@[1], hardfork, x),
//@ start
    proof { fresh_slots(accounts@, partial_proposal(rich.block.header)); }
//@end
/// a specification's metadata, its validators extended with their addresses (C10)
pub open spec fn metadata_like(s: SpecMetadata, m: Metadata) -> bool { m.version == s.version && m.epoch == s.epoch && m.propose_counter == s.propose_counter && m.consensus_config == s.consensus_config && extends(s.verifier_list@, m.verifier_list@) }
pub uninterp spec fn extends(v: Seq<Validator>, e: Seq<ValidatorExtend>) -> bool;
#[verifier::external_body] pub fn meta_of(s: SpecMetadata) -> (r: Metadata) ensures metadata_like(s, r) { unimplemented!() }
#[verifier::external_body] pub fn pair_of(a: Metadata, b: Metadata) -> (r: Vec<Metadata>) ensures r@ == seq![a, b] { unimplemented!() }
pub uninterp spec fn blooms(r: ExecResp) -> Seq<Bloom>;
pub uninterp spec fn bloom_over(l: Seq<Bloom>) -> Bloom;
#[verifier::external_body] pub fn blooms_of(r: &ExecResp) -> (x: Vec<Bloom>) ensures x@ == blooms(*r) { unimplemented!() }
#[verifier::external_body] pub fn bloom_of(l: &Vec<Bloom>) -> (x: Bloom) ensures x == bloom_over(l@) { unimplemented!() }
/// the second epoch: it follows the first and ends as many blocks later as the first one's last block's number
pub open spec fn second_epoch(a: Metadata, b: Metadata) -> bool {
    b.epoch == a.epoch + 1 && b.version.start == a.version.end + 1 && b.version.end == 2 * a.version.end && b.consensus_config == a.consensus_config && b.propose_counter == a.propose_counter
}
pub open spec fn executed_genesis(p: RichBlock, spec: ChainSpec, k: Kept, b: RichBlock, l: Kept) -> bool {
    exists|m0: Metadata, m1: Metadata, h: HardforkInfoInner, x: ExecResp| {
        &&& metadata_like(spec.params, m0) && second_epoch(m0, m1) && extends(spec.params.verifier_list@, m1.verifier_list@)
        &&& h.block_number == 0 && configured(spec.genesis.hardforks@, h.flags)
        &&& #[trigger] founding(p, spec.accounts@, m0, m1, h, x)
        &&& b == (RichBlock { block: Block { header: Header { state_root: x.state_root, receipts_root: x.receipt_root, log_bloom: bloom_over(blooms(x)), ..p.block.header }, ..p.block }, ..p })
        &&& l == (Kept { proof: Some(b.block.header.proof), blocks: k.blocks.insert(b.block.header.number, b.block), txs: k.txs.insert(b.block.header.number, b.txs@), receipts: k.receipts.insert(b.block.header.number, receipts_of(b.block, b.txs@, x)) })
    }
}
//@fn core/run/src/lib.rs :: fn execute_genesis
//@ ret r
//@ sub /async fn/ => /fn/
//@ sub /\s*\.await/ => //
//@ sub /mut partial_genesis: RichBlock/ => /given_genesis: RichBlock/
//@ sub /db_group: &DatabaseGroup/ => /db_group: &mut DatabaseGroup/
//@ sub /([\w.]+)\.clone\(\)/ => /same_(&\1)/
//@ sub /&\[(\w+)\.into\(\), (\w+)\.into\(\)\]/ => /pair_of(meta_of(\1), meta_of(\2)).as_slice()/
//@ sub /resp\s*\.tx_resp\s*\.iter\(\)\s*\.map\(\|r\| Bloom::from\(BloomInput::Raw\(rlp::encode_list\(&r\.logs\)\.as_ref\(\)\)\)\)\s*\.collect::<Vec<_>>\(\)/ => /blooms_of(&resp)/
//@ sub /Bloom::from\(BloomInput::Raw\(rlp::encode_list\(&(\w+)\)\.as_ref\(\)\)\)/ => /bloom_of(&\1)/
//@ sub /db_group\s*\.storage\(\)/ => /db_group.store/
//@ sub /&spec\.accounts/ => /spec.accounts.as_slice()/
//@ sub /ProtocolResult</ => /StoreResult</
//@ spec
    requires spec.params.epoch < u64::MAX, 2 * spec.params.version.end + 1 <= u64::MAX,
    ensures r matches Ok(b) ==> executed_genesis(given_genesis, *spec, old(db_group).store@, b, final(db_group).store@),
//@ start
    let mut partial_genesis = given_genesis;
//@end
/// the whole of it: from a specification to the header of block zero
proof fn genesis_block(spec: ChainSpec, p: RichBlock, k: Kept, b: RichBlock, l: Kept)
    requires specified(spec.genesis, p.block.header), p.block.tx_hashes@.len() == 0, p.txs@.len() == 0, executed_genesis(p, spec, k, b, l)
    ensures specified(spec.genesis, b.block.header), b.block.tx_hashes@.len() == 0, b.txs@.len() == 0, l.blocks.contains_key(0), l.blocks[0] == b.block, l.txs[0].len() == 0,
        spec.params.epoch == 0, spec.params.version.end > 0,
{
    let (m0, m1, h, x) = choose|m0: Metadata, m1: Metadata, h: HardforkInfoInner, x: ExecResp| {
        &&& metadata_like(spec.params, m0) && second_epoch(m0, m1) && extends(spec.params.verifier_list@, m1.verifier_list@)
        &&& h.block_number == 0 && configured(spec.genesis.hardforks@, h.flags)
        &&& #[trigger] founding(p, spec.accounts@, m0, m1, h, x)
        &&& b == (RichBlock { block: Block { header: Header { state_root: x.state_root, receipts_root: x.receipt_root, log_bloom: bloom_over(blooms(x)), ..p.block.header }, ..p.block }, ..p })
        &&& l == (Kept { proof: Some(b.block.header.proof), blocks: k.blocks.insert(b.block.header.number, b.block), txs: k.txs.insert(b.block.header.number, b.txs@), receipts: k.receipts.insert(b.block.header.number, receipts_of(b.block, b.txs@, x)) })
    };
    assert(m0.epoch == 0 && m0.version.end > 0);
}
}
}
fn main() {}
