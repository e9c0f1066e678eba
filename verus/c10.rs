//@include head.rs
pub mod sh {
use super::*;
//@include num.rs
//@include bytes.rs
//@include rlp.rs
//@include types.rs
}
use sh::*;
// C10: metadata records in their several forms.
pub mod md {
use super::*;
use super::sh::*;
broadcast use {num_axioms, bytes_axioms, rlp_axioms, vec_axioms};
impl MetadataVersion {
//@fn protocol/src/types/primitive.rs :: impl MetadataVersion/fn new
//@ ret r
//@ sub /-> Self/ => /-> MetadataVersion/
//@ spec
    ensures r.start == start, r.end == end,
//@end
//@fn protocol/src/types/primitive.rs :: impl MetadataVersion/fn contains
//@ ret r
//@ spec
    ensures r == (self.start <= number <= self.end),
//@end
}
impl Metadata {
//@fn protocol/src/types/primitive.rs :: impl Metadata/fn into_part
//@ ret r
//@ spec
    ensures r.0 == (MetadataInner { version: self.version, epoch: self.epoch, verifier_list: self.verifier_list, propose_counter: self.propose_counter }), r.1 == self.consensus_config,
//@end
//@fn protocol/src/types/primitive.rs :: impl Metadata/fn from_parts
//@ ret r
//@ sub /-> Self/ => /-> Metadata/
//@ spec
    ensures r == (Metadata { version: inner.version, epoch: inner.epoch, verifier_list: inner.verifier_list, propose_counter: inner.propose_counter, consensus_config: config }),
//@end
/// splitting and joining again
fn split_join(self) -> (r: Metadata) ensures r == self { let (i, c) = self.into_part(); Metadata::from_parts(i, c) }
}
pub open spec fn upgraded(v: ConsensusConfigV0) -> ConsensusConfig {
    ConsensusConfig { gas_limit: v.gas_limit, interval: v.interval, propose_ratio: v.propose_ratio, prevote_ratio: v.prevote_ratio, precommit_ratio: v.precommit_ratio, brake_ratio: v.brake_ratio, tx_num_limit: v.tx_num_limit, max_tx_size: v.max_tx_size, max_contract_limit: 0x6000 }
}
pub open spec fn downgraded(v: ConsensusConfig) -> ConsensusConfigV0 {
    ConsensusConfigV0 { gas_limit: v.gas_limit, interval: v.interval, propose_ratio: v.propose_ratio, prevote_ratio: v.prevote_ratio, precommit_ratio: v.precommit_ratio, brake_ratio: v.brake_ratio, tx_num_limit: v.tx_num_limit, max_tx_size: v.max_tx_size }
}
//@fn protocol/src/types/primitive.rs :: fn default_max_contract_limit
//@ ret r
//@ spec
    ensures r == 0x6000,
//@end
impl FromSpecImpl<ConsensusConfigV0> for ConsensusConfig { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(x: ConsensusConfigV0) -> ConsensusConfig { upgraded(x) } }
impl From<ConsensusConfigV0> for ConsensusConfig {
//@fn protocol/src/types/primitive.rs :: impl From<ConsensusConfigV0> for ConsensusConfig/fn from
//@end
}
impl FromSpecImpl<ConsensusConfig> for ConsensusConfigV0 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(x: ConsensusConfig) -> ConsensusConfigV0 { downgraded(x) } }
impl From<ConsensusConfig> for ConsensusConfigV0 {
//@fn protocol/src/types/primitive.rs :: impl From<ConsensusConfig> for ConsensusConfigV0/fn from
//@end
}
/// old to new and back loses nothing; new to old and back loses only the contract limit
fn old_new_old(v: ConsensusConfigV0) -> (r: ConsensusConfigV0) ensures r == v { let n = ConsensusConfig::from(v); ConsensusConfigV0::from(n) }
fn new_old_new(v: ConsensusConfig) -> (r: ConsensusConfig) ensures r == (ConsensusConfig { max_contract_limit: 0x6000, ..v }) { let o = ConsensusConfigV0::from(v); ConsensusConfig::from(o) }
/// the address of a public key
pub uninterp spec fn address_of_key(k: Seq<u8>) -> Option<H160>;
impl Hex { #[verifier::external_body] pub fn as_ref(&self) -> (r: &[u8]) ensures r@ == self.0@ { unimplemented!() } #[verifier::external_body] pub fn as_bytes(&self) -> (r: Bytes) ensures r == self.0 { unimplemented!() } }
#[derive(Debug)] pub struct KeyError;
impl Address { #[verifier::external_body] pub fn from_pubkey_bytes(b: &[u8]) -> (r: Result<Address, KeyError>) ensures match address_of_key(b@) { Some(a) => r == Ok::<Address, KeyError>(Address(a)), None => r is Err } { unimplemented!() } }
pub open spec fn extended(v: Validator) -> ValidatorExtend { ValidatorExtend { bls_pub_key: v.bls_pub_key, pub_key: v.pub_key, address: address_of_key(v.pub_key.0@)->Some_0, propose_weight: v.propose_weight, vote_weight: v.vote_weight } }
impl ValidatorExtend {
//@fn protocol/src/types/primitive.rs :: impl From<Validator> for ValidatorExtend/fn from
//@ ret r
//@ sub /-> Self/ => /-> ValidatorExtend/
//@ sub /\.expect\([^()]*\)/ => /.unwrap()/
//@ spec
    requires address_of_key(value.pub_key.0@) is Some,
    ensures r == extended(value),
//@end
}
impl ConsensusValidator {
//@fn protocol/src/types/primitive.rs :: impl From<&ValidatorExtend> for ConsensusValidator/fn from
//@ ret r
//@ sub /-> Self/ => /-> ConsensusValidator/
//@ spec
    ensures r.pub_key@ == ve.pub_key.0@, r.propose_weight == ve.propose_weight, r.vote_weight == ve.vote_weight,
//@end
}
//@item protocol/src/types/primitive.rs :: struct SpecMetadata
//@end
#[verifier::external_body] pub fn extend_all(v: Vec<Validator>) -> (r: Vec<ValidatorExtend>)
    requires forall|i: int| 0 <= i < v@.len() ==> address_of_key((#[trigger] v@[i]).pub_key.0@) is Some
    ensures r@ == v@.map_values(|x: Validator| extended(x)) { unimplemented!() }
impl Metadata {
//@fn protocol/src/types/primitive.rs :: impl From<SpecMetadata> for Metadata/fn from
//@ ret r
//@ alias impl From<SpecMetadata> for Metadata
//@ sub /-> Self/ => /-> Metadata/
//@ sub /([\w.]+)\.into_iter\(\)\s*\.map\((?:Into::into|ValidatorExtend::from)\)\s*\.collect\(\)/ => /extend_all(\1)/
//@ sub /fn from/ => /fn from_spec_metadata/
//@ spec
    requires forall|i: int| 0 <= i < value.verifier_list@.len() ==> address_of_key((#[trigger] value.verifier_list@[i]).pub_key.0@) is Some,
    ensures r.version == value.version, r.epoch == value.epoch, r.verifier_list@ == value.verifier_list@.map_values(|x: Validator| extended(x)), r.propose_counter == value.propose_counter, r.consensus_config == value.consensus_config,
//@end
}
pub struct DurationConfig { pub propose_ratio: u64, pub prevote_ratio: u64, pub precommit_ratio: u64, pub brake_ratio: u64 }
impl DurationConfig {
//@fn protocol/src/types/primitive.rs :: impl From<Metadata> for DurationConfig/fn from
//@ ret r
//@ sub /-> Self/ => /-> DurationConfig/
//@ spec
    ensures r.propose_ratio == m.consensus_config.propose_ratio, r.prevote_ratio == m.consensus_config.prevote_ratio, r.precommit_ratio == m.consensus_config.precommit_ratio, r.brake_ratio == m.consensus_config.brake_ratio,
//@end
}
// ---- the stored form: two bytes that name the version, then its encoding ----
//@include mdstore.rs
impl Record for ConsensusConfig {}
impl Record for ConsensusConfigV0 {}
//@enum core/executor/src/system_contract/metadata/store.rs :: enum ConsensusConfigFlag
impl ConsensusConfigFlag {
//@fn core/executor/src/system_contract/metadata/store.rs :: impl From<u16> for ConsensusConfigFlag/fn from
//@ ret r
//@ sub /-> Self/ => /-> ConsensusConfigFlag/
//@ sub /unreachable!\(\)/ => /never()/
//@ spec
    requires value <= 1,
    ensures r.num() == value,
//@end
/// whether flags contain the feature that lets the contract limit be changed
//@fn core/executor/src/system_contract/metadata/store.rs :: impl ConsensusConfigFlag/fn new
//@ ret r
//@ sub /-> Self/ => /-> ConsensusConfigFlag/
//@ sub /H256::from_low_u64_be\(\s*\(HardforkName::Andromeda as u64\)\.to_be\(\)\s*\)/ => /andromeda_flag()/ 1
//@ sub /(\w+) & (\w+)(?= *;)/ => /meet(\1, \2)/
//@ sub /(\w+) & (\w+) == (\w+)/ => /same(meet(\1, \2), \3)/
//@ spec
    ensures (r is V1) == (meeting(flags, andromeda()) == andromeda()),
//@ start
    proof { meeting_again(flags, andromeda()); }
//@end
}
pub uninterp spec fn andromeda() -> H256;
pub uninterp spec fn meeting(a: H256, b: H256) -> H256;
pub axiom fn meeting_again(a: H256, b: H256) ensures meeting(meeting(a, b), b) == meeting(a, b);
#[verifier::external_body] pub fn andromeda_flag() -> (r: H256) ensures r == andromeda() { unimplemented!() }
#[verifier::external_body] pub fn meet(a: H256, b: H256) -> (r: H256) ensures r == meeting(a, b) { unimplemented!() }
#[verifier::external_body] pub fn same(a: H256, b: H256) -> (r: bool) ensures r == (a == b) { unimplemented!() }
#[verifier::external_body] pub fn never() -> (r: ConsensusConfigFlag) requires false { unimplemented!() }
#[verifier::external_body] pub fn be16(n: u16) -> (r: Vec<u8>) ensures r@ == seq![(n / 256) as u8, (n % 256) as u8] { unimplemented!() }
#[verifier::external_body] pub fn of_be16(b: [u8; 2]) -> (r: u16) ensures r == b[0] as int * 256 + b[1] as int { unimplemented!() }
#[verifier::external_body] pub fn tail_from(v: &Vec<u8>, n: usize) -> (r: &[u8]) requires n <= v@.len() ensures r@ == v@.skip(n as int) { unimplemented!() }
#[verifier::external_body] pub fn append_all(v: &mut Vec<u8>, w: Vec<u8>) ensures final(v)@ == old(v)@ + w@ { unimplemented!() }
#[verifier::external_body] pub fn upgrade_result(r: StoreResult<ConsensusConfigV0>) -> (s: StoreResult<ConsensusConfig>) ensures r matches Ok(x) ==> s == Ok::<ConsensusConfig, StoreError>(upgraded(x)), r is Err ==> s is Err { unimplemented!() }
/// the stored bytes of a configuration under given flags
pub open spec fn config_bytes(flags: H256, c: ConsensusConfig) -> Seq<u8> {
    if meeting(flags, andromeda()) == andromeda() { seq![0u8, 1u8] + ser(flat(c.item())) } else { seq![0u8, 0u8] + ser(flat(downgraded(c).item())) }
}
//@fn core/executor/src/system_contract/metadata/store.rs :: fn encode_consensus_config
//@ ret r
//@ sub /Into::<ConsensusConfigV0>::into\((\w+)\)\.encode\(\)/ => /ConsensusConfigV0::from(\1).encode_record()/
//@ sub /config\.encode\(\)/ => /config.encode_record()/
//@ sub /\((\w+) as u16\)\.to_be_bytes\(\)\.to_vec\(\)/ => /be16(\1.as_num() as u16)/
//@ sub /(\w+)\.extend\((\w+)\.to_vec\(\)\)/ => /append_all(&mut \1, \2)/
//@ sub /ProtocolResult</ => /StoreResult</
//@ spec
    ensures r matches Ok(b) ==> b@ =~= config_bytes(current_hardfork, config),
//@end
//@fn core/executor/src/system_contract/metadata/store.rs :: fn decode_consensus_config
//@ ret r
//@ sub /u16::from_be_bytes\((\w+)\)/ => /of_be16(\1)/
//@ sub /&raw\[2\.\.\]/ => /tail_from(&raw, 2)/
//@ sub /ConsensusConfigV0::decode\(([^;{}]*?)\)\.map\((?:Into::into|ConsensusConfig::from)\)/ => /upgrade_result(ConsensusConfigV0::decode_record(\1))/
//@ sub /ConsensusConfig::decode\(/ => /ConsensusConfig::decode_record(/
//@ sub /ProtocolResult</ => /StoreResult</
//@ spec
    requires raw@.len() >= 2, raw@[0] == 0, raw@[1] <= 1,
    ensures forall|f: H256, c: ConsensusConfig| raw@ == #[trigger] config_bytes(f, c) ==> r == Ok::<ConsensusConfig, StoreError>(if meeting(f, andromeda()) == andromeda() { c } else { ConsensusConfig { max_contract_limit: 0x6000, ..c } }),
//@ start
    proof {
        assert forall|f: H256, c: ConsensusConfig| true implies #[trigger] config_bytes(f, c).skip(2) =~= (if meeting(f, andromeda()) == andromeda() { ser(flat(c.item())) } else { ser(flat(downgraded(c).item())) }) && config_bytes(f, c)[1] == (if meeting(f, andromeda()) == andromeda() { 1u8 } else { 0u8 }) by { }
        assert forall|c: ConsensusConfig| #[trigger] ConsensusConfig::of(c.item()) == c && ConsensusConfig::fits(c.item()) by { ConsensusConfig::law(c); }
        assert forall|c: ConsensusConfigV0| #[trigger] ConsensusConfigV0::of(c.item()) == c && ConsensusConfigV0::fits(c.item()) by { ConsensusConfigV0::law(c); }
    }
//@end
}
}
fn main() {}
