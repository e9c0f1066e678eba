//@include head.rs
pub mod sh {
use super::*;
//@include num.rs
//@include bytes.rs
//@include str.rs
pub enum TypesError { HexPrefix, FromHex, InvalidCheckSum, LengthMismatch { expect: usize, real_: usize }, InvalidPublicKey }
pub enum ProtocolError { Types(TypesError), Consensus(super::ConsensusError), System(super::SystemScriptError) }
impl FromSpecImpl<TypesError> for ProtocolError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(x: TypesError) -> ProtocolError { ProtocolError::Types(x) } }
impl From<TypesError> for ProtocolError { fn from(x: TypesError) -> ProtocolError { ProtocolError::Types(x) } }
pub type ProtocolResult<T> = Result<T, ProtocolError>;
}
use sh::*;
impl AsBytes for H256 { open spec fn bytes(&self) -> Seq<u8> { self@ } }
impl AsBytes for H160 { open spec fn bytes(&self) -> Seq<u8> { self@ } }
broadcast use {num_axioms, bytes_axioms, str_axioms};
// C02: no text makes the hexadecimal and address parsers panic.
//@item protocol/src/types/primitive.rs :: const HEX_PREFIX
//@ sub /&str/ => /&'static str/ 1
//@end
//@item protocol/src/types/primitive.rs :: const ADDRESS_LEN
//@end
/// 0x
pub open spec fn p0x() -> Seq<u8> { seq![48u8, 120u8] }
proof fn lit0x() ensures lit("0x") == p0x(), lit("0X") == seq![48u8, 88u8], lit(HEX_PREFIX) == p0x()
{ reveal_strlit("0x"); reveal_strlit("0X"); assert(lit("0x") =~= p0x()); assert(lit("0X") =~= seq![48u8, 88u8]); }
pub open spec fn body(s: Seq<u8>) -> Seq<u8> { if starts(s, p0x()) { s.skip(2) } else { s } }

//@fn protocol/src/codec/mod.rs :: fn hex_encode
//@ ret r
//@ sub /<T: AsRef<\[u8\]>>/ => /<T: AsBytes>/ 1
//@ sub /-> String/ => /-> Str/ 1
//@ sub /faster_hex::hex_string\(src\.as_ref\(\)\)/ => /faster_hex_string(as_slice(src).as_slice())/ 1
//@ spec
    ensures r@ == tohex(src.bytes()),
//@end
#[verifier::external_body] pub fn as_slice<T: AsBytes>(s: T) -> (r: Vec<u8>) ensures r@ == s.bytes() { unimplemented!() }
#[verifier::external_body] pub fn zeros(n: usize) -> (r: Vec<u8>) ensures r@.len() == n { unimplemented!() }
//@fn protocol/src/codec/mod.rs :: fn hex_decode
//@ ret r
//@ sub /&str/ => /&Str/
//@ sub /vec!\[0u8; (.*?)\];/ => /zeros(\1);/
//@ sub /faster_hex::hex_decode\((.*?)\)\.map_err\(TypesError::FromHex\)/ => /faster_hex_decode(\1)/ 1
//@ spec
    ensures r is Ok == all_hex(body(src@)), r matches Ok(v) ==> v@ == unhex(body(src@)),
//@ start
    proof { lit0x(); assert forall|s: Seq<u8>| #[trigger] starts(s, p0x()) implies s[0] == 48 && s[1] == 120 by { assert(s[0] == s.subrange(0, 2)[0]); assert(s[1] == s.subrange(0, 2)[1]); }
        if src@.len() == 0 { assert(unhex(src@) =~= Seq::empty()); }
        assert forall|a: Seq<u8>, b: Seq<u8>| b.len() == 0 implies #[trigger] (a + b) == a by { assert(a + b =~= a); } }
//@end
//@item protocol/src/types/primitive.rs :: struct Hex
//@ sub /Hex\(Bytes\)/ => /Hex(pub Bytes)/ 1
//@end
impl Hex {
//@fn protocol/src/types/primitive.rs :: impl Hex/fn encode
//@ ret r
//@ sub /<T: AsRef<\[u8\]>>/ => /<T: AsBytes>/ 1
//@ sub /BytesMut::from\(src\.as_ref\(\)\)\.freeze\(\)/ => /copied(src)/
//@ spec
    ensures r.0@ == src.bytes(),
//@end
//@fn protocol/src/types/primitive.rs :: impl Hex/fn len
//@ ret r
//@ spec
    ensures r == self.0@.len(),
//@end
//@fn protocol/src/types/primitive.rs :: impl Hex/fn is_empty
//@ ret r
//@ spec
    ensures r == (self.0@.len() == 0),
//@end
//@fn protocol/src/types/primitive.rs :: impl Hex/fn as_bytes
//@ ret r
//@ spec
    ensures r@ == self.0@,
//@end
//@fn protocol/src/types/primitive.rs :: impl AsRef<[u8]> for Hex/fn as_ref
//@ ret r
//@ spec
    ensures r@ == self.0@,
//@end
//@fn protocol/src/types/primitive.rs :: impl Hex/fn as_string
//@ ret r
//@ sub /-> String/ => /-> Str/ 1
//@ sub /HEX_PREFIX\.to_string\(\) \+ ([^\n]*)/ => /concat(str_from(HEX_PREFIX), \1)/ 1
//@ spec
    ensures r@ == p0x() + tohex(self.0@),
//@ start
    proof { lit0x(); }
//@end
//@fn protocol/src/types/primitive.rs :: impl Hex/fn as_string_trim0x
//@ ret r
//@ sub /-> String/ => /-> Str/ 1
//@ spec
    ensures r@ == tohex(self.0@),
//@end
//@fn protocol/src/types/primitive.rs :: impl Hex/fn is_prefixed
//@ ret r
//@ sub /&str/ => /&Str/
//@ spec
    ensures r == starts(s@, p0x()),
//@ start
    proof { lit0x(); }
//@end
//@fn protocol/src/types/primitive.rs :: impl FromStr for Hex/fn from_str
//@ ret r
//@ sub /&str/ => /&Str/
//@ sub /Self::Err>/ => /ProtocolError>/ 1
//@ sub /&s\[2\.\.\]/ => /s.split_at(2).1/
//@ spec
//@ start
    proof { assert forall|s: Seq<u8>| #[trigger] starts(s, p0x()) implies s[0] == 48 && s[1] == 120 by { assert(s[0] == s.subrange(0, 2)[0]); assert(s[1] == s.subrange(0, 2)[1]); } }
//@end
}
#[verifier::external_body] pub fn copied<T: AsBytes>(s: T) -> (r: Bytes) ensures r@ == s.bytes() { unimplemented!() }
//@item protocol/src/types/primitive.rs :: struct Address
//@end
//@fn protocol/src/types/primitive.rs :: fn ensure_len
//@ ret r
//@ sub /\breal\b/ => /real_/
//@ spec
    ensures r is Ok ==> real_ == expect,
//@end
//@fn protocol/src/types/primitive.rs :: fn clean_0x
//@ ret r
//@ sub /&str/ => /&Str/
//@ sub /&s\[2\.\.\]/ => /s.split_at(2).1/
//@ spec
    ensures r is Ok == (starts(s@, p0x()) || starts(s@, seq![48u8, 88u8])), r matches Ok(t) ==> t@ == s@.skip(2),
//@ start
    proof { lit0x(); assert forall|s: Seq<u8>, p: Seq<u8>| p.len() == 2 && #[trigger] starts(s, p) implies s[0] == p[0] && s[1] == p[1] by { assert(s[0] == s.subrange(0, 2)[0]); assert(s[1] == s.subrange(0, 2)[1]); } }
//@end
/// the checksum spelling of lower-case text
pub open spec fn cs(t: Seq<u8>) -> Seq<u8> { p0x() + Seq::new(t.len(), |i: int| cs_at(t, i)) }
pub open spec fn cs_at(t: Seq<u8>, i: int) -> u8 { if hexval(tohex(keccak(t)@)[i]) > 7 { upc(t[i]) } else { t[i] } }
pub open spec fn cs_body(s: Seq<u8>) -> Seq<u8> { lower(trimx(s, p0x())) }
//@fn protocol/src/types/primitive.rs :: fn checksum
//@ ret r
//@ sub /&str/ => /&Str/
//@ sub /-> String/ => /-> Str/ 1
//@ sub /String::from/ => /str_from/
//@ sub /u16::from_str_radix\(&(\w+)\[(\w+)\.\.(.*?)\], 16\)\.unwrap\(\)/ => /u16_of_hex_digit(\1.cut(\2, \3))/ 1
//@ sub /(\w+)\.to_uppercase\(\)\.to_string\(\)/ => /char_upper(\1)/ 1
//@ fold
//@ spec
    requires ascii(cs_body(address@)), cs_body(address@).len() <= 64,
    ensures r@ == cs(cs_body(address@)),
//@ start
    proof { lit0x(); }
//@ loop 0 it
    invariant ascii(address@), address@.len() <= 64, address_hash@ == tohex(keccak(address@)@), it.seq().len() == address@.len(),
        forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i]).0 == i && it.seq()[i].1 as u32 == address@[i] as u32,
        acc@ == p0x() + Seq::new(it.index@ as nat, |i: int| cs_at(address@, i)),
//@ loopstart 0
    proof { hex_round(keccak(address@)@); assert(tohex(keccak(address@)@).len() == 64); assert(p0x() + Seq::new((it.index@ + 1) as nat, |i: int| cs_at(address@, i)) =~= (p0x() + Seq::new(it.index@ as nat, |i: int| cs_at(address@, i))).push(cs_at(address@, it.index@ as int))); }
//@end
impl Address {
//@fn protocol/src/types/primitive.rs :: impl Address/fn from_hash
//@ ret r
//@ sub /&hash\.as_bytes\(\)\[(\w+)\.\.\]/ => /slice_subrange(hash.as_bytes(), \1, 32)/
//@ spec
    ensures r.0@ == hash@.skip(12),
//@end
//@fn protocol/src/types/primitive.rs :: impl Address/fn from_bytes
//@ ret r
//@ sub /&bytes\.as_ref\(\)\[(\w+)\.\.(\w+)\]/ => /slice_subrange(bytes.as_ref(), \1, \2)/
//@ spec
    ensures r is Ok ==> bytes@.len() == 20,
//@end
//@fn protocol/src/types/primitive.rs :: impl Address/fn as_slice
//@ ret r
//@ spec
    ensures r@ == self.0@,
//@end
//@fn protocol/src/types/primitive.rs :: impl Address/fn from_hex
//@ ret r
//@ sub /&str/ => /&Str/
//@ spec
    ensures r is Ok ==> addr_text(s@),
//@ start
    proof { assert forall|s: Seq<u8>| all_hex(s) implies !#[trigger] starts(s, p0x()) by { if starts(s, p0x()) { assert(s[1] == s.subrange(0, 2)[1]); } } }
//@end
//@fn protocol/src/types/primitive.rs :: impl FromStr for Address/fn from_str
//@ ret r
//@ sub /&str/ => /&Str/
//@ sub /Self::Err>/ => /ProtocolError>/ 1
//@ sub /checksum\(s\) != s\b/ => /!same_text(&checksum(s), s)/ 1
//@ spec
//@ start
    proof { if addr_text(lower(s@)) { lower_addr(s@); } }
//@end
//@fn protocol/src/types/primitive.rs :: impl fmt::Display for Address/fn fmt
//@ ret r
//@ sub /fmt::Formatter\b/ => /Formatter/ 1
//@ sub /fmt::Result\b/ => /Result<(), FmtError>/ 1
//@ sub /hex_encode\(self\.0\)/ => /hex_encode(self.0.as_bytes())/
//@ spec
    ensures r is Ok, final(f)@ == old(f)@ + cs(tohex(self.0@)),
//@ start
    proof { printed(self.0@); }
//@end
//@fn protocol/src/types/primitive.rs :: impl fmt::Debug for Address/fn fmt
//@ sub /fn fmt\(/ => /fn fmt_debug(/ 1
//@ ret r
//@ sub /fmt::Formatter\b/ => /Formatter/ 1
//@ sub /fmt::Result\b/ => /Result<(), FmtError>/ 1
//@ sub /hex_encode\(self\.0\)/ => /hex_encode(self.0.as_bytes())/
//@ spec
    ensures r is Ok, final(f)@ == old(f)@ + cs(tohex(self.0@)),
//@ start
    proof { printed(self.0@); }
//@end
}
// 256-bit keys
pub struct Key256Bits { pub k: [u8; 32] }
impl Key256Bits { #[verifier::external_body] pub fn from(v: [u8; 32]) -> (r: Key256Bits) ensures r.k == v { unimplemented!() } }
#[verifier::external_body] pub fn err_text() -> Str { unimplemented!() }
#[verifier::external_body] pub fn faster_hex_decode_32(s: &[u8], d: &mut [u8; 32]) -> (r: Result<(), TypesError>)
    ensures r is Ok == (all_hex(s@) && 32 >= s@.len() / 2), r is Ok ==> final(d)@ == unhex(s@) + old(d)@.skip(s@.len() as int / 2) { unimplemented!() }
//@fn protocol/src/codec/mod.rs :: fn decode_256bits_key
//@ ret r
//@ sub /&str/ => /&Str/
//@ sub /, String>/ => /, Str>/ 1
//@ sub /format!\([^()]*(?:\([^()]*\)[^()]*)*\)/ => /err_text()/
//@ sub /"failed[^"]*"/ => /err_text()/
//@ sub /err\.to_owned\(\)/ => /err/
//@ sub /&s\.as_bytes\(\)\[2\.\.\]/ => /slice_subrange(s.as_bytes(), 2, s.len())/ 1
//@ sub /faster_hex::hex_decode/ => /faster_hex_decode_32/ 1
//@ closure 0
 -> (q: Key256Bits) ensures q.k == v
//@ spec
//@ start
    proof { lit0x(); assert forall|a: Seq<u8>, b: Seq<u8>| b.len() == 0 implies #[trigger] (a + b) == a by { assert(a + b =~= a); } assert(s@.len() == 66 ==> s@.subrange(2, 66) =~= s@.skip(2)); }
//@end
pub open spec fn addr_text_len(s: Seq<u8>, n: nat) -> bool { (starts(s, p0x()) || starts(s, seq![48u8, 88u8])) && s.len() == n && all_hex(s.skip(2)) }
/// what Address::from_hex accepts
pub open spec fn addr_text(s: Seq<u8>) -> bool { (starts(s, p0x()) || starts(s, seq![48u8, 88u8])) && s.len() == 42 && all_hex(s.skip(2)) }
proof fn printed(a: Seq<u8>) requires a.len() == 20 ensures trimx(tohex(a), p0x()) == tohex(a), cs_body(tohex(a)) == tohex(a), ascii(cs_body(tohex(a)))
{ hex_round(a); assert(!starts(tohex(a), p0x())) by { if starts(tohex(a), p0x()) { assert(tohex(a)[1] == tohex(a).subrange(0, 2)[1]); } } }
proof fn lower_addr(s: Seq<u8>) requires addr_text(lower(s)) ensures ascii(s), lower(s) == lows(s), s.len() == 42, cs_body(s).len() <= 64, ascii(cs_body(s))
{
    let l = lower(s);
    assert(l[0] == l.subrange(0, 2)[0] && l[1] == l.subrange(0, 2)[1]);
    lower_no_upper(s);
    assert forall|i: int| 0 <= i < l.len() implies is_hex(#[trigger] l[i]) || l[i] == 120 by { if i >= 2 { assert(l[i] == l.skip(2)[i - 2]); } }
    assert(ascii(s));
    trim_ascii(s);
}
/// lower-case text has no upper-case ASCII letter
axiom fn lower_no_upper(s: Seq<u8>) ensures forall|i: int| 0 <= i < lower(s).len() ==> !(65 <= #[trigger] lower(s)[i] <= 90);
proof fn trim_ascii(s: Seq<u8>) requires ascii(s) ensures ascii(trimx(s, p0x())), trimx(s, p0x()).len() <= s.len(), ascii(lower(trimx(s, p0x()))), lower(trimx(s, p0x())).len() == trimx(s, p0x()).len() decreases s.len()
{ if starts(s, p0x()) { assert(ascii(s.skip(2))); trim_ascii(s.skip(2)); } }


// sync responses: a payload followed by one byte saying which it is
pub struct ConsensusErr;
pub enum ConsensusType { RpcPullTxs, RpcResponse }
pub enum ConsensusError { DecodeErr(ConsensusType) }
impl FromSpecImpl<ConsensusError> for ProtocolError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(x: ConsensusError) -> ProtocolError { ProtocolError::Consensus(x) } }
impl From<ConsensusError> for ProtocolError { fn from(x: ConsensusError) -> ProtocolError { ProtocolError::Consensus(x) } }
#[verifier::external_body] pub struct Block { x: u8 }
impl Block { #[verifier::external_body] pub fn decode(b: Bytes) -> (r: ProtocolResult<Block>) { unimplemented!() } }
#[verifier::external_body] pub struct BatchSignedTxs { x: u8 }
impl BatchSignedTxs { #[verifier::external_body] pub fn decode_msg(b: Bytes) -> (r: ProtocolResult<BatchSignedTxs>) { unimplemented!() } }
impl Bytes {
    /// panics past the end
    #[verifier::external_body] pub fn split_off(&mut self, at: usize) -> (r: Bytes) requires at <= old(self)@.len() ensures final(self)@ == old(self)@.take(at as int), r@ == old(self)@.skip(at as int) { unimplemented!() }
}
/// the byte a one-byte string is
#[verifier::external_body] pub fn one_byte(b: &Bytes) -> (r: Option<u8>) ensures r == (if b@.len() == 1 { Some(b@[0]) } else { None::<u8> }) { unimplemented!() }
//@item core/consensus/src/types.rs :: enum ConsensusRpcResponse
//@end
impl ConsensusRpcResponse {
//@fn core/consensus/src/types.rs :: impl MessageCodec for ConsensusRpcResponse/fn decode_msg
//@ ret r
//@ sub /match flag\.as_ref\(\)/ => /match one_byte(&flag)/
//@ sub /b"(.)"/ => /Some(b'\1')/
//@end
}
// a key of an image cell
pub enum SystemScriptError { DataLengthMismatch { expect: usize, actual: usize } }
impl FromSpecImpl<SystemScriptError> for ProtocolError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(x: SystemScriptError) -> ProtocolError { ProtocolError::System(x) } }
impl From<SystemScriptError> for ProtocolError { fn from(x: SystemScriptError) -> ProtocolError { ProtocolError::System(x) } }
#[verifier::external_body] pub fn le32(b: [u8; 4]) -> u32 { unimplemented!() }
#[verifier::external_body] pub fn copy4(d: &mut [u8; 4], s: &[u8]) requires s@.len() == 4 { unimplemented!() }
pub struct CellKey { pub tx_hash: H256, pub index: u32 }
impl CellKey {
//@item core/executor/src/system_contract/image_cell/store.rs :: impl CellKey/const ENCODED_LEN
//@end
//@fn core/executor/src/system_contract/image_cell/store.rs :: impl CellKey/fn decode
//@ ret r
//@ sub /&input\[(\d+)\.\.(\d+)\]/ => /slice_subrange(input, \1, \2)/
//@ sub /buf\.copy_from_slice\(/ => /copy4(&mut buf, /
//@ sub /u32::from_le_bytes/ => /le32/
//@end
}
}
fn main() {}
