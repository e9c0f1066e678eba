//@include head.rs
pub mod sh {
use super::*;
//@include num.rs
//@include bytes.rs
//@include str.rs
pub enum TypesError { FromHex }
pub enum Error { InvalidProofBlockHash, NotEnoughSignatures, VerifyMptProof, HexPrefix, Hex(TypesError) }
impl FromSpecImpl<TypesError> for Error { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(x: TypesError) -> Error { Error::Hex(x) } }
impl From<TypesError> for Error { fn from(x: TypesError) -> Error { Error::Hex(x) } }
//@include uint.rs
/// what a deserializer holds: a string, or something else
pub trait Des: Sized { type Error; spec fn text(self) -> Option<Seq<u8>>; }
#[verifier::external_body] pub fn read_string<D: Des>(d: D) -> (r: Result<Str, D::Error>) ensures r is Ok == d.text() is Some, r matches Ok(s) ==> s@ == d.text()->0 { unimplemented!() }
#[verifier::external_body] pub fn custom_error<T, E>(t: T) -> E { unimplemented!() }
#[verifier::external_body] pub fn text_is(s: &Str, t: &str) -> (r: bool) ensures r == (s@ == lit(t)) { unimplemented!() }
pub open spec fn hex_digits(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> is_hex(#[trigger] s[i]) }
pub open spec fn hexnum(s: Seq<u8>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { hexnum(s.drop_last()) * 16 + hexval(s.last()) as nat } }
#[verifier::external_body] pub fn all_hex_digits(s: &Str) -> (r: bool) ensures r == hex_digits(s@) { unimplemented!() }
/// u8::from_str_radix(&s[i..j], 16), of one or two hexadecimal digits
#[verifier::external_body] pub fn u8_of_hex(s: &Str, i: usize, j: usize) -> (r: Result<u8, &'static str>) requires i <= j <= s@.len(), hex_digits(s@)
    ensures 1 <= j - i <= 2 ==> (r matches Ok(v) && v as nat == hexnum(s@.subrange(i as int, j as int))) { unimplemented!() }
/// the number of values of (a..b).step_by(k)
#[verifier::external_body] pub fn steps(a: usize, b: usize, k: usize) -> (r: usize) requires k > 0 ensures a <= b ==> r == (b - a + k - 1) / k as int, a > b ==> r == 0 { unimplemented!() }
impl U256 { #[verifier::external_body] pub fn from_big_endian(b: &Vec<u8>) -> (r: U256) requires b@.len() <= 32 ensures r@ == be(b@) { unimplemented!() } }
pub trait Fits: Sized { spec fn top() -> nat; spec fn num(self) -> nat; }
impl Fits for u32 { open spec fn top() -> nat { 0xffff_ffff } open spec fn num(self) -> nat { self as nat } }
impl Fits for u64 { open spec fn top() -> nat { 0xffff_ffff_ffff_ffff } open spec fn num(self) -> nat { self as nat } }
#[verifier::external_body] pub fn try_num<T: Fits>(v: U256) -> (r: Result<T, &'static str>) ensures r is Ok == (v@ <= T::top()), r matches Ok(x) ==> x.num() == v@ { unimplemented!() }
}
use sh::*;
impl AsBytes for H256 { open spec fn bytes(&self) -> Seq<u8> { self@ } }
impl AsBytes for H160 { open spec fn bytes(&self) -> Seq<u8> { self@ } }
broadcast use {num_axioms, bytes_axioms, str_axioms};
// C33: what the node prints as JSON is what the light-client library reads.
//@item devtools/axon-tools/src/types.rs :: const HEX_PREFIX
//@ sub /&str/ => /&'static str/ 1
//@end
/// 0x
pub open spec fn p0x() -> Seq<u8> { seq![48u8, 120u8] }
proof fn lit0x() ensures lit("0x") == p0x(), lit("0X") == seq![48u8, 88u8], lit(HEX_PREFIX) == p0x()
{ reveal_strlit("0x"); reveal_strlit("0X"); assert(lit("0x") =~= p0x()); assert(lit("0X") =~= seq![48u8, 88u8]); }
pub open spec fn body(s: Seq<u8>) -> Seq<u8> { if starts(s, p0x()) { s.skip(2) } else { s } }

//@fn devtools/axon-tools/src/hex.rs :: fn hex_encode
//@ ret r
//@ sub /<T: AsRef<\[u8\]>>/ => /<T: AsBytes>/ 1
//@ sub /-> String/ => /-> Str/ 1
//@ sub /faster_hex::hex_string\(src\.as_ref\(\)\)/ => /faster_hex_string(as_slice(src).as_slice())/ 1
//@ spec
    ensures r@ == tohex(src.bytes()),
//@end
#[verifier::external_body] pub fn as_slice<T: AsBytes>(s: T) -> (r: Vec<u8>) ensures r@ == s.bytes() { unimplemented!() }
#[verifier::external_body] pub fn zeros(n: usize) -> (r: Vec<u8>) ensures r@.len() == n { unimplemented!() }
//@fn devtools/axon-tools/src/hex.rs :: fn hex_decode
//@ ret r
//@ sub /&str/ => /&Str/
//@ sub /vec!\[0u8; (.*?)\];/ => /zeros(\1);/
//@ sub /faster_hex::hex_decode\((.*?)\)/ => /faster_hex_decode(\1)/ 1
//@ spec
    ensures r is Ok == all_hex(body(src@)), r matches Ok(v) ==> v@ == unhex(body(src@)),
//@ start
    proof { lit0x(); assert forall|s: Seq<u8>| #[trigger] starts(s, p0x()) implies s[0] == 48 && s[1] == 120 by { assert(s[0] == s.subrange(0, 2)[0]); assert(s[1] == s.subrange(0, 2)[1]); }
        if src@.len() == 0 { assert(unhex(src@) =~= Seq::empty()); }
        assert forall|a: Seq<u8>, b: Seq<u8>| b.len() == 0 implies #[trigger] (a + b) == a by { assert(a + b =~= a); } }
//@end
//@item devtools/axon-tools/src/types.rs :: struct Hex
//@ sub /Hex\(Bytes\)/ => /Hex(pub Bytes)/ 1
//@end
impl Hex {
//@fn devtools/axon-tools/src/types.rs :: impl Hex/fn encode
//@ ret r
//@ sub /<T: AsRef<\[u8\]>>/ => /<T: AsBytes>/ 1
//@ sub /BytesMut::from\(src\.as_ref\(\)\)\.freeze\(\)/ => /copied(src)/
//@ spec
    ensures r.0@ == src.bytes(),
//@end
//@fn devtools/axon-tools/src/types.rs :: impl Hex/fn len
//@ ret r
//@ spec
    ensures r == self.0@.len(),
//@end
//@fn devtools/axon-tools/src/types.rs :: impl Hex/fn is_empty
//@ ret r
//@ spec
    ensures r == (self.0@.len() == 0),
//@end
//@fn devtools/axon-tools/src/types.rs :: impl Hex/fn as_bytes
//@ ret r
//@ spec
    ensures r@ == self.0@,
//@end
//@fn devtools/axon-tools/src/types.rs :: impl AsRef<[u8]> for Hex/fn as_ref
//@ ret r
//@ spec
    ensures r@ == self.0@,
//@end
//@fn devtools/axon-tools/src/types.rs :: impl Hex/fn as_string
//@ ret r
//@ sub /-> String/ => /-> Str/ 1
//@ sub /String::from\(HEX_PREFIX\) \+ ([^\n]*)/ => /concat(str_from(HEX_PREFIX), \1)/ 1
//@ spec
    ensures r@ == p0x() + tohex(self.0@),
//@ start
    proof { lit0x(); }
//@end
//@fn devtools/axon-tools/src/types.rs :: impl Hex/fn as_string_trim0x
//@ ret r
//@ sub /-> String/ => /-> Str/ 1
//@ spec
    ensures r@ == tohex(self.0@),
//@end
//@fn devtools/axon-tools/src/types.rs :: impl Hex/fn is_prefixed
//@ ret r
//@ sub /&str/ => /&Str/
//@ spec
    ensures r == starts(s@, p0x()),
//@ start
    proof { lit0x(); }
//@end
//@fn devtools/axon-tools/src/types.rs :: impl FromStr for Hex/fn from_str
//@ ret r
//@ sub /&str/ => /&Str/
//@ sub /Self::Err>/ => /Error>/ 1
//@ sub /crate::Error::/ => /Error::/
//@ sub /&s\[2\.\.\]/ => /s.split_at(2).1/
//@ spec
    ensures r is Ok == (starts(s@, p0x()) && all_hex(s@.skip(2))), r matches Ok(h) ==> h.0@ == unhex(s@.skip(2)),
//@ start
    proof { assert forall|s: Seq<u8>| #[trigger] starts(s, p0x()) implies s[0] == 48 && s[1] == 120 by { assert(s[0] == s.subrange(0, 2)[0]); assert(s[1] == s.subrange(0, 2)[1]); } }
//@end
}
#[verifier::external_body] pub fn copied<T: AsBytes>(s: T) -> (r: Bytes) ensures r@ == s.bytes() { unimplemented!() }

// numbers
//@include uint_node.rs
/// the number a text spells, if the library takes it
pub open spec fn number_of(t: Seq<u8>) -> Option<nat> { if starts(t, p0x()) && hex_digits(t.skip(2)) && t.len() <= 66 { Some(hexnum(t.skip(2))) } else { None } }
proof fn push_two(s: Seq<u8>, b: Seq<u8>, v: u8, i: int)
    requires 0 <= i, i + 2 <= s.len(), be(b) == hexnum(s.take(i)), v as nat == hexnum(s.subrange(i, i + 2)), hex_digits(s)
    ensures be(b.push(v)) == hexnum(s.take(i + 2))
{
    reveal_with_fuel(hexnum, 3);
    let t = s.take(i + 2);
    assert(t.drop_last() =~= s.take(i + 1));
    assert(s.take(i + 1).drop_last() =~= s.take(i));
    let u = s.subrange(i, i + 2);
    assert(u.drop_last() =~= seq![s[i]]); assert(u.drop_last().drop_last() =~= Seq::<u8>::empty());
    assert(b.push(v).drop_last() =~= b);
    assert(hexnum(u) == hexval(s[i]) * 16 + hexval(s[i + 1]));
    assert(hexnum(t) == (hexnum(s.take(i)) * 16 + hexval(s[i]) as nat) * 16 + hexval(s[i + 1]) as nat);
}
//@fn devtools/axon-tools/src/types.rs :: mod decode/fn from_hex
//@ ret r
//@ sub /hex: &str/ => /hex: &Str/ 1
//@ sub /hex\.bytes\(\)\.all\(\|b\| b\.is_ascii_hexdigit\(\)\)/ => /all_hex_digits(hex)/ 1
//@ sub /u8::from_str_radix\(&hex\[(.*?)\.\.(.*?)\], 16\)\.map_err\(\|\w+\| "[^"]*"\)/ => /u8_of_hex(hex, \1, \2)/
//@ sub /for (\w+) in \((\w+)\.\.(\w+)\.len\(\)\)\.step_by\((\d+)\) \{/ => /for k_ in 0..steps(\2, \3.len(), \4) { let \1 = \2 + \4 * k_;/ 1
//@ sub /Vec::with_capacity\((.*?)\);/ => /Vec::new();/ 1
//@ spec
    requires hex@.len() < usize::MAX,
    ensures r is Ok == hex_digits(hex@), r matches Ok(v) ==> be(v@) == hexnum(hex@) && v@.len() == (hex@.len() + 1) / 2,
//@ loopbefore 0
    proof {
        reveal_with_fuel(hexnum, 2);
        assert(hex@.take(0) =~= Seq::<u8>::empty());
        if hex@.len() % 2 != 0 { assert(hex@.subrange(0, 1) =~= hex@.take(1)); assert(bytes@.drop_last() =~= Seq::<u8>::empty()); assert(be(bytes@) == bytes@[0] as nat) by { reveal_with_fuel(be, 2); } }
        assert(be(bytes@) == hexnum(hex@.take(start_i as int)));
    }
//@ loop 0 it
    invariant hex_digits(hex@), start_i == hex@.len() % 2, it.seq().len() == (hex@.len() - start_i) / 2, forall|i: int| 0 <= i < it.seq().len() ==> #[trigger] it.seq()[i] == i,
        bytes@.len() == start_i + it.index@, be(bytes@) == hexnum(hex@.take(start_i + 2 * it.index@)), hex@.len() < usize::MAX,
//@ loopstart 0
    let ghost b0 = bytes@; let ghost at = start_i + 2 * k_;
    proof { assert(at + 2 <= hex@.len()); }
//@ loopend 0
    proof { push_two(hex@, b0, bytes@.last(), at); assert(bytes@ =~= b0.push(bytes@.last())); }
//@ loopafter 0
    proof { assert(hex@.take(hex@.len() as int) =~= hex@); }
//@end
proof fn zero_read() ensures number_of(seq![48u8, 120u8, 48u8]) == Some(0nat)
{ let t = seq![48u8, 120u8, 48u8]; assert(t.subrange(0, 2) =~= p0x()); assert(t.skip(2) =~= seq![48u8]); reveal_with_fuel(hexnum, 2); assert(t.skip(2).drop_last() =~= Seq::<u8>::empty()); }
//@fn devtools/axon-tools/src/types.rs :: mod decode/fn deserialize_hex_u64
//@ ret r
//@ sub /<'de, D>/ => /<D: Des>/ 1
//@ sub /where\s*D: Deserializer<'de>,/ => // 1
//@ sub /String::deserialize\(deserializer\)/ => /read_string(deserializer)/ 1
//@ sub /s == ("[^"]*")/ => /text_is(&s, \1)/
//@ sub /\.map_err\(serde::de::Error::custom\)/ => /.map_err(|e| custom_error(e))/
//@ sub /serde::de::Error::custom\(/ => /custom_error(/
//@ sub /val\.try_into\(\)/ => /try_num(val)/ 1
//@ spec
    requires deserializer.text() matches Some(t) ==> t.len() < usize::MAX,
    ensures match deserializer.text() {
        None => r is Err,
        Some(t) => match number_of(t) { Some(n) if n <= u64::MAX => r matches Ok(x) && x as nat == n, _ => r is Err },
    },
//@ start
    proof { lit0x(); lits(); zero_read(); }
//@end
//@fn devtools/axon-tools/src/types.rs :: mod decode/fn deserialize_hex_u32
//@ ret r
//@ sub /<'de, D>/ => /<D: Des>/ 1
//@ sub /where\s*D: Deserializer<'de>,/ => // 1
//@ sub /String::deserialize\(deserializer\)/ => /read_string(deserializer)/ 1
//@ sub /s == ("[^"]*")/ => /text_is(&s, \1)/
//@ sub /\.map_err\(serde::de::Error::custom\)/ => /.map_err(|e| custom_error(e))/
//@ sub /serde::de::Error::custom\(/ => /custom_error(/
//@ sub /val\.try_into\(\)/ => /try_num(val)/ 1
//@ spec
    requires deserializer.text() matches Some(t) ==> t.len() < usize::MAX,
    ensures match deserializer.text() {
        None => r is Err,
        Some(t) => match number_of(t) { Some(n) if n <= u32::MAX => r matches Ok(x) && x as nat == n, _ => r is Err },
    },
//@ start
    proof { lit0x(); lits(); zero_read(); }
//@end

/// what the node prints for a number is what the library reads
proof fn digits_read(n: nat, k: nat) requires n < p16(k), k > 0 ensures hex_digits(digits(n)), hexnum(digits(n)) == n, 0 < digits(n).len() <= k decreases n
{
    reveal_with_fuel(hexnum, 2);
    if n < 16 { assert(digits(n).drop_last() =~= Seq::<u8>::empty()); assert(hexval(hexdig(n as u8)) == n as u8); }
    else {
        assert(k > 1) by { if k == 1 { assert(p16(1) == 16) by { reveal_with_fuel(p16, 2); } } }
        assert(n / 16 < p16((k - 1) as nat)) by (nonlinear_arith) requires n < 16 * p16((k - 1) as nat);
        digits_read(n / 16, (k - 1) as nat);
        let d = (n % 16) as u8;
        assert(hexval(hexdig(d)) == d && is_hex(hexdig(d)));
        assert(digits(n) == digits(n / 16).push(hexdig(d)));
        assert(digits(n).drop_last() =~= digits(n / 16));
    }
}
pub open spec fn p16(k: nat) -> nat decreases k { if k == 0 { 1 } else { 16 * p16((k - 1) as nat) } }
proof fn number_round_trip(n: nat) requires n <= u64::MAX ensures number_of(uint_text(n)) == Some(n)
{
    assert(p16(16) == 0x1_0000_0000_0000_0000) by (compute);
    digits_read(n, 16);
    let t = uint_text(n);
    assert(t == p0x() + digits(n));
    assert(t.skip(2) =~= digits(n));
    assert(t.subrange(0, 2) =~= p0x());
}
/// what the node prints for bytes (0x and their lower-case digits) is what the library's Hex reads
proof fn hex_text_round_trip(b: Seq<u8>, t: Seq<u8>) requires t == p0x() + tohex(b) ensures starts(t, p0x()) && all_hex(t.skip(2)) && unhex(t.skip(2)) == b
{ hex_round(b); assert(t.skip(2) =~= tohex(b)); assert(t.subrange(0, 2) =~= p0x()); }
}
fn main() {}
