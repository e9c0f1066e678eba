pub open spec fn uint_text(n: nat) -> Seq<u8> { seq![48u8, 120u8] + digits(n) }
proof fn zero_text() ensures uint_text(0) == seq![48u8, 120u8, 48u8] { assert(uint_text(0) =~= seq![48u8, 120u8, 48u8]); }
pub mod node { use super::*;
//@item protocol/src/codec/mod.rs :: static CHARS
//@ sub /static CHARS: &\[u8\] = b"(.)(.)(.)(.)(.)(.)(.)(.)(.)(.)(.)(.)(.)(.)(.)(.)"/ => /pub const CHARS: [u8; 16] = [b'\1', b'\2', b'\3', b'\4', b'\5', b'\6', b'\7', b'\8', b'\9', b'\10', b'\11', b'\12', b'\13', b'\14', b'\15', b'\16']/ 1
//@end
proof fn chars() ensures forall|i: int| 0 <= i < 16 ==> #[trigger] CHARS[i] == hexdig(i as u8)
{ assert(forall|i: int| 0 <= i < 16 ==> #[trigger] CHARS[i] == hexdig(i as u8)); }
//@fn protocol/src/codec/mod.rs :: fn to_hex_raw
//@ ret r
//@ sub /v: &'a mut \[u8\]/ => /v: &mut [u8; 66]/ 1
//@ sub /-> &'a str/ => /-> Vec<u8>/ 1
//@ sub /<'a>/ => // 1
//@ sub /unsafe \{ std::str::from_utf8_unchecked\(&v\[0\.\.idx\]\) \}/ => /text_of(v, idx)/ 1
//@ sub /for &byte in bytes\.iter\(\)\.skip\(1\) \{/ => /for at_ in 1..bytes.len() { let byte = bytes[at_];/ 1
//@ spec
    requires 0 < bytes@.len() <= 32,
    ensures r@ == seq![48u8, 120u8] + (if skip_leading_zero { cut_zero(tohex(bytes@)) } else { tohex(bytes@) }),
//@ start
    proof { chars(); hexdig_ascii(); nibbles(bytes@[0]); }
    let ghost full = if skip_leading_zero { cut_zero(tohex(bytes@)) } else { tohex(bytes@) };
    let ghost cut: int = if full.len() < tohex(bytes@).len() { 1 } else { 0 };
//@ loopbefore 0
    proof { assert(tohex(bytes@)[0] == hexdig(bytes@[0] / 16)); assert(tohex(bytes@)[1] == hexdig(bytes@[0] % 16)); assert(v@.take(idx as int) =~= seq![48u8, 120u8] + tohex(bytes@).subrange(cut, 2)); }
//@ loop 0 it
    invariant 0 < bytes@.len() <= 32, idx == 2 * it.index@ + 4 - cut, 0 <= cut <= 1, forall|i: int| 0 <= i < 16 ==> #[trigger] CHARS[i] == hexdig(i as u8),
        forall|i: int| 0 <= i < it.seq().len() ==> #[trigger] it.seq()[i] == i + 1, it.seq().len() == bytes@.len() - 1,
        v@.take(idx as int) == seq![48u8, 120u8] + tohex(bytes@).subrange(cut, 2 * it.index@ + 2),
//@ loopstart 0
    let ghost byte_ = bytes@[at_ as int];
    proof { nibbles(byte_); assert(tohex(bytes@)[2 * at_] == hexdig(byte_ / 16)); assert(tohex(bytes@)[2 * at_ + 1] == hexdig(byte_ % 16)); }
    let ghost v0 = v@; let ghost idx0 = idx;
//@ loopend 0
    proof { assert(v@.take(idx as int) =~= v0.take(idx0 as int).push(hexdig(byte_ / 16)).push(hexdig(byte_ % 16)));
        assert(tohex(bytes@).subrange(cut, 2 * at_ + 2) =~= tohex(bytes@).subrange(cut, 2 * at_ as int).push(hexdig(byte_ / 16)).push(hexdig(byte_ % 16)));
        assert(v@.take(idx as int) =~= seq![48u8, 120u8] + tohex(bytes@).subrange(cut, 2 * at_ + 2)); }
//@ loopafter 0
    proof { assert(tohex(bytes@).subrange(cut, 2 * bytes@.len() as int) =~= full); hex_round(bytes@); assert(ascii(v@.take(idx as int))) by { assert forall|i: int| 0 <= i < idx implies #[trigger] v@.take(idx as int)[i] < 0x80 by { if i >= 2 { assert(v@.take(idx as int)[i] == tohex(bytes@)[i - 2 + cut]); } } } }
//@end
//@fn protocol/src/codec/mod.rs :: fn serialize_uint
//@ ret r
//@ sub /S: Serializer,\s*U: Into<U256> \+ Copy,/ => /S: Serializer, U: Num,/ 1
//@ sub /bytes\.iter\(\)\.take_while\(\|b\| \*\*b == 0\)\.count\(\)/ => /leading_zeros(&bytes)/ 1
//@ sub /&bytes\[non_zero\.\.\]/ => /slice_subrange(bytes.as_slice(), non_zero, 32)/ 1
//@ sub /serialize_str\(("[^"]*")\)/ => /serialize_str(lit_bytes(\1))/
//@ spec
    ensures r == s.text(uint_text((*val).num())),
//@ start
    proof { zero_text(); lits();
        assert forall|b: Seq<u8>, k: int| 0 <= k <= b.len() && (forall|i: int| 0 <= i < k ==> b[i] == 0) implies be(#[trigger] b.subrange(k, b.len() as int)) == be(b) by { be_skip(b, k); assert(b.skip(k) =~= b.subrange(k, b.len() as int)); }
        assert forall|b: Seq<u8>| b.len() > 0 && b[0] != 0 implies cut_zero(tohex(b)) == digits(#[trigger] be(b)) by { digits_of(b); } }
//@end
}
