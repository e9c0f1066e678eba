// ---- text, as its UTF-8 bytes (trusted: the standard library's &str / String) ----
#[verifier::external_body] pub struct Str { x: u8 }
pub trait Text { spec fn utf8(&self) -> Seq<u8>; }
impl Text for Str { open spec fn utf8(&self) -> Seq<u8> { self@ } }
impl Text for &Str { open spec fn utf8(&self) -> Seq<u8> { (**self)@ } }
impl Text for &str { open spec fn utf8(&self) -> Seq<u8> { lit(*self) } }
/// the literals used here are ASCII
pub open spec fn lit(s: &str) -> Seq<u8> { s@.map_values(|c: char| c as u8) }
impl AsBytes for &Str { open spec fn bytes(&self) -> Seq<u8> { (**self)@ } }
/// where a text may be cut
pub uninterp spec fn boundary(s: Seq<u8>, i: int) -> bool;
pub broadcast axiom fn axiom_boundary(s: Seq<u8>, i: int) ensures
    0 < i <= s.len() && s[i - 1] < 0x80 ==> #[trigger] boundary(s, i), 0 <= i < s.len() && s[i] < 0x80 ==> boundary(s, i), i == 0 || i == s.len() ==> boundary(s, i);
pub open spec fn starts(s: Seq<u8>, p: Seq<u8>) -> bool { p.len() <= s.len() && s.subrange(0, p.len() as int) == p }
pub open spec fn ascii(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] < 0x80 }
pub open spec fn low(b: u8) -> u8 { if 65 <= b <= 90 { (b + 32) as u8 } else { b } }
pub open spec fn upc(b: u8) -> u8 { if 97 <= b <= 122 { (b - 32) as u8 } else { b } }
pub open spec fn lows(s: Seq<u8>) -> Seq<u8> { s.map_values(|b: u8| low(b)) }
pub uninterp spec fn lower(s: Seq<u8>) -> Seq<u8>;
pub broadcast axiom fn axiom_lower(s: Seq<u8>) ensures ascii(s) ==> #[trigger] lower(s) == lows(s);
/// no character outside ASCII has a lower-case form made of 0-9, a-f and x only (the driver enumerates them)
pub broadcast axiom fn axiom_lower_hex(s: Seq<u8>) ensures (forall|i: int| 0 <= i < lower(s).len() ==> is_hex(#[trigger] lower(s)[i]) || lower(s)[i] == 120) ==> ascii(s) && #[trigger] lower(s) == lows(s);
pub open spec fn trimx(s: Seq<u8>, p: Seq<u8>) -> Seq<u8> decreases s.len() { if p.len() > 0 && starts(s, p) { trimx(s.skip(p.len() as int), p) } else { s } }
impl Str {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body] pub fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn as_str(&self) -> (r: &Str) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn to_string(&self) -> (r: Str) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn starts_with<P: Text>(&self, p: P) -> (r: bool) ensures r == starts(self@, p.utf8()) { unimplemented!() }
    #[verifier::external_body] pub fn strip_prefix<P: Text>(&self, p: P) -> (r: Option<&Str>) ensures r is Some == starts(self@, p.utf8()), r matches Some(t) ==> t@ == self@.skip(p.utf8().len() as int) { unimplemented!() }
    #[verifier::external_body] pub fn split_at(&self, i: usize) -> (r: (&Str, &Str)) requires i <= self@.len(), boundary(self@, i as int) ensures r.0@ == self@.take(i as int), r.1@ == self@.skip(i as int) { unimplemented!() }
    #[verifier::external_body] pub fn cut(&self, i: usize, j: usize) -> (r: &Str) requires i <= j <= self@.len(), boundary(self@, i as int), boundary(self@, j as int) ensures r@ == self@.subrange(i as int, j as int) { unimplemented!() }
    #[verifier::external_body] pub fn trim_start_matches<P: Text>(&self, p: P) -> (r: &Str) ensures r@ == trimx(self@, p.utf8()) { unimplemented!() }
    #[verifier::external_body] pub fn to_lowercase(&self) -> (r: Str) ensures r@ == lower(self@) { unimplemented!() }
    #[verifier::external_body] pub fn char_indices(&self) -> (r: Vec<(usize, char)>) ensures ascii(self@) ==> r@.len() == self@.len() && forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0 == i && r@[i].1 as u32 == self@[i] as u32 { unimplemented!() }
    #[verifier::external_body] pub fn push(&mut self, c: char) ensures (c as u32) < 0x80 ==> final(self)@ == old(self)@.push(c as u8) { unimplemented!() }
    #[verifier::external_body] pub fn push_str(&mut self, s: &Str) ensures final(self)@ == old(self)@ + s@ { unimplemented!() }
    #[verifier::external_body] pub fn fmt(&self, f: &mut Formatter) -> (r: Result<(), FmtError>) ensures r is Ok, final(f)@ == old(f)@ + self@ { unimplemented!() }
}
#[verifier::external_body] pub fn str_from<P: Text>(s: P) -> (r: Str) ensures r@ == s.utf8() { unimplemented!() }
#[verifier::external_body] pub fn char_upper(c: char) -> (r: Str) ensures (c as u32) < 0x80 ==> r@ == seq![upc(c as u8)] { unimplemented!() }
#[verifier::external_body] pub fn same_text(a: &Str, b: &Str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
#[verifier::external_body] pub fn u16_of_hex_digit(s: &Str) -> (r: u16) requires s@.len() == 1, is_hex(s@[0]) ensures r == hexval(s@[0]) { unimplemented!() }
#[verifier::external_body] pub struct Formatter { x: u8 }
impl Formatter { pub uninterp spec fn view(&self) -> Seq<u8>; }
pub struct FmtError;
#[verifier::external_body] pub fn concat(a: Str, b: &Str) -> (r: Str) ensures r@ == a@ + b@ { unimplemented!() }
pub uninterp spec fn str_of(s: Seq<u8>) -> Str;
pub broadcast axiom fn axiom_str_of(s: Seq<u8>) ensures (#[trigger] str_of(s))@ == s;
pub broadcast group str_axioms { axiom_str_of, axiom_boundary, axiom_lower, axiom_lower_hex }

// ---- hexadecimal ----
pub open spec fn is_hex(b: u8) -> bool { (48 <= b <= 57) || (97 <= b <= 102) || (65 <= b <= 70) }
pub open spec fn hexval(b: u8) -> u8 { if b <= 57 { (b - 48) as u8 } else if b >= 97 { (b - 87) as u8 } else { (b - 55) as u8 } }
pub open spec fn hexdig(n: u8) -> u8 { if n < 10 { (n + 48) as u8 } else { (n + 87) as u8 } }
pub open spec fn all_hex(s: Seq<u8>) -> bool { s.len() % 2 == 0 && forall|i: int| 0 <= i < s.len() ==> is_hex(#[trigger] s[i]) }
pub open spec fn tohex(s: Seq<u8>) -> Seq<u8> { Seq::new(2 * s.len(), |i: int| if i % 2 == 0 { hexdig(s[i / 2] / 16) } else { hexdig(s[i / 2] % 16) }) }
pub open spec fn unhex(s: Seq<u8>) -> Seq<u8> { Seq::new(s.len() / 2, |i: int| (hexval(s[2 * i]) * 16 + hexval(s[2 * i + 1])) as u8) }
// the faster_hex library (trusted)
#[verifier::external_body] pub fn faster_hex_string(s: &[u8]) -> (r: Str) ensures r@ == tohex(s@) { unimplemented!() }
#[verifier::external_body] pub fn faster_hex_decode(s: &[u8], d: &mut Vec<u8>) -> (r: Result<(), TypesError>)
    ensures final(d)@.len() == old(d)@.len(), r is Ok == (all_hex(s@) && old(d)@.len() >= s@.len() / 2), r is Ok ==> final(d)@ == unhex(s@) + old(d)@.skip(s@.len() as int / 2) { unimplemented!() }
pub proof fn hex_round(s: Seq<u8>) ensures all_hex(tohex(s)), unhex(tohex(s)) == s, ascii(tohex(s)), lows(tohex(s)) == tohex(s)
{
    assert(unhex(tohex(s)) =~= s) by {
        assert forall|i: int| 0 <= i < s.len() implies unhex(tohex(s))[i] == s[i] by { let t = tohex(s); assert(t[2 * i] == hexdig(s[i] / 16)); assert((2 * i + 1) / 2 == i); assert(t[2 * i + 1] == hexdig(s[i] % 16)); }
    }
    assert(lows(tohex(s)) =~= tohex(s));
}
/// text accepted as hexadecimal prints back as itself in lower case
pub proof fn hex_back(t: Seq<u8>) requires all_hex(t) ensures tohex(unhex(t)) == lows(t)
{
    assert forall|i: int| 0 <= i < t.len() implies tohex(unhex(t))[i] == low(t[i]) by { let j = i / 2; assert(is_hex(t[2 * j]) && is_hex(t[2 * j + 1])); assert(unhex(t)[j] == (hexval(t[2 * j]) * 16 + hexval(t[2 * j + 1])) as u8); assert(i == 2 * j || i == 2 * j + 1); }
    assert(tohex(unhex(t)) =~= lows(t));
}
