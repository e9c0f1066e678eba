/// serde's serializer: what serialize_str answers is a function of the text
pub trait Serializer: Sized { type Ok; type Error; spec fn text(self, t: Seq<u8>) -> Result<Self::Ok, Self::Error>;
    fn serialize_str(self, t: Vec<u8>) -> (r: Result<Self::Ok, Self::Error>) ensures r == self.text(t@); }
/// the numbers written: those that convert into U256
pub trait Num: Sized + Copy { spec fn num(self) -> nat; fn into(self) -> (r: U256) ensures r@ == self.num(); }
impl U256 { #[verifier::external_body] pub fn to_big_endian(&self, out: &mut [u8; 32]) ensures be(final(out)@) == self@ { unimplemented!() } }
#[verifier::external_body] pub fn leading_zeros(b: &[u8; 32]) -> (r: usize)
    ensures r <= 32, forall|i: int| 0 <= i < r ==> b@[i] == 0, r < 32 ==> b@[r as int] != 0 { unimplemented!() }
#[verifier::external_body] pub fn lit_bytes(s: &str) -> (r: Vec<u8>) ensures r@ == lit(s) { unimplemented!() }
#[verifier::external_body] pub fn text_of(v: &[u8; 66], n: usize) -> (r: Vec<u8>) requires n <= 66, ascii(v@.take(n as int)) ensures r@ == v@.take(n as int) { unimplemented!() }
/// the shortest hexadecimal digits of a number
pub open spec fn digits(n: nat) -> Seq<u8> decreases n { if n < 16 { seq![hexdig(n as u8)] } else { digits(n / 16).push(hexdig((n % 16) as u8)) } }
pub open spec fn cut_zero(t: Seq<u8>) -> Seq<u8> { if t.len() > 0 && t[0] == 48 { t.skip(1) } else { t } }
pub proof fn digits_of(b: Seq<u8>) requires b.len() > 0, b[0] != 0 ensures cut_zero(tohex(b)) == digits(be(b)), be(b) > 0 decreases b.len()
{
    let l = b.last();
    let t = tohex(b);
    if b.len() == 1 {
        assert(b.drop_last() =~= Seq::<u8>::empty());
        assert(be(b) == l as nat) by { reveal_with_fuel(be, 2); }
        assert(t =~= seq![hexdig(l / 16), hexdig(l % 16)]);
        if l < 16 { assert(l / 16 == 0 && l % 16 == l); assert(cut_zero(t) =~= seq![hexdig(l)]); }
        else { assert(l / 16 >= 1) by (nonlinear_arith) requires l >= 16; assert(hexdig(l / 16) != 48); assert((l as nat / 16) as u8 == l / 16 && (l as nat % 16) as u8 == l % 16);
            assert(digits(l as nat) == digits(l as nat / 16).push(hexdig(l % 16)));
            assert(digits(l as nat / 16) == seq![hexdig(l / 16)]); assert(cut_zero(t) =~= digits(be(b))); }
    } else {
        let d = b.drop_last();
        digits_of(d);
        assert(d[0] == b[0]);
        let m = be(d);
        let n = be(b);
        assert(n == m * 256 + l as nat);
        assert(n / 16 == m * 16 + l as nat / 16 && n % 16 == l as nat % 16) by (nonlinear_arith) requires n == m * 256 + l as nat;
        let k = n / 16;
        assert(k / 16 == m && k % 16 == l as nat / 16) by (nonlinear_arith) requires k == m * 16 + l as nat / 16, l as nat / 16 < 16;
        assert((l as nat / 16) as u8 == l / 16 && (l as nat % 16) as u8 == l % 16);
        assert(k >= 16 && n >= 16) by (nonlinear_arith) requires k == m * 16 + l as nat / 16, m > 0, n == m * 256 + l as nat;
        assert(digits(k) == digits(k / 16).push(hexdig((k % 16) as u8)));
        assert(digits(n) == digits(n / 16).push(hexdig((n % 16) as u8)));
        assert(digits(n) == digits(m).push(hexdig(l / 16)).push(hexdig(l % 16)));
        assert(t =~= tohex(d).push(hexdig(l / 16)).push(hexdig(l % 16)));
        assert(t[0] == tohex(d)[0]);
        assert(cut_zero(t) =~= cut_zero(tohex(d)).push(hexdig(l / 16)).push(hexdig(l % 16)));
    }
}
pub proof fn be_zeros(b: Seq<u8>) requires forall|i: int| 0 <= i < b.len() ==> b[i] == 0 ensures be(b) == 0 decreases b.len() { if b.len() > 0 { be_zeros(b.drop_last()); } }
/// leading zero bytes do not count
pub proof fn be_skip(b: Seq<u8>, k: int) requires 0 <= k <= b.len(), forall|i: int| 0 <= i < k ==> b[i] == 0 ensures be(b.skip(k)) == be(b) decreases b.len()
{
    if b.len() == k { be_zeros(b); assert(b.skip(k) =~= Seq::<u8>::empty()); }
    else { be_skip(b.drop_last(), k); assert(b.skip(k).drop_last() =~= b.drop_last().skip(k)); assert(b.skip(k).last() == b.last()); }
}
pub proof fn lits() ensures lit("0x0") == seq![48u8, 120u8, 48u8]
{ reveal_strlit("0x0"); assert(lit("0x0") =~= seq![48u8, 120u8, 48u8]); }
pub proof fn hexdig_ascii() ensures forall|n: u8| n < 16 ==> #[trigger] hexdig(n) < 0x80, forall|n: u8| n < 16 ==> (#[trigger] hexdig(n) == 48 <==> n == 0) {}
pub proof fn nibbles(b: u8) ensures b >> 4 == b / 16, b & 0xf == b % 16, b / 16 < 16
{ assert(b >> 4 == b / 16 && b & 0xf == b % 16 && b / 16 < 16) by (bit_vector); }
