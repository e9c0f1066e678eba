// ---- the RLP library (crate rlp), trusted: what a stream has been given, and what an item read back contains ----
pub enum Item { Num(nat), Str(Seq<u8>), List(Seq<Item>) }
pub enum Tok { Num(nat), Str(Seq<u8>), List(nat) }
pub open spec fn flat(i: Item) -> Seq<Tok> decreases i {
    match i { Item::Num(n) => seq![Tok::Num(n)], Item::Str(s) => seq![Tok::Str(s)], Item::List(v) => seq![Tok::List(v.len())] + flats(i, v.len()) }
}
pub open spec fn flats(i: Item, n: nat) -> Seq<Tok> decreases i, n {
    match i { Item::List(v) => if n == 0 || n > v.len() { Seq::empty() } else { flats(i, (n - 1) as nat) + flat(v[n - 1]) }, _ => Seq::empty() }
}
pub trait Enc { spec fn item(&self) -> Item; }
pub trait Dec: Sized {
    spec fn fits(it: Item) -> bool; spec fn of(it: Item) -> Self;
    /// what is known of a value read from an item with a payload of n bytes
    open spec fn sized(self, n: nat) -> bool { true }
}
/// payload length of the i-th item of a list
pub uninterp spec fn payload(raw: Seq<u8>) -> nat;
pub uninterp spec fn nth(raw: Seq<u8>, i: nat) -> Seq<u8>;
/// how many items the list in these bytes has
pub uninterp spec fn icount(raw: Seq<u8>) -> nat;

#[verifier::external_body]
pub struct RlpStream { x: u8 }
impl RlpStream {
    pub uninterp spec fn view(&self) -> Seq<Tok>;
    /// items counted towards the list being written; a value written by encode_value is counted by the append it is part of
    pub uninterp spec fn noted(&self) -> int;
    #[verifier::external_body] pub fn encode_value(&mut self, v: &[u8]) ensures final(self)@ == old(self)@.push(Tok::Str(v@)), final(self).noted() == old(self).noted() { unimplemented!() }
    #[verifier::external_body] pub fn new() -> (r: RlpStream) ensures r@.len() == 0 { unimplemented!() }
    #[verifier::external_body] pub fn begin_list(&mut self, n: usize) -> (r: &mut RlpStream) ensures (*r)@ == old(self)@.push(Tok::List(n as nat)), final(r)@ == final(self)@ { unimplemented!() }
    #[verifier::external_body] pub fn append<E: Enc>(&mut self, v: &E) -> (r: &mut RlpStream) ensures (*r)@ == old(self)@ + flat(v.item()), (*r).noted() == old(self).noted() + 1, final(r)@ == final(self)@, final(r).noted() == final(self).noted() { unimplemented!() }
    #[verifier::external_body] pub fn append_list<E: Enc>(&mut self, v: &Vec<E>) -> (r: &mut RlpStream) ensures (*r)@ == old(self)@ + flat(list_item(v@)), final(r)@ == final(self)@ { unimplemented!() }
    #[verifier::external_body] pub fn append_empty_data(&mut self) -> (r: &mut RlpStream) ensures (*r)@ == old(self)@.push(Tok::Str(Seq::empty())), final(r)@ == final(self)@ { unimplemented!() }
    #[verifier::external_body] pub fn out(self) -> (r: BytesMut) ensures r@ == ser(self@) { unimplemented!() }
}
pub open spec fn list_item<E: Enc>(s: Seq<E>) -> Item { Item::List(s.map_values(|e: E| e.item())) }
// what the stream puts on the wire, and what reading it back gives
pub uninterp spec fn ser(t: Seq<Tok>) -> Seq<u8>;
pub uninterp spec fn parse(b: Seq<u8>) -> Item;
pub broadcast axiom fn axiom_ser_parse(i: Item) ensures parse(#[trigger] ser(flat(i))) == i;
pub broadcast axiom fn axiom_ser_list(i: Item) requires i is List ensures (#[trigger] ser(flat(i))).len() > 0, ser(flat(i))[0] >= 0xc0;

pub enum DecoderError { Custom(&'static str), RlpIncorrectListLen, RlpExpectedToBeList, RlpIsTooShort, Other }
#[derive(Clone, Copy)]
pub enum Prototype { Null, Data(usize), List(usize) }
#[verifier::external_body]
pub struct Rlp<'a> { x: &'a [u8] }
impl<'a> Rlp<'a> {
    pub uninterp spec fn raw(&self) -> Seq<u8>;
    pub open spec fn view(&self) -> Item { parse(self.raw()) }
    #[verifier::external_body] pub fn new(b: &'a [u8]) -> (r: Rlp<'a>) ensures r.raw() == b@ { unimplemented!() }
    #[verifier::external_body] pub fn as_raw(&self) -> (r: &'a [u8]) ensures r@ == self.raw() { unimplemented!() }
    #[verifier::external_body] pub fn item_count(&self) -> (r: Result<usize, DecoderError>) ensures (self@ matches Item::List(v) ==> (r matches Ok(n) && n == v.len())), r matches Ok(n) ==> n == icount(self.raw()) { unimplemented!() }
    #[verifier::external_body] pub fn prototype(&self) -> (r: Result<Prototype, DecoderError>) ensures self@ matches Item::List(v) ==> (r matches Ok(Prototype::List(n)) && n == v.len()) { unimplemented!() }
    #[verifier::external_body] pub fn at(&self, i: usize) -> (r: Result<Rlp<'a>, DecoderError>)
        ensures self@ matches Item::List(v) ==> (i < v.len() ==> (r matches Ok(x) && x@ == v[i as int])), r matches Ok(x) ==> x.raw() == nth(self.raw(), i as nat) { unimplemented!() }
    #[verifier::external_body] pub fn val_at<T: Dec>(&self, i: usize) -> (r: Result<T, DecoderError>)
        ensures self@ matches Item::List(v) ==> (i < v.len() && T::fits(v[i as int]) ==> r == Ok::<T, DecoderError>(T::of(v[i as int]))), r matches Ok(x) ==> x.sized(payload(nth(self.raw(), i as nat))) { unimplemented!() }
    #[verifier::external_body] pub fn list_at<T: Dec>(&self, i: usize) -> (r: Result<Vec<T>, DecoderError>)
        ensures self@ matches Item::List(v) ==> (i < v.len() && (v[i as int] matches Item::List(w) && (forall|k: int| 0 <= k < w.len() ==> T::fits(#[trigger] w[k])))
            ==> (r matches Ok(l) && l@ == v[i as int]->List_0.map_values(|x: Item| T::of(x)))) { unimplemented!() }
    /// length of the payload of a data item
    #[verifier::external_body] pub fn size(&self) -> (r: usize) ensures (self@ matches Item::Str(s) ==> r == s.len()), (self@ matches Item::Num(n) ==> (n < pow256() ==> r <= 32)), r <= usize::MAX / 2, r == payload(self.raw()) { unimplemented!() }
    #[verifier::external_body] pub fn data(&self) -> (r: Result<&'a [u8], DecoderError>) ensures self@ matches Item::Str(s) ==> (r matches Ok(b) && b@ == s) { unimplemented!() }
}

impl Enc for bool { open spec fn item(&self) -> Item { Item::Num(if *self { 1 } else { 0 }) } }
impl Dec for bool { open spec fn fits(it: Item) -> bool { it == Item::Num(0) || it == Item::Num(1) } open spec fn of(it: Item) -> bool { it == Item::Num(1) } }
impl Enc for u8 { open spec fn item(&self) -> Item { Item::Num(*self as nat) } }
impl Dec for u8 { open spec fn fits(it: Item) -> bool { it matches Item::Num(n) && n <= u8::MAX } open spec fn of(it: Item) -> u8 { it->Num_0 as u8 } }
impl Enc for u32 { open spec fn item(&self) -> Item { Item::Num(*self as nat) } }
impl Dec for u32 { open spec fn fits(it: Item) -> bool { it matches Item::Num(n) && n <= u32::MAX } open spec fn of(it: Item) -> u32 { it->Num_0 as u32 } }
impl Enc for u64 { open spec fn item(&self) -> Item { Item::Num(*self as nat) } }
impl Dec for u64 { open spec fn fits(it: Item) -> bool { it matches Item::Num(n) && n <= u64::MAX } open spec fn of(it: Item) -> u64 { it->Num_0 as u64 } }
impl Enc for U64 { open spec fn item(&self) -> Item { Item::Num(self@) } }
impl Dec for U64 { open spec fn fits(it: Item) -> bool { it matches Item::Num(n) && n < pow64() } open spec fn of(it: Item) -> U64 { u64_(it->Num_0) } }
impl Enc for U256 { open spec fn item(&self) -> Item { Item::Num(self@) } }
impl Dec for U256 { open spec fn fits(it: Item) -> bool { it matches Item::Num(n) && n < pow256() } open spec fn of(it: Item) -> U256 { u256(it->Num_0) } }
impl Enc for Bytes { open spec fn item(&self) -> Item { Item::Str(self@) } }
impl Dec for Bytes { open spec fn sized(self, n: nat) -> bool { self@.len() == n } open spec fn fits(it: Item) -> bool { it is Str } open spec fn of(it: Item) -> Bytes { bytes_(it->Str_0) } }
impl Enc for BytesMut { open spec fn item(&self) -> Item { Item::Str(self@) } }
impl Enc for Vec<u8> { open spec fn item(&self) -> Item { Item::Str(self@) } }
impl Enc for H160 { open spec fn item(&self) -> Item { Item::Str(self@) } }
impl Dec for H160 { open spec fn fits(it: Item) -> bool { it matches Item::Str(s) && s.len() == 20 } open spec fn of(it: Item) -> H160 { h160(it->Str_0) } }
impl Enc for H256 { open spec fn item(&self) -> Item { Item::Str(self@) } }
impl Dec for H256 { open spec fn fits(it: Item) -> bool { it matches Item::Str(s) && s.len() == 32 } open spec fn of(it: Item) -> H256 { h256(it->Str_0) } }
impl Enc for &[u8] { open spec fn item(&self) -> Item { Item::Str(self@) } }
impl Dec for Vec<u8> { open spec fn fits(it: Item) -> bool { it is Str } open spec fn of(it: Item) -> Vec<u8> { vec_of(it->Str_0) } }
/// rlp writes an Option as a list of none or one
impl<T: Enc> Enc for Option<T> { open spec fn item(&self) -> Item { match *self { None => Item::List(seq![]), Some(x) => Item::List(seq![x.item()]) } } }
impl<T: Dec> Dec for Option<T> {
    open spec fn fits(it: Item) -> bool { it matches Item::List(v) && (v.len() == 0 || (v.len() == 1 && T::fits(v[0]))) }
    open spec fn of(it: Item) -> Option<T> { if it->List_0.len() == 0 { None } else { Some(T::of(it->List_0[0])) } }
}
// a vector is its contents
pub uninterp spec fn vec_of<T>(s: Seq<T>) -> Vec<T>;
pub broadcast axiom fn axiom_vec_ext<T>(v: Vec<T>) ensures vec_of(#[trigger] v@) == v;
pub broadcast axiom fn axiom_vec_make<T>(s: Seq<T>) ensures (#[trigger] vec_of(s))@ == s;
pub broadcast group vec_axioms { axiom_vec_ext, axiom_vec_make }
pub open spec fn list_fits<T: Dec>(it: Item) -> bool { it matches Item::List(w) && (forall|k: int| 0 <= k < w.len() ==> T::fits(#[trigger] w[k])) }
pub open spec fn list_of<T: Dec>(it: Item) -> Vec<T> { vec_of(it->List_0.map_values(|x: Item| T::of(x))) }
/// reading back what was written gives the same value
pub trait Lawful: Enc + Dec { proof fn law(x: Self) ensures Self::fits(x.item()), Self::of(x.item()) == x; }
pub proof fn law_list<T: Lawful>(v: Vec<T>) ensures list_fits::<T>(list_item(v@)), list_of::<T>(list_item(v@)) == v
{
    broadcast use vec_axioms;
    let it = list_item(v@);
    assert forall|k: int| 0 <= k < v@.len() implies T::fits(#[trigger] it->List_0[k]) && T::of(it->List_0[k]) == v@[k] by { T::law(v@[k]); }
    assert(it->List_0.map_values(|x: Item| T::of(x)) =~= v@);
}
impl Lawful for bool { proof fn law(x: bool) {} }
impl Lawful for u8 { proof fn law(x: u8) {} }
impl Lawful for u32 { proof fn law(x: u32) {} }
impl Lawful for u64 { proof fn law(x: u64) {} }
impl Lawful for U64 { proof fn law(x: U64) { broadcast use num_axioms; } }
impl Lawful for U256 { proof fn law(x: U256) { broadcast use num_axioms; } }
impl Lawful for Bytes { proof fn law(x: Bytes) { broadcast use bytes_axioms; } }
impl Lawful for H160 { proof fn law(x: H160) { broadcast use bytes_axioms; } }
impl Lawful for H256 { proof fn law(x: H256) { broadcast use bytes_axioms; } }
impl Lawful for Vec<u8> { proof fn law(x: Vec<u8>) { broadcast use vec_axioms; } }
impl<T: Lawful> Lawful for Option<T> { proof fn law(x: Option<T>) { if let Some(y) = x { T::law(y); } } }
pub broadcast group rlp_axioms { axiom_ser_parse, axiom_ser_list }

/// the tokens of a list of n literal items, one at a time
pub open spec fn toks_to(v: Seq<Item>, n: int) -> Seq<Tok> decreases n { if n <= 0 || n > v.len() { Seq::empty() } else { toks_to(v, n - 1) + flat(v[n - 1]) } }
pub proof fn flats_is_toks(v: Seq<Item>, n: nat) requires n <= v.len() ensures flats(Item::List(v), n) == toks_to(v, n as int) decreases n
{ if n > 0 { flats_is_toks(v, (n - 1) as nat); } }
pub proof fn flat_list(v: Seq<Item>) ensures flat(Item::List(v)) == seq![Tok::List(v.len())] + toks_to(v, v.len() as int) { flats_is_toks(v, v.len()); }
pub proof fn toks_to_prefix(v: Seq<Item>, w: Seq<Item>, n: int) requires 0 <= n <= v.len(), n <= w.len(), v.take(n) =~= w.take(n) ensures toks_to(v, n) == toks_to(w, n) decreases n
{ if n > 0 { assert(v[n - 1] == v.take(n)[n - 1]); assert(w[n - 1] == w.take(n)[n - 1]); assert(v.take(n - 1) =~= v.take(n).take(n - 1)); assert(w.take(n - 1) =~= w.take(n).take(n - 1)); toks_to_prefix(v, w, n - 1); } }
