//@include head.rs
// C25: what a payload looks like on the wire, compressed or not, and that it comes back.
pub mod nz {
use super::*;
// ---- bytes: buffers with the content of a Vec<u8> (trusted: the bytes crate) ----
pub struct Bytes { pub v: Vec<u8> }
pub struct BytesMut { pub v: Vec<u8> }
impl Bytes { pub open spec fn view(&self) -> Seq<u8> { self.v@ } pub fn len(&self) -> (r: usize) ensures r == self@.len() { self.v.len() } }
pub fn to_bytes(v: Vec<u8>) -> (r: Bytes) ensures r@ == v@ { Bytes { v } }
impl BytesMut {
    pub open spec fn view(&self) -> Seq<u8> { self.v@ }
    pub fn with_capacity(n: usize) -> (r: BytesMut) ensures r@ == Seq::<u8>::empty() { BytesMut { v: Vec::new() } }
    pub fn new() -> (r: BytesMut) ensures r@ == Seq::<u8>::empty() { BytesMut { v: Vec::new() } }
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { self.v.len() }
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { self.v.len() == 0 }
    pub fn put_u8(&mut self, b: u8) ensures final(self)@ == old(self)@.push(b) { self.v.push(b); }
    #[verifier::external_body] pub fn put(&mut self, b: Bytes) ensures final(self)@ == old(self)@ + b@ { unimplemented!() }
    #[verifier::external_body] pub fn split_off(&mut self, at: usize) -> (r: BytesMut) requires at <= old(self)@.len() ensures final(self)@ == old(self)@.take(at as int), r@ == old(self)@.skip(at as int) { unimplemented!() }
    #[verifier::external_body] pub fn split_to(&mut self, at: usize) -> (r: BytesMut) requires at <= old(self)@.len() ensures r@ == old(self)@.take(at as int), final(self)@ == old(self)@.skip(at as int) { unimplemented!() }
    #[verifier::external_body] pub fn extend_from_slice(&mut self, s: &Vec<u8>) ensures final(self)@ == old(self)@ + s@ { unimplemented!() }
    #[verifier::external_body] pub fn unsplit(&mut self, o: BytesMut) ensures final(self)@ == old(self)@ + o@ { unimplemented!() }
    #[verifier::external_body] pub fn freeze(self) -> (r: Bytes) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn at(&self, i: usize) -> (r: u8) requires i < self@.len() ensures r == self@[i as int] { unimplemented!() }
    #[verifier::external_body] pub fn set_at(&mut self, i: usize, b: u8) requires i < old(self)@.len() ensures final(self)@ == old(self)@.update(i as int, b) { unimplemented!() }
    #[verifier::external_body] pub fn rest(&self, i: usize) -> (r: &[u8]) requires i <= self@.len() ensures r@ == self@.skip(i as int) { unimplemented!() }
}
// ---- snappy (trusted: the snap crate): some lossless coding ----
pub uninterp spec fn snappy(s: Seq<u8>) -> Seq<u8>;
/// the length a compressed frame claims, and what it stands for
pub uninterp spec fn claims(c: Seq<u8>) -> Option<usize>;
pub uninterp spec fn unsnap(c: Seq<u8>) -> Option<Seq<u8>>;
pub broadcast axiom fn snappy_lossless(s: Seq<u8>) requires s.len() <= u32::MAX ensures claims(#[trigger] snappy(s)) == Some(s.len() as usize), unsnap(snappy(s)) == Some(s);
pub struct SnapError;
pub struct SnapEncoder; pub struct SnapDecoder;
impl SnapEncoder { pub fn new() -> SnapEncoder { SnapEncoder }
    #[verifier::external_body] pub fn compress_vec(&mut self, s: &BytesMut) -> (r: Result<Vec<u8>, SnapError>) ensures r matches Ok(v) ==> v@ == snappy(s@) { unimplemented!() } }
#[verifier::external_body] pub fn decompress_len(s: &[u8]) -> (r: Result<usize, SnapError>) ensures r == (match claims(s@) { Some(n) => Ok::<usize, SnapError>(n), None => Err(SnapError) }) { unimplemented!() }
impl SnapDecoder { pub fn new() -> SnapDecoder { SnapDecoder }
    #[verifier::external_body] pub fn decompress(&mut self, s: &[u8], buf: &mut Vec<u8>) -> (r: Result<usize, SnapError>)
        ensures r is Ok ==> unsnap(s@) is Some, final(buf)@.len() == old(buf)@.len(), claims(s@) == Some(old(buf)@.len() as usize) && unsnap(s@) is Some ==> r is Ok && final(buf)@ == unsnap(s@)->Some_0 { unimplemented!() } }
#[verifier::external_body] pub fn zeros(n: usize) -> (r: Vec<u8>) ensures r@.len() == n { unimplemented!() }
pub struct IoError;
#[verifier::external_body] pub fn invalid_data() -> (r: IoError) { unimplemented!() }
//@item core/network/src/compress.rs :: const COMPRESSION_SIZE_THRESHOLD
//@end
//@item core/network/src/compress.rs :: const UNCOMPRESS_FLAG
//@ sub /\bconst/ => /pub const/
//@end
//@item core/network/src/compress.rs :: const COMPRESS_FLAG
//@ sub /\bconst/ => /pub const/
//@end
//@item core/network/src/compress.rs :: const MAX_UNCOMPRESSED_LEN
//@ sub /\bconst/ => /pub const/
//@end
//@item core/network/src/compress.rs :: struct Message
//@ sub /\binner:/ => /pub inner:/
//@end
pub open spec fn plain(p: Seq<u8>) -> Seq<u8> { seq![0u8] + p }
pub open spec fn packed(p: Seq<u8>) -> Seq<u8> { seq![0x80u8] + snappy(p) }
pub open spec fn is_packed(f: Seq<u8>) -> bool { f[0] & 0x80 != 0 }
/// what a frame carries
pub open spec fn carries(f: Seq<u8>, max: int) -> Option<Seq<u8>> {
    if f.len() == 0 { None }
    else if is_packed(f) { match claims(f.skip(1)) { Some(n) => if n <= max { unsnap(f.skip(1)) } else { None }, None => None } }
    else { Some(f.skip(1)) }
}
proof fn flags() ensures 0u8 & 0x80 == 0, 0x80u8 & 0x80 != 0 { assert(0u8 & 0x80 == 0) by (bit_vector); assert(0x80u8 & 0x80 != 0) by (bit_vector); }
/// both forms carry the payload
pub proof fn roundtrip(p: Seq<u8>, f: Seq<u8>, max: int) requires p.len() <= max <= u32::MAX, f == plain(p) || f == packed(p) ensures carries(f, max) == Some(p)
{
    flags(); snappy_lossless(p);
    if f == plain(p) { assert(f.skip(1) =~= p); } else { assert(f.skip(1) =~= snappy(p)); }
}
impl Message {
//@fn core/network/src/compress.rs :: impl Message/fn from_raw
//@ ret r
//@ sub /-> Self/ => /-> Message/
//@ sub /\bSelf \{/ => /Message {/ 0
//@ spec
    requires data@.len() < usize::MAX,
    ensures r.inner@ == plain(data@),
//@ start
    proof { assert(Seq::<u8>::empty().push(0u8) + data@ =~= plain(data@)); }
//@end
//@fn core/network/src/compress.rs :: impl Message/fn from_compressed
//@ ret r
//@ sub /-> Self/ => /-> Message/
//@ sub /\bSelf \{/ => /Message {/ 0
//@ spec
    ensures r.inner@ == data@,
//@end
//@fn core/network/src/compress.rs :: impl Message/fn compress
//@ ret r
//@ sub /mut self\b/ => /self/
//@ sub /\bself\./ => /this./
//@ sub /Err\(e\)/ => /Err(_)/ 0
//@ spec
    requires self.inner@.len() > 0, self.inner@[0] == 0,
    ensures ({ let p = self.inner@.skip(1); r@ == plain(p) || r@ == packed(p) }),
//@ start
    let mut this = self;
    proof { assert(plain(self.inner@.skip(1)) =~= self.inner@); }
    let ghost p = self.inner@.skip(1);
    proof { assert((seq![0u8] + snappy(p)).update(0, 0x80u8) =~= packed(p)); }
    assert(self.inner@.take(1) =~= seq![0u8]);
//@end
//@fn core/network/src/compress.rs :: impl Message/fn decompress
//@ ret r
//@ sub /mut self\b/ => /self/
//@ sub /\bself\./ => /this./
//@ sub /io::Error\b/ => /IoError/
//@ sub /io::ErrorKind::\w+\.into\(\)/ => /invalid_data()/ 0
//@ sub /&this\.inner\[(\w+)\.\.\]/ => /this.inner.rest(\1)/ 0
//@ sub /buf\.into\(\)/ => /to_bytes(buf)/ 0
//@ sub /vec!\[0; (\w+)\]/ => /zeros(\1)/ 0
//@ sub /Err\(e\)/ => /Err(_)/ 0
//@ spec
    ensures r is Ok == (carries(self.inner@, 0x80_0000) is Some), r matches Ok(b) ==> b@ == carries(self.inner@, 0x80_0000)->Some_0,
//@ start
    let mut this = self;
    proof { flags(); assert(1usize << 23 == 0x80_0000usize) by (bit_vector); }
//@end
//@fn core/network/src/compress.rs :: impl Message/fn set_compress_flag
//@ sub /self\.inner\[(\w+)\] = (\w+);/ => /self.inner.set_at(\1, \2);/
//@ spec
    requires old(self).inner@.len() > 0,
    ensures final(self).inner@ == old(self).inner@.update(0, 0x80),
//@end
//@fn core/network/src/compress.rs :: impl Message/fn compress_flag
//@ ret r
//@ sub /self\.inner\[(\w+)\]/ => /self.inner.at(\1)/
//@ spec
    requires self.inner@.len() > 0,
    ensures r == is_packed(self.inner@),
//@end
}
//@fn core/network/src/compress.rs :: fn compress
//@ ret r
//@ spec
    requires src@.len() < usize::MAX,
    ensures r@ == plain(src@) || r@ == packed(src@),
//@ start
    proof { assert(plain(src@).skip(1) =~= src@); }
//@end
//@fn core/network/src/compress.rs :: fn decompress
//@ ret r
//@ sub /io::Error\b/ => /IoError/
//@ spec
    ensures
        r is Ok == (carries(src@, 0x80_0000) is Some),
        r matches Ok(b) ==> b@ == carries(src@, 0x80_0000)->Some_0,
//@end
/// a frame made from a payload of at most 8 MB gives that payload back
fn there_and_back(p: Bytes) requires p@.len() <= 0x80_0000 {
    let ghost sent = p@;
    let f = compress(p);
    proof { roundtrip(sent, f@, 0x80_0000); }
    let g = BytesMut { v: f.v };
    let r = decompress(g);
    assert(r is Ok && r->Ok_0@ == sent);
}
}
} // verus!
fn main() {}
