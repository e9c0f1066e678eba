//! The part of the `snap` crate the node uses, for builds where that crate is not available: the raw snappy format.
pub mod raw {
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub enum Error { Empty, Header, TooBig { given: u64, max: u64 }, BufferTooSmall { given: u64, min: u64 }, Corrupt }
    impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "snappy: {:?}", self) } }
    impl std::error::Error for Error {}
    pub type Result<T> = std::result::Result<T, Error>;
    pub fn max_compress_len(n: usize) -> usize { 32 + n + n / 6 }
    fn header(s: &[u8]) -> Result<(usize, usize)> {
        let (mut n, mut shift) = (0u64, 0);
        for (i, b) in s.iter().enumerate() {
            if i == 10 { return Err(Error::Header); }
            n |= ((b & 0x7f) as u64).checked_shl(shift).unwrap_or(0);
            if b & 0x80 == 0 { return if n > u32::MAX as u64 { Err(Error::TooBig { given: n, max: u32::MAX as u64 }) } else { Ok((n as usize, i + 1)) }; }
            shift += 7;
        }
        Err(Error::Header)
    }
    pub fn decompress_len(s: &[u8]) -> Result<usize> { if s.is_empty() { return Ok(0); } Ok(header(s)?.0) }
    #[derive(Debug, Default)]
    pub struct Encoder;
    impl Encoder {
        pub fn new() -> Encoder { Encoder }
        pub fn compress_vec(&mut self, s: &[u8]) -> Result<Vec<u8>> {
            if s.len() > u32::MAX as usize { return Err(Error::TooBig { given: s.len() as u64, max: u32::MAX as u64 }); }
            let mut o = Vec::new();
            if s.is_empty() { o.push(0); return Ok(o); }
            let mut n = s.len();
            while n >= 0x80 { o.push(n as u8 | 0x80); n >>= 7; }
            o.push(n as u8);
            let mut last = vec![usize::MAX; 1 << 14];
            let (mut i, mut lit) = (0, 0);
            while i + 4 <= s.len() {
                let w = u32::from_le_bytes([s[i], s[i + 1], s[i + 2], s[i + 3]]);
                let h = (w.wrapping_mul(0x1e35a7bd) >> 18) as usize;
                let c = last[h];
                last[h] = i;
                if c != usize::MAX && i - c < 65536 && s[c..c + 4] == s[i..i + 4] {
                    let mut l = 4;
                    while i + l < s.len() && s[c + l] == s[i + l] && l < 64 { l += 1; }
                    literal(&mut o, &s[lit..i]);
                    let off = i - c;
                    o.push((((l - 1) << 2) | 2) as u8);
                    o.extend_from_slice(&(off as u16).to_le_bytes());
                    i += l;
                    lit = i;
                } else { i += 1; }
            }
            literal(&mut o, &s[lit..]);
            Ok(o)
        }
    }
    fn literal(o: &mut Vec<u8>, s: &[u8]) {
        if s.is_empty() { return; }
        let n = s.len() - 1;
        if n < 60 { o.push((n << 2) as u8); }
        else if n < 1 << 8 { o.push(60 << 2); o.push(n as u8); }
        else if n < 1 << 16 { o.push(61 << 2); o.extend_from_slice(&(n as u16).to_le_bytes()); }
        else { o.push(63 << 2); o.extend_from_slice(&(n as u32).to_le_bytes()); }
        o.extend_from_slice(s);
    }
    #[derive(Debug, Default)]
    pub struct Decoder;
    impl Decoder {
        pub fn new() -> Decoder { Decoder }
        pub fn decompress_vec(&mut self, s: &[u8]) -> Result<Vec<u8>> { let mut v = vec![0; decompress_len(s)?]; let n = self.decompress(s, &mut v)?; v.truncate(n); Ok(v) }
        pub fn decompress(&mut self, s: &[u8], out: &mut [u8]) -> Result<usize> {
            if s.is_empty() { return Err(Error::Empty); }
            let (n, mut i) = header(s)?;
            if n > out.len() { return Err(Error::BufferTooSmall { given: out.len() as u64, min: n as u64 }); }
            let mut d = 0;
            while i < s.len() {
                let t = s[i]; i += 1;
                if t & 3 == 0 {
                    let mut l = (t >> 2) as usize;
                    if l >= 60 { let k = l - 59; if i + k > s.len() { return Err(Error::Corrupt); } l = 0; for j in 0..k { l |= (s[i + j] as usize) << (8 * j); } i += k; }
                    l += 1;
                    if l > s.len() - i || l > n - d { return Err(Error::Corrupt); }
                    out[d..d + l].copy_from_slice(&s[i..i + l]);
                    i += l; d += l;
                } else {
                    let (l, off, k) = match t & 3 {
                        1 => { if i >= s.len() { return Err(Error::Corrupt); } (4 + ((t >> 2) & 7) as usize, ((t >> 5) as usize) << 8 | s[i] as usize, 1) }
                        2 => { if i + 2 > s.len() { return Err(Error::Corrupt); } (1 + (t >> 2) as usize, s[i] as usize | (s[i + 1] as usize) << 8, 2) }
                        _ => { if i + 4 > s.len() { return Err(Error::Corrupt); } (1 + (t >> 2) as usize, s[i] as usize | (s[i + 1] as usize) << 8 | (s[i + 2] as usize) << 16 | (s[i + 3] as usize) << 24, 4) }
                    };
                    i += k;
                    if off == 0 || off > d || l > n - d { return Err(Error::Corrupt); }
                    for j in 0..l { out[d + j] = out[d + j - off]; }
                    d += l;
                }
            }
            if d != n { return Err(Error::Corrupt); }
            Ok(n)
        }
    }
}
