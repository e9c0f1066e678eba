//@extern protocol=axon_protocol snap log common_apm prost
// C25: a payload put into a frame comes back; bad frames are rejected. (Snappy: stubs/snap.rs.)
#[path = "common.rs"] mod axv;
#[path = "gen.rs"] mod gen;
#[path = "/repo/core/network/src/compress.rs"] mod compress;
use axv::*;
use protocol::types::*;
use snap::raw::{decompress_len, Decoder, Encoder};
const MAX: usize = 8 * 1024 * 1024;
fn payload(r: &mut Rng, n: usize) -> Vec<u8> {
    match r.below(5) { 0 => vec![r.below(256) as u8; n], 1 => { let k = r.range(1, 9) as usize; let p = r.bytes(k).to_vec(); p.iter().cycle().take(n).copied().collect() } 2 => { let mut v = vec![0; n]; if n > 0 { for _ in 0..5 { let i = r.below(n as u64) as usize; v[i] = r.below(256) as u8; } } v } _ => r.bytes(n).to_vec() }
}
/// what a frame carries, by the format's definition
fn carries(f: &[u8]) -> Option<Vec<u8>> {
    if f.is_empty() { return None; }
    if f[0] & 0x80 == 0 { return Some(f[1..].to_vec()); }
    let n = decompress_len(&f[1..]).ok()?;
    if n > MAX { return None; }
    let mut v = vec![0; n];
    Decoder::new().decompress(&f[1..], &mut v).ok()?;
    Some(v)
}
fn send(p: &[u8]) -> Result<(), String> {
    let f = compress::compress(Bytes::from(p.to_vec()));
    ensure!(!f.is_empty() && (f[0] == 0 || f[0] == 0x80), "marker {:?}", f.first());
    if f[0] == 0 { ensure!(f[1..] == *p, "an uncompressed frame is the payload"); } else { ensure!(carries(&f).as_deref() == Some(p), "a compressed frame stands for the payload"); }
    let back = compress::decompress(BytesMut::from(&f[..])).map_err(|e| format!("the frame of {} bytes is rejected: {}", p.len(), e))?;
    ensure!(back[..] == *p, "{} bytes came back for {} and differ", back.len(), p.len());
    Ok(())
}
fn main() {
    let mut h = H::new();
    h.once("every length around the threshold", "lengths 0 to 2200, four kinds of content", || {
        let noise: Vec<u8> = (0..70u32).flat_map(|i| Hasher::digest(&i.to_be_bytes()).0).collect();
        for n in 0..2200usize { for k in 0..4u8 {
            let p: Vec<u8> = match k { 0 => vec![0; n], 1 => vec![0x80; n], 2 => (0..n).map(|i| i as u8).collect(), _ => noise[..n].to_vec() };
            send(&p).map_err(|e| format!("{} bytes, kind {}: {}", n, k, e))?;
        } }
        Ok(())
    });
    h.check("there and back", 3000, |r, d| {
        let n = match r.below(8) { 0 => r.below(5) as usize, 1 => 1018 + r.below(14) as usize, 2 => r.below(2000) as usize, 3 => r.below(70000) as usize, 4 => 65536 - 4 + r.below(8) as usize, _ => r.below(5000) as usize };
        let p = payload(r, n);
        d.push_str(&format!("{} bytes {}…", n, hex(&p[..n.min(24)])));
        send(&p)
    });
    h.once("the largest payloads", "8 MB and around, and beyond", || {
        for n in [MAX - 1, MAX] { for b in [0u8, 0x81] { send(&vec![b; n])?; } }
        let mut noise = Rng::new(7).bytes(1 << 16).to_vec(); while noise.len() < MAX { let mut m = noise.clone(); let k = noise.len() / 7919 | 1; for i in (0..m.len()).step_by(61) { m[i] = m[i].wrapping_add(k as u8); } noise.extend(m); }
        send(&noise)?;
        for n in [MAX + 1, MAX + 1000, 3 * MAX] {
            let mut f = vec![0x80u8]; f.extend(Encoder::new().compress_vec(&vec![0; n]).unwrap());
            ensure!(compress::decompress(BytesMut::from(&f[..])).is_err(), "a frame that grows to {} bytes is accepted", n);
        }
        Ok(())
    });
    h.check("frames from elsewhere", 20000, |r, d| {
        let mut f = vec![];
        match r.below(8) {
            0 => { let n = r.below(12) as usize; f = r.bytes(n).to_vec(); }
            1 => { f.push(r.below(256) as u8); let p = r.blob(3000); f.extend(p); }
            2 => { f.push(0x80); let n = [MAX as u64 - 1, MAX as u64, MAX as u64 + 1, u32::MAX as u64, u32::MAX as u64 + 1, 1 << 40, u64::MAX][r.below(7) as usize]; let mut n = n; while n >= 0x80 { f.push(n as u8 | 0x80); n >>= 7; } f.push(n as u8); let k = r.below(30) as usize; f.extend_from_slice(&r.bytes(k)); }
            _ => { f.push([0x80u8, 0x80, 0, 0x81, 0xff, 1, 0x7f, 0x40][r.below(8) as usize]); let k = r.below(3000) as usize; let p = payload(r, k); if r.one_in(5) { f.extend(p) } else { f.extend(Encoder::new().compress_vec(&p).unwrap()); }
                for _ in 0..r.below(3) { let i = r.below(f.len() as u64) as usize; match r.below(3) { 0 => f[i] ^= 1 << r.below(8), 1 => { f.truncate(i + 1) } _ => f.insert(i, r.below(256) as u8) } } }
        }
        d.push_str(&format!("frame of {}: {}", f.len(), hex(&f[..f.len().min(60)])));
        let got = compress::decompress(BytesMut::from(&f[..])).ok().map(|b| b.to_vec());
        let want = carries(&f);
        ensure!(got == want, "{:?} bytes for {:?}", got.map(|g| g.len()), want.map(|g| g.len()));
        Ok(())
    });
    h.finish();
}
