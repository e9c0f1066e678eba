//@extern protocol=axon_protocol serde_json common_crypto axon_tools
#[path = "common.rs"] mod axv;
#[path = "gen.rs"] mod gen;
use axv::*;
use protocol::codec::{decode_256bits_key, hex_decode, hex_encode};
use protocol::types::*;
use std::str::FromStr;
fn is_hex(c: u8) -> bool { c.is_ascii_digit() || (b'a'..=b'f').contains(&c) || (b'A'..=b'F').contains(&c) }
fn val(c: u8) -> u8 { match c { b'0'..=b'9' => c - b'0', b'a'..=b'f' => c - b'a' + 10, _ => c - b'A' + 10 } }
/// the bytes a text spells, if it spells any
fn spells(t: &str) -> Option<Vec<u8>> {
    let b = t.as_bytes();
    if b.len() % 2 != 0 || !b.iter().all(|c| is_hex(*c)) { return None; }
    Some(b.chunks(2).map(|p| val(p[0]) * 16 + val(p[1])).collect())
}
/// texts near the accepted ones
pub fn text(r: &mut Rng) -> String {
    let mut s = String::new();
    match r.below(8) { 0 => {}, 1 => s.push_str("0X"), 2 => s.push_str("0x0x"), 3 => s.push_str("x"), 4 => s.push_str("0x0X"), _ => s.push_str("0x") }
    let n = match r.below(6) { 0 => 40, 1 => 64, 2 => 0, 3 => r.range(38, 44), 4 => r.range(60, 140), _ => r.below(20) } as usize;
    for _ in 0..n { s.push(*r.pick(&['0', '1', '7', '9', 'a', 'c', 'f', 'b', 'e', 'd', '3', '5'])); }
    match r.below(5) {
        0 => { let t = s.to_uppercase().replace('X', "x"); s = t; }
        1 => s = s.chars().enumerate().map(|(i, c)| if i % 3 == 1 && c != 'x' { c.to_ascii_uppercase() } else { c }).collect(),
        _ => {}
    }
    if r.one_in(4) {
        let mut v: Vec<char> = s.chars().collect();
        for _ in 0..r.range(1, 2) {
            let i = r.below(v.len() as u64 + 1) as usize;
            let c = *r.pick(&['g', 'G', 'x', '/', ':', '@', '`', ' ', '+', '-', '_', 'é', '\u{212a}', '漢', '\u{1f600}', '\0', 'ﬀ', '０']);
            if i < v.len() && r.bool() { v[i] = c } else { v.insert(i, c) }
        }
        s = v.into_iter().collect();
    }
    s
}
/// EIP-55, written out
fn eip55(a: &[u8]) -> String {
    let h = hex(a);
    let d = Hasher::digest(h.as_bytes());
    let mut s = String::from("0x");
    for (i, c) in h.chars().enumerate() {
        let nib = if i % 2 == 0 { d.as_bytes()[i / 2] >> 4 } else { d.as_bytes()[i / 2] & 15 };
        s.push(if nib >= 8 { c.to_ascii_uppercase() } else { c });
    }
    s
}
fn main() {
    let mut h = H::new();
    h.check("hex_round_trip", 4000, |r, d| {
        let b = r.blob(700);
        *d = hex(&b);
        let x = Hex::encode(&b);
        ensure_eq!(x.as_string(), format!("0x{}", hex(&b)), "as_string");
        ensure_eq!(x.as_string_trim0x(), hex(&b), "as_string_trim0x");
        ensure_eq!(hex_encode(&b), hex(&b), "hex_encode");
        ensure_eq!(Hex::from_str(&x.as_string()).map_err(|e| e.to_string())?, x, "from_str(as_string)");
        ensure_eq!(hex_decode(&hex(&b)).map_err(|e| e.to_string())?, b, "hex_decode(hex_encode)");
        ensure_eq!(hex_decode(&format!("0x{}", hex(&b))).map_err(|e| e.to_string())?, b, "hex_decode of prefixed text");
        ensure_eq!(x.as_bytes().to_vec(), b, "as_bytes");
        ensure_eq!(x.len(), b.len(), "len");
        ensure_eq!(x.is_empty(), b.is_empty(), "is_empty");
        let j = serde_json::to_string(&x).map_err(|e| e.to_string())?;
        ensure_eq!(j, format!("\"0x{}\"", hex(&b)), "JSON");
        ensure_eq!(serde_json::from_str::<Hex>(&j).map_err(|e| e.to_string())?, x, "JSON round trip");
        ensure_eq!(Bytes::from(x).to_vec(), b, "into Bytes");
        Ok(())
    });
    h.check("hex_text", 12000, |r, d| {
        let s = text(r);
        *d = format!("{:?}", s);
        let want = s.strip_prefix("0x").and_then(spells);
        ensure_eq!(Hex::from_str(&s).ok().map(|x| x.as_bytes().to_vec()), want, "Hex::from_str");
        if let Some(b) = &want { ensure_eq!(Hex::from_str(&s).unwrap().as_string(), format!("0x{}", s[2..].to_lowercase()), "canonical text of {}", hex(b)); }
        ensure_eq!(serde_json::from_str::<Hex>(&serde_json::to_string(&s).unwrap()).ok().map(|x| x.as_bytes().to_vec()), want, "Hex from JSON");
        ensure_eq!(hex_decode(&s).ok(), spells(s.strip_prefix("0x").unwrap_or(&s)), "hex_decode");
        let key = s.strip_prefix("0x").or_else(|| s.strip_prefix("0X")).filter(|t| t.len() == 64).and_then(spells);
        ensure_eq!(decode_256bits_key(&s).ok().map(|k| k.to_vec()), key, "decode_256bits_key");
        let a = s.strip_prefix("0x").or_else(|| s.strip_prefix("0X")).filter(|t| t.len() == 40).and_then(spells);
        ensure_eq!(Address::from_hex(&s).ok().map(|k| k.as_slice().to_vec()), a, "Address::from_hex");
        let cs = a.filter(|b| eip55(b) == s);
        ensure_eq!(Address::from_str(&s).ok().map(|k| k.as_slice().to_vec()), cs, "Address::from_str");
        Ok(())
    });
    h.check("address", 4000, |r, d| {
        let a = Address(gen::h160(r));
        *d = hex(a.as_slice());
        let s = a.to_string();
        ensure_eq!(s, eip55(a.as_slice()), "printed address");
        ensure_eq!(a.eip55(), s, "eip55()");
        ensure_eq!(format!("{:?}", a).replace('"', ""), s, "debug");
        ensure_eq!(Address::from_str(&s).map_err(|e| e.to_string())?, a, "from_str(to_string)");
        ensure_eq!(Address::from_hex(&s.to_lowercase()).map_err(|e| e.to_string())?, a, "from_hex");
        let j = serde_json::to_string(&a).map_err(|e| e.to_string())?;
        ensure_eq!(serde_json::from_str::<Address>(&j).map_err(|e| e.to_string())?, a, "JSON round trip");
        // one letter in the other case is another text
        let mut t: Vec<char> = s.chars().collect();
        let i = r.range(2, 41) as usize;
        let c = t[i];
        t[i] = if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() };
        if t[i] != c { let t: String = t.into_iter().collect(); ensure!(Address::from_str(&t).is_err(), "wrong checksum {} accepted", t); }
        let n = if r.bool() { 20 } else { r.below(40) as usize };
        let b = r.bytes(n);
        ensure_eq!(Address::from_bytes(Bytes::from(b.clone())).ok().map(|x| x.as_slice().to_vec()), if n == 20 { Some(b) } else { None }, "from_bytes");
        let x = gen::h256(r);
        ensure_eq!(Address::from_hash(x).as_slice().to_vec(), x.as_bytes()[12..].to_vec(), "from_hash");
        Ok(())
    });
    h.once("lower_case_facts", "every character", || {
        for c in (0x80u32..0x110000).filter_map(char::from_u32) {
            let l: String = c.to_lowercase().collect();
            ensure!(!l.bytes().all(|b| is_hex(b) || b == b'x'), "{:?} lower-cases into hexadecimal", c);
        }
        for c in (0u32..0x110000).filter_map(char::from_u32) { let l: String = c.to_lowercase().collect(); ensure!(!l.bytes().any(|b| b.is_ascii_uppercase()), "{:?}", c); }
        Ok(())
    });
    h.check("numbers", 6000, |r, d| {
        let n = match r.below(5) { 0 => U256::from(r.below(300)), 1 => (U256::from(1u64) << (r.below(256) as usize)) - r.below(2), 2 => U256::MAX - r.below(3), 3 => U256::from(r.u64()), _ => U256::from_big_endian(gen::h256(r).as_bytes()) >> (r.below(256) as usize) };
        *d = format!("{}", n);
        let want = format!("\"0x{:x}\"", n);
        let mut out = Vec::new();
        protocol::codec::serialize_uint(&n, &mut serde_json::Serializer::new(&mut out)).map_err(|e| e.to_string())?;
        ensure_eq!(String::from_utf8_lossy(&out), want, "serialize_uint");
        let m = n.low_u64();
        let mut out = Vec::new();
        protocol::codec::serialize_uint(&m, &mut serde_json::Serializer::new(&mut out)).map_err(|e| e.to_string())?;
        ensure_eq!(String::from_utf8_lossy(&out), format!("\"0x{:x}\"", m), "serialize_uint of a u64");
        let v = MetadataVersion { start: m, end: u64::MAX - m };
        let j = serde_json::to_value(&v).map_err(|e| e.to_string())?;
        ensure_eq!(j["start"].as_str().map(str::to_string), Some(format!("0x{:x}", m)), "start of a metadata version");
        ensure_eq!(j["end"].as_str().map(str::to_string), Some(format!("0x{:x}", u64::MAX - m)), "end of a metadata version");
        let p = Proof { number: m, round: r.u64(), block_hash: gen::h256(r), signature: Bytes::new(), bitmap: Bytes::new() };
        let q = axon_tools::types::Proof { number: p.number, round: p.round, proposal_hash: p.block_hash.0.into(), signature: Default::default(), bitmap: Default::default() };
        let (a, b) = (serde_json::to_value(&p).map_err(|e| e.to_string())?, serde_json::to_value(&q).map_err(|e| e.to_string())?);
        for k in ["number", "round"] {
            let w = if k == "number" { p.number } else { p.round };
            ensure_eq!(a[k].as_str().map(str::to_string), Some(format!("0x{:x}", w)), "{} of a proof", k);
            ensure_eq!(b[k].as_str().map(str::to_string), Some(format!("0x{:x}", w)), "{} of the library's proof", k);
        }
        Ok(())
    });
    h.check("key_address", 600, |r, d| {
        use common_crypto::{PrivateKey, PublicKey, Secp256k1PrivateKey, UncompressedPublicKey, ToPublicKey};
        let mut sk = r.bytes(32);
        sk[0] &= 0x7f; sk[31] |= 1;
        *d = hex(&sk);
        let k = Secp256k1PrivateKey::try_from(sk.as_slice()).map_err(|e| e.to_string())?.pub_key();
        let (c, u) = (k.to_bytes(), k.to_uncompressed_bytes());
        ensure_eq!((c.len(), u.len()), (33, 65), "key lengths");
        let want = Hasher::digest(&u[1..]).as_bytes()[12..].to_vec();
        ensure_eq!(Address::from_pubkey_bytes(&c).ok().map(|x| x.as_slice().to_vec()), Some(want.clone()), "of a compressed key");
        ensure_eq!(Address::from_pubkey_bytes(&u).ok().map(|x| x.as_slice().to_vec()), Some(want), "of an uncompressed key");
        let n = r.below(140) as usize;
        let b: Vec<u8> = u.iter().chain(u.iter()).chain(u.iter()).take(n).cloned().collect();
        if n != 33 && n != 65 { ensure!(Address::from_pubkey_bytes(&b).is_err(), "{} bytes taken for a public key", n); }
        let mut w = c.to_vec();
        w[0] = r.below(256) as u8;
        if w[0] != 2 && w[0] != 3 { ensure!(Address::from_pubkey_bytes(&w).is_err(), "a compressed key beginning with {}", w[0]); }
        Ok(())
    });
    h.finish()
}
