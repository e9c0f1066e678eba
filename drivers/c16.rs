//@extern protocol=axon_protocol
// C16: the filter of a list of logs is the union of the filters of their addresses and topics, and never misses one.
#[path = "common.rs"] mod axv;
#[path = "gen.rs"] mod gen;
use axv::*;
use protocol::types::*;
/// the three bits of an entry, from the definition: the low 11 bits of the first three pairs of bytes of its digest
fn bits(x: &[u8]) -> Vec<usize> { let h = Hasher::digest(x).0; (0..3).map(|i| ((h[2 * i] as usize) * 256 + h[2 * i + 1] as usize) % 2048).collect() }
fn main() {
    let mut h = H::new();
    h.check("filters", 5000, |r, d| {
        let logs = gen::many(r, gen::log);
        d.push_str(&format!("{:?}", logs));
        let b = logs_bloom(logs.iter());
        let mut want = [0u8; 256];
        for l in &logs { for x in std::iter::once(l.address.as_bytes()).chain(l.topics.iter().map(|t| t.as_bytes())) { for k in bits(x) { want[255 - k / 8] |= 1 << (k % 8); } } }
        for l in &logs {
            for x in std::iter::once(l.address.as_bytes()).chain(l.topics.iter().map(|t| t.as_bytes())) {
                ensure!(b.contains_input(BloomInput::Raw(x)), "the filter misses {}", hex(x));
                ensure!(bits(x).iter().all(|k| b.0[255 - k / 8] & (1 << (k % 8)) != 0), "the filter misses {}", hex(x));
            }
        }
        ensure_eq!(hex(&b.0), hex(&want), "filter");
        if logs.is_empty() { ensure_eq!(b, Bloom::zero(), "filter of no logs"); }
        let mut u = Bloom::zero();
        for l in &logs { let one = logs_bloom(std::iter::once(l)); for i in 0..256 { u.0[i] |= one.0[i]; } }
        ensure_eq!(b, u, "union of the logs' filters");
        Ok(())
    });
    h.finish();
}
