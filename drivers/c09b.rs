//@extern protocol=axon_protocol core_executor common_config_parser rocksdb core_db
// C09: what the metadata store keeps of the announcements, and which flags are in force at a height.
#[path = "common.rs"] mod axv;
#[path = "store.rs"] mod store;
use axv::*;
use common_config_parser::types::spec::HardforkName;
use core_executor::system_contract::metadata::{MetadataStore, HARDFORK_INFO};
use protocol::types::{HardforkInfo, HardforkInfoInner, H256};
fn main() {
    let mut h = H::new();
    store::open("c09");
    h.check("stored announcements", 300, |r, d| {
        let mut s = MetadataStore::new(H256::zero()).map_err(|e| e.to_string())?;
        let mut model = HardforkInfo { inner: vec![] };
        let mut at = 0;
        for _ in 0..r.range(0, 6) {
            let n = match r.below(6) { 0 => at, 1 => r.below(20), _ => at + r.range(1, 6) };
            let mut f = H256::zero(); for _ in 0..r.below(3) { f.0[24 + r.below(2) as usize] |= 1 << r.below(8); }
            d.push_str(&format!("{}:{} ", n, hex(&f.0)));
            s.set_hardfork_info(n, f).map_err(|e| e.to_string())?;
            model.push(HardforkInfoInner { block_number: n, flags: f });
            at = model.inner.last().unwrap().block_number;
            let got = s.hardfork_infos().map_err(|e| e.to_string())?;
            ensure_eq!(got, model, "stored list");
        }
        for n in 0..at + 3 {
            let want = model.inner.iter().filter(|x| x.block_number <= n).last().map(|x| x.flags).unwrap_or_default();
            ensure_eq!(s.hardfork_info(n).map_err(|e| e.to_string())?, want, "flags in force at {}", n);
        }
        Ok(())
    });
    h.check("feature switch", 200, |r, d| {
        let mut f = H256::zero(); f.0[24] = r.u8(); f.0[31] = r.u8(); f.0[0] = r.u8();
        d.push_str(&hex(&f.0));
        HARDFORK_INFO.swap(std::sync::Arc::new(f));
        ensure_eq!(core_executor::enable_hardfork(HardforkName::Andromeda), f.0[24] & 1 == 1, "Andromeda");
        ensure_eq!(core_executor::enable_hardfork(HardforkName::None), true, "None");
        Ok(())
    });
    h.finish();
}
