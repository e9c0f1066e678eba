// ---- transaction types, copied from /repo ----
pub enum TransactionAction { Call(H160), Create }
pub struct AccessListItem { pub address: H160, pub storage_keys: Vec<H256> }
pub type AccessList = Vec<AccessListItem>;
pub type Public = H512;
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct H512 { x: [u8; 64] }
impl H512 { pub uninterp spec fn view(&self) -> Seq<u8>; }
impl Enc for TransactionAction { open spec fn item(&self) -> Item { match *self { TransactionAction::Call(a) => Item::Str(a@), TransactionAction::Create => Item::Str(Seq::empty()) } } }
impl Dec for TransactionAction {
    open spec fn fits(it: Item) -> bool { it matches Item::Str(s) && (s.len() == 0 || s.len() == 20) }
    open spec fn of(it: Item) -> TransactionAction { if it->Str_0.len() == 0 { TransactionAction::Create } else { TransactionAction::Call(h160(it->Str_0)) } }
}
//@item protocol/src/types/transaction.rs :: struct LegacyTransaction
//@end
//@item protocol/src/types/transaction.rs :: struct Eip2930Transaction
//@end
//@item protocol/src/types/transaction.rs :: struct Eip1559Transaction
//@end
//@item protocol/src/types/transaction.rs :: enum UnsignedTransaction
//@end
//@item protocol/src/types/transaction.rs :: struct SignatureComponents
//@end
//@item protocol/src/types/transaction.rs :: struct UnverifiedTransaction
//@end
pub open spec fn v_of(parity: int, chain_id: Option<u64>) -> int { parity + (match chain_id { Some(i) => 2 * i + 35, None => 27 }) }
pub open spec fn eth(g: SignatureComponents) -> bool { g.r@.len() + g.s@.len() == 64 }
pub open spec fn sig_wf(g: SignatureComponents) -> bool { (g.r@.len() == 32 && g.s@.len() == 32) || (g.r@.len() + g.s@.len() > 64) }
pub open spec fn sig_lens(g: SignatureComponents) -> bool { g.r@.len() + g.s@.len() < usize::MAX }
pub open spec fn r_item(g: SignatureComponents) -> Item { if eth(g) { Item::Num(be(g.r@)) } else { Item::Str(g.r@) } }
pub open spec fn s_item(g: SignatureComponents) -> Item { if eth(g) { Item::Num(be(g.s@)) } else { Item::Str(g.s@) } }
pub open spec fn key_item(k: H256) -> Item { Item::Str(k@) }
pub open spec fn keys_item(k: Seq<H256>) -> Item { Item::List(k.map_values(|x: H256| key_item(x))) }
pub open spec fn acc_item(a: AccessListItem) -> Item { Item::List(seq![Item::Str(a.address@), keys_item(a.storage_keys@)]) }
pub open spec fn acl_item(l: Seq<AccessListItem>) -> Item { Item::List(l.map_values(|x: AccessListItem| acc_item(x))) }

// the layouts the EIPs fix
pub open spec fn legacy_fields(x: LegacyTransaction) -> Seq<Item> {
    seq![Item::Num(x.nonce@), Item::Num(x.gas_price@), Item::Num(x.gas_limit@), x.action.item(), Item::Num(x.value@), Item::Str(x.data@)]
}
pub open spec fn legacy_item(x: LegacyTransaction, c: Option<u64>, g: Option<SignatureComponents>) -> Item {
    match g {
        Some(g) => Item::List(seq![Item::Num(x.nonce@), Item::Num(x.gas_price@), Item::Num(x.gas_limit@), x.action.item(), Item::Num(x.value@), Item::Str(x.data@), Item::Num(v_of(g.standard_v as int, c) as nat), r_item(g), s_item(g)]),
        None => match c {
            Some(i) => Item::List(seq![Item::Num(x.nonce@), Item::Num(x.gas_price@), Item::Num(x.gas_limit@), x.action.item(), Item::Num(x.value@), Item::Str(x.data@), Item::Num(i as nat), Item::Num(0), Item::Num(0)]),
            None => Item::List(seq![Item::Num(x.nonce@), Item::Num(x.gas_price@), Item::Num(x.gas_limit@), x.action.item(), Item::Num(x.value@), Item::Str(x.data@)]),
        },
    }
}
pub open spec fn cid(c: Option<u64>) -> nat { match c { Some(i) => i as nat, None => 0 } }
pub open spec fn eip2930_item(x: Eip2930Transaction, c: Option<u64>, g: Option<SignatureComponents>) -> Item {
    match g {
        Some(g) => Item::List(seq![Item::Num(cid(c)), Item::Num(x.nonce@), Item::Num(x.gas_price@), Item::Num(x.gas_limit@), x.action.item(), Item::Num(x.value@), Item::Str(x.data@), acl_item(x.access_list@), Item::Num(g.standard_v as nat), r_item(g), s_item(g)]),
        None => Item::List(seq![Item::Num(cid(c)), Item::Num(x.nonce@), Item::Num(x.gas_price@), Item::Num(x.gas_limit@), x.action.item(), Item::Num(x.value@), Item::Str(x.data@), acl_item(x.access_list@)]),
    }
}
pub open spec fn eip1559_item(x: Eip1559Transaction, c: Option<u64>, g: Option<SignatureComponents>) -> Item {
    match g {
        Some(g) => Item::List(seq![Item::Num(cid(c)), Item::Num(x.nonce@), Item::Num(x.max_priority_fee_per_gas@), Item::Num(x.gas_price@), Item::Num(x.gas_limit@), x.action.item(), Item::Num(x.value@), Item::Str(x.data@), acl_item(x.access_list@), Item::Num(g.standard_v as nat), r_item(g), s_item(g)]),
        None => Item::List(seq![Item::Num(cid(c)), Item::Num(x.nonce@), Item::Num(x.max_priority_fee_per_gas@), Item::Num(x.gas_price@), Item::Num(x.gas_limit@), x.action.item(), Item::Num(x.value@), Item::Str(x.data@), acl_item(x.access_list@)]),
    }
}
pub open spec fn tx_item(t: UnverifiedTransaction) -> Item {
    match t.unsigned { UnsignedTransaction::Legacy(x) => legacy_item(x, t.chain_id, t.signature), UnsignedTransaction::Eip2930(x) => eip2930_item(x, t.chain_id, t.signature), UnsignedTransaction::Eip1559(x) => eip1559_item(x, t.chain_id, t.signature) }
}
pub open spec fn tx_prefix(t: UnsignedTransaction) -> Seq<u8> { match t { UnsignedTransaction::Legacy(_) => seq![], UnsignedTransaction::Eip2930(_) => seq![1u8], UnsignedTransaction::Eip1559(_) => seq![2u8] } }
pub open spec fn tx_bytes(t: UnverifiedTransaction) -> Seq<u8> { tx_prefix(t.unsigned) + ser(flat(tx_item(t))) }
/// v fits in 64 bits
pub open spec fn v_fits(t: UnverifiedTransaction) -> bool { t.signature matches Some(g) ==> v_of(g.standard_v as int, t.chain_id) <= u64::MAX }
/// a signed transaction as this chain writes it
pub open spec fn tx_wf(t: UnverifiedTransaction) -> bool {
    &&& (t.signature matches Some(g) && sig_wf(g) && (t.unsigned is Legacy ==> g.standard_v <= 1))
    &&& (t.unsigned is Legacy ==> v_fits(t))
    &&& (!(t.unsigned is Legacy) ==> t.chain_id is Some)
}
pub open spec fn tx_enc_ok(t: UnverifiedTransaction) -> bool {
    &&& (t.signature matches Some(g) ==> sig_lens(g) && (eth(g) ==> g.r@.len() == 32 && g.s@.len() == 32) && (t.unsigned is Legacy ==> g.standard_v <= 1))
    &&& (t.unsigned is Legacy ==> v_fits(t))
}
/// equal field by field (vectors by content)
pub open spec fn same_acl(a: Seq<AccessListItem>, b: Seq<AccessListItem>) -> bool {
    a.len() == b.len() && (forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).address == b[i].address && a[i].storage_keys@ == b[i].storage_keys@)
}
pub open spec fn same_unsigned(a: UnsignedTransaction, b: UnsignedTransaction) -> bool {
    match (a, b) {
        (UnsignedTransaction::Legacy(x), UnsignedTransaction::Legacy(y)) => x == y,
        (UnsignedTransaction::Eip2930(x), UnsignedTransaction::Eip2930(y)) => x.nonce == y.nonce && x.gas_price == y.gas_price && x.gas_limit == y.gas_limit && x.action == y.action && x.value == y.value && x.data == y.data && same_acl(x.access_list@, y.access_list@),
        (UnsignedTransaction::Eip1559(x), UnsignedTransaction::Eip1559(y)) => x.nonce == y.nonce && x.max_priority_fee_per_gas == y.max_priority_fee_per_gas && x.gas_price == y.gas_price && x.gas_limit == y.gas_limit && x.action == y.action && x.value == y.value && x.data == y.data && same_acl(x.access_list@, y.access_list@),
        _ => false,
    }
}
