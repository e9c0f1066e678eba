//@include head.rs
pub mod sh {
use super::*;
//@include num.rs
//@include bytes.rs
//@include rlp.rs
//@include types.rs
}
use sh::*;
//@include tx.rs
// C06: the receipts and logs of a block.
pub mod rc {
use super::*;
use super::sh::*;
broadcast use {num_axioms, bytes_axioms, rlp_axioms, vec_axioms};
pub type Hash = H256;
pub type MerkleRoot = H256;
//@item protocol/src/types/executor.rs :: struct ExecResp
//@end
//@item protocol/src/types/transaction.rs :: struct SignedTransaction
//@end
#[verifier::external_body] pub fn same<T>(x: &T) -> (r: T) ensures r == *x { unimplemented!() }
/// the filter of a list of logs (C16 is about it)
pub uninterp spec fn filter_of(l: Seq<Log>) -> Bloom;
#[verifier::external_body] pub fn logs_bloom_of(l: &Vec<Log>) -> (r: Bloom) ensures r == filter_of(l@) { unimplemented!() }
impl Header {
#[verifier::external_body] pub fn hash(&self) -> (r: H256) ensures r == keccak(ser(flat(self.item()))) { unimplemented!() }
}
/// logs emitted by the transactions before number n
pub open spec fn logs_before(t: Seq<TxResp>, n: int) -> nat decreases n { if n <= 0 { 0 } else { logs_before(t, n - 1) + t[n - 1].logs@.len() } }
proof fn logs_grow(t: Seq<TxResp>, a: int, b: int) requires 0 <= a <= b ensures logs_before(t, a) <= logs_before(t, b) decreases b - a { if a < b { logs_grow(t, a, b - 1); } }
/// receipt number i of block b
pub open spec fn receipt_of(b: Block, txs: Seq<SignedTransaction>, t: Seq<TxResp>, i: int) -> Receipt {
    Receipt { tx_hash: txs[i].transaction.hash, block_number: b.header.number, block_hash: keccak(ser(flat(b.header.item()))), tx_index: i as u32, state_root: b.header.state_root,
        used_gas: u64_(t[i].gas_used as nat), logs_bloom: filter_of(t[i].logs@), logs: t[i].logs, log_index: logs_before(t, i) as u32, code_address: t[i].code_address, sender: txs[i].sender,
        ret: t[i].exit_reason, removed: t[i].removed }
}
pub open spec fn least(a: int, b: int) -> int { if a <= b { a } else { b } }
impl Block {
//@fn protocol/src/types/block.rs :: impl Block/fn hash
//@ ret r
//@ spec
    ensures r == keccak(ser(flat(self.header.item()))),
//@end
//@fn protocol/src/types/block.rs :: impl Block/fn generate_receipts_and_logs
//@ ret r
//@ collect
//@ sub /logs_bloom\(((?:\w+\.)*\w+)\.iter\(\)\)/ => /logs_bloom_of(&\1)/
//@ sub /((?:\w+\.)*\w+)\.clone\(\)/ => /same(&\1)/
//@ sub /let mut log_index = 0;/ => /let mut log_index: u32 = 0;/
//@ spec
    requires logs_before(resp.tx_resp@, least(txs@.len() as int, resp.tx_resp@.len() as int)) <= u32::MAX, txs@.len() <= u32::MAX,
    ensures r.0@.len() == least(txs@.len() as int, resp.tx_resp@.len() as int), r.1@.len() == r.0@.len(),
        forall|i: int| 0 <= i < r.0@.len() ==> #[trigger] r.0@[i] == receipt_of(*self, txs@, resp.tx_resp@, i),
        forall|i: int| 0 <= i < r.1@.len() ==> #[trigger] r.1@[i] == resp.tx_resp@[i].logs,
//@ nloops 2
//@ loop 0
    invariant at0_ <= least(txs@.len() as int, resp.tx_resp@.len() as int), out0_@.len() == at0_, log_index == logs_before(resp.tx_resp@, at0_ as int),
        logs_before(resp.tx_resp@, least(txs@.len() as int, resp.tx_resp@.len() as int)) <= u32::MAX, txs@.len() <= u32::MAX,
        forall|i: int| 0 <= i < at0_ ==> #[trigger] out0_@[i] == receipt_of(*self, txs@, resp.tx_resp@, i),
    decreases txs@.len() - at0_,
//@ loopstart 0
    proof { logs_grow(resp.tx_resp@, at0_ as int + 1, least(txs@.len() as int, resp.tx_resp@.len() as int)); }
//@ loop 1
    invariant at1_ <= receipts@.len(), out1_@.len() == at1_, forall|i: int| 0 <= i < at1_ ==> #[trigger] out1_@[i] == receipts@[i].logs,
    decreases receipts@.len() - at1_,
//@end
}
/// whether it ran to its end
pub open spec fn success(e: ExitReason) -> nat { if e is Succeed { 1 } else { 0 } }
impl Receipt {
//@fn protocol/src/types/receipt.rs :: impl Receipt/fn status
//@ ret r
//@ spec
    ensures r == u64_(success(self.ret)),
//@end
}
impl UnsignedTransaction {
//@fn protocol/src/types/transaction.rs :: impl UnsignedTransaction/fn type_
//@ ret r
//@ spec
    ensures r == (match *self { UnsignedTransaction::Legacy(_) => 0u64, UnsignedTransaction::Eip2930(_) => 1u64, UnsignedTransaction::Eip1559(_) => 2u64 }),
//@end
}
/// the last 8 - n bytes of the big-endian number, then b
#[verifier::external_body] pub fn tail_then(x: u64, n: usize, b: &Bytes) -> (r: Bytes) requires n <= 8 ensures n == 7 ==> r@ == seq![(x % 256) as u8] + b@ { unimplemented!() }
/// EIP-2718: the type byte, none for a legacy transaction, and the list of outcome, gas used, filter and logs
pub open spec fn receipt_bytes(u: UnsignedTransaction, r: TxResp, f: Bloom) -> Seq<u8> {
    tx_prefix(u) + ser(flat(Item::List(seq![Item::Num(success(r.exit_reason)), Item::Num(r.gas_used as nat), Item::Str(f@), list_item(r.logs@)])))
}
impl SignedTransaction {
//@fn protocol/src/types/transaction.rs :: impl SignedTransaction/fn type_
//@ ret r
//@ spec
    ensures r == (match self.transaction.unsigned { UnsignedTransaction::Legacy(_) => 0u64, UnsignedTransaction::Eip2930(_) => 1u64, UnsignedTransaction::Eip1559(_) => 2u64 }),
//@end
//@fn protocol/src/types/transaction.rs :: impl SignedTransaction/fn encode_receipt
//@ ret out
//@ sub /matches!\(\s*([\w.]+),\s*ExitReason::Succeed\(_\)\s*\)/ => /(match \1 { ExitReason::Succeed(_) => true, _ => false })/ 0
//@ sub /\[&(\w+)\.to_be_bytes\(\)\[(\d+)\.\.\], &legacy_receipt\]\.concat\(\)\.into\(\)/ => /tail_then(\1, \2, &legacy_receipt)/ 1
//@ sub /rlp\.out\(\)\.freeze\(\)/ => /{ proof { let v = seq![Item::Num(success(r.exit_reason)), Item::Num(r.gas_used as nat), Item::Str(logs_bloom@), list_item(r.logs@)]; flat_list(v); reveal_with_fuel(toks_to, 5); assert(rlp@ =~= flat(Item::List(v))); } rlp.out().freeze() }/ 1
//@ spec
    ensures out@ == receipt_bytes(self.transaction.unsigned, *r, logs_bloom),
//@ start
    proof { assert forall|s: Seq<u8>| #[trigger] (Seq::<u8>::empty() + s) =~= s by {} }
//@end
}
//@item protocol/src/types/block.rs :: struct RichBlock
//@end
impl RichBlock {
//@fn protocol/src/types/block.rs :: impl RichBlock/fn generate_receipts_and_logs
//@ ret r
//@ spec
    requires logs_before(resp.tx_resp@, least(self.txs@.len() as int, resp.tx_resp@.len() as int)) <= u32::MAX, self.txs@.len() <= u32::MAX,
    ensures r.0@.len() == least(self.txs@.len() as int, resp.tx_resp@.len() as int), r.1@.len() == r.0@.len(),
        forall|i: int| 0 <= i < r.0@.len() ==> #[trigger] r.0@[i] == receipt_of(self.block, self.txs@, resp.tx_resp@, i),
        forall|i: int| 0 <= i < r.1@.len() ==> #[trigger] r.1@[i] == resp.tx_resp@[i].logs,
//@end
}
}
}
fn main() {}
