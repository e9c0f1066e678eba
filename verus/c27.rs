//@include head.rs
pub mod sh {
use super::*;
//@include num.rs
//@include bytes.rs
//@include rlp.rs
//@include types.rs
//@include tx.rs
//@include web3.rs
}
use sh::*;
// C27, the values: a transaction, a receipt, a block and the logs as JSON-RPC shows them.
global size_of usize == 8;
pub mod v {
use super::*;
use super::sh::*;
broadcast use {num_axioms, bytes_axioms, rlp_axioms, vec_axioms};
impl SignatureComponents {
//@fn protocol/src/types/transaction.rs :: impl SignatureComponents/fn add_chain_replay_protection
//@ ret r
//@ spec
    requires self.standard_v <= 1, chain_id matches Some(i) ==> 2 * i + 36 <= u64::MAX,
    ensures r == v_of(self.standard_v as int, chain_id),
//@ closure 0
    -> (o: u64) requires 2 * i + 36 <= u64::MAX, ensures o == 2 * i + 35,
//@end
//@item protocol/src/types/transaction.rs :: impl SignatureComponents/const SECP256K1_SIGNATURE_LEN
//@end
//@fn protocol/src/types/transaction.rs :: impl SignatureComponents/fn len
//@ ret r
//@ spec
    requires sig_lens(*self),
    ensures r == self.r@.len() + self.s@.len() + 1,
//@end
//@fn protocol/src/types/transaction.rs :: impl SignatureComponents/fn is_eth_sig
//@ ret r
//@ spec
    requires sig_lens(*self),
    ensures r == eth(*self),
//@end
}
impl LegacyTransaction {
//@fn protocol/src/types/transaction.rs :: impl LegacyTransaction/fn get_to
//@ ret r
//@ spec
    ensures r == u_to(UnsignedTransaction::Legacy(*self)),
//@end
}
impl Eip2930Transaction {
//@fn protocol/src/types/transaction.rs :: impl Eip2930Transaction/fn get_to
//@ ret r
//@ spec
    ensures r == u_to(UnsignedTransaction::Eip2930(*self)),
//@end
}
impl Eip1559Transaction {
//@fn protocol/src/types/transaction.rs :: impl Eip1559Transaction/fn get_to
//@ ret r
//@ spec
    ensures r == u_to(UnsignedTransaction::Eip1559(*self)),
//@end
}
impl UnsignedTransaction {
//@fn protocol/src/types/transaction.rs :: impl UnsignedTransaction/fn type_
//@ ret r
//@ spec
    ensures r == u_type(*self),
//@end
//@fn protocol/src/types/transaction.rs :: impl UnsignedTransaction/fn is_eip1559
//@ ret r
//@ sub /matches!\(self, UnsignedTransaction::Eip1559\(_\)\)/ => /match self { UnsignedTransaction::Eip1559(_) => true, _ => false }/ 0
//@ spec
    ensures r == (*self is Eip1559),
//@end
//@fn protocol/src/types/transaction.rs :: impl UnsignedTransaction/fn gas_price
//@ ret r
//@ spec
    ensures r == u_gas_price(*self),
//@ start
    proof { assert forall|a: U64, b: U64| a@ == b@ implies a == b by { axiom_u64_ext(a); axiom_u64_ext(b); } }
//@end
//@fn protocol/src/types/transaction.rs :: impl UnsignedTransaction/fn max_priority_fee_per_gas
//@ ret r
//@ spec
    ensures *self is Eip1559 ==> Some(*r) == u_priority(*self),
//@end
//@fn protocol/src/types/transaction.rs :: impl UnsignedTransaction/fn gas_limit
//@ ret r
//@ spec
    ensures *r == u_gas_limit(*self),
//@end
//@fn protocol/src/types/transaction.rs :: impl UnsignedTransaction/fn nonce
//@ ret r
//@ spec
    ensures *r == u_nonce(*self),
//@end
//@fn protocol/src/types/transaction.rs :: impl UnsignedTransaction/fn value
//@ ret r
//@ spec
    ensures *r == u_value(*self),
//@end
//@fn protocol/src/types/transaction.rs :: impl UnsignedTransaction/fn data
//@ ret r
//@ spec
    ensures r@ == u_data(*self),
//@end
//@fn protocol/src/types/transaction.rs :: impl UnsignedTransaction/fn access_list
//@ ret r
//@ sub /(\w+\.access_list)\.clone\(\)/ => /same_(&\1)/
//@ spec
    ensures r@ == u_list(*self),
//@end
//@fn protocol/src/types/transaction.rs :: impl UnsignedTransaction/fn to
//@ ret r
//@ spec
    ensures r == u_to(*self),
//@end
}
impl SignedTransaction {
//@fn protocol/src/types/transaction.rs :: impl SignedTransaction/fn type_
//@ ret r
//@ spec
    ensures r == u_type(self.transaction.unsigned),
//@end
//@fn protocol/src/types/transaction.rs :: impl SignedTransaction/fn get_to
//@ ret r
//@ spec
    ensures r == u_to(self.transaction.unsigned),
//@end
}
impl RichTransactionOrHash {
//@fn core/api/src/jsonrpc/web3_types.rs :: impl RichTransactionOrHash/fn get_hash
//@ ret r
//@ spec
    ensures r == (match *self { RichTransactionOrHash::Hash(h) => h, RichTransactionOrHash::Rich(t) => t.hash }),
//@end
}
impl Web3Transaction {
//@fn core/api/src/jsonrpc/web3_types.rs :: impl From<SignedTransaction> for Web3Transaction/fn from
//@ ret w
//@ alias Web3Transaction::from(SignedTransaction)
//@ sub /\bfn from\(/ => /fn from_stx(/
//@ sub /signature\.clone\(\)\.unwrap_or_default\(\)/ => /own_sig(&stx.transaction.signature)/ 0
//@ sub /stx\.transaction\.own_sig/ => /own_sig/ 0
//@ sub /U256::from\(&signature\.(\w)\[\.\.\]\)/ => /be_number(signature.\1.as_ref())/ 0
//@ sub /chain_id\.map\(\|id\| id\.into\(\)\)/ => /chain_id.map(|id: u64| -> (o: U64) ensures o == u64_(id as nat) { id.into() })/ 0
//@ spec
    requires stored_ok(stx),
    ensures shows_tx(w, stx), placed(w, None),
//@end
//@fn core/api/src/jsonrpc/web3_types.rs :: impl Web3Transaction/fn add_block_number
//@ ret w
//@ sub /mut self, block_number: u64/ => /self, block_number: u64/
//@ sub /self\.block_number = / => /let mut me = self; me.block_number = /
//@ sub /(?<=\n)        self\n/ => /        me\n/
//@ spec
    ensures w == (Web3Transaction { block_number: Some(u64_(block_number as nat)), ..self }),
//@end
//@fn core/api/src/jsonrpc/web3_types.rs :: impl Web3Transaction/fn add_block_hash
//@ ret w
//@ sub /mut self, block_hash: H256/ => /self, block_hash: H256/
//@ sub /self\.block_hash = / => /let mut me = self; me.block_hash = /
//@ sub /(?<=\n)        self\n/ => /        me\n/
//@ spec
    ensures w == (Web3Transaction { block_hash: Some(block_hash), ..self }),
//@end
//@fn core/api/src/jsonrpc/web3_types.rs :: impl Web3Transaction/fn add_tx_index
//@ ret w
//@ sub /mut self, index: usize/ => /self, index: usize/
//@ sub /self\.transaction_index = / => /let mut me = self; me.transaction_index = /
//@ sub /(?<=\n)        self\n/ => /        me\n/
//@ spec
    ensures w == (Web3Transaction { transaction_index: Some(u64_(index as nat)), ..self }),
//@end
//@fn core/api/src/jsonrpc/web3_types.rs :: impl Web3Transaction/fn update_with_receipt
//@ spec
    ensures *final(self) == (Web3Transaction { block_number: Some(u64_(receipt.block_number as nat)), block_hash: Some(receipt.block_hash), transaction_index: Some(u64_(receipt.tx_index as nat)), ..*old(self) }),
//@end
}
#[verifier::external_body] pub fn own_sig(s: &Option<SignatureComponents>) -> (r: SignatureComponents) ensures s matches Some(g) ==> r == g { unimplemented!() }
impl Web3Receipt {
//@fn core/api/src/jsonrpc/web3_types.rs :: impl Web3Receipt/fn new
//@ ret w
//@ collect Web3ReceiptLog
//@ sub /log\.topics\.clone\(\)/ => /same_(&log.topics)/ 0
//@ sub /code_address\.map\(Into::into\)/ => /code_address.map(|h: H256| -> (o: H160) ensures o == low20(h) { h.into() })/ 0
//@ spec
    ensures shows_receipt(w, receipt, stx),
//@ loop 0
    invariant at0_ <= receipt.logs@.len(), out0_@.len() == at0_, forall|i: int| 0 <= i < at0_ ==> shows_log(#[trigger] out0_@[i], receipt, i),
    decreases receipt.logs@.len() - at0_,
//@end
}
impl Web3Block {
//@fn core/api/src/jsonrpc/web3_types.rs :: impl From<Block> for Web3Block/fn from
//@ ret w
//@ alias Web3Block::from(Block)
//@ sub /\bfn from\(/ => /fn from_block(/
//@ sub /\.map\(RichTransactionOrHash::Hash\)/ => /.map(|h| RichTransactionOrHash::Hash(h))/ 0
//@ sub /EMPTY_UNCLE_HASH/ => /empty_uncles()/ 0
//@ sub /rlp::encode_list\(&/ => /encode_extra(&/ 0
//@ sub /H256::default\(\)/ => /zero_h256()/ 0
//@ sub /H64::default\(\)/ => /zero_h64()/ 0
//@ collect RichTransactionOrHash
//@ spec
    ensures shows_header(w, b), hashes_only(w.transactions@, b.tx_hashes@),
//@ loop 0
    invariant at0_ <= b.tx_hashes@.len(), out0_@.len() == at0_, forall|i: int| 0 <= i < at0_ ==> #[trigger] out0_@[i] == RichTransactionOrHash::Hash(b.tx_hashes@[i]),
    decreases b.tx_hashes@.len() - at0_,
//@end
}
//@fn core/api/src/jsonrpc/web3_types.rs :: impl From<BlockId> for Option<u64>/fn from
//@ ret r
//@ alias Option<u64>::from(BlockId)
//@ sub /\bfn from\(/ => /fn number_of(/
//@ sub /Self/ => /Option<u64>/
//@ spec
    ensures r == (match id { BlockId::Num(n) => Some(n@ as u64), BlockId::Earliest => Some(0u64), _ => None }),
//@end
// ---- which logs a filter takes ----
#[verifier::external_body] pub fn has_<T>(v: &Vec<T>, x: &T) -> (r: bool) ensures r == v@.contains(*x) { unimplemented!() }
#[verifier::external_body] pub fn has_s<T>(v: &[T], x: &T) -> (r: bool) ensures r == v@.contains(*x) { unimplemented!() }
//@fn core/api/src/jsonrpc/impl/web3.rs :: fn from_receipt_to_web3_log
//@ macros
//@ sub /\|i\| i\.contains\(&None\) \|\| i\.contains\(&Some\(log\.topics\[(\d)\]\)\)/ => /|i: &Vec<Option<H256>>| -> (o: bool) requires log.topics@.len() > \1 ensures o == (i@.contains(None) || i@.contains(Some(log.topics@[\1]))) { has_(i, &None) || has_(i, &Some(log.topics[\1])) }/ 0
//@ sub /address\.contains\(/ => /has_s(address, / 0
//@ sub /log\.topics\.clone\(\)/ => /same_(&log.topics)/ 0
//@ spec
    requires topics@.len() <= 4,
    ensures final(logs)@.len() == old(logs)@.len() + picks(*receipt, receipt.logs@.len() as int, address@, topics@).len(),
        forall|j: int| 0 <= j < old(logs)@.len() ==> #[trigger] final(logs)@[j] == old(logs)@[j],
        forall|j: int| 0 <= j < picks(*receipt, receipt.logs@.len() as int, address@, topics@).len() ==>
            log_out(#[trigger] final(logs)@[old(logs)@.len() + j], *receipt, picks(*receipt, receipt.logs@.len() as int, address@, topics@)[j], index),
//@ start
    let ghost before = logs@;
//@ loop 0
    invariant topics@.len() <= 4, logs@.len() == before.len() + picks(*receipt, log_idex as int, address@, topics@).len(),
        forall|j: int| 0 <= j < before.len() ==> #[trigger] logs@[j] == before[j],
        forall|j: int| 0 <= j < picks(*receipt, log_idex as int, address@, topics@).len() ==> log_out(#[trigger] logs@[before.len() + j], *receipt, picks(*receipt, log_idex as int, address@, topics@)[j], index),
//@ loopend 0
    assert(picks(*receipt, log_idex + 1, address@, topics@) == if wanted(*log, address@, topics@) { picks(*receipt, log_idex as int, address@, topics@).push(log_idex as int) } else { picks(*receipt, log_idex as int, address@, topics@) });
//@end
}
}
fn main() {}
