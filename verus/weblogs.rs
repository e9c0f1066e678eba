// logs of the stored chain, as the JSON-RPC shows them
#[derive(Debug)] pub struct ProtocolError;
pub type ProtocolResult<T> = Result<T, ProtocolError>;
pub struct Context;
impl Context { #[verifier::external_body] pub fn new() -> Context { unimplemented!() } }
impl ProtocolError { #[verifier::external_body] pub fn to_string(&self) -> String { unimplemented!() } }
pub ghost struct LogV { pub address: H160, pub topics: Seq<H256>, pub data: Seq<u8>, pub block_hash: Option<H256>, pub block_number: Option<U256>, pub transaction_hash: Option<H256>, pub transaction_index: Option<U256>, pub log_index: Option<U256>, pub removed: bool }
pub open spec fn log_v(k: Receipt, i: int, index: int) -> LogV { let l = k.logs@[i]; LogV { address: l.address, topics: l.topics@, data: l.data@, block_hash: Some(k.block_hash), block_number: Some(u256(k.block_number as nat)), transaction_hash: Some(k.tx_hash),
    transaction_index: Some(u256(index as nat)), log_index: Some(u256(i as nat)), removed: false } }
pub open spec fn shown(w: Web3Log) -> LogV { LogV { address: w.address, topics: w.topics@, data: w.data.0@, block_hash: w.block_hash, block_number: w.block_number, transaction_hash: w.transaction_hash,
    transaction_index: w.transaction_index, log_index: w.log_index, removed: w.removed } }
// ---- the chain ----
#[verifier::external_body] pub struct Adapter { x: u8 }
impl Adapter {
    pub uninterp spec fn block(&self, n: Option<u64>) -> ProtocolResult<Option<Block>>;
    pub uninterp spec fn receipts(&self, n: u64, h: Seq<H256>) -> ProtocolResult<Vec<Option<Receipt>>>;
    pub uninterp spec fn named(&self, h: H256) -> ProtocolResult<Option<Block>>;
    #[verifier::external_body] pub fn get_block_by_number(&self, _c: Context, n: Option<u64>) -> (r: ProtocolResult<Option<Block>>) ensures r == self.block(n) { unimplemented!() }
    #[verifier::external_body] pub fn get_block_by_hash(&self, _c: Context, h: H256) -> (r: ProtocolResult<Option<Block>>) ensures r == self.named(h) { unimplemented!() }
    pub open spec fn header(&self, n: Option<u64>) -> ProtocolResult<Option<Header>> { match self.block(n) { Ok(Some(b)) => Ok(Some(b.header)), Ok(None) => Ok(None), Err(e) => Err(e) } }
    #[verifier::external_body] pub fn get_block_header_by_number(&self, _c: Context, n: Option<u64>) -> (r: ProtocolResult<Option<Header>>) ensures r == self.header(n) { unimplemented!() }
    #[verifier::external_body] pub fn get_receipts_by_hashes(&self, _c: Context, n: u64, h: &Vec<H256>) -> (r: ProtocolResult<Vec<Option<Receipt>>>) ensures r == self.receipts(n, h@) { unimplemented!() }
    pub open spec fn newest(&self) -> Block { self.block(None)->Ok_0->Some_0 }
    pub open spec fn at(&self, n: int) -> Block { self.block(Some(n as u64))->Ok_0->Some_0 }
    pub open spec fn present(&self, n: int) -> Seq<Receipt> { self.receipts(n as u64, self.at(n).tx_hashes@)->Ok_0@.map_values(|x: Option<Receipt>| x->Some_0) }
    /// what C17 establishes of the stored chain: the blocks up to the newest are there, with the receipts of their transactions
    pub open spec fn sound(&self) -> bool {
        &&& self.block(None) matches Ok(Some(l)) && self.block(Some(l.header.number)) == self.block(None)
        &&& forall|n: u64| n <= self.newest().header.number ==> (#[trigger] self.block(Some(n)) matches Ok(Some(b)) && b.header.number == n && all_receipts(self.receipts(n, b.tx_hashes@)))
    }
}
pub open spec fn all_receipts(x: ProtocolResult<Vec<Option<Receipt>>>) -> bool { x matches Ok(v) && forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i]) is Some }
#[verifier::external_body] pub fn present_(v: Vec<Option<Receipt>>) -> (r: Vec<Receipt>) requires forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i]) is Some ensures r@ == v@.map_values(|x: Option<Receipt>| x->Some_0) { unimplemented!() }
#[verifier::external_body] pub fn no_addresses() -> (r: &'static Vec<H160>) ensures r@ == Seq::<H160>::empty() { unimplemented!() }
/// what C27 establishes of it
#[verifier::external_body] pub fn from_receipt_to_web3_log(index: usize, topics: &[Option<Vec<Option<H256>>>], address: &[H160], receipt: &Receipt, logs: &mut Vec<Web3Log>)
    requires topics@.len() <= 4,
    ensures final(logs)@.len() == old(logs)@.len() + picks(*receipt, receipt.logs@.len() as int, address@, topics@).len(),
        forall|j: int| 0 <= j < old(logs)@.len() ==> #[trigger] final(logs)@[j] == old(logs)@[j],
        forall|j: int| 0 <= j < picks(*receipt, receipt.logs@.len() as int, address@, topics@).len() ==>
            log_out(#[trigger] final(logs)@[old(logs)@.len() + j], *receipt, picks(*receipt, receipt.logs@.len() as int, address@, topics@)[j], index),
{ unimplemented!() }
#[verifier::external_body] pub fn slice_<T>(v: &Vec<T>) -> (r: &[T]) ensures r@ == v@ { unimplemented!() }
