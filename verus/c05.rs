//@include head.rs
pub mod sh {
use super::*;
//@include num.rs
//@include bytes.rs
//@include rlp.rs
//@include types.rs
}
use sh::*;
// C05: codecs of blocks, proposals, proofs, receipts, execution results and metadata records.
broadcast use {num_axioms, bytes_axioms, rlp_axioms, vec_axioms};

impl BlockVersion {
//@fn protocol/src/types/block.rs :: impl From<BlockVersion> for u8/fn from
//@ alias u8_from
//@ sub /fn from\(/ => /fn u8_from(/ 1
//@ sub /-> Self/ => /-> (r: u8)/
//@ spec
    ensures r == ver_num(value),
//@end
//@fn protocol/src/types/block.rs :: impl TryFrom<u8> for BlockVersion/fn try_from
//@ ret r
//@ sub /Self::Error/ => /TypesError/ 1
//@ spec
    ensures value == 0 ==> r == Ok::<BlockVersion, TypesError>(BlockVersion::V0), value != 0 ==> r is Err,
//@end
//@fn protocol/src/codec/block.rs :: impl Encodable for BlockVersion/fn rlp_append
//@ sub /\(\*self\)\.into\(\)/ => /BlockVersion::u8_from(*self)/ 1
//@ spec
    ensures final(s)@ == old(s)@ + flat(self.item()),
//@ start
    let ghost s0 = s@;
//@ end
    proof { let v = self.item()->List_0; flat_list(v); reveal_with_fuel(toks_to, 3); assert(s@ =~= s0 + flat(self.item())); }
//@end
//@fn protocol/src/codec/block.rs :: impl Decodable for BlockVersion/fn decode
//@ ret res
//@ sub /ver\.try_into\(\)/ => /BlockVersion::try_from(ver)/ 1
//@ spec
    ensures forall|x: BlockVersion| r@ == #[trigger] x.item() ==> res == Ok::<BlockVersion, DecoderError>(x),
//@end
}
impl Proposal {
//@fn protocol/src/codec/block.rs :: impl Encodable for Proposal/fn rlp_append
//@ spec
    ensures final(s)@ == old(s)@ + flat(self.item()),
//@ start
    let ghost s0 = s@;
//@ end
    proof { let v = self.item()->List_0; flat_list(v); reveal_with_fuel(toks_to, 14); assert(s@ =~= s0 + flat(self.item())); }
//@end
//@fn protocol/src/codec/block.rs :: impl Decodable for Proposal/fn decode
//@ ret res
//@ sub /\*\*CHAIN_ID\.load\(\)/ => /the_chain_id()/ 1
//@ spec
    ensures forall|p: Proposal| r@ == #[trigger] p.item() && p.base_fee_per_gas == u64_(BASE_FEE_PER_GAS as nat) && p.chain_id == chain_id_of() ==> res == Ok::<Proposal, DecoderError>(p),
//@ start
    proof { assert forall|p: Proposal| r@ == #[trigger] p.item() implies list_fits::<ExtraData>(list_item(p.extra_data@)) && list_of::<ExtraData>(list_item(p.extra_data@)) == p.extra_data
        && list_fits::<H256>(list_item(p.tx_hashes@)) && list_of::<H256>(list_item(p.tx_hashes@)) == p.tx_hashes && Proof::fits(p.proof.item()) && Proof::of(p.proof.item()) == p.proof by {
        law_list::<ExtraData>(p.extra_data); law_list::<H256>(p.tx_hashes); Proof::law(p.proof); } }
//@end
}
impl Receipt {
//@fn protocol/src/codec/receipt.rs :: impl Encodable for Receipt/fn rlp_append
//@ spec
    ensures final(s)@ == old(s)@ + flat(self.item()),
//@ start
    let ghost s0 = s@;
//@ end
    proof { let v = self.item()->List_0; flat_list(v); reveal_with_fuel(toks_to, 14); assert(s@ =~= s0 + flat(self.item())); }
//@end
//@fn protocol/src/codec/receipt.rs :: impl Decodable for Receipt/fn decode
//@ ret res
//@ spec
    ensures forall|p: Receipt| r@ == #[trigger] p.item() ==> res == Ok::<Receipt, DecoderError>(p),
//@ start
    proof { assert forall|p: Receipt| r@ == #[trigger] p.item() implies list_fits::<Log>(list_item(p.logs@)) && list_of::<Log>(list_item(p.logs@)) == p.logs
        && Bloom::fits(p.logs_bloom.item()) && Bloom::of(p.logs_bloom.item()) == p.logs_bloom by { law_list::<Log>(p.logs); Bloom::law(p.logs_bloom); } }
//@end
}
impl TxResp {
//@fn protocol/src/codec/executor.rs :: impl Encodable for TxResp/fn rlp_append
//@ spec
    ensures final(s)@ == old(s)@ + flat(self.item()),
//@ start
    let ghost s0 = s@;
//@ end
    proof { let v = self.item()->List_0; flat_list(v); reveal_with_fuel(toks_to, 14); assert(s@ =~= s0 + flat(self.item())); }
//@end
//@fn protocol/src/codec/executor.rs :: impl Decodable for TxResp/fn decode
//@ ret res
//@ spec
    ensures forall|p: TxResp| r@ == #[trigger] p.item() ==> res == Ok::<TxResp, DecoderError>(p),
//@ start
    proof { assert forall|p: TxResp| r@ == #[trigger] p.item() implies list_fits::<Log>(list_item(p.logs@)) && list_of::<Log>(list_item(p.logs@)) == p.logs by { law_list::<Log>(p.logs); } }
//@end
}
impl Hex {
//@fn protocol/src/types/primitive.rs :: impl Hex/fn encode
//@ ret r
//@ sub /<T: AsRef<\[u8\]>>/ => /<T: AsBytes>/ 1
//@ sub /BytesMut::from\(src\.as_ref\(\)\)\.freeze\(\)/ => /copied(src)/ 1
//@ spec
    ensures r.0@ == src.bytes(),
//@end
//@fn protocol/src/types/primitive.rs :: impl AsRef<[u8]> for Hex/fn as_ref
//@ ret r
//@ spec
    ensures r@ == self.0@,
//@end
//@fn protocol/src/codec/mod.rs :: impl Encodable for Hex/fn rlp_append
//@ spec
    ensures final(s)@ == old(s)@ + flat(self.item()),
//@ start
    let ghost s0 = s@;
//@ end
    proof { let v = self.item()->List_0; flat_list(v); reveal_with_fuel(toks_to, 3); assert(s@ =~= s0 + flat(self.item())); }
//@end
//@fn protocol/src/codec/mod.rs :: impl Decodable for Hex/fn decode
//@ ret res
//@ spec
    ensures forall|x: Hex| r@ == #[trigger] x.item() ==> res == Ok::<Hex, DecoderError>(x),
//@end
}
#[verifier::external_body] pub fn copied<T: AsBytes>(s: T) -> (r: Bytes) ensures r@ == s.bytes() { unimplemented!() }
impl Address {
//@fn protocol/src/codec/mod.rs :: impl Encodable for Address/fn rlp_append
//@ spec
    ensures final(s)@ == old(s)@ + flat(self.item()),
//@ start
    let ghost s0 = s@;
//@ end
    proof { let v = self.item()->List_0; flat_list(v); reveal_with_fuel(toks_to, 3); assert(s@ =~= s0 + flat(self.item())); }
//@end
//@fn protocol/src/codec/mod.rs :: impl Decodable for Address/fn decode
//@ ret res
//@ spec
    ensures forall|x: Address| r@ == #[trigger] x.item() ==> res == Ok::<Address, DecoderError>(x),
//@end
}
}
fn main() {}
