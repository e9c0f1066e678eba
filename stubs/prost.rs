//! Stand-in for prost (not available offline).
pub use prost_derive::Message;
#[derive(Debug)]
pub struct NoWire;
impl std::fmt::Display for NoWire { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("no wire format") } }
impl std::error::Error for NoWire {}
pub trait Message: Sized {
    fn encoded_len(&self) -> usize { 0 }
    fn encode(&self, _: &mut Vec<u8>) -> Result<(), NoWire> { Err(NoWire) }
    fn decode<B>(_: B) -> Result<Self, NoWire> { Err(NoWire) }
}
