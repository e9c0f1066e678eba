//! Stand-in for core-network's items that the mempool and the consensus use (tentacle is not available offline).
pub mod multiaddr {}
use protocol::types::Bytes;
use protocol::{ProtocolError, ProtocolErrorKind, ProtocolResult, traits::Context};
#[derive(Debug)]
pub struct NetworkError(pub String);
impl std::fmt::Display for NetworkError { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(&self.0) } }
impl std::error::Error for NetworkError {}
impl From<NetworkError> for ProtocolError { fn from(e: NetworkError) -> ProtocolError { ProtocolError::new(ProtocolErrorKind::Network, Box::new(e)) } }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct SessionId(pub usize);
impl SessionId { pub fn value(&self) -> usize { self.0 } }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct PeerId(pub Vec<u8>);
pub trait PeerIdExt {
    fn from_pubkey_bytes<'a, B: AsRef<[u8]> + 'a>(bytes: B) -> Result<PeerId, NetworkError> { Ok(PeerId(bytes.as_ref().to_vec())) }
    fn into_bytes_ext(self) -> Bytes;
}
impl PeerIdExt for PeerId { fn into_bytes_ext(self) -> Bytes { Bytes::from(self.0) } }
pub trait NetworkContext: Sized { fn session_id(&self) -> Result<SessionId, NetworkError>; fn set_session_id(&mut self, s: SessionId) -> Self; }
impl NetworkContext for Context {
    fn session_id(&self) -> Result<SessionId, NetworkError> { self.get::<usize>("session_id").map(|s| SessionId(*s)).ok_or(NetworkError("no session id".into())) }
    fn set_session_id(&mut self, s: SessionId) -> Self { self.with_value::<usize>("session_id", s.0) }
}
