//! Stand-in for the parts of `jsonrpsee` the API's methods name (its server feature is not among the prebuilt
//! libraries); the error types are those of the real jsonrpsee-types. Subscriptions: a sink keeps the messages that
//! were sent (awaited, as the real one's `send` must be) to it.
pub mod types { pub use jsonrpsee_types::*; }
pub mod core { pub type RpcResult<T> = Result<T, jsonrpsee_types::ErrorObjectOwned>; }
pub mod proc_macros { pub use jsonrpsee_macros::rpc; }
pub mod server {
    use jsonrpsee_types::{ErrorObjectOwned, Params, SubscriptionId};
    use std::future::Future;
    use std::pin::Pin;
    use std::sync::atomic::{AtomicBool, Ordering};
    use std::sync::{Arc, Mutex};
    pub trait IdProvider: Send + Sync + std::fmt::Debug { fn next_id(&self) -> SubscriptionId<'static>; }
    pub trait IntoSubscriptionCloseResponse {}
    impl IntoSubscriptionCloseResponse for () {}
    #[derive(Debug)] pub struct StringError(String);
    impl<T: ToString> From<T> for StringError { fn from(x: T) -> Self { StringError(x.to_string()) } }
    impl IntoSubscriptionCloseResponse for Result<(), StringError> {}
    #[derive(Debug, Clone)] pub struct SubscriptionMessage(pub serde_json::Value);
    impl SubscriptionMessage { pub fn from_json<T: serde::Serialize>(x: &T) -> Result<Self, serde_json::Error> { serde_json::to_value(x).map(SubscriptionMessage) } }
    #[derive(Debug)] pub struct DisconnectError(pub SubscriptionMessage);
    #[derive(Debug)] pub struct PendingSubscriptionAcceptError;
    impl std::fmt::Display for PendingSubscriptionAcceptError { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "closed") } }
    #[derive(Debug)] pub struct TrySendError;
    /// what the other side of a subscription sees
    #[derive(Debug, Clone, Default)] pub struct Inbox { got: Arc<Mutex<Vec<serde_json::Value>>>, closed: Arc<AtomicBool>, refused: Arc<Mutex<Option<ErrorObjectOwned>>>, accepted: Arc<AtomicBool> }
    impl Inbox {
        pub fn got(&self) -> Vec<serde_json::Value> { self.got.lock().unwrap().clone() }
        pub fn close(&self) { self.closed.store(true, Ordering::SeqCst) }
        pub fn refused(&self) -> Option<ErrorObjectOwned> { self.refused.lock().unwrap().clone() }
        pub fn accepted(&self) -> bool { self.accepted.load(Ordering::SeqCst) }
        pub fn pending(&self) -> PendingSubscriptionSink { PendingSubscriptionSink(self.clone()) }
        pub fn sink(&self) -> SubscriptionSink { SubscriptionSink(self.clone()) }
    }
    #[derive(Debug)] pub struct PendingSubscriptionSink(Inbox);
    impl PendingSubscriptionSink {
        pub async fn accept(self) -> Result<SubscriptionSink, PendingSubscriptionAcceptError> { self.0.accepted.store(true, Ordering::SeqCst); Ok(SubscriptionSink(self.0)) }
        pub async fn reject(self, e: impl Into<ErrorObjectOwned>) { *self.0.refused.lock().unwrap() = Some(e.into()); }
    }
    #[derive(Debug, Clone)] pub struct SubscriptionSink(Inbox);
    impl SubscriptionSink {
        pub async fn send(&self, m: SubscriptionMessage) -> Result<(), DisconnectError> { if self.is_closed() { return Err(DisconnectError(m)); } self.0.got.lock().unwrap().push(m.0); Ok(()) }
        pub async fn send_timeout(&self, m: SubscriptionMessage, _: std::time::Duration) -> Result<(), DisconnectError> { self.send(m).await }
        pub fn try_send(&mut self, m: SubscriptionMessage) -> Result<(), TrySendError> { if self.is_closed() { return Err(TrySendError); } self.0.got.lock().unwrap().push(m.0); Ok(()) }
        pub fn is_closed(&self) -> bool { self.0.closed.load(Ordering::SeqCst) }
    }
    type Back<C> = Arc<dyn Fn(Params<'static>, PendingSubscriptionSink, Arc<C>) -> Pin<Box<dyn Future<Output = ()> + Send>> + Send + Sync>;
    pub struct RpcModule<C> { ctx: Arc<C>, subs: Vec<(&'static str, &'static str, &'static str, Back<C>)> }
    impl<C: Send + Sync + 'static> RpcModule<C> {
        pub fn new(c: C) -> Self { RpcModule { ctx: Arc::new(c), subs: vec![] } }
        pub fn register_subscription<R, F, Fut>(&mut self, sub: &'static str, note: &'static str, unsub: &'static str, f: F) -> Result<(), String>
        where F: (Fn(Params<'static>, PendingSubscriptionSink, Arc<C>) -> Fut) + Send + Sync + Clone + 'static, Fut: Future<Output = R> + Send + 'static, R: IntoSubscriptionCloseResponse + Send {
            self.subs.push((sub, note, unsub, Arc::new(move |p, s, c| { let x = f(p, s, c); Box::pin(async move { let _ = x.await; }) })));
            Ok(())
        }
        pub fn names(&self) -> Vec<(&'static str, &'static str, &'static str)> { self.subs.iter().map(|x| (x.0, x.1, x.2)).collect() }
        /// a client's call of a subscription method
        pub async fn subscribe(&self, name: &str, params: String) -> Option<Inbox> {
            let f = self.subs.iter().find(|x| x.0 == name)?.3.clone();
            let b = Inbox::default();
            let text: &'static str = Box::leak(params.into_boxed_str());
            f(Params::new(Some(text)), b.pending(), self.ctx.clone()).await;
            Some(b)
        }
    }
}
