// needs: net sync time tungstenite futures
use crate::ext::net::*;
use crate::ext::sync::*;
use crate::ext::time::Duration;
use crate::ext::tungstenite::{Error, Message};
/// a websocket whose handshake is done
#[verifier::external_body]
#[verifier::accept_recursive_types(S)]
pub struct WebSocketStream<S> { s: core::marker::PhantomData<S> }
/// the two halves of a websocket
#[verifier::external_body]
#[verifier::accept_recursive_types(S)]
pub struct WsSink<S> { s: core::marker::PhantomData<S> }
#[verifier::external_body]
#[verifier::accept_recursive_types(S)]
pub struct WsStream<S> { s: core::marker::PhantomData<S> }
#[verifier::external_body]
#[derive(Debug)]
pub struct ReuniteError {}
/// the next frame
#[verifier::external_body]
pub struct NextMsg<'a> { s: core::marker::PhantomData<&'a mut u8> }
impl<'a> Fut for NextMsg<'a> {
    type Out = Option<Result<Message, Error>>;
    open spec fn can(&self, v: Self::Out) -> bool { true }
    open spec fn done(&self, v: Self::Out) -> Ev {
        match v { Some(Ok(msg)) => Ev::Read { msg }, Some(Err(_)) => Ev::Broken, None => Ev::Ended }
    }
    open spec fn limit(&self) -> Option<Duration> { None }
    fn fuse(self) -> (r: Self) { self }
}
impl<'a> NextMsg<'a> {
    #[verifier::external_body]
    pub async fn vp_wait(self, Tracked(w): Tracked<&mut World>) -> (v: Option<Result<Message, Error>>)
        ensures
            self.can(v), final(w).held == old(w).held,
            final(w).log == old(w).log.push(Ev::Waited { at_most: None }).push(self.done(v)),
    { unimplemented!() }
}
impl<S> WebSocketStream<S> {
    #[verifier::external_body]
    pub fn split(self) -> (r: (WsSink<S>, WsStream<S>))
    { unimplemented!() }
    /// sends a close frame (whether it could be sent is not known)
    #[verifier::external_body]
    pub async fn close(&mut self, frame: Option<crate::ext::tungstenite::CloseFrame>, Tracked(w): Tracked<&mut World>) -> (r: Result<(), Error>)
        ensures final(w).held == old(w).held, final(w).log == old(w).log.push(Ev::WroteClose)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: NextMsg<'_>)
    { unimplemented!() }
}
impl<S> WsSink<S> {
    #[verifier::external_body]
    pub async fn send(&mut self, msg: Message, Tracked(w): Tracked<&mut World>) -> (r: Result<(), Error>)
        ensures
            final(w).held == old(w).held,
            final(w).log == old(w).log.push(Ev::Wrote { msg, ok: r is Ok }),
    { unimplemented!() }
    /// the halves belong together: there is one socket of the type `S` a caller of `split` is generic over
    #[verifier::external_body]
    pub fn reunite(self, other: WsStream<S>) -> (r: Result<WebSocketStream<S>, ReuniteError>)
        ensures r is Ok
    { unimplemented!() }
}
impl<S> WsStream<S> {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: NextMsg<'_>)
    { unimplemented!() }
}
pub mod async_tls {
    use vstd::prelude::*;
    use crate::ext::net::*;
    use crate::ext::sync::*;
    use crate::ext::time::Duration;
    use crate::ext::tungstenite::Error;
    use super::WebSocketStream;
    #[verifier::external_body]
    pub struct Response {}
    #[verifier::external_body]
    #[verifier::accept_recursive_types(S)]
    pub struct Handshake<S> { s: core::marker::PhantomData<S> }
    impl<S> Fut for Handshake<S> {
        type Out = Result<(WebSocketStream<S>, Response), Error>;
        open spec fn can(&self, v: Self::Out) -> bool { true }
        open spec fn done(&self, v: Self::Out) -> Ev { Ev::Shook { ok: v is Ok } }
        open spec fn limit(&self) -> Option<Duration> { None }
        fn fuse(self) -> (r: Self) { self }
    }
    /// asks the peer for `url` over `connection` (over TLS when the scheme is wss)
    #[verifier::external_body]
    pub fn client_async_tls<S>(url: String, connection: S, Tracked(w): Tracked<&mut World>) -> (r: Handshake<S>)
        ensures final(w).held == old(w).held, final(w).log == old(w).log.push(Ev::Asked { url: url@ })
    { unimplemented!() }
}
