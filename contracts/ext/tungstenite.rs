// websocket messages of tungstenite 0.11 (the Close payload is opaque)
#[verifier::external_body]
pub struct CloseFrame {}
pub enum Message { Text(String), Binary(Vec<u8>), Ping(Vec<u8>), Pong(Vec<u8>), Close(Option<CloseFrame>) }
impl vstd::std_specs::cmp::PartialEqSpecImpl for Message {
    open spec fn obeys_eq_spec() -> bool { false }
    open spec fn eq_spec(&self, o: &Message) -> bool { *self == *o }
}
impl PartialEq for Message {
    #[verifier::external_body]
    fn eq(&self, o: &Message) -> (r: bool)
        ensures r == match (*self, *o) { (Message::Text(a), Message::Text(b)) => a@ == b@, (Message::Binary(a), Message::Binary(b)) => a@ == b@,
            (Message::Ping(a), Message::Ping(b)) => a@ == b@, (Message::Pong(a), Message::Pong(b)) => a@ == b@,
            (Message::Close(_), Message::Close(_)) => r, _ => false }
    { unimplemented!() }
}
impl Message {
    pub fn is_text(&self) -> (r: bool) ensures r == (*self is Text) { match self { Message::Text(_) => true, _ => false } }
    pub fn is_binary(&self) -> (r: bool) ensures r == (*self is Binary) { match self { Message::Binary(_) => true, _ => false } }
    pub fn is_ping(&self) -> (r: bool) ensures r == (*self is Ping) { match self { Message::Ping(_) => true, _ => false } }
    pub fn is_pong(&self) -> (r: bool) ensures r == (*self is Pong) { match self { Message::Pong(_) => true, _ => false } }
    pub fn is_close(&self) -> (r: bool) ensures r == (*self is Close) { match self { Message::Close(_) => true, _ => false } }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize)
        ensures r as int == match *self { Message::Text(t) => utf8(t@).len() as int, Message::Binary(d) | Message::Ping(d) | Message::Pong(d) => d@.len() as int, _ => r as int }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool)
        ensures r == match *self { Message::Text(t) => t@.len() == 0, Message::Binary(d) | Message::Ping(d) | Message::Pong(d) => d@.len() == 0, _ => r }
    { unimplemented!() }
}
impl Clone for Message {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
pub mod error {
    use vstd::prelude::*;
    #[verifier::external_body]
    #[derive(Debug)]
    pub struct Cause {}
    #[derive(Debug)]
    pub enum Error { ConnectionClosed, AlreadyClosed, Other(Cause) }
}
pub use error::Error;
/// a vector of messages takes at most isize::MAX bytes
pub broadcast axiom fn axiom_messages_len(v: Vec<Message>)
    ensures #[trigger] v@.len() <= isize::MAX;
