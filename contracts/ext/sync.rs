// needs: tungstenite time
// The shared state of one client: the registry of callbacks behind its mutex, the queue of outgoing messages and the
// callbacks run, as a ghost log of effects in the order in which they happen.
// What other threads do between two critical sections of this one is unknown: a lock yields an arbitrary registry.
use crate::socket_io_client::callbacks::{Callbacks, EventCallback, AckCallback};
use crate::ext::tungstenite::Message;
/// the arguments of a received packet: its text, their positions, its attachments
pub struct ArgsView { pub text: Seq<char>, pub args: Seq<core::ops::Range<usize>>, pub attachments: Seq<crate::owned_subslice::OwnedSubslice<Vec<u8>>> }
/// where a reply goes: the queue it is put on, namespace, id, and whether it will be a binary packet
pub struct ReplyView { pub queue: int, pub ns: Seq<char>, pub id: u64, pub binary: bool }
pub enum Ev {
    /// one critical section of the registry
    Section { before: Callbacks, after: Callbacks },
    /// one unit put on a queue
    Sent { queue: int, unit: Seq<Message> },
    EventRun { cb: EventCallback, args: ArgsView, ack: Option<ReplyView> },
    AckRun { cb: AckCallback, args: ArgsView },
    /// a one-shot channel was completed
    Fired { chan: int },
    /// the peer was asked for a websocket at this URL
    Asked { url: Seq<char> },
    /// the websocket handshake ended
    Shook { ok: bool },
    /// a task was started
    Spawned { task: int },
    /// suspended, for no longer than that after the timer involved was made
    Waited { at_most: Option<crate::ext::time::Duration> },
    /// a timer ran out
    Elapsed,
    /// a one-shot channel yielded its value, or never will
    Got { chan: int },
    Lost { chan: int },
    /// a task ended
    Joined { task: int },
    /// a unit was taken from a queue
    Took { queue: int, unit: Seq<Message> },
    /// a frame was given to the websocket
    Wrote { msg: Message, ok: bool },
    WroteClose,
    /// a frame came in; an error; the end of the connection
    Read { msg: Message },
    Broken,
    Ended,
}
/// the token is the only witness of effects: whoever has it knows everything that happened
pub tracked struct World { pub ghost log: Seq<Ev>, pub ghost held: Option<Callbacks> }
impl World {
    /// this thread does not hold the registry
    pub open spec fn free(self) -> bool { self.held is None }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Mutex<T> { t: core::marker::PhantomData<T> }
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Arc<T> { t: core::marker::PhantomData<T> }
impl<T> Mutex<T> {
    #[verifier::external_body]
    pub fn new(t: T) -> (r: Self) { unimplemented!() }
}
impl<T> Arc<T> {
    #[verifier::external_body]
    pub fn new(t: T) -> (r: Self) { unimplemented!() }
}
impl<T> Clone for Arc<T> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self)
        ensures r == *self
    { unimplemented!() }
}
/// the guard of the registry's mutex
pub struct Guard { pub v: Callbacks }
impl Arc<Mutex<Callbacks>> {
    /// `lock().unwrap()`: waits for ever when this thread has the lock already
    #[verifier::external_body]
    pub fn vp_lock(&self, Tracked(w): Tracked<&mut World>) -> (g: Guard)
        requires old(w).held is None
        ensures final(w).held == Some(g.v), final(w).log == old(w).log
    { unimplemented!() }
}
impl Guard {
    /// the guard's value becomes the registry again
    #[verifier::external_body]
    pub fn vp_store(self, Tracked(w): Tracked<&mut World>)
        requires old(w).held is Some
        ensures final(w).held == old(w).held, final(w).log == old(w).log.push(Ev::Section { before: old(w).held->0, after: self.v })
    { unimplemented!() }
}
/// the guard is dropped
#[verifier::external_body]
pub fn vp_release(Tracked(w): Tracked<&mut World>)
    requires old(w).held is Some
    ensures final(w).held is None, final(w).log == old(w).log
{ unimplemented!() }

/// exactly one critical section happened, and nothing else
pub open spec fn one_section(w0: World, w1: World) -> bool {
    w1.log.len() == w0.log.len() + 1 && w1.log.last() is Section && w1.log == w0.log.push(w1.log.last()) && w1.free()
}
pub open spec fn section_before(w: World) -> Callbacks { w.log.last()->before }
pub open spec fn section_after(w: World) -> Callbacks { w.log.last()->after }
/// nothing happened
pub open spec fn quiet(w0: World, w1: World) -> bool { w1.log == w0.log && w1.held == w0.held }
pub open spec fn calm(e: Ev) -> bool { e is Section || e is Sent || e is EventRun || e is AckRun || e is Fired }
/// only calm things were added
pub open spec fn calmly(l0: Seq<Ev>, l1: Seq<Ev>) -> bool {
    l0.len() <= l1.len() && l1.take(l0.len() as int) =~= l0 && forall|i: int| l0.len() <= i < l1.len() ==> calm(#[trigger] l1[i])
}
