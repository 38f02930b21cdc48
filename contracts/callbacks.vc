module socket_io_client::callbacks
-- ext map sync
-- needs socket_io_protocol::socket socket_io_protocol::socket::args socket_io_client::emit
-- raw
broadcast use crate::prelude::group_utf8;
use vstd::std_specs::convert::IntoSpec;
use crate::ext::sync::*;
/// the callback a conversion yields
pub open spec fn as_event<T: Into<EventCallback>>(t: T) -> EventCallback { <T as IntoSpec<EventCallback>>::into_spec(t) }
pub open spec fn as_ack<T: Into<AckCallback>>(t: T) -> AckCallback { <T as IntoSpec<AckCallback>>::into_spec(t) }
/// the conversion is a function of the value it converts
pub open spec fn event_conv<T: Into<EventCallback>>(t: T) -> bool { <T as IntoSpec<EventCallback>>::obeys_into_spec() }
pub open spec fn ack_conv<T: Into<AckCallback>>(t: T) -> bool { <T as IntoSpec<AckCallback>>::obeys_into_spec() }
/// `c` is what the conversion yields, where it is a function of the value
pub open spec fn ack_is<T: Into<AckCallback>>(t: T, c: AckCallback) -> bool { ack_conv(t) ==> c == as_ack(t) }
/// std: From<T> for T is the identity
pub broadcast proof fn axiom_ack_self(t: AckCallback, c: AckCallback)
    ensures #[trigger] ack_is::<AckCallback>(t, c) ==> c == t
{ admit(); }
impl Clone for EventCallback {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self)
        ensures r == *self
    { unimplemented!() }
}
// ------------------------------------------------------------------ C15, C17: what a registry holds, by key
impl Callbacks {
    pub open spec fn event_at(&self, ns: Seq<char>, ev: Seq<char>) -> Option<EventCallback> {
        if self.namespaces@.contains_key(ns) && self.namespaces@[ns].events@.contains_key(ev) { Some(self.namespaces@[ns].events@[ev]) } else { None }
    }
    pub open spec fn fallback_at(&self, ns: Seq<char>) -> Option<EventCallback> {
        if self.namespaces@.contains_key(ns) { self.namespaces@[ns].fallback } else { None }
    }
    pub open spec fn ack_at(&self, ns: Seq<char>, id: u64) -> Option<AckCallback> {
        if self.namespaces@.contains_key(ns) && self.namespaces@[ns].acks@.contains_key(id) { Some(self.namespaces@[ns].acks@[id]) } else { None }
    }
    /// the callback an event runs
    pub open spec fn found(&self, ns: Seq<char>, ev: Seq<char>) -> Option<EventCallback> {
        match self.event_at(ns, ev) { Some(c) => Some(c), None => self.fallback_at(ns) }
    }
}
pub open spec fn args_view(a: Args) -> ArgsView { ArgsView { text: a.message@, args: a.args@, attachments: a.attachments@ } }
pub open spec fn reply_view(a: Option<AckBuilder>) -> Option<ReplyView> {
    match a { Some(b) => Some(ReplyView { queue: b.send.queue(), ns: b.namespace@, id: b.id, binary: b.binary }), None => None }
}
pub open spec fn events_but(a: Callbacks, b: Callbacks, ns: Seq<char>, ev: Seq<char>) -> bool {
    forall|n: Seq<char>, e: Seq<char>| n != ns || e != ev ==> #[trigger] b.event_at(n, e) == a.event_at(n, e)
}
pub open spec fn same_events(a: Callbacks, b: Callbacks) -> bool { forall|n: Seq<char>, e: Seq<char>| #[trigger] b.event_at(n, e) == a.event_at(n, e) }
pub open spec fn fallbacks_but(a: Callbacks, b: Callbacks, ns: Seq<char>) -> bool {
    forall|n: Seq<char>| n != ns ==> #[trigger] b.fallback_at(n) == a.fallback_at(n)
}
pub open spec fn same_fallbacks(a: Callbacks, b: Callbacks) -> bool { forall|n: Seq<char>| #[trigger] b.fallback_at(n) == a.fallback_at(n) }
pub open spec fn acks_but(a: Callbacks, b: Callbacks, ns: Seq<char>, id: u64) -> bool {
    forall|n: Seq<char>, i: u64| n != ns || i != id ==> #[trigger] b.ack_at(n, i) == a.ack_at(n, i)
}
pub open spec fn same_acks(a: Callbacks, b: Callbacks) -> bool { forall|n: Seq<char>, i: u64| #[trigger] b.ack_at(n, i) == a.ack_at(n, i) }
pub open spec fn same_registry(a: Callbacks, b: Callbacks) -> bool { same_events(a, b) && same_fallbacks(a, b) && same_acks(a, b) }

/// a history of operations on events and fallbacks, and what it leaves: the last operation on a key decides
pub enum Op {
    SetEvent(Seq<char>, Seq<char>, EventCallback), ClearEvent(Seq<char>, Seq<char>),
    SetFallback(Seq<char>, EventCallback), ClearFallback(Seq<char>), Other,
}
pub open spec fn steps(a: Callbacks, op: Op, b: Callbacks) -> bool {
    match op {
        Op::SetEvent(ns, ev, c) => b.event_at(ns, ev) == Some(c) && events_but(a, b, ns, ev) && same_fallbacks(a, b),
        Op::ClearEvent(ns, ev) => b.event_at(ns, ev) is None && events_but(a, b, ns, ev) && same_fallbacks(a, b),
        Op::SetFallback(ns, c) => b.fallback_at(ns) == Some(c) && fallbacks_but(a, b, ns) && same_events(a, b),
        Op::ClearFallback(ns) => b.fallback_at(ns) is None && fallbacks_but(a, b, ns) && same_events(a, b),
        Op::Other => same_events(a, b) && same_fallbacks(a, b),
    }
}
/// the callback last set for this event and not cleared since
pub open spec fn last_event(h: Seq<Op>, ns: Seq<char>, ev: Seq<char>) -> Option<EventCallback>
    decreases h.len()
{
    if h.len() == 0 { None } else { match h.last() {
        Op::SetEvent(n, e, c) => if n == ns && e == ev { Some(c) } else { last_event(h.drop_last(), ns, ev) },
        Op::ClearEvent(n, e) => if n == ns && e == ev { None } else { last_event(h.drop_last(), ns, ev) },
        _ => last_event(h.drop_last(), ns, ev),
    } }
}
pub open spec fn last_fallback(h: Seq<Op>, ns: Seq<char>) -> Option<EventCallback>
    decreases h.len()
{
    if h.len() == 0 { None } else { match h.last() {
        Op::SetFallback(n, c) => if n == ns { Some(c) } else { last_fallback(h.drop_last(), ns) },
        Op::ClearFallback(n) => if n == ns { None } else { last_fallback(h.drop_last(), ns) },
        _ => last_fallback(h.drop_last(), ns),
    } }
}
/// every history: what is found is the last event callback, else the last fallback, else nothing
pub proof fn history(states: Seq<Callbacks>, h: Seq<Op>, ns: Seq<char>, ev: Seq<char>)
    requires
        states.len() == h.len() + 1,
        forall|n: Seq<char>, e: Seq<char>| (#[trigger] states[0].event_at(n, e)) is None,
        forall|n: Seq<char>| (#[trigger] states[0].fallback_at(n)) is None,
        forall|i: int| 0 <= i < h.len() ==> steps(states[i], #[trigger] h[i], states[i + 1]),
    ensures
        states.last().found(ns, ev) == match last_event(h, ns, ev) { Some(c) => Some(c), None => last_fallback(h, ns) },
        states.last().event_at(ns, ev) == last_event(h, ns, ev),
        states.last().fallback_at(ns) == last_fallback(h, ns),
    decreases h.len()
{
    if h.len() > 0 {
        let n = h.len() - 1;
        let (s2, h2) = (states.drop_last(), h.drop_last());
        assert forall|i: int| 0 <= i < h2.len() implies steps(s2[i], #[trigger] h2[i], s2[i + 1]) by { assert(h2[i] == h[i]); }
        history(s2, h2, ns, ev);
        assert(s2.last() == states[n]);
        assert(steps(states[n], h[n], states[n + 1]));
        match h[n] {
            Op::SetEvent(a, b, c) => { if a == ns && b == ev {} else { assert(states[n + 1].event_at(ns, ev) == states[n].event_at(ns, ev)); } }
            Op::ClearEvent(a, b) => { if a == ns && b == ev {} else { assert(states[n + 1].event_at(ns, ev) == states[n].event_at(ns, ev)); } }
            Op::SetFallback(a, c) => { if a == ns {} else { assert(states[n + 1].fallback_at(ns) == states[n].fallback_at(ns)); } }
            Op::ClearFallback(a) => { if a == ns {} else { assert(states[n + 1].fallback_at(ns) == states[n].fallback_at(ns)); } }
            Op::Other => {}
        }
    }
}

-- raw [C17]
/// what happens to acks: an event is sent with a callback, an ack arrives, anything else
pub enum AckOp { Set(Seq<char>, u64, AckCallback), Take(Seq<char>, u64), Other }
pub open spec fn ack_steps(a: Callbacks, op: AckOp, b: Callbacks) -> bool {
    match op {
        AckOp::Set(ns, id, c) => b.ack_at(ns, id) == Some(c) && acks_but(a, b, ns, id),
        AckOp::Take(ns, id) => b.ack_at(ns, id) is None && acks_but(a, b, ns, id),
        AckOp::Other => same_acks(a, b),
    }
}
pub open spec fn ack_run_of(states: Seq<Callbacks>, h: Seq<AckOp>) -> bool {
    &&& states.len() == h.len() + 1
    &&& forall|n: Seq<char>, i: u64| (#[trigger] states[0].ack_at(n, i)) is None
    &&& forall|i: int| 0 <= i < h.len() ==> ack_steps(states[i], #[trigger] h[i], states[i + 1])
}
pub open spec fn is_set(op: AckOp, ns: Seq<char>, id: u64) -> bool { op matches AckOp::Set(n, i, c) && n == ns && i == id }
pub open spec fn is_take(op: AckOp, ns: Seq<char>, id: u64) -> bool { op matches AckOp::Take(n, i) && n == ns && i == id }
/// the callback an ack finds is that of an earlier event with this namespace and id, not acknowledged in between
pub proof fn ack_found(states: Seq<Callbacks>, h: Seq<AckOp>, j: int, ns: Seq<char>, id: u64) -> (i: int)
    requires ack_run_of(states, h), 0 <= j <= h.len(), states[j].ack_at(ns, id) is Some
    ensures 0 <= i < j, h[i] == AckOp::Set(ns, id, states[j].ack_at(ns, id)->0), forall|k: int| i < k < j ==> !is_take(#[trigger] h[k], ns, id)
    decreases j
{
    if j == 0 { assert(states[0].ack_at(ns, id) is None); 0 } else {
        assert(ack_steps(states[j - 1], h[j - 1], states[j]));
        if is_set(h[j - 1], ns, id) { j - 1 } else {
            assert(!is_take(h[j - 1], ns, id));
            assert(states[j].ack_at(ns, id) == states[j - 1].ack_at(ns, id));
            ack_found(states, h, j - 1, ns, id)
        }
    }
}
/// at most one ack per event sent: with ids that are distinct, a second ack finds nothing
pub proof fn ack_once(states: Seq<Callbacks>, h: Seq<AckOp>, j: int, k: int, ns: Seq<char>, id: u64)
    requires
        ack_run_of(states, h), 0 <= j < k < h.len(), is_take(h[j], ns, id), is_take(h[k], ns, id), states[j].ack_at(ns, id) is Some,
        forall|a: int, b: int| 0 <= a < b < h.len() && is_set(#[trigger] h[a], ns, id) ==> !is_set(#[trigger] h[b], ns, id),
    ensures states[k].ack_at(ns, id) is None
{
    if states[k].ack_at(ns, id) is Some {
        let a = ack_found(states, h, j, ns, id);
        let b = ack_found(states, h, k, ns, id);
        assert(is_set(h[a], ns, id) && is_set(h[b], ns, id));
        assert(is_take(h[j], ns, id));
        assert(false);
    }
}

-- type EventCallback
#[verifier::external_body]
pub struct EventCallback {}

-- type AckCallback
#[verifier::external_body]
pub struct AckCallback {}

-- fn EventCallback::call
mode trusted
world
note runs code of the user: its own effects are its own, and it may wait for anything that another thread does
requires:
- old(vp_w).free()
- crate::socket_io_protocol::socket::args::args_ok(*args)
ensures:
- final(vp_w).free()
- final(vp_w).log == old(vp_w).log.push(Ev::EventRun { cb: *old(self), args: args_view(*args), ack: reply_view(ack) })

-- fn AckCallback::call
mode trusted
world
note runs code of the user
requires:
- old(vp_w).free()
- crate::socket_io_protocol::socket::args::args_ok(*args)
ensures:
- final(vp_w).free()
- final(vp_w).log == old(vp_w).log.push(Ev::AckRun { cb: self, args: args_view(*args) })

-- fn Callbacks::new
ensures:
- forall|n: Seq<char>, e: Seq<char>| (#[trigger] r.event_at(n, e)) is None
- forall|n: Seq<char>| (#[trigger] r.fallback_at(n)) is None
- forall|n: Seq<char>, i: u64| (#[trigger] r.ack_at(n, i)) is None

-- fn Callbacks::get_event
ensures:
- r == self.found(namespace@, event@)

-- fn Callbacks::set_event
ensures:
- event_conv(callback) ==> final(self).event_at(namespace@, event@) == Some(as_event(callback))
- events_but(*old(self), *final(self), namespace@, event@)
- same_fallbacks(*old(self), *final(self))
- same_acks(*old(self), *final(self))

-- fn Callbacks::clear_event
ensures:
- final(self).event_at(namespace@, event@) is None
- events_but(*old(self), *final(self), namespace@, event@)
- same_fallbacks(*old(self), *final(self))
- same_acks(*old(self), *final(self))

-- fn Callbacks::set_fallback
ensures:
- event_conv(callback) ==> final(self).fallback_at(namespace@) == Some(as_event(callback))
- fallbacks_but(*old(self), *final(self), namespace@)
- same_events(*old(self), *final(self))
- same_acks(*old(self), *final(self))

-- fn Callbacks::clear_fallback
ensures:
- final(self).fallback_at(namespace@) is None
- fallbacks_but(*old(self), *final(self), namespace@)
- same_events(*old(self), *final(self))
- same_acks(*old(self), *final(self))

-- fn Callbacks::get_and_clear_ack
ensures:
- r == old(self).ack_at(namespace@, id)
- final(self).ack_at(namespace@, id) is None
- acks_but(*old(self), *final(self), namespace@, id)
- same_events(*old(self), *final(self))
- same_fallbacks(*old(self), *final(self))

-- fn Callbacks::set_ack
ensures:
- final(self).ack_at(namespace@, id) matches Some(c) && ack_is(callback, c)
- acks_but(*old(self), *final(self), namespace@, id)
- same_events(*old(self), *final(self))
- same_fallbacks(*old(self), *final(self))

-- fn Callbacks::get_or_create_namespace
ensures:
- *r == if old(self).namespaces@.contains_key(namespace@) { old(self).namespaces@[namespace@] } else { *r }
- !old(self).namespaces@.contains_key(namespace@) ==> r.fallback is None && r.events@ == Map::<Seq<char>, EventCallback>::empty() && r.acks@ == Map::<u64, AckCallback>::empty()
- final(self).namespaces@ == old(self).namespaces@.insert(namespace@, *final(r))

-- fn Namespace::new
ensures:
- r.fallback is None && r.events@ == Map::<Seq<char>, EventCallback>::empty() && r.acks@ == Map::<u64, AckCallback>::empty()
