module socket_io_client::emit
-- ext sync futures serde tungstenite cow
-- needs socket_io_protocol::socket socket_io_protocol::socket::ser socket_io_protocol::socket::args socket_io_client socket_io_client::callbacks
-- use crate::socket_io_protocol::socket::ArgsError
-- raw
use crate::ext::sync::*;
use crate::ext::serde::*;
use crate::ext::cow::*;
use crate::socket_io_client::callbacks::*;
use crate::socket_io_protocol::socket::ser::{stands_for, frames_ok, arg_text, arg_bufs, same, is_bin, Kind};
use vstd::std_specs::convert::IntoSpec;
broadcast use {crate::ext::cow::axiom_cow_str, crate::ext::cow::axiom_cow_string, axiom_ack_self};
pub open spec fn id_of(c: Option<(AckCallback, u64)>) -> Option<u64> { match c { Some(x) => Some(x.1), None => None } }
// ------------------------------------------------------------------ C19: events under construction
/// the builder stands for an event of this namespace whose id is that of its callback
pub open spec fn event_ok(b: EventArgsBuilder) -> bool {
    exists|bin: bool, xs: Seq<Seq<char>>, ds: Seq<Seq<u8>>| #[trigger] event_is(b, bin, xs, ds)
}
pub open spec fn event_is(b: EventArgsBuilder, bin: bool, xs: Seq<Seq<char>>, ds: Seq<Seq<u8>>) -> bool {
    stands_for(b.builder, Kind::Event, b.namespace@, id_of(b.callback), bin, xs, ds)
}
#[verifier::prophetic]
pub open spec fn event_frames(b: EventArgsBuilder, fs: Seq<WsMessage>) -> bool {
    forall|bin: bool, xs: Seq<Seq<char>>, ds: Seq<Seq<u8>>| #[trigger] event_is(b, bin, xs, ds)
        ==> frames_ok(fs, Kind::Event, b.namespace@, id_of(b.callback), bin, xs, ds)
}
/// same event, same client
#[verifier::prophetic]
pub open spec fn event_frame(a: EventArgsBuilder, b: EventArgsBuilder) -> bool {
    b.namespace == a.namespace && b.callback == a.callback && *b.client == *a.client && *final(b.client) == *final(a.client)
}
/// one critical section that registers the callback under this id, then one unit queued, and nothing else
pub open spec fn ack_queued(w0: World, w1: World, ns: Seq<char>, id: u64, c: AckCallback) -> bool {
    let n = w0.log.len() as int;
    &&& w1.log.len() == n + 2 && w1.log == w0.log.push(w1.log[n]).push(w1.log[n + 1])
    &&& (w1.log[n] matches Ev::Section { before, after } && after.ack_at(ns, id) == Some(c)
                && acks_but(before, after, ns, id) && same_events(before, after) && same_fallbacks(before, after))
}
// ------------------------------------------------------------------ C18: replies under construction
pub open spec fn reply_is(b: AckArgsBuilder, ns: Seq<char>, id: u64, bin: bool, xs: Seq<Seq<char>>, ds: Seq<Seq<u8>>) -> bool {
    stands_for(b.builder, Kind::Ack, ns, Some(id), bin, xs, ds)
}
pub open spec fn reply_ok(b: AckArgsBuilder) -> bool {
    exists|ns: Seq<char>, id: u64, bin: bool, xs: Seq<Seq<char>>, ds: Seq<Seq<u8>>| #[trigger] reply_is(b, ns, id, bin, xs, ds)
}
pub open spec fn reply_frames(b: AckArgsBuilder, fs: Seq<WsMessage>) -> bool {
    forall|ns: Seq<char>, id: u64, bin: bool, xs: Seq<Seq<char>>, ds: Seq<Seq<u8>>| #[trigger] reply_is(b, ns, id, bin, xs, ds)
        ==> frames_ok(fs, Kind::Ack, ns, Some(id), bin, xs, ds)
}
/// what adding an argument does to a packet, whether it is accepted or not
pub open spec fn arg_added<T: Serialize + ?Sized>(a: PacketBuilder, b: PacketBuilder, t: &T, ok: bool) -> bool {
    if ok {
        forall|k: Kind, ns: Seq<char>, id: Option<u64>, bin: bool, xs: Seq<Seq<char>>, ds: Seq<Seq<u8>>|
            #[trigger] stands_for(a, k, ns, id, bin, xs, ds) ==> stands_for(b, k, ns, id, bin, xs.push(arg_text(a, t)), ds + arg_bufs(a, t))
    } else { same(a, b) }
}

pub proof fn lemma_same(a: PacketBuilder, b: PacketBuilder, k: Kind, ns: Seq<char>, id: Option<u64>, bin: bool, xs: Seq<Seq<char>>, ds: Seq<Seq<u8>>)
    requires same(a, b), stands_for(a, k, ns, id, bin, xs, ds)
    ensures stands_for(b, k, ns, id, bin, xs, ds)
{}

-- fn EventBuilder::new
ensures:
- *r.client == *old(client) && *final(r.client) == *final(client)
- r.event == event && r.namespace == namespace && !r.binary && r.callback is None

-- fn EventBuilder::binary
ensures:
- r == (EventBuilder { binary: b, ..self })

-- fn EventBuilder::callback
requires:
- old(self.client).next_id < u64::MAX
ensures:
- r.callback matches Some(x) && x.1 == old(self.client).next_id && ack_is(c, x.0)
- r.event == self.event && r.namespace == self.namespace && r.binary == self.binary
- *r.client == (Client { next_id: (old(self.client).next_id + 1) as u64, ..*old(self.client) })
- *final(r.client) == *final(self.client)

-- fn EventBuilder::args
ensures:
- r.namespace == self.namespace && r.callback == self.callback && *r.client == *old(self.client) && *final(r.client) == *final(self.client)
- event_is(r, self.binary, seq![json_str(self.event@)], seq![])

-- fn EventArgsBuilder::arg
requires:
- arg.pure()
- event_ok(self)
ensures:
- arg.total() ==> r is Ok
- r matches Ok(b) ==> event_frame(self, b) && arg_added(self.builder, b.builder, arg, true) && event_ok(b)

-- fn EventArgsBuilder::arg_ref
requires:
- arg.pure()
- event_ok(*old(self))
ensures:
- arg.total() ==> r is Ok
- event_frame(*old(self), *final(self)) && event_ok(*final(self))
- arg_added(old(self).builder, final(self).builder, arg, r is Ok)
proof tail:
proof {
    let (bin, xs, ds) = choose|bin: bool, xs: Seq<Seq<char>>, ds: Seq<Seq<u8>>| #[trigger] event_is(*old(self), bin, xs, ds);
    if r is Ok { assert(event_is(*self, bin, xs.push(arg_text(old(self).builder, arg)), ds + arg_bufs(old(self).builder, arg))); }
    else { lemma_same(old(self).builder, self.builder, Kind::Event, self.namespace@, id_of(self.callback), bin, xs, ds); assert(event_is(*self, bin, xs, ds)); }
}

-- fn EventArgsBuilder::send
requires:
- event_ok(self)
- old(vp_w).free()
ensures:
- final(vp_w).free()
- *final(self.client) == *old(self.client)
- final(vp_w).log.last() matches Ev::Sent { queue, unit } && queue == old(self.client).send.queue() && event_frames(self, unit)
- self.callback is None ==> final(vp_w).log == old(vp_w).log.push(final(vp_w).log.last())
- self.callback matches Some(x) ==> ack_queued(*old(vp_w), *final(vp_w), self.namespace@, x.1, x.0)

-- fn AckBuilder::new
ensures:
- text_is(namespace, r.namespace@)
- r.send == send && r.id == id && !r.binary

-- fn AckBuilder::binary
ensures:
- r == (AckBuilder { binary: b, ..self })

-- fn AckBuilder::args
ensures:
- r.send == self.send
- reply_is(r, self.namespace@, self.id, self.binary, seq![], seq![])

-- fn AckArgsBuilder::arg
requires:
- arg.pure()
- reply_ok(self)
ensures:
- arg.total() ==> r is Ok
- r matches Ok(b) ==> b.send == self.send && arg_added(self.builder, b.builder, arg, true) && reply_ok(b)

-- fn AckArgsBuilder::arg_ref
requires:
- arg.pure()
- reply_ok(*old(self))
ensures:
- arg.total() ==> r is Ok
- final(self).send == old(self).send && reply_ok(*final(self))
- arg_added(old(self).builder, final(self).builder, arg, r is Ok)
proof tail:
proof {
    let (ns, id, bin, xs, ds) = choose|ns: Seq<char>, id: u64, bin: bool, xs: Seq<Seq<char>>, ds: Seq<Seq<u8>>| #[trigger] reply_is(*old(self), ns, id, bin, xs, ds);
    if r is Ok { assert(reply_is(*self, ns, id, bin, xs.push(arg_text(old(self).builder, arg)), ds + arg_bufs(old(self).builder, arg))); }
    else { lemma_same(old(self).builder, self.builder, Kind::Ack, ns, Some(id), bin, xs, ds); assert(reply_is(*self, ns, id, bin, xs, ds)); }
}

-- fn AckArgsBuilder::send
requires:
- reply_ok(self)
ensures:
- final(vp_w).held == old(vp_w).held
- final(vp_w).log.len() == old(vp_w).log.len() + 1 && final(vp_w).log == old(vp_w).log.push(final(vp_w).log.last())
- final(vp_w).log.last() matches Ev::Sent { queue, unit } && queue == self.send.queue() && reply_frames(self, unit)
