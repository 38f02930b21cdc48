module socket_io_client::receiver
-- ext sync futures serde tungstenite cow
-- needs owned_subslice socket_io_protocol::engine socket_io_protocol::socket socket_io_protocol::socket::de socket_io_protocol::socket::args socket_io_protocol::socket::args::deserialize_attachments socket_io_client::callbacks socket_io_client::emit
-- raw
use crate::ext::sync::*;
use crate::ext::serde::*;
use crate::ext::cow::str_de;
use crate::socket_io_protocol::socket::args::deserialize_attachments::data_of;
use crate::owned_subslice::*;
use crate::socket_io_client::callbacks::*;
use crate::socket_io_protocol::engine::{accepts, denotes, rest, session_ok, State, is_text_frame};
use crate::socket_io_protocol::socket::{packet_ok, packet_ns, Kind};
use crate::socket_io_protocol::socket::args::args_ok;
use crate::socket_io_protocol::socket::de::{acceptable, announced, packet_is, n_att, content_ok, all_binary, payloads, Shape};
broadcast use {crate::prelude::group_utf8, crate::ext::serde::axiom_json_tree, crate::ext::cow::lemma_text_str};

// ------------------------------------------------------------------ what a complete packet does
pub open spec fn p_ns(p: Packet) -> Seq<char> { decode_utf8(packet_ns(p)) }
/// the text of the first argument
pub open spec fn p_first(p: Packet) -> Seq<char> { decode_utf8(span(win_s(p.message), p.args@[0].start as int, p.args@[0].end as int)) }
/// the first argument with the attachments in place of the placeholders
pub open spec fn p_filled(p: Packet) -> In { filled_in(json_tree(p_first(p)), p.attachments@.len(), data_of(p.attachments@)) }
/// `name` is the event name: the first argument, when it is a JSON string. (When it is a placeholder for an attachment, the bytes
/// of that attachment may be taken for the text they encode.)
pub open spec fn named(p: Packet, name: Option<Seq<char>>) -> bool {
    if p.args@.len() == 0 { name is None }
    else if p.attachments@.len() == 0 { name == str_de(p_first(p)) }
    else { whole(p_first(p)) ==> match p_filled(p) {
        In::Str(s) => name == Some(s),
        In::Hole(b) => name is Some ==> valid_utf8(b) && name == Some(decode_utf8(b)),
        In::Odd => json_tree(p_first(p)) is Obj,
        _ => name is None,
    } }
}
pub open spec fn p_args(p: Packet) -> ArgsView { ArgsView { text: decode_utf8(win_s(p.message)), args: p.args@, attachments: p.attachments@ } }
pub open spec fn p_reply(p: Packet, q: int) -> Option<ReplyView> {
    match p.id { Some(id) => Some(ReplyView { queue: q, ns: p_ns(p), id, binary: false }), None => None }
}
/// C16, C17: exactly one lookup under exactly this namespace and name or id, then exactly the callback found, once
pub open spec fn ran(p: Packet, q: int, w0: World, w1: World, ok: bool) -> bool {
    let s = w1.log[w0.log.len() as int];
    match p.kind {
        Kind::Connect => quiet(w0, w1) && ok,
        Kind::Disconnect => quiet(w0, w1) && ok,
        Kind::Event => {
            ||| named(p, None) && quiet(w0, w1) && !ok
            ||| w1.log.len() > w0.log.len() && (s matches Ev::Section { before, after } && ok && same_registry(before, after)
                && exists|name: Seq<char>| named(p, Some(name)) && w1.log == match #[trigger] before.found(p_ns(p), name) {
                    Some(cb) => w0.log.push(s).push(Ev::EventRun { cb, args: p_args(p), ack: p_reply(p, q) }),
                    None => w0.log.push(s),
                })
        },
        Kind::Ack => w1.log.len() > w0.log.len() && (s matches Ev::Section { before, after }
            && same_events(before, after) && same_fallbacks(before, after) && acks_but(before, after, p_ns(p), p.id->0)
            && after.ack_at(p_ns(p), p.id->0) is None
            && ok == (before.ack_at(p_ns(p), p.id->0) is Some)
            && w1.log == match before.ack_at(p_ns(p), p.id->0) {
                Some(cb) => w0.log.push(s).push(Ev::AckRun { cb, args: p_args(p) }),
                None => w0.log.push(s),
            }),
    }
}

// ------------------------------------------------------------------ what a message does
pub open spec fn msg_ok(m: EngineMessage) -> bool {
    match m { EngineMessage::Text(t) => win_ok_s(t), EngineMessage::Binary(d) => win_ok_v(d) }
}
pub open spec fn msgs_ok(ms: Seq<EngineMessage>) -> bool { forall|i: int| 0 <= i < ms.len() ==> msg_ok(#[trigger] ms[i]) }
/// the packet that waits for its attachments
pub open spec fn waits_for(ip: InProgress, b: Seq<u8>, sh: Shape) -> bool {
    announced(ip.partial, b, sh) && ip.attachments@.len() < n_att(b, sh) && msgs_ok(ip.attachments@)
}
pub open spec fn recv_ok(r: Receiver) -> bool {
    r.in_progress matches Some(ip) ==> exists|b: Seq<u8>, sh: Shape| #[trigger] waits_for(ip, b, sh)
}
/// the frame `m` comes from
pub open spec fn carries(m: EngineMessage, msg: WsMessage) -> bool {
    msg_ok(m) && match m {
        EngineMessage::Text(o) => msg matches WsMessage::Text(t) && win_s(o) == rest(utf8(t@)),
        EngineMessage::Binary(o) => msg matches WsMessage::Binary(d) && win_v(o) == rest(d@),
    }
}
/// with nothing in progress: a complete packet is processed, a packet with attachments waits for them
pub open spec fn started(msg: WsMessage, ip: Option<InProgress>, q: int, w0: World, w1: World, ok: bool) -> bool {
    match msg {
        WsMessage::Text(t) => {
            let b = rest(utf8(t@));
            &&& (forall|sh: Shape| !(#[trigger] acceptable(b, sh))) ==> !ok && quiet(w0, w1) && ip is None
            &&& forall|sh: Shape| #[trigger] acceptable(b, sh) ==>
                if n_att(b, sh) == 0 {
                    ip is None && exists|p: Packet| #[trigger] packet_is(p, b, sh, seq![]) && ran(p, q, w0, w1, ok)
                } else {
                    ok && quiet(w0, w1) && (ip matches Some(x) && announced(x.partial, b, sh) && x.attachments@.len() == 0)
                }
        },
        _ => !ok && quiet(w0, w1) && ip is None,
    }
}
/// with a packet in progress: the message is its next attachment; the last one completes it
pub open spec fn continued(msg: WsMessage, ip0: InProgress, b: Seq<u8>, sh: Shape, ip: Option<InProgress>, q: int, w0: World, w1: World, ok: bool) -> bool {
    exists|m: EngineMessage| #[trigger] carries(m, msg) && ({
        let ms = ip0.attachments@.push(m);
        if ms.len() < n_att(b, sh) {
            ok && quiet(w0, w1) && (ip matches Some(x) && x.partial == ip0.partial && x.attachments@ == ms)
        } else {
            &&& ip is None
            &&& if all_binary(ms) && content_ok(b, sh) {
                    exists|p: Packet| #[trigger] packet_is(p, b, sh, payloads(ms)) && ran(p, q, w0, w1, ok)
                } else { !ok && quiet(w0, w1) }
        }
    })
}
/// the type of a frame, as a character (an accepted binary frame is a message)
pub open spec fn head(msg: WsMessage) -> u8 {
    match msg { WsMessage::Text(t) => utf8(t@)[0], WsMessage::Binary(d) => 52u8, _ => 0u8 }
}
pub open spec fn same_but(a: Receiver, b: Receiver) -> bool { b.sender == a.sender && b.callbacks == a.callbacks }
pub open spec fn handled(r0: Receiver, msg: WsMessage, r1: Receiver, w0: World, w1: World, ok: bool) -> bool {
    let st = r0.decoder.state;
    &&& same_but(r0, r1)
    &&& if !accepts(st, msg) {
            !ok && quiet(w0, w1) && r1.decoder.state == st && r1.in_progress == r0.in_progress && r1.open == r0.open
        } else if head(msg) == 52 {
            &&& r1.decoder.state == st && r1.open == r0.open
            &&& r0.in_progress is None ==> started(msg, r1.in_progress, r0.sender.queue(), w0, w1, ok)
            &&& r0.in_progress matches Some(ip) ==> forall|b: Seq<u8>, sh: Shape| #[trigger] waits_for(ip, b, sh)
                    ==> continued(msg, ip, b, sh, r1.in_progress, r0.sender.queue(), w0, w1, ok)
        } else {
            &&& ok && r1.in_progress == r0.in_progress
            &&& head(msg) == 48 ==> r1.decoder.state == State::Active && r1.open is None
                    && w1.log == (match r0.open { Some(c) => w0.log.push(Ev::Fired { chan: c.chan() }), None => w0.log })
            &&& head(msg) != 48 ==> r1.open == r0.open && r1.decoder.state == (if head(msg) == 49 { State::Closed } else { st })
            // C18: a ping is answered by one pong; close and pong do nothing
            &&& head(msg) == 50 ==> w1.log.len() == w0.log.len() + 1 && w1.log == w0.log.push(w1.log.last())
                    && (w1.log.last() matches Ev::Sent { queue, unit } && queue == r0.sender.queue() && unit.len() == 1 && is_text_frame(unit[0], seq![51u8]))
            &&& head(msg) == 49 || head(msg) == 51 ==> quiet(w0, w1)
        }
}

-- fn Receiver::new
ensures:
- r.decoder.state == State::Initial && r.in_progress is None && r.sender == sender && r.callbacks == callbacks && r.open == Some(open)

-- fn Receiver::process_websocket_packet
requires:
- recv_ok(*old(self))
- old(vp_w).free()
ensures:
- final(vp_w).free()
- final(self).sender == old(self).sender
- [C16,C17,C18,C21] calmly(old(vp_w).log, final(vp_w).log)
- recv_ok(*final(self))
- msg is Text || msg is Binary ==> handled(*old(self), msg, *final(self), *old(vp_w), *final(vp_w), r is Ok)
- !(msg is Text || msg is Binary) ==> r is Ok && quiet(*old(vp_w), *final(vp_w)) && *final(self) == *old(self)

-- fn Receiver::process_message
requires:
- recv_ok(*old(self))
- old(vp_w).free()
ensures:
- final(vp_w).free()
- final(self).sender == old(self).sender
- [C16,C17,C18,C21] calmly(old(vp_w).log, final(vp_w).log)
- recv_ok(*final(self))
- handled(*old(self), msg, *final(self), *old(vp_w), *final(vp_w), r is Ok)
proof start:
let ghost vp_msg = msg;
proof {
    assert forall|p: crate::socket_io_protocol::engine::Packet| #[trigger] denotes(msg, p) && p is Message implies carries(p->Message_0, msg) by {}
}
proof tail:
proof {
    if self.in_progress is Some && old(self).in_progress is Some {
        let (b, sh) = choose|b: Seq<u8>, sh: Shape| #[trigger] waits_for(old(self).in_progress->0, b, sh);
        assert(waits_for(self.in_progress->0, b, sh));
    } else if self.in_progress is Some {
        let b = rest(utf8(vp_msg->Text_0@));
        let sh = choose|sh: Shape| #[trigger] acceptable(b, sh);
        assert(waits_for(self.in_progress->0, b, sh));
    }
}

-- fn Receiver::process_packet
requires:
- packet_ok(packet)
- old(vp_w).free()
ensures:
- final(vp_w).free()
- [C16,C17,C18,C21] calmly(old(vp_w).log, final(vp_w).log)
- *final(self) == *old(self)
- ran(packet, old(self).sender.queue(), *old(vp_w), *final(vp_w), r is Ok)

-- fn InProgress::new
ensures:
- r.partial == partial && r.attachments@.len() == 0

-- fn InProgress::add
ensures:
- final(self).partial == old(self).partial
- final(self).attachments@ == old(self).attachments@.push(msg)

-- fn InProgress::ready
requires:
- exists|b: Seq<u8>, sh: Shape| #[trigger] announced(self.partial, b, sh)
ensures:
- forall|b: Seq<u8>, sh: Shape| #[trigger] announced(self.partial, b, sh) ==> r == (self.attachments@.len() == n_att(b, sh))

-- fn InProgress::deserialize
requires:
- exists|b: Seq<u8>, sh: Shape| #[trigger] announced(self.partial, b, sh)
- msgs_ok(self.attachments@)
ensures:
- r is Ok ==> packet_ok(r->Ok_0)
- forall|b: Seq<u8>, sh: Shape| #[trigger] announced(self.partial, b, sh) ==>
    (r is Ok <==> all_binary(self.attachments@) && self.attachments@.len() == n_att(b, sh) && content_ok(b, sh))
- forall|b: Seq<u8>, sh: Shape| #[trigger] announced(self.partial, b, sh) && r is Ok ==> packet_is(r->Ok_0, b, sh, payloads(self.attachments@))
