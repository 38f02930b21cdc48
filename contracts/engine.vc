module socket_io_protocol::engine
-- ext tungstenite serde_json serde
-- needs owned_subslice
-- raw
use crate::owned_subslice::*;
use crate::ext::serde::*;
broadcast use {crate::prelude::group_utf8, crate::owned_subslice::sub_view_bytes};
impl<'de> Deserialize<'de> for Open {
    open spec fn de_ok(t: Seq<char>) -> bool { open_de(t) is Some }
    open spec fn de_is(s: &str, r: Self) -> bool { open_de(s@) == Some(r) }
    uninterp spec fn reads(i: In, r: Self) -> bool;
}
/// what serde's derived decoding of Open makes of a JSON text
pub uninterp spec fn open_de(t: Seq<char>) -> Option<Open>;

// ------------------------------------------------------------------ C01: session discipline
pub open spec fn session_ok(before: State, after: State, r: Result<Packet, Error>) -> bool {
    &&& r is Err ==> after == before
    &&& r is Ok ==> match before {
        State::Initial => r->Ok_0 is Open && after == State::Active,
        State::Active => !(r->Ok_0 is Open) && after == (if r->Ok_0 is Close { State::Closed } else { State::Active }),
        State::Closed => false,
    }
}

// ------------------------------------------------------------------ C02: frame classification
pub open spec fn rest(b: Seq<u8>) -> Seq<u8> { span(b, 1, b.len() as int) }
pub open spec fn accepts(st: State, msg: WsMessage) -> bool {
    match msg {
        WsMessage::Text(t) => {
            let b = utf8(t@);
            &&& b.len() > 0
            &&& if b[0] == 48 { st == State::Initial && open_de(decode_utf8(rest(b))) is Some }
                else { st == State::Active && 49 <= b[0] <= 52 }
        },
        WsMessage::Binary(d) => st == State::Active && d@.len() > 0 && d@[0] == 4,
        _ => false,
    }
}
pub open spec fn denotes(msg: WsMessage, p: Packet) -> bool {
    match msg {
        WsMessage::Text(t) => {
            let b = utf8(t@);
            match p {
                Packet::Open(o) => b[0] == 48 && open_de(decode_utf8(rest(b))) == Some(o),
                Packet::Close => b[0] == 49,
                Packet::Ping => b[0] == 50,
                Packet::Pong => b[0] == 51,
                Packet::Message(Message::Text(o)) => b[0] == 52 && win_ok_s(o) && win_s(o) == rest(b),
                Packet::Message(Message::Binary(_)) => false,
            }
        },
        WsMessage::Binary(d) => match p {
            Packet::Message(Message::Binary(o)) => d@[0] == 4 && win_ok_v(o) && win_v(o) == rest(d@),
            _ => false,
        },
        _ => false,
    }
}

-- raw [C03,C14,C16,C17,C18,C20,C21,C22]
// ------------------------------------------------------------------ C03: round trip of the framing
pub open spec fn is_text_frame(m: WsMessage, t: Seq<u8>) -> bool { m matches WsMessage::Text(x) && utf8(x@) == t }
pub open spec fn is_binary_frame(m: WsMessage, d: Seq<u8>) -> bool { m matches WsMessage::Binary(x) && x@ == d }
/// a frame built by encode_message denotes, to an open session, exactly the encoded text
pub proof fn round_trip_text(m: WsMessage, t: Seq<u8>, p: Packet)
    requires is_text_frame(m, seq![52u8] + t), denotes(m, p), t.len() < usize::MAX
    ensures accepts(State::Active, m), p matches Packet::Message(Message::Text(o)) && win_s(o) == t
{
    let b = seq![52u8] + t;
    assert(rest(b) =~= t);
}
pub proof fn round_trip_binary(m: WsMessage, t: Seq<u8>, p: Packet)
    requires is_binary_frame(m, seq![4u8] + t), denotes(m, p)
    ensures accepts(State::Active, m), p matches Packet::Message(Message::Binary(o)) && win_v(o) == t
{
    let b = seq![4u8] + t;
    assert(rest(b) =~= t);
}
pub proof fn round_trip_ping(m: WsMessage, p: Packet)
    requires is_text_frame(m, seq![50u8]), denotes(m, p)
    ensures accepts(State::Active, m), p is Ping
{}
pub proof fn round_trip_pong(m: WsMessage, p: Packet)
    requires is_text_frame(m, seq![51u8]), denotes(m, p)
    ensures accepts(State::Active, m), p is Pong
{}

-- fn Default for Decoder::default
ensures:
- r.state == State::Initial

-- fn Decoder::new
ensures:
- [C01,C14,C16,C17,C18,C20,C21,C22] r.state == State::Initial

-- fn Decoder::decode
ensures:
- [C01,C14,C16,C17,C18,C20,C21,C22] session_ok(old(self).state, final(self).state, r)
- [C02,C03,C14,C16,C17,C18,C20,C21,C22] r is Ok <==> accepts(old(self).state, msg)
- [C02,C03,C14,C16,C17,C18,C20,C21,C22] r is Ok ==> denotes(msg, r->Ok_0)

-- fn Decoder::decode_text
requires:
- old(self).state != State::Closed
ensures:
- [C01,C14,C16,C17,C18,C20,C21,C22] session_ok(old(self).state, final(self).state, r)
- [C02,C03,C14,C16,C17,C18,C20,C21,C22] r is Ok <==> accepts(old(self).state, WsMessage::Text(text))
- [C02,C03,C14,C16,C17,C18,C20,C21,C22] r is Ok ==> denotes(WsMessage::Text(text), r->Ok_0)

-- fn Decoder::decode_binary
requires:
- old(self).state != State::Closed
ensures:
- [C01,C14,C16,C17,C18,C20,C21,C22] session_ok(old(self).state, final(self).state, r)
- [C02,C03,C14,C16,C17,C18,C20,C21,C22] r is Ok <==> accepts(old(self).state, WsMessage::Binary(data))
- [C02,C03,C14,C16,C17,C18,C20,C21,C22] r is Ok ==> denotes(WsMessage::Binary(data), r->Ok_0)

-- fn parse_open
ensures:
- r is Ok <==> open_de(text@) is Some
- r is Ok ==> open_de(text@) == Some(r->Ok_0)

-- fn encode_message
ensures:
- [C03,C14,C16,C17,C18,C20,C21,C22] is_text_frame(r, seq![52u8] + utf8(text@))
proof start:
proof { lemma_ascii1('4'); }

-- fn package_message
requires:
- utf8(text@).len() > 0 && utf8(text@)[0] == 52
ensures:
- r == WsMessage::Text(text)

-- fn encode_binary
ensures:
- r is Binary && r->Binary_0@ == seq![4u8] + data@
proof start:
proof { axiom_byte_slice_len(data); }
proof tail:
proof { assert(r->Binary_0@ =~= seq![4u8] + data@); }

-- fn package_binary
requires:
- data@.len() > 0 && data@[0] == 4
ensures:
- r == WsMessage::Binary(data)

-- fn encode_ping
ensures:
- [C03,C14,C16,C17,C18,C20,C21,C22] is_text_frame(r, seq![50u8])
proof start:
proof { axiom_string_from_str(); reveal_strlit("2"); lemma_ascii("2"@); assert(utf8("2"@) =~= seq![50u8]); }

-- fn encode_pong
ensures:
- [C03,C14,C16,C17,C18,C20,C21,C22] is_text_frame(r, seq![51u8])
proof start:
proof { axiom_string_from_str(); reveal_strlit("3"); lemma_ascii("3"@); assert(utf8("3"@) =~= seq![51u8]); }
