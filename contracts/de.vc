module socket_io_protocol::socket::de
-- ext serde serde_json regex
-- needs owned_subslice socket_io_protocol::engine socket_io_protocol::socket
-- raw
use crate::owned_subslice::*;
use crate::ext::serde::*;
use crate::ext::serde_json::{json_elems, axiom_json_elems};
broadcast use crate::prelude::group_utf8;
impl VpDisplay for OwnedSubslice<String> { open spec fn disp(&self) -> Seq<char> { decode_utf8(win_s(*self)) } }

// ------------------------------------------------------------------ the grammar of a packet text
/// where the parts of a packet text lie (byte spans)
pub struct Shape {
    pub count: Option<(int, int)>,
    pub ns: Option<(int, int)>,
    pub id: Option<(int, int)>,
    pub args: Option<(int, int)>,
}
/// a number without superfluous zeros
pub open spec fn canon(b: Seq<u8>, s: int, e: int) -> bool {
    0 <= s < e <= b.len() && (forall|i: int| s <= i < e ==> is_digit(#[trigger] b[i])) && (b[s] == 48 ==> e == s + 1)
}
pub open spec fn after_count(sh: Shape) -> int { match sh.count { Some((s, e)) => e + 1, None => 1 } }
pub open spec fn after_ns(sh: Shape) -> int { match sh.ns { Some((s, e)) => e + 1, None => after_count(sh) } }
pub open spec fn after_id(sh: Shape) -> int { match sh.id { Some((s, e)) => e, None => after_ns(sh) } }
pub open spec fn type_digit(c: u8) -> bool { 48 <= c <= 51 || c == 53 || c == 54 }
pub open spec fn is_shape(b: Seq<u8>, sh: Shape) -> bool {
    &&& b.len() >= 1 && type_digit(b[0])
    &&& sh.count matches Some((s, e)) ==> s == 1 && canon(b, s, e) && e < b.len() && b[e] == 45
    &&& sh.ns matches Some((s, e)) ==> s == after_count(sh) && s + 2 <= e < b.len() && b[s] == 47 && b[e] == 44
            && forall|i: int| s <= i < e ==> #[trigger] b[i] != 44
    &&& sh.id matches Some((s, e)) ==> s == after_ns(sh) && canon(b, s, e)
    &&& sh.args matches Some((s, e)) ==> s == after_id(sh) && s + 2 <= e == b.len() && b[s] == 91 && b[e - 1] == 93
            && forall|i: int| s <= i < e ==> #[trigger] b[i] != 10
    &&& sh.args is None ==> after_id(sh) == b.len()
}
pub open spec fn end_of(o: Option<(int, int)>) -> int { match o { Some((s, e)) => e, None => 0 } }
/// a text can be read in one way only
pub proof fn lemma_one_shape(b: Seq<u8>, x: Shape, y: Shape)
    requires is_shape(b, x), is_shape(b, y)
    ensures x == y
{
    let n = b.len() as int;
    // the count
    if x.count is Some && y.count is Some {
        let (e, f) = (end_of(x.count), end_of(y.count));
        if e < f { assert(is_digit(b[e])); } else if f < e { assert(is_digit(b[f])); }
    } else if x.count is Some {
        lemma_no_count(b, x, y);
    } else if y.count is Some {
        lemma_no_count(b, y, x);
    }
    assert(x.count == y.count);
    let p = after_count(x);
    if x.ns is Some && y.ns is Some {
        let (e, f) = (end_of(x.ns), end_of(y.ns));
        if e < f { assert(b[e] != 44); } else if f < e { assert(b[f] != 44); }
    } else if x.ns is Some {
        if y.id is Some { assert(is_digit(b[p])); }
    } else if y.ns is Some {
        if x.id is Some { assert(is_digit(b[p])); }
    }
    assert(x.ns == y.ns);
    let q = after_ns(x);
    if x.id is Some && y.id is Some {
        let (e, f) = (end_of(x.id), end_of(y.id));
        if e < f { assert(is_digit(b[e])); } else if f < e { assert(is_digit(b[f])); }
    } else if x.id is Some {
        assert(is_digit(b[q]));
    } else if y.id is Some {
        assert(is_digit(b[q]));
    }
    assert(x.id == y.id);
    assert(x.args == y.args);
}
proof fn lemma_no_count(b: Seq<u8>, x: Shape, y: Shape)
    requires is_shape(b, x), is_shape(b, y), x.count is Some, y.count is None
    ensures false
{
    let e = end_of(x.count);
    assert(is_digit(b[1]));
    if y.id is Some {
        let f = end_of(y.id);
        if f < e { assert(is_digit(b[f])); } else if e < f { assert(is_digit(b[e])); }
    }
}

// ------------------------------------------------------------------ what a packet text says
pub open spec fn num_ok(b: Seq<u8>, o: Option<(int, int)>) -> bool { o matches Some((s, e)) ==> dec_value(span(b, s, e)) <= u64::MAX }
pub open spec fn num(b: Seq<u8>, o: Option<(int, int)>) -> Option<u64> {
    match o { Some((s, e)) => Some(dec_value(span(b, s, e)) as u64), None => None }
}
pub open spec fn args_ok(b: Seq<u8>, sh: Shape) -> bool { sh.args matches Some((s, e)) ==> json_elems(decode_utf8(span(b, s, e))) is Some }
pub open spec fn raw_elems(b: Seq<u8>, s: int, e: int) -> Seq<(int, int)> { json_elems(decode_utf8(span(b, s, e)))->0 }
pub open spec fn shifted(v: Seq<(int, int)>, s: int) -> Seq<(int, int)> { Seq::new(v.len(), |i: int| (v[i].0 + s, v[i].1 + s)) }
/// the elements of the argument array, as byte spans of the whole text
pub open spec fn elems(b: Seq<u8>, sh: Shape) -> Seq<(int, int)> {
    match sh.args { Some((s, e)) => shifted(raw_elems(b, s, e), s), None => seq![] }
}
pub open spec fn well_formed(b: Seq<u8>, sh: Shape) -> bool { is_shape(b, sh) && num_ok(b, sh.count) && num_ok(b, sh.id) && args_ok(b, sh) }
pub open spec fn n_att(b: Seq<u8>, sh: Shape) -> u64 { match num(b, sh.count) { Some(n) => n, None => 0 } }
pub open spec fn event_like(c: u8) -> bool { c == 50 || c == 53 }
pub open spec fn binary_type(c: u8) -> bool { c == 53 || c == 54 }
/// what an event or an ack needs
pub open spec fn content_ok(b: Seq<u8>, sh: Shape) -> bool { if event_like(b[0]) { elems(b, sh).len() > 0 } else { sh.id is Some } }
pub open spec fn needs_ok(b: Seq<u8>, sh: Shape) -> bool {
    if b[0] == 48 || b[0] == 49 { sh.count is None && sh.id is None && elems(b, sh).len() == 0 }
    else if binary_type(b[0]) { sh.count is Some && (n_att(b, sh) == 0 ==> content_ok(b, sh)) }
    else { n_att(b, sh) == 0 && content_ok(b, sh) }
}
pub open spec fn acceptable(b: Seq<u8>, sh: Shape) -> bool { well_formed(b, sh) && needs_ok(b, sh) }

pub open spec fn is_span(r: Range<usize>, x: (int, int)) -> bool { r.start as int == x.0 && r.end as int == x.1 }
pub open spec fn opt_span(r: Option<Range<usize>>, o: Option<(int, int)>) -> bool {
    match (r, o) { (Some(r), Some(x)) => is_span(r, x), (None, None) => true, _ => false }
}
pub open spec fn spans_are(v: Seq<Range<usize>>, xs: Seq<(int, int)>) -> bool {
    v.len() == xs.len() && forall|i: int| 0 <= i < v.len() ==> is_span(#[trigger] v[i], xs[i])
}
pub open spec fn pkind(c: u8) -> ProtocolKind {
    if c == 48 { ProtocolKind::Connect } else if c == 49 { ProtocolKind::Disconnect } else if c == 50 { ProtocolKind::Event }
    else if c == 51 { ProtocolKind::Ack } else if c == 53 { ProtocolKind::BinaryEvent } else { ProtocolKind::BinaryAck }
}
pub open spec fn skind(c: u8) -> Kind {
    if c == 48 { Kind::Connect } else if c == 49 { Kind::Disconnect } else if event_like(c) { Kind::Event } else { Kind::Ack }
}
pub open spec fn parse_is(p: Parse, b: Seq<u8>, sh: Shape) -> bool {
    &&& win_ok_s(p.message) && win_s(p.message) == b
    &&& p.kind == pkind(b[0])
    &&& p.attachments == num(b, sh.count)
    &&& opt_span(p.namespace, sh.ns)
    &&& p.id == num(b, sh.id)
    &&& spans_are(p.args@, elems(b, sh))
}
pub open spec fn packet_is(p: Packet, b: Seq<u8>, sh: Shape, ds: Seq<OwnedSubslice<Vec<u8>>>) -> bool {
    &&& win_ok_s(p.message) && win_s(p.message) == b
    &&& p.kind == skind(b[0])
    &&& opt_span(p.namespace, sh.ns)
    &&& p.id == num(b, sh.id)
    &&& spans_are(p.args@, elems(b, sh))
    &&& p.attachments@ == ds
}
/// header of an event or ack, as deserialize_event takes it
pub open spec fn event_kind(k: Kind, p: Parse) -> bool {
    (k == Kind::Event && (p.kind == ProtocolKind::Event || p.kind == ProtocolKind::BinaryEvent))
    || (k == Kind::Ack && (p.kind == ProtocolKind::Ack || p.kind == ProtocolKind::BinaryAck))
}
/// a packet built from `p` and `ds`
pub open spec fn built(p: Parse, k: Kind, ds: Seq<OwnedSubslice<Vec<u8>>>, q: Packet) -> bool {
    q.message == p.message && q.kind == k && q.namespace == p.namespace && q.id == p.id && q.args == p.args && q.attachments@ == ds
}
pub open spec fn enough(p: Parse, k: Kind, n: int) -> bool {
    &&& (k == Kind::Ack ==> p.id is Some) && (k == Kind::Event ==> p.args@.len() > 0)
    &&& n == (match p.attachments { Some(x) => x as int, None => 0 })
}
/// the announced packet that a Partial stands for
pub open spec fn announced(q: Partial, b: Seq<u8>, sh: Shape) -> bool {
    parse_is(q.0, b, sh) && acceptable(b, sh) && binary_type(b[0]) && n_att(b, sh) > 0
}
pub open spec fn is_bin_msg(m: EngineMessage) -> bool { m is Binary }
pub open spec fn payload(m: EngineMessage) -> OwnedSubslice<Vec<u8>> { m->Binary_0 }
pub open spec fn all_binary(ms: Seq<EngineMessage>) -> bool { forall|i: int| 0 <= i < ms.len() ==> (#[trigger] ms[i]) is Binary }
pub open spec fn payloads(ms: Seq<EngineMessage>) -> Seq<OwnedSubslice<Vec<u8>>> { Seq::new(ms.len(), |i: int| ms[i]->Binary_0) }

-- raw [C06,C14,C16,C17,C18,C20,C21,C22]
use crate::socket_io_protocol::socket::{packet_ok, args::views_ok};
/// what decoding reports lies in the text, on character boundaries: no access to it can panic
pub proof fn lemma_packet_ok(p: Packet, b: Seq<u8>, sh: Shape, ds: Seq<OwnedSubslice<Vec<u8>>>)
    requires packet_is(p, b, sh, ds), acceptable(b, sh), valid_utf8(b), views_ok(ds), n_att(b, sh) == 0 || content_ok(b, sh)
    ensures packet_ok(p)
{
    match sh.ns { Some((s, e)) => { lemma_ascii_bnd(b, s); lemma_ascii_bnd(b, e); }, None => {} }
    match sh.args {
        Some((s, e)) => {
            lemma_ascii_bnd(b, s);
            is_char_boundary_start_end_of_seq(b);
            lemma_sub_valid(b, s, e);
            let t = decode_utf8(span(b, s, e));
            decode_utf8_encode_utf8(span(b, s, e));
            axiom_json_elems(t);
            assert forall|i: int| 0 <= i < p.args@.len() implies str_ok(b, (#[trigger] p.args@[i]).start as int, p.args@[i].end as int) by {
                let x = raw_elems(b, s, e)[i];
                assert(is_span(p.args@[i], elems(b, sh)[i]));
                lemma_sub_bnd(b, s, e, x.0);
                lemma_sub_bnd(b, s, e, x.1);
            }
        },
        None => {}
    }
}

-- regex
spec ^([012356])((0|[1-9][0-9]*)-)?((/[^,]+),)?(0|[1-9][0-9]*)?(\[.*\])?$
shape Shape
is_shape is_shape
role 1 kind = Some((0int, 1int))
role 3 count = sh.count
role 5 ns = sh.ns
role 6 id = sh.id
role 7 args = sh.args

-- fn Partial::attachments
requires:
- exists|b: Seq<u8>, sh: Shape| #[trigger] announced(*self, b, sh)
ensures:
- forall|b: Seq<u8>, sh: Shape| #[trigger] announced(*self, b, sh) ==> r == n_att(b, sh)

-- fn DeserializeResult::packet
ensures:
- self is Packet ==> r == Some(self->Packet_0)
- self is DataNeeded ==> r is None

-- fn deserialize
requires:
- [C06,C14,C16,C17,C18,C20,C21,C22] msg matches EngineMessage::Text(t) ==> win_ok_s(t)
ensures:
- [C06,C14,C16,C17,C18,C20,C21,C22] r matches Ok(DeserializeResult::Packet(p)) ==> packet_ok(p)
- msg is Binary ==> r is Err
- msg matches EngineMessage::Text(t) ==> (r is Ok <==> exists|sh: Shape| #[trigger] acceptable(win_s(t), sh))
- msg matches EngineMessage::Text(t) ==> forall|sh: Shape| #[trigger] acceptable(win_s(t), sh) ==>
    (match r { Ok(DeserializeResult::Packet(p)) => packet_is(p, win_s(t), sh, seq![]) && n_att(win_s(t), sh) == 0,
               Ok(DeserializeResult::DataNeeded(q)) => announced(q, win_s(t), sh), Err(_) => false })

-- fn deserialize_text
requires:
- [C06,C14,C16,C17,C18,C20,C21,C22] win_ok_s(text)
ensures:
- [C06,C14,C16,C17,C18,C20,C21,C22] r matches Ok(DeserializeResult::Packet(p)) ==> packet_ok(p)
- r is Ok <==> exists|sh: Shape| #[trigger] acceptable(win_s(text), sh)
- forall|sh: Shape| #[trigger] acceptable(win_s(text), sh) ==>
    (match r { Ok(DeserializeResult::Packet(p)) => packet_is(p, win_s(text), sh, seq![]) && n_att(win_s(text), sh) == 0,
               Ok(DeserializeResult::DataNeeded(q)) => announced(q, win_s(text), sh), Err(_) => false })

proof start:
let ghost vp_b = win_s(text);
let ghost vp_sh = choose|sh: Shape| #[trigger] well_formed(vp_b, sh);
proof { assert forall|sh: Shape| #[trigger] well_formed(vp_b, sh) implies sh == vp_sh by { lemma_one_shape(vp_b, sh, vp_sh); } }
proof tail:
proof {
    if r is Ok { assert(acceptable(vp_b, vp_sh)); }
    assert forall|sh: Shape| #[trigger] acceptable(vp_b, sh) implies sh == vp_sh by { assert(well_formed(vp_b, sh)); }
}
proof tail [C06,C14,C16,C17,C18,C20,C21,C22]:
proof {
    lemma_utf8_valid(text.data@); lemma_sub_valid(utf8(text.data@), text.range.start as int, text.range.end as int);
    if r is Ok && (r->Ok_0) is Packet { lemma_packet_ok((r->Ok_0)->Packet_0, vp_b, vp_sh, seq![]); }
}

-- fn parse_text
ensures:
- r is Ok <==> exists|sh: Shape| #[trigger] well_formed(win_s(text), sh)
- r is Ok ==> r->Ok_0.message == text
- forall|sh: Shape| #[trigger] well_formed(win_s(text), sh) ==> r is Ok && parse_is(r->Ok_0, win_s(text), sh)
attr: #[verifier::loop_isolation(false)]
proof start:
let ghost vp_b = win_s(text);
let ghost vp_sh = choose|sh: Shape| #[trigger] is_shape(vp_b, sh);
let ghost vp_s = match vp_sh.args { Some((s, e)) => s, None => 0 };
let ghost vp_v = match vp_sh.args { Some((s, e)) => raw_elems(vp_b, s, e), None => seq![] };
proof {
    match vp_sh.args { Some((s, e)) => { axiom_json_elems(decode_utf8(span(vp_b, s, e))); }, None => {} }
    assert forall|sh: Shape| #[trigger] is_shape(vp_b, sh) implies sh == vp_sh by { lemma_one_shape(vp_b, sh, vp_sh); }
}
loop 0:
- vp_it0.seq().len() == vp_v.len()
- forall|i: int| 0 <= i < vp_v.len() ==> is_span(*vp_it0.seq()[i], #[trigger] vp_v[i])
- forall|i: int| 0 <= i < vp_it0.index@ ==> is_span(*final(vp_it0.seq()[i]), shifted(vp_v, vp_s)[i])
proof tail:
proof { assert(well_formed(vp_b, vp_sh)); }

-- fn parse_number
requires:
- all_digits(utf8(digits@))
ensures:
- r is Ok <==> dec_value(utf8(digits@)) <= u64::MAX
- r is Ok ==> r->Ok_0 == dec_value(utf8(digits@))

-- fn parse_args
ensures:
- r is Ok <==> json_elems(arg_str@) is Some
- r is Ok ==> spans_are(r->Ok_0@, json_elems(arg_str@)->0)
attr: #[verifier::loop_isolation(false)]
proof start:
proof { axiom_json_elems(arg_str@); axiom_str_len(arg_str); }
loop 0:
- vp_it0.seq().len() == args@.len()
- forall|i: int| 0 <= i < args@.len() ==> *vp_it0.seq()[i] == args@[i]
- vp_o0@.len() == vp_it0.index@
- forall|i: int| 0 <= i < vp_it0.index@ ==> is_span(#[trigger] vp_o0@[i], json_elems(arg_str@)->0[i])

-- fn deserialize_dataless
requires:
- exists|sh: Shape| well_formed(win_s(parse.message), sh) && #[trigger] parse_is(parse, win_s(parse.message), sh)
ensures:
- r is Ok <==> parse.attachments is None && parse.id is None && parse.args@.len() == 0
- r is Ok ==> ({ let q = r->Ok_0; q.message == parse.message && q.kind == kind && q.namespace == parse.namespace && q.id == parse.id && q.args@ == parse.args@ && q.attachments@ == seq![] })

-- fn deserialize_event
requires:
- event_kind(kind, parse)
ensures:
- r is Ok <==> enough(parse, kind, attachments@.len() as int)
- r is Ok ==> built(parse, kind, attachments@, r->Ok_0)

-- fn deserialize_binary
requires:
- event_kind(kind, parse)
ensures:
- match r {
    Ok(DeserializeResult::Packet(p)) => parse.attachments == Some(0u64) && enough(parse, kind, 0) && built(parse, kind, seq![], p),
    Ok(DeserializeResult::DataNeeded(q)) => parse.attachments matches Some(n) && n > 0 && q.0 == parse,
    Err(_) => parse.attachments is None || (parse.attachments == Some(0u64) && !enough(parse, kind, 0)),
  }

-- fn deserialize_partial
param attachments: Vec<EngineMessage>
requires:
- exists|b: Seq<u8>, sh: Shape| #[trigger] announced(partial, b, sh)
- [C06,C14,C16,C17,C18,C20,C21,C22] forall|i: int| 0 <= i < attachments@.len() ==> ((#[trigger] attachments@[i]) matches EngineMessage::Binary(d) ==> win_ok_v(d))
ensures:
- [C06,C14,C16,C17,C18,C20,C21,C22] r is Ok ==> packet_ok(r->Ok_0)
- forall|b: Seq<u8>, sh: Shape| #[trigger] announced(partial, b, sh) ==>
    (r is Ok <==> all_binary(attachments@) && attachments@.len() == n_att(b, sh) && content_ok(b, sh))
- forall|b: Seq<u8>, sh: Shape| #[trigger] announced(partial, b, sh) && r is Ok ==> packet_is(r->Ok_0, b, sh, payloads(attachments@))
attr: #[verifier::loop_isolation(false)]
proof start:
let ghost vp_ms = attachments@;
loop 0 invariant_except_break:
- vp_e0 is None
loop 0:
- vp_it0.seq() == vp_ms
- vp_o0@.len() <= vp_ms.len() && (vp_e0 is None ==> vp_o0@.len() == vp_it0.index@)
- forall|i: int| 0 <= i < vp_o0@.len() ==> (#[trigger] vp_ms[i]) is Binary
- forall|i: int| 0 <= i < vp_o0@.len() ==> (#[trigger] vp_o0@[i]) == payload(vp_ms[i])
loop 0 ensures:
- vp_e0 is Some ==> !all_binary(vp_ms)
- vp_e0 is None ==> all_binary(vp_ms) && vp_o0@ =~= payloads(vp_ms)
proof tail:
proof {
    assert forall|b: Seq<u8>, sh: Shape| #[trigger] announced(partial, b, sh) && r is Ok implies packet_is(r->Ok_0, b, sh, payloads(vp_ms)) by {
        let q = r->Ok_0;
        assert(q.attachments@ == payloads(vp_ms));
        assert(q.kind == skind(b[0]));
        assert(opt_span(q.namespace, sh.ns));
        assert(q.id == num(b, sh.id));
        assert(spans_are(q.args@, elems(b, sh)));
    }
}
proof tail [C06,C14,C16,C17,C18,C20,C21,C22]:
proof {
    if r is Ok {
        let (b, sh) = choose|b: Seq<u8>, sh: Shape| #[trigger] announced(partial, b, sh);
        let m = partial.0.message;
        lemma_utf8_valid(m.data@); lemma_sub_valid(utf8(m.data@), m.range.start as int, m.range.end as int);
        lemma_packet_ok(r->Ok_0, b, sh, payloads(vp_ms));
    }
}
