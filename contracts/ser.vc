module socket_io_protocol::socket::ser
-- ext io cow serde serde_json tungstenite
-- needs owned_subslice socket_io_protocol::engine socket_io_protocol::socket socket_io_protocol::socket::args
-- raw
use crate::ext::io::{written_at, lemma_append};
use crate::ext::cow::*;
use crate::ext::serde::*;
use crate::owned_subslice::*;
broadcast use {crate::prelude::group_cat, crate::ext::io::lemma_append, crate::ext::tungstenite::axiom_messages_len};
use crate::socket_io_protocol::socket::Kind as SKind;

// ------------------------------------------------------------------ C05: the header grammar
pub open spec fn kind_digit(k: ProtocolKind) -> char {
    match k {
        ProtocolKind::Connect => '0', ProtocolKind::Disconnect => '1', ProtocolKind::Event => '2',
        ProtocolKind::Ack => '3', ProtocolKind::BinaryEvent => '5', ProtocolKind::BinaryAck => '6',
    }
}
pub open spec fn att_part(n: Option<u64>) -> Seq<char> {
    match n { Some(n) => dec(n as nat) + seq!['-'], None => seq![] }
}
pub open spec fn ns_part(ns: Seq<char>) -> Seq<char> {
    if ns == seq!['/'] { seq![] } else { ns + seq![','] }
}
pub open spec fn id_part(id: Option<u64>) -> Seq<char> {
    match id { Some(n) => dec(n as nat), None => seq![] }
}
pub open spec fn hdr_text(k: ProtocolKind, n: Option<u64>, ns: Seq<char>, id: Option<u64>) -> Seq<char> {
    seq!['4'] + seq![kind_digit(k)] + att_part(n) + ns_part(ns) + id_part(id)
}
pub open spec fn kind_of(k: Kind, binary: bool) -> ProtocolKind {
    match (k, binary) {
        (Kind::Event, false) => ProtocolKind::Event,
        (Kind::Ack, false) => ProtocolKind::Ack,
        (Kind::Event, true) => ProtocolKind::BinaryEvent,
        (Kind::Ack, true) => ProtocolKind::BinaryAck,
    }
}

// ------------------------------------------------------------------ builder state
/// the text of the arguments so far: nothing, or "[" and the arguments with commas between
pub open spec fn args_open(xs: Seq<Seq<char>>) -> Seq<char>
    decreases xs.len()
{
    if xs.len() == 0 { seq![] }
    else { args_open(xs.drop_last()) + seq![if xs.len() == 1 { '[' } else { ',' }] + xs.last() }
}
pub open spec fn args_closed(xs: Seq<Seq<char>>) -> Seq<char> {
    if xs.len() == 0 { seq![] } else { args_open(xs).push(']') }
}
/// a binary frame carrying exactly `d`
pub open spec fn is_att(m: WsMessage, d: Seq<u8>) -> bool { m is Binary && frame_bytes(m) == seq![4u8] + d }
pub open spec fn are_atts(ms: Seq<WsMessage>, ds: Seq<Seq<u8>>) -> bool {
    ms.len() == ds.len() && forall|i: int| 0 <= i < ms.len() ==> is_att(#[trigger] ms[i], ds[i])
}
pub open spec fn is_text(m: WsMessage, b: Seq<char>) -> bool { m is Text && m->Text_0@ == b }
/// builder `b` stands for a packet with this header and exactly the arguments `xs` and attachments `ds`
pub open spec fn stands_for(b: PacketBuilder, k: Kind, ns: Seq<char>, id: Option<u64>, binary: bool, xs: Seq<Seq<char>>, ds: Seq<Seq<u8>>) -> bool {
    &&& b.first == (xs.len() == 0)
    &&& match b.approach {
        Approach::Normal => !binary && ds.len() == 0 && b.buffer@ == utf8(hdr_text(kind_of(k, false), None, ns, id) + args_open(xs)),
        Approach::Binary { kind, namespace, id: i, attachments } => {
            &&& binary && kind == kind_of(k, true) && namespace@ == ns && i == id
            &&& are_atts(attachments@, ds)
            &&& b.buffer@ == utf8(args_open(xs))
        }
    }
}
/// the number of attachments a builder holds
pub open spec fn n_att(b: PacketBuilder) -> nat {
    match b.approach { Approach::Normal => 0, Approach::Binary { attachments, .. } => attachments@.len() }
}
pub open spec fn is_bin(b: PacketBuilder) -> bool { b.approach is Binary }
pub open spec fn arg_text<T: Serialize + ?Sized>(b: PacketBuilder, t: &T) -> Seq<char> {
    if is_bin(b) { t.bin_json(n_att(b)) } else { t.json() }
}
pub open spec fn arg_bufs<T: Serialize + ?Sized>(b: PacketBuilder, t: &T) -> Seq<Seq<u8>> {
    if is_bin(b) { t.bin_bufs() } else { seq![] }
}
pub open spec fn atts(b: PacketBuilder) -> Seq<WsMessage> {
    match b.approach { Approach::Normal => seq![], Approach::Binary { attachments, .. } => attachments@ }
}
pub open spec fn same_header(a: PacketBuilder, b: PacketBuilder) -> bool {
    match (a.approach, b.approach) {
        (Approach::Normal, Approach::Normal) => true,
        (Approach::Binary { kind: k1, namespace: n1, id: i1, .. }, Approach::Binary { kind: k2, namespace: n2, id: i2, .. }) => k1 == k2 && n1 == n2 && i1 == i2,
        _ => false,
    }
}
/// everything there is to a builder
pub open spec fn same(a: PacketBuilder, b: PacketBuilder) -> bool {
    a.buffer@ =~= b.buffer@ && a.first == b.first && same_header(a, b) && atts(a) =~= atts(b)
}
pub open spec fn extended<T: Serialize + ?Sized>(a: PacketBuilder, b: PacketBuilder, t: &T) -> bool {
    &&& b.buffer@ == a.buffer@ + utf8(seq![if a.first { '[' } else { ',' }] + arg_text(a, t))
    &&& !b.first
    &&& same_header(a, b)
    &&& atts(b).len() == atts(a).len() + arg_bufs(a, t).len()
    &&& span(atts(b), 0, atts(a).len() as int) == atts(a)
    &&& are_atts(span(atts(b), atts(a).len() as int, atts(b).len() as int), arg_bufs(a, t))
}
pub open spec fn frames_ok(fs: Seq<WsMessage>, k: Kind, ns: Seq<char>, id: Option<u64>, binary: bool, xs: Seq<Seq<char>>, ds: Seq<Seq<u8>>) -> bool {
    &&& fs.len() == 1 + ds.len()
    &&& is_text(fs[0], hdr_text(kind_of(k, binary), if binary { Some(ds.len() as u64) } else { None }, ns, id) + args_closed(xs))
    &&& are_atts(span(fs, 1, fs.len() as int), ds)
}
/// what `finish` needs to know of a builder
pub proof fn lemma_facts(b: PacketBuilder)
    requires exists|k: Kind, ns: Seq<char>, id: Option<u64>, binary: bool, xs: Seq<Seq<char>>, ds: Seq<Seq<u8>>| #[trigger] stands_for(b, k, ns, id, binary, xs, ds)
    ensures
        valid_utf8(b.buffer@),
        b.approach is Normal ==> decode_utf8(b.buffer@).len() > 0 && decode_utf8(b.buffer@)[0] == '4',
{}
/// what `finish` does, in terms of the fields of the builder
pub open spec fn closed_text(b: PacketBuilder) -> Seq<char> {
    if b.first { decode_utf8(b.buffer@) } else { decode_utf8(b.buffer@).push(']') }
}
pub open spec fn finished_as(b: PacketBuilder, fs: Seq<WsMessage>) -> bool {
    &&& fs.len() == 1 + atts(b).len()
    &&& span(fs, 1, fs.len() as int) == atts(b)
    &&& match b.approach {
        Approach::Normal => is_text(fs[0], closed_text(b)),
        Approach::Binary { kind, namespace, id, .. } => is_text(fs[0], hdr_text(kind, Some(atts(b).len() as u64), namespace@, id) + closed_text(b)),
    }
}
pub proof fn lemma_finished(b: PacketBuilder, fs: Seq<WsMessage>, k: Kind, ns: Seq<char>, id: Option<u64>, binary: bool, xs: Seq<Seq<char>>, ds: Seq<Seq<u8>>)
    requires stands_for(b, k, ns, id, binary, xs, ds), finished_as(b, fs)
    ensures frames_ok(fs, k, ns, id, binary, xs, ds)
{
    let h = hdr_text(kind_of(k, binary), if binary { Some(ds.len() as u64) } else { None }, ns, id);
    if binary {
        assert(decode_utf8(b.buffer@) == args_open(xs));
        assert(closed_text(b) =~= args_closed(xs));
    } else {
        assert(decode_utf8(b.buffer@) == h + args_open(xs));
        assert(closed_text(b) =~= h + args_closed(xs));
        assert(ds =~= seq![]);
        assert(span(fs, 1, fs.len() as int) =~= seq![]);
    }
    assert(fs[0]->Text_0@ =~= h + args_closed(xs));
}
/// an accepted argument is appended, nothing else changes
pub proof fn lemma_extend<T: Serialize + ?Sized>(a: PacketBuilder, b: PacketBuilder, t: &T, k: Kind, ns: Seq<char>, id: Option<u64>, binary: bool, xs: Seq<Seq<char>>, ds: Seq<Seq<u8>>)
    requires stands_for(a, k, ns, id, binary, xs, ds), extended(a, b, t)
    ensures stands_for(b, k, ns, id, binary, xs.push(arg_text(a, t)), ds + arg_bufs(a, t))
{
    let ys = xs.push(arg_text(a, t));
    assert(ys.drop_last() =~= xs);
    assert(args_open(ys) =~= args_open(xs) + (seq![if a.first { '[' } else { ',' }] + arg_text(a, t)));
    match b.approach {
        Approach::Normal => {
            assert(arg_bufs(a, t) =~= seq![]);
            assert(ds + arg_bufs(a, t) =~= ds);
            let h = hdr_text(kind_of(k, false), None, ns, id);
            assert(h + args_open(ys) =~= (h + args_open(xs)) + (seq![if a.first { '[' } else { ',' }] + arg_text(a, t)));
        }
        Approach::Binary { attachments, .. } => {
            let n = atts(a).len() as int;
            let es = ds + arg_bufs(a, t);
            assert(are_atts(attachments@, es)) by {
                assert forall|i: int| 0 <= i < attachments@.len() implies is_att(#[trigger] attachments@[i], es[i]) by {
                    if i < n { assert(attachments@[i] == span(atts(b), 0, n)[i]); assert(is_att(atts(a)[i], ds[i])); }
                    else { assert(is_att(span(atts(b), n, atts(b).len() as int)[i - n], arg_bufs(a, t)[i - n])); }
                }
            }
        }
    }
}
/// a refused argument leaves the packet as it was
pub proof fn lemma_refused(a: PacketBuilder, b: PacketBuilder, k: Kind, ns: Seq<char>, id: Option<u64>, binary: bool, xs: Seq<Seq<char>>, ds: Seq<Seq<u8>>)
    requires stands_for(a, k, ns, id, binary, xs, ds), same(a, b)
    ensures stands_for(b, k, ns, id, binary, xs, ds)
{}

-- raw [C14]
/// C14: what `finish` produces is what `decode`, `deserialize` and `deserialize_partial` accept, with the same contents
pub mod trip {
    use vstd::prelude::*;
    use vstd::utf8::*;
    use crate::prelude::*;
    use crate::ext::serde::*;
    use crate::ext::serde_json::json_elems;
    use crate::ext::tungstenite::Message as WsMessage;
    use crate::owned_subslice::*;
    use crate::socket_io_protocol::engine::{accepts, rest, State};
    use crate::socket_io_protocol::socket::{Packet, packet_ns, Kind as SKind};
    use crate::socket_io_protocol::socket::de::{Shape, canon, is_shape, after_count, after_ns, after_id, acceptable, n_att, num, content_ok, skind, elems, packet_is, raw_elems, type_digit};
    use super::*;

    /// a namespace that the grammar can carry
    pub open spec fn ns_fits(ns: Seq<char>) -> bool {
        ns == seq!['/'] || (ns.len() >= 2 && ns[0] == '/' && forall|i: int| 0 <= i < ns.len() ==> #[trigger] ns[i] != ',')
    }
    /// one JSON value in one line, with nothing around it
    pub open spec fn single(x: Seq<char>) -> bool {
        whole(x) && x.len() > 0 && !blank(x[0]) && !blank(x.last()) && forall|i: int| 0 <= i < x.len() ==> #[trigger] x[i] != '\n'
    }
    pub open spec fn blank(c: char) -> bool { c == ' ' || c == '\t' || c == '\r' || c == '\n' }
    /// serde_json reads the elements of an array of such values back
    pub axiom fn axiom_array(xs: Seq<Seq<char>>)
        requires xs.len() > 0, forall|i: int| 0 <= i < xs.len() ==> single(#[trigger] xs[i])
        ensures json_elems(args_closed(xs)) matches Some(v) && v.len() == xs.len()
            && forall|i: int| 0 <= i < xs.len() ==> span(utf8(args_closed(xs)), (#[trigger] v[i]).0, v[i].1) == utf8(xs[i]);
    /// serde_json writes such values
    pub axiom fn axiom_json_of(n: Node)
        ensures okay(n) ==> single(json_of(n));

    /// a byte below 128 is a character
    proof fn lemma_has(a: Seq<char>, i: int)
        requires 0 <= i < utf8(a).len(), utf8(a)[i] < 128
        ensures exists|j: int| 0 <= j < a.len() && #[trigger] a[j] == utf8(a)[i] as char
    {
        let b = utf8(a);
        let c = b[i] as char;
        lemma_utf8_valid(a);
        lemma_bnd(a, i); lemma_bnd(a, i + 1); lemma_bnd(a, 0); lemma_bnd(a, b.len() as int);
        let (x, y, z) = (span(b, 0, i), span(b, i, i + 1), span(b, i + 1, b.len() as int));
        lemma_sub_valid(b, 0, i); lemma_sub_valid(b, i + 1, b.len() as int);
        decode_utf8_encode_utf8(x); decode_utf8_encode_utf8(z);
        lemma_ascii1(c);
        assert(y =~= seq![c as u8]);
        let (p, q) = (decode_utf8(x), decode_utf8(z));
        let s = p + seq![c] + q;
        lemma_utf8_add(p + seq![c], q); lemma_utf8_add(p, seq![c]);
        assert(utf8(s) =~= b);
        lemma_utf8_inj(s, a);
        assert(a[p.len() as int] == c);
    }
    proof fn lemma_dec(n: nat)
        ensures
            utf8(dec(n)).len() > 0, forall|i: int| 0 <= i < utf8(dec(n)).len() ==> is_digit(#[trigger] utf8(dec(n))[i]),
            dec_value(utf8(dec(n))) == n, utf8(dec(n))[0] == 48 ==> n == 0, n == 0 ==> utf8(dec(n)).len() == 1,
        decreases n
    {
        let c = (48 + n % 10) as u8 as char;
        lemma_ascii1(c);
        if n < 10 {
            assert(dec(n) =~= seq![c]);
            assert(utf8(dec(n)).drop_last() =~= seq![]);
            assert(dec_value(seq![]) == 0);
        } else {
            let m = n / 10;
            lemma_dec(m);
            lemma_utf8_push(dec(m), c);
            let t = utf8(dec(n));
            assert(t == utf8(dec(m)) + seq![c as u8]);
            assert(t.drop_last() =~= utf8(dec(m)));
            assert(t[0] == utf8(dec(m))[0]);
        }
    }
    proof fn lemma_line(xs: Seq<Seq<char>>, i: int)
        requires forall|i: int| 0 <= i < xs.len() ==> single(#[trigger] xs[i]), 0 <= i < args_open(xs).len()
        ensures args_open(xs)[i] != '\n', i == 0 ==> args_open(xs)[i] == '['
        decreases xs.len()
    {
        let p = xs.drop_last();
        if i < args_open(p).len() {
            assert forall|i: int| 0 <= i < p.len() implies single(#[trigger] p[i]) by { let y = xs[i]; }
            lemma_line(p, i);
        } else if i == args_open(p).len() {
            if xs.len() > 1 { lemma_some(p); }
        } else {
            assert(single(xs[xs.len() - 1]));
            let z = xs.last()[i - args_open(p).len() - 1];
        }
    }
    proof fn lemma_some(xs: Seq<Seq<char>>)
        requires xs.len() > 0
        ensures args_open(xs).len() > 0
    {}
    /// the argument list, in bytes
    proof fn lemma_args(xs: Seq<Seq<char>>)
        requires xs.len() > 0, forall|i: int| 0 <= i < xs.len() ==> single(#[trigger] xs[i])
        ensures ({ let x = utf8(args_closed(xs)); x.len() >= 2 && x[0] == 91 && x.last() == 93 && forall|i: int| 0 <= i < x.len() ==> #[trigger] x[i] != 10 })
    {
        let o = args_open(xs);
        let x = utf8(args_closed(xs));
        lemma_some(xs); lemma_line(xs, 0);
        let t = o.subrange(1, o.len() as int);
        assert(o =~= seq!['['] + t);
        lemma_utf8_add(seq!['['], t); lemma_ascii1('[');
        lemma_utf8_push(o, ']'); lemma_ascii1(']');
        assert forall|i: int| 0 <= i < x.len() implies #[trigger] x[i] != 10 by {
            if x[i] == 10 {
                lemma_has(args_closed(xs), i);
                let j = choose|j: int| 0 <= j < args_closed(xs).len() && #[trigger] args_closed(xs)[j] == x[i] as char;
                assert(args_closed(xs)[j] == '\n');
                if j < o.len() { lemma_line(xs, j); assert(args_closed(xs)[j] == o[j]); }
            }
        }
    }
    /// the namespace, in bytes
    proof fn lemma_ns(ns: Seq<char>)
        requires ns_fits(ns), ns != seq!['/']
        ensures ({ let x = utf8(ns); x.len() >= 2 && x[0] == 47 && forall|i: int| 0 <= i < x.len() ==> #[trigger] x[i] != 44 })
    {
        let x = utf8(ns);
        let t = ns.subrange(1, ns.len() as int);
        assert(ns =~= seq!['/'] + t);
        lemma_utf8_add(seq!['/'], t); lemma_ascii1('/'); lemma_utf8_empty(t);
        assert forall|i: int| 0 <= i < x.len() implies #[trigger] x[i] != 44 by {
            if x[i] == 44 { lemma_has(ns, i); }
        }
    }

    pub open spec fn digit_of(k: Kind, binary: bool) -> u8 {
        match (k, binary) { (Kind::Event, false) => 50u8, (Kind::Ack, false) => 51u8, (Kind::Event, true) => 53u8, (Kind::Ack, true) => 54u8 }
    }
    pub open spec fn same_kind(k: Kind, s: SKind) -> bool { match k { Kind::Event => s == SKind::Event, Kind::Ack => s == SKind::Ack } }
    /// where the parts lie in the text that is sent
    pub open spec fn shape_of(n: Option<u64>, ns: Seq<char>, id: Option<u64>, xs: Seq<Seq<char>>) -> Shape {
        let c = match n { Some(n) => Some((1int, 1 + utf8(dec(n as nat)).len() as int)), None => None };
        let p = match c { Some((s, e)) => e + 1, None => 1 };
        let m = if ns == seq!['/'] { None } else { Some((p, p + utf8(ns).len() as int)) };
        let q = match m { Some((s, e)) => e + 1, None => p };
        let i = match id { Some(n) => Some((q, q + utf8(dec(n as nat)).len() as int)), None => None };
        let r = match i { Some((s, e)) => e, None => q };
        let a = if xs.len() == 0 { None } else { Some((r, r + utf8(args_closed(xs)).len() as int)) };
        Shape { count: c, ns: m, id: i, args: a }
    }
    pub open spec fn text_of(k: Kind, ns: Seq<char>, id: Option<u64>, binary: bool, xs: Seq<Seq<char>>, n: nat) -> Seq<char> {
        hdr_text(kind_of(k, binary), if binary { Some(n as u64) } else { None }, ns, id) + args_closed(xs)
    }
    pub open spec fn sendable(k: Kind, ns: Seq<char>, id: Option<u64>, binary: bool, xs: Seq<Seq<char>>, n: nat) -> bool {
        &&& ns_fits(ns) && (k is Event ==> xs.len() > 0) && (k is Ack ==> id is Some)
        &&& forall|i: int| 0 <= i < xs.len() ==> single(#[trigger] xs[i])
        &&& n <= u64::MAX && (!binary ==> n == 0)
    }
    proof fn lemma_bytes(k: Kind, ns: Seq<char>, id: Option<u64>, binary: bool, xs: Seq<Seq<char>>, n: nat)
        requires sendable(k, ns, id, binary, xs, n)
        ensures ({
            let t = utf8(text_of(k, ns, id, binary, xs, n));
            let c = if binary { utf8(dec(n)) + seq![45u8] } else { seq![] };
            let m = if ns == seq!['/'] { seq![] } else { utf8(ns) + seq![44u8] };
            let i = match id { Some(x) => utf8(dec(x as nat)), None => seq![] };
            &&& t.len() > 0 && t[0] == 52
            &&& rest(t) == seq![digit_of(k, binary)] + c + m + i + utf8(args_closed(xs))
        })
    {
        let d = kind_digit(kind_of(k, binary));
        let a = att_part(if binary { Some(n as u64) } else { None });
        let (m, i, x) = (ns_part(ns), id_part(id), args_closed(xs));
        let h = seq!['4'] + seq![d];
        lemma_ascii1('4'); lemma_ascii1(d); lemma_ascii1('-'); lemma_ascii1(',');
        lemma_utf8_add(h + a + m + i, x); lemma_utf8_add(h + a + m, i); lemma_utf8_add(h + a, m); lemma_utf8_add(h, a); lemma_utf8_add(seq!['4'], seq![d]);
        lemma_utf8_add(dec(n), seq!['-']); lemma_utf8_add(ns, seq![',']);
        lemma_utf8_empty(Seq::<char>::empty());
        assert(utf8(Seq::<char>::empty()) =~= seq![]);
        let c2 = if binary { utf8(dec(n)) + seq![45u8] } else { seq![] };
        let m2 = if ns == seq!['/'] { seq![] } else { utf8(ns) + seq![44u8] };
        let i2 = match id { Some(x) => utf8(dec(x as nat)), None => seq![] };
        assert(utf8(a) =~= c2); assert(utf8(m) =~= m2); assert(utf8(i) =~= i2);
        assert(rest(utf8(text_of(k, ns, id, binary, xs, n))) =~= seq![digit_of(k, binary)] + c2 + m2 + i2 + utf8(x));
    }
    proof fn lemma_at(b: Seq<u8>, p: Seq<u8>, w: Seq<u8>, q: Seq<u8>)
        requires b == p + w + q
        ensures
            b.len() == p.len() + w.len() + q.len(), span(b, p.len() as int, (p.len() + w.len()) as int) == w,
            forall|j: int| p.len() <= j < p.len() + w.len() ==> #[trigger] b[j] == w[j - p.len()],
    { assert(span(b, p.len() as int, (p.len() + w.len()) as int) =~= w); }
    proof fn lemma_digits(b: Seq<u8>, p: Seq<u8>, n: nat, q: Seq<u8>)
        requires b == p + utf8(dec(n)) + q
        ensures ({ let (s, e) = (p.len() as int, (p.len() + utf8(dec(n)).len()) as int); canon(b, s, e) && span(b, s, e) == utf8(dec(n)) })
    {
        lemma_dec(n);
        lemma_at(b, p, utf8(dec(n)), q);
        let (s, e) = (p.len() as int, (p.len() + utf8(dec(n)).len()) as int);
        assert forall|j: int| s <= j < e implies is_digit(#[trigger] b[j]) by { assert(is_digit(utf8(dec(n))[j - s])); }
        assert(b[s] == utf8(dec(n))[0]);
    }
    proof fn lemma_count(b: Seq<u8>, d: u8, n: nat, q: Seq<u8>)
        requires b == seq![d] + (utf8(dec(n)) + seq![45u8]) + q
        ensures ({ let e = 1 + utf8(dec(n)).len() as int; canon(b, 1, e) && e < b.len() && b[e] == 45 && span(b, 1, e) == utf8(dec(n)) })
    {
        lemma_at(b, seq![d], utf8(dec(n)) + seq![45u8], q);
        let e = 1 + utf8(dec(n)).len() as int;
        assert(b[e] == (utf8(dec(n)) + seq![45u8])[e - 1]);
        assert(b =~= seq![d] + utf8(dec(n)) + (seq![45u8] + q));
        lemma_digits(b, seq![d], n, seq![45u8] + q);
    }
    proof fn lemma_nspart(b: Seq<u8>, p: Seq<u8>, ns: Seq<char>, q: Seq<u8>)
        requires b == p + (utf8(ns) + seq![44u8]) + q, ns_fits(ns), ns != seq!['/']
        ensures ({
            let (s, e) = (p.len() as int, (p.len() + utf8(ns).len()) as int);
            s + 2 <= e < b.len() && b[s] == 47 && b[e] == 44 && span(b, s, e) == utf8(ns) && forall|i: int| s <= i < e ==> #[trigger] b[i] != 44
        })
    {
        lemma_ns(ns);
        lemma_at(b, p, utf8(ns) + seq![44u8], q);
        let (s, e) = (p.len() as int, (p.len() + utf8(ns).len()) as int);
        assert(b[e] == (utf8(ns) + seq![44u8])[e - s]);
        assert forall|j: int| s <= j < e implies #[trigger] b[j] == utf8(ns)[j - s] by { assert(b[j] == (utf8(ns) + seq![44u8])[j - s]); }
        assert(span(b, s, e) =~= utf8(ns));
        assert(b[s] == utf8(ns)[0]);
        assert forall|j: int| s <= j < e implies #[trigger] b[j] != 44 by { assert(b[j] == utf8(ns)[j - s]); }
    }
    proof fn lemma_argpart(b: Seq<u8>, p: Seq<u8>, xs: Seq<Seq<char>>)
        requires b == p + utf8(args_closed(xs)), xs.len() > 0, forall|i: int| 0 <= i < xs.len() ==> single(#[trigger] xs[i])
        ensures ({
            let (s, e) = (p.len() as int, b.len() as int);
            s + 2 <= e && b[s] == 91 && b[e - 1] == 93 && span(b, s, e) == utf8(args_closed(xs)) && forall|i: int| s <= i < e ==> #[trigger] b[i] != 10
        })
    {
        let x = utf8(args_closed(xs));
        lemma_args(xs);
        assert(b =~= p + x + seq![]);
        lemma_at(b, p, x, seq![]);
        assert(b[p.len() as int] == x[0]);
        assert(b[b.len() - 1] == x[x.len() - 1]);
        assert forall|j: int| p.len() <= j < b.len() implies #[trigger] b[j] != 10 by { assert(b[j] == x[j - p.len()]); }
    }
    /// the text is read in the way it was written
    pub open spec fn parts_are(b: Seq<u8>, sh: Shape, k: Kind, ns: Seq<char>, id: Option<u64>, binary: bool, xs: Seq<Seq<char>>, n: nat) -> bool {
        &&& b[0] == digit_of(k, binary)
        &&& sh.count is Some == binary && (sh.count matches Some((s, e)) ==> span(b, s, e) == utf8(dec(n)))
        &&& sh.ns is None == (ns == seq!['/']) && (sh.ns matches Some((s, e)) ==> span(b, s, e) == utf8(ns))
        &&& sh.id is Some == id is Some && (sh.id matches Some((s, e)) ==> span(b, s, e) == utf8(dec(id->0 as nat)))
        &&& sh.args is Some == (xs.len() > 0) && (sh.args matches Some((s, e)) ==> 0 <= s <= e <= b.len() && span(b, s, e) == utf8(args_closed(xs)))
    }
    proof fn lemma_shape(k: Kind, ns: Seq<char>, id: Option<u64>, binary: bool, xs: Seq<Seq<char>>, n: nat)
        requires sendable(k, ns, id, binary, xs, n)
        ensures ({
            let b = rest(utf8(text_of(k, ns, id, binary, xs, n)));
            let sh = shape_of(if binary { Some(n as u64) } else { None }, ns, id, xs);
            is_shape(b, sh) && parts_are(b, sh, k, ns, id, binary, xs, n)
        })
    {
        let b = rest(utf8(text_of(k, ns, id, binary, xs, n)));
        lemma_bytes(k, ns, id, binary, xs, n);
        let h = seq![digit_of(k, binary)];
        let c = if binary { utf8(dec(n)) + seq![45u8] } else { seq![] };
        let m = if ns == seq!['/'] { seq![] } else { utf8(ns) + seq![44u8] };
        let i = match id { Some(x) => utf8(dec(x as nat)), None => seq![] };
        let x = utf8(args_closed(xs));
        assert(b == h + c + m + i + x);
        lemma_shape_of(b, k, ns, id, binary, xs, n, c, m, i, x);
    }
    proof fn lemma_shape_of(b: Seq<u8>, k: Kind, ns: Seq<char>, id: Option<u64>, binary: bool, xs: Seq<Seq<char>>, n: nat, c: Seq<u8>, m: Seq<u8>, i: Seq<u8>, x: Seq<u8>)
        requires
            sendable(k, ns, id, binary, xs, n), b == seq![digit_of(k, binary)] + c + m + i + x,
            c == (if binary { utf8(dec(n)) + seq![45u8] } else { seq![] }), m == (if ns == seq!['/'] { seq![] } else { utf8(ns) + seq![44u8] }),
            i == (match id { Some(x) => utf8(dec(x as nat)), None => seq![] }), x == utf8(args_closed(xs)),
        ensures ({
            let sh = shape_of(if binary { Some(n as u64) } else { None }, ns, id, xs);
            is_shape(b, sh) && parts_are(b, sh, k, ns, id, binary, xs, n)
        })
    {
        let d = digit_of(k, binary);
        let h = seq![d];
        let sh = shape_of(if binary { Some(n as u64) } else { None }, ns, id, xs);
        let p = 1 + c.len() as int; let q = p + m.len(); let r = q + i.len();
        assert(after_count(sh) == p); assert(after_ns(sh) == q); assert(after_id(sh) == r);
        assert(b.len() == r + x.len() && b[0] == d);
        assert(type_digit(d));
        assert(sh.count matches Some((s, e)) ==> s == 1 && canon(b, s, e) && e < b.len() && b[e] == 45 && span(b, s, e) == utf8(dec(n))) by {
            if binary { assert(b =~= h + c + (m + i + x)); lemma_count(b, d, n, m + i + x); }
        }
        assert(sh.ns matches Some((s, e)) ==> s == p && s + 2 <= e < b.len() && b[s] == 47 && b[e] == 44 && span(b, s, e) == utf8(ns)
            && forall|i: int| s <= i < e ==> #[trigger] b[i] != 44) by {
            if ns != seq!['/'] { assert(b =~= (h + c) + m + (i + x)); lemma_nspart(b, h + c, ns, i + x); }
        }
        assert(sh.id matches Some((s, e)) ==> s == q && canon(b, s, e) && span(b, s, e) == utf8(dec(id->0 as nat))) by {
            if id is Some { lemma_digits(b, h + c + m, id->0 as nat, x); }
        }
        assert(sh.args matches Some((s, e)) ==> s == r && s + 2 <= e == b.len() && b[s] == 91 && b[e - 1] == 93 && span(b, s, e) == utf8(args_closed(xs))
            && forall|i: int| s <= i < e ==> #[trigger] b[i] != 10) by {
            if xs.len() > 0 { lemma_argpart(b, h + c + m + i, xs); }
        }
        assert(sh.args is None ==> r == b.len()) by {
            if xs.len() == 0 { lemma_utf8_empty(Seq::<char>::empty()); assert(args_closed(xs) =~= Seq::<char>::empty()); }
        }
        assert(is_shape(b, sh));
    }
    pub open spec fn contents_are(b: Seq<u8>, sh: Shape, k: Kind, ns: Seq<char>, id: Option<u64>, xs: Seq<Seq<char>>, n: nat) -> bool {
        &&& acceptable(b, sh) && content_ok(b, sh) && n_att(b, sh) == n
        &&& same_kind(k, skind(b[0])) && num(b, sh.id) == id
        &&& ns == match sh.ns { Some((s, e)) => decode_utf8(span(b, s, e)), None => seq!['/'] }
        &&& elems(b, sh).len() == xs.len()
        &&& forall|i: int| 0 <= i < xs.len() ==> span(b, (#[trigger] elems(b, sh)[i]).0, elems(b, sh)[i].1) == utf8(xs[i])
    }
    proof fn lemma_content(b: Seq<u8>, sh: Shape, k: Kind, ns: Seq<char>, id: Option<u64>, binary: bool, xs: Seq<Seq<char>>, n: nat)
        requires sendable(k, ns, id, binary, xs, n), is_shape(b, sh), parts_are(b, sh, k, ns, id, binary, xs, n)
        ensures contents_are(b, sh, k, ns, id, xs, n)
    {
        lemma_dec(n);
        if id is Some { lemma_dec(id->0 as nat); }
        encode_utf8_decode_utf8(ns);
        if xs.len() > 0 {
            axiom_array(xs);
            encode_utf8_decode_utf8(args_closed(xs));
            let (s, e) = sh.args->0;
            let x = utf8(args_closed(xs));
            assert(decode_utf8(span(b, s, e)) == args_closed(xs));
            crate::ext::serde_json::axiom_json_elems(args_closed(xs));
            assert forall|i: int| 0 <= i < xs.len() implies span(b, (#[trigger] elems(b, sh)[i]).0, elems(b, sh)[i].1) == utf8(xs[i]) by {
                let v = raw_elems(b, s, e)[i];
                assert(str_ok(x, v.0, v.1));
                assert(span(b, v.0 + s, v.1 + s) =~= span(span(b, s, e), v.0, v.1));
            }
        }
    }
    /// what the receiving side learns from the frames that `finish` returns
    pub proof fn sent_is_received(fs: Seq<WsMessage>, k: Kind, ns: Seq<char>, id: Option<u64>, binary: bool, xs: Seq<Seq<char>>, ds: Seq<Seq<u8>>) -> (sh: Shape)
        requires frames_ok(fs, k, ns, id, binary, xs, ds), sendable(k, ns, id, binary, xs, ds.len())
        ensures
            // an open session accepts every frame in order, the first as the text of a packet, the others as the byte strings
            forall|i: int| 0 <= i < fs.len() ==> accepts(State::Active, #[trigger] fs[i]),
            fs[0] is Text && utf8(fs[0]->Text_0@)[0] == 52,
            forall|i: int| 1 <= i < fs.len() ==> (#[trigger] fs[i]) is Binary && rest(frame_bytes(fs[i])) == ds[i - 1],
            // the text is acceptable, and asks for exactly the byte strings
            contents_are(rest(utf8(fs[0]->Text_0@)), sh, k, ns, id, xs, ds.len()),
    {
        let n = ds.len();
        let t = text_of(k, ns, id, binary, xs, n);
        let b = rest(utf8(t));
        let sh = shape_of(if binary { Some(n as u64) } else { None }, ns, id, xs);
        lemma_bytes(k, ns, id, binary, xs, n);
        lemma_shape(k, ns, id, binary, xs, n);
        lemma_content(b, sh, k, ns, id, binary, xs, n);
        assert(fs[0]->Text_0@ == t);
        assert forall|i: int| 1 <= i < fs.len() implies (#[trigger] fs[i]) is Binary && rest(frame_bytes(fs[i])) == ds[i - 1] by {
            assert(is_att(span(fs, 1, fs.len() as int)[i - 1], ds[i - 1]));
            assert(rest(seq![4u8] + ds[i - 1]) =~= ds[i - 1]);
        }
        assert forall|i: int| 0 <= i < fs.len() implies accepts(State::Active, #[trigger] fs[i]) by {
            if i > 0 { assert(is_att(span(fs, 1, fs.len() as int)[i - 1], ds[i - 1])); }
        }
        sh
    }

    // -------------------------------------------------------------- the packet
    /// the packet has these contents
    pub open spec fn carries(p: Packet, k: Kind, ns: Seq<char>, id: Option<u64>, xs: Seq<Seq<char>>, ds: Seq<Seq<u8>>) -> bool {
        &&& same_kind(k, p.kind) && decode_utf8(packet_ns(p)) == ns && p.id == id
        &&& p.args@.len() == xs.len()
        &&& forall|i: int| 0 <= i < xs.len() ==> span(win_s(p.message), (#[trigger] p.args@[i]).start as int, p.args@[i].end as int) == utf8(xs[i])
        &&& p.attachments@.len() == ds.len()
        &&& forall|i: int| 0 <= i < ds.len() ==> win_v(#[trigger] p.attachments@[i]) == ds[i]
    }
    /// a packet decoded from these frames (contracts of `deserialize` and `deserialize_partial`) has what was put into it
    pub proof fn decoded_is_encoded(p: Packet, sh: Shape, fs: Seq<WsMessage>, k: Kind, ns: Seq<char>, id: Option<u64>, binary: bool, xs: Seq<Seq<char>>, ds: Seq<Seq<u8>>, vs: Seq<OwnedSubslice<Vec<u8>>>)
        requires
            contents_are(rest(utf8(fs[0]->Text_0@)), sh, k, ns, id, xs, ds.len()),
            packet_is(p, rest(utf8(fs[0]->Text_0@)), sh, vs), vs.len() == ds.len(), forall|i: int| 0 <= i < vs.len() ==> win_v(#[trigger] vs[i]) == ds[i],
        ensures carries(p, k, ns, id, xs, ds)
    {
        let b = rest(utf8(fs[0]->Text_0@));
        assert forall|i: int| 0 <= i < xs.len() implies span(win_s(p.message), (#[trigger] p.args@[i]).start as int, p.args@[i].end as int) == utf8(xs[i]) by {
            assert(crate::socket_io_protocol::socket::de::is_span(p.args@[i], elems(b, sh)[i]));
        }
        lemma_ascii1('/');
        assert(packet_ns(p) =~= match sh.ns { Some((s, e)) => span(b, s, e), None => seq![47u8] });
        encode_utf8_decode_utf8(seq!['/']);
    }

    // -------------------------------------------------------------- the values
    /// the value that a leaf denotes in JSON
    pub open spec fn leaf_in(l: Leaf) -> In {
        match l {
            Leaf::Bool(b) => In::Bool(b), Leaf::Str(s) => In::Str(s), Leaf::UnitVariant(_, _, v) => In::Str(v), Leaf::Char(c) => In::Str(seq![c]),
            Leaf::I8(x) => In::Int(x as int), Leaf::I16(x) => In::Int(x as int), Leaf::I32(x) => In::Int(x as int), Leaf::I64(x) => In::Int(x as int),
            Leaf::U8(x) => In::Int(x as int), Leaf::U16(x) => In::Int(x as int), Leaf::U32(x) => In::Int(x as int), Leaf::U64(x) => In::Int(x as int),
            Leaf::None | Leaf::Unit | Leaf::UnitStruct(_) | Leaf::Skip(_) => In::Null,
            _ => num_in(l),
        }
    }
    /// the number that a wide integer or a floating-point number is read back as
    pub uninterp spec fn num_in(l: Leaf) -> In;
    pub axiom fn axiom_num_in(l: Leaf)
        ensures match num_in(l) { In::Null | In::Int(_) | In::Big(_, _) | In::F64(_) | In::Ill => true, _ => false };
    pub open spec fn bytes_in(b: Seq<u8>) -> In { In::Arr(Seq::new(b.len(), |i: int| In::Int(b[i] as int))) }
    pub open spec fn key(n: Node) -> Seq<char> { match n { Node::Leaf(Leaf::Str(s)) => s, _ => seq![] } }
    pub open spec fn map_keys(xs: Seq<Node>) -> Seq<Seq<char>> { Seq::new(xs.len() / 2, |i: int| key(xs[2 * i])) }
    pub open spec fn map_vals(vs: Seq<In>) -> Seq<In> { Seq::new(vs.len() / 2, |i: int| vs[2 * i + 1]) }
    pub open spec fn field_keys(xs: Seq<Node>) -> Seq<Seq<char>>
        decreases xs.len()
    {
        if xs.len() == 0 { seq![] } else { match xs.last() { Node::Wrap(Tag::Field(f), _) => field_keys(xs.drop_last()).push(f), _ => field_keys(xs.drop_last()) } }
    }
    pub open spec fn field_vals(xs: Seq<Node>, vs: Seq<In>) -> Seq<In>
        decreases xs.len()
    {
        if xs.len() == 0 || vs.len() != xs.len() { seq![] }
        else { match xs.last() { Node::Wrap(Tag::Field(f), _) => field_vals(xs.drop_last(), vs.drop_last()).push(vs.last()), _ => field_vals(xs.drop_last(), vs.drop_last()) } }
    }
    pub open spec fn list_in(t: Tag, xs: Seq<Node>, vs: Seq<In>) -> In {
        match t {
            Tag::Seq | Tag::Tuple | Tag::TupleStruct(_) => In::Arr(vs),
            Tag::TupleVariant(_, _, v) => In::Obj(seq![v], seq![In::Arr(vs)]),
            Tag::Map => In::Obj(map_keys(xs), map_vals(vs)),
            Tag::Struct => In::Obj(field_keys(xs), field_vals(xs, vs)),
            Tag::StructVariant(_, _, v) => In::Obj(seq![v], seq![In::Obj(field_keys(xs), field_vals(xs, vs))]),
            _ => In::Odd,
        }
    }
    /// what a tree denotes in JSON; `bin`: with its byte strings (and sequences of bytes) as byte strings
    pub open spec fn in_as(n: Node, bin: bool) -> In
        decreases n
    {
        match n {
            Node::Leaf(l) => leaf_in(l),
            Node::Bytes(b) => if bin { In::Hole(b) } else { bytes_in(b) },
            Node::Wrap(Tag::NewtypeVariant(_, _, v), m) => In::Obj(seq![v], seq![in_as(*m, bin)]),
            Node::Wrap(_, m) => in_as(*m, bin),
            Node::List(t, xs) => if bin && t == Tag::Seq && all_u8(xs) { In::Hole(u8s(xs)) }
                else { list_in(t, xs, Seq::new(xs.len(), |i: int| if 0 <= i < xs.len() { in_as(xs[i], bin) } else { In::Odd })) },
        }
    }
    /// a list tag, with keys where there have to be keys
    pub open spec fn listy(t: Tag) -> bool { match t { Tag::Seq | Tag::Tuple | Tag::TupleStruct(_) | Tag::TupleVariant(_, _, _) | Tag::Map | Tag::Struct | Tag::StructVariant(_, _, _) => true, _ => false } }
    pub open spec fn first_key(t: Tag, xs: Seq<Node>) -> Option<Seq<char>> {
        match t {
            Tag::Map => if map_keys(xs).len() > 0 { Some(map_keys(xs)[0]) } else { None },
            Tag::Struct => if field_keys(xs).len() > 0 { Some(field_keys(xs)[0]) } else { None },
            Tag::TupleVariant(_, _, v) => Some(v),
            _ => None,
        }
    }
    pub open spec fn variant_ok(t: Tag, xs: Seq<Node>) -> bool {
        match t { Tag::StructVariant(_, _, v) => v != "_placeholder"@ && (field_keys(xs).len() > 0 ==> field_keys(xs)[0] != "_placeholder"@), Tag::NewtypeVariant(_, _, v) => v != "_placeholder"@, _ => true }
    }
    /// none of its objects starts with a _placeholder key
    pub open spec fn clean(n: Node) -> bool
        decreases n
    {
        match n {
            Node::Wrap(t, m) => clean(*m) && variant_ok(t, seq![]),
            Node::List(t, xs) => listy(t) && first_key(t, xs) != Some("_placeholder"@) && variant_ok(t, xs) && forall|i: int| 0 <= i < xs.len() ==> clean(#[trigger] xs[i]),
            _ => true,
        }
    }
    /// a tree that serde's calls can build: lists are lists, and the keys of maps are strings
    pub open spec fn formed(n: Node) -> bool
        decreases n
    {
        match n {
            Node::Wrap(_, m) => formed(*m),
            Node::List(t, xs) => listy(t) && forall|i: int| 0 <= i < xs.len() ==> formed(#[trigger] xs[i]) && (t == Tag::Map && i % 2 == 0 ==> keyish(xs[i])),
            _ => true,
        }
    }
    /// nested at most `d` deep
    pub open spec fn within(i: In, d: int) -> bool
        decreases i
    {
        match i {
            In::Arr(xs) => d > 0 && forall|j: int| 0 <= j < xs.len() ==> within(#[trigger] xs[j], d - 1),
            In::Obj(ks, vs) => d > 0 && forall|j: int| 0 <= j < vs.len() ==> within(#[trigger] vs[j], d - 1),
            _ => true,
        }
    }
    /// serde_json reads back what it writes (it reads 127 levels)
    pub axiom fn axiom_read_back(n: Node)
        requires formed(n), within(in_as(n, false), 127)
        ensures whole(json_of(n)), json_tree(json_of(n)) == in_as(n, false);

    proof fn lemma_moved_at(xs: Seq<Node>, i: nat, m: nat)
        requires i < m <= xs.len()
        ensures
            moved_upto(xs, i).len() + moved(xs[i as int]).len() <= moved_upto(xs, m).len(),
            forall|j: int| 0 <= j < moved(xs[i as int]).len() ==> #[trigger] moved_upto(xs, m)[moved_upto(xs, i).len() + j] == moved(xs[i as int])[j],
        decreases m
    {
        if m > i + 1 { lemma_moved_at(xs, i, (m - 1) as nat); }
        assert(moved_upto(xs, m) == moved_upto(xs, (m - 1) as nat) + moved(xs[m - 1]));
    }
    pub open spec fn has_at(ds: spec_fn(int) -> Seq<u8>, k: nat, bs: Seq<Seq<u8>>) -> bool { forall|j: int| 0 <= j < bs.len() ==> ds(k + j) == #[trigger] bs[j] }
    proof fn lemma_fields(xs: Seq<Node>, ys: Seq<Node>, us: Seq<In>, vs: Seq<In>, n: nat, ds: spec_fn(int) -> Seq<u8>)
        requires
            xs.len() == ys.len() == us.len() == vs.len(),
            forall|i: int| 0 <= i < xs.len() ==> (match #[trigger] xs[i] { Node::Wrap(Tag::Field(f), _) => ys[i] matches Node::Wrap(Tag::Field(g), _) && g == f, _ => !(ys[i] matches Node::Wrap(Tag::Field(_), _)) }),
            forall|i: int| 0 <= i < xs.len() ==> filled_in(#[trigger] vs[i], n, ds) == us[i],
        ensures
            field_keys(ys) == field_keys(xs), field_vals(ys, vs).len() == field_keys(ys).len(), field_vals(xs, us).len() == field_keys(xs).len(),
            forall|i: int| 0 <= i < field_vals(ys, vs).len() ==> filled_in(#[trigger] field_vals(ys, vs)[i], n, ds) == field_vals(xs, us)[i],
        decreases xs.len()
    {
        if xs.len() > 0 {
            let l = xs.len() - 1;
            assert forall|i: int| 0 <= i < l implies (match #[trigger] xs.drop_last()[i] { Node::Wrap(Tag::Field(f), _) => ys.drop_last()[i] matches Node::Wrap(Tag::Field(g), _) && g == f, _ => !(ys.drop_last()[i] matches Node::Wrap(Tag::Field(_), _)) }) by { let x = xs[i]; }
            assert forall|i: int| 0 <= i < l implies filled_in(#[trigger] vs.drop_last()[i], n, ds) == us.drop_last()[i] by { let x = vs[i]; }
            lemma_fields(xs.drop_last(), ys.drop_last(), us.drop_last(), vs.drop_last(), n, ds);
            let x = xs[l]; let v = vs[l];
        }
    }
    proof fn lemma_obj(ks: Seq<Seq<char>>, vs: Seq<In>, us: Seq<In>, n: nat, ds: spec_fn(int) -> Seq<u8>)
        requires ks.len() > 0 ==> ks[0] != "_placeholder"@, vs.len() == us.len(), forall|i: int| 0 <= i < vs.len() ==> filled_in(#[trigger] vs[i], n, ds) == us[i]
        ensures filled_in(In::Obj(ks, vs), n, ds) == In::Obj(ks, us)
    {
        assert(hole_of(ks, vs, n, ds) is None);
        match filled_in(In::Obj(ks, vs), n, ds) { In::Obj(rk, rv) => { assert(rk == ks && rv =~= us); } _ => { assert(false); } }
    }
    proof fn lemma_arr(vs: Seq<In>, us: Seq<In>, n: nat, ds: spec_fn(int) -> Seq<u8>)
        requires vs.len() == us.len(), forall|i: int| 0 <= i < vs.len() ==> filled_in(#[trigger] vs[i], n, ds) == us[i]
        ensures filled_in(In::Arr(vs), n, ds) == In::Arr(us)
    {
        match filled_in(In::Arr(vs), n, ds) { In::Arr(rv) => { assert(rv =~= us); } _ => { assert(false); } }
    }
    proof fn lemma_ph_in(k: nat, n: nat, ds: spec_fn(int) -> Seq<u8>)
        requires k < n <= u64::MAX
        ensures filled_in(in_as(ph(k), false), n, ds) == In::Hole(ds(k as int))
    {
        let (f, g) = ("_placeholder"@, "num"@);
        let a = Node::Wrap(Tag::Field(f), Box::new(Node::Leaf(Leaf::Bool(true))));
        let b = Node::Wrap(Tag::Field(g), Box::new(Node::Leaf(Leaf::U64(k as u64))));
        let xs = seq![a, b];
        reveal_with_fuel(in_as, 3); reveal_with_fuel(field_keys, 3); reveal_with_fuel(field_vals, 3);
        let vs = Seq::new(xs.len(), |i: int| if 0 <= i < xs.len() { in_as(xs[i], false) } else { In::Odd });
        assert(vs =~= seq![In::Bool(true), In::Int(k as int)]);
        assert(xs.drop_last() =~= seq![a]); assert(xs.drop_last().drop_last() =~= seq![]);
        assert(vs.drop_last() =~= seq![In::Bool(true)]); assert(vs.drop_last().drop_last() =~= seq![]);
        assert(field_keys(xs) =~= seq![f, g]);
        assert(field_vals(xs, vs) =~= seq![In::Bool(true), In::Int(k as int)]);
        assert(in_as(ph(k), false) == In::Obj(seq![f, g], seq![In::Bool(true), In::Int(k as int)]));
    }
    /// with the byte strings in place of the placeholders, the tree that was written is the tree of the value
    pub proof fn lemma_filled(t: Node, k: nat, n: nat, ds: spec_fn(int) -> Seq<u8>)
        requires okay(t), clean(t), has_at(ds, k, moved(t)), k + moved(t).len() <= n <= u64::MAX
        ensures filled_in(in_as(placed(t, k), false), n, ds) == in_as(t, true), formed(placed(t, k))
        decreases t
    {
        match t {
            Node::Leaf(l) => { axiom_num_in(l); }
            Node::Bytes(b) => { assert(ds(k as int) == moved(t)[0]); lemma_ph_in(k, n, ds); lemma_formed_ph(k); }
            Node::Wrap(tag, m) => {
                lemma_filled(*m, k, n, ds);
                match tag {
                    Tag::NewtypeVariant(_, _, v) => { lemma_obj(seq![v], seq![in_as(placed(*m, k), false)], seq![in_as(*m, true)], n, ds); }
                    _ => {}
                }
            }
            Node::List(tag, xs) => {
                if tag == Tag::Seq && all_u8(xs) {
                    assert(ds(k as int) == moved(t)[0]); lemma_ph_in(k, n, ds); lemma_formed_ph(k);
                } else {
                    lemma_list(tag, xs, k, n, ds);
                }
            }
        }
    }
    proof fn lemma_formed_ph(k: nat)
        ensures formed(ph(k))
    {
        reveal_with_fuel(formed, 3);
    }
    proof fn lemma_list(tag: Tag, xs: Seq<Node>, k: nat, n: nat, ds: spec_fn(int) -> Seq<u8>)
        requires
            okay(Node::List(tag, xs)), clean(Node::List(tag, xs)), !(tag == Tag::Seq && all_u8(xs)),
            has_at(ds, k, moved(Node::List(tag, xs))), k + moved(Node::List(tag, xs)).len() <= n <= u64::MAX
        ensures
            filled_in(in_as(placed(Node::List(tag, xs), k), false), n, ds) == in_as(Node::List(tag, xs), true), formed(placed(Node::List(tag, xs), k))
        decreases Node::List(tag, xs), 0nat
    {
        let t = Node::List(tag, xs);
        let ys = Seq::new(xs.len(), |i: int| if 0 <= i < xs.len() { placed(xs[i], k + moved_upto(xs, i as nat).len()) } else { t });
        match placed(t, k) { Node::List(tg, zs) => { assert(tg == tag && zs =~= ys); } _ => { assert(false); } }
        assert(placed(t, k) == Node::List(tag, ys));
        let vs = Seq::new(ys.len(), |i: int| if 0 <= i < ys.len() { in_as(ys[i], false) } else { In::Odd });
        let us = Seq::new(xs.len(), |i: int| if 0 <= i < xs.len() { in_as(xs[i], true) } else { In::Odd });
        assert forall|i: int| 0 <= i < xs.len() implies filled_in(#[trigger] vs[i], n, ds) == us[i] && formed(ys[i]) by {
            let q = k + moved_upto(xs, i as nat).len();
            lemma_moved_at(xs, i as nat, xs.len());
            let bs = moved(xs[i]);
            assert(moved(t) == moved_upto(xs, xs.len()));
            assert forall|j: int| 0 <= j < bs.len() implies ds(q + j) == #[trigger] bs[j] by {
                assert(moved_upto(xs, xs.len())[moved_upto(xs, i as nat).len() + j] == bs[j]);
                assert(ds(k + (moved_upto(xs, i as nat).len() + j)) == moved(t)[moved_upto(xs, i as nat).len() + j]);
            }
            assert(has_at(ds, q, bs));
            assert(okay(xs[i]));
            assert(clean(xs[i]));
            lemma_filled(xs[i], q, n, ds);
        }
        assert forall|i: int| 0 <= i < ys.len() implies formed(#[trigger] ys[i]) && (tag == Tag::Map && i % 2 == 0 ==> keyish(ys[i])) by {
            let v = vs[i];
            assert(okay(xs[i]) && (tag == Tag::Map && i % 2 == 0 ==> keyish(xs[i])));
        }
        assert(formed(Node::List(tag, ys)));
        lemma_in_list(tag, xs, us, true);
        lemma_in_list(tag, ys, vs, false);
        match tag {
            Tag::Seq | Tag::Tuple | Tag::TupleStruct(_) => { lemma_arr(vs, us, n, ds); }
            Tag::TupleVariant(_, _, v) => { lemma_arr(vs, us, n, ds); lemma_obj(seq![v], seq![In::Arr(vs)], seq![In::Arr(us)], n, ds); }
            Tag::Map => {
                assert forall|i: int| 0 <= i < map_keys(xs).len() implies #[trigger] map_keys(ys)[i] == map_keys(xs)[i] by {
                    assert(okay(xs[2 * i]) && (tag == Tag::Map && (2 * i) % 2 == 0 ==> keyish(xs[2 * i])));
                    assert(ys[2 * i] == placed(xs[2 * i], k + moved_upto(xs, (2 * i) as nat).len()));
                }
                assert(map_keys(ys) =~= map_keys(xs));
                assert forall|i: int| 0 <= i < map_vals(vs).len() implies filled_in(#[trigger] map_vals(vs)[i], n, ds) == map_vals(us)[i] by { let v = vs[2 * i + 1]; }
                lemma_obj(map_keys(xs), map_vals(vs), map_vals(us), n, ds);
            }
            Tag::Struct => {
                lemma_kinds(tag, xs, ys, k);
                lemma_fields(xs, ys, us, vs, n, ds);
                lemma_obj(field_keys(xs), field_vals(ys, vs), field_vals(xs, us), n, ds);
            }
            Tag::StructVariant(_, _, v) => {
                lemma_kinds(tag, xs, ys, k);
                lemma_fields(xs, ys, us, vs, n, ds);
                let (a, b) = (In::Obj(field_keys(xs), field_vals(ys, vs)), In::Obj(field_keys(xs), field_vals(xs, us)));
                lemma_obj(field_keys(xs), field_vals(ys, vs), field_vals(xs, us), n, ds);
                assert(seq![a][0] == a && seq![b][0] == b);
                lemma_obj(seq![v], seq![a], seq![b], n, ds);
            }
            _ => {}
        }
    }
    proof fn lemma_in_list(tag: Tag, xs: Seq<Node>, us: Seq<In>, bin: bool)
        requires us.len() == xs.len(), !(bin && tag == Tag::Seq && all_u8(xs)), forall|i: int| 0 <= i < xs.len() ==> #[trigger] us[i] == in_as(xs[i], bin)
        ensures in_as(Node::List(tag, xs), bin) == list_in(tag, xs, us)
    {
        assert forall|vs: Seq<In>| vs.len() == us.len() && (forall|i: int| 0 <= i < us.len() ==> #[trigger] vs[i] == us[i]) implies #[trigger] list_in(tag, xs, vs) == list_in(tag, xs, us) by { assert(vs =~= us); }
    }
    proof fn lemma_kinds(tag: Tag, xs: Seq<Node>, ys: Seq<Node>, k: nat)
        requires ys == Seq::new(xs.len(), |i: int| if 0 <= i < xs.len() { placed(xs[i], k + moved_upto(xs, i as nat).len()) } else { Node::List(tag, xs) })
        ensures forall|i: int| 0 <= i < xs.len() ==> (match #[trigger] xs[i] { Node::Wrap(Tag::Field(f), _) => ys[i] matches Node::Wrap(Tag::Field(g), _) && g == f, _ => !(ys[i] matches Node::Wrap(Tag::Field(_), _)) })
    {
        assert forall|i: int| 0 <= i < xs.len() implies (match #[trigger] xs[i] { Node::Wrap(Tag::Field(f), _) => ys[i] matches Node::Wrap(Tag::Field(g), _) && g == f, _ => !(ys[i] matches Node::Wrap(Tag::Field(_), _)) }) by {
            assert(ys[i] == placed(xs[i], k + moved_upto(xs, i as nat).len()));
        }
    }
    /// a type reads from an argument of a binary packet what it reads from the value that was added, byte strings included
    pub proof fn value_is_back<'a, T: Deserialize<'a>>(s: &'a str, t: Node, k: nat, n: nat, ds: spec_fn(int) -> Seq<u8>, r: T)
        requires
            okay(t), clean(t), within(in_as(placed(t, k), false), 127), s@ == json_of(placed(t, k)),
            has_at(ds, k, moved(t)), k + moved(t).len() <= n <= u64::MAX, att_is::<T>(s, n, ds, r),
        ensures T::reads(in_as(t, true), r)
    {
        lemma_filled(t, k, n, ds);
        axiom_read_back(placed(t, k));
    }
}

-- fn PacketBuilder::new_event
requires:
- into_obeys(namespace)
ensures:
- is_bin(r) == binary && !r.first
- stands_for(r, Kind::Event, into_view(namespace), id, binary, seq![json_str(event@)], seq![])

-- fn PacketBuilder::new_ack
requires:
- into_obeys(namespace)
ensures:
- stands_for(r, Kind::Ack, into_view(namespace), Some(id), binary, seq![], seq![])

-- fn PacketBuilder::new
requires:
- into_obeys(namespace)
ensures:
- stands_for(r, kind, into_view(namespace), id, binary, seq![], seq![])

-- fn PacketBuilder::serialize_arg
requires:
- arg.pure()
ensures:
- r is Ok ==> extended(*old(self), *final(self), arg)
- r is Err ==> same(*old(self), *final(self))
- r is Ok ==> forall|k: Kind, ns: Seq<char>, id: Option<u64>, binary: bool, xs: Seq<Seq<char>>, ds: Seq<Seq<u8>>|
    #[trigger] stands_for(*old(self), k, ns, id, binary, xs, ds)
        ==> stands_for(*final(self), k, ns, id, binary, xs.push(arg_text(*old(self), arg)), ds + arg_bufs(*old(self), arg))
- arg.total() ==> r is Ok
proof start:
proof {
    reveal_strlit("["); reveal_strlit(",");
    assert("["@ =~= seq!['[']); assert(","@ =~= seq![',']);
}
proof tail:
proof {
    if r is Ok {
        let n = atts(*old(self)).len() as int;
        let ds = arg_bufs(*old(self), arg);
        let fs = atts(*self);
        assert forall|i: int| 0 <= i < ds.len() implies is_att(#[trigger] span(fs, n, fs.len() as int)[i], ds[i]) by { let x = fs[n + i]; }
        let c = if old(self).first { seq!['['] } else { seq![','] };
        assert(old(self).buffer@ + utf8(c) + utf8(arg_text(*old(self), arg)) =~= old(self).buffer@ + (utf8(c) + utf8(arg_text(*old(self), arg))));
        assert(self.buffer@ =~= old(self).buffer@ + utf8(c + arg_text(*old(self), arg)));
        assert(same_header(*old(self), *self));
        assert(atts(*self).len() == n + ds.len());
        assert(span(fs, 0, n) =~= atts(*old(self)));
        assert(span(fs, n, fs.len() as int).len() == ds.len());
        assert(extended(*old(self), *self, arg));
        assert forall|k: Kind, ns: Seq<char>, id: Option<u64>, binary: bool, xs: Seq<Seq<char>>, ds: Seq<Seq<u8>>|
            #[trigger] stands_for(*old(self), k, ns, id, binary, xs, ds) implies
            stands_for(*self, k, ns, id, binary, xs.push(arg_text(*old(self), arg)), ds + arg_bufs(*old(self), arg)) by {
            lemma_extend(*old(self), *self, arg, k, ns, id, binary, xs, ds);
        }
    }
}

-- fn PacketBuilder::finish
requires:
- exists|k: Kind, ns: Seq<char>, id: Option<u64>, binary: bool, xs: Seq<Seq<char>>, ds: Seq<Seq<u8>>| #[trigger] stands_for(self, k, ns, id, binary, xs, ds)
ensures:
- forall|k: Kind, ns: Seq<char>, id: Option<u64>, binary: bool, xs: Seq<Seq<char>>, ds: Seq<Seq<u8>>|
    #[trigger] stands_for(self, k, ns, id, binary, xs, ds) ==> frames_ok(r@, k, ns, id, binary, xs, ds)

proof start:
proof { lemma_facts(self); }
let ghost vp_b = self;
proof tail:
proof {
    assert(span(r@, 1, r@.len() as int) =~= atts(vp_b));
    assert(finished_as(vp_b, r@));
    assert forall|k: Kind, ns: Seq<char>, id: Option<u64>, binary: bool, xs: Seq<Seq<char>>, ds: Seq<Seq<u8>>|
        #[trigger] stands_for(vp_b, k, ns, id, binary, xs, ds) implies frames_ok(r@, k, ns, id, binary, xs, ds) by {
        lemma_finished(vp_b, r@, k, ns, id, binary, xs, ds);
    }
}

-- fn serialize_connect
ensures:
- r matches EngineMessage::Text(o) && win_ok_s(o) && win_s(o) == utf8(hdr_text(ProtocolKind::Connect, None, namespace@, None))

-- fn serialize_disconnect
ensures:
- r matches EngineMessage::Text(o) && win_ok_s(o) && win_s(o) == utf8(hdr_text(ProtocolKind::Disconnect, None, namespace@, None))

-- fn serialize_header
attr: #[verifier::rlimit(120)]
ensures:
- r@ == hdr_text(kind, attachments, namespace@, id)
proof start:
broadcast use crate::prelude::lemma_utf8_push_byte;
proof {
    lemma_ascii1('4');
    reveal_strlit("-"); reveal_strlit(","); reveal_strlit("/");
    assert("-"@ =~= seq!['-']); assert(","@ =~= seq![',']); assert("/"@ =~= seq!['/']);
}
let ghost vp_k = kind;
proof tail:
proof { assert(r@ =~= hdr_text(vp_k, attachments, namespace@, id)); }
