module socket_io_protocol::socket
-- ext serde_json fmt
-- needs owned_subslice socket_io_protocol::engine socket_io_protocol::socket::args
-- raw
use crate::owned_subslice::*;
broadcast use crate::prelude::group_utf8;
/// every range kept in the packet lies in its text, on character boundaries
pub open spec fn packet_ok(p: Packet) -> bool {
    &&& win_ok_s(p.message) && valid_utf8(win_s(p.message))
    &&& p.namespace matches Some(r) ==> str_ok(win_s(p.message), r.start as int, r.end as int)
    &&& args::ranges_ok(win_s(p.message), p.args@)
    &&& args::views_ok(p.attachments@)
    &&& p.kind == Kind::Ack ==> p.id is Some
}
pub open spec fn packet_ns(p: Packet) -> Seq<u8> {
    match p.namespace { Some(r) => span(win_s(p.message), r.start as int, r.end as int), None => seq![47u8] }
}
pub open spec fn args_of(p: Packet, a: Args) -> bool {
    utf8(a.message@) == win_s(p.message) && a.args@ == p.args@ && a.attachments@ == p.attachments@
}
impl<'a> VpDisplay for Data<'a> {
    uninterp spec fn disp(&self) -> Seq<char>;
    open spec fn disp_ok(&self) -> bool {
        match *self { Data::Event { args, .. } => args::args_ok(args), Data::Ack { args, .. } => args::args_ok(args), _ => true }
    }
}

-- fn Packet::namespace
requires:
- packet_ok(*self)
ensures:
- utf8(r@) == packet_ns(*self)
proof start:
proof { reveal_strlit("/"); lemma_ascii("/"@); assert(utf8("/"@) =~= seq![47u8]); }

-- fn Packet::data
requires:
- packet_ok(*self)
ensures:
- match self.kind {
    Kind::Connect => r is Connect,
    Kind::Disconnect => r is Disconnect,
    Kind::Event => r matches Data::Event { id, args } && id == self.id && args_of(*self, args),
    Kind::Ack => r matches Data::Ack { id, args } && Some(id) == self.id && args_of(*self, args),
  }

-- fn Packet::args
requires:
- packet_ok(*self)
ensures:
- args_of(*self, r)

-- fn Display for Packet::fmt
inherent
requires:
- packet_ok(*self)

-- fn Display for Data<'a>::fmt
inherent
requires:
- self.disp_ok()

module socket_io_protocol::socket::args
-- ext io serde serde_json tungstenite fmt
-- needs owned_subslice socket_io_protocol::socket::args::serialize_attachments socket_io_protocol::socket::args::deserialize_attachments
-- raw
use crate::ext::serde::*;
use crate::owned_subslice::*;
use crate::ext::serde_json::{value_de, Map};
use crate::socket_io_protocol::socket::args::deserialize_attachments::data_of;
broadcast use {crate::prelude::group_utf8, crate::ext::serde_json::axiom_byte_number};

// ------------------------------------------------------------------ arguments of a received packet
pub open spec fn ranges_ok(b: Seq<u8>, v: Seq<Range<usize>>) -> bool {
    forall|i: int| 0 <= i < v.len() ==> str_ok(b, (#[trigger] v[i]).start as int, v[i].end as int)
}
pub open spec fn views_ok(v: Seq<OwnedSubslice<Vec<u8>>>) -> bool { forall|i: int| 0 <= i < v.len() ==> win_ok_v(#[trigger] v[i]) }
pub open spec fn args_ok(a: Args) -> bool { ranges_ok(utf8(a.message@), a.args@) && views_ok(a.attachments@) }
/// `x` is argument number `i` of `a`: exactly the text of that element, and all the attachments
pub open spec fn arg_is(a: Args, i: int, x: Arg) -> bool {
    utf8(x.arg@) == span(utf8(a.message@), a.args@[i].start as int, a.args@[i].end as int) && x.attachments@ == a.attachments@
}
impl<'a> VpDisplay for Args<'a> {
    uninterp spec fn disp(&self) -> Seq<char>;
    open spec fn disp_ok(&self) -> bool { args_ok(*self) }
}
impl<'a> VpDisplay for Arg<'a> {
    uninterp spec fn disp(&self) -> Seq<char>;
    open spec fn disp_ok(&self) -> bool { views_ok(self.attachments@) }
}

// ------------------------------------------------------------------ placeholders in values
pub open spec fn bufs(v: Seq<OwnedSubslice<Vec<u8>>>) -> Seq<Seq<u8>> { Seq::new(v.len(), |i: int| win_v(v[i])) }
pub open spec fn is_placeholder(m: Map) -> bool { m.has("_placeholder"@) }
/// the attachment a placeholder names, if it names one
pub open spec fn ph_num(m: Map) -> Option<u64> {
    if m.has("num"@) { m.at("num"@).as_u64_spec() } else { None }
}
pub open spec fn byte_array(v: Value, d: Seq<u8>) -> bool {
    v matches Value::Array(xs) && xs@.len() == d.len() && forall|i: int| 0 <= i < d.len() ==> Value::byte(#[trigger] xs@[i], d[i])
}
/// every placeholder in `v` names one of the `n` attachments
pub open spec fn fillable(v: Value, n: int) -> bool
    decreases v
{
    match v {
        Value::Array(xs) => forall|i: int| 0 <= i < xs@.len() ==> fillable(#[trigger] xs@[i], n),
        Value::Object(m) => if is_placeholder(m) { ph_num(m) is Some && ph_num(m)->0 < n }
            else { forall|i: int| 0 <= i < m.vals@.len() ==> fillable(#[trigger] m.vals@[i], n) },
        _ => true,
    }
}
/// `w` is `v` with every placeholder replaced by the bytes it names and nothing else changed
pub open spec fn filled(v: Value, ds: Seq<Seq<u8>>, w: Value) -> bool
    decreases v
{
    match v {
        Value::Array(xs) => w matches Value::Array(ys) && ys@.len() == xs@.len()
            && forall|i: int| 0 <= i < xs@.len() ==> filled(#[trigger] xs@[i], ds, ys@[i]),
        Value::Object(m) => if is_placeholder(m) { byte_array(w, ds[ph_num(m)->0 as int]) }
            else { w matches Value::Object(k) && k.keys@ == m.keys@ && k.vals@.len() == m.vals@.len()
                && forall|i: int| 0 <= i < m.vals@.len() ==> filled(#[trigger] m.vals@[i], ds, k.vals@[i]) },
        _ => w == v,
    }
}

-- fn serialize_arg
ensures:
- writer.linked() && r is Ok ==> writer.fin() == writer.put(utf8(arg.json()))
- writer.linked() && r is Err ==> exists|d: Seq<u8>| writer.fin() == #[trigger] writer.put(d)
- writer.infallible() && arg.total() ==> r is Ok

-- fn serialize_arg_binary
requires:
- arg.pure()
ensures:
- writer.linked() && r is Ok ==> writer.fin() == writer.put(utf8(arg.bin_json(old(buffers)@.len())))
- writer.linked() && r is Err ==> exists|d: Seq<u8>| writer.fin() == #[trigger] writer.put(d)
- writer.infallible() && arg.total() ==> r is Ok
- r is Ok ==> grown(old(buffers)@, final(buffers)@, arg.bin_bufs())
- extends(old(buffers)@, final(buffers)@)

-- fn Args::len
ensures:
- r == self.args@.len()

-- fn Args::is_empty
ensures:
- r == (self.args@.len() == 0)

-- fn Args::get
requires:
- args_ok(*self)
ensures:
- r is Some <==> idx < self.args@.len()
- r matches Some(x) ==> arg_is(*self, idx as int, x)

-- fn Args::iter
retty ArgsIter<'_>
ensures:
- r.args == self && r.idx == 0

-- fn Iterator for ArgsIter<'a>::next
inherent
retty Option<Arg<'a>>
requires:
- args_ok(*old(self).args) && old(self).idx < usize::MAX
ensures:
- final(self).args == old(self).args && final(self).idx >= old(self).idx
- old(self).idx < old(self).args.args@.len() ==> final(self).idx == old(self).idx + 1
- r is Some <==> old(self).idx < old(self).args.args@.len()
- r matches Some(x) ==> arg_is(*old(self).args, old(self).idx as int, x)

-- fn Arg::to_json_value
requires:
- views_ok(self.attachments@)
ensures:
- self.attachments@.len() == 0 ==> (r is Ok <==> value_de(self.arg@) is Some) && (r is Ok ==> r->Ok_0 == value_de(self.arg@)->0)
- self.attachments@.len() > 0 ==> (r is Ok <==> value_de(self.arg@) is Some && fillable(value_de(self.arg@)->0, self.attachments@.len() as int))
- self.attachments@.len() > 0 && r is Ok ==> filled(value_de(self.arg@)->0, bufs(self.attachments@), r->Ok_0)

-- fn Arg::deserialize
ensures:
- self.attachments@.len() == 0 ==> (r is Ok <==> T::de_ok(self.arg@))
- self.attachments@.len() == 0 && r is Ok ==> T::de_is(self.arg, r->Ok_0)
- self.attachments@.len() > 0 && r is Ok ==> att_is::<T>(self.arg, self.attachments@.len(), data_of(self.attachments@), r->Ok_0)
- self.attachments@.len() > 0 && att_ok::<T>(self.arg@, self.attachments@.len(), data_of(self.attachments@)) ==> r is Ok

-- fn fill_placeholders_value
attr: #[verifier::loop_isolation(false)]
requires:
- views_ok(buffers@)
ensures:
- r is Ok <==> fillable(*old(value), buffers@.len() as int)
- r is Ok ==> filled(*old(value), bufs(buffers@), *final(value))
decreases *old(value)
proof start:
let ghost vp_v = *value;
let ghost vp_n = buffers@.len() as int;
loop 0 invariant_except_break:
- vp_e0 is None
- forall|i: int| 0 <= i < vp_it0.index@ ==> fillable(#[trigger] vp_v->Array_0@[i], vp_n)
loop 0:
- vp_v is Array && vp_it0.seq().len() == vp_v->Array_0@.len()
- forall|i: int| 0 <= i < vp_v->Array_0@.len() ==> *vp_it0.seq()[i] == #[trigger] vp_v->Array_0@[i]
- vp_e0 is None ==> forall|i: int| 0 <= i < vp_it0.index@ ==> filled(#[trigger] vp_v->Array_0@[i], bufs(buffers@), *final(vp_it0.seq()[i]))
loop 0 ensures:
- vp_e0 is None <==> fillable(vp_v, vp_n)
- vp_e0 is None ==> vp_it0.index@ == vp_it0.seq().len()
loop 1 invariant_except_break:
- vp_e1 is None
- forall|i: int| 0 <= i < vp_it1.index@ ==> fillable(#[trigger] vp_v->Object_0.vals@[i], vp_n)
loop 1:
- vp_v is Object && !is_placeholder(vp_v->Object_0) && vp_it1.seq().len() == vp_v->Object_0.vals@.len()
- forall|i: int| 0 <= i < vp_v->Object_0.vals@.len() ==> *vp_it1.seq()[i] == #[trigger] vp_v->Object_0.vals@[i]
- vp_e1 is None ==> forall|i: int| 0 <= i < vp_it1.index@ ==> filled(#[trigger] vp_v->Object_0.vals@[i], bufs(buffers@), *final(vp_it1.seq()[i]))
loop 1 ensures:
- vp_e1 is None <==> fillable(vp_v, vp_n)
- vp_e1 is None ==> vp_it1.index@ == vp_it1.seq().len()
loop 2:
- vp_it2.seq().len() == win_v(*buffer).len()
- forall|i: int| 0 <= i < vp_it2.seq().len() ==> *(#[trigger] vp_it2.seq()[i]) == win_v(*buffer)[i]
- vp_o2@.len() == vp_it2.index@
- forall|i: int| 0 <= i < vp_it2.index@ ==> Value::byte(#[trigger] vp_o2@[i], win_v(*buffer)[i])

-- fn Display for Args<'a>::fmt
inherent
whilefor: 0
requires:
- args_ok(*self)
proof start:
proof { axiom_slice_len(self.args); }
loop 0 invariant_except_break:
- vp_it0.idx <= self.args@.len()
loop 0:
- vp_it0.args == self && args_ok(*self) && self.args@.len() <= isize::MAX
loop 0 decreases:
- self.args@.len() - vp_it0.idx

-- fn Display for Arg<'a>::fmt
inherent
requires:
- views_ok(self.attachments@)
