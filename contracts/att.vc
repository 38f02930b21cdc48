module socket_io_protocol::socket::args::serialize_attachments
-- ext io serde serde_json tungstenite
-- heavyext serializer cell
-- light serialize_json
-- needs socket_io_protocol::engine
-- effects .serialize_bool/1 .serialize_i8/1 .serialize_i16/1 .serialize_i32/1 .serialize_i64/1 .serialize_i128/1 .serialize_u8/1 .serialize_u16/1 .serialize_u32/1 .serialize_u64/1 .serialize_u128/1
-- effects .serialize_f32/1 .serialize_f64/1 .serialize_char/1 .serialize_str/1 .serialize_bytes/1 .serialize_none/0 .serialize_unit/0 .serialize_unit_struct/1 .serialize_unit_variant/3
-- effects .serialize_some/1 .serialize_newtype_struct/2 .serialize_newtype_variant/4 .serialize_seq/1 .serialize_tuple/1 .serialize_tuple_struct/2 .serialize_tuple_variant/4
-- effects .serialize_map/1 .serialize_struct/2 .serialize_struct_variant/4 .serialize_element/1 .serialize_field/1 .serialize_field/2 .skip_field/1 .serialize_key/1 .serialize_value/1
-- effects .serialize_entry/2 .end/0 .serialize/1 .is_human_readable/0
-- raw
use crate::ext::serde::*;
-- raw [heavy]
use crate::ext::serializer::*;
broadcast use {crate::ext::serde::lemma_extends, crate::ext::serde::lemma_grown_none};
/// the elements collected so far
pub open spec fn elems(data: Seq<u8>) -> Seq<Node> {
    Seq::new(if data.len() > 0 { (data.len() - 1) as nat } else { 0 }, |i: int| Node::Leaf(Leaf::U8(data[i + 1])))
}
/// nothing yet, or a message header and at least one byte
pub open spec fn collected(data: Seq<u8>) -> bool { data.len() == 0 || (data.len() >= 2 && data[0] == 4) }
/// something in it is no byte
pub open spec fn mixed(xs: Seq<Node>) -> bool { exists|i: int| 0 <= i < xs.len() && !is_u8(#[trigger] xs[i]) }
pub proof fn lemma_mixed(xs: Seq<Node>, x: Node)
    ensures mixed(xs) ==> mixed(xs.push(x)), !is_u8(x) ==> mixed(xs.push(x)), mixed(xs) ==> !all_u8(xs)
{
    if mixed(xs) { let i = choose|i: int| 0 <= i < xs.len() && !is_u8(#[trigger] xs[i]); assert(xs.push(x)[i] == xs[i]); }
    assert(xs.push(x)[xs.len() as int] == x);
}
pub proof fn lemma_collected(data: Seq<u8>)
    requires collected(data), data.len() > 0
    ensures all_u8(elems(data)), seq![4u8] + u8s(elems(data)) == data
{
    assert forall|i: int| 0 <= i < elems(data).len() implies is_u8(#[trigger] elems(data)[i]) by {}
    assert(seq![4u8] + u8s(elems(data)) =~= data);
}
pub proof fn lemma_grown_one(a: Seq<WsMessage>, b: Seq<WsMessage>, d: Seq<u8>)
    requires b.len() == a.len() + 1, span(b, 0, a.len() as int) =~= a, b[a.len() as int] is Binary, frame_bytes(b[a.len() as int]) == seq![4u8] + d
    ensures grown(a, b, seq![d]), extends(a, b)
{
    assert forall|i: int| 0 <= i < seq![d].len() implies (#[trigger] b[a.len() + i]) is Binary && frame_bytes(b[a.len() + i]) == seq![4u8] + seq![d][i] by { assert(i == 0); }
}
pub proof fn lemma_ph(k: nat)
    ensures okay(ph(k)), !is_u8(ph(k))
{ reveal_with_fuel(okay, 4); }
pub proof fn lemma_placed_u8(n: Node, k: nat)
    ensures is_u8(placed(n, k)) == is_u8(n), is_u8(n) ==> placed(n, k) == n && moved(n) == Seq::<Seq<u8>>::empty()
{}
impl<'a, S: Serialize> Serialize for Wrapper<'a, S> {
    open spec fn pure(&self) -> bool { false }
    open spec fn fits(&self, cell: int) -> bool { self.s.pure() && self.buffers.id() == cell }
    open spec fn tree(&self) -> Node { self.s.tree() }
}

-- fn serialize
localworld
attr: #[verifier::rlimit(60)]
rewrite RefCell :: new ( $x ) ==> vp_cell ( $x , Tracked ( & mut vp_t ) )
rewrite Tracked ( & mut * vp_w ) ==> Tracked ( & mut vp_t )
requires:
- arg.pure() && serializer.plain() && serializer.human()
ensures:
- r is Ok ==> serializer.out(placed(arg.tree(), old(buffers)@.len()), r->Ok_0)
- r is Ok ==> grown(old(buffers)@, final(buffers)@, moved(arg.tree()))
- r is Err ==> serializer.torn()
- extends(old(buffers)@, final(buffers)@)
- serializer.sound() && okay(arg.tree()) ==> r is Ok
proof start:
let tracked mut vp_t = vp_unlinked();
proof tail:
proof { vp_cell_done(vp_t); }

-- fn serialize_json
requires:
- arg.pure()
ensures:
- write.linked() && r is Ok ==> write.fin() == write.put(utf8(arg.bin_json(old(buffers)@.len())))
- write.linked() && r is Err ==> exists|d: Seq<u8>| write.fin() == #[trigger] write.put(d)
- write.infallible() && arg.total() ==> r is Ok
- r is Ok ==> grown(old(buffers)@, final(buffers)@, arg.bin_bufs())
- extends(old(buffers)@, final(buffers)@)

-- fn Placeholder::new
ensures:
- r.placeholder && r.num == idx as u64
- r.tree() == ph(idx as nat)
proof tail:
proof { assert(r.tree() =~= ph(idx as nat)); }

-- fn Wrapper::transform
ensures:
- r.s == p && r.buffers == self.buffers

-- fn Serialize for Wrapper<'a,S>::serialize
inherent
requires:
- serializer.human() && serializer.plain() && self.fits(old(vp_w).cell)
- !old(vp_w).held
ensures:
- final(vp_w).held == old(vp_w).held && same_cell(*old(vp_w), *final(vp_w)) && extends(old(vp_w).bufs, final(vp_w).bufs)
- r is Ok ==> grown(old(vp_w).bufs, final(vp_w).bufs, adds(self, serializer.plain()))
- r is Ok ==> serializer.out(seen(self, serializer.plain(), old(vp_w).bufs), r->Ok_0)
- r is Err ==> serializer.torn()
- serializer.sound() && okay(self.tree()) ==> r is Ok

-- impl Serializer for Wrapper<'a,S>
    open spec fn plain(&self) -> bool { false }
    open spec fn fits(&self, cell: int) -> bool { self.s.plain() && self.s.human() && self.buffers.id() == cell }
    #[verifier::prophetic]
    open spec fn out(&self, n: Node, ok: Self::Ok) -> bool { self.s.out(n, ok) }
    #[verifier::prophetic]
    open spec fn torn(&self) -> bool { self.s.torn() }
    open spec fn sound(&self) -> bool { self.s.sound() }
    open spec fn only_u8(&self) -> bool { false }
    open spec fn human(&self) -> bool { self.s.human() }
-- impl SerializeTuple for Wrapper<'a,S>
    open spec fn plain(&self) -> bool { false }
    open spec fn fits(&self, cell: int) -> bool { self.s.plain() && self.buffers.id() == cell }
    #[verifier::prophetic]
    open spec fn out(&self, n: Node, ok: Self::Ok) -> bool { self.s.out(n, ok) }
    #[verifier::prophetic]
    open spec fn torn(&self) -> bool { self.s.torn() }
    open spec fn sound(&self) -> bool { self.s.sound() }
    open spec fn tag(&self) -> Tag { self.s.tag() }
    open spec fn hint(&self) -> Option<usize> { self.s.hint() }
    open spec fn sofar(&self) -> Seq<Node> { self.s.sofar() }
-- impl SerializeTupleStruct for Wrapper<'a,S>
    open spec fn plain(&self) -> bool { false }
    open spec fn fits(&self, cell: int) -> bool { self.s.plain() && self.buffers.id() == cell }
    #[verifier::prophetic]
    open spec fn out(&self, n: Node, ok: Self::Ok) -> bool { self.s.out(n, ok) }
    #[verifier::prophetic]
    open spec fn torn(&self) -> bool { self.s.torn() }
    open spec fn sound(&self) -> bool { self.s.sound() }
    open spec fn tag(&self) -> Tag { self.s.tag() }
    open spec fn hint(&self) -> Option<usize> { self.s.hint() }
    open spec fn sofar(&self) -> Seq<Node> { self.s.sofar() }
-- impl SerializeTupleVariant for Wrapper<'a,S>
    open spec fn plain(&self) -> bool { false }
    open spec fn fits(&self, cell: int) -> bool { self.s.plain() && self.buffers.id() == cell }
    #[verifier::prophetic]
    open spec fn out(&self, n: Node, ok: Self::Ok) -> bool { self.s.out(n, ok) }
    #[verifier::prophetic]
    open spec fn torn(&self) -> bool { self.s.torn() }
    open spec fn sound(&self) -> bool { self.s.sound() }
    open spec fn tag(&self) -> Tag { self.s.tag() }
    open spec fn hint(&self) -> Option<usize> { self.s.hint() }
    open spec fn sofar(&self) -> Seq<Node> { self.s.sofar() }
-- impl SerializeMap for Wrapper<'a,S>
    open spec fn plain(&self) -> bool { false }
    open spec fn fits(&self, cell: int) -> bool { self.s.plain() && self.buffers.id() == cell }
    #[verifier::prophetic]
    open spec fn out(&self, n: Node, ok: Self::Ok) -> bool { self.s.out(n, ok) }
    #[verifier::prophetic]
    open spec fn torn(&self) -> bool { self.s.torn() }
    open spec fn sound(&self) -> bool { self.s.sound() }
    open spec fn tag(&self) -> Tag { self.s.tag() }
    open spec fn hint(&self) -> Option<usize> { self.s.hint() }
    open spec fn sofar(&self) -> Seq<Node> { self.s.sofar() }
-- impl SerializeStruct for Wrapper<'a,S>
    open spec fn plain(&self) -> bool { false }
    open spec fn fits(&self, cell: int) -> bool { self.s.plain() && self.buffers.id() == cell }
    #[verifier::prophetic]
    open spec fn out(&self, n: Node, ok: Self::Ok) -> bool { self.s.out(n, ok) }
    #[verifier::prophetic]
    open spec fn torn(&self) -> bool { self.s.torn() }
    open spec fn sound(&self) -> bool { self.s.sound() }
    open spec fn tag(&self) -> Tag { self.s.tag() }
    open spec fn hint(&self) -> Option<usize> { self.s.hint() }
    open spec fn sofar(&self) -> Seq<Node> { self.s.sofar() }
-- impl SerializeStructVariant for Wrapper<'a,S>
    open spec fn plain(&self) -> bool { false }
    open spec fn fits(&self, cell: int) -> bool { self.s.plain() && self.buffers.id() == cell }
    #[verifier::prophetic]
    open spec fn out(&self, n: Node, ok: Self::Ok) -> bool { self.s.out(n, ok) }
    #[verifier::prophetic]
    open spec fn torn(&self) -> bool { self.s.torn() }
    open spec fn sound(&self) -> bool { self.s.sound() }
    open spec fn tag(&self) -> Tag { self.s.tag() }
    open spec fn hint(&self) -> Option<usize> { self.s.hint() }
    open spec fn sofar(&self) -> Seq<Node> { self.s.sofar() }
-- impl SerializeSeq for SeqWrapper<'a,S>
    open spec fn plain(&self) -> bool { false }
    open spec fn fits(&self, cell: int) -> bool { self.buffers.id() == cell && match self.state { BytesState::Bytes { s, data, len } => s is Some && s->0.plain() && s->0.human() && collected(data@), BytesState::Poisoned { s } => s.plain() && mixed(s.sofar()) && s.tag() == Tag::Seq } }
    #[verifier::prophetic]
    open spec fn out(&self, n: Node, ok: Self::Ok) -> bool { match self.state { BytesState::Bytes { s, data, len } => s->0.out(n, ok), BytesState::Poisoned { s } => s.out(n, ok) } }
    #[verifier::prophetic]
    open spec fn torn(&self) -> bool { match self.state { BytesState::Bytes { s, data, len } => s->0.torn(), BytesState::Poisoned { s } => s.torn() } }
    open spec fn sound(&self) -> bool { match self.state { BytesState::Bytes { s, data, len } => s->0.sound(), BytesState::Poisoned { s } => s.sound() } }
    open spec fn tag(&self) -> Tag { Tag::Seq }
    open spec fn hint(&self) -> Option<usize> { match self.state { BytesState::Bytes { s, data, len } => len, BytesState::Poisoned { s } => s.hint() } }
    open spec fn sofar(&self) -> Seq<Node> { match self.state { BytesState::Bytes { s, data, len } => elems(data@), BytesState::Poisoned { s } => s.sofar() } }
-- impl Serializer for SeqElementSerializer
    open spec fn plain(&self) -> bool { true }
    open spec fn fits(&self, cell: int) -> bool { false }
    #[verifier::prophetic]
    open spec fn out(&self, n: Node, ok: u8) -> bool { n == Node::Leaf(Leaf::U8(ok)) }
    #[verifier::prophetic]
    open spec fn torn(&self) -> bool { true }
    open spec fn sound(&self) -> bool { false }
    open spec fn only_u8(&self) -> bool { true }
    open spec fn human(&self) -> bool { true }
//?is_human_readable fn is_human_readable(&self, Tracked(vp_w): Tracked<&mut World>) -> (r: bool) { true }

-- fns Serializer for Wrapper<'a,S>::*
world
-- fn Serializer for Wrapper<'a,S>::serialize_bytes
world
proof pretail:
proof { lemma_grown_one(old(vp_w).bufs, vp_w.bufs, bytes@); lemma_ph(old(vp_w).bufs.len()); }

-- fns SerializeTuple for Wrapper<'a,S>::*
world
-- fns SerializeTupleStruct for Wrapper<'a,S>::*
world
-- fns SerializeTupleVariant for Wrapper<'a,S>::*
world
-- fns SerializeMap for Wrapper<'a,S>::*
world
-- fns SerializeStruct for Wrapper<'a,S>::*
world
-- fns SerializeStructVariant for Wrapper<'a,S>::*
world
-- fns Serializer for SeqElementSerializer::*
world
-- fn SerializeMap for Wrapper<'a,S>::serialize_entry
world
proof tail:
proof {
    if r is Ok {
        let wk = Wrapper { s: k, buffers: self.buffers };
        let wv = Wrapper { s: v, buffers: self.buffers };
        assert(adds(&wk, true) == moved(k.tree()));
        assert(adds(&wv, true) == moved(v.tree()));
        let mid = choose|mid: Seq<WsMessage>| #[trigger] grown(old(vp_w).bufs, mid, adds(&wk, true)) && grown(mid, vp_w.bufs, adds(&wv, true))
            && self.s.sofar() == old(self).s.sofar().push(seen(&wk, true, old(vp_w).bufs)).push(seen(&wv, true, mid));
        assert(seen(&wk, true, old(vp_w).bufs) == seen(k, false, old(vp_w).bufs));
        assert(seen(&wv, true, mid) == seen(v, false, mid));
        assert(grown(old(vp_w).bufs, mid, adds(k, false)));
    }
}
-- fn SerializeSeq for SeqWrapper<'a,S>::serialize_element
world
attr: #[verifier::loop_isolation(false)]
proof start:
proof { lemma_placed_u8(v.tree(), old(vp_w).bufs.len()); lemma_mixed(old(self).sofar(), seen(v, false, old(vp_w).bufs)); }
loop 0:
- seq.plain() && !vp_w.held && same_cell(*old(vp_w), *vp_w) && vp_w.bufs == old(vp_w).bufs
- forall|n: Node, ok: Self::Ok| #[trigger] seq.out(n, ok) == old(self).out(n, ok)
- seq.torn() == old(self).torn() && seq.sound() == old(self).sound() && seq.tag() == Tag::Seq && seq.hint() == old(self).hint()
- vp_it0.seq().len() == elems(data@).len()
- forall|i: int| 0 <= i < vp_it0.seq().len() ==> *(#[trigger] vp_it0.seq()[i]) == data@[i + 1]
- seq.sofar() =~= span(elems(data@), 0, vp_it0.index@)
proof loopend0:
proof { assert(seq.sofar() =~= span(elems(data@), 0, vp_it0.index@ + 1)); }
proof tail:
proof {
    if r is Ok {
        assert(self.sofar() =~= old(self).sofar().push(seen(v, false, old(vp_w).bufs)));
    }
}
-- fn SerializeSeq for SeqWrapper<'a,S>::end
world
proof start:
proof {
    lemma_ph(old(vp_w).bufs.len());
    lemma_mixed(self.sofar(), ph(0));
    assert(elems(Seq::<u8>::empty()) =~= Seq::<Node>::empty());
    if self.state is Bytes && self.state->data@.len() == 0 { assert(self.sofar() =~= Seq::<Node>::empty()); }
    if self.state is Bytes && self.state->data@.len() > 0 { lemma_collected(self.state->data@); }
}
proof tail:
proof {
    if self.state is Bytes && self.state->data@.len() > 0 { lemma_grown_one(old(vp_w).bufs, vp_w.bufs, u8s(self.sofar())); }
}


module socket_io_protocol::socket::args::deserialize_attachments
-- ext serde serde_json cow fmt
-- heavyext deserializer
-- needs owned_subslice
-- light deserialize
-- droptype Error
-- raw
use crate::ext::serde::*;
use crate::owned_subslice::*;
/// the bytes of the attachments
pub open spec fn data_of(b: Seq<OwnedSubslice<Vec<u8>>>) -> spec_fn(int) -> Seq<u8> { |i: int| win_v(b[i]) }
-- raw [heavy]
use crate::ext::deserializer::*;
use core::marker::PhantomData;
broadcast use {crate::ext::deserializer::lemma_fill_rest, crate::ext::deserializer::lemma_gives, crate::ext::deserializer::lemma_pleased};
pub open spec fn fill<'de>(i: In, b: Buffers<'de>) -> In { filled_in(i, b@.len(), data_of(b@)) }
mod about {
    use super::*;
    /// a plain deserializer asked for `k` by a BinaryVisitor serves as a filling deserializer asked for `h`
    pub open spec fn asks(k: Hint, h: Hint, bytes: bool) -> bool { (k == h || k is Any && any_class(h)) && bytes == byte_class(h) }
    pub broadcast proof fn lemma_given<'de, V: Visitor<'de>>(k: Hint, i: In, w: BinaryVisitor<'de, V>, h: Hint, j: In, v: V, r: V::Value)
        requires #[trigger] given(k, i, w, r), w.visitor == v, j == fill(i, w.buffers), asks(k, h, w.access_type is Bytes)
        ensures #[trigger] given(h, j, v, r)
    {
        if !(i is Odd) {
            let e = choose|e: Ev| #[trigger] shows(k, i, e) && w.takes(e, r);
            lemma_shown(h, k, i, e, w.buffers@.len(), data_of(w.buffers@));
            let f = fill_ev(w.access_type is Bytes, e, w.buffers@.len(), data_of(w.buffers@));
            assert(shows(h, j, f) || j is Odd);
        }
    }
    pub broadcast proof fn lemma_happy<'de, V: Visitor<'de>>(k: Hint, i: In, w: BinaryVisitor<'de, V>, h: Hint, j: In, v: V)
        requires #[trigger] happy(h, j, v), w.visitor == v, j == fill(i, w.buffers), asks(k, h, w.access_type is Bytes)
        ensures #[trigger] happy(k, i, w)
    {
        assert forall|e: Ev| #[trigger] shows(k, i, e) implies w.welcomes(e) by {
            lemma_shown(h, k, i, e, w.buffers@.len(), data_of(w.buffers@));
        }
    }
}

-- fn DeError for Error::custom
mode skip

-- fn deserialize
param buffers: &'a [OwnedSubslice<Vec<u8>>]
ensures:
- r is Ok ==> att_is::<T>(arg, buffers@.len(), data_of(buffers@), r->Ok_0)
- att_ok::<T>(arg@, buffers@.len(), data_of(buffers@)) ==> r is Ok

-- impl Deserializer<'de> for KeyDeserializer<'de,E>
    open spec fn input(&self) -> In { In::Key(self.key@) }
    open spec fn sound(&self) -> bool { true }
    open spec fn human(&self) -> bool { true }
//?is_human_readable fn is_human_readable(&self) -> (r: bool) { true }
//?deserialize_option #[verifier::external_body] fn deserialize_option<V: Visitor<'de>>(self, visitor: V) -> (r: Result<V::Value, E>) { unimplemented!() }
//?deserialize_newtype_struct #[verifier::external_body] fn deserialize_newtype_struct<V: Visitor<'de>>(self, name: &'static str, visitor: V) -> (r: Result<V::Value, E>) { unimplemented!() }
-- fns Deserializer<'de> for KeyDeserializer<'de,E>::*
rewrite . len ( ) ==> . vp_len ( )
-- fn Deserializer<'de> for KeyDeserializer<'de,E>::deserialize_option
inherent
ensures:
- r is Ok ==> given(Hint::Option, self.input(), visitor, r->Ok_0)
- self.sound() && happy(Hint::Option, self.input(), visitor) ==> r is Ok
-- fn Deserializer<'de> for KeyDeserializer<'de,E>::deserialize_newtype_struct
inherent
ensures:
- r is Ok ==> given(Hint::Newtype, self.input(), visitor, r->Ok_0)
- self.sound() && happy(Hint::Newtype, self.input(), visitor) ==> r is Ok

-- impl Deserializer<'de> for BinaryDeserializer<'de,D>
    open spec fn input(&self) -> In { fill(self.d.input(), self.buffers) }
    open spec fn sound(&self) -> bool { self.d.sound() }
    open spec fn human(&self) -> bool { self.d.human() }
-- fns Deserializer<'de> for BinaryDeserializer<'de,D>::*
proof start:
broadcast use {about::lemma_given, about::lemma_happy};

-- impl Visitor<'de> for BinaryVisitor<'de,V>
    #[verifier::prophetic]
    open spec fn takes(&self, e: Ev, v: V::Value) -> bool {
        match fill_ev(self.access_type is Bytes, e, self.buffers@.len(), data_of(self.buffers@)) { Ev::Bad => false, Ev::Odd => true, x => self.visitor.takes(x, v) }
    }
    #[verifier::prophetic]
    open spec fn welcomes(&self, e: Ev) -> bool {
        let x = fill_ev(self.access_type is Bytes, e, self.buffers@.len(), data_of(self.buffers@));
        !(x is Bad) && !(x is Odd) && !(e is Map && !(x is Map)) && self.visitor.welcomes(x)
    }
//?visit_u8 fn visit_u8<E: DeError>(self, v: u8) -> (r: Result<V::Value, E>) { self.visit_u64(v as u64) }
-- fns Visitor<'de> for BinaryVisitor<'de,V>::*
-- fn Visitor<'de> for BinaryVisitor<'de,V>::visit_some
inherent
ensures:
- r is Ok ==> self.takes(Ev::Some(d.input()), r->Ok_0)
- d.sound() && self.welcomes(Ev::Some(d.input())) ==> r is Ok
-- fn Visitor<'de> for BinaryVisitor<'de,V>::visit_newtype_struct
inherent
ensures:
- r is Ok ==> self.takes(Ev::Newtype(d.input()), r->Ok_0)
- d.sound() && self.welcomes(Ev::Newtype(d.input())) ==> r is Ok
-- fn Visitor<'de> for BinaryVisitor<'de,V>::visit_seq
inherent
ensures:
- r is Ok ==> self.takes(Ev::Seq(seq.rest(), seq.left()), r->Ok_0)
- seq.sound() && self.welcomes(Ev::Seq(seq.rest(), 0)) ==> r is Ok && seq.left() == 0
-- fn Visitor<'de> for BinaryVisitor<'de,V>::visit_map
inherent
rewrite . copied ( ) ==> . vp_copied ( )
requires:
- map.keys().len() == map.vals().len()
ensures:
- r is Ok ==> self.takes(Ev::Map(map.keys(), map.vals(), map.left()), r->Ok_0)
- map.sound() && self.welcomes(Ev::Map(map.keys(), map.vals(), 0)) ==> r is Ok && map.left() == 0
proof start:
proof {
    let ks = map.keys();
    if ks.len() > 0 { assert(seq![ks[0]] + ks.skip(1) =~= ks); }
    else { assert(ks =~= seq![]); assert(fill_each(map.vals(), self.buffers@.len(), data_of(self.buffers@)) =~= seq![]); }
}
-- fn Visitor<'de> for BinaryVisitor<'de,V>::visit_enum
inherent
ensures:
- r is Ok ==> self.takes(Ev::Enum(data.ident(), data.payload()), r->Ok_0)
- data.sound() && self.welcomes(Ev::Enum(data.ident(), data.payload())) ==> r is Ok

-- impl SeqAccess<'de> for BinarySeqAccess<'de,S>
    open spec fn rest(&self) -> Seq<In> { fill_each(self.seq.rest(), self.buffers@.len(), data_of(self.buffers@)) }
    #[verifier::prophetic]
    open spec fn left(&self) -> nat { self.seq.left() }
    open spec fn sound(&self) -> bool { self.seq.sound() }
-- fns SeqAccess<'de> for BinarySeqAccess<'de,S>::*

-- impl EnumAccess<'de> for BinaryEnumAccess<'de,E>
    open spec fn ident(&self) -> In { self.data.ident() }
    open spec fn payload(&self) -> Option<In> { match self.data.payload() { Some(x) => Some(fill(x, self.buffers)), None => None } }
    open spec fn sound(&self) -> bool { self.data.sound() }
-- fns EnumAccess<'de> for BinaryEnumAccess<'de,E>::*

-- impl VariantAccess<'de> for BinaryVariantAccess<'de,V>
    open spec fn content(&self) -> Option<In> { match self.variant.content() { Some(x) => Some(fill(x, self.buffers)), None => None } }
    open spec fn sound(&self) -> bool { self.variant.sound() }
-- fns VariantAccess<'de> for BinaryVariantAccess<'de,V>::*
proof start:
broadcast use {about::lemma_given, about::lemma_happy};

-- impl MapAccess<'de> for BinaryMapAccess<'de,M>
    open spec fn keys(&self) -> Seq<Seq<char>> {
        match self.first_key {
            Some(Some(k)) => if self.map.vals().len() == self.map.keys().len() + 1 { seq![k@] + self.map.keys() } else { seq![] },
            Some(None) => seq![],
            None => self.map.keys(),
        }
    }
    open spec fn vals(&self) -> Seq<In> {
        let vs = fill_each(self.map.vals(), self.buffers@.len(), data_of(self.buffers@));
        match self.first_key {
            Some(Some(k)) => if self.map.vals().len() == self.map.keys().len() + 1 { vs } else { seq![In::Odd, In::Odd] },
            Some(None) => seq![],
            None => vs,
        }
    }
    #[verifier::prophetic]
    open spec fn left(&self) -> nat { self.map.left() }
    open spec fn sound(&self) -> bool { self.map.sound() }
-- fns MapAccess<'de> for BinaryMapAccess<'de,M>::*

-- impl DeserializeSeed<'b> for BinarySeed<'b,T>
    open spec fn reads(&self, i: In, v: T::Value) -> bool { self.seed.reads(fill(i, self.buffers), v) }
    open spec fn certain(&self, i: In) -> bool { self.seed.certain(fill(i, self.buffers)) }
-- fns DeserializeSeed<'b> for BinarySeed<'b,T>::*
