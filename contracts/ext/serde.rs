// needs: tungstenite
use crate::ext::tungstenite::Message;
pub trait Deserialize<'de>: Sized {
    /// whether the JSON text `t` denotes a value of this type
    spec fn de_ok(t: Seq<char>) -> bool;
    /// whether `r` is the value that the text denotes (it may borrow from it)
    spec fn de_is(s: &str, r: Self) -> bool;
    /// whether the type may read `r` from this input
    spec fn reads(i: In, r: Self) -> bool;
    /// it certainly reads something from this input
    open spec fn certain(i: In) -> bool { false }
}

/// What a deserializer holds. First what JSON texts denote: Big is an integer of more than 64 bits (with the number of type f64
/// nearest to it), Ill something serde_json turns down unless it is skipped (ill-formed strings, numbers out of range, too deep a
/// nesting); then what the code makes of it: a byte string, a byte, the key of a map, an unusable placeholder, something unknown.
pub enum In {
    Null, Bool(bool), Int(int), Big(int, f64), F64(f64), Str(Seq<char>), Arr(Seq<In>), Obj(Seq<Seq<char>>, Seq<In>), Ill,
    Hole(Seq<u8>), Byte(u8), Key(Seq<char>), Bad, Odd,
}
/// the text is exactly one JSON value
pub uninterp spec fn whole(t: Seq<char>) -> bool;
/// the value it denotes then
pub uninterp spec fn json_tree(t: Seq<char>) -> In;
/// a value that a JSON text can denote
pub open spec fn plain(i: In) -> bool {
    match i { In::Hole(_) | In::Byte(_) | In::Key(_) | In::Bad | In::Odd => false, _ => true }
}
pub broadcast axiom fn axiom_json_tree(t: Seq<char>)
    ensures #[trigger] whole(t) ==> plain(json_tree(t));
/// an object that starts with a _placeholder key: what it stands for (Bad: no number, or one of no attachment; Odd: left open)
pub open spec fn hole_of(ks: Seq<Seq<char>>, vs: Seq<In>, n: nat, ds: spec_fn(int) -> Seq<u8>) -> Option<In> {
    if ks.len() == 0 || ks[0] != "_placeholder"@ { None }
    else if ks.len() < 2 || vs.len() < 2 { Some(In::Odd) }
    else { match vs[0] {
        In::Byte(_) | In::Key(_) | In::Odd => Some(In::Odd),
        In::Bool(_) => if ks[1] != "num"@ { Some(In::Bad) } else { match vs[1] {
            In::Int(k) => if 0 <= k < n { Some(In::Hole(ds(k))) } else { Some(In::Bad) },
            In::Byte(_) | In::Key(_) | In::Odd => Some(In::Odd),
            _ => Some(In::Bad),
        } },
        _ => Some(In::Bad),
    } }
}
/// the tree with `n` attachments in place of the placeholders
pub open spec fn filled_in(i: In, n: nat, ds: spec_fn(int) -> Seq<u8>) -> In
    decreases i
{
    match i {
        In::Arr(xs) => In::Arr(Seq::new(xs.len(), |j: int| if 0 <= j < xs.len() { filled_in(xs[j], n, ds) } else { In::Odd })),
        In::Obj(ks, vs) => match hole_of(ks, vs, n, ds) {
            Some(x) => x,
            None => In::Obj(ks, Seq::new(vs.len(), |j: int| if 0 <= j < vs.len() { filled_in(vs[j], n, ds) } else { In::Odd })),
        },
        In::Hole(_) | In::Byte(_) | In::Key(_) | In::Bad | In::Odd => In::Odd,
        _ => i,
    }
}
/// `r` is what the type reads from the text with these byte strings in place of the placeholders
pub open spec fn att_is<'a, T: Deserialize<'a>>(s: &str, n: nat, ds: spec_fn(int) -> Seq<u8>, r: T) -> bool {
    whole(s@) ==> T::reads(filled_in(json_tree(s@), n, ds), r)
}
/// the type certainly reads something from it
pub open spec fn att_ok<'a, T: Deserialize<'a>>(t: Seq<char>, n: nat, ds: spec_fn(int) -> Seq<u8>) -> bool {
    whole(t) && T::certain(filled_in(json_tree(t), n, ds))
}

// ------------------------------------------------------------------ the serde data model
pub enum Leaf {
    Bool(bool), I8(i8), I16(i16), I32(i32), I64(i64), I128(i128), U8(u8), U16(u16), U32(u32), U64(u64), U128(u128), F32(f32), F64(f64),
    Char(char), Str(Seq<char>), None, Unit, UnitStruct(Seq<char>), UnitVariant(Seq<char>, u32, Seq<char>), Skip(Seq<char>),
}
pub enum Tag {
    Some, Newtype(Seq<char>), NewtypeVariant(Seq<char>, u32, Seq<char>), Field(Seq<char>),
    Seq, Tuple, TupleStruct(Seq<char>), TupleVariant(Seq<char>, u32, Seq<char>), Map, Struct, StructVariant(Seq<char>, u32, Seq<char>),
}
/// what a value presents to a serializer. A map's children are keys and values in turn, a struct's are Wrap(Field(name), value)
/// and skipped fields; the names of structs themselves are left out (no JSON shows them).
pub enum Node { Leaf(Leaf), Bytes(Seq<u8>), Wrap(Tag, Box<Node>), List(Tag, Seq<Node>) }
pub open spec fn is_u8(n: Node) -> bool { n matches Node::Leaf(Leaf::U8(_)) }
pub open spec fn u8_of(n: Node) -> u8 { match n { Node::Leaf(Leaf::U8(b)) => b, _ => 0 } }
pub open spec fn all_u8(xs: Seq<Node>) -> bool { xs.len() > 0 && forall|i: int| 0 <= i < xs.len() ==> is_u8(#[trigger] xs[i]) }
pub open spec fn u8s(xs: Seq<Node>) -> Seq<u8> { Seq::new(xs.len(), |i: int| u8_of(xs[i])) }
/// {"_placeholder":true,"num":k}
pub open spec fn ph(k: nat) -> Node {
    Node::List(Tag::Struct, seq![
        Node::Wrap(Tag::Field("_placeholder"@), Box::new(Node::Leaf(Leaf::Bool(true)))),
        Node::Wrap(Tag::Field("num"@), Box::new(Node::Leaf(Leaf::U64(k as u64)))),
    ])
}
/// the byte strings of a tree, in order: byte strings proper and non-empty sequences of unsigned 8-bit numbers
pub open spec fn moved(n: Node) -> Seq<Seq<u8>>
    decreases n, 0nat
{
    match n {
        Node::Leaf(_) => seq![],
        Node::Bytes(b) => seq![b],
        Node::Wrap(_, m) => moved(*m),
        Node::List(t, xs) => if t == Tag::Seq && all_u8(xs) { seq![u8s(xs)] } else { moved_upto(xs, xs.len()) },
    }
}
pub open spec fn moved_upto(xs: Seq<Node>, i: nat) -> Seq<Seq<u8>>
    decreases xs, i
{
    if i == 0 || i > xs.len() { seq![] } else { moved_upto(xs, (i - 1) as nat) + moved(xs[i - 1]) }
}
/// the tree with its byte strings replaced by placeholders numbered from `k`; everything else as it was
pub open spec fn placed(n: Node, k: nat) -> Node
    decreases n
{
    match n {
        Node::Leaf(_) => n,
        Node::Bytes(_) => ph(k),
        Node::Wrap(t, m) => Node::Wrap(t, Box::new(placed(*m, k))),
        Node::List(t, xs) => if t == Tag::Seq && all_u8(xs) { ph(k) }
            else { Node::List(t, Seq::new(xs.len(), |i: int| if 0 <= i < xs.len() { placed(xs[i], k + moved_upto(xs, i as nat).len()) } else { n })) },
    }
}
/// the JSON text serde_json writes for a tree
pub uninterp spec fn json_of(n: Node) -> Seq<char>;
/// a tree that JSON can express: the keys of its maps are texts or numbers
pub open spec fn okay(n: Node) -> bool
    decreases n
{
    match n {
        Node::Wrap(_, m) => okay(*m),
        Node::List(t, xs) => forall|i: int| 0 <= i < xs.len() ==> okay(#[trigger] xs[i]) && (t == Tag::Map && i % 2 == 0 ==> keyish(xs[i])),
        _ => true,
    }
}
pub open spec fn keyish(n: Node) -> bool { n matches Node::Leaf(Leaf::Str(_)) }
pub open spec fn entries(t: Tag, xs: Seq<Node>) -> int
    decreases xs.len()
{
    if t == Tag::Map { xs.len() as int / 2 }
    else if t == Tag::Struct || t is StructVariant { if xs.len() == 0 { 0 } else { entries(t, xs.drop_last()) + if xs.last() is Leaf { 0int } else { 1int } } }
    else { xs.len() as int }
}
/// the announced number of entries is right
pub open spec fn hint_ok(h: Option<usize>, t: Tag, xs: Seq<Node>) -> bool { h is Some ==> h->0 == entries(t, xs) }

/// A value that serde can serialize
pub trait Serialize {
    /// what it presents is a function of the value, and presenting it changes nothing
    spec fn pure(&self) -> bool;
    /// it moves byte strings to the attachments of this cell while it presents a pure value
    spec fn fits(&self, cell: int) -> bool;
    /// the tree of the value
    spec fn tree(&self) -> Node;
}
pub trait SerializeSpec: Serialize {
    spec fn json(&self) -> Seq<char>;
    spec fn bin_json(&self, k: nat) -> Seq<char>;
    spec fn bin_bufs(&self) -> Seq<Seq<u8>>;
    spec fn total(&self) -> bool;
}
impl<X: Serialize + ?Sized> SerializeSpec for X {
    /// the text of its plain JSON encoding
    open spec fn json(&self) -> Seq<char> { json_of(self.tree()) }
    /// its JSON text in a binary packet in which `k` attachments precede it
    open spec fn bin_json(&self, k: nat) -> Seq<char> { json_of(placed(self.tree(), k)) }
    /// the attachments it adds there
    open spec fn bin_bufs(&self) -> Seq<Seq<u8>> { moved(self.tree()) }
    /// serializing it cannot fail
    open spec fn total(&self) -> bool { okay(self.tree()) }
}
pub open spec fn frame_bytes(m: Message) -> Seq<u8> { match m { Message::Binary(v) => v@, _ => seq![] } }
/// after = before followed by one binary frame (message header 4, then the bytes) per byte string
pub open spec fn grown(before: Seq<Message>, after: Seq<Message>, ds: Seq<Seq<u8>>) -> bool {
    &&& after.len() == before.len() + ds.len()
    &&& span(after, 0, before.len() as int) == before
    &&& forall|i: int| 0 <= i < ds.len() ==> (#[trigger] after[before.len() + i]) is Binary && frame_bytes(after[before.len() + i]) == seq![4u8] + ds[i]
}
pub open spec fn extends(before: Seq<Message>, after: Seq<Message>) -> bool {
    after.len() >= before.len() && span(after, 0, before.len() as int) == before
}
pub broadcast proof fn lemma_extends(a: Seq<Message>, b: Seq<Message>)
    ensures a == b ==> #[trigger] extends(a, b)
{ assert(span(a, 0, a.len() as int) =~= a); }
pub broadcast proof fn lemma_grown_none(a: Seq<Message>, b: Seq<Message>)
    ensures #[trigger] grown(a, b, seq![]) <==> a == b
{ if grown(a, b, seq![]) { assert(span(b, 0, a.len() as int) =~= b); } assert(span(a, 0, a.len() as int) =~= a); }
/// what a serializer of the given kind is shown when it is given `v`
pub open spec fn seen<T: Serialize + ?Sized>(v: &T, plain: bool, bufs: Seq<Message>) -> Node {
    if v.pure() && plain { v.tree() } else { placed(v.tree(), bufs.len()) }
}
pub open spec fn adds<T: Serialize + ?Sized>(v: &T, plain: bool) -> Seq<Seq<u8>> {
    if v.pure() && plain { seq![] } else { moved(v.tree()) }
}
/// the JSON string literal serde_json writes for a text
pub open spec fn json_str(s: Seq<char>) -> Seq<char> { json_of(Node::Leaf(Leaf::Str(s))) }
impl Serialize for str {
    open spec fn pure(&self) -> bool { true }
    open spec fn fits(&self, cell: int) -> bool { false }
    open spec fn tree(&self) -> Node { Node::Leaf(Leaf::Str(self@)) }
}
impl Serialize for u8 {
    open spec fn pure(&self) -> bool { true }
    open spec fn fits(&self, cell: int) -> bool { false }
    open spec fn tree(&self) -> Node { Node::Leaf(Leaf::U8(*self)) }
}
impl Serialize for u64 {
    open spec fn pure(&self) -> bool { true }
    open spec fn fits(&self, cell: int) -> bool { false }
    open spec fn tree(&self) -> Node { Node::Leaf(Leaf::U64(*self)) }
}
impl Serialize for bool {
    open spec fn pure(&self) -> bool { true }
    open spec fn fits(&self, cell: int) -> bool { false }
    open spec fn tree(&self) -> Node { Node::Leaf(Leaf::Bool(*self)) }
}
impl<T: Serialize + ?Sized> Serialize for &T {
    open spec fn pure(&self) -> bool { (**self).pure() }
    open spec fn fits(&self, cell: int) -> bool { (**self).fits(cell) }
    open spec fn tree(&self) -> Node { (**self).tree() }
}
