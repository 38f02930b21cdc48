// needs: serde cell
// The serde data model: what a Serialize implementation presents to a Serializer is a tree, and a Serializer consumes one tree.
// The contracts say which tree each of serde's methods presents. `plain` serializers only consume; the other kind moves byte
// strings out of line (`fits`), presenting a plain serializer with the tree in which they are replaced by placeholders.
use crate::ext::serde::*;
pub use crate::ext::cell::*;
use crate::ext::tungstenite::Message;

/// this token and this value/serializer belong together and nothing holds the attachments
pub open spec fn usable(plain: bool, fits: bool) -> bool { plain || fits }

pub trait SerializeSeq: Sized {
    type Ok;
    type Error;
    /// it only consumes what it is given
    spec fn plain(&self) -> bool;
    /// it moves byte strings to the attachments of this cell on their way to a plain one
    spec fn fits(&self, cell: int) -> bool;
    /// with this tree for its input, it may end with that result
    #[verifier::prophetic]
    spec fn out(&self, n: Node, ok: Self::Ok) -> bool;
    /// what holds when it fails or is given up
    #[verifier::prophetic]
    spec fn torn(&self) -> bool;
    /// it never fails on a tree that JSON can express
    spec fn sound(&self) -> bool;
    spec fn tag(&self) -> Tag;
    /// the number of entries announced
    spec fn hint(&self) -> Option<usize>;
    /// the children so far
    spec fn sofar(&self) -> Seq<Node>;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T, Tracked(w): Tracked<&mut World>) -> (r: Result<(), Self::Error>)
        requires
            usable(old(self).plain(), old(self).fits(old(w).cell)), !old(w).held,
            v.pure() || old(self).plain() && v.fits(old(w).cell),
        ensures
            !final(w).held && same_cell(*old(w), *final(w)) && extends(old(w).bufs, final(w).bufs),
            final(self).plain() == old(self).plain(),
            r is Ok ==> forall|n: Node, ok: Self::Ok| #[trigger] final(self).out(n, ok) == old(self).out(n, ok),
            r is Ok ==> final(self).fits(old(w).cell) == old(self).fits(old(w).cell),
            r is Ok ==> final(self).torn() == old(self).torn() && final(self).sound() == old(self).sound() && final(self).tag() == old(self).tag() && final(self).hint() == old(self).hint(),
            r is Err ==> old(self).torn(),
            r is Ok ==> final(self).sofar() == old(self).sofar().push(seen(v, old(self).plain(), old(w).bufs)),
            r is Ok ==> grown(old(w).bufs, final(w).bufs, adds(v, old(self).plain())),
            old(self).sound() && okay(v.tree()) ==> r is Ok,
    ;
    fn end(self, Tracked(w): Tracked<&mut World>) -> (r: Result<Self::Ok, Self::Error>)
        requires usable(self.plain(), self.fits(old(w).cell)), !old(w).held
        ensures
            !final(w).held && same_cell(*old(w), *final(w)) && extends(old(w).bufs, final(w).bufs),
            r is Ok && self.tag() == Tag::Seq && !self.plain() && all_u8(self.sofar()) ==> self.out(ph(old(w).bufs.len()), r->Ok_0) && grown(old(w).bufs, final(w).bufs, seq![u8s(self.sofar())]),
            r is Ok && !(self.tag() == Tag::Seq && !self.plain() && all_u8(self.sofar())) ==> final(w).bufs == old(w).bufs && (hint_ok(self.hint(), self.tag(), self.sofar()) ==> self.out(Node::List(self.tag(), self.sofar()), r->Ok_0)),
            r is Err ==> self.torn(),
            self.sound() ==> r is Ok,
    ;
}
pub trait SerializeTuple: Sized {
    type Ok;
    type Error;
    /// it only consumes what it is given
    spec fn plain(&self) -> bool;
    /// it moves byte strings to the attachments of this cell on their way to a plain one
    spec fn fits(&self, cell: int) -> bool;
    /// with this tree for its input, it may end with that result
    #[verifier::prophetic]
    spec fn out(&self, n: Node, ok: Self::Ok) -> bool;
    /// what holds when it fails or is given up
    #[verifier::prophetic]
    spec fn torn(&self) -> bool;
    /// it never fails on a tree that JSON can express
    spec fn sound(&self) -> bool;
    spec fn tag(&self) -> Tag;
    /// the number of entries announced
    spec fn hint(&self) -> Option<usize>;
    /// the children so far
    spec fn sofar(&self) -> Seq<Node>;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T, Tracked(w): Tracked<&mut World>) -> (r: Result<(), Self::Error>)
        requires
            usable(old(self).plain(), old(self).fits(old(w).cell)), !old(w).held,
            v.pure() || old(self).plain() && v.fits(old(w).cell),
        ensures
            !final(w).held && same_cell(*old(w), *final(w)) && extends(old(w).bufs, final(w).bufs),
            final(self).plain() == old(self).plain(),
            r is Ok ==> forall|n: Node, ok: Self::Ok| #[trigger] final(self).out(n, ok) == old(self).out(n, ok),
            r is Ok ==> final(self).fits(old(w).cell) == old(self).fits(old(w).cell),
            r is Ok ==> final(self).torn() == old(self).torn() && final(self).sound() == old(self).sound() && final(self).tag() == old(self).tag() && final(self).hint() == old(self).hint(),
            r is Err ==> old(self).torn(),
            r is Ok ==> final(self).sofar() == old(self).sofar().push(seen(v, old(self).plain(), old(w).bufs)),
            r is Ok ==> grown(old(w).bufs, final(w).bufs, adds(v, old(self).plain())),
            old(self).sound() && okay(v.tree()) ==> r is Ok,
    ;
    fn end(self, Tracked(w): Tracked<&mut World>) -> (r: Result<Self::Ok, Self::Error>)
        requires usable(self.plain(), self.fits(old(w).cell)), !old(w).held
        ensures
            !final(w).held && same_cell(*old(w), *final(w)) && extends(old(w).bufs, final(w).bufs),
            r is Ok ==> final(w).bufs == old(w).bufs && (hint_ok(self.hint(), self.tag(), self.sofar()) ==> self.out(Node::List(self.tag(), self.sofar()), r->Ok_0)),
            r is Err ==> self.torn(),
            self.sound() ==> r is Ok,
    ;
}
pub trait SerializeTupleStruct: Sized {
    type Ok;
    type Error;
    /// it only consumes what it is given
    spec fn plain(&self) -> bool;
    /// it moves byte strings to the attachments of this cell on their way to a plain one
    spec fn fits(&self, cell: int) -> bool;
    /// with this tree for its input, it may end with that result
    #[verifier::prophetic]
    spec fn out(&self, n: Node, ok: Self::Ok) -> bool;
    /// what holds when it fails or is given up
    #[verifier::prophetic]
    spec fn torn(&self) -> bool;
    /// it never fails on a tree that JSON can express
    spec fn sound(&self) -> bool;
    spec fn tag(&self) -> Tag;
    /// the number of entries announced
    spec fn hint(&self) -> Option<usize>;
    /// the children so far
    spec fn sofar(&self) -> Seq<Node>;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, v: &T, Tracked(w): Tracked<&mut World>) -> (r: Result<(), Self::Error>)
        requires
            usable(old(self).plain(), old(self).fits(old(w).cell)), !old(w).held,
            v.pure() || old(self).plain() && v.fits(old(w).cell),
        ensures
            !final(w).held && same_cell(*old(w), *final(w)) && extends(old(w).bufs, final(w).bufs),
            final(self).plain() == old(self).plain(),
            r is Ok ==> forall|n: Node, ok: Self::Ok| #[trigger] final(self).out(n, ok) == old(self).out(n, ok),
            r is Ok ==> final(self).fits(old(w).cell) == old(self).fits(old(w).cell),
            r is Ok ==> final(self).torn() == old(self).torn() && final(self).sound() == old(self).sound() && final(self).tag() == old(self).tag() && final(self).hint() == old(self).hint(),
            r is Err ==> old(self).torn(),
            r is Ok ==> final(self).sofar() == old(self).sofar().push(seen(v, old(self).plain(), old(w).bufs)),
            r is Ok ==> grown(old(w).bufs, final(w).bufs, adds(v, old(self).plain())),
            old(self).sound() && okay(v.tree()) ==> r is Ok,
    ;
    fn end(self, Tracked(w): Tracked<&mut World>) -> (r: Result<Self::Ok, Self::Error>)
        requires usable(self.plain(), self.fits(old(w).cell)), !old(w).held
        ensures
            !final(w).held && same_cell(*old(w), *final(w)) && extends(old(w).bufs, final(w).bufs),
            r is Ok ==> final(w).bufs == old(w).bufs && (hint_ok(self.hint(), self.tag(), self.sofar()) ==> self.out(Node::List(self.tag(), self.sofar()), r->Ok_0)),
            r is Err ==> self.torn(),
            self.sound() ==> r is Ok,
    ;
}
pub trait SerializeTupleVariant: Sized {
    type Ok;
    type Error;
    /// it only consumes what it is given
    spec fn plain(&self) -> bool;
    /// it moves byte strings to the attachments of this cell on their way to a plain one
    spec fn fits(&self, cell: int) -> bool;
    /// with this tree for its input, it may end with that result
    #[verifier::prophetic]
    spec fn out(&self, n: Node, ok: Self::Ok) -> bool;
    /// what holds when it fails or is given up
    #[verifier::prophetic]
    spec fn torn(&self) -> bool;
    /// it never fails on a tree that JSON can express
    spec fn sound(&self) -> bool;
    spec fn tag(&self) -> Tag;
    /// the number of entries announced
    spec fn hint(&self) -> Option<usize>;
    /// the children so far
    spec fn sofar(&self) -> Seq<Node>;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, v: &T, Tracked(w): Tracked<&mut World>) -> (r: Result<(), Self::Error>)
        requires
            usable(old(self).plain(), old(self).fits(old(w).cell)), !old(w).held,
            v.pure() || old(self).plain() && v.fits(old(w).cell),
        ensures
            !final(w).held && same_cell(*old(w), *final(w)) && extends(old(w).bufs, final(w).bufs),
            final(self).plain() == old(self).plain(),
            r is Ok ==> forall|n: Node, ok: Self::Ok| #[trigger] final(self).out(n, ok) == old(self).out(n, ok),
            r is Ok ==> final(self).fits(old(w).cell) == old(self).fits(old(w).cell),
            r is Ok ==> final(self).torn() == old(self).torn() && final(self).sound() == old(self).sound() && final(self).tag() == old(self).tag() && final(self).hint() == old(self).hint(),
            r is Err ==> old(self).torn(),
            r is Ok ==> final(self).sofar() == old(self).sofar().push(seen(v, old(self).plain(), old(w).bufs)),
            r is Ok ==> grown(old(w).bufs, final(w).bufs, adds(v, old(self).plain())),
            old(self).sound() && okay(v.tree()) ==> r is Ok,
    ;
    fn end(self, Tracked(w): Tracked<&mut World>) -> (r: Result<Self::Ok, Self::Error>)
        requires usable(self.plain(), self.fits(old(w).cell)), !old(w).held
        ensures
            !final(w).held && same_cell(*old(w), *final(w)) && extends(old(w).bufs, final(w).bufs),
            r is Ok ==> final(w).bufs == old(w).bufs && (hint_ok(self.hint(), self.tag(), self.sofar()) ==> self.out(Node::List(self.tag(), self.sofar()), r->Ok_0)),
            r is Err ==> self.torn(),
            self.sound() ==> r is Ok,
    ;
}
pub trait SerializeMap: Sized {
    type Ok;
    type Error;
    /// it only consumes what it is given
    spec fn plain(&self) -> bool;
    /// it moves byte strings to the attachments of this cell on their way to a plain one
    spec fn fits(&self, cell: int) -> bool;
    /// with this tree for its input, it may end with that result
    #[verifier::prophetic]
    spec fn out(&self, n: Node, ok: Self::Ok) -> bool;
    /// what holds when it fails or is given up
    #[verifier::prophetic]
    spec fn torn(&self) -> bool;
    /// it never fails on a tree that JSON can express
    spec fn sound(&self) -> bool;
    spec fn tag(&self) -> Tag;
    /// the number of entries announced
    spec fn hint(&self) -> Option<usize>;
    /// the children so far
    spec fn sofar(&self) -> Seq<Node>;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, v: &T, Tracked(w): Tracked<&mut World>) -> (r: Result<(), Self::Error>)
        requires
            usable(old(self).plain(), old(self).fits(old(w).cell)), !old(w).held,
            v.pure() || old(self).plain() && v.fits(old(w).cell),
        ensures
            !final(w).held && same_cell(*old(w), *final(w)) && extends(old(w).bufs, final(w).bufs),
            final(self).plain() == old(self).plain(),
            r is Ok ==> forall|n: Node, ok: Self::Ok| #[trigger] final(self).out(n, ok) == old(self).out(n, ok),
            r is Ok ==> final(self).fits(old(w).cell) == old(self).fits(old(w).cell),
            r is Ok ==> final(self).torn() == old(self).torn() && final(self).sound() == old(self).sound() && final(self).tag() == old(self).tag() && final(self).hint() == old(self).hint(),
            r is Err ==> old(self).torn(),
            r is Ok ==> final(self).sofar() == old(self).sofar().push(seen(v, old(self).plain(), old(w).bufs)),
            r is Ok ==> grown(old(w).bufs, final(w).bufs, adds(v, old(self).plain())),
            old(self).sound() && okay(v.tree()) && keyish(v.tree()) ==> r is Ok,
    ;
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T, Tracked(w): Tracked<&mut World>) -> (r: Result<(), Self::Error>)
        requires
            usable(old(self).plain(), old(self).fits(old(w).cell)), !old(w).held,
            v.pure() || old(self).plain() && v.fits(old(w).cell),
        ensures
            !final(w).held && same_cell(*old(w), *final(w)) && extends(old(w).bufs, final(w).bufs),
            final(self).plain() == old(self).plain(),
            r is Ok ==> forall|n: Node, ok: Self::Ok| #[trigger] final(self).out(n, ok) == old(self).out(n, ok),
            r is Ok ==> final(self).fits(old(w).cell) == old(self).fits(old(w).cell),
            r is Ok ==> final(self).torn() == old(self).torn() && final(self).sound() == old(self).sound() && final(self).tag() == old(self).tag() && final(self).hint() == old(self).hint(),
            r is Err ==> old(self).torn(),
            r is Ok ==> final(self).sofar() == old(self).sofar().push(seen(v, old(self).plain(), old(w).bufs)),
            r is Ok ==> grown(old(w).bufs, final(w).bufs, adds(v, old(self).plain())),
            old(self).sound() && okay(v.tree()) ==> r is Ok,
    ;
    fn serialize_entry<K: ?Sized + Serialize, V: ?Sized + Serialize>(&mut self, k: &K, v: &V, Tracked(w): Tracked<&mut World>) -> (r: Result<(), Self::Error>)
        requires
            usable(old(self).plain(), old(self).fits(old(w).cell)), !old(w).held,
            k.pure() || old(self).plain() && k.fits(old(w).cell),
            v.pure() || old(self).plain() && v.fits(old(w).cell),
        ensures
            !final(w).held && same_cell(*old(w), *final(w)) && extends(old(w).bufs, final(w).bufs),
            final(self).plain() == old(self).plain(),
            r is Ok ==> forall|n: Node, ok: Self::Ok| #[trigger] final(self).out(n, ok) == old(self).out(n, ok),
            r is Ok ==> final(self).fits(old(w).cell) == old(self).fits(old(w).cell),
            r is Ok ==> final(self).torn() == old(self).torn() && final(self).sound() == old(self).sound() && final(self).tag() == old(self).tag() && final(self).hint() == old(self).hint(),
            r is Err ==> old(self).torn(),
            r is Ok ==> exists|mid: Seq<Message>| {
                &&& #[trigger] grown(old(w).bufs, mid, adds(k, old(self).plain())) && grown(mid, final(w).bufs, adds(v, old(self).plain()))
                &&& final(self).sofar() == old(self).sofar().push(seen(k, old(self).plain(), old(w).bufs)).push(seen(v, old(self).plain(), mid))
            },
            old(self).sound() && okay(k.tree()) && keyish(k.tree()) && okay(v.tree()) ==> r is Ok,
    ;
    fn end(self, Tracked(w): Tracked<&mut World>) -> (r: Result<Self::Ok, Self::Error>)
        requires usable(self.plain(), self.fits(old(w).cell)), !old(w).held
        ensures
            !final(w).held && same_cell(*old(w), *final(w)) && extends(old(w).bufs, final(w).bufs),
            r is Ok ==> final(w).bufs == old(w).bufs && (hint_ok(self.hint(), self.tag(), self.sofar()) ==> self.out(Node::List(self.tag(), self.sofar()), r->Ok_0)),
            r is Err ==> self.torn(),
            self.sound() ==> r is Ok,
    ;
}
pub trait SerializeStruct: Sized {
    type Ok;
    type Error;
    /// it only consumes what it is given
    spec fn plain(&self) -> bool;
    /// it moves byte strings to the attachments of this cell on their way to a plain one
    spec fn fits(&self, cell: int) -> bool;
    /// with this tree for its input, it may end with that result
    #[verifier::prophetic]
    spec fn out(&self, n: Node, ok: Self::Ok) -> bool;
    /// what holds when it fails or is given up
    #[verifier::prophetic]
    spec fn torn(&self) -> bool;
    /// it never fails on a tree that JSON can express
    spec fn sound(&self) -> bool;
    spec fn tag(&self) -> Tag;
    /// the number of entries announced
    spec fn hint(&self) -> Option<usize>;
    /// the children so far
    spec fn sofar(&self) -> Seq<Node>;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, key: &'static str, v: &T, Tracked(w): Tracked<&mut World>) -> (r: Result<(), Self::Error>)
        requires
            usable(old(self).plain(), old(self).fits(old(w).cell)), !old(w).held,
            v.pure() || old(self).plain() && v.fits(old(w).cell),
        ensures
            !final(w).held && same_cell(*old(w), *final(w)) && extends(old(w).bufs, final(w).bufs),
            final(self).plain() == old(self).plain(),
            r is Ok ==> forall|n: Node, ok: Self::Ok| #[trigger] final(self).out(n, ok) == old(self).out(n, ok),
            r is Ok ==> final(self).fits(old(w).cell) == old(self).fits(old(w).cell),
            r is Ok ==> final(self).torn() == old(self).torn() && final(self).sound() == old(self).sound() && final(self).tag() == old(self).tag() && final(self).hint() == old(self).hint(),
            r is Err ==> old(self).torn(),
            r is Ok ==> final(self).sofar() == old(self).sofar().push(Node::Wrap(Tag::Field(key@), Box::new(seen(v, old(self).plain(), old(w).bufs)))),
            r is Ok ==> grown(old(w).bufs, final(w).bufs, adds(v, old(self).plain())),
            old(self).sound() && okay(v.tree()) ==> r is Ok,
    ;
    fn skip_field(&mut self, key: &'static str, Tracked(w): Tracked<&mut World>) -> (r: Result<(), Self::Error>)
        requires
            usable(old(self).plain(), old(self).fits(old(w).cell)), !old(w).held,

        ensures
            !final(w).held && same_cell(*old(w), *final(w)) && extends(old(w).bufs, final(w).bufs),
            final(self).plain() == old(self).plain(),
            r is Ok ==> forall|n: Node, ok: Self::Ok| #[trigger] final(self).out(n, ok) == old(self).out(n, ok),
            r is Ok ==> final(self).fits(old(w).cell) == old(self).fits(old(w).cell),
            r is Ok ==> final(self).torn() == old(self).torn() && final(self).sound() == old(self).sound() && final(self).tag() == old(self).tag() && final(self).hint() == old(self).hint(),
            r is Err ==> old(self).torn(),
            r is Ok ==> final(self).sofar() == old(self).sofar().push(Node::Leaf(Leaf::Skip(key@))),
            final(w).bufs == old(w).bufs,
            old(self).sound() ==> r is Ok,
    ;
    fn end(self, Tracked(w): Tracked<&mut World>) -> (r: Result<Self::Ok, Self::Error>)
        requires usable(self.plain(), self.fits(old(w).cell)), !old(w).held
        ensures
            !final(w).held && same_cell(*old(w), *final(w)) && extends(old(w).bufs, final(w).bufs),
            r is Ok ==> final(w).bufs == old(w).bufs && (hint_ok(self.hint(), self.tag(), self.sofar()) ==> self.out(Node::List(self.tag(), self.sofar()), r->Ok_0)),
            r is Err ==> self.torn(),
            self.sound() ==> r is Ok,
    ;
}
pub trait SerializeStructVariant: Sized {
    type Ok;
    type Error;
    /// it only consumes what it is given
    spec fn plain(&self) -> bool;
    /// it moves byte strings to the attachments of this cell on their way to a plain one
    spec fn fits(&self, cell: int) -> bool;
    /// with this tree for its input, it may end with that result
    #[verifier::prophetic]
    spec fn out(&self, n: Node, ok: Self::Ok) -> bool;
    /// what holds when it fails or is given up
    #[verifier::prophetic]
    spec fn torn(&self) -> bool;
    /// it never fails on a tree that JSON can express
    spec fn sound(&self) -> bool;
    spec fn tag(&self) -> Tag;
    /// the number of entries announced
    spec fn hint(&self) -> Option<usize>;
    /// the children so far
    spec fn sofar(&self) -> Seq<Node>;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, key: &'static str, v: &T, Tracked(w): Tracked<&mut World>) -> (r: Result<(), Self::Error>)
        requires
            usable(old(self).plain(), old(self).fits(old(w).cell)), !old(w).held,
            v.pure() || old(self).plain() && v.fits(old(w).cell),
        ensures
            !final(w).held && same_cell(*old(w), *final(w)) && extends(old(w).bufs, final(w).bufs),
            final(self).plain() == old(self).plain(),
            r is Ok ==> forall|n: Node, ok: Self::Ok| #[trigger] final(self).out(n, ok) == old(self).out(n, ok),
            r is Ok ==> final(self).fits(old(w).cell) == old(self).fits(old(w).cell),
            r is Ok ==> final(self).torn() == old(self).torn() && final(self).sound() == old(self).sound() && final(self).tag() == old(self).tag() && final(self).hint() == old(self).hint(),
            r is Err ==> old(self).torn(),
            r is Ok ==> final(self).sofar() == old(self).sofar().push(Node::Wrap(Tag::Field(key@), Box::new(seen(v, old(self).plain(), old(w).bufs)))),
            r is Ok ==> grown(old(w).bufs, final(w).bufs, adds(v, old(self).plain())),
            old(self).sound() && okay(v.tree()) ==> r is Ok,
    ;
    fn skip_field(&mut self, key: &'static str, Tracked(w): Tracked<&mut World>) -> (r: Result<(), Self::Error>)
        requires
            usable(old(self).plain(), old(self).fits(old(w).cell)), !old(w).held,

        ensures
            !final(w).held && same_cell(*old(w), *final(w)) && extends(old(w).bufs, final(w).bufs),
            final(self).plain() == old(self).plain(),
            r is Ok ==> forall|n: Node, ok: Self::Ok| #[trigger] final(self).out(n, ok) == old(self).out(n, ok),
            r is Ok ==> final(self).fits(old(w).cell) == old(self).fits(old(w).cell),
            r is Ok ==> final(self).torn() == old(self).torn() && final(self).sound() == old(self).sound() && final(self).tag() == old(self).tag() && final(self).hint() == old(self).hint(),
            r is Err ==> old(self).torn(),
            r is Ok ==> final(self).sofar() == old(self).sofar().push(Node::Leaf(Leaf::Skip(key@))),
            final(w).bufs == old(w).bufs,
            old(self).sound() ==> r is Ok,
    ;
    fn end(self, Tracked(w): Tracked<&mut World>) -> (r: Result<Self::Ok, Self::Error>)
        requires usable(self.plain(), self.fits(old(w).cell)), !old(w).held
        ensures
            !final(w).held && same_cell(*old(w), *final(w)) && extends(old(w).bufs, final(w).bufs),
            r is Ok ==> final(w).bufs == old(w).bufs && (hint_ok(self.hint(), self.tag(), self.sofar()) ==> self.out(Node::List(self.tag(), self.sofar()), r->Ok_0)),
            r is Err ==> self.torn(),
            self.sound() ==> r is Ok,
    ;
}
pub trait Serializer: Sized {
    type Ok;
    type Error;
    type SerializeSeq: SerializeSeq<Ok = Self::Ok, Error = Self::Error>;
    type SerializeTuple: SerializeTuple<Ok = Self::Ok, Error = Self::Error>;
    type SerializeTupleStruct: SerializeTupleStruct<Ok = Self::Ok, Error = Self::Error>;
    type SerializeTupleVariant: SerializeTupleVariant<Ok = Self::Ok, Error = Self::Error>;
    type SerializeMap: SerializeMap<Ok = Self::Ok, Error = Self::Error>;
    type SerializeStruct: SerializeStruct<Ok = Self::Ok, Error = Self::Error>;
    type SerializeStructVariant: SerializeStructVariant<Ok = Self::Ok, Error = Self::Error>;
    spec fn plain(&self) -> bool;
    spec fn fits(&self, cell: int) -> bool;
    #[verifier::prophetic]
    spec fn out(&self, n: Node, ok: Self::Ok) -> bool;
    #[verifier::prophetic]
    spec fn torn(&self) -> bool;
    spec fn sound(&self) -> bool;
    /// it asks for the human-readable form of values
    spec fn human(&self) -> bool;
    /// it accepts exactly unsigned 8-bit numbers
    spec fn only_u8(&self) -> bool;
    fn serialize_bool(self, v: bool, Tracked(w): Tracked<&mut World>) -> (r: Result<Self::Ok, Self::Error>)
        requires
            usable(self.plain(), self.fits(old(w).cell)),
            self.plain() || !old(w).held,
        ensures
            final(w).held == old(w).held && same_cell(*old(w), *final(w)) && extends(old(w).bufs, final(w).bufs),
            r is Err ==> self.torn(),
            final(w).bufs == old(w).bufs,
            r is Ok ==> self.out(Node::Leaf(Leaf::Bool(v)), r->Ok_0),
            self.sound() ==> r is Ok,
    ;
    fn serialize_i8(self, v: i8, Tracked(w): Tracked<&mut World>) -> (r: Result<Self::Ok, Self::Error>)
        requires
            usable(self.plain(), self.fits(old(w).cell)),
            self.plain() || !old(w).held,
        ensures
            final(w).held == old(w).held && same_cell(*old(w), *final(w)) && extends(old(w).bufs, final(w).bufs),
            r is Err ==> self.torn(),
            final(w).bufs == old(w).bufs,
            r is Ok ==> self.out(Node::Leaf(Leaf::I8(v)), r->Ok_0),
            self.sound() ==> r is Ok,
    ;
    fn serialize_i16(self, v: i16, Tracked(w): Tracked<&mut World>) -> (r: Result<Self::Ok, Self::Error>)
        requires
            usable(self.plain(), self.fits(old(w).cell)),
            self.plain() || !old(w).held,
        ensures
            final(w).held == old(w).held && same_cell(*old(w), *final(w)) && extends(old(w).bufs, final(w).bufs),
            r is Err ==> self.torn(),
            final(w).bufs == old(w).bufs,
            r is Ok ==> self.out(Node::Leaf(Leaf::I16(v)), r->Ok_0),
            self.sound() ==> r is Ok,
    ;
    fn serialize_i32(self, v: i32, Tracked(w): Tracked<&mut World>) -> (r: Result<Self::Ok, Self::Error>)
        requires
            usable(self.plain(), self.fits(old(w).cell)),
            self.plain() || !old(w).held,
        ensures
            final(w).held == old(w).held && same_cell(*old(w), *final(w)) && extends(old(w).bufs, final(w).bufs),
            r is Err ==> self.torn(),
            final(w).bufs == old(w).bufs,
            r is Ok ==> self.out(Node::Leaf(Leaf::I32(v)), r->Ok_0),
            self.sound() ==> r is Ok,
    ;
    fn serialize_i64(self, v: i64, Tracked(w): Tracked<&mut World>) -> (r: Result<Self::Ok, Self::Error>)
        requires
            usable(self.plain(), self.fits(old(w).cell)),
            self.plain() || !old(w).held,
        ensures
            final(w).held == old(w).held && same_cell(*old(w), *final(w)) && extends(old(w).bufs, final(w).bufs),
            r is Err ==> self.torn(),
            final(w).bufs == old(w).bufs,
            r is Ok ==> self.out(Node::Leaf(Leaf::I64(v)), r->Ok_0),
            self.sound() ==> r is Ok,
    ;
    fn serialize_i128(self, v: i128, Tracked(w): Tracked<&mut World>) -> (r: Result<Self::Ok, Self::Error>)
        requires
            usable(self.plain(), self.fits(old(w).cell)),
            self.plain() || !old(w).held,
        ensures
            final(w).held == old(w).held && same_cell(*old(w), *final(w)) && extends(old(w).bufs, final(w).bufs),
            r is Err ==> self.torn(),
            final(w).bufs == old(w).bufs,
            r is Ok ==> self.out(Node::Leaf(Leaf::I128(v)), r->Ok_0),
            self.sound() ==> r is Ok,
    ;
    fn serialize_u8(self, v: u8, Tracked(w): Tracked<&mut World>) -> (r: Result<Self::Ok, Self::Error>)
        requires
            usable(self.plain(), self.fits(old(w).cell)),
            self.plain() || !old(w).held,
        ensures
            final(w).held == old(w).held && same_cell(*old(w), *final(w)) && extends(old(w).bufs, final(w).bufs),
            r is Err ==> self.torn(),
            final(w).bufs == old(w).bufs,
            r is Ok ==> self.out(Node::Leaf(Leaf::U8(v)), r->Ok_0),
            self.sound() || self.only_u8() ==> r is Ok,
    ;
    fn serialize_u16(self, v: u16, Tracked(w): Tracked<&mut World>) -> (r: Result<Self::Ok, Self::Error>)
        requires
            usable(self.plain(), self.fits(old(w).cell)),
            self.plain() || !old(w).held,
        ensures
            final(w).held == old(w).held && same_cell(*old(w), *final(w)) && extends(old(w).bufs, final(w).bufs),
            r is Err ==> self.torn(),
            final(w).bufs == old(w).bufs,
            r is Ok ==> self.out(Node::Leaf(Leaf::U16(v)), r->Ok_0),
            self.sound() ==> r is Ok,
    ;
    fn serialize_u32(self, v: u32, Tracked(w): Tracked<&mut World>) -> (r: Result<Self::Ok, Self::Error>)
        requires
            usable(self.plain(), self.fits(old(w).cell)),
            self.plain() || !old(w).held,
        ensures
            final(w).held == old(w).held && same_cell(*old(w), *final(w)) && extends(old(w).bufs, final(w).bufs),
            r is Err ==> self.torn(),
            final(w).bufs == old(w).bufs,
            r is Ok ==> self.out(Node::Leaf(Leaf::U32(v)), r->Ok_0),
            self.sound() ==> r is Ok,
    ;
    fn serialize_u64(self, v: u64, Tracked(w): Tracked<&mut World>) -> (r: Result<Self::Ok, Self::Error>)
        requires
            usable(self.plain(), self.fits(old(w).cell)),
            self.plain() || !old(w).held,
        ensures
            final(w).held == old(w).held && same_cell(*old(w), *final(w)) && extends(old(w).bufs, final(w).bufs),
            r is Err ==> self.torn(),
            final(w).bufs == old(w).bufs,
            r is Ok ==> self.out(Node::Leaf(Leaf::U64(v)), r->Ok_0),
            self.sound() ==> r is Ok,
    ;
    fn serialize_u128(self, v: u128, Tracked(w): Tracked<&mut World>) -> (r: Result<Self::Ok, Self::Error>)
        requires
            usable(self.plain(), self.fits(old(w).cell)),
            self.plain() || !old(w).held,
        ensures
            final(w).held == old(w).held && same_cell(*old(w), *final(w)) && extends(old(w).bufs, final(w).bufs),
            r is Err ==> self.torn(),
            final(w).bufs == old(w).bufs,
            r is Ok ==> self.out(Node::Leaf(Leaf::U128(v)), r->Ok_0),
            self.sound() ==> r is Ok,
    ;
    fn serialize_f32(self, v: f32, Tracked(w): Tracked<&mut World>) -> (r: Result<Self::Ok, Self::Error>)
        requires
            usable(self.plain(), self.fits(old(w).cell)),
            self.plain() || !old(w).held,
        ensures
            final(w).held == old(w).held && same_cell(*old(w), *final(w)) && extends(old(w).bufs, final(w).bufs),
            r is Err ==> self.torn(),
            final(w).bufs == old(w).bufs,
            r is Ok ==> self.out(Node::Leaf(Leaf::F32(v)), r->Ok_0),
            self.sound() ==> r is Ok,
    ;
    fn serialize_f64(self, v: f64, Tracked(w): Tracked<&mut World>) -> (r: Result<Self::Ok, Self::Error>)
        requires
            usable(self.plain(), self.fits(old(w).cell)),
            self.plain() || !old(w).held,
        ensures
            final(w).held == old(w).held && same_cell(*old(w), *final(w)) && extends(old(w).bufs, final(w).bufs),
            r is Err ==> self.torn(),
            final(w).bufs == old(w).bufs,
            r is Ok ==> self.out(Node::Leaf(Leaf::F64(v)), r->Ok_0),
            self.sound() ==> r is Ok,
    ;
    fn serialize_char(self, v: char, Tracked(w): Tracked<&mut World>) -> (r: Result<Self::Ok, Self::Error>)
        requires
            usable(self.plain(), self.fits(old(w).cell)),
            self.plain() || !old(w).held,
        ensures
            final(w).held == old(w).held && same_cell(*old(w), *final(w)) && extends(old(w).bufs, final(w).bufs),
            r is Err ==> self.torn(),
            final(w).bufs == old(w).bufs,
            r is Ok ==> self.out(Node::Leaf(Leaf::Char(v)), r->Ok_0),
            self.sound() ==> r is Ok,
    ;
    fn serialize_str(self, v: &str, Tracked(w): Tracked<&mut World>) -> (r: Result<Self::Ok, Self::Error>)
        requires
            usable(self.plain(), self.fits(old(w).cell)),
            self.plain() || !old(w).held,
        ensures
            final(w).held == old(w).held && same_cell(*old(w), *final(w)) && extends(old(w).bufs, final(w).bufs),
            r is Err ==> self.torn(),
            final(w).bufs == old(w).bufs,
            r is Ok ==> self.out(Node::Leaf(Leaf::Str(v@)), r->Ok_0),
            self.sound() ==> r is Ok,
    ;
    fn serialize_none(self, Tracked(w): Tracked<&mut World>) -> (r: Result<Self::Ok, Self::Error>)
        requires
            usable(self.plain(), self.fits(old(w).cell)),
            self.plain() || !old(w).held,
        ensures
            final(w).held == old(w).held && same_cell(*old(w), *final(w)) && extends(old(w).bufs, final(w).bufs),
            r is Err ==> self.torn(),
            final(w).bufs == old(w).bufs,
            r is Ok ==> self.out(Node::Leaf(Leaf::None), r->Ok_0),
            self.sound() ==> r is Ok,
    ;
    fn serialize_unit(self, Tracked(w): Tracked<&mut World>) -> (r: Result<Self::Ok, Self::Error>)
        requires
            usable(self.plain(), self.fits(old(w).cell)),
            self.plain() || !old(w).held,
        ensures
            final(w).held == old(w).held && same_cell(*old(w), *final(w)) && extends(old(w).bufs, final(w).bufs),
            r is Err ==> self.torn(),
            final(w).bufs == old(w).bufs,
            r is Ok ==> self.out(Node::Leaf(Leaf::Unit), r->Ok_0),
            self.sound() ==> r is Ok,
    ;
    fn serialize_unit_struct(self, name: &'static str, Tracked(w): Tracked<&mut World>) -> (r: Result<Self::Ok, Self::Error>)
        requires
            usable(self.plain(), self.fits(old(w).cell)),
            self.plain() || !old(w).held,
        ensures
            final(w).held == old(w).held && same_cell(*old(w), *final(w)) && extends(old(w).bufs, final(w).bufs),
            r is Err ==> self.torn(),
            final(w).bufs == old(w).bufs,
            r is Ok ==> self.out(Node::Leaf(Leaf::UnitStruct(name@)), r->Ok_0),
            self.sound() ==> r is Ok,
    ;
    fn serialize_unit_variant(self, name: &'static str, variant_index: u32, variant: &'static str, Tracked(w): Tracked<&mut World>) -> (r: Result<Self::Ok, Self::Error>)
        requires
            usable(self.plain(), self.fits(old(w).cell)),
            self.plain() || !old(w).held,
        ensures
            final(w).held == old(w).held && same_cell(*old(w), *final(w)) && extends(old(w).bufs, final(w).bufs),
            r is Err ==> self.torn(),
            final(w).bufs == old(w).bufs,
            r is Ok ==> self.out(Node::Leaf(Leaf::UnitVariant(name@, variant_index, variant@)), r->Ok_0),
            self.sound() ==> r is Ok,
    ;
    fn serialize_bytes(self, v: &[u8], Tracked(w): Tracked<&mut World>) -> (r: Result<Self::Ok, Self::Error>)
        requires
            usable(self.plain(), self.fits(old(w).cell)),
            self.plain() || !old(w).held,
        ensures
            final(w).held == old(w).held && same_cell(*old(w), *final(w)) && extends(old(w).bufs, final(w).bufs),
            r is Err ==> self.torn(),
            r is Ok && self.plain() ==> final(w).bufs == old(w).bufs && self.out(Node::Bytes(v@), r->Ok_0),
            r is Ok && !self.plain() ==> grown(old(w).bufs, final(w).bufs, seq![v@]) && self.out(ph(old(w).bufs.len()), r->Ok_0),
            self.sound() ==> r is Ok,
    ;
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T, Tracked(w): Tracked<&mut World>) -> (r: Result<Self::Ok, Self::Error>)
        requires
            usable(self.plain(), self.fits(old(w).cell)),
            !old(w).held,
            v.pure() || self.plain() && v.fits(old(w).cell),
        ensures
            final(w).held == old(w).held && same_cell(*old(w), *final(w)) && extends(old(w).bufs, final(w).bufs),
            r is Err ==> self.torn(),
            r is Ok ==> grown(old(w).bufs, final(w).bufs, adds(v, self.plain())),
            r is Ok ==> self.out(Node::Wrap(Tag::Some, Box::new(seen(v, self.plain(), old(w).bufs))), r->Ok_0),
            self.sound() && okay(v.tree()) ==> r is Ok,
    ;
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, name: &'static str, v: &T, Tracked(w): Tracked<&mut World>) -> (r: Result<Self::Ok, Self::Error>)
        requires
            usable(self.plain(), self.fits(old(w).cell)),
            !old(w).held,
            v.pure() || self.plain() && v.fits(old(w).cell),
        ensures
            final(w).held == old(w).held && same_cell(*old(w), *final(w)) && extends(old(w).bufs, final(w).bufs),
            r is Err ==> self.torn(),
            r is Ok ==> grown(old(w).bufs, final(w).bufs, adds(v, self.plain())),
            r is Ok ==> self.out(Node::Wrap(Tag::Newtype(name@), Box::new(seen(v, self.plain(), old(w).bufs))), r->Ok_0),
            self.sound() && okay(v.tree()) ==> r is Ok,
    ;
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, name: &'static str, variant_index: u32, variant: &'static str, v: &T, Tracked(w): Tracked<&mut World>) -> (r: Result<Self::Ok, Self::Error>)
        requires
            usable(self.plain(), self.fits(old(w).cell)),
            !old(w).held,
            v.pure() || self.plain() && v.fits(old(w).cell),
        ensures
            final(w).held == old(w).held && same_cell(*old(w), *final(w)) && extends(old(w).bufs, final(w).bufs),
            r is Err ==> self.torn(),
            r is Ok ==> grown(old(w).bufs, final(w).bufs, adds(v, self.plain())),
            r is Ok ==> self.out(Node::Wrap(Tag::NewtypeVariant(name@, variant_index, variant@), Box::new(seen(v, self.plain(), old(w).bufs))), r->Ok_0),
            self.sound() && okay(v.tree()) ==> r is Ok,
    ;
    fn serialize_seq(self, len: Option<usize>, Tracked(w): Tracked<&mut World>) -> (r: Result<Self::SerializeSeq, Self::Error>)
        requires
            usable(self.plain(), self.fits(old(w).cell)),
            !old(w).held,
        ensures
            *final(w) == *old(w),
            r is Err ==> self.torn(),
            self.sound() ==> r is Ok,
            r matches Ok(q) ==> q.plain() == self.plain() && q.fits(old(w).cell) == self.fits(old(w).cell) && q.torn() == self.torn() && q.sound() == self.sound()
                && q.tag() == (Tag::Seq) && q.hint() == len && q.sofar() == Seq::<Node>::empty(),
            r matches Ok(q) ==> forall|n: Node, ok: Self::Ok| #[trigger] q.out(n, ok) == self.out(n, ok),
    ;
    fn serialize_tuple(self, len: usize, Tracked(w): Tracked<&mut World>) -> (r: Result<Self::SerializeTuple, Self::Error>)
        requires
            usable(self.plain(), self.fits(old(w).cell)),
            !old(w).held,
        ensures
            *final(w) == *old(w),
            r is Err ==> self.torn(),
            self.sound() ==> r is Ok,
            r matches Ok(q) ==> q.plain() == self.plain() && q.fits(old(w).cell) == self.fits(old(w).cell) && q.torn() == self.torn() && q.sound() == self.sound()
                && q.tag() == (Tag::Tuple) && q.hint() == Some(len) && q.sofar() == Seq::<Node>::empty(),
            r matches Ok(q) ==> forall|n: Node, ok: Self::Ok| #[trigger] q.out(n, ok) == self.out(n, ok),
    ;
    fn serialize_tuple_struct(self, name: &'static str, len: usize, Tracked(w): Tracked<&mut World>) -> (r: Result<Self::SerializeTupleStruct, Self::Error>)
        requires
            usable(self.plain(), self.fits(old(w).cell)),
            !old(w).held,
        ensures
            *final(w) == *old(w),
            r is Err ==> self.torn(),
            self.sound() ==> r is Ok,
            r matches Ok(q) ==> q.plain() == self.plain() && q.fits(old(w).cell) == self.fits(old(w).cell) && q.torn() == self.torn() && q.sound() == self.sound()
                && q.tag() == (Tag::TupleStruct(name@)) && q.hint() == Some(len) && q.sofar() == Seq::<Node>::empty(),
            r matches Ok(q) ==> forall|n: Node, ok: Self::Ok| #[trigger] q.out(n, ok) == self.out(n, ok),
    ;
    fn serialize_tuple_variant(self, name: &'static str, variant_index: u32, variant: &'static str, len: usize, Tracked(w): Tracked<&mut World>) -> (r: Result<Self::SerializeTupleVariant, Self::Error>)
        requires
            usable(self.plain(), self.fits(old(w).cell)),
            !old(w).held,
        ensures
            *final(w) == *old(w),
            r is Err ==> self.torn(),
            self.sound() ==> r is Ok,
            r matches Ok(q) ==> q.plain() == self.plain() && q.fits(old(w).cell) == self.fits(old(w).cell) && q.torn() == self.torn() && q.sound() == self.sound()
                && q.tag() == (Tag::TupleVariant(name@, variant_index, variant@)) && q.hint() == Some(len) && q.sofar() == Seq::<Node>::empty(),
            r matches Ok(q) ==> forall|n: Node, ok: Self::Ok| #[trigger] q.out(n, ok) == self.out(n, ok),
    ;
    fn serialize_map(self, len: Option<usize>, Tracked(w): Tracked<&mut World>) -> (r: Result<Self::SerializeMap, Self::Error>)
        requires
            usable(self.plain(), self.fits(old(w).cell)),
            !old(w).held,
        ensures
            *final(w) == *old(w),
            r is Err ==> self.torn(),
            self.sound() ==> r is Ok,
            r matches Ok(q) ==> q.plain() == self.plain() && q.fits(old(w).cell) == self.fits(old(w).cell) && q.torn() == self.torn() && q.sound() == self.sound()
                && q.tag() == (Tag::Map) && q.hint() == len && q.sofar() == Seq::<Node>::empty(),
            r matches Ok(q) ==> forall|n: Node, ok: Self::Ok| #[trigger] q.out(n, ok) == self.out(n, ok),
    ;
    fn serialize_struct(self, name: &'static str, len: usize, Tracked(w): Tracked<&mut World>) -> (r: Result<Self::SerializeStruct, Self::Error>)
        requires
            usable(self.plain(), self.fits(old(w).cell)),
            !old(w).held,
        ensures
            *final(w) == *old(w),
            r is Err ==> self.torn(),
            self.sound() ==> r is Ok,
            r matches Ok(q) ==> q.plain() == self.plain() && q.fits(old(w).cell) == self.fits(old(w).cell) && q.torn() == self.torn() && q.sound() == self.sound()
                && q.tag() == (Tag::Struct) && q.hint() == Some(len) && q.sofar() == Seq::<Node>::empty(),
            r matches Ok(q) ==> forall|n: Node, ok: Self::Ok| #[trigger] q.out(n, ok) == self.out(n, ok),
    ;
    fn serialize_struct_variant(self, name: &'static str, variant_index: u32, variant: &'static str, len: usize, Tracked(w): Tracked<&mut World>) -> (r: Result<Self::SerializeStructVariant, Self::Error>)
        requires
            usable(self.plain(), self.fits(old(w).cell)),
            !old(w).held,
        ensures
            *final(w) == *old(w),
            r is Err ==> self.torn(),
            self.sound() ==> r is Ok,
            r matches Ok(q) ==> q.plain() == self.plain() && q.fits(old(w).cell) == self.fits(old(w).cell) && q.torn() == self.torn() && q.sound() == self.sound()
                && q.tag() == (Tag::StructVariant(name@, variant_index, variant@)) && q.hint() == Some(len) && q.sofar() == Seq::<Node>::empty(),
            r matches Ok(q) ==> forall|n: Node, ok: Self::Ok| #[trigger] q.out(n, ok) == self.out(n, ok),
    ;
    fn is_human_readable(&self, Tracked(w): Tracked<&mut World>) -> (r: bool)
        ensures *final(w) == *old(w), r == self.human()
    ;
}

/// Serialize::serialize: presents exactly the tree of the value, through whatever serializer it is given
pub trait SerializeCall: Serialize {
    fn serialize<S: Serializer>(&self, s: S, Tracked(w): Tracked<&mut World>) -> (r: Result<S::Ok, S::Error>)
        requires
            usable(s.plain(), s.fits(old(w).cell)), s.human(),
            self.pure() || s.plain() && self.fits(old(w).cell),
            !old(w).held || self.pure() && s.plain(),
        ensures
            final(w).held == old(w).held && same_cell(*old(w), *final(w)) && extends(old(w).bufs, final(w).bufs),
            self.pure() && s.plain() ==> final(w).bufs == old(w).bufs,
            r is Ok ==> grown(old(w).bufs, final(w).bufs, adds(self, s.plain())),
            r is Ok ==> s.out(seen(self, s.plain(), old(w).bufs), r->Ok_0),
            r is Err ==> s.torn(),
            s.sound() && okay(self.tree()) ==> r is Ok,
            s.only_u8() && is_u8(self.tree()) ==> r is Ok,
    ;
}
impl<X: Serialize + ?Sized> SerializeCall for X {
    #[verifier::external_body]
    fn serialize<S: Serializer>(&self, s: S, Tracked(w): Tracked<&mut World>) -> (r: Result<S::Ok, S::Error>) { unimplemented!() }
}

/// serde::ser::Impossible: has no values
#[verifier::external_body]
#[verifier::reject_recursive_types(O)]
#[verifier::reject_recursive_types(E)]
pub struct Impossible<O, E> { o: O, e: E }
impl<O, E> SerializeSeq for Impossible<O, E> {
    type Ok = O;
    type Error = E;
    uninterp spec fn plain(&self) -> bool;
    uninterp spec fn fits(&self, cell: int) -> bool;
    uninterp spec fn out(&self, n: Node, ok: Self::Ok) -> bool;
    uninterp spec fn torn(&self) -> bool;
    uninterp spec fn sound(&self) -> bool;
    uninterp spec fn tag(&self) -> Tag;
    uninterp spec fn hint(&self) -> Option<usize>;
    uninterp spec fn sofar(&self) -> Seq<Node>;
    #[verifier::external_body]
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T, Tracked(w): Tracked<&mut World>) -> (r: Result<(), Self::Error>) { unimplemented!() }
    #[verifier::external_body]
    fn end(self, Tracked(w): Tracked<&mut World>) -> (r: Result<Self::Ok, Self::Error>) { unimplemented!() }
}
impl<O, E> SerializeTuple for Impossible<O, E> {
    type Ok = O;
    type Error = E;
    uninterp spec fn plain(&self) -> bool;
    uninterp spec fn fits(&self, cell: int) -> bool;
    uninterp spec fn out(&self, n: Node, ok: Self::Ok) -> bool;
    uninterp spec fn torn(&self) -> bool;
    uninterp spec fn sound(&self) -> bool;
    uninterp spec fn tag(&self) -> Tag;
    uninterp spec fn hint(&self) -> Option<usize>;
    uninterp spec fn sofar(&self) -> Seq<Node>;
    #[verifier::external_body]
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T, Tracked(w): Tracked<&mut World>) -> (r: Result<(), Self::Error>) { unimplemented!() }
    #[verifier::external_body]
    fn end(self, Tracked(w): Tracked<&mut World>) -> (r: Result<Self::Ok, Self::Error>) { unimplemented!() }
}
impl<O, E> SerializeTupleStruct for Impossible<O, E> {
    type Ok = O;
    type Error = E;
    uninterp spec fn plain(&self) -> bool;
    uninterp spec fn fits(&self, cell: int) -> bool;
    uninterp spec fn out(&self, n: Node, ok: Self::Ok) -> bool;
    uninterp spec fn torn(&self) -> bool;
    uninterp spec fn sound(&self) -> bool;
    uninterp spec fn tag(&self) -> Tag;
    uninterp spec fn hint(&self) -> Option<usize>;
    uninterp spec fn sofar(&self) -> Seq<Node>;
    #[verifier::external_body]
    fn serialize_field<T: ?Sized + Serialize>(&mut self, v: &T, Tracked(w): Tracked<&mut World>) -> (r: Result<(), Self::Error>) { unimplemented!() }
    #[verifier::external_body]
    fn end(self, Tracked(w): Tracked<&mut World>) -> (r: Result<Self::Ok, Self::Error>) { unimplemented!() }
}
impl<O, E> SerializeTupleVariant for Impossible<O, E> {
    type Ok = O;
    type Error = E;
    uninterp spec fn plain(&self) -> bool;
    uninterp spec fn fits(&self, cell: int) -> bool;
    uninterp spec fn out(&self, n: Node, ok: Self::Ok) -> bool;
    uninterp spec fn torn(&self) -> bool;
    uninterp spec fn sound(&self) -> bool;
    uninterp spec fn tag(&self) -> Tag;
    uninterp spec fn hint(&self) -> Option<usize>;
    uninterp spec fn sofar(&self) -> Seq<Node>;
    #[verifier::external_body]
    fn serialize_field<T: ?Sized + Serialize>(&mut self, v: &T, Tracked(w): Tracked<&mut World>) -> (r: Result<(), Self::Error>) { unimplemented!() }
    #[verifier::external_body]
    fn end(self, Tracked(w): Tracked<&mut World>) -> (r: Result<Self::Ok, Self::Error>) { unimplemented!() }
}
impl<O, E> SerializeMap for Impossible<O, E> {
    type Ok = O;
    type Error = E;
    uninterp spec fn plain(&self) -> bool;
    uninterp spec fn fits(&self, cell: int) -> bool;
    uninterp spec fn out(&self, n: Node, ok: Self::Ok) -> bool;
    uninterp spec fn torn(&self) -> bool;
    uninterp spec fn sound(&self) -> bool;
    uninterp spec fn tag(&self) -> Tag;
    uninterp spec fn hint(&self) -> Option<usize>;
    uninterp spec fn sofar(&self) -> Seq<Node>;
    #[verifier::external_body]
    fn serialize_key<T: ?Sized + Serialize>(&mut self, v: &T, Tracked(w): Tracked<&mut World>) -> (r: Result<(), Self::Error>) { unimplemented!() }
    #[verifier::external_body]
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T, Tracked(w): Tracked<&mut World>) -> (r: Result<(), Self::Error>) { unimplemented!() }
    #[verifier::external_body]
    fn serialize_entry<K: ?Sized + Serialize, V: ?Sized + Serialize>(&mut self, k: &K, v: &V, Tracked(w): Tracked<&mut World>) -> (r: Result<(), Self::Error>) { unimplemented!() }
    #[verifier::external_body]
    fn end(self, Tracked(w): Tracked<&mut World>) -> (r: Result<Self::Ok, Self::Error>) { unimplemented!() }
}
impl<O, E> SerializeStruct for Impossible<O, E> {
    type Ok = O;
    type Error = E;
    uninterp spec fn plain(&self) -> bool;
    uninterp spec fn fits(&self, cell: int) -> bool;
    uninterp spec fn out(&self, n: Node, ok: Self::Ok) -> bool;
    uninterp spec fn torn(&self) -> bool;
    uninterp spec fn sound(&self) -> bool;
    uninterp spec fn tag(&self) -> Tag;
    uninterp spec fn hint(&self) -> Option<usize>;
    uninterp spec fn sofar(&self) -> Seq<Node>;
    #[verifier::external_body]
    fn serialize_field<T: ?Sized + Serialize>(&mut self, key: &'static str, v: &T, Tracked(w): Tracked<&mut World>) -> (r: Result<(), Self::Error>) { unimplemented!() }
    #[verifier::external_body]
    fn skip_field(&mut self, key: &'static str, Tracked(w): Tracked<&mut World>) -> (r: Result<(), Self::Error>) { unimplemented!() }
    #[verifier::external_body]
    fn end(self, Tracked(w): Tracked<&mut World>) -> (r: Result<Self::Ok, Self::Error>) { unimplemented!() }
}
impl<O, E> SerializeStructVariant for Impossible<O, E> {
    type Ok = O;
    type Error = E;
    uninterp spec fn plain(&self) -> bool;
    uninterp spec fn fits(&self, cell: int) -> bool;
    uninterp spec fn out(&self, n: Node, ok: Self::Ok) -> bool;
    uninterp spec fn torn(&self) -> bool;
    uninterp spec fn sound(&self) -> bool;
    uninterp spec fn tag(&self) -> Tag;
    uninterp spec fn hint(&self) -> Option<usize>;
    uninterp spec fn sofar(&self) -> Seq<Node>;
    #[verifier::external_body]
    fn serialize_field<T: ?Sized + Serialize>(&mut self, key: &'static str, v: &T, Tracked(w): Tracked<&mut World>) -> (r: Result<(), Self::Error>) { unimplemented!() }
    #[verifier::external_body]
    fn skip_field(&mut self, key: &'static str, Tracked(w): Tracked<&mut World>) -> (r: Result<(), Self::Error>) { unimplemented!() }
    #[verifier::external_body]
    fn end(self, Tracked(w): Tracked<&mut World>) -> (r: Result<Self::Ok, Self::Error>) { unimplemented!() }
}
/// serde_json's serializer: writes the JSON text of the tree it is given
pub struct JsonSerializer<W> { pub w: W }
impl<W: crate::ext::io::Write> JsonSerializer<W> {
    #[verifier::external_body]
    pub fn new(w: W) -> (r: Self) ensures r.w == w { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(W)]
pub struct JsonCompound<W> { w: W }
impl<W> JsonCompound<W> {
    pub uninterp spec fn start(&self) -> W;
    pub uninterp spec fn jtag(&self) -> Tag;
    pub uninterp spec fn jhint(&self) -> Option<usize>;
    pub uninterp spec fn jsofar(&self) -> Seq<Node>;
}
#[verifier::prophetic]
pub open spec fn wrote<W: crate::ext::io::Write>(w: W, n: Node) -> bool { w.linked() ==> w.fin() == w.put(utf8(json_of(n))) }
#[verifier::prophetic]
pub open spec fn wrote_some<W: crate::ext::io::Write>(w: W) -> bool { w.linked() ==> exists|d: Seq<u8>| w.fin() == #[trigger] w.put(d) }

impl<W: crate::ext::io::Write> SerializeSeq for JsonCompound<W> {
    type Ok = ();
    type Error = crate::ext::serde_json::Error;
    open spec fn plain(&self) -> bool { true }
    open spec fn fits(&self, cell: int) -> bool { false }
    #[verifier::prophetic]
    open spec fn out(&self, n: Node, ok: ()) -> bool { wrote(self.start(), n) }
    #[verifier::prophetic]
    open spec fn torn(&self) -> bool { wrote_some(self.start()) }
    open spec fn sound(&self) -> bool { self.start().infallible() }
    open spec fn tag(&self) -> Tag { self.jtag() }
    open spec fn hint(&self) -> Option<usize> { self.jhint() }
    open spec fn sofar(&self) -> Seq<Node> { self.jsofar() }
    #[verifier::external_body]
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T, Tracked(w): Tracked<&mut World>) -> (r: Result<(), Self::Error>) { unimplemented!() }
    #[verifier::external_body]
    fn end(self, Tracked(w): Tracked<&mut World>) -> (r: Result<Self::Ok, Self::Error>) { unimplemented!() }
}
impl<W: crate::ext::io::Write> SerializeTuple for JsonCompound<W> {
    type Ok = ();
    type Error = crate::ext::serde_json::Error;
    open spec fn plain(&self) -> bool { true }
    open spec fn fits(&self, cell: int) -> bool { false }
    #[verifier::prophetic]
    open spec fn out(&self, n: Node, ok: ()) -> bool { wrote(self.start(), n) }
    #[verifier::prophetic]
    open spec fn torn(&self) -> bool { wrote_some(self.start()) }
    open spec fn sound(&self) -> bool { self.start().infallible() }
    open spec fn tag(&self) -> Tag { self.jtag() }
    open spec fn hint(&self) -> Option<usize> { self.jhint() }
    open spec fn sofar(&self) -> Seq<Node> { self.jsofar() }
    #[verifier::external_body]
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T, Tracked(w): Tracked<&mut World>) -> (r: Result<(), Self::Error>) { unimplemented!() }
    #[verifier::external_body]
    fn end(self, Tracked(w): Tracked<&mut World>) -> (r: Result<Self::Ok, Self::Error>) { unimplemented!() }
}
impl<W: crate::ext::io::Write> SerializeTupleStruct for JsonCompound<W> {
    type Ok = ();
    type Error = crate::ext::serde_json::Error;
    open spec fn plain(&self) -> bool { true }
    open spec fn fits(&self, cell: int) -> bool { false }
    #[verifier::prophetic]
    open spec fn out(&self, n: Node, ok: ()) -> bool { wrote(self.start(), n) }
    #[verifier::prophetic]
    open spec fn torn(&self) -> bool { wrote_some(self.start()) }
    open spec fn sound(&self) -> bool { self.start().infallible() }
    open spec fn tag(&self) -> Tag { self.jtag() }
    open spec fn hint(&self) -> Option<usize> { self.jhint() }
    open spec fn sofar(&self) -> Seq<Node> { self.jsofar() }
    #[verifier::external_body]
    fn serialize_field<T: ?Sized + Serialize>(&mut self, v: &T, Tracked(w): Tracked<&mut World>) -> (r: Result<(), Self::Error>) { unimplemented!() }
    #[verifier::external_body]
    fn end(self, Tracked(w): Tracked<&mut World>) -> (r: Result<Self::Ok, Self::Error>) { unimplemented!() }
}
impl<W: crate::ext::io::Write> SerializeTupleVariant for JsonCompound<W> {
    type Ok = ();
    type Error = crate::ext::serde_json::Error;
    open spec fn plain(&self) -> bool { true }
    open spec fn fits(&self, cell: int) -> bool { false }
    #[verifier::prophetic]
    open spec fn out(&self, n: Node, ok: ()) -> bool { wrote(self.start(), n) }
    #[verifier::prophetic]
    open spec fn torn(&self) -> bool { wrote_some(self.start()) }
    open spec fn sound(&self) -> bool { self.start().infallible() }
    open spec fn tag(&self) -> Tag { self.jtag() }
    open spec fn hint(&self) -> Option<usize> { self.jhint() }
    open spec fn sofar(&self) -> Seq<Node> { self.jsofar() }
    #[verifier::external_body]
    fn serialize_field<T: ?Sized + Serialize>(&mut self, v: &T, Tracked(w): Tracked<&mut World>) -> (r: Result<(), Self::Error>) { unimplemented!() }
    #[verifier::external_body]
    fn end(self, Tracked(w): Tracked<&mut World>) -> (r: Result<Self::Ok, Self::Error>) { unimplemented!() }
}
impl<W: crate::ext::io::Write> SerializeMap for JsonCompound<W> {
    type Ok = ();
    type Error = crate::ext::serde_json::Error;
    open spec fn plain(&self) -> bool { true }
    open spec fn fits(&self, cell: int) -> bool { false }
    #[verifier::prophetic]
    open spec fn out(&self, n: Node, ok: ()) -> bool { wrote(self.start(), n) }
    #[verifier::prophetic]
    open spec fn torn(&self) -> bool { wrote_some(self.start()) }
    open spec fn sound(&self) -> bool { self.start().infallible() }
    open spec fn tag(&self) -> Tag { self.jtag() }
    open spec fn hint(&self) -> Option<usize> { self.jhint() }
    open spec fn sofar(&self) -> Seq<Node> { self.jsofar() }
    #[verifier::external_body]
    fn serialize_key<T: ?Sized + Serialize>(&mut self, v: &T, Tracked(w): Tracked<&mut World>) -> (r: Result<(), Self::Error>) { unimplemented!() }
    #[verifier::external_body]
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T, Tracked(w): Tracked<&mut World>) -> (r: Result<(), Self::Error>) { unimplemented!() }
    #[verifier::external_body]
    fn serialize_entry<K: ?Sized + Serialize, V: ?Sized + Serialize>(&mut self, k: &K, v: &V, Tracked(w): Tracked<&mut World>) -> (r: Result<(), Self::Error>) { unimplemented!() }
    #[verifier::external_body]
    fn end(self, Tracked(w): Tracked<&mut World>) -> (r: Result<Self::Ok, Self::Error>) { unimplemented!() }
}
impl<W: crate::ext::io::Write> SerializeStruct for JsonCompound<W> {
    type Ok = ();
    type Error = crate::ext::serde_json::Error;
    open spec fn plain(&self) -> bool { true }
    open spec fn fits(&self, cell: int) -> bool { false }
    #[verifier::prophetic]
    open spec fn out(&self, n: Node, ok: ()) -> bool { wrote(self.start(), n) }
    #[verifier::prophetic]
    open spec fn torn(&self) -> bool { wrote_some(self.start()) }
    open spec fn sound(&self) -> bool { self.start().infallible() }
    open spec fn tag(&self) -> Tag { self.jtag() }
    open spec fn hint(&self) -> Option<usize> { self.jhint() }
    open spec fn sofar(&self) -> Seq<Node> { self.jsofar() }
    #[verifier::external_body]
    fn serialize_field<T: ?Sized + Serialize>(&mut self, key: &'static str, v: &T, Tracked(w): Tracked<&mut World>) -> (r: Result<(), Self::Error>) { unimplemented!() }
    #[verifier::external_body]
    fn skip_field(&mut self, key: &'static str, Tracked(w): Tracked<&mut World>) -> (r: Result<(), Self::Error>) { unimplemented!() }
    #[verifier::external_body]
    fn end(self, Tracked(w): Tracked<&mut World>) -> (r: Result<Self::Ok, Self::Error>) { unimplemented!() }
}
impl<W: crate::ext::io::Write> SerializeStructVariant for JsonCompound<W> {
    type Ok = ();
    type Error = crate::ext::serde_json::Error;
    open spec fn plain(&self) -> bool { true }
    open spec fn fits(&self, cell: int) -> bool { false }
    #[verifier::prophetic]
    open spec fn out(&self, n: Node, ok: ()) -> bool { wrote(self.start(), n) }
    #[verifier::prophetic]
    open spec fn torn(&self) -> bool { wrote_some(self.start()) }
    open spec fn sound(&self) -> bool { self.start().infallible() }
    open spec fn tag(&self) -> Tag { self.jtag() }
    open spec fn hint(&self) -> Option<usize> { self.jhint() }
    open spec fn sofar(&self) -> Seq<Node> { self.jsofar() }
    #[verifier::external_body]
    fn serialize_field<T: ?Sized + Serialize>(&mut self, key: &'static str, v: &T, Tracked(w): Tracked<&mut World>) -> (r: Result<(), Self::Error>) { unimplemented!() }
    #[verifier::external_body]
    fn skip_field(&mut self, key: &'static str, Tracked(w): Tracked<&mut World>) -> (r: Result<(), Self::Error>) { unimplemented!() }
    #[verifier::external_body]
    fn end(self, Tracked(w): Tracked<&mut World>) -> (r: Result<Self::Ok, Self::Error>) { unimplemented!() }
}
impl<'b, W: crate::ext::io::Write> Serializer for &'b mut JsonSerializer<W> {
    type Ok = ();
    type Error = crate::ext::serde_json::Error;
    type SerializeSeq = JsonCompound<W>;
    type SerializeTuple = JsonCompound<W>;
    type SerializeTupleStruct = JsonCompound<W>;
    type SerializeTupleVariant = JsonCompound<W>;
    type SerializeMap = JsonCompound<W>;
    type SerializeStruct = JsonCompound<W>;
    type SerializeStructVariant = JsonCompound<W>;
    open spec fn plain(&self) -> bool { true }
    open spec fn fits(&self, cell: int) -> bool { false }
    #[verifier::prophetic]
    open spec fn out(&self, n: Node, ok: ()) -> bool { wrote((**self).w, n) }
    #[verifier::prophetic]
    open spec fn torn(&self) -> bool { wrote_some((**self).w) }
    open spec fn sound(&self) -> bool { (**self).w.infallible() }
    open spec fn only_u8(&self) -> bool { false }
    open spec fn human(&self) -> bool { true }
    #[verifier::external_body]
    fn serialize_bool(self, v: bool, Tracked(w): Tracked<&mut World>) -> (r: Result<Self::Ok, Self::Error>) { unimplemented!() }
    #[verifier::external_body]
    fn serialize_i8(self, v: i8, Tracked(w): Tracked<&mut World>) -> (r: Result<Self::Ok, Self::Error>) { unimplemented!() }
    #[verifier::external_body]
    fn serialize_i16(self, v: i16, Tracked(w): Tracked<&mut World>) -> (r: Result<Self::Ok, Self::Error>) { unimplemented!() }
    #[verifier::external_body]
    fn serialize_i32(self, v: i32, Tracked(w): Tracked<&mut World>) -> (r: Result<Self::Ok, Self::Error>) { unimplemented!() }
    #[verifier::external_body]
    fn serialize_i64(self, v: i64, Tracked(w): Tracked<&mut World>) -> (r: Result<Self::Ok, Self::Error>) { unimplemented!() }
    #[verifier::external_body]
    fn serialize_i128(self, v: i128, Tracked(w): Tracked<&mut World>) -> (r: Result<Self::Ok, Self::Error>) { unimplemented!() }
    #[verifier::external_body]
    fn serialize_u8(self, v: u8, Tracked(w): Tracked<&mut World>) -> (r: Result<Self::Ok, Self::Error>) { unimplemented!() }
    #[verifier::external_body]
    fn serialize_u16(self, v: u16, Tracked(w): Tracked<&mut World>) -> (r: Result<Self::Ok, Self::Error>) { unimplemented!() }
    #[verifier::external_body]
    fn serialize_u32(self, v: u32, Tracked(w): Tracked<&mut World>) -> (r: Result<Self::Ok, Self::Error>) { unimplemented!() }
    #[verifier::external_body]
    fn serialize_u64(self, v: u64, Tracked(w): Tracked<&mut World>) -> (r: Result<Self::Ok, Self::Error>) { unimplemented!() }
    #[verifier::external_body]
    fn serialize_u128(self, v: u128, Tracked(w): Tracked<&mut World>) -> (r: Result<Self::Ok, Self::Error>) { unimplemented!() }
    #[verifier::external_body]
    fn serialize_f32(self, v: f32, Tracked(w): Tracked<&mut World>) -> (r: Result<Self::Ok, Self::Error>) { unimplemented!() }
    #[verifier::external_body]
    fn serialize_f64(self, v: f64, Tracked(w): Tracked<&mut World>) -> (r: Result<Self::Ok, Self::Error>) { unimplemented!() }
    #[verifier::external_body]
    fn serialize_char(self, v: char, Tracked(w): Tracked<&mut World>) -> (r: Result<Self::Ok, Self::Error>) { unimplemented!() }
    #[verifier::external_body]
    fn serialize_str(self, v: &str, Tracked(w): Tracked<&mut World>) -> (r: Result<Self::Ok, Self::Error>) { unimplemented!() }
    #[verifier::external_body]
    fn serialize_none(self, Tracked(w): Tracked<&mut World>) -> (r: Result<Self::Ok, Self::Error>) { unimplemented!() }
    #[verifier::external_body]
    fn serialize_unit(self, Tracked(w): Tracked<&mut World>) -> (r: Result<Self::Ok, Self::Error>) { unimplemented!() }
    #[verifier::external_body]
    fn serialize_unit_struct(self, name: &'static str, Tracked(w): Tracked<&mut World>) -> (r: Result<Self::Ok, Self::Error>) { unimplemented!() }
    #[verifier::external_body]
    fn serialize_unit_variant(self, name: &'static str, variant_index: u32, variant: &'static str, Tracked(w): Tracked<&mut World>) -> (r: Result<Self::Ok, Self::Error>) { unimplemented!() }
    #[verifier::external_body]
    fn serialize_bytes(self, v: &[u8], Tracked(w): Tracked<&mut World>) -> (r: Result<Self::Ok, Self::Error>) { unimplemented!() }
    #[verifier::external_body]
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T, Tracked(w): Tracked<&mut World>) -> (r: Result<Self::Ok, Self::Error>) { unimplemented!() }
    #[verifier::external_body]
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, name: &'static str, v: &T, Tracked(w): Tracked<&mut World>) -> (r: Result<Self::Ok, Self::Error>) { unimplemented!() }
    #[verifier::external_body]
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, name: &'static str, variant_index: u32, variant: &'static str, v: &T, Tracked(w): Tracked<&mut World>) -> (r: Result<Self::Ok, Self::Error>) { unimplemented!() }
    #[verifier::external_body]
    fn serialize_seq(self, len: Option<usize>, Tracked(w): Tracked<&mut World>) -> (r: Result<Self::SerializeSeq, Self::Error>) { unimplemented!() }
    #[verifier::external_body]
    fn serialize_tuple(self, len: usize, Tracked(w): Tracked<&mut World>) -> (r: Result<Self::SerializeTuple, Self::Error>) { unimplemented!() }
    #[verifier::external_body]
    fn serialize_tuple_struct(self, name: &'static str, len: usize, Tracked(w): Tracked<&mut World>) -> (r: Result<Self::SerializeTupleStruct, Self::Error>) { unimplemented!() }
    #[verifier::external_body]
    fn serialize_tuple_variant(self, name: &'static str, variant_index: u32, variant: &'static str, len: usize, Tracked(w): Tracked<&mut World>) -> (r: Result<Self::SerializeTupleVariant, Self::Error>) { unimplemented!() }
    #[verifier::external_body]
    fn serialize_map(self, len: Option<usize>, Tracked(w): Tracked<&mut World>) -> (r: Result<Self::SerializeMap, Self::Error>) { unimplemented!() }
    #[verifier::external_body]
    fn serialize_struct(self, name: &'static str, len: usize, Tracked(w): Tracked<&mut World>) -> (r: Result<Self::SerializeStruct, Self::Error>) { unimplemented!() }
    #[verifier::external_body]
    fn serialize_struct_variant(self, name: &'static str, variant_index: u32, variant: &'static str, len: usize, Tracked(w): Tracked<&mut World>) -> (r: Result<Self::SerializeStructVariant, Self::Error>) { unimplemented!() }
    #[verifier::external_body]
    fn is_human_readable(&self, Tracked(w): Tracked<&mut World>) -> (r: bool) { unimplemented!() }
}
