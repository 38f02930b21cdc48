#!/usr/bin/env python3
"""Writes contracts/ext/serializer.rs: the serde data model and the contracts of Serializer and the compound traits.
(The traits have forty methods with the same few contracts; the text is generated once and committed.)"""
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "Tracked(w): Tracked<&mut World>"
NUM = ['i8', 'i16', 'i32', 'i64', 'i128', 'u8', 'u16', 'u32', 'u64', 'u128', 'f32', 'f64']
CAP = lambda s: s[0].upper() + s[1:]
N = "name: &'static str"
V = "name: &'static str, variant_index: u32, variant: &'static str"
# leaf methods: name, params, node
LEAF = [('bool', 'v: bool', 'Leaf::Bool(v)')] + [(n, 'v: ' + n, 'Leaf::%s(v)' % CAP(n)) for n in NUM] + [
    ('char', 'v: char', 'Leaf::Char(v)'), ('str', 'v: &str', 'Leaf::Str(v@)'), ('none', '', 'Leaf::None'), ('unit', '', 'Leaf::Unit'),
    ('unit_struct', N, 'Leaf::UnitStruct(name@)'), ('unit_variant', V, 'Leaf::UnitVariant(name@, variant_index, variant@)')]
WRAP = [('some', '', 'Tag::Some'), ('newtype_struct', N, 'Tag::Newtype(name@)'), ('newtype_variant', V, 'Tag::NewtypeVariant(name@, variant_index, variant@)')]
COMP = [('seq', 'len: Option<usize>', 'Seq', 'Tag::Seq', 'opt'), ('tuple', 'len: usize', 'Tuple', 'Tag::Tuple', ''),
        ('tuple_struct', N + ', len: usize', 'TupleStruct', 'Tag::TupleStruct(name@)', ''),
        ('tuple_variant', V + ', len: usize', 'TupleVariant', 'Tag::TupleVariant(name@, variant_index, variant@)', ''),
        ('map', 'len: Option<usize>', 'Map', 'Tag::Map', 'opt'),
        ('struct', N + ', len: usize', 'Struct', 'Tag::Struct', ''),
        ('struct_variant', V + ', len: usize', 'StructVariant', 'Tag::StructVariant(name@, variant_index, variant@)', '')]
o = []
p = o.append
p('''// needs: serde cell
// The serde data model: what a Serialize implementation presents to a Serializer is a tree, and a Serializer consumes one tree.
// The contracts say which tree each of serde's methods presents. `plain` serializers only consume; the other kind moves byte
// strings out of line (`fits`), presenting a plain serializer with the tree in which they are replaced by placeholders.
use crate::ext::serde::*;
pub use crate::ext::cell::*;
use crate::ext::tungstenite::Message;

/// this token and this value/serializer belong together and nothing holds the attachments
pub open spec fn usable(plain: bool, fits: bool) -> bool { plain || fits }
''')


def compound(c):
    name, params, ty, tag, opt = c
    methods = {'Seq': ['element'], 'Tuple': ['element'], 'TupleStruct': ['field'], 'TupleVariant': ['field'],
               'Map': ['key', 'value', 'entry'], 'Struct': ['kfield', 'skip'], 'StructVariant': ['kfield', 'skip']}[ty]
    p('pub trait Serialize%s: Sized {' % ty)
    p('''    type Ok;
    type Error;
    /// it only consumes what it is given
    spec fn plain(&self) -> bool;
    /// it moves byte strings to the attachments of this cell on their way to a plain one
    spec fn fits(&self, cell: int) -> bool;
    /// with this tree for its input, it may end with that result
    #[verifier::prophetic]
    spec fn out(&self, n: Node, ok: Self::Ok) -> bool;
    /// what holds when it fails or is given up
    #[verifier::prophetic]
    spec fn torn(&self) -> bool;
    /// it never fails on a tree that JSON can express
    spec fn sound(&self) -> bool;
    spec fn tag(&self) -> Tag;
    /// the number of entries announced
    spec fn hint(&self) -> Option<usize>;
    /// the children so far
    spec fn sofar(&self) -> Seq<Node>;''')

    def keep(extra):
        return '''            !final(w).held && same_cell(*old(w), *final(w)) && extends(old(w).bufs, final(w).bufs),
            final(self).plain() == old(self).plain(),
            r is Ok ==> forall|n: Node, ok: Self::Ok| #[trigger] final(self).out(n, ok) == old(self).out(n, ok),
            r is Ok ==> final(self).fits(old(w).cell) == old(self).fits(old(w).cell),
            r is Ok ==> final(self).torn() == old(self).torn() && final(self).sound() == old(self).sound() && final(self).tag() == old(self).tag() && final(self).hint() == old(self).hint(),
            r is Err ==> old(self).torn(),''' + extra

    def req(vs):
        return '''            usable(old(self).plain(), old(self).fits(old(w).cell)), !old(w).held,
''' + '\n'.join('            %s.pure() || old(self).plain() && %s.fits(old(w).cell),' % (v, v) for v in vs)
    for m in methods:
        if m in ('element', 'field', 'key', 'value'):
            fn, g, ps, vs = 'serialize_' + m, '<T: ?Sized + Serialize>', 'v: &T', ['v']
            child = 'seen(v, old(self).plain(), old(w).bufs)'
            ok = 'old(self).sound() && okay(v.tree())' + (' && keyish(v.tree())' if m == 'key' else '')
            extra = '''
            r is Ok ==> final(self).sofar() == old(self).sofar().push(%s),
            r is Ok ==> grown(old(w).bufs, final(w).bufs, adds(v, old(self).plain())),
            %s ==> r is Ok,''' % (child, ok)
        elif m == 'entry':
            fn, g, ps, vs = 'serialize_entry', '<K: ?Sized + Serialize, V: ?Sized + Serialize>', 'k: &K, v: &V', ['k', 'v']
            extra = '''
            r is Ok ==> exists|mid: Seq<Message>| {
                &&& #[trigger] grown(old(w).bufs, mid, adds(k, old(self).plain())) && grown(mid, final(w).bufs, adds(v, old(self).plain()))
                &&& final(self).sofar() == old(self).sofar().push(seen(k, old(self).plain(), old(w).bufs)).push(seen(v, old(self).plain(), mid))
            },
            old(self).sound() && okay(k.tree()) && keyish(k.tree()) && okay(v.tree()) ==> r is Ok,'''
        elif m == 'kfield':
            fn, g, ps, vs = 'serialize_field', '<T: ?Sized + Serialize>', "key: &'static str, v: &T", ['v']
            extra = '''
            r is Ok ==> final(self).sofar() == old(self).sofar().push(Node::Wrap(Tag::Field(key@), Box::new(seen(v, old(self).plain(), old(w).bufs)))),
            r is Ok ==> grown(old(w).bufs, final(w).bufs, adds(v, old(self).plain())),
            old(self).sound() && okay(v.tree()) ==> r is Ok,'''
        else:
            fn, g, ps, vs = 'skip_field', '', "key: &'static str", []
            extra = '''
            r is Ok ==> final(self).sofar() == old(self).sofar().push(Node::Leaf(Leaf::Skip(key@))),
            final(w).bufs == old(w).bufs,
            old(self).sound() ==> r is Ok,'''
        p('    fn %s%s(&mut self, %s, %s) -> (r: Result<(), Self::Error>)\n        requires\n%s\n        ensures\n%s\n    ;' % (fn, g, ps, W, req(vs), keep(extra)))
    if ty == 'Seq':
        res = '''            r is Ok && self.tag() == Tag::Seq && !self.plain() && all_u8(self.sofar()) ==> self.out(ph(old(w).bufs.len()), r->Ok_0) && grown(old(w).bufs, final(w).bufs, seq![u8s(self.sofar())]),
            r is Ok && !(self.tag() == Tag::Seq && !self.plain() && all_u8(self.sofar())) ==> final(w).bufs == old(w).bufs && (hint_ok(self.hint(), self.tag(), self.sofar()) ==> self.out(Node::List(self.tag(), self.sofar()), r->Ok_0)),'''
    else:
        res = '''            r is Ok ==> final(w).bufs == old(w).bufs && (hint_ok(self.hint(), self.tag(), self.sofar()) ==> self.out(Node::List(self.tag(), self.sofar()), r->Ok_0)),'''
    p('''    fn end(self, %s) -> (r: Result<Self::Ok, Self::Error>)
        requires usable(self.plain(), self.fits(old(w).cell)), !old(w).held
        ensures
            !final(w).held && same_cell(*old(w), *final(w)) && extends(old(w).bufs, final(w).bufs),
%s
            r is Err ==> self.torn(),
            self.sound() ==> r is Ok,
    ;
}''' % (W, res))


for c in COMP:
    compound(c)

p('''pub trait Serializer: Sized {
    type Ok;
    type Error;''')
for c in COMP:
    p('    type Serialize%s: Serialize%s<Ok = Self::Ok, Error = Self::Error>;' % (c[2], c[2]))
p('''    spec fn plain(&self) -> bool;
    spec fn fits(&self, cell: int) -> bool;
    #[verifier::prophetic]
    spec fn out(&self, n: Node, ok: Self::Ok) -> bool;
    #[verifier::prophetic]
    spec fn torn(&self) -> bool;
    spec fn sound(&self) -> bool;
    /// it asks for the human-readable form of values
    spec fn human(&self) -> bool;
    /// it accepts exactly unsigned 8-bit numbers
    spec fn only_u8(&self) -> bool;''')
RQ = '            usable(self.plain(), self.fits(old(w).cell)),'
LEAF_RQ = RQ + '\n            self.plain() || !old(w).held,'
KEEP = '            final(w).held == old(w).held && same_cell(*old(w), *final(w)) && extends(old(w).bufs, final(w).bufs),\n            r is Err ==> self.torn(),'
for n, ps, node in LEAF:
    p('''    fn serialize_%s(self, %s%s) -> (r: Result<Self::Ok, Self::Error>)
        requires
%s
        ensures
%s
            final(w).bufs == old(w).bufs,
            r is Ok ==> self.out(Node::Leaf(%s), r->Ok_0),
            self.sound()%s ==> r is Ok,
    ;''' % (n, ps + ', ' if ps else '', W, LEAF_RQ, KEEP, node, ' || self.only_u8()' if n == 'u8' else ''))
p('''    fn serialize_bytes(self, v: &[u8], %s) -> (r: Result<Self::Ok, Self::Error>)
        requires
%s
        ensures
%s
            r is Ok && self.plain() ==> final(w).bufs == old(w).bufs && self.out(Node::Bytes(v@), r->Ok_0),
            r is Ok && !self.plain() ==> grown(old(w).bufs, final(w).bufs, seq![v@]) && self.out(ph(old(w).bufs.len()), r->Ok_0),
            self.sound() ==> r is Ok,
    ;''' % (W, LEAF_RQ, KEEP))
for n, ps, tag in WRAP:
    p('''    fn serialize_%s<T: ?Sized + Serialize>(self, %sv: &T, %s) -> (r: Result<Self::Ok, Self::Error>)
        requires
%s
            !old(w).held,
            v.pure() || self.plain() && v.fits(old(w).cell),
        ensures
%s
            r is Ok ==> grown(old(w).bufs, final(w).bufs, adds(v, self.plain())),
            r is Ok ==> self.out(Node::Wrap(%s, Box::new(seen(v, self.plain(), old(w).bufs))), r->Ok_0),
            self.sound() && okay(v.tree()) ==> r is Ok,
    ;''' % (n, ps + ', ' if ps else '', W, RQ, KEEP, tag))
for n, ps, ty, tag, opt in COMP:
    p('''    fn serialize_%s(self, %s, %s) -> (r: Result<Self::Serialize%s, Self::Error>)
        requires
%s
            !old(w).held,
        ensures
            *final(w) == *old(w),
            r is Err ==> self.torn(),
            self.sound() ==> r is Ok,
            r matches Ok(q) ==> q.plain() == self.plain() && q.fits(old(w).cell) == self.fits(old(w).cell) && q.torn() == self.torn() && q.sound() == self.sound()
                && q.tag() == (%s) && q.hint() == %s && q.sofar() == Seq::<Node>::empty(),
            r matches Ok(q) ==> forall|n: Node, ok: Self::Ok| #[trigger] q.out(n, ok) == self.out(n, ok),
    ;''' % (n, ps, W, ty, RQ, tag, 'len' if opt else 'Some(len)'))
p('''    fn is_human_readable(&self, %s) -> (r: bool)
        ensures *final(w) == *old(w), r == self.human()
    ;
}''' % W)
p('''
/// Serialize::serialize: presents exactly the tree of the value, through whatever serializer it is given
pub trait SerializeCall: Serialize {
    fn serialize<S: Serializer>(&self, s: S, Tracked(w): Tracked<&mut World>) -> (r: Result<S::Ok, S::Error>)
        requires
            usable(s.plain(), s.fits(old(w).cell)), s.human(),
            self.pure() || s.plain() && self.fits(old(w).cell),
            !old(w).held || self.pure() && s.plain(),
        ensures
            final(w).held == old(w).held && same_cell(*old(w), *final(w)) && extends(old(w).bufs, final(w).bufs),
            self.pure() && s.plain() ==> final(w).bufs == old(w).bufs,
            r is Ok ==> grown(old(w).bufs, final(w).bufs, adds(self, s.plain())),
            r is Ok ==> s.out(seen(self, s.plain(), old(w).bufs), r->Ok_0),
            r is Err ==> s.torn(),
            s.sound() && okay(self.tree()) ==> r is Ok,
            s.only_u8() && is_u8(self.tree()) ==> r is Ok,
    ;
}
impl<X: Serialize + ?Sized> SerializeCall for X {
    #[verifier::external_body]
    fn serialize<S: Serializer>(&self, s: S, Tracked(w): Tracked<&mut World>) -> (r: Result<S::Ok, S::Error>) { unimplemented!() }
}
''')


def impl_compound(hdr, ty, specs, okty, errty):
    """all methods trusted"""
    methods = {'Seq': ['element'], 'Tuple': ['element'], 'TupleStruct': ['field'], 'TupleVariant': ['field'],
               'Map': ['key', 'value', 'entry'], 'Struct': ['kfield', 'skip'], 'StructVariant': ['kfield', 'skip']}[ty]
    p('%s {\n    type Ok = %s;\n    type Error = %s;' % (hdr, okty, errty))
    p(specs)
    for m in methods:
        fn, g, ps = {'element': ('serialize_element', '<T: ?Sized + Serialize>', 'v: &T'), 'field': ('serialize_field', '<T: ?Sized + Serialize>', 'v: &T'),
                     'key': ('serialize_key', '<T: ?Sized + Serialize>', 'v: &T'), 'value': ('serialize_value', '<T: ?Sized + Serialize>', 'v: &T'),
                     'entry': ('serialize_entry', '<K: ?Sized + Serialize, V: ?Sized + Serialize>', 'k: &K, v: &V'),
                     'kfield': ('serialize_field', '<T: ?Sized + Serialize>', "key: &'static str, v: &T"), 'skip': ('skip_field', '', "key: &'static str")}[m]
        p('    #[verifier::external_body]\n    fn %s%s(&mut self, %s, %s) -> (r: Result<(), Self::Error>) { unimplemented!() }' % (fn, g, ps, W))
    p('    #[verifier::external_body]\n    fn end(self, %s) -> (r: Result<Self::Ok, Self::Error>) { unimplemented!() }\n}' % W)


p('''/// serde::ser::Impossible: has no values
#[verifier::external_body]
#[verifier::reject_recursive_types(O)]
#[verifier::reject_recursive_types(E)]
pub struct Impossible<O, E> { o: O, e: E }''')
for c in COMP:
    impl_compound('impl<O, E> Serialize%s for Impossible<O, E>' % c[2], c[2], '''    uninterp spec fn plain(&self) -> bool;
    uninterp spec fn fits(&self, cell: int) -> bool;
    uninterp spec fn out(&self, n: Node, ok: Self::Ok) -> bool;
    uninterp spec fn torn(&self) -> bool;
    uninterp spec fn sound(&self) -> bool;
    uninterp spec fn tag(&self) -> Tag;
    uninterp spec fn hint(&self) -> Option<usize>;
    uninterp spec fn sofar(&self) -> Seq<Node>;''', 'O', 'E')
p('''/// serde_json's serializer: writes the JSON text of the tree it is given
pub struct JsonSerializer<W> { pub w: W }
impl<W: crate::ext::io::Write> JsonSerializer<W> {
    #[verifier::external_body]
    pub fn new(w: W) -> (r: Self) ensures r.w == w { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(W)]
pub struct JsonCompound<W> { w: W }
impl<W> JsonCompound<W> {
    pub uninterp spec fn start(&self) -> W;
    pub uninterp spec fn jtag(&self) -> Tag;
    pub uninterp spec fn jhint(&self) -> Option<usize>;
    pub uninterp spec fn jsofar(&self) -> Seq<Node>;
}
#[verifier::prophetic]
pub open spec fn wrote<W: crate::ext::io::Write>(w: W, n: Node) -> bool { w.linked() ==> w.fin() == w.put(utf8(json_of(n))) }
#[verifier::prophetic]
pub open spec fn wrote_some<W: crate::ext::io::Write>(w: W) -> bool { w.linked() ==> exists|d: Seq<u8>| w.fin() == #[trigger] w.put(d) }
''')
JS = '''    open spec fn plain(&self) -> bool { true }
    open spec fn fits(&self, cell: int) -> bool { false }
    #[verifier::prophetic]
    open spec fn out(&self, n: Node, ok: ()) -> bool { wrote(%(s)s, n) }
    #[verifier::prophetic]
    open spec fn torn(&self) -> bool { wrote_some(%(s)s) }
    open spec fn sound(&self) -> bool { %(s)s.infallible() }'''
for c in COMP:
    impl_compound('impl<W: crate::ext::io::Write> Serialize%s for JsonCompound<W>' % c[2], c[2], JS % dict(s='self.start()') + '''
    open spec fn tag(&self) -> Tag { self.jtag() }
    open spec fn hint(&self) -> Option<usize> { self.jhint() }
    open spec fn sofar(&self) -> Seq<Node> { self.jsofar() }''', '()', 'crate::ext::serde_json::Error')
p('''impl<'b, W: crate::ext::io::Write> Serializer for &'b mut JsonSerializer<W> {
    type Ok = ();
    type Error = crate::ext::serde_json::Error;''')
for c in COMP:
    p('    type Serialize%s = JsonCompound<W>;' % c[2])
p(JS % dict(s='(**self).w'))
p('    open spec fn only_u8(&self) -> bool { false }\n    open spec fn human(&self) -> bool { true }')
for n, ps, node in LEAF + [('bytes', 'v: &[u8]', '')]:
    p('    #[verifier::external_body]\n    fn serialize_%s(self, %s%s) -> (r: Result<Self::Ok, Self::Error>) { unimplemented!() }' % (n, ps + ', ' if ps else '', W))
for n, ps, tag in WRAP:
    p('    #[verifier::external_body]\n    fn serialize_%s<T: ?Sized + Serialize>(self, %sv: &T, %s) -> (r: Result<Self::Ok, Self::Error>) { unimplemented!() }' % (n, ps + ', ' if ps else '', W))
for n, ps, ty, tag, opt in COMP:
    p('    #[verifier::external_body]\n    fn serialize_%s(self, %s, %s) -> (r: Result<Self::Serialize%s, Self::Error>) { unimplemented!() }' % (n, ps, W, ty))
p('    #[verifier::external_body]\n    fn is_human_readable(&self, %s) -> (r: bool) { unimplemented!() }\n}' % W)
open(os.path.join(ROOT, 'contracts', 'ext', 'serializer.rs'), 'w').write('\n'.join(o) + '\n')
