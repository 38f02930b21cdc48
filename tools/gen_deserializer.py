#!/usr/bin/env python3
"""Writes contracts/ext/deserializer.rs: the contracts of serde's deserialization traits.
(The traits have sixty methods with the same few contracts; the text is generated once and committed.)"""
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INT = ['i8', 'i16', 'i32', 'i64', 'i128', 'u8', 'u16', 'u32', 'u64', 'u128']
CAP = lambda s: s[0].upper() + s[1:]
N = "name: &'static str"
# deserialize methods: name, arguments before the visitor, hint
HINTS = [('any', '', 'Any'), ('bool', '', 'Bool')] + [(n, '', 'Num(Width::%s)' % CAP(n)) for n in INT + ['f32', 'f64']] + [
    ('char', '', 'Char'), ('str', '', 'Text'), ('string', '', 'Text'), ('bytes', '', 'Bytes'), ('byte_buf', '', 'Bytes'), ('option', '', 'Option'),
    ('unit', '', 'Unit'), ('unit_struct', N, 'Unit'), ('newtype_struct', N, 'Newtype'), ('seq', '', 'Seq'), ('tuple', 'len: usize', 'Seq'),
    ('tuple_struct', N + ', len: usize', 'Seq'), ('map', '', 'Map'), ('struct', N + ", fields: &'static [&'static str]", 'Struct'),
    ('enum', N + ", variants: &'static [&'static str]", 'Enum'), ('identifier', '', 'Ident'), ('ignored_any', '', 'Ignored')]
LEAF = [('bool', 'v: bool', 'Ev::Bool(v)')] + [(n, 'v: ' + n, 'Ev::Int(v as int)') for n in INT] + [
    ('f32', 'v: f32', 'Ev::F32(v)'), ('f64', 'v: f64', 'Ev::F64(v)'), ('char', 'v: char', 'Ev::Char(v)'),
    ('str', 'v: &str', 'Ev::Str(v@, false)'), ('borrowed_str', "v: &'de str", 'Ev::Str(v@, true)'), ('string', 'v: String', 'Ev::Str(v@, false)'),
    ('bytes', 'v: &[u8]', 'Ev::Bytes(v@, false)'), ('borrowed_bytes', "v: &'de [u8]", 'Ev::Bytes(v@, true)'), ('byte_buf', 'v: Vec<u8>', 'Ev::Bytes(v@, false)'),
    ('none', '', 'Ev::None'), ('unit', '', 'Ev::Unit')]
o = []
p = o.append
p('''// needs: serde serde_json cow fmt
// serde's deserialization traits. A Deserializer holds an input tree (`In`); asked for something (a `Hint`), it shows the visitor one
// event (`Ev`) that stands for the input (`shows`), and returns what the visitor makes of it. A visitor's makings are
// a relation between events and values (`takes`); what a type reads from an input is a relation too (`reads`). `sound` deserializers
// and accesses do not fail on their own; `welcomes` and `certain` say on what visitors and types do not fail either.
use crate::ext::serde::*;
use crate::ext::cow::Cow;

pub enum Width { %s, F32, F64 }
/// what a deserializer is asked for
pub enum Hint { Any, Bool, Num(Width), Char, Text, Bytes, Option, Unit, Newtype, Seq, Map, Struct, Enum, Ident, Ignored }
/// what a visitor is shown. Str and Bytes: whether the text was borrowed from the input. Seq and Map: the number of entries that the
/// visitor leaves unread. Odd: something of which nothing is known; Bad: something to be turned down.
pub enum Ev {
    Bool(bool), Int(int), F32(f32), F64(f64), Char(char), Str(Seq<char>, bool), Bytes(Seq<u8>, bool), None, Unit, Some(In), Newtype(In),
    Seq(Seq<In>, nat), Map(Seq<Seq<char>>, Seq<In>, nat), Enum(In, Option<In>), Odd, Bad,
}
/// the bytes of an attachment as the elements of a sequence
pub open spec fn bytes_in(b: Seq<u8>) -> Seq<In> { Seq::new(b.len(), |j: int| In::Byte(b[j])) }
/// the text carries no white space on its ends
pub open spec fn bare(s: Seq<char>) -> bool { utf8(vp_trim(s, 0)).len() == utf8(s).len() }
/// the map key is the JSON text of a value of the type asked for, which is shown as this event
pub open spec fn keyed(h: Hint, s: Seq<char>, e: Ev) -> bool {
    bare(s) && whole(s) && match (h, e) {
        (Hint::Bool, Ev::Bool(b)) => json_tree(s) == In::Bool(b),
        (Hint::Num(w), Ev::Int(n)) => json_tree(s) == In::Int(n) || (json_tree(s) matches In::Big(m, _) && m == n),
        (Hint::Num(w), Ev::F32(_)) => w is F32,
        (Hint::Num(w), Ev::F64(_)) => true,
        _ => false,
    }
}
/// the deserializer may show the visitor this event
pub open spec fn shows(h: Hint, i: In, e: Ev) -> bool {
    match i {
        In::Odd => true,
        In::Byte(b) => e == Ev::Int(b as int),
        _ if h is Option => if i is Null { e is None } else { e == Ev::Some(i) },
        _ if h is Newtype => e == Ev::Newtype(i),
        In::Key(s) => if h is Enum { e == Ev::Enum(i, None) } else {
            keyed(h, s, e) || (e matches Ev::Str(t, _) && t == s) || (h is Bytes && (e matches Ev::Bytes(t, _) && t == utf8(s))) },
        _ if h is Ignored => e is Unit,
        In::Bad => false,
        In::Ill => match h {
            Hint::Bytes => e is Bytes,
            Hint::Enum => e == Ev::Enum(In::Ill, None),
            _ => false,
        },
        In::Hole(b) => match h {
            Hint::Text | Hint::Bytes => e == Ev::Bytes(b, true),
            Hint::Enum => false,
            _ => e == Ev::Seq(bytes_in(b), 0),
        },
        In::Null => !(h is Enum) && e is Unit,
        In::Bool(b) => !(h is Enum) && e == Ev::Bool(b),
        In::Int(n) => !(h is Enum) && e == Ev::Int(n),
        In::Big(n, x) => if h == Hint::Num(Width::I128) || h == Hint::Num(Width::U128) { e == Ev::Int(n) } else { !(h is Enum) && e == Ev::F64(x) },
        In::F64(x) => !(h is Enum) && e == Ev::F64(x),
        In::Str(s) => if h is Enum { e == Ev::Enum(i, None) } else {
            (e matches Ev::Str(t, _) && t == s) || (h is Bytes && (e matches Ev::Bytes(t, _) && t == utf8(s))) },
        In::Arr(xs) => !(h is Enum) && e == Ev::Seq(xs, 0),
        In::Obj(ks, vs) => if h is Enum { ks.len() == 1 && vs.len() == 1 && e == Ev::Enum(In::Str(ks[0]), Some(vs[0])) } else { e == Ev::Map(ks, vs, 0) },
    }
}
/// a sound deserializer certainly shows something
pub open spec fn servable(h: Hint, i: In) -> bool {
    match i {
        In::Ill | In::Bad | In::Odd | In::Hole(_) => false,
        In::Byte(_) | In::Key(_) => true,
        _ => match h {
            Hint::Any | Hint::Option | Hint::Newtype | Hint::Ignored => true,
            Hint::Text => i is Str,
            Hint::Bytes => i is Str || i is Arr,
            Hint::Bool => i is Bool,
            Hint::Unit => i is Null,
            Hint::Seq => i is Arr,
            Hint::Map => i is Obj,
            Hint::Struct => i is Arr || i is Obj,
            _ => false,
        },
    }
}

pub trait DeError: Sized {
    fn custom<T: VpDisplay>(msg: T) -> (r: Self);
}
impl DeError for crate::ext::serde_json::Error {
    #[verifier::external_body]
    fn custom<T: VpDisplay>(msg: T) -> (r: Self) { unimplemented!() }
}
''' % ', '.join(CAP(n) for n in INT))
p('''pub trait Visitor<'de>: Sized {
    type Value;
    /// shown this event, it may yield that value
    #[verifier::prophetic]
    spec fn takes(&self, e: Ev, v: Self::Value) -> bool;
    /// shown this event by something sound, it yields a value, and leaves nothing unread
    #[verifier::prophetic]
    spec fn welcomes(&self, e: Ev) -> bool;
    fn expecting(&self, formatter: &mut crate::ext::fmt::Formatter) -> (r: crate::ext::fmt::Result);''')
for n, ps, ev in LEAF:
    p("    fn visit_%s<E: DeError>(self%s) -> (r: Result<Self::Value, E>)" % (n, ', ' + ps if ps else ''))
    p("        ensures r is Ok ==> self.takes(%s, r->Ok_0), self.welcomes(%s) ==> r is Ok;" % (ev, ev))
p('''}
/// the visit methods that are given something to read from
pub trait VisitorRead<'de>: Visitor<'de> {
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> (r: Result<Self::Value, D::Error>)
        ensures r is Ok ==> self.takes(Ev::Some(d.input()), r->Ok_0), d.sound() && self.welcomes(Ev::Some(d.input())) ==> r is Ok;
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> (r: Result<Self::Value, D::Error>)
        ensures r is Ok ==> self.takes(Ev::Newtype(d.input()), r->Ok_0), d.sound() && self.welcomes(Ev::Newtype(d.input())) ==> r is Ok;
    fn visit_seq<A: SeqAccess<'de>>(self, seq: A) -> (r: Result<Self::Value, A::Error>)
        ensures
            r is Ok ==> self.takes(Ev::Seq(seq.rest(), seq.left()), r->Ok_0),
            seq.sound() && self.welcomes(Ev::Seq(seq.rest(), 0)) ==> r is Ok && seq.left() == 0;
    fn visit_map<A: MapAccess<'de>>(self, map: A) -> (r: Result<Self::Value, A::Error>)
        requires map.keys().len() == map.vals().len()
        ensures
            r is Ok ==> self.takes(Ev::Map(map.keys(), map.vals(), map.left()), r->Ok_0),
            map.sound() && self.welcomes(Ev::Map(map.keys(), map.vals(), 0)) ==> r is Ok && map.left() == 0;
    fn visit_enum<A: EnumAccess<'de>>(self, data: A) -> (r: Result<Self::Value, A::Error>)
        ensures
            r is Ok ==> self.takes(Ev::Enum(data.ident(), data.payload()), r->Ok_0),
            data.sound() && self.welcomes(Ev::Enum(data.ident(), data.payload())) ==> r is Ok;
}
impl<'de, X: Visitor<'de>> VisitorRead<'de> for X {
    #[verifier::external_body]
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> (r: Result<Self::Value, D::Error>) { unimplemented!() }
    #[verifier::external_body]
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> (r: Result<Self::Value, D::Error>) { unimplemented!() }
    #[verifier::external_body]
    fn visit_seq<A: SeqAccess<'de>>(self, seq: A) -> (r: Result<Self::Value, A::Error>) { unimplemented!() }
    #[verifier::external_body]
    fn visit_map<A: MapAccess<'de>>(self, map: A) -> (r: Result<Self::Value, A::Error>) { unimplemented!() }
    #[verifier::external_body]
    fn visit_enum<A: EnumAccess<'de>>(self, data: A) -> (r: Result<Self::Value, A::Error>) { unimplemented!() }
}
/// what a deserializer asked for `h` on input `i` returns comes from the visitor
#[verifier::prophetic]
pub open spec fn given<'de, V: Visitor<'de>>(h: Hint, i: In, v: V, r: V::Value) -> bool {
    i is Odd || exists|e: Ev| #[trigger] shows(h, i, e) && v.takes(e, r)
}
/// the visitor is happy with all it may be shown
#[verifier::prophetic]
pub open spec fn happy<'de, V: Visitor<'de>>(h: Hint, i: In, v: V) -> bool {
    servable(h, i) && forall|e: Ev| #[trigger] shows(h, i, e) ==> v.welcomes(e)
}
pub broadcast proof fn lemma_gives<'de, V: Visitor<'de>>(h: Hint, i: In, v: V, r: V::Value)
    ensures #[trigger] given(h, i, v, r) || forall|e: Ev| #[trigger] v.takes(e, r) ==> !shows(h, i, e)
{}
pub broadcast proof fn lemma_pleased<'de, V: Visitor<'de>>(h: Hint, i: In, v: V)
    ensures #[trigger] happy(h, i, v) ==> forall|e: Ev| #[trigger] v.welcomes(e) || !shows(h, i, e)
{}
pub trait Deserializer<'de>: Sized {
    type Error: DeError;
    spec fn input(&self) -> In;
    /// it does not fail on its own
    spec fn sound(&self) -> bool;
    spec fn human(&self) -> bool;''')
for n, ps, h in HINTS:
    p("    fn deserialize_%s<V: Visitor<'de>>(self%s, visitor: V) -> (r: Result<V::Value, Self::Error>)" % (n, ', ' + ps if ps else ''))
    p("        ensures r is Ok ==> given(Hint::%s, self.input(), visitor, r->Ok_0), self.sound() && happy(Hint::%s, self.input(), visitor) ==> r is Ok;" % (h, h))
p('''    fn is_human_readable(&self) -> (r: bool)
        ensures r == self.human();
}
pub trait DeserializeSeed<'de>: Sized {
    type Value;
    spec fn reads(&self, i: In, v: Self::Value) -> bool;
    spec fn certain(&self, i: In) -> bool;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> (r: Result<Self::Value, D::Error>)
        ensures r is Ok ==> self.reads(d.input(), r->Ok_0), d.sound() && self.certain(d.input()) ==> r is Ok;
}
pub trait SeqAccess<'de>: Sized {
    type Error: DeError;
    /// the elements not read yet
    spec fn rest(&self) -> Seq<In>;
    /// the number of elements that will remain unread in the end
    #[verifier::prophetic]
    spec fn left(&self) -> nat;
    spec fn sound(&self) -> bool;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> (r: Result<Option<T::Value>, Self::Error>)
        ensures
            final(self).left() == old(self).left(),
            r matches Ok(None) ==> old(self).rest().len() == 0 && final(self).rest() == old(self).rest(),
            r matches Ok(Some(v)) ==> old(self).rest().len() > 0 && seed.reads(old(self).rest()[0], v) && final(self).rest() == old(self).rest().skip(1),
            r is Ok ==> final(self).sound() == old(self).sound(),
            old(self).sound() && (old(self).rest().len() > 0 ==> seed.certain(old(self).rest()[0])) ==> r is Ok;
}
pub trait EnumAccess<'de>: Sized {
    type Error: DeError;
    type Variant: VariantAccess<'de, Error = Self::Error>;
    spec fn ident(&self) -> In;
    spec fn payload(&self) -> Option<In>;
    spec fn sound(&self) -> bool;
    fn variant_seed<V: DeserializeSeed<'de>>(self, seed: V) -> (r: Result<(V::Value, Self::Variant), Self::Error>)
        ensures
            r matches Ok(x) ==> seed.reads(self.ident(), x.0) && x.1.content() == self.payload() && x.1.sound() == self.sound(),
            self.sound() && seed.certain(self.ident()) ==> r is Ok;
}
pub trait VariantAccess<'de>: Sized {
    type Error: DeError;
    spec fn content(&self) -> Option<In>;
    spec fn sound(&self) -> bool;
    fn unit_variant(self) -> (r: Result<(), Self::Error>)
        ensures self.sound() && self.content() is None ==> r is Ok;
    fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, seed: T) -> (r: Result<T::Value, Self::Error>)
        ensures
            r is Ok ==> self.content() is Some && seed.reads(self.content()->0, r->Ok_0),
            self.sound() && self.content() is Some && seed.certain(self.content()->0) ==> r is Ok;
    fn tuple_variant<T: Visitor<'de>>(self, len: usize, visitor: T) -> (r: Result<T::Value, Self::Error>)
        ensures
            r is Ok ==> self.content() is Some && given(Hint::Seq, self.content()->0, visitor, r->Ok_0),
            self.sound() && self.content() is Some && happy(Hint::Seq, self.content()->0, visitor) ==> r is Ok;
    fn struct_variant<T: Visitor<'de>>(self, fields: &'static [&'static str], visitor: T) -> (r: Result<T::Value, Self::Error>)
        ensures
            r is Ok ==> self.content() is Some && given(Hint::Struct, self.content()->0, visitor, r->Ok_0),
            self.sound() && self.content() is Some && happy(Hint::Struct, self.content()->0, visitor) ==> r is Ok;
}
/// keys and values are read in turn
pub trait MapAccess<'de>: Sized {
    type Error: DeError;
    /// the keys and the values not read yet
    spec fn keys(&self) -> Seq<Seq<char>>;
    spec fn vals(&self) -> Seq<In>;
    #[verifier::prophetic]
    spec fn left(&self) -> nat;
    spec fn sound(&self) -> bool;
    fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, seed: K) -> (r: Result<Option<K::Value>, Self::Error>)
        requires old(self).keys().len() == old(self).vals().len()
        ensures
            final(self).left() == old(self).left(),
            r matches Ok(None) ==> old(self).keys().len() == 0,
            r matches Ok(Some(k)) ==> old(self).keys().len() > 0 && seed.reads(In::Key(old(self).keys()[0]), k)
                && final(self).keys() == old(self).keys().skip(1) && final(self).vals() == old(self).vals(),
            r is Ok ==> final(self).sound() == old(self).sound(),
            old(self).sound() && (old(self).keys().len() > 0 ==> seed.certain(In::Key(old(self).keys()[0]))) ==> r is Ok;
    fn next_value_seed<V: DeserializeSeed<'de>>(&mut self, seed: V) -> (r: Result<V::Value, Self::Error>)
        requires old(self).vals().len() == old(self).keys().len() + 1
        ensures
            final(self).left() == old(self).left(),
            r is Ok ==> seed.reads(old(self).vals()[0], r->Ok_0) && final(self).vals() == old(self).vals().skip(1) && final(self).keys() == old(self).keys(),
            r is Ok ==> final(self).sound() == old(self).sound(),
            old(self).sound() && seed.certain(old(self).vals()[0]) ==> r is Ok;
}
/// MapAccess::next_key and next_value: the type itself is the seed
pub trait MapAccessOf<'de>: MapAccess<'de> {
    fn next_key<K: Deserialize<'de>>(&mut self) -> (r: Result<Option<K>, Self::Error>)
        requires old(self).keys().len() == old(self).vals().len()
        ensures
            final(self).left() == old(self).left(),
            r matches Ok(None) ==> old(self).keys().len() == 0,
            r matches Ok(Some(k)) ==> old(self).keys().len() > 0 && K::reads(In::Key(old(self).keys()[0]), k)
                && final(self).keys() == old(self).keys().skip(1) && final(self).vals() == old(self).vals(),
            r is Ok ==> final(self).sound() == old(self).sound(),
            old(self).sound() && (old(self).keys().len() > 0 ==> K::certain(In::Key(old(self).keys()[0]))) ==> r is Ok;
    fn next_value<V: Deserialize<'de>>(&mut self) -> (r: Result<V, Self::Error>)
        requires old(self).vals().len() == old(self).keys().len() + 1
        ensures
            final(self).left() == old(self).left(),
            r is Ok ==> V::reads(old(self).vals()[0], r->Ok_0) && final(self).vals() == old(self).vals().skip(1) && final(self).keys() == old(self).keys(),
            r is Ok ==> final(self).sound() == old(self).sound(),
            old(self).sound() && V::certain(old(self).vals()[0]) ==> r is Ok;
}
impl<'de, X: MapAccess<'de>> MapAccessOf<'de> for X {
    #[verifier::external_body]
    fn next_key<K: Deserialize<'de>>(&mut self) -> (r: Result<Option<K>, Self::Error>) { unimplemented!() }
    #[verifier::external_body]
    fn next_value<V: Deserialize<'de>>(&mut self) -> (r: Result<V, Self::Error>) { unimplemented!() }
}
/// Deserialize::deserialize
pub trait DeserializeCall<'de>: Deserialize<'de> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> (r: Result<Self, D::Error>)
        ensures r is Ok ==> Self::reads(d.input(), r->Ok_0), d.sound() && Self::certain(d.input()) ==> r is Ok;
}
impl<'de, X: Deserialize<'de>> DeserializeCall<'de> for X {
    #[verifier::external_body]
    fn deserialize<D: Deserializer<'de>>(d: D) -> (r: Result<Self, D::Error>) { unimplemented!() }
}

''')
for n in INT:
    big = "|| (json_tree(s@) matches In::Big(n, _) && n == r)" if '128' in n else ''
    rb = "n == r" if '128' in n else 'false'
    p('''impl<'de> Deserialize<'de> for %s {
    uninterp spec fn de_ok(t: Seq<char>) -> bool;
    open spec fn de_is(s: &str, r: Self) -> bool { whole(s@) && (json_tree(s@) == In::Int(r as int) %s) }
    open spec fn reads(i: In, r: Self) -> bool { match i { In::Int(n) => n == r, In::Big(n, _) => %s, In::Byte(_) | In::Key(_) | In::Odd => true, _ => false } }
}''' % (n, big, rb))
for n in ['f32', 'f64']:
    p('''impl<'de> Deserialize<'de> for %s {
    uninterp spec fn de_ok(t: Seq<char>) -> bool;
    open spec fn de_is(s: &str, r: Self) -> bool { whole(s@) }
    uninterp spec fn reads(i: In, r: Self) -> bool;
}''' % n)
p('''impl<'de> Deserialize<'de> for bool {
    uninterp spec fn de_ok(t: Seq<char>) -> bool;
    open spec fn de_is(s: &str, r: Self) -> bool { whole(s@) && json_tree(s@) == In::Bool(r) }
    open spec fn reads(i: In, r: Self) -> bool { match i { In::Bool(b) => b == r, In::Byte(_) | In::Key(_) | In::Odd => true, _ => false } }
}
/// serde_json::Deserializer on a text
#[verifier::external_body]
pub struct JsonDeserializer<'a> { s: &'a str }
impl<'a> JsonDeserializer<'a> {
    pub uninterp spec fn text(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn from_str(s: &'a str) -> (r: Self)
        ensures r.text() == s@
    { unimplemented!() }
}
''')


def methods(indent='    '):
    for n, ps, h in HINTS:
        p("    #[verifier::external_body]")
        p("    fn deserialize_%s<V: Visitor<'de>>(self%s, visitor: V) -> (r: Result<V::Value, Self::Error>) { unimplemented!() }" % (n, ', ' + ps if ps else ''))
    p("    #[verifier::external_body]")
    p("    fn is_human_readable(&self) -> (r: bool) { unimplemented!() }")


p('''impl<'de, 'b> Deserializer<'de> for &'b mut JsonDeserializer<'de> {
    type Error = crate::ext::serde_json::Error;
    open spec fn input(&self) -> In { if whole((**self).text()) { json_tree((**self).text()) } else { In::Odd } }
    open spec fn sound(&self) -> bool { whole((**self).text()) }
    open spec fn human(&self) -> bool { true }''')
methods()
p('''}
/// an iterator over bytes
pub trait ByteIter: Sized { #[verifier::prophetic] spec fn bytes_left(&self) -> Seq<u8>; }
/// std::iter::Copied over bytes
#[verifier::external_body]
pub struct VpCopied<'a> { b: &'a [u8] }
impl<'a> VpCopied<'a> { pub uninterp spec fn view(&self) -> Seq<u8>; }
impl<'a> ByteIter for VpCopied<'a> { #[verifier::prophetic] open spec fn bytes_left(&self) -> Seq<u8> { self.view() } }
impl ByteIter for std::vec::IntoIter<u8> { #[verifier::prophetic] open spec fn bytes_left(&self) -> Seq<u8> { vstd::std_specs::iter::IteratorSpec::remaining(self) } }
pub trait VpCopy<'a>: Sized {
    #[verifier::prophetic]
    spec fn copies(&self) -> Seq<u8>;
    fn vp_copied(self) -> (r: VpCopied<'a>)
        ensures
            r.view() == self.copies(),
            forall|s: Seq<u8>| s.len() == self.copies().len() && (forall|j: int| 0 <= j < s.len() ==> s[j] == #[trigger] self.copies()[j]) ==> #[trigger] bytes_in(s) == bytes_in(r.view());
}
impl<'a> VpCopy<'a> for core::slice::Iter<'a, u8> {
    #[verifier::prophetic]
    open spec fn copies(&self) -> Seq<u8> { Seq::new(vstd::std_specs::iter::IteratorSpec::remaining(self).len(), |j: int| *vstd::std_specs::iter::IteratorSpec::remaining(self)[j]) }
    #[verifier::external_body]
    fn vp_copied(self) -> (r: VpCopied<'a>) { unimplemented!() }
}
/// serde::de::value::SeqDeserializer over bytes
#[verifier::external_body]
#[verifier::reject_recursive_types(I)]
#[verifier::reject_recursive_types(E)]
pub struct SeqDeserializer<I, E> { i: I, e: E }
impl<I: ByteIter, E: DeError> SeqDeserializer<I, E> {
    /// the bytes not read yet
    pub uninterp spec fn bytes(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn new(i: I) -> (r: Self)
        ensures r.bytes() == i.bytes_left()
    { unimplemented!() }
    /// fails if elements are left
    #[verifier::external_body]
    pub fn end(self) -> (r: Result<(), E>)
        ensures r is Ok <==> self.bytes().len() == 0
    { unimplemented!() }
}
impl<'de, 'b, I: ByteIter, E: DeError> SeqAccess<'de> for &'b mut SeqDeserializer<I, E> {
    type Error = E;
    open spec fn rest(&self) -> Seq<In> { bytes_in((**self).bytes()) }
    #[verifier::prophetic]
    open spec fn left(&self) -> nat { final(*self).bytes().len() }
    open spec fn sound(&self) -> bool { true }
    #[verifier::external_body]
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> (r: Result<Option<T::Value>, Self::Error>) { unimplemented!() }
}
/// the deserializer of a text (serde::de::IntoDeserializer for Cow<str>)
#[verifier::external_body]
#[verifier::reject_recursive_types(E)]
pub struct CowStrDeserializer<'a, E> { s: &'a str, e: E }
impl<'a, E: DeError> CowStrDeserializer<'a, E> { pub uninterp spec fn text(&self) -> Seq<char>; }
pub trait IntoDeserializer<'a>: Sized {
    fn into_deserializer<E: DeError>(self) -> (r: CowStrDeserializer<'a, E>)
        where Self: View<V = Seq<char>>
        ensures r.text() == self@;
}
impl<'a> IntoDeserializer<'a> for Cow<'a, str> {
    #[verifier::external_body]
    fn into_deserializer<E: DeError>(self) -> (r: CowStrDeserializer<'a, E>) { unimplemented!() }
}
impl<'de, E: DeError> Deserializer<'de> for CowStrDeserializer<'de, E> {
    type Error = E;
    open spec fn input(&self) -> In { In::Key(self.text()) }
    open spec fn sound(&self) -> bool { true }
    open spec fn human(&self) -> bool { true }''')
methods()
p('''}
// ------------------------------------------------------------------ attachments in place of the placeholders
pub open spec fn fill_each(xs: Seq<In>, n: nat, ds: spec_fn(int) -> Seq<u8>) -> Seq<In> { Seq::new(xs.len(), |j: int| filled_in(xs[j], n, ds)) }
/// what a visitor has to be shown when a plain deserializer shows `e`
pub open spec fn fill_ev(bytes: bool, e: Ev, n: nat, ds: spec_fn(int) -> Seq<u8>) -> Ev {
    match e {
        Ev::Some(i) => Ev::Some(filled_in(i, n, ds)),
        Ev::Newtype(i) => Ev::Newtype(filled_in(i, n, ds)),
        Ev::Seq(xs, l) => Ev::Seq(fill_each(xs, n, ds), l),
        Ev::Map(ks, vs, l) => match hole_of(ks, vs, n, ds) {
            Some(In::Hole(b)) => if bytes { Ev::Bytes(b, true) } else { Ev::Seq(bytes_in(b), 0) },
            Some(In::Bad) => Ev::Bad,
            Some(_) => Ev::Odd,
            None => Ev::Map(ks, fill_each(vs, n, ds), l),
        },
        Ev::Enum(i, p) => Ev::Enum(i, match p { Some(x) => Some(filled_in(x, n, ds)), None => None }),
        _ => e,
    }
}
/// asked for texts, byte strings, sequences, tuples and structs, a deserializer may be asked for anything
pub open spec fn any_class(h: Hint) -> bool { h is Text || h is Bytes || h is Seq || h is Struct }
pub open spec fn byte_class(h: Hint) -> bool { h is Text || h is Bytes }
pub broadcast proof fn lemma_fill_rest(xs: Seq<In>, n: nat, ds: spec_fn(int) -> Seq<u8>)
    requires xs.len() > 0
    ensures #[trigger] fill_each(xs.skip(1), n, ds) == fill_each(xs, n, ds).skip(1)
{ assert(fill_each(xs.skip(1), n, ds) =~= fill_each(xs, n, ds).skip(1)); }
pub proof fn lemma_shown(h: Hint, k: Hint, i: In, e: Ev, n: nat, ds: spec_fn(int) -> Seq<u8>)
    requires shows(k, i, e), k == h || k is Any && any_class(h)
    ensures
        filled_in(i, n, ds) is Odd || fill_ev(byte_class(h), e, n, ds) is Bad || shows(h, filled_in(i, n, ds), fill_ev(byte_class(h), e, n, ds)),
        fill_ev(byte_class(h), e, n, ds) is Odd ==> filled_in(i, n, ds) is Odd,
{
    assert(filled_in(i, n, ds) is Odd || !(i is Odd));
    match i {
        In::Arr(xs) => { assert(filled_in(i, n, ds)->Arr_0 =~= fill_each(xs, n, ds)); },
        In::Obj(ks, vs) => { if hole_of(ks, vs, n, ds) is None { assert(filled_in(i, n, ds)->Obj_1 =~= fill_each(vs, n, ds)); } },
        _ => {}
    }
}
''')
open(os.path.join(ROOT, 'contracts/ext/deserializer.rs'), 'w').write('\n'.join(o))
