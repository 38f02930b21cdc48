// needs: serde io
pub mod error {
    use vstd::prelude::*;
    #[verifier::external_body]
    #[derive(Debug)]
    pub struct Error {}
    pub type Result<T> = core::result::Result<T, Error>;
}
pub use error::Error;
pub use error::Result;
pub use value::Value;
pub use value::RawValue;
use crate::ext::serde::*;
#[verifier::external_body]
pub fn from_str<'a, T: Deserialize<'a>>(s: &'a str) -> (r: core::result::Result<T, Error>)
    ensures
        r is Ok <==> T::de_ok(s@),
        r is Ok ==> T::de_is(s, r->Ok_0),
{ unimplemented!() }
use crate::ext::io::Write;
/// serde_json::to_writer: on success exactly the JSON text; on failure possibly a part of it
#[verifier::external_body]
pub fn to_writer<W: Write, T: Serialize + ?Sized>(w: W, value: &T) -> (r: Result<()>)
    ensures
        w.linked() && r is Ok ==> w.fin() == w.put(utf8(value.json())),
        w.linked() && r is Err ==> exists|d: Seq<u8>| w.fin() == #[trigger] w.put(d),
        w.infallible() && value.total() ==> r is Ok,
{ unimplemented!() }

/// JSON numbers; only the exact unsigned value matters here
#[verifier::external_body]
pub struct Number {}
impl Number {
    pub uninterp spec fn as_u64_spec(&self) -> Option<u64>;
}
/// an object: its members in the order serde_json keeps them (keys are distinct)
pub struct Map { pub keys: Vec<String>, pub vals: Vec<Value> }
impl Map {
    pub open spec fn has(&self, k: Seq<char>) -> bool { exists|i: int| 0 <= i < self.keys@.len() && (#[trigger] self.keys@[i])@ == k }
    pub open spec fn index_of(&self, k: Seq<char>) -> int { choose|i: int| 0 <= i < self.keys@.len() && (#[trigger] self.keys@[i])@ == k }
    pub open spec fn at(&self, k: Seq<char>) -> Value { self.vals@[self.index_of(k)] }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &str) -> (r: bool)
        ensures r == self.has(k@)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &str) -> (r: Option<&Value>)
        ensures r is Some <==> self.has(k@), r is Some ==> *r->0 == self.at(k@)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize)
        ensures r == self.vals@.len() && r == self.keys@.len()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool)
        ensures r == (self.vals@.len() == 0) && r == (self.keys@.len() == 0)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn values_mut(&mut self) -> (r: core::slice::IterMut<'_, Value>)
        ensures
            final(self).keys == old(self).keys,
            vstd::std_specs::iter::IteratorSpec::remaining(&r).len() == old(self).vals@.len(),
            vstd::std_specs::iter::IteratorSpec::decrease(&r) is Some,
            final(self).vals@.len() == old(self).vals@.len(),
            forall|i: int| 0 <= i < old(self).vals@.len() ==> *(#[trigger] vstd::std_specs::iter::IteratorSpec::remaining(&r)[i]) == old(self).vals@[i],
            forall|i: int| 0 <= i < old(self).vals@.len() ==> *final(vstd::std_specs::iter::IteratorSpec::remaining(&r)[i]) == #[trigger] final(self).vals@[i],
    { unimplemented!() }
}
impl Value {
    pub open spec fn as_u64_spec(&self) -> Option<u64> { match *self { Value::Number(n) => n.as_u64_spec(), _ => None } }
    pub open spec fn byte(v: Value, b: u8) -> bool { v matches Value::Number(n) && n.as_u64_spec() == Some(b as u64) }
    #[verifier::external_body]
    pub fn as_u64(&self) -> (r: Option<u64>)
        ensures r == self.as_u64_spec()
    { unimplemented!() }
}
impl Value {
    pub fn is_null(&self) -> (r: bool)
        ensures r == (*self is Null)
    { match self { Value::Null => true, _ => false } }
    pub fn is_boolean(&self) -> (r: bool)
        ensures r == (*self is Bool)
    { match self { Value::Bool(_) => true, _ => false } }
    pub fn is_number(&self) -> (r: bool)
        ensures r == (*self is Number)
    { match self { Value::Number(_) => true, _ => false } }
    pub fn is_string(&self) -> (r: bool)
        ensures r == (*self is String)
    { match self { Value::String(_) => true, _ => false } }
    pub fn is_array(&self) -> (r: bool)
        ensures r == (*self is Array)
    { match self { Value::Array(_) => true, _ => false } }
    pub fn is_object(&self) -> (r: bool)
        ensures r == (*self is Object)
    { match self { Value::Object(_) => true, _ => false } }
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: Option<&str>)
        ensures r is Some <==> *self is String, r matches Some(s) ==> (*self matches Value::String(t) && t@ == s@)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn as_bool(&self) -> (r: Option<bool>)
        ensures r == match *self { Value::Bool(b) => Some(b), _ => None }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn as_i64(&self) -> (r: Option<i64>)
        ensures (r matches Some(n) && n >= 0) ==> self.as_u64_spec() == Some(r->0 as u64)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn as_f64(&self) -> (r: Option<f64>) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_u64(&self) -> (r: bool)
        ensures r == (self.as_u64_spec() is Some)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn as_array(&self) -> (r: Option<&Vec<Value>>)
        ensures r is Some <==> *self is Array, r matches Some(s) ==> *self == Value::Array(*s)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn as_object(&self) -> (r: Option<&Map>)
        ensures r is Some <==> *self is Object, r matches Some(s) ==> *self == Value::Object(*s)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &str) -> (r: Option<&Value>)
        ensures r is Some <==> (*self matches Value::Object(m) && m.has(k@)), r is Some ==> *r->0 == (*self)->Object_0.at(k@)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn take(&mut self) -> (r: Value)
        ensures r == *old(self), *final(self) is Null
    { unimplemented!() }
}
/// Rust's `==` on JSON values compares them without regard to the order of members
impl vstd::std_specs::cmp::PartialEqSpecImpl for Value {
    open spec fn obeys_eq_spec() -> bool { false }
    open spec fn eq_spec(&self, o: &Value) -> bool { *self == *o }
}
impl PartialEq for Value {
    #[verifier::external_body]
    fn eq(&self, o: &Value) -> (r: bool)
        ensures (r && *self is Bool) ==> *o == *self, *self is Bool && *o is Bool ==> r == (*self == *o)
    { unimplemented!() }
}
impl Clone for Value {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) { unimplemented!() }
}
#[verifier::external]
impl core::fmt::Debug for Value { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() } }
pub uninterp spec fn byte_number(b: u8) -> Value;
pub broadcast axiom fn axiom_byte_number(b: u8)
    ensures Value::byte(#[trigger] byte_number(b), b);
impl vstd::std_specs::convert::FromSpecImpl<u8> for Value {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: u8) -> Self { byte_number(v) }
}
impl From<u8> for Value {
    #[verifier::external_body]
    fn from(b: u8) -> (r: Self) { unimplemented!() }
}
impl VpDisplay for Value { uninterp spec fn disp(&self) -> Seq<char>; }
/// the value that a JSON text denotes (None: not representable, or no JSON)
pub uninterp spec fn value_de(t: Seq<char>) -> Option<Value>;
impl<'a> Deserialize<'a> for Value {
    open spec fn de_ok(t: Seq<char>) -> bool { value_de(t) is Some }
    open spec fn de_is(s: &str, r: Self) -> bool { value_de(s@) == Some(r) }
    uninterp spec fn reads(i: In, r: Self) -> bool;
}
pub mod value {
    use vstd::prelude::*;
    pub use super::Number;
    pub use super::Map;
    pub use super::raw::RawValue;
    pub enum Value { Null, Bool(bool), Number(Number), String(String), Array(Vec<Value>), Object(Map) }
}

/// the byte spans of the elements of a JSON array text (None: not the text of a JSON array)
pub uninterp spec fn json_elems(t: Seq<char>) -> Option<Seq<(int, int)>>;
pub axiom fn axiom_json_elems(t: Seq<char>)
    ensures json_elems(t) matches Some(v) ==> forall|i: int| 0 <= i < v.len() ==> str_ok(utf8(t), (#[trigger] v[i]).0, v[i].1) && v[i].0 < v[i].1
        && whole(decode_utf8(span(utf8(t), v[i].0, v[i].1)));
/// an unparsed piece of JSON text, and where it lies in the text it was borrowed from
pub mod raw {
    use vstd::prelude::*;
    use crate::prelude::*;
    #[verifier::external_body]
    pub struct RawValue {}
    #[verifier::external_body]
    pub struct RawStr {}
    impl RawValue {
        pub uninterp spec fn base(&self) -> int;
        pub uninterp spec fn text(&self) -> Seq<u8>;
        pub uninterp spec fn at(&self) -> (int, int);
        #[verifier::external_body]
        pub fn get(&self) -> (r: &RawStr)
            ensures r.base() == self.base(), r.text() == self.text(), r.at() == self.at()
        { unimplemented!() }
    }
    impl RawStr {
        pub uninterp spec fn base(&self) -> int;
        pub uninterp spec fn text(&self) -> Seq<u8>;
        pub uninterp spec fn at(&self) -> (int, int);
        #[verifier::external_body]
        pub fn vp_addr(&self) -> (r: usize)
            ensures r == self.base() + self.at().0
        { unimplemented!() }
        #[verifier::external_body]
        pub fn len(&self) -> (r: usize)
            ensures r == self.at().1 - self.at().0
        { unimplemented!() }
    }
    impl core::ops::Deref for RawStr {
        type Target = str;
        #[verifier::external_body]
        fn deref(&self) -> (r: &str)
            ensures utf8(r@) == span(self.text(), self.at().0, self.at().1)
        { unimplemented!() }
    }
    impl<'a> super::Deserialize<'a> for Vec<&'a RawValue> {
        open spec fn de_ok(t: Seq<char>) -> bool { super::json_elems(t) is Some }
        uninterp spec fn reads(i: super::In, r: Self) -> bool;
        open spec fn de_is(s: &str, r: Self) -> bool {
            &&& r@.len() == super::json_elems(s@)->0.len()
            &&& forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).base() == str_addr(s) && r@[i].text() == utf8(s@) && r@[i].at() == super::json_elems(s@)->0[i]
        }
    }
}
