// needs: serde
use crate::ext::serde::{In, whole, json_tree};
// std::borrow::Cow, at str (the only use in /repo)
pub enum Cow<'a, B: ?Sized> { Borrowed(&'a B), Owned(String) }
impl<'a> View for Cow<'a, str> {
    type V = Seq<char>;
    open spec fn view(&self) -> Seq<char> {
        match *self { Cow::Borrowed(s) => s@, Cow::Owned(s) => s@ }
    }
}
impl<'a> Cow<'a, str> {
    #[verifier::external_body]
    pub fn into_owned(self) -> (r: String)
        ensures r@ == self@
    { unimplemented!() }
}
impl<'a> core::ops::Deref for Cow<'a, str> {
    type Target = str;
    #[verifier::external_body]
    fn deref(&self) -> (r: &str)
        ensures r@ == self@
    { unimplemented!() }
}
/// the string that a JSON text denotes, if it denotes one
pub open spec fn str_de(t: Seq<char>) -> Option<Seq<char>> {
    if whole(t) { match json_tree(t) { In::Str(s) => Some(s), _ => None } } else { None }
}
impl<'de, 'a> crate::ext::serde::Deserialize<'de> for Cow<'a, str> {
    open spec fn de_ok(t: Seq<char>) -> bool { str_de(t) is Some }
    open spec fn de_is(s: &str, r: Self) -> bool { str_de(s@) == Some(r@) }
    open spec fn reads(i: In, r: Self) -> bool {
        match i { In::Str(s) | In::Key(s) => r@ == s, In::Hole(b) => valid_utf8(b) && r@ == decode_utf8(b), In::Odd => true, _ => false }
    }
    open spec fn certain(i: In) -> bool { i is Str || i is Key }
}
/// the text a conversion into Cow yields
pub open spec fn into_view<'a, N: Into<Cow<'a, str>>>(n: N) -> Seq<char> {
    <N as vstd::std_specs::convert::IntoSpec<Cow<'a, str>>>::into_spec(n)@
}
/// the conversion is the value conversion the standard library documents
pub open spec fn into_obeys<'a, N: Into<Cow<'a, str>>>(n: N) -> bool {
    <N as vstd::std_specs::convert::IntoSpec<Cow<'a, str>>>::obeys_into_spec()
}

// std: From<&'a str> and From<String> keep the text
impl<'a> core::convert::From<&'a str> for Cow<'a, str> {
    #[verifier::external_body]
    fn from(s: &'a str) -> (r: Self) { Cow::Borrowed(s) }
}
impl<'a> vstd::std_specs::convert::FromSpecImpl<&'a str> for Cow<'a, str> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(s: &'a str) -> Self { Cow::Borrowed(s) }
}
impl<'a> core::convert::From<String> for Cow<'a, str> {
    #[verifier::external_body]
    fn from(s: String) -> (r: Self) { Cow::Owned(s) }
}
impl<'a> vstd::std_specs::convert::FromSpecImpl<String> for Cow<'a, str> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(s: String) -> Self { Cow::Owned(s) }
}
pub broadcast proof fn axiom_cow_str<'a>(n: &'a str)
    ensures #[trigger] into_obeys::<'a, &'a str>(n), into_view::<'a, &'a str>(n) == n@
{ }
pub broadcast proof fn axiom_cow_string<'a>(n: String)
    ensures #[trigger] into_obeys::<'a, String>(n), into_view::<'a, String>(n) == n@
{ }
/// the text a conversion into a String yields
pub open spec fn into_text<N: Into<String>>(n: N) -> Seq<char> { <N as vstd::std_specs::convert::IntoSpec<String>>::into_spec(n)@ }
pub open spec fn text_conv<N: Into<String>>(n: N) -> bool { <N as vstd::std_specs::convert::IntoSpec<String>>::obeys_into_spec() }
/// `s` is that text, where the conversion is a function of the value
pub open spec fn text_is<N: Into<String>>(n: N, s: Seq<char>) -> bool { text_conv(n) ==> s == into_text(n) }
pub broadcast proof fn lemma_text_str(n: &str, s: Seq<char>)
    ensures #[trigger] text_is::<&str>(n, s) ==> s == n@
{ axiom_string_from_str(); }
