global size_of usize == 8;
// Shared specification vocabulary and trusted contracts of std items.
use vstd::prelude::*;
pub use vstd::string::*;
pub use vstd::utf8::*;
use std::ops::{Range, RangeFrom, RangeTo, RangeFull};

// ---------------------------------------------------------------------- panics
/// every `panic!`/`assert!`/`unreachable!` of the source: an obligation that it cannot be reached
#[verifier::external_body]
pub fn vp_panic() -> !
    requires false,
{ unimplemented!() }

// ---------------------------------------------------------------------- text as bytes
pub open spec fn utf8(s: Seq<char>) -> Seq<u8> { encode_utf8(s) }

pub proof fn lemma_bnd_step(b: Seq<u8>, i: int)
    requires valid_utf8(b), 0 <= i < b.len(), b[i] < 128, is_char_boundary(b, i)
    ensures is_char_boundary(b, i + 1)
    decreases b.len()
{
    reveal_with_fuel(is_char_boundary, 3);
    if i > 0 { let l = length_of_first_scalar(b); lemma_bnd_step(pop_first_scalar(b), i - l); }
}
pub broadcast proof fn lemma_bnd(s: Seq<char>, i: int)
    ensures
        i == 0 || i == encode_utf8(s).len() ==> #[trigger] is_char_boundary(encode_utf8(s), i),
        0 <= i < encode_utf8(s).len() && encode_utf8(s)[i] < 128 ==> is_char_boundary(encode_utf8(s), i),
        0 < i <= encode_utf8(s).len() && encode_utf8(s)[i - 1] < 128 ==> is_char_boundary(encode_utf8(s), i),
{
    let b = encode_utf8(s);
    encode_utf8_valid_utf8(s);
    is_char_boundary_start_end_of_seq(b);
    if 0 <= i < b.len() && b[i] < 128 {
        is_char_boundary_iff_not_is_continuation_byte(b, i);
        let x = b[i];
        assert(x & 0xc0u8 != 0x80u8) by (bit_vector) requires x < 128u8;
    }
    if 0 < i <= b.len() && b[i - 1] < 128 {
        is_char_boundary_iff_not_is_continuation_byte(b, i - 1);
        let x = b[i - 1];
        assert(x & 0xc0u8 != 0x80u8) by (bit_vector) requires x < 128u8;
        lemma_bnd_step(b, i - 1);
    }
}
pub proof fn lemma_utf8_inj(a: Seq<char>, b: Seq<char>)
    requires utf8(a) == utf8(b)
    ensures a == b
{ encode_utf8_decode_utf8(a); encode_utf8_decode_utf8(b); }
pub broadcast proof fn lemma_utf8_dec(a: Seq<char>)
    ensures decode_utf8(#[trigger] encode_utf8(a)) == a
{ encode_utf8_decode_utf8(a); }
pub broadcast proof fn lemma_utf8_push(a: Seq<char>, c: char)
    ensures #[trigger] encode_utf8(a.push(c)) == encode_utf8(a) + encode_utf8(seq![c])
{ encode_utf8_concat(a, seq![c]); assert(a.push(c) =~= a + seq![c]); }
pub broadcast proof fn lemma_utf8_ascii1(c: char)
    ensures (c as u32) < 128 ==> #[trigger] encode_utf8(seq![c]) == seq![c as u8]
{ if (c as u32) < 128 { lemma_ascii1(c); } }
pub broadcast proof fn lemma_utf8_empty(a: Seq<char>)
    ensures (#[trigger] encode_utf8(a)).len() == 0 <==> a.len() == 0
{ if a.len() == 0 { lemma_ascii(a); } else if encode_utf8(a).len() == 0 { encode_utf8_decode_utf8(a); lemma_ascii(Seq::<char>::empty()); encode_utf8_decode_utf8(Seq::<char>::empty()); assert(encode_utf8(a) =~= encode_utf8(Seq::<char>::empty())); } }
pub broadcast proof fn lemma_utf8_add(a: Seq<char>, b: Seq<char>)
    ensures #[trigger] encode_utf8(a + b) == encode_utf8(a) + encode_utf8(b)
{ encode_utf8_concat(a, b); }
pub proof fn lemma_ascii(a: Seq<char>)
    requires forall|i: int| 0 <= i < a.len() ==> (a[i] as u32) < 128
    ensures utf8(a).len() == a.len(), forall|i: int| 0 <= i < a.len() ==> utf8(a)[i] == a[i] as u8
{ assert(is_ascii_chars(a)); is_ascii_chars_encode_utf8(a); }
pub proof fn lemma_ascii1(c: char)
    requires (c as u32) < 128
    ensures utf8(seq![c]) == seq![c as u8]
{ lemma_ascii(seq![c]); assert(utf8(seq![c]) =~= seq![c as u8]); }

/// strings are their texts
pub broadcast axiom fn axiom_str_ext(a: &str, b: &str)
    ensures #![trigger a@, b@] a@ == b@ ==> a == b;
pub proof fn lemma_lit(l: Seq<char>, b: Seq<u8>)
    requires l.len() == b.len(), forall|i: int| 0 <= i < l.len() ==> (l[i] as u32) < 128 && b[i] == l[i] as u8
    ensures utf8(l) == b, forall|s: Seq<char>| #[trigger] utf8(s) =~= b ==> s == l
{
    assert forall|i: int| 0 <= i < l.len() implies (l[i] as u32) < 128 by { let x = b[i]; }
    lemma_ascii(l);
    assert(utf8(l) =~= b);
    assert forall|s: Seq<char>| #[trigger] utf8(s) =~= b implies s == l by { lemma_utf8_inj(s, l); }
}

pub broadcast proof fn lemma_bytes_eq(a: &[u8], b: &[u8])
    ensures #[trigger] <[u8] as vstd::std_specs::cmp::PartialEqSpec<[u8]>>::eq_spec(a, b) == (a@ == b@)
{ assert(a@ == b@ <==> a@ =~= b@); }
pub broadcast proof fn lemma_utf8_cat(a: Seq<char>, b: Seq<char>)
    ensures #[trigger] (encode_utf8(a) + encode_utf8(b)) == encode_utf8(a + b)
{ encode_utf8_concat(a, b); }
pub broadcast proof fn lemma_utf8_valid(a: Seq<char>)
    ensures valid_utf8(#[trigger] encode_utf8(a))
{ encode_utf8_valid_utf8(a); }
pub broadcast proof fn lemma_span_prefix<T>(a: Seq<T>, b: Seq<T>, n: int)
    ensures n == a.len() ==> #[trigger] span(a + b, 0, n) == a
{ if n == a.len() { assert(span(a + b, 0, n) =~= a); } }
pub broadcast proof fn lemma_four(s: Seq<char>)
    ensures s.len() > 0 && s[0] == '4' ==> (#[trigger] encode_utf8(s)).len() > 0 && encode_utf8(s)[0] == 52
{
    if s.len() > 0 && s[0] == '4' {
        let t = s.subrange(1, s.len() as int);
        assert(s =~= seq!['4'] + t);
        lemma_utf8_add(seq!['4'], t);
        lemma_ascii1('4');
    }
}
pub broadcast proof fn lemma_utf8_push_byte(a: Seq<char>, b: u8)
    ensures b < 128 ==> #[trigger] encode_utf8(a).push(b) == encode_utf8(a.push(b as char))
{
    if b < 128 {
        lemma_utf8_push(a, b as char);
        lemma_ascii1(b as char);
        assert(encode_utf8(a).push(b) =~= encode_utf8(a) + seq![b]);
    }
}
/// a vector of bytes takes at most isize::MAX bytes
pub broadcast axiom fn axiom_bytes_len(v: Vec<u8>)
    ensures (#[trigger] v@).len() <= isize::MAX;
/// for code that assembles text as bytes
pub broadcast group group_cat {
    axiom_bytes_len,
    lemma_four,
    lemma_span_prefix,
    lemma_utf8_cat, lemma_utf8_valid, lemma_utf8_dec, lemma_utf8_push,
}
pub broadcast group group_utf8 {
    axiom_bytes_len,
    lemma_bytes_eq,
    lemma_bnd, lemma_utf8_dec, lemma_utf8_push, lemma_utf8_ascii1, lemma_utf8_empty, lemma_utf8_add,
}

// ---------------------------------------------------------------------- decimal numbers
pub open spec fn dec(n: nat) -> Seq<char>
    decreases n
{
    if n < 10 { seq![(48 + n) as u8 as char] } else { dec(n / 10).push((48 + n % 10) as u8 as char) }
}
pub open spec fn is_digit(b: u8) -> bool { 48 <= b <= 57 }
pub open spec fn dec_value(b: Seq<u8>) -> nat
    decreases b.len()
{
    if b.len() == 0 { 0 } else { dec_value(b.drop_last()) * 10 + (b.last() - 48) as nat }
}

// ---------------------------------------------------------------------- formatting
pub trait VpDisplay {
    spec fn disp(&self) -> Seq<char>;
    /// what formatting it needs in order not to panic
    open spec fn disp_ok(&self) -> bool { true }
}
impl VpDisplay for char { open spec fn disp(&self) -> Seq<char> { seq![*self] } }
impl VpDisplay for str { open spec fn disp(&self) -> Seq<char> { self@ } }
impl VpDisplay for String { open spec fn disp(&self) -> Seq<char> { self@ } }
impl VpDisplay for u64 { open spec fn disp(&self) -> Seq<char> { dec(*self as nat) } }
impl VpDisplay for usize { open spec fn disp(&self) -> Seq<char> { dec(*self as nat) } }
impl VpDisplay for u32 { open spec fn disp(&self) -> Seq<char> { dec(*self as nat) } }
impl VpDisplay for u8 { open spec fn disp(&self) -> Seq<char> { dec(*self as nat) } }
impl<'a, T: VpDisplay + ?Sized> VpDisplay for &'a T { open spec fn disp(&self) -> Seq<char> { (**self).disp() } }
/// str == str
#[verifier::external_body]
pub fn vp_str_eq(a: &str, b: &str) -> (r: bool)
    ensures r == (a@ == b@)
{ unimplemented!() }
#[verifier::external_body]
pub fn vp_put_disp<T: VpDisplay>(s: &mut String, x: &T)
    ensures final(s)@ == old(s)@ + x.disp()
{ unimplemented!() }
#[verifier::external_body]
pub fn vp_put_str(s: &mut String, x: &str)
    ensures final(s)@ == old(s)@ + x@
{ unimplemented!() }
#[verifier::external_body]
pub fn vp_put_any<T>(s: &mut String, x: &T)
{ unimplemented!() }
pub trait VpToString {
    spec fn to_string_spec(&self) -> Seq<char>;
    fn vp_to_string(&self) -> (r: String)
        ensures r@ == self.to_string_spec();
}
impl<T: VpDisplay + ?Sized> VpToString for T {
    open spec fn to_string_spec(&self) -> Seq<char> { self.disp() }
    #[verifier::external_body]
    fn vp_to_string(&self) -> (r: String) { unimplemented!() }
}

// ---------------------------------------------------------------------- slicing by ranges
pub open spec fn span<T>(s: Seq<T>, a: int, b: int) -> Seq<T> { s.subrange(a, b) }
pub trait VpIndex<R> {
    type Out: ?Sized;
    spec fn idx_ok(&self, r: R) -> bool;
    spec fn idx_is(&self, r: R, o: &Self::Out) -> bool;
    /// `&self[r]`
    fn vp_index(&self, r: R) -> (o: &Self::Out)
        requires self.idx_ok(r)
        ensures self.idx_is(r, o);
    /// `&self[r]` where a panic is the documented outcome of a bad range (reading an OwnedSubslice)
    fn vp_read(&self, r: R) -> (o: &Self::Out)
        ensures self.idx_ok(r), self.idx_is(r, o);
}
pub open spec fn str_ok(b: Seq<u8>, s: int, e: int) -> bool {
    0 <= s <= e <= b.len() && is_char_boundary(b, s) && is_char_boundary(b, e)
}
impl VpIndex<Range<usize>> for str {
    type Out = str;
    open spec fn idx_ok(&self, r: Range<usize>) -> bool { str_ok(utf8(self@), r.start as int, r.end as int) }
    open spec fn idx_is(&self, r: Range<usize>, o: &str) -> bool { utf8(o@) == span(utf8(self@), r.start as int, r.end as int) }
    #[verifier::external_body]
    fn vp_index(&self, r: Range<usize>) -> (o: &str) { unimplemented!() }
    #[verifier::external_body]
    fn vp_read(&self, r: Range<usize>) -> (o: &str) { unimplemented!() }
}
impl VpIndex<RangeFrom<usize>> for str {
    type Out = str;
    open spec fn idx_ok(&self, r: RangeFrom<usize>) -> bool { str_ok(utf8(self@), r.start as int, utf8(self@).len() as int) }
    open spec fn idx_is(&self, r: RangeFrom<usize>, o: &str) -> bool { utf8(o@) == span(utf8(self@), r.start as int, utf8(self@).len() as int) }
    #[verifier::external_body]
    fn vp_index(&self, r: RangeFrom<usize>) -> (o: &str) { unimplemented!() }
    #[verifier::external_body]
    fn vp_read(&self, r: RangeFrom<usize>) -> (o: &str) { unimplemented!() }
}
impl VpIndex<RangeTo<usize>> for str {
    type Out = str;
    open spec fn idx_ok(&self, r: RangeTo<usize>) -> bool { str_ok(utf8(self@), 0, r.end as int) }
    open spec fn idx_is(&self, r: RangeTo<usize>, o: &str) -> bool { utf8(o@) == span(utf8(self@), 0, r.end as int) }
    #[verifier::external_body]
    fn vp_index(&self, r: RangeTo<usize>) -> (o: &str) { unimplemented!() }
    #[verifier::external_body]
    fn vp_read(&self, r: RangeTo<usize>) -> (o: &str) { unimplemented!() }
}
impl VpIndex<RangeFull> for str {
    type Out = str;
    open spec fn idx_ok(&self, r: RangeFull) -> bool { true }
    open spec fn idx_is(&self, r: RangeFull, o: &str) -> bool { o@ == self@ }
    #[verifier::external_body]
    fn vp_index(&self, r: RangeFull) -> (o: &str) { unimplemented!() }
    #[verifier::external_body]
    fn vp_read(&self, r: RangeFull) -> (o: &str) { unimplemented!() }
}
impl VpIndex<Range<usize>> for String {
    type Out = str;
    open spec fn idx_ok(&self, r: Range<usize>) -> bool { str_ok(utf8(self@), r.start as int, r.end as int) }
    open spec fn idx_is(&self, r: Range<usize>, o: &str) -> bool { utf8(o@) == span(utf8(self@), r.start as int, r.end as int) }
    #[verifier::external_body]
    fn vp_index(&self, r: Range<usize>) -> (o: &str) { unimplemented!() }
    #[verifier::external_body]
    fn vp_read(&self, r: Range<usize>) -> (o: &str) { unimplemented!() }
}
impl VpIndex<RangeFrom<usize>> for String {
    type Out = str;
    open spec fn idx_ok(&self, r: RangeFrom<usize>) -> bool { str_ok(utf8(self@), r.start as int, utf8(self@).len() as int) }
    open spec fn idx_is(&self, r: RangeFrom<usize>, o: &str) -> bool { utf8(o@) == span(utf8(self@), r.start as int, utf8(self@).len() as int) }
    #[verifier::external_body]
    fn vp_index(&self, r: RangeFrom<usize>) -> (o: &str) { unimplemented!() }
    #[verifier::external_body]
    fn vp_read(&self, r: RangeFrom<usize>) -> (o: &str) { unimplemented!() }
}
impl VpIndex<RangeTo<usize>> for String {
    type Out = str;
    open spec fn idx_ok(&self, r: RangeTo<usize>) -> bool { str_ok(utf8(self@), 0, r.end as int) }
    open spec fn idx_is(&self, r: RangeTo<usize>, o: &str) -> bool { utf8(o@) == span(utf8(self@), 0, r.end as int) }
    #[verifier::external_body]
    fn vp_index(&self, r: RangeTo<usize>) -> (o: &str) { unimplemented!() }
    #[verifier::external_body]
    fn vp_read(&self, r: RangeTo<usize>) -> (o: &str) { unimplemented!() }
}
impl VpIndex<RangeFull> for String {
    type Out = str;
    open spec fn idx_ok(&self, r: RangeFull) -> bool { true }
    open spec fn idx_is(&self, r: RangeFull, o: &str) -> bool { o@ == self@ }
    #[verifier::external_body]
    fn vp_index(&self, r: RangeFull) -> (o: &str) { unimplemented!() }
    #[verifier::external_body]
    fn vp_read(&self, r: RangeFull) -> (o: &str) { unimplemented!() }
}
impl<T> VpIndex<Range<usize>> for [T] {
    type Out = [T];
    open spec fn idx_ok(&self, r: Range<usize>) -> bool { r.start <= r.end <= self@.len() }
    open spec fn idx_is(&self, r: Range<usize>, o: &[T]) -> bool { o@ == span(self@, r.start as int, r.end as int) }
    #[verifier::external_body]
    fn vp_index(&self, r: Range<usize>) -> (o: &[T]) { unimplemented!() }
    #[verifier::external_body]
    fn vp_read(&self, r: Range<usize>) -> (o: &[T]) { unimplemented!() }
}
impl<T> VpIndex<RangeFrom<usize>> for [T] {
    type Out = [T];
    open spec fn idx_ok(&self, r: RangeFrom<usize>) -> bool { r.start <= self@.len() }
    open spec fn idx_is(&self, r: RangeFrom<usize>, o: &[T]) -> bool { o@ == span(self@, r.start as int, self@.len() as int) }
    #[verifier::external_body]
    fn vp_index(&self, r: RangeFrom<usize>) -> (o: &[T]) { unimplemented!() }
    #[verifier::external_body]
    fn vp_read(&self, r: RangeFrom<usize>) -> (o: &[T]) { unimplemented!() }
}
impl<T> VpIndex<RangeTo<usize>> for [T] {
    type Out = [T];
    open spec fn idx_ok(&self, r: RangeTo<usize>) -> bool { r.end <= self@.len() }
    open spec fn idx_is(&self, r: RangeTo<usize>, o: &[T]) -> bool { o@ == span(self@, 0, r.end as int) }
    #[verifier::external_body]
    fn vp_index(&self, r: RangeTo<usize>) -> (o: &[T]) { unimplemented!() }
    #[verifier::external_body]
    fn vp_read(&self, r: RangeTo<usize>) -> (o: &[T]) { unimplemented!() }
}
impl<T> VpIndex<RangeFull> for [T] {
    type Out = [T];
    open spec fn idx_ok(&self, r: RangeFull) -> bool { true }
    open spec fn idx_is(&self, r: RangeFull, o: &[T]) -> bool { o@ == self@ }
    #[verifier::external_body]
    fn vp_index(&self, r: RangeFull) -> (o: &[T]) { unimplemented!() }
    #[verifier::external_body]
    fn vp_read(&self, r: RangeFull) -> (o: &[T]) { unimplemented!() }
}
impl<T> VpIndex<Range<usize>> for Vec<T> {
    type Out = [T];
    open spec fn idx_ok(&self, r: Range<usize>) -> bool { r.start <= r.end <= self@.len() }
    open spec fn idx_is(&self, r: Range<usize>, o: &[T]) -> bool { o@ == span(self@, r.start as int, r.end as int) }
    #[verifier::external_body]
    fn vp_index(&self, r: Range<usize>) -> (o: &[T]) { unimplemented!() }
    #[verifier::external_body]
    fn vp_read(&self, r: Range<usize>) -> (o: &[T]) { unimplemented!() }
}
impl<T> VpIndex<RangeFrom<usize>> for Vec<T> {
    type Out = [T];
    open spec fn idx_ok(&self, r: RangeFrom<usize>) -> bool { r.start <= self@.len() }
    open spec fn idx_is(&self, r: RangeFrom<usize>, o: &[T]) -> bool { o@ == span(self@, r.start as int, self@.len() as int) }
    #[verifier::external_body]
    fn vp_index(&self, r: RangeFrom<usize>) -> (o: &[T]) { unimplemented!() }
    #[verifier::external_body]
    fn vp_read(&self, r: RangeFrom<usize>) -> (o: &[T]) { unimplemented!() }
}
impl<T> VpIndex<RangeFull> for Vec<T> {
    type Out = [T];
    open spec fn idx_ok(&self, r: RangeFull) -> bool { true }
    open spec fn idx_is(&self, r: RangeFull, o: &[T]) -> bool { o@ == self@ }
    #[verifier::external_body]
    fn vp_index(&self, r: RangeFull) -> (o: &[T]) { unimplemented!() }
    #[verifier::external_body]
    fn vp_read(&self, r: RangeFull) -> (o: &[T]) { unimplemented!() }
}

/// `&mut self[r]` where a panic is the documented outcome of a bad range
pub trait VpIndexMut {
    type Out: ?Sized;
    spec fn mpre(&self, r: Range<usize>) -> bool;
    spec fn mread(&self, r: Range<usize>, o: &Self::Out) -> bool;
    spec fn mpost(&self, r: Range<usize>, o: &Self::Out, after: &Self) -> bool;
    fn vp_write(&mut self, r: Range<usize>) -> (o: &mut Self::Out)
        ensures old(self).mpre(r), old(self).mread(r, &*o), old(self).mpost(r, &*final(o), &*final(self));
}
impl<T> VpIndexMut for Vec<T> {
    type Out = [T];
    open spec fn mpre(&self, r: Range<usize>) -> bool { r.start <= r.end <= self@.len() }
    open spec fn mread(&self, r: Range<usize>, o: &[T]) -> bool { o@ == span(self@, r.start as int, r.end as int) }
    open spec fn mpost(&self, r: Range<usize>, o: &[T], after: &Self) -> bool {
        after@ == span(self@, 0, r.start as int) + o@ + span(self@, r.end as int, self@.len() as int)
    }
    #[verifier::external_body]
    fn vp_write(&mut self, r: Range<usize>) -> (o: &mut [T]) { unimplemented!() }
}

// ---------------------------------------------------------------------- std
pub assume_specification [std::string::String::as_bytes] (s: &std::string::String) -> (r: &[u8])
    ensures r@ == encode_utf8(s@);
pub assume_specification [std::string::String::len] (s: &std::string::String) -> (r: usize)
    ensures r as int == encode_utf8(s@).len();
pub assume_specification [std::string::String::into_bytes] (s: std::string::String) -> (r: std::vec::Vec<u8>)
    ensures r@ == encode_utf8(s@);
pub assume_specification<T> [<[T]>::to_vec] (s: &[T]) -> (r: std::vec::Vec<T>) where T: Clone,
    ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> cloned(#[trigger] s@[i], r@[i]);
/// no allocation of bytes exceeds isize::MAX (Rust guarantees it)
pub axiom fn axiom_byte_slice_len(s: &[u8])
    ensures s@.len() <= isize::MAX;
pub axiom fn axiom_str_len(s: &str)
    ensures utf8(s@).len() <= isize::MAX;
pub axiom fn axiom_string_from_str()
    ensures
        forall|s: &str| (#[trigger] <String as vstd::std_specs::convert::FromSpec<&str>>::from_spec(s))@ == s@,
        <String as vstd::std_specs::convert::FromSpec<&str>>::obeys_from_spec();
pub assume_specification<T> [std::cmp::min] (a: T, b: T) -> (r: T) where T: std::cmp::Ord + std::marker::Destruct,
    ensures <T as vstd::std_specs::cmp::OrdSpec>::obeys_cmp_spec() ==>
        r == (if vstd::std_specs::cmp::OrdSpec::cmp_spec(&a, &b) is Greater { b } else { a });
pub assume_specification<T> [std::cmp::max] (a: T, b: T) -> (r: T) where T: std::cmp::Ord + std::marker::Destruct,
    ensures <T as vstd::std_specs::cmp::OrdSpec>::obeys_cmp_spec() ==>
        r == (if vstd::std_specs::cmp::OrdSpec::cmp_spec(&a, &b) is Greater { a } else { b });

pub assume_specification<Idx: Clone> [<Range<Idx> as Clone>::clone] (r: &Range<Idx>) -> (o: Range<Idx>)
    ensures cloned(r.start, o.start), cloned(r.end, o.end);
/// `v.resize_with(n, || panic!(..))`: growing would panic
pub trait VpResize {
    type E;
    spec fn items(&self) -> Seq<Self::E>;
    fn vp_resize_with_panic(&mut self, n: usize)
        requires n <= old(self).items().len(),
        ensures final(self).items() == span(old(self).items(), 0, n as int);
}
impl<T> VpResize for Vec<T> {
    type E = T;
    open spec fn items(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vp_resize_with_panic(&mut self, n: usize) { unimplemented!() }
}
pub assume_specification [std::string::String::from_utf8_unchecked] (v: std::vec::Vec<u8>) -> (r: std::string::String)
    requires valid_utf8(v@)
    ensures encode_utf8(r@) == v@;

// `vec![..]` of a few elements
pub fn vp_vec1<T>(a: T) -> (r: Vec<T>)
    ensures r@ == seq![a]
{ let mut v = Vec::new(); v.push(a); assert(v@ =~= seq![a]); v }
pub fn vp_vec2<T>(a: T, b: T) -> (r: Vec<T>)
    ensures r@ == seq![a, b]
{ let mut v = Vec::new(); v.push(a); v.push(b); assert(v@ =~= seq![a, b]); v }
pub fn vp_vec3<T>(a: T, b: T, c: T) -> (r: Vec<T>)
    ensures r@ == seq![a, b, c]
{ let mut v = Vec::new(); v.push(a); v.push(b); v.push(c); assert(v@ =~= seq![a, b, c]); v }

/// the target of `.collect()` out of an iterator of results
pub trait VpColl<T>: Sized {
    spec fn coll_is(v: Seq<T>, c: Self) -> bool;
    fn vp_coll_from(v: Vec<T>) -> (c: Self)
        ensures Self::coll_is(v@, c);
}
impl<T> VpColl<T> for Vec<T> {
    open spec fn coll_is(v: Seq<T>, c: Self) -> bool { c@ == v }
    fn vp_coll_from(v: Vec<T>) -> (c: Self) { v }
}
impl VpColl<()> for () {
    open spec fn coll_is(v: Seq<()>, c: Self) -> bool { true }
    fn vp_coll_from(v: Vec<()>) -> (c: Self) { }
}
pub fn vp_coll<T, C: VpColl<T>>(v: Vec<T>) -> (c: C)
    ensures C::coll_is(v@, c)
{ C::vp_coll_from(v) }

// ---------------------------------------------------------------------- parsing numbers
pub open spec fn all_digits(b: Seq<u8>) -> bool { b.len() > 0 && forall|i: int| 0 <= i < b.len() ==> is_digit(#[trigger] b[i]) }
#[verifier::external_body]
#[derive(Debug)]
pub struct VpParseErr {}
pub trait VpParsed: Sized {
    spec fn max() -> nat;
    spec fn num(self) -> nat;
}
impl VpParsed for u64 { open spec fn max() -> nat { u64::MAX as nat } open spec fn num(self) -> nat { self as nat } }
impl VpParsed for u32 { open spec fn max() -> nat { u32::MAX as nat } open spec fn num(self) -> nat { self as nat } }
impl VpParsed for u16 { open spec fn max() -> nat { u16::MAX as nat } open spec fn num(self) -> nat { self as nat } }
impl VpParsed for usize { open spec fn max() -> nat { usize::MAX as nat } open spec fn num(self) -> nat { self as nat } }
pub trait VpParse {
    /// `str::parse` to an unsigned integer, on digit strings
    fn vp_parse<T: VpParsed>(&self) -> (r: Result<T, VpParseErr>);
}
impl VpParse for str {
    #[verifier::external_body]
    fn vp_parse<T: VpParsed>(&self) -> (r: Result<T, VpParseErr>)
        ensures
            all_digits(utf8(self@)) ==> (r is Ok <==> dec_value(utf8(self@)) <= T::max()),
            all_digits(utf8(self@)) && r is Ok ==> r->Ok_0.num() == dec_value(utf8(self@)),
    { unimplemented!() }
}
/// addresses of texts (only differences within one text matter)
pub uninterp spec fn str_addr(s: &str) -> int;
pub trait VpAddr {
    fn vp_addr(&self) -> usize;
}
impl VpAddr for str {
    #[verifier::external_body]
    fn vp_addr(&self) -> (r: usize)
        ensures r as int == str_addr(self)
    { unimplemented!() }
}

/// Vec::with_capacity: more than isize::MAX is a panic
#[verifier::external_body]
pub fn vp_vec_cap<T>(n: usize) -> (r: Vec<T>)
    requires n <= 0x8000_0000_0000_0000
    ensures r@.len() == 0
{ unimplemented!() }
#[verifier::external_body]
pub fn vp_string_cap(n: usize) -> (r: String)
    requires n <= 0x8000_0000_0000_0000
    ensures r@.len() == 0
{ unimplemented!() }
/// nothing in memory is longer than isize::MAX (elements without a size do not occur here)
pub broadcast axiom fn axiom_vec_fits<T>(v: Vec<T>)
    ensures (#[trigger] v@).len() <= isize::MAX;
pub broadcast axiom fn axiom_slice_fits<T>(v: &[T])
    ensures (#[trigger] v@).len() <= isize::MAX;
pub broadcast axiom fn axiom_str_fits(s: &str)
    ensures utf8(#[trigger] s@).len() <= isize::MAX;
pub broadcast axiom fn axiom_string_fits(s: String)
    ensures utf8(#[trigger] s@).len() <= isize::MAX;
pub broadcast group group_fits { axiom_vec_fits, axiom_slice_fits, axiom_str_fits, axiom_string_fits }
/// no slice of non-zero-sized elements is longer than isize::MAX
pub axiom fn axiom_slice_len(v: &[Range<usize>])
    ensures v@.len() <= isize::MAX;

/// a piece of a text between character boundaries is a text, and its boundaries are boundaries of the whole
pub proof fn lemma_sub_valid(b: Seq<u8>, s: int, e: int)
    requires valid_utf8(b), str_ok(b, s, e)
    ensures valid_utf8(span(b, s, e))
{
    valid_utf8_split(b, s);
    let t = b.subrange(s, b.len() as int);
    if e < b.len() {
        is_char_boundary_iff_not_is_continuation_byte(b, e);
        is_char_boundary_iff_not_is_continuation_byte(t, e - s);
    } else { is_char_boundary_start_end_of_seq(t); }
    valid_utf8_split(t, e - s);
    assert(span(b, s, e) =~= t.subrange(0, e - s));
}
pub proof fn lemma_sub_bnd(b: Seq<u8>, s: int, e: int, j: int)
    requires valid_utf8(b), str_ok(b, s, e), is_char_boundary(span(b, s, e), j)
    ensures is_char_boundary(b, s + j)
{
    let t = span(b, s, e);
    lemma_sub_valid(b, s, e);
    if j == t.len() {} else if 0 <= j < t.len() {
        is_char_boundary_iff_not_is_continuation_byte(t, j);
        is_char_boundary_iff_not_is_continuation_byte(b, s + j);
    } else { reveal_with_fuel(is_char_boundary, 3); }
}
pub proof fn lemma_ascii_bnd(b: Seq<u8>, i: int)
    requires valid_utf8(b), 0 <= i < b.len(), b[i] < 128
    ensures is_char_boundary(b, i)
{ decode_utf8_encode_utf8(b); lemma_bnd(decode_utf8(b), i); }
