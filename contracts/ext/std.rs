// Contracts of further std functions: so that code that uses them is decided and not set aside.
// (mem, Option, Result, numbers, characters, texts and vectors)
pub assume_specification<T> [std::mem::drop] (x: T);
pub assume_specification<T: std::default::Default> [std::mem::take] (x: &mut T) -> (r: T)
    ensures r == *old(x), T::default.ensures((), *final(x));
pub assume_specification<T> [std::mem::replace] (x: &mut T, y: T) -> (r: T)
    ensures r == *old(x), *final(x) == y;
pub assume_specification<T, U, F: FnOnce(T) -> U> [std::option::Option::<T>::map_or] (o: Option<T>, d: U, f: F) -> (r: U)
    where F: std::marker::Destruct, U: std::marker::Destruct,
    requires o is Some ==> f.requires((o->0,)),
    ensures o is None ==> r == d, o is Some ==> f.ensures((o->0,), r);
pub assume_specification<T, U, D: FnOnce() -> U, F: FnOnce(T) -> U> [std::option::Option::<T>::map_or_else] (o: Option<T>, d: D, f: F) -> (r: U)
    where F: std::marker::Destruct, D: std::marker::Destruct,
    requires o is Some ==> f.requires((o->0,)), o is None ==> d.requires(()),
    ensures o is None ==> d.ensures((), r), o is Some ==> f.ensures((o->0,), r);
pub assume_specification<T> [std::option::Option::<T>::or] (o: Option<T>, p: Option<T>) -> (r: Option<T>)
    where T: std::marker::Destruct,
    ensures r == (if o is Some { o } else { p });
pub assume_specification<T, F: FnOnce() -> Option<T>> [std::option::Option::<T>::or_else] (o: Option<T>, f: F) -> (r: Option<T>)
    where F: std::marker::Destruct, T: std::marker::Destruct,
    requires o is None ==> f.requires(()),
    ensures o is Some ==> r == o, o is None ==> f.ensures((), r);
pub assume_specification<T, F: FnOnce(&T) -> bool> [std::option::Option::<T>::filter] (o: Option<T>, f: F) -> (r: Option<T>)
    where F: std::marker::Destruct, T: std::marker::Destruct,
    requires o is Some ==> f.requires((&o->0,)),
    ensures o is None ==> r is None, r is Some ==> r == o && f.ensures((&o->0,), true), o is Some && r is None ==> f.ensures((&o->0,), false);
pub assume_specification<'a, T: Copy> [std::option::Option::<&'a T>::copied] (o: Option<&'a T>) -> (r: Option<T>)
    ensures o is None ==> r is None, o is Some ==> r == Some(*o->0);
pub assume_specification<T> [std::option::Option::<T>::replace] (o: &mut Option<T>, x: T) -> (r: Option<T>)
    ensures r == *old(o), *final(o) == Some(x);
pub assume_specification<T, F: FnOnce(T) -> bool> [std::option::Option::<T>::is_some_and] (o: Option<T>, f: F) -> (r: bool)
    where F: std::marker::Destruct,
    requires o is Some ==> f.requires((o->0,)),
    ensures o is None ==> !r, o is Some ==> f.ensures((o->0,), r);
pub assume_specification<T, F: FnOnce(T) -> bool> [std::option::Option::<T>::is_none_or] (o: Option<T>, f: F) -> (r: bool)
    where F: std::marker::Destruct,
    requires o is Some ==> f.requires((o->0,)),
    ensures o is None ==> r, o is Some ==> f.ensures((o->0,), r);
pub assume_specification<T> [std::option::Option::<T>::xor] (o: Option<T>, p: Option<T>) -> (r: Option<T>)
    where T: std::marker::Destruct,
    ensures r == (if o is Some && p is None { o } else if o is None && p is Some { p } else { None });
pub assume_specification<T, U> [std::option::Option::<T>::and] (o: Option<T>, p: Option<U>) -> (r: Option<U>)
    where T: std::marker::Destruct, U: std::marker::Destruct,
    ensures r == (if o is Some { p } else { None });
pub assume_specification<T, U> [std::option::Option::<T>::zip] (o: Option<T>, p: Option<U>) -> (r: Option<(T, U)>)
    where T: std::marker::Destruct, U: std::marker::Destruct,
    ensures r is Some <==> (o is Some && p is Some), r is Some ==> r == Some((o->0, p->0));
pub assume_specification<T, E, U, F: FnOnce(T) -> Result<U, E>> [std::result::Result::<T, E>::and_then] (o: Result<T, E>, f: F) -> (r: Result<U, E>)
    where F: std::marker::Destruct,
    requires o is Ok ==> f.requires((o->Ok_0,)),
    ensures o is Err ==> r is Err && r->Err_0 == o->Err_0, o is Ok ==> f.ensures((o->Ok_0,), r);
pub assume_specification<T, E, U, F: FnOnce(E) -> Result<T, U>> [std::result::Result::<T, E>::or_else] (o: Result<T, E>, f: F) -> (r: Result<T, U>)
    where F: std::marker::Destruct,
    requires o is Err ==> f.requires((o->Err_0,)),
    ensures o is Ok ==> r is Ok && r->Ok_0 == o->Ok_0, o is Err ==> f.ensures((o->Err_0,), r);
pub assume_specification<T, E> [std::result::Result::<T, E>::unwrap_or] (o: Result<T, E>, d: T) -> (r: T)
    where T: std::marker::Destruct, E: std::marker::Destruct,
    ensures r == (match o { Ok(x) => x, Err(_) => d });
pub assume_specification<T, E, F: FnOnce(E) -> T> [std::result::Result::<T, E>::unwrap_or_else] (o: Result<T, E>, f: F) -> (r: T)
    where F: std::marker::Destruct,
    requires o is Err ==> f.requires((o->Err_0,)),
    ensures o is Ok ==> r == o->Ok_0, o is Err ==> f.ensures((o->Err_0,), r);
pub assume_specification<T: std::default::Default, E> [std::result::Result::<T, E>::unwrap_or_default] (o: Result<T, E>) -> (r: T)
    where T: std::marker::Destruct, E: std::marker::Destruct,
    ensures o is Ok ==> r == o->Ok_0, o is Err ==> T::default.ensures((), r);
pub assume_specification<T, E, F: FnOnce(T) -> bool> [std::result::Result::<T, E>::is_ok_and] (o: Result<T, E>, f: F) -> (r: bool)
    where T: std::marker::Destruct, E: std::marker::Destruct, F: std::marker::Destruct,
    requires o is Ok ==> f.requires((o->Ok_0,)),
    ensures o is Err ==> !r, o is Ok ==> f.ensures((o->Ok_0,), r);
pub assume_specification<T> [bool::then_some] (b: bool, x: T) -> (r: Option<T>)
    where T: std::marker::Destruct,
    ensures r == (if b { Some(x) } else { None });
// numbers and characters
pub assume_specification [u8::is_ascii_digit] (c: &u8) -> (r: bool) ensures r == (48 <= *c <= 57);
pub assume_specification [u8::is_ascii] (c: &u8) -> (r: bool) ensures r == (*c < 128);
pub assume_specification [u8::is_ascii_whitespace] (c: &u8) -> (r: bool) ensures r == (*c == 32 || *c == 9 || *c == 10 || *c == 12 || *c == 13);
pub assume_specification [u8::is_ascii_alphabetic] (c: &u8) -> (r: bool) ensures r == (65 <= *c <= 90 || 97 <= *c <= 122);
pub assume_specification [u8::to_ascii_lowercase] (c: &u8) -> (r: u8) ensures r == (if 65 <= *c <= 90 { (*c + 32) as u8 } else { *c });
pub assume_specification [u8::to_ascii_uppercase] (c: &u8) -> (r: u8) ensures r == (if 97 <= *c <= 122 { (*c - 32) as u8 } else { *c });
pub assume_specification [char::is_ascii_digit] (c: &char) -> (r: bool) ensures r == ('0' <= *c <= '9');
pub assume_specification [char::is_numeric] (c: char) -> (r: bool) ensures '0' <= c <= '9' ==> r, (c as u32) < 128 && r ==> '0' <= c <= '9';
pub assume_specification [char::is_alphabetic] (c: char) -> (r: bool);
pub assume_specification [char::is_control] (c: char) -> (r: bool);
pub assume_specification [u64::abs_diff] (a: u64, b: u64) -> (r: u64) ensures r == (if a < b { b - a } else { a - b });
pub assume_specification [usize::abs_diff] (a: usize, b: usize) -> (r: usize) ensures r == (if a < b { b - a } else { a - b });
pub assume_specification [u64::overflowing_add] (a: u64, b: u64) -> (r: (u64, bool)) ensures r.1 == (a + b > u64::MAX), r.0 == (a + b) % 0x1_0000_0000_0000_0000;
// texts
pub uninterp spec fn vp_trim(s: Seq<char>, how: int) -> Seq<char>;
pub assume_specification [str::trim] (s: &str) -> (r: &str) ensures r@ == vp_trim(s@, 0);
pub assume_specification [str::trim_start] (s: &str) -> (r: &str) ensures r@ == vp_trim(s@, 1);
pub assume_specification [str::trim_end] (s: &str) -> (r: &str) ensures r@ == vp_trim(s@, 2);
pub assume_specification [str::eq_ignore_ascii_case] (s: &str, t: &str) -> (r: bool) ensures s@ == t@ ==> r;
pub uninterp spec fn vp_case(s: Seq<char>, how: int) -> Seq<char>;
pub assume_specification [str::to_lowercase] (s: &str) -> (r: std::string::String) ensures r@ == vp_case(s@, 0);
pub assume_specification [str::to_uppercase] (s: &str) -> (r: std::string::String) ensures r@ == vp_case(s@, 1);
pub assume_specification [str::to_ascii_lowercase] (s: &str) -> (r: std::string::String) ensures r@ == vp_case(s@, 2);
pub assume_specification [str::to_ascii_uppercase] (s: &str) -> (r: std::string::String) ensures r@ == vp_case(s@, 3);
pub assume_specification [str::repeat] (s: &str, n: usize) -> (r: std::string::String) ensures n == 0 ==> r@ == Seq::<char>::empty(), n == 1 ==> r@ == s@;
pub assume_specification [std::string::String::with_capacity] (n: usize) -> (r: std::string::String) ensures r@ == Seq::<char>::empty();
pub assume_specification [std::string::String::reserve] (s: &mut std::string::String, n: usize) ensures final(s)@ == old(s)@;
pub assume_specification [std::string::String::truncate] (s: &mut std::string::String, n: usize)
    requires n >= encode_utf8(old(s)@).len() || is_char_boundary(encode_utf8(old(s)@), n as int)
    ensures n >= encode_utf8(old(s)@).len() ==> final(s)@ == old(s)@, n < encode_utf8(old(s)@).len() ==> encode_utf8(final(s)@) == encode_utf8(old(s)@).subrange(0, n as int);
pub assume_specification [std::string::String::insert] (s: &mut std::string::String, i: usize, c: char)
    requires i <= encode_utf8(old(s)@).len(), is_char_boundary(encode_utf8(old(s)@), i as int)
    ensures encode_utf8(final(s)@) == encode_utf8(old(s)@).subrange(0, i as int) + encode_utf8(seq![c]) + encode_utf8(old(s)@).subrange(i as int, encode_utf8(old(s)@).len() as int);
pub assume_specification [std::string::String::insert_str] (s: &mut std::string::String, i: usize, t: &str)
    requires i <= encode_utf8(old(s)@).len(), is_char_boundary(encode_utf8(old(s)@), i as int)
    ensures encode_utf8(final(s)@) == encode_utf8(old(s)@).subrange(0, i as int) + encode_utf8(t@) + encode_utf8(old(s)@).subrange(i as int, encode_utf8(old(s)@).len() as int);
// vectors and slices
pub assume_specification<T> [<[T]>::reverse] (s: &mut [T]) ensures final(s)@ == old(s)@.reverse();
pub assume_specification<T> [<[T]>::swap] (s: &mut [T], a: usize, b: usize)
    requires a < old(s)@.len(), b < old(s)@.len()
    ensures final(s)@ == old(s)@.update(a as int, old(s)@[b as int]).update(b as int, old(s)@[a as int]);
pub assume_specification<T> [<[T]>::rotate_left] (s: &mut [T], n: usize)
    requires n <= old(s)@.len()
    ensures final(s)@ == old(s)@.subrange(n as int, old(s)@.len() as int) + old(s)@.subrange(0, n as int);
pub assume_specification<T> [<[T]>::rotate_right] (s: &mut [T], n: usize)
    requires n <= old(s)@.len()
    ensures final(s)@ == old(s)@.subrange(old(s)@.len() - n, old(s)@.len() as int) + old(s)@.subrange(0, old(s)@.len() - n);
pub assume_specification<T: std::cmp::PartialEq> [<[T]>::contains] (s: &[T], x: &T) -> (r: bool);
pub assume_specification<T, A: std::alloc::Allocator> [std::vec::Vec::<T, A>::shrink_to_fit] (v: &mut std::vec::Vec<T, A>) ensures final(v)@ == old(v)@;
pub assume_specification<T, A: std::alloc::Allocator> [std::vec::Vec::<T, A>::capacity] (v: &std::vec::Vec<T, A>) -> (r: usize) ensures r >= v@.len();

// ------------------------------------------------ str functions that take a pattern (a character or a text)
pub trait VpPat: Sized {
    spec fn text(&self) -> Seq<char>;
}
impl VpPat for char { open spec fn text(&self) -> Seq<char> { seq![*self] } }
impl<'a> VpPat for &'a str { open spec fn text(&self) -> Seq<char> { self@ } }
impl<'a> VpPat for &'a String { open spec fn text(&self) -> Seq<char> { self@ } }
pub open spec fn vp_suffix(p: Seq<char>, s: Seq<char>) -> bool { p.len() <= s.len() && s.subrange(s.len() - p.len(), s.len() as int) == p }
pub uninterp spec fn vp_trim_m(s: Seq<char>, p: Seq<char>, how: int) -> Seq<char>;
pub open spec fn vp_within(p: Seq<char>, s: Seq<char>) -> bool { exists|i: int| 0 <= i && i + p.len() <= s.len() && #[trigger] s.subrange(i, i + p.len()) == p }
pub trait VpStrExt {
    fn vp_starts_with<P: VpPat>(&self, p: P) -> (r: bool);
    fn vp_ends_with<P: VpPat>(&self, p: P) -> (r: bool);
    fn vp_strip_prefix<P: VpPat>(&self, p: P) -> (r: Option<&str>);
    fn vp_strip_suffix<P: VpPat>(&self, p: P) -> (r: Option<&str>);
    fn vp_trim_matches<P: VpPat>(&self, p: P) -> (r: &str);
    fn vp_trim_start_matches<P: VpPat>(&self, p: P) -> (r: &str);
    fn vp_trim_end_matches<P: VpPat>(&self, p: P) -> (r: &str);
    fn vp_contains<P: VpPat>(&self, p: P) -> (r: bool);
    fn vp_find<P: VpPat>(&self, p: P) -> (r: Option<usize>);
    fn vp_rfind<P: VpPat>(&self, p: P) -> (r: Option<usize>);
    fn vp_split_once<P: VpPat>(&self, p: P) -> (r: Option<(&str, &str)>);
    fn vp_rsplit_once<P: VpPat>(&self, p: P) -> (r: Option<(&str, &str)>);
    fn vp_replace<P: VpPat>(&self, p: P, q: &str) -> (r: String);
    fn vp_len(&self) -> (r: usize);
}
impl VpStrExt for str {
    #[verifier::external_body]
    fn vp_len(&self) -> (r: usize) ensures r == encode_utf8(self@).len() { unimplemented!() }
    #[verifier::external_body]
    fn vp_starts_with<P: VpPat>(&self, p: P) -> (r: bool) ensures r == p.text().is_prefix_of(self@) { unimplemented!() }
    #[verifier::external_body]
    fn vp_ends_with<P: VpPat>(&self, p: P) -> (r: bool) ensures r == vp_suffix(p.text(), self@) { unimplemented!() }
    #[verifier::external_body]
    fn vp_strip_prefix<P: VpPat>(&self, p: P) -> (r: Option<&str>)
        ensures r is Some <==> p.text().is_prefix_of(self@), r is Some ==> self@ == p.text() + r->0@ { unimplemented!() }
    #[verifier::external_body]
    fn vp_strip_suffix<P: VpPat>(&self, p: P) -> (r: Option<&str>)
        ensures r is Some <==> vp_suffix(p.text(), self@), r is Some ==> self@ == r->0@ + p.text() { unimplemented!() }
    #[verifier::external_body]
    fn vp_trim_matches<P: VpPat>(&self, p: P) -> (r: &str)
        ensures r@ == vp_trim_m(self@, p.text(), 0), !p.text().is_prefix_of(self@) && !vp_suffix(p.text(), self@) ==> r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    fn vp_trim_start_matches<P: VpPat>(&self, p: P) -> (r: &str)
        ensures r@ == vp_trim_m(self@, p.text(), 1), vp_suffix(r@, self@), !p.text().is_prefix_of(self@) ==> r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    fn vp_trim_end_matches<P: VpPat>(&self, p: P) -> (r: &str)
        ensures r@ == vp_trim_m(self@, p.text(), 2), r@.is_prefix_of(self@), !vp_suffix(p.text(), self@) ==> r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    fn vp_contains<P: VpPat>(&self, p: P) -> (r: bool) ensures r == vp_within(p.text(), self@) { unimplemented!() }
    #[verifier::external_body]
    fn vp_find<P: VpPat>(&self, p: P) -> (r: Option<usize>)
        ensures
            r is Some <==> vp_within(p.text(), self@),
            r is Some ==> ({ let n = encode_utf8(p.text()).len(); let b = encode_utf8(self@);
                r->0 + n <= b.len() && b.subrange(r->0 as int, r->0 + n) == encode_utf8(p.text())
                && is_char_boundary(b, r->0 as int) && is_char_boundary(b, r->0 + n) }),
    { unimplemented!() }
    #[verifier::external_body]
    fn vp_rfind<P: VpPat>(&self, p: P) -> (r: Option<usize>)
        ensures
            r is Some <==> vp_within(p.text(), self@),
            r is Some ==> ({ let n = encode_utf8(p.text()).len(); let b = encode_utf8(self@);
                r->0 + n <= b.len() && b.subrange(r->0 as int, r->0 + n) == encode_utf8(p.text())
                && is_char_boundary(b, r->0 as int) && is_char_boundary(b, r->0 + n) }),
    { unimplemented!() }
    #[verifier::external_body]
    fn vp_split_once<P: VpPat>(&self, p: P) -> (r: Option<(&str, &str)>)
        ensures r is Some <==> vp_within(p.text(), self@), r is Some ==> self@ == (r->0).0@ + p.text() + (r->0).1@ { unimplemented!() }
    #[verifier::external_body]
    fn vp_rsplit_once<P: VpPat>(&self, p: P) -> (r: Option<(&str, &str)>)
        ensures r is Some <==> vp_within(p.text(), self@), r is Some ==> self@ == (r->0).0@ + p.text() + (r->0).1@ { unimplemented!() }
    #[verifier::external_body]
    fn vp_replace<P: VpPat>(&self, p: P, q: &str) -> (r: String)
        ensures !vp_within(p.text(), self@) ==> r@ == self@ { unimplemented!() }
}
pub trait VpSliceExt<T> {
    fn vp_starts_with(&self, p: &[T]) -> (r: bool);
    fn vp_ends_with(&self, p: &[T]) -> (r: bool);
}
impl VpSliceExt<u8> for [u8] {
    #[verifier::external_body]
    fn vp_starts_with(&self, p: &[u8]) -> (r: bool) ensures r == p@.is_prefix_of(self@) { unimplemented!() }
    #[verifier::external_body]
    fn vp_ends_with(&self, p: &[u8]) -> (r: bool)
        ensures r == (p@.len() <= self@.len() && self@.subrange(self@.len() - p@.len(), self@.len() as int) == p@) { unimplemented!() }
}
