module owned_subslice
-- raw
broadcast use crate::prelude::group_utf8;
impl vstd::std_specs::convert::FromSpecImpl<String> for OwnedSubslice<String> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: String) -> Self { OwnedSubslice { data: v, range: Range { start: 0, end: utf8(v@).len() as usize } } }
}
impl<T> vstd::std_specs::convert::FromSpecImpl<Vec<T>> for OwnedSubslice<Vec<T>> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Vec<T>) -> Self { OwnedSubslice { data: v, range: Range { start: 0, end: v@.len() as usize } } }
}
// the window of a text buffer / byte buffer that an OwnedSubslice exposes
pub open spec fn win_ok_s(o: OwnedSubslice<String>) -> bool { str_ok(utf8(o.data@), o.range.start as int, o.range.end as int) }
pub open spec fn win_s(o: OwnedSubslice<String>) -> Seq<u8> { span(utf8(o.data@), o.range.start as int, o.range.end as int) }
pub open spec fn win_ok_v<T>(o: OwnedSubslice<Vec<T>>) -> bool { 0 <= o.range.start <= o.range.end <= o.data@.len() }
pub open spec fn win_v<T>(o: OwnedSubslice<Vec<T>>) -> Seq<T> { span(o.data@, o.range.start as int, o.range.end as int) }
pub open spec fn sat_add(a: usize, b: usize) -> int { if a + b > usize::MAX { usize::MAX as int } else { a + b } }
pub open spec fn imin(a: int, b: int) -> int { if a < b { a } else { b } }
/// n is what taking range r of o leaves: the same data, never beyond o's window
pub open spec fn is_sub<S: Index<Range<usize>>>(o: OwnedSubslice<S>, r: Range<usize>, n: OwnedSubslice<S>) -> bool {
    &&& n.data == o.data
    &&& n.range.start == sat_add(o.range.start, r.start)
    &&& n.range.end == imin(sat_add(o.range.start, r.end), o.range.end as int)
}
pub broadcast proof fn sub_view_bytes(o: OwnedSubslice<Vec<u8>>, r: Range<usize>, n: OwnedSubslice<Vec<u8>>)
    ensures #[trigger] is_sub(o, r, n) && win_ok_v(o) && o.data@.len() <= isize::MAX ==> (win_ok_v(n) <==> r.start <= imin(r.end as int, win_v(o).len() as int))
        && (win_ok_v(n) ==> win_v(n) == span(win_v(o), r.start as int, imin(r.end as int, win_v(o).len() as int)))
{
    if is_sub(o, r, n) && win_ok_v(o) && o.data@.len() <= isize::MAX && win_ok_v(n) { assert(win_v(n) =~= span(win_v(o), r.start as int, imin(r.end as int, win_v(o).len() as int))); }
}

-- raw [C04]
/// a sub-view exposes exactly positions r.start .. min(r.end, length) of its parent, or nothing at all
pub proof fn sub_view_v<T>(o: OwnedSubslice<Vec<T>>, r: Range<usize>, n: OwnedSubslice<Vec<T>>)
    requires win_ok_v(o), is_sub(o, r, n), o.data@.len() <= isize::MAX
    ensures
        win_ok_v(n) <==> r.start <= imin(r.end as int, win_v(o).len() as int),
        win_ok_v(n) ==> win_v(n) == span(win_v(o), r.start as int, imin(r.end as int, win_v(o).len() as int)),
{
    if win_ok_v(n) { assert(win_v(n) =~= span(win_v(o), r.start as int, imin(r.end as int, win_v(o).len() as int))); }
}
pub proof fn sub_view_s(o: OwnedSubslice<String>, r: Range<usize>, n: OwnedSubslice<String>)
    requires win_ok_s(o), is_sub(o, r, n), utf8(o.data@).len() <= isize::MAX
    ensures
        win_ok_s(n) ==> r.start <= imin(r.end as int, win_s(o).len() as int)
            && win_s(n) == span(win_s(o), r.start as int, imin(r.end as int, win_s(o).len() as int)),
        (r.start <= imin(r.end as int, win_s(o).len() as int) && is_char_boundary(utf8(o.data@), o.range.start + r.start)
            && is_char_boundary(utf8(o.data@), o.range.start + imin(r.end as int, win_s(o).len() as int))) ==> win_ok_s(n),
{
    if win_ok_s(n) { assert(win_s(n) =~= span(win_s(o), r.start as int, imin(r.end as int, win_s(o).len() as int))); }
}
/// chains: a sub-view of a sub-view is a sub-view of the first, at the added offset
pub proof fn sub_sub_v<T>(o: OwnedSubslice<Vec<T>>, r: Range<usize>, n: OwnedSubslice<Vec<T>>, q: Range<usize>, m: OwnedSubslice<Vec<T>>)
    requires win_ok_v(o), is_sub(o, r, n), win_ok_v(n), is_sub(n, q, m), win_ok_v(m), o.data@.len() <= isize::MAX
    ensures win_v(m).len() <= win_v(n).len() <= win_v(o).len(),
        win_v(m) == span(win_v(o), r.start + q.start, r.start + imin(q.end as int, win_v(n).len() as int))
{
    sub_view_v(o, r, n); sub_view_v(n, q, m);
    assert(win_v(m) =~= span(win_v(o), r.start + q.start, r.start + imin(q.end as int, win_v(n).len() as int)));
}
// equality of views is equality of what they expose (of unreadable views: nothing is promised, reading them panics)
impl vstd::std_specs::cmp::PartialEqSpecImpl<OwnedSubslice<String>> for OwnedSubslice<String> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &OwnedSubslice<String>) -> bool { win_s(*self) == win_s(*other) }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl<&str> for OwnedSubslice<String> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &&str) -> bool { win_s(*self) == utf8(other@) }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl<OwnedSubslice<String>> for &str {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &OwnedSubslice<String>) -> bool { utf8(self@) == win_s(*other) }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl<OwnedSubslice<Vec<u8>>> for OwnedSubslice<Vec<u8>> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &OwnedSubslice<Vec<u8>>) -> bool { win_v(*self) == win_v(*other) }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl<&[u8]> for OwnedSubslice<Vec<u8>> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &&[u8]) -> bool { win_v(*self) == other@ }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl<OwnedSubslice<Vec<u8>>> for &[u8] {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &OwnedSubslice<Vec<u8>>) -> bool { self@ == win_v(*other) }
}

-- fn OwnedSubslice::new
ensures:
- r.data == data
- r.range == range

-- fn OwnedSubslice::subslice
ensures:
- is_sub(self, range, r)

-- fn Deref for OwnedSubslice<S>::deref @ S=String; S::Output=str
rewrite: vp_index ==> vp_read
ensures:
- win_ok_s(*self)
- utf8(r@) == win_s(*self)

-- fn Deref for OwnedSubslice<S>::deref @ S=Vec<T>; S::Output=[T]
rewrite: vp_index ==> vp_read
ensures:
- win_ok_v(*self)
- r@ == win_v(*self)

-- fn DerefMut for OwnedSubslice<S>::deref_mut @ S=Vec<T>; S::Output=[T]
rewrite: vp_index_mut ==> vp_write
ensures:
- win_ok_v(*old(self))
- [C04] r@ == win_v(*old(self))
- [C04] final(self).range == old(self).range
- [C04] final(self).data@ == span(old(self).data@, 0, old(self).range.start as int) + final(r)@ + span(old(self).data@, old(self).range.end as int, old(self).data@.len() as int)

-- fn From<String> for OwnedSubslice<String>::from
ensures:
- r.data == data && r.range.start == 0 && r.range.end == utf8(data@).len()
- win_ok_s(r) && win_s(r) == utf8(data@)
proof tail:
proof { assert(win_s(r) =~= utf8(data@)); }

-- fn From<Vec<T>> for OwnedSubslice<Vec<T>>::from
ensures:
- r.data == data && r.range.start == 0 && r.range.end == data@.len()
- win_ok_v(r) && win_v(r) == data@
proof tail:
proof { assert(win_v(r) =~= data@); }

-- fn PartialEq<OwnedSubslice<S>> for OwnedSubslice<S>::eq @ S=String; S::Output=str
-- fn PartialEq<&S::Output> for OwnedSubslice<S>::eq @ S=String; S::Output=str
-- fn PartialEq<OwnedSubslice<S>> for &S::Output::eq @ S=String; S::Output=str
-- fn PartialEq<OwnedSubslice<S>> for OwnedSubslice<S>::eq @ S=Vec<u8>; S::Output=[u8]
-- fn PartialEq<&S::Output> for OwnedSubslice<S>::eq @ S=Vec<u8>; S::Output=[u8]
-- fn PartialEq<OwnedSubslice<S>> for &S::Output::eq @ S=Vec<u8>; S::Output=[u8]
