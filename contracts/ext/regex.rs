// regex: a match gives, for every group that took part, the byte span it matched
#[verifier::external_body]
pub struct Regex {}
#[verifier::external_body]
pub struct Captures<'t> { x: &'t str }
#[verifier::external_body]
pub struct Match<'t> { x: &'t str }
impl<'t> Captures<'t> {
    pub uninterp spec fn hay(&self) -> Seq<u8>;
    pub uninterp spec fn group(&self, i: int) -> Option<(int, int)>;
    #[verifier::external_body]
    pub fn get(&self, i: usize) -> (r: Option<Match<'t>>)
        ensures
            r is Some <==> self.group(i as int) is Some,
            r matches Some(m) ==> m.hay() == self.hay() && (m.span().0, m.span().1) == self.group(i as int)->0
                && str_ok(m.hay(), m.span().0, m.span().1) && m.hay().len() <= isize::MAX,
    { unimplemented!() }
}
impl<'t> Match<'t> {
    pub uninterp spec fn hay(&self) -> Seq<u8>;
    pub uninterp spec fn span(&self) -> (int, int);
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &'t str)
        ensures utf8(r@) == span(self.hay(), self.span().0, self.span().1)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn range(&self) -> (r: Range<usize>)
        ensures r.start as int == self.span().0, r.end as int == self.span().1
    { unimplemented!() }
    #[verifier::external_body]
    pub fn start(&self) -> (r: usize)
        ensures r as int == self.span().0
    { unimplemented!() }
    #[verifier::external_body]
    pub fn end(&self) -> (r: usize)
        ensures r as int == self.span().1
    { unimplemented!() }
}
use std::ops::Range;
