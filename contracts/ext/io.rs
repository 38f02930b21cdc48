// std::io: writers, and the cursor over a borrowed byte vector. Writing to memory does not fail.
// Written against the documented meaning of Cursor<&mut Vec<u8>> (overwrites at its position, extends at the end).
#[verifier::external_body]
#[derive(Debug)]
pub struct Error {}
pub type Result<T> = core::result::Result<T, Error>;

/// what a buffer holds after `d` is written over position `p`
pub open spec fn written_at(b: Seq<u8>, p: int, d: Seq<u8>) -> Seq<u8>
    recommends 0 <= p
{
    let padded = if p <= b.len() { span(b, 0, p) } else { b + Seq::new((p - b.len()) as nat, |i: int| 0u8) };
    padded + d + (if p + d.len() < b.len() { span(b, p + d.len(), b.len() as int) } else { seq![] })
}

pub broadcast proof fn lemma_append(b: Seq<u8>, p: int, d: Seq<u8>)
    ensures p == b.len() ==> #[trigger] written_at(b, p, d) == b + d
{ if p == b.len() { assert(written_at(b, p, d) =~= b + d); } }
pub trait Write {
    /// what the target holds once `d` has been written after everything written so far
    spec fn put(&self, d: Seq<u8>) -> Seq<u8>;
    /// whether `fin` is linked to a target that outlives the writer
    spec fn linked(&self) -> bool;
    /// what the borrowed target holds when the writer is gone
    #[verifier::prophetic]
    spec fn fin(&self) -> Seq<u8>;
    /// writes to this target never fail
    spec fn infallible(&self) -> bool;
    fn vp_write_str(&mut self, s: &str) -> (r: Result<()>)
        ensures
            forall|d: Seq<u8>| #[trigger] final(self).put(d) == old(self).put(utf8(s@) + d) || r is Err,
            final(self).linked() == old(self).linked(),
            old(self).linked() ==> final(self).fin() == old(self).fin(),
            final(self).infallible() == old(self).infallible(),
            old(self).infallible() ==> r is Ok;
    fn vp_write_disp<T: VpDisplay>(&mut self, x: &T) -> (r: Result<()>)
        ensures
            forall|d: Seq<u8>| #[trigger] final(self).put(d) == old(self).put(utf8(x.disp()) + d) || r is Err,
            final(self).linked() == old(self).linked(),
            old(self).linked() ==> final(self).fin() == old(self).fin(),
            final(self).infallible() == old(self).infallible(),
            old(self).infallible() ==> r is Ok;
}

pub struct Cursor<T> { pub inner: T, pub pos: u64 }
impl<'a> Cursor<&'a mut Vec<u8>> {
    #[verifier::external_body]
    pub fn new(b: &'a mut Vec<u8>) -> (r: Self)
        ensures r.inner == b, r.pos == 0
    { unimplemented!() }
    #[verifier::external_body]
    pub fn set_position(&mut self, p: u64)
        ensures final(self).pos == p, *final(self).inner == *old(self).inner, *final(final(self).inner) == *final(old(self).inner)
    { unimplemented!() }
}
impl<'a> Write for Cursor<&'a mut Vec<u8>> {
    open spec fn put(&self, d: Seq<u8>) -> Seq<u8> { written_at((*self.inner)@, self.pos as int, d) }
    open spec fn linked(&self) -> bool { true }
    #[verifier::prophetic]
    open spec fn fin(&self) -> Seq<u8> { final(self.inner)@ }
    open spec fn infallible(&self) -> bool { true }
    #[verifier::external_body]
    fn vp_write_str(&mut self, s: &str) -> (r: Result<()>) { unimplemented!() }
    #[verifier::external_body]
    fn vp_write_disp<T: VpDisplay>(&mut self, x: &T) -> (r: Result<()>) { unimplemented!() }
}
impl Write for Vec<u8> {
    open spec fn put(&self, d: Seq<u8>) -> Seq<u8> { self@ + d }
    open spec fn linked(&self) -> bool { false }
    #[verifier::prophetic]
    open spec fn fin(&self) -> Seq<u8> { seq![] }
    open spec fn infallible(&self) -> bool { true }
    #[verifier::external_body]
    fn vp_write_str(&mut self, s: &str) -> (r: Result<()>)
        ensures final(self)@ == old(self)@ + utf8(s@)
    { unimplemented!() }
    #[verifier::external_body]
    fn vp_write_disp<T: VpDisplay>(&mut self, x: &T) -> (r: Result<()>)
        ensures final(self)@ == old(self)@ + utf8(x.disp())
    { unimplemented!() }
}
