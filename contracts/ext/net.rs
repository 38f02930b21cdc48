// needs: sync tungstenite time futures
// futures and timers of the client's tasks
use crate::ext::sync::*;
use crate::ext::time::Duration;
pub assume_specification<'a>[ <String as From<&'a str>>::from ](s: &str) -> (r: String) ensures r@ == s@;
pub use crate::prelude::axiom_str_ext;
pub trait StdError {}
/// a text given by reference
pub trait AsText {
    spec fn text(&self) -> Seq<char>;
    fn as_ref(&self) -> (r: &str)
        ensures r@ == self.text();
}
/// a future: what its completion with a value is in the log, and which values it can complete with
pub trait Fut: Sized {
    type Out;
    spec fn can(&self, v: Self::Out) -> bool;
    spec fn done(&self, v: Self::Out) -> Ev;
    /// a timer: completes once that much time has passed since it was made
    spec fn limit(&self) -> Option<Duration>;
    fn fuse(self) -> (r: Self)
        ensures r == self;
}
pub enum Sel2<A, B> { A0(A), A1(B) }
pub enum Sel3<A, B, C> { A0(A), A1(B), A2(C) }
pub open spec fn or_limit(a: Option<Duration>, b: Option<Duration>) -> Option<Duration> { if a is Some { a } else { b } }
/// waits until one of the futures completes; any that can may be the one
#[verifier::external_body]
pub async fn vp_select2<A: Fut, B: Fut>(a: &mut A, b: &mut B, Tracked(w): Tracked<&mut World>) -> (r: Sel2<A::Out, B::Out>)
    ensures
        final(w).held == old(w).held,
        r matches Sel2::A0(v) ==> old(a).can(v) && *final(b) == *old(b)
            && final(w).log == old(w).log.push(Ev::Waited { at_most: or_limit(old(a).limit(), old(b).limit()) }).push(old(a).done(v)),
        r matches Sel2::A1(v) ==> old(b).can(v) && *final(a) == *old(a)
            && final(w).log == old(w).log.push(Ev::Waited { at_most: or_limit(old(a).limit(), old(b).limit()) }).push(old(b).done(v)),
{ unimplemented!() }
#[verifier::external_body]
pub async fn vp_select3<A: Fut, B: Fut, C: Fut>(a: &mut A, b: &mut B, c: &mut C, Tracked(w): Tracked<&mut World>) -> (r: Sel3<A::Out, B::Out, C::Out>)
    ensures
        final(w).held == old(w).held,
        r matches Sel3::A0(v) ==> old(a).can(v) && *final(b) == *old(b) && *final(c) == *old(c)
            && final(w).log == old(w).log.push(Ev::Waited { at_most: or_limit(old(a).limit(), or_limit(old(b).limit(), old(c).limit())) }).push(old(a).done(v)),
        r matches Sel3::A1(v) ==> old(b).can(v) && *final(a) == *old(a) && *final(c) == *old(c)
            && final(w).log == old(w).log.push(Ev::Waited { at_most: or_limit(old(a).limit(), or_limit(old(b).limit(), old(c).limit())) }).push(old(b).done(v)),
        r matches Sel3::A2(v) ==> old(c).can(v) && *final(a) == *old(a) && *final(b) == *old(b)
            && final(w).log == old(w).log.push(Ev::Waited { at_most: or_limit(old(a).limit(), or_limit(old(b).limit(), old(c).limit())) }).push(old(c).done(v)),
{ unimplemented!() }
