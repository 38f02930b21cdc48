// needs: net sync time
use crate::ext::net::*;
use crate::ext::sync::*;
use crate::ext::time::Duration;
#[verifier::external_body]
pub struct Delay {}
impl Delay {
    #[verifier::external_body]
    pub fn new(d: Duration) -> (r: Self)
        ensures r.limit() == Some(d)
    { unimplemented!() }
    pub uninterp spec fn span(&self) -> Duration;
}
impl Fut for Delay {
    type Out = ();
    open spec fn can(&self, v: ()) -> bool { true }
    open spec fn done(&self, v: ()) -> Ev { Ev::Elapsed }
    open spec fn limit(&self) -> Option<Duration> { Some(self.span()) }
    fn fuse(self) -> (r: Self) { self }
}
