// a span of time
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Duration {}
pub uninterp spec fn secs(n: u64) -> Duration;
impl Duration {
    #[verifier::external_body]
    pub fn from_secs(n: u64) -> (r: Self)
        ensures r == secs(n)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn from_millis(n: u64) -> (r: Self)
        ensures n % 1000 == 0 ==> r == secs(n / 1000)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn from_micros(n: u64) -> (r: Self) { unimplemented!() }
    #[verifier::external_body]
    pub fn from_nanos(n: u64) -> (r: Self) { unimplemented!() }
    #[verifier::external_body]
    pub fn new(n: u64, m: u32) -> (r: Self)
        ensures m == 0 ==> r == secs(n)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn saturating_mul(self, k: u32) -> (r: Self) { unimplemented!() }
    #[verifier::external_body]
    pub fn checked_mul(self, k: u32) -> (r: Option<Self>) { unimplemented!() }
    #[verifier::external_body]
    pub fn checked_add(self, k: Self) -> (r: Option<Self>) { unimplemented!() }
    #[verifier::external_body]
    pub fn checked_sub(self, k: Self) -> (r: Option<Self>) { unimplemented!() }
    #[verifier::external_body]
    pub fn as_secs(&self) -> (r: u64) { unimplemented!() }
    #[verifier::external_body]
    pub fn as_millis(&self) -> (r: u128) { unimplemented!() }
}
impl vstd::std_specs::ops::MulSpecImpl<u32> for Duration {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, rhs: u32) -> bool { true }
    open spec fn mul_spec(self, rhs: u32) -> Self { self }
}
impl core::ops::Mul<u32> for Duration {
    type Output = Duration;
    #[verifier::external_body]
    fn mul(self, rhs: u32) -> (r: Self) { unimplemented!() }
}
impl vstd::std_specs::ops::DivSpecImpl<u32> for Duration {
    open spec fn obeys_div_spec() -> bool { false }
    open spec fn div_req(self, rhs: u32) -> bool { true }
    open spec fn div_spec(self, rhs: u32) -> Self { self }
}
impl core::ops::Div<u32> for Duration {
    type Output = Duration;
    #[verifier::external_body]
    fn div(self, rhs: u32) -> (r: Self) { unimplemented!() }
}
impl vstd::std_specs::ops::AddSpecImpl<Duration> for Duration {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, rhs: Duration) -> bool { true }
    open spec fn add_spec(self, rhs: Duration) -> Self { self }
}
impl core::ops::Add<Duration> for Duration {
    type Output = Duration;
    #[verifier::external_body]
    fn add(self, rhs: Duration) -> (r: Self) { unimplemented!() }
}
impl vstd::std_specs::ops::SubSpecImpl<Duration> for Duration {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, rhs: Duration) -> bool { true }
    open spec fn sub_spec(self, rhs: Duration) -> Self { self }
}
impl core::ops::Sub<Duration> for Duration {
    type Output = Duration;
    #[verifier::external_body]
    fn sub(self, rhs: Duration) -> (r: Self) { unimplemented!() }
}
