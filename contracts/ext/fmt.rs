#[verifier::external_body]
#[derive(Debug)]
pub struct Error {}
pub type Result = core::result::Result<(), Error>;
#[verifier::external_body]
pub struct Formatter {}
impl Formatter {
    #[verifier::external_body]
    pub fn vp_write_str(&mut self, s: &str) -> (r: Result) { unimplemented!() }
    #[verifier::external_body]
    pub fn vp_write_disp<T: VpDisplay>(&mut self, x: &T) -> (r: Result)
        requires x.disp_ok()
    { unimplemented!() }
    /// `{:?}` and other formatting of plain values
    #[verifier::external_body]
    pub fn vp_write_any(&mut self) -> (r: Result) { unimplemented!() }
}
