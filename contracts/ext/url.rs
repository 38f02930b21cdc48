// the url crate: a parsed URL and its parts
pub struct UrlView { pub scheme: Seq<char>, pub user: Seq<char>, pub host: Option<Seq<char>>, pub port: Option<u16>, pub path: Seq<char>, pub query: Option<Seq<char>>, pub fragment: Option<Seq<char>> }
/// which URL a text is (none: it is not one), and the text of a URL
pub uninterp spec fn url_of(text: Seq<char>) -> Option<UrlView>;
pub uninterp spec fn url_text(v: UrlView) -> Seq<char>;
#[verifier::external_body]
#[derive(Debug)]
pub struct ParseError {}
#[verifier::external_body]
pub struct Url {}
pub enum Host<'a> { Domain(&'a str), Ip(u128) }
/// the schemes of the WHATWG standard that have a host and a default port
pub open spec fn default_port(scheme: Seq<char>) -> Option<u16> {
    if scheme == "http"@ || scheme == "ws"@ { Some(80) } else if scheme == "https"@ || scheme == "wss"@ { Some(443) } else if scheme == "ftp"@ { Some(21) } else { None }
}
pub open spec fn web(scheme: Seq<char>) -> bool { scheme == "http"@ || scheme == "ws"@ || scheme == "https"@ || scheme == "wss"@ }
/// what holds for the parts of every URL
pub open spec fn url_wf(v: UrlView) -> bool {
    &&& web(v.scheme) ==> v.host is Some
    &&& v.port is Some ==> v.port != default_port(v.scheme)
}
/// application/x-www-form-urlencoded
pub uninterp spec fn form(s: Seq<char>) -> Seq<char>;
pub open spec fn plain(s: Seq<char>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> { let c = #[trigger] s[i]; ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') || ('0' <= c && c <= '9') }
}
pub broadcast axiom fn axiom_form_plain(s: Seq<char>)
    requires plain(s)
    ensures #[trigger] form(s) == s;
pub open spec fn with_pair(v: UrlView, k: Seq<char>, x: Seq<char>) -> UrlView {
    let q = match v.query { Some(q) => if q.len() == 0 { q } else { q.push('&') }, None => seq![] };
    UrlView { query: Some(q + form(k).push('=') + form(x)), ..v }
}
impl Url {
    pub uninterp spec fn view(&self) -> UrlView;
    #[verifier::external_body]
    pub fn parse(s: &str) -> (r: Result<Url, ParseError>)
        ensures r is Ok <==> url_of(s@) is Some, r matches Ok(u) ==> Some(u@) == url_of(s@) && url_wf(u@)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn scheme(&self) -> (r: &str)
        ensures r@ == self@.scheme
    { unimplemented!() }
    /// a default port of the new scheme disappears
    #[verifier::external_body]
    pub fn set_scheme(&mut self, s: &str) -> (r: Result<(), ()>)
        ensures
            web(old(self)@.scheme) && web(s@) && old(self)@.host is Some ==> r is Ok,
            r is Err ==> *final(self) == *old(self),
            r is Ok ==> final(self)@ == (UrlView { scheme: s@, port: if old(self)@.port == default_port(s@) { None } else { old(self)@.port }, ..old(self)@ }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn host(&self) -> (r: Option<Host<'_>>)
        ensures r is Some <==> self@.host is Some
    { unimplemented!() }
    #[verifier::external_body]
    pub fn has_host(&self) -> (r: bool)
        ensures r <==> self@.host is Some
    { unimplemented!() }
    #[verifier::external_body]
    pub fn host_str(&self) -> (r: Option<&str>)
        ensures r is Some <==> self@.host is Some, r matches Some(h) ==> Some(h@) == self@.host
    { unimplemented!() }
    #[verifier::external_body]
    pub fn port(&self) -> (r: Option<u16>)
        ensures r == self@.port
    { unimplemented!() }
    #[verifier::external_body]
    pub fn port_or_known_default(&self) -> (r: Option<u16>)
        ensures r == (if self@.port is Some { self@.port } else { default_port(self@.scheme) })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn path(&self) -> (r: &str)
        ensures r@ == self@.path
    { unimplemented!() }
    #[verifier::external_body]
    pub fn query(&self) -> (r: Option<&str>)
        ensures r is Some <==> self@.query is Some, r matches Some(q) ==> Some(q@) == self@.query
    { unimplemented!() }
    #[verifier::external_body]
    pub fn fragment(&self) -> (r: Option<&str>)
        ensures r is Some <==> self@.fragment is Some, r matches Some(q) ==> Some(q@) == self@.fragment
    { unimplemented!() }
    #[verifier::external_body]
    pub fn username(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body]
    pub fn password(&self) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &str)
        ensures r@ == url_text(self@)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn domain(&self) -> (r: Option<&str>)
        ensures r matches Some(h) ==> Some(h@) == self@.host
    { unimplemented!() }
    #[verifier::external_body]
    pub fn cannot_be_a_base(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    pub fn set_path(&mut self, p: &str)
        ensures final(self)@ == (UrlView { path: final(self)@.path, ..old(self)@ })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn set_fragment(&mut self, q: Option<&str>)
        ensures final(self)@ == (UrlView { fragment: final(self)@.fragment, ..old(self)@ }), q is None ==> final(self)@.fragment is None
    { unimplemented!() }
    #[verifier::external_body]
    pub fn set_port(&mut self, p: Option<u16>) -> (r: Result<(), ()>)
        ensures
            r is Err ==> *final(self) == *old(self),
            r is Ok ==> final(self)@ == (UrlView { port: if p == default_port(old(self)@.scheme) { None } else { p }, ..old(self)@ }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn set_host(&mut self, h: Option<&str>) -> (r: Result<(), ParseError>)
        ensures r is Err ==> *final(self) == *old(self), final(self)@ == (UrlView { host: final(self)@.host, ..old(self)@ })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn set_username(&mut self, h: &str) -> (r: Result<(), ()>)
        ensures r is Err ==> *final(self) == *old(self), final(self)@ == (UrlView { user: final(self)@.user, ..old(self)@ })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn set_password(&mut self, h: Option<&str>) -> (r: Result<(), ()>)
        ensures r is Err ==> *final(self) == *old(self), final(self)@ == (UrlView { user: final(self)@.user, ..old(self)@ })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn query_pairs_mut(&mut self) -> (r: QueryPairs<'_>)
        ensures r.url@ == (UrlView { query: match old(self)@.query { Some(q) => Some(q), None => Some(seq![]) }, ..old(self)@ }), *final(r.url) == *final(self)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn set_query(&mut self, q: Option<&str>)
        ensures final(self)@ == (UrlView { query: final(self)@.query, ..old(self)@ }), q is None ==> final(self)@.query is None
    { unimplemented!() }
}
impl VpDisplay for Url {
    open spec fn disp(&self) -> Seq<char> { url_text(self@) }
}
pub struct QueryPairs<'a> { pub url: &'a mut Url }
impl<'a> QueryPairs<'a> {
    #[verifier::external_body]
    pub fn append_pair(&mut self, k: &str, v: &str) -> (r: &mut Self)
        ensures r.url@ == with_pair(old(self).url@, k@, v@), *final(r.url) == *final(old(self).url), *final(r) == *final(self)
    { unimplemented!() }
    /// drops every pair
    #[verifier::external_body]
    pub fn clear(&mut self) -> (r: &mut Self)
        ensures r.url@ == (UrlView { query: Some(seq![]), ..old(self).url@ }), *final(r.url) == *final(old(self).url), *final(r) == *final(self)
    { unimplemented!() }
}
