// ---- actix-web, http-range-header and the oneshot channel, as far as they are used
pub trait ZvDrop { spec fn dr_pre(&self) -> bool; fn drop(&mut self) requires old(self).dr_pre(); }
pub enum HName { ContentType, AcceptRanges, ContentLength, ContentRange, Range, Other }
pub const CONTENT_TYPE: HName = HName::ContentType;
pub const ACCEPT_RANGES: HName = HName::AcceptRanges;
pub const CONTENT_LENGTH: HName = HName::ContentLength;
pub const CONTENT_RANGE: HName = HName::ContentRange;
pub const RANGE: HName = HName::Range;
pub struct StatusCode { pub code: u16 }
impl StatusCode {
    pub const OK: StatusCode = StatusCode { code: 200 };
    pub const PARTIAL_CONTENT: StatusCode = StatusCode { code: 206 };
    pub const BAD_REQUEST: StatusCode = StatusCode { code: 400 };
    pub const RANGE_NOT_SATISFIABLE: StatusCode = StatusCode { code: 416 };
}
pub trait MessageBody: Sized {
    type Error;
    spec fn mb_pre(&self) -> bool;
    fn size(&self) -> (r: BodySize);
    fn poll_next(&mut self, cx: &mut Context<'_>) -> (r: Poll<Option<std::result::Result<Bytes, Self::Error>>>) requires old(self).mb_pre();
}
pub enum BodySize { None, Sized(u64), Stream }
#[verifier::external_body]
pub struct BoxBody { x: u8 }
pub type Hdrs = Map<HName, Seq<char>>;
#[verifier::external_body]
#[verifier::accept_recursive_types(B)]
pub struct HttpResponse<B> { x: core::marker::PhantomData<B> }
#[verifier::external_body]
pub struct HttpResponseBuilder { x: u8 }
impl<B> HttpResponse<B> {
    pub uninterp spec fn st(&self) -> int;
    pub uninterp spec fn hdrs(&self) -> Hdrs;
    /// what the body is, if there is one
    pub uninterp spec fn carries<T>(&self) -> Option<T>;
}
impl HttpResponse<BoxBody> {
    #[verifier::external_body]
    pub fn Ok() -> (r: HttpResponseBuilder) ensures r.st() == 200, r.hdrs() == Hdrs::empty() { unimplemented!() }
}
impl HttpResponseBuilder {
    pub uninterp spec fn st(&self) -> int;
    pub uninterp spec fn hdrs(&self) -> Hdrs;
    #[verifier::external_body]
    pub fn insert_header<V: ZvDisplay>(&mut self, h: (HName, V)) -> (r: &mut HttpResponseBuilder)
        ensures r.st() == old(self).st(), r.hdrs() == old(self).hdrs().insert(h.0, h.1.shown()), *final(self) == *final(r)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn status(&mut self, s: StatusCode) -> (r: &mut HttpResponseBuilder)
        ensures r.st() == s.code, r.hdrs() == old(self).hdrs(), *final(self) == *final(r)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn finish(&mut self) -> (r: HttpResponse<BoxBody>) ensures r.st() == old(self).st(), r.hdrs() == old(self).hdrs() { unimplemented!() }
    #[verifier::external_body]
    pub fn body<T: MessageBody>(&mut self, b: T) -> (r: HttpResponse<BoxBody>)
        ensures r.st() == old(self).st(), r.hdrs() == old(self).hdrs(), r.carries::<T>() == Some(b)
    { unimplemented!() }
}
#[verifier::external_body]
pub struct HeaderValue { x: u8 }
impl HeaderValue {
    pub uninterp spec fn text(&self) -> Option<Seq<char>>;
    #[verifier::external_body]
    pub fn to_str(&self) -> (r: std::result::Result<&str, ToStrError>) ensures match self.text() { Some(t) => r is Ok && r->Ok_0@ == t, None => r is Err } { unimplemented!() }
}
#[verifier::external_body]
pub struct ToStrError { x: u8 }
#[verifier::external_body]
pub struct HeaderMap { x: u8 }
impl HeaderMap {
    pub uninterp spec fn val(&self, n: HName) -> Option<HeaderValue>;
    #[verifier::external_body]
    pub fn get(&self, n: HName) -> (r: Option<&HeaderValue>) ensures match self.val(n) { Some(v) => r is Some && *r->Some_0 == v, None => r is None } { unimplemented!() }
}
#[verifier::external_body]
pub struct HttpRequest { x: u8 }
impl HttpRequest {
    pub uninterp spec fn hmap(&self) -> HeaderMap;
    #[verifier::external_body]
    pub fn headers(&self) -> (r: &HeaderMap) ensures *r == self.hmap() { unimplemented!() }
}
// http-range-header
#[verifier::external_body]
pub struct RangeError { x: u8 }
#[verifier::external_body]
pub struct ParsedRanges { x: u8 }
#[verifier::external_body]
pub struct RangeInclusive { x: u8 }
impl RangeInclusive {
    pub uninterp spec fn lo(&self) -> u64;
    pub uninterp spec fn hi(&self) -> u64;
    #[verifier::external_body]
    pub fn start(&self) -> (r: &u64) ensures *r == self.lo() { unimplemented!() }
    #[verifier::external_body]
    pub fn end(&self) -> (r: &u64) ensures *r == self.hi() { unimplemented!() }
}
/// what the header asks for, if it is well formed
pub uninterp spec fn parse_range(s: Seq<char>) -> Option<ParsedRanges>;
#[verifier::external_body]
pub fn parse_range_header(s: &str) -> (r: std::result::Result<ParsedRanges, RangeError>)
    ensures match parse_range(s@) { Some(p) => r is Ok && r->Ok_0 == p, None => r is Err }
{ unimplemented!() }
impl ParsedRanges {
    /// the ranges of a file of that size, if it has all of them
    pub uninterp spec fn of(&self, size: u64) -> Option<Seq<RangeInclusive>>;
    #[verifier::external_body]
    pub fn validate(&self, size: u64) -> (r: std::result::Result<Vec<RangeInclusive>, RangeError>)
        ensures
            match self.of(size) { Some(v) => r is Ok && r->Ok_0@ == v, None => r is Err },
            size > 0 && r is Ok ==> r->Ok_0@.len() > 0 && forall|i: int| 0 <= i < r->Ok_0@.len() ==> (#[trigger] r->Ok_0@[i]).lo() <= r->Ok_0@[i].hi() < size
    { unimplemented!() }
}
pub trait ZvFirst<T> { spec fn zvf(&self) -> Seq<T>;
    fn zv_first(&self) -> (r: Option<&T>) ensures self.zvf().len() == 0 ==> r is None, self.zvf().len() > 0 ==> r is Some && *r->Some_0 == self.zvf()[0];
    fn zv_last(&self) -> (r: Option<&T>) ensures self.zvf().len() == 0 ==> r is None, self.zvf().len() > 0 ==> r is Some && *r->Some_0 == self.zvf().last();
}
impl<T> ZvFirst<T> for Vec<T> {
    open spec fn zvf(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn zv_first(&self) -> (r: Option<&T>) { self.first() }
    #[verifier::external_body] fn zv_last(&self) -> (r: Option<&T>) { self.last() }
}
pub mod oneshot {
use super::*;
verus! {
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Sender<T> { x: core::marker::PhantomData<T> }
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Receiver<T> { x: core::marker::PhantomData<T> }
/// the ends of one channel
pub uninterp spec fn paired<T>(s: Sender<T>, r: Receiver<T>) -> bool;
/// this was sent
pub uninterp spec fn sent<T>(s: Sender<T>, t: T) -> bool;
#[verifier::external_body]
pub fn channel<T>() -> (r: (Sender<T>, Receiver<T>)) ensures paired(r.0, r.1) { unimplemented!() }
impl<T> Sender<T> {
    #[verifier::external_body]
    pub fn send(self, t: T) -> (r: std::result::Result<(), T>) ensures sent(self, t) { unimplemented!() }
}
}
}
pub mod actix_web {
use super::*;
verus! {
pub trait Responder: Sized {
    type Body;
    spec fn rp_pre(&self) -> bool;
    fn respond_to(self, req: &HttpRequest) -> (r: HttpResponse<Self::Body>) requires self.rp_pre();
}
}
}
