// ---- what the sources of this library are made from

/// AsRef<[u8]> that gives the same bytes every time
pub trait ZvAsRef<B: ?Sized> {
    spec fn as_bytes(&self) -> Seq<u8>;
    fn zv_as_ref(&self) -> (r: &B) ensures bytes_of(r) == self.as_bytes();
}
pub uninterp spec fn bytes_of<B: ?Sized>(b: &B) -> Seq<u8>;
pub broadcast axiom fn axiom_bytes_of_slice(b: &[u8]) ensures #[trigger] bytes_of::<[u8]>(b) == b@;
/// what AsRef<[u8]> gives is a slice in memory
pub proof fn ax_bytes_len<T: ZvAsRef<[u8]>>(t: &T) ensures t.as_bytes().len() <= isize::MAX { admit() }

/// how many bytes of in-memory data a read delivers
pub open spec fn mem_n(len: nat, pos: nat, room: int) -> int {
    if pos >= len { 0 } else if len - pos <= room { len - pos } else { room }
}
/// where a seek of in-memory data leads, if anywhere
pub open spec fn mem_target(p: SeekFrom, pos: nat, len: nat) -> Option<u64> {
    let t = match p { SeekFrom::Start(o) => o as int, SeekFrom::End(o) => len + o, SeekFrom::Current(o) => pos + o };
    if 0 <= t <= u64::MAX { Some(t as u64) } else { None }
}
pub open spec fn same_bytes(a: ReadBuf<'_>, b: ReadBuf<'_>) -> bool { unfilled_only(a, b) }

/// std::future::Ready
#[verifier::reject_recursive_types(T)]
pub struct Ready<T> { pub v: Option<T> }
impl<T> Future for Ready<T> {
    type Output = T;
    open spec fn delivers(&self, o: T) -> bool { self.v == Some(o) }
    open spec fn finished(&self) -> bool { self.v is None }
    #[verifier::external_body]
    fn poll(&mut self, cx: &mut Context<'_>) -> (r: Poll<T>) { unimplemented!() }
}
pub fn zv_ready<T>(t: T) -> (r: Ready<T>) ensures r.v == Some(t) { Ready { v: Some(t) } }
pub open spec fn ready_with<T>(r: Ready<T>, t: T) -> bool { r.v == Some(t) }

#[verifier::external_body]
pub fn zv_io_error_new<E>(k: std::io::ErrorKind, e: E) -> (r: std::io::Error) ensures err_kind(r) == k, !from_source(r) { unimplemented!() }

pub trait ZvGet<T> {
    spec fn zvg(&self) -> Seq<T>;
    fn zv_get_from(&self, lo: usize) -> (r: Option<&[T]>)
        ensures lo <= self.zvg().len() ==> r is Some && r->Some_0@ == self.zvg().subrange(lo as int, self.zvg().len() as int), lo > self.zvg().len() ==> r is None;
}
impl<T> ZvGet<T> for [T] {
    open spec fn zvg(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn zv_get_from(&self, lo: usize) -> (r: Option<&[T]>) { self.get(lo..) }
}
