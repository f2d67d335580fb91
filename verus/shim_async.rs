// ---- sources read through AsyncRead + AsyncSeek: the assumed behaviour of what this library reads files with

/// something that is read from a position and sought in
pub trait ZvSource: Sized {
    spec fn scontent(&self) -> Seq<u8>;
    spec fn spos(&self) -> nat;
    spec fn sidle(&self) -> bool;
    spec fn spending(&self) -> bool;
    spec fn starget(&self) -> nat;
}

pub trait AsyncRead: ZvSource {
    fn poll_read(&mut self, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> (r: Poll<IoResult<()>>)
        requires old(self).sidle()
        ensures
            final(self).scontent() == old(self).scontent(),
            final(self).sidle(),
            waited(*old(cx), *final(cx), r),
            read_result(r, old(self).scontent(), old(self).spos(), final(self).spos(), *old(buf), *final(buf));
}

pub trait AsyncSeek: ZvSource {
    fn start_seek(&mut self, pos: SeekFrom) -> (r: IoResult<()>)
        requires old(self).sidle()
        ensures
            final(self).scontent() == old(self).scontent(),
            r is Ok ==> final(self).spending() && (pos is Start ==> final(self).starget() == start_of(pos)),
            r is Err ==> final(self).sidle() && (from_source(r->Err_0) || !(pos is Start) && err_kind(r->Err_0) == std::io::ErrorKind::InvalidInput);

    fn poll_complete(&mut self, cx: &mut Context<'_>) -> (r: Poll<IoResult<u64>>)
        requires old(self).spending()
        ensures
            final(self).scontent() == old(self).scontent(),
            waited(*old(cx), *final(cx), r),
            match r {
                Poll::Pending => final(self).spending() && final(self).starget() == old(self).starget(),
                Poll::Ready(Ok(p)) => final(self).sidle() && p == old(self).starget() && final(self).spos() == p,
                Poll::Ready(Err(e)) => final(self).sidle() && from_source(e),
            };
}

/// Pin<Box<dyn Future<Output = T>>>
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct ZvBoxFuture<T> { p: core::marker::PhantomData<T> }
impl<T> ZvBoxFuture<T> {
    pub uninterp spec fn bdelivers(&self, o: T) -> bool;
    pub uninterp spec fn bfinished(&self) -> bool;
}
impl<T> Future for ZvBoxFuture<T> {
    type Output = T;
    open spec fn delivers(&self, o: T) -> bool { self.bdelivers(o) }
    open spec fn finished(&self) -> bool { self.bfinished() }
    #[verifier::external_body]
    fn poll(&mut self, cx: &mut Context<'_>) -> (r: Poll<T>) { unimplemented!() }
}
#[verifier::external_body]
pub fn zv_box_pin<T, F: Future<Output = T>>(f: F) -> (r: ZvBoxFuture<T>)
    ensures r.bfinished() == f.finished(), forall|o: T| #[trigger] r.bdelivers(o) <==> f.delivers(o)
{ unimplemented!() }

/// std::sync::Arc<T>: sharing, nothing else
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Arc<T: ?Sized> { p: core::marker::PhantomData<T> }
impl<T: ?Sized> Arc<T> {
    #[verifier::external_body]
    pub fn clone(a: &Arc<T>) -> (r: Arc<T>) ensures r == *a { unimplemented!() }
}
impl Arc<[u8]> {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
}
pub broadcast axiom fn axiom_arc_len(a: Arc<[u8]>) ensures #[trigger] a@.len() <= isize::MAX;

/// std::io::Cursor over shared bytes: always ready
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Cursor<T> { p: core::marker::PhantomData<T> }
impl Cursor<Arc<[u8]>> {
    pub uninterp spec fn cbytes(&self) -> Seq<u8>;
    pub uninterp spec fn cpos(&self) -> u64;
    #[verifier::external_body]
    pub fn new(a: Arc<[u8]>) -> (r: Self) ensures r.cbytes() == a@, r.cpos() == 0 { unimplemented!() }
}
impl ZvSource for Cursor<Arc<[u8]>> {
    open spec fn scontent(&self) -> Seq<u8> { self.cbytes() }
    open spec fn spos(&self) -> nat { self.cpos() as nat }
    open spec fn sidle(&self) -> bool { true }
    open spec fn spending(&self) -> bool { true }
    open spec fn starget(&self) -> nat { self.cpos() as nat }
}
impl AsyncRead for Cursor<Arc<[u8]>> {
    #[verifier::external_body]
    fn poll_read(&mut self, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> (r: Poll<IoResult<()>>) { unimplemented!() }
}
impl AsyncSeek for Cursor<Arc<[u8]>> {
    #[verifier::external_body]
    fn start_seek(&mut self, pos: SeekFrom) -> (r: IoResult<()>) { unimplemented!() }
    #[verifier::external_body]
    fn poll_complete(&mut self, cx: &mut Context<'_>) -> (r: Poll<IoResult<u64>>) { unimplemented!() }
}

/// tokio::fs::File
#[verifier::external_body]
pub struct File { x: u8 }
#[verifier::external_body]
pub struct FileOpen { x: u8 }
impl FileOpen {
    pub uninterp spec fn of(&self) -> PathBuf;
    pub uninterp spec fn fresh(&self) -> bool;
    pub uninterp spec fn done(&self) -> bool;
}
impl File {
    pub uninterp spec fn fcontent(&self) -> Seq<u8>;
    pub uninterp spec fn fpos(&self) -> nat;
    pub uninterp spec fn fidle(&self) -> bool;
    pub uninterp spec fn fpending(&self) -> bool;
    pub uninterp spec fn ftarget(&self) -> nat;
    #[verifier::external_body]
    pub fn open(path: PathBuf) -> (r: FileOpen) ensures r.of() == path, !r.done() { unimplemented!() }
}
/// what a file holds; assumed not to change while it is archived
pub uninterp spec fn file_bytes(path: PathBuf) -> Seq<u8>;
/// opened: at the start of what the path holds
pub open spec fn file_opened(p: PathBuf, f: File) -> bool {
    f.fcontent() == file_bytes(p) && f.fpos() == 0 && f.fidle() && file_bytes(p).len() <= u64::MAX
}
impl Future for FileOpen {
    type Output = IoResult<File>;
    open spec fn delivers(&self, o: IoResult<File>) -> bool { match o { Ok(f) => file_opened(self.of(), f), Err(e) => from_source(e) } }
    open spec fn finished(&self) -> bool { self.done() }
    #[verifier::external_body]
    fn poll(&mut self, cx: &mut Context<'_>) -> (r: Poll<IoResult<File>>) { unimplemented!() }
}
impl ZvSource for File {
    open spec fn scontent(&self) -> Seq<u8> { self.fcontent() }
    open spec fn spos(&self) -> nat { self.fpos() }
    open spec fn sidle(&self) -> bool { self.fidle() }
    open spec fn spending(&self) -> bool { self.fpending() }
    open spec fn starget(&self) -> nat { self.ftarget() }
}
impl AsyncRead for File {
    #[verifier::external_body]
    fn poll_read(&mut self, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> (r: Poll<IoResult<()>>) { unimplemented!() }
}
impl AsyncSeek for File {
    #[verifier::external_body]
    fn start_seek(&mut self, pos: SeekFrom) -> (r: IoResult<()>) { unimplemented!() }
    #[verifier::external_body]
    fn poll_complete(&mut self, cx: &mut Context<'_>) -> (r: Poll<IoResult<u64>>) { unimplemented!() }
}
