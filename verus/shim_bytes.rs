// bytes::{Bytes, BytesMut} and tokio_util::io::poll_read_buf
/// futures_core::Stream
pub trait Stream {
    type Item;
    spec fn st_pre(&self) -> bool;
    fn poll_next(&mut self, cx: &mut Context<'_>) -> (r: Poll<Option<Self::Item>>) requires old(self).st_pre();
}
#[verifier::external_body]
pub struct Bytes { x: u8 }
impl Bytes {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn zv_slice(&self, lo: usize, hi: usize) -> (r: Bytes) requires lo <= hi <= self@.len() ensures r@ == self@.subrange(lo as int, hi as int) { unimplemented!() }
    pub fn zv_slice_to(&self, hi: usize) -> (r: Bytes) requires hi <= self@.len() ensures r@ == self@.subrange(0, hi as int) { self.zv_slice(0, hi) }
    #[verifier::external_body]
    pub fn truncate(&mut self, n: usize) ensures final(self)@ == (if n <= old(self)@.len() { old(self)@.subrange(0, n as int) } else { old(self)@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn split_to(&mut self, n: usize) -> (r: Bytes) requires n <= old(self)@.len() ensures r@ == old(self)@.subrange(0, n as int), final(self)@ == old(self)@.subrange(n as int, old(self)@.len() as int) { unimplemented!() }
}
#[verifier::external_body]
pub struct BytesMut { x: u8 }
/// bytes in a buffer are in memory
pub broadcast axiom fn axiom_bytes_mut(b: BytesMut) ensures #[trigger] b@.len() <= b.cap(), b.cap() <= isize::MAX;
pub broadcast axiom fn axiom_bytes_len(b: Bytes) ensures #[trigger] b@.len() <= isize::MAX;
impl BytesMut {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    pub uninterp spec fn cap(&self) -> nat;
    #[verifier::external_body]
    pub fn new() -> (r: BytesMut) ensures r@.len() == 0, r.cap() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: BytesMut) ensures r@.len() == 0, r.cap() == n { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn capacity(&self) -> (r: usize) ensures r == self.cap() { unimplemented!() }
    #[verifier::external_body]
    pub fn freeze(self) -> (r: Bytes) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn split(&mut self) -> (r: BytesMut) ensures r@ == old(self)@, r.cap() == r@.len(), final(self)@.len() == 0, final(self).cap() == old(self).cap() - old(self)@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@.len() == 0, final(self).cap() == old(self).cap() { unimplemented!() }
    #[verifier::external_body]
    pub fn truncate(&mut self, n: usize) ensures final(self).cap() == old(self).cap(), final(self)@ == (if n <= old(self)@.len() { old(self)@.subrange(0, n as int) } else { old(self)@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn reserve(&mut self, n: usize) ensures final(self)@ == old(self)@, final(self).cap() >= old(self)@.len() + n, final(self).cap() >= old(self).cap() { unimplemented!() }
    /// BufMut::has_remaining_mut
    #[verifier::external_body]
    pub fn has_remaining_mut(&self) -> (r: bool) ensures r { unimplemented!() }
    /// BufMut::chunk_mut: the unused capacity, which is not empty
    #[verifier::external_body]
    pub fn zv_chunk(&mut self) -> (r: ReadBuf<'static>)
        ensures r.flen() == 0, r.data().len() == 0, r.cap() > 0, old(self).cap() > old(self)@.len() ==> r.cap() == old(self).cap() - old(self)@.len(),
            final(self)@ == old(self)@, final(self).cap() == old(self)@.len() + r.cap()
    { unimplemented!() }
    /// BufMut::advance_mut after the chunk was filled
    #[verifier::external_body]
    pub fn zv_advance(&mut self, b: ReadBuf<'static>)
        ensures final(self).cap() == old(self).cap(), final(self)@ == old(self)@ + b.fs()
    { unimplemented!() }
}
impl ZvClone for BytesMut {
    /// the clone has no unused capacity
    open spec fn is_clone(a: Self, b: Self) -> bool { b@ == a@ && b.cap() == b@.len() }
    open spec fn clonable(&self) -> bool { true }
    #[verifier::external_body]
    fn zv_clone(&self) -> (r: Self) { unimplemented!() }
}
