// tokio's AsyncRead and AsyncSeek: what the callers of an implementation have to respect is stated by the implementation
pub trait AsyncRead {
    spec fn ar_pre(&self, buf: ReadBuf<'_>) -> bool;
    fn poll_read(&mut self, ctx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> (r: Poll<IoResult<()>>)
        requires old(self).ar_pre(*old(buf));
}
pub trait AsyncSeek {
    spec fn sk_pre(&self, position: SeekFrom) -> bool;
    spec fn pc_pre(&self) -> bool;
    fn start_seek(&mut self, position: SeekFrom) -> (r: IoResult<()>)
        requires old(self).sk_pre(position);
    fn poll_complete(&mut self, _cx: &mut Context<'_>) -> (r: Poll<IoResult<u64>>)
        requires old(self).pc_pre();
}
/// Clone, and that the clone of a data source is a source of the same data
pub trait ZvClone: Sized {
    spec fn is_clone(a: Self, b: Self) -> bool;
    spec fn clonable(&self) -> bool;
    fn zv_clone(&self) -> (r: Self) requires self.clonable() ensures Self::is_clone(*self, r);
}
impl ZvClone for String {
    open spec fn is_clone(a: Self, b: Self) -> bool { a@ == b@ }
    open spec fn clonable(&self) -> bool { true }
    #[verifier::external_body]
    fn zv_clone(&self) -> (r: Self) { self.clone() }
}
impl<T: ZvClone> ZvClone for Vec<T> {
    open spec fn is_clone(a: Self, b: Self) -> bool { a@.len() == b@.len() && forall|i: int| 0 <= i < a@.len() ==> #[trigger] T::is_clone(a@[i], b@[i]) }
    open spec fn clonable(&self) -> bool { forall|i: int| 0 <= i < self@.len() ==> (#[trigger] self@[i]).clonable() }
    #[verifier::external_body]
    fn zv_clone(&self) -> (r: Self) { unimplemented!() }
}
impl<T: ZvClone> ZvClone for Option<T> {
    open spec fn is_clone(a: Self, b: Self) -> bool { match a { None => b is None, Some(x) => match b { Some(y) => T::is_clone(x, y), None => false } } }
    open spec fn clonable(&self) -> bool { match *self { Some(x) => x.clonable(), None => true } }
    fn zv_clone(&self) -> (r: Self) { match self { None => None, Some(x) => Some(x.zv_clone()) } }
}
impl ZvClone for u64 { open spec fn is_clone(a: Self, b: Self) -> bool { a == b } open spec fn clonable(&self) -> bool { true } fn zv_clone(&self) -> (r: Self) { *self } }
impl ZvClone for u32 { open spec fn is_clone(a: Self, b: Self) -> bool { a == b } open spec fn clonable(&self) -> bool { true } fn zv_clone(&self) -> (r: Self) { *self } }
impl ZvClone for u16 { open spec fn is_clone(a: Self, b: Self) -> bool { a == b } open spec fn clonable(&self) -> bool { true } fn zv_clone(&self) -> (r: Self) { *self } }
impl ZvClone for usize { open spec fn is_clone(a: Self, b: Self) -> bool { a == b } open spec fn clonable(&self) -> bool { true } fn zv_clone(&self) -> (r: Self) { *self } }
impl ZvClone for bool { open spec fn is_clone(a: Self, b: Self) -> bool { a == b } open spec fn clonable(&self) -> bool { true } fn zv_clone(&self) -> (r: Self) { *self } }

/// a lazy iterator over a slice that is not changed while it lives, as the sequence it yields
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct ZvIter<T> { p: core::marker::PhantomData<T> }
pub open spec fn flat<T>(s: Seq<Option<T>>) -> Seq<T>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { match s.last() { Some(x) => flat(s.drop_last()).push(x), None => flat(s.drop_last()) } }
}
impl<T> ZvIter<T> {
    pub uninterp spec fn view(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn filter_map<U, F: Fn(T) -> Option<U>>(self, f: F) -> (r: ZvIter<U>)
        requires forall|i: int| 0 <= i < self@.len() ==> #[trigger] f.requires((self@[i],))
        ensures exists|m: Seq<Option<U>>| m.len() == self@.len() && r@ == flat(m) && (forall|i: int| 0 <= i < m.len() ==> f.ensures((self@[i],), #[trigger] m[i]))
    { unimplemented!() }
}
pub trait ZvIterExt<T> {
    spec fn zvis(&self) -> Seq<T>;
    fn zv_iter(&self) -> (r: ZvIter<&T>) ensures r@.len() == self.zvis().len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == self.zvis()[i];
}
impl<T> ZvIterExt<T> for Vec<T> {
    open spec fn zvis(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn zv_iter(&self) -> (r: ZvIter<&T>) { unimplemented!() }
}
impl<T> ZvIter<T> {
    /// how many items were taken
    pub uninterp spec fn idx(&self) -> nat;
    #[verifier::external_body]
    pub fn zv_next(&mut self) -> (r: Option<T>)
        ensures final(self)@ == old(self)@,
            old(self).idx() < old(self)@.len() ==> r == Some(old(self)@[old(self).idx() as int]) && final(self).idx() == old(self).idx() + 1,
            old(self).idx() >= old(self)@.len() ==> r is None && final(self).idx() == old(self).idx()
    { unimplemented!() }
}
pub trait ZvIntoIter<T>: Sized {
    spec fn zv_items(self) -> Seq<T>;
    fn zv_into_iter(self) -> (r: ZvIter<T>) ensures r@ == self.zv_items(), r.idx() == 0, r@.len() <= usize::MAX;
}
