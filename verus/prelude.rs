// Trusted contracts of what the code depends on (std, tokio, crc32fast). Every external_body,
// assume_specification and axiom in this file is listed in the evidence as assumed.
#![allow(unused, dead_code, non_snake_case, unused_mut, unused_parens, unused_braces)]
use vstd::prelude::*;
use vstd::utf8::*;
use vstd::std_specs::result::*;
pub use std::io::SeekFrom;
pub use std::task::{Context, Poll};

verus! {

global size_of usize == 8;

#[verifier::reject_recursive_types(T)]
#[verifier::external_type_specification]
pub struct ExPoll<T>(Poll<T>);

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExIoError(std::io::Error);

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExCtx<'a>(std::task::Context<'a>);


#[verifier::external_type_specification]
pub struct ExSeekFrom(SeekFrom);

#[verifier::external_type_specification]
pub struct ExErrorKind(std::io::ErrorKind);

pub assume_specification<T, E>[ std::result::Result::<T, E>::unwrap_or ](x: std::result::Result<T, E>, d: T) -> (r: T)
    where E: std::marker::Destruct, T: std::marker::Destruct,
    ensures r == (if x is Ok { x->Ok_0 } else { d });

pub assume_specification<T>[ std::mem::replace ](d: &mut T, s: T) -> (r: T)
    ensures r == *old(d), *final(d) == s;

pub assume_specification[ std::string::String::len ](s: &std::string::String) -> (r: usize)
    ensures r as nat == encode_utf8(s@).len();

/// a str is a slice in memory
pub broadcast axiom fn axiom_str_len(s: &str)
    ensures #[trigger] encode_utf8(s@).len() <= isize::MAX;

/// `Result` of std::io
pub type IoResult<T> = std::result::Result<T, std::io::Error>;

// ---- what the rewrites of the extraction map to

pub trait ZvPin: Sized {
    fn zv_as_mut(&mut self) -> (r: &mut Self) ensures *r == *old(self), *final(r) == *final(self);
    fn zv_set(&mut self, v: Self) ensures *final(self) == v;
}
impl<T> ZvPin for T {
    fn zv_as_mut(&mut self) -> (r: &mut Self) { self }
    fn zv_set(&mut self, v: Self) { *self = v; }
}

pub fn zv_assert(c: bool) requires c {}

pub fn zv_unreachable<A>() -> A requires false { vstd::pervasive::unreached() }

pub fn zv_and(a: bool, b: bool) -> (r: bool) ensures r == (a && b) { a && b }
pub fn zv_or(a: bool, b: bool) -> (r: bool) ensures r == (a || b) { a || b }

/// From
pub trait ZvFrom<T>: Sized {
    spec fn from_pre(t: T) -> bool;
    fn zv_from(value: T) -> (r: Self) requires Self::from_pre(value);
}

pub trait ZvInto<T>: Sized {
    spec fn into_ok(self, t: T) -> bool;
    fn zv_into(self) -> (r: T) ensures self.into_ok(r);
}
impl ZvInto<std::io::Error> for std::io::Error {
    open spec fn into_ok(self, t: std::io::Error) -> bool { t == self }
    fn zv_into(self) -> (r: std::io::Error) { proof { assert(self.into_ok(self)); } self }
}
impl ZvInto<u16> for u8 {
    open spec fn into_ok(self, t: u16) -> bool { t == self as u16 }
    fn zv_into(self) -> (r: u16) { self as u16 }
}

pub trait ZvInt: Sized + Copy {
    spec fn zi(self) -> int;
    fn zv_le(self, o: Self) -> (r: bool) ensures r == (self.zi() <= o.zi());
}
impl ZvInt for i32 { open spec fn zi(self) -> int { self as int } fn zv_le(self, o: Self) -> (r: bool) { self <= o } }
impl ZvInt for u32 { open spec fn zi(self) -> int { self as int } fn zv_le(self, o: Self) -> (r: bool) { self <= o } }
impl ZvInt for u16 { open spec fn zi(self) -> int { self as int } fn zv_le(self, o: Self) -> (r: bool) { self <= o } }
impl ZvInt for u64 { open spec fn zi(self) -> int { self as int } fn zv_le(self, o: Self) -> (r: bool) { self <= o } }
pub fn zv_in_closed<T: ZvInt>(lo: T, hi: T, x: &T) -> (r: bool) ensures r == (lo.zi() <= x.zi() <= hi.zi()) { lo.zv_le(*x) && x.zv_le(hi) }
pub fn zv_in_half_open<T: ZvInt>(lo: T, hi: T, x: &T) -> (r: bool) ensures r == (lo.zi() <= x.zi() < hi.zi()) { lo.zv_le(*x) && !hi.zv_le(*x) }

pub trait ZvOption<T>: Sized {
    spec fn zopt(self) -> Option<T>;
    fn zv_unwrap_or_default(self) -> (r: T) where T: ZvDefault ensures match self.zopt() { Some(x) => r == x, None => T::is_default(r) };
}
impl<T> ZvOption<T> for Option<T> {
    open spec fn zopt(self) -> Option<T> { self }
    fn zv_unwrap_or_default(self) -> (r: T) where T: ZvDefault { match self { Some(x) => x, None => T::zv_default() } }
}

/// what map_or takes apart
pub trait ZvAsOpt<T>: Sized {
    spec fn zasopt(self) -> Option<T>;
    fn zv_opt(self) -> (r: Option<T>) ensures r == self.zasopt();
}
impl<T> ZvAsOpt<T> for Option<T> {
    open spec fn zasopt(self) -> Option<T> { self }
    fn zv_opt(self) -> (r: Option<T>) { self }
}
impl<T, E> ZvAsOpt<T> for std::result::Result<T, E> {
    open spec fn zasopt(self) -> Option<T> { match self { Ok(x) => Some(x), Err(_) => None } }
    fn zv_opt(self) -> (r: Option<T>) { match self { Ok(x) => Some(x), Err(_) => None } }
}

pub trait ZvOptRef<T>: Sized {
    spec fn zoptr(&self) -> Option<T>;
    fn zv_as_ref(&self) -> (r: Option<&T>) ensures match self.zoptr() { Some(x) => r is Some && *r->Some_0 == x, None => r is None };
}
impl<T> ZvOptRef<T> for Option<T> {
    open spec fn zoptr(&self) -> Option<T> { *self }
    fn zv_as_ref(&self) -> (r: Option<&T>) { self.as_ref() }
}

pub trait ZvDefault: Sized {
    spec fn is_default(r: Self) -> bool;
    fn zv_default() -> (r: Self) ensures Self::is_default(r);
}

pub trait ZvSliceExt<T> {
    spec fn zvs(&self) -> Seq<T>;
    fn zv_from_mut(&mut self, lo: usize) -> (r: &mut [T])
        requires lo <= old(self).zvs().len()
        ensures r@ == old(self).zvs().subrange(lo as int, old(self).zvs().len() as int),
            final(r)@.len() == r@.len(),
            final(self).zvs() == old(self).zvs().subrange(0, lo as int) + final(r)@;
}
impl<T> ZvSliceExt<T> for Vec<T> {
    open spec fn zvs(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn zv_from_mut(&mut self, lo: usize) -> (r: &mut [T]) { &mut self[lo..] }
}

// ---- tokio::io::ReadBuf: a buffer of `cap` bytes, of which `data` are initialised and `flen` are filled

#[verifier::external_body]
pub struct ReadBuf<'a> { p: core::marker::PhantomData<&'a mut u8> }

/// how many bytes fit into a vector without growing it
pub uninterp spec fn spare(v: Vec<u8>) -> nat;
/// Vec::reserve
#[verifier::external_body]
pub fn zv_reserve(v: &mut Vec<u8>, n: usize)
    ensures final(v)@ == old(v)@, spare(*final(v)) >= n
{ unimplemented!() }
/// ReadBuf::uninit(&mut v.spare_capacity_mut()[..n]): the index is in bounds only if n bytes are spare
#[verifier::external_body]
pub fn zv_uninit<'a>(v: &'a mut Vec<u8>, n: usize) -> (r: ReadBuf<'a>)
    requires spare(*old(v)) >= n
    ensures final(v)@ == old(v)@, r.flen() == 0, r.data().len() == 0, r.cap() == n
{ unimplemented!() }
impl<'a> ReadBuf<'a> {
    pub uninterp spec fn cap(&self) -> nat;
    pub uninterp spec fn data(&self) -> Seq<u8>;
    pub uninterp spec fn flen(&self) -> nat;
    pub open spec fn fs(&self) -> Seq<u8> { self.data().subrange(0, self.flen() as int) }
    pub open spec fn rem(&self) -> int { self.cap() - self.flen() }

    #[verifier::external_body]
    pub fn remaining(&self) -> (r: usize) ensures r == self.rem() { unimplemented!() }

    #[verifier::external_body]
    pub fn filled(&self) -> (r: &[u8]) ensures r@ == self.fs() { unimplemented!() }

    #[verifier::external_body]
    pub fn put_slice(&mut self, b: &[u8])
        requires b@.len() <= old(self).rem()
        ensures appended(*old(self), *final(self), b@)
    { unimplemented!() }

    #[verifier::external_body]
    pub fn initialize_unfilled_to(&mut self, n: usize) -> (r: &mut [u8])
        requires n <= old(self).rem()
        ensures r@.len() == n, final(r)@.len() == n,
            final(self).cap() == old(self).cap(), final(self).flen() == old(self).flen(),
            final(self).fs() == old(self).fs(),
            final(self).data().len() >= old(self).flen() + n,
            final(self).data().len() >= old(self).data().len(),
            final(self).data().subrange(old(self).flen() as int, (old(self).flen() + n) as int) == final(r)@,
    { unimplemented!() }

    #[verifier::external_body]
    pub fn advance(&mut self, n: usize)
        requires old(self).flen() + n <= old(self).data().len()
        ensures final(self).cap() == old(self).cap(), final(self).data() == old(self).data(),
            final(self).flen() == old(self).flen() + n
    { unimplemented!() }

    #[verifier::external_body]
    pub fn set_filled(&mut self, n: usize)
        requires n <= old(self).data().len()
        ensures final(self).cap() == old(self).cap(), final(self).data() == old(self).data(), final(self).flen() == n
    { unimplemented!() }

    #[verifier::external_body]
    pub fn clear(&mut self)
        ensures final(self).cap() == old(self).cap(), final(self).data() == old(self).data(), final(self).flen() == 0
    { unimplemented!() }

    #[verifier::external_body]
    pub fn take(&mut self, n: usize) -> (r: ReadBuf<'_>)
        ensures r.flen() == 0, r.data().len() == 0,
            r.cap() == (if n <= old(self).rem() { n as int } else { old(self).rem() }),
            final(self).cap() == old(self).cap(), final(self).flen() == old(self).flen(),
            final(self).data().len() == old(self).data().len(), final(self).fs() == old(self).fs()
    { unimplemented!() }
}

pub broadcast axiom fn axiom_readbuf(b: ReadBuf<'_>)
    ensures #[trigger] b.flen() <= b.data().len(), b.data().len() <= b.cap(), b.cap() <= isize::MAX;

/// the same bytes are filled
pub open spec fn unfilled_only(a: ReadBuf<'_>, b: ReadBuf<'_>) -> bool {
    b.cap() == a.cap() && b.flen() == a.flen() && b.fs() == a.fs()
}
/// `bytes` were appended to the filled part
pub open spec fn appended(a: ReadBuf<'_>, b: ReadBuf<'_>, bytes: Seq<u8>) -> bool {
    &&& b.cap() == a.cap()
    &&& b.flen() == a.flen() + bytes.len()
    &&& b.fs() == a.fs() + bytes
}

// ---- crc32fast

pub uninterp spec fn spec_crc(b: Seq<u8>) -> u32;

pub mod crc32fast {
    use super::*;
    verus! {
    #[verifier::external_body]
    pub struct Hasher { x: u32 }
    impl Hasher {
        pub uninterp spec fn view(&self) -> Seq<u8>;
        #[verifier::external_body]
        pub fn new() -> (r: Hasher) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
        #[verifier::external_body]
        pub fn update(&mut self, b: &[u8]) ensures final(self)@ == old(self)@ + b@ { unimplemented!() }
        #[verifier::external_body]
        pub fn finalize(self) -> (r: u32) ensures r == spec_crc(self@) { unimplemented!() }
        #[verifier::external_body]
        pub fn clone(&self) -> (r: Hasher) ensures r@ == self@ { unimplemented!() }
    }
    #[verifier::external_body]
    pub fn hash(b: &[u8]) -> (r: u32) ensures r == spec_crc(b@), b@.len() == 0 ==> r == spec_crc(Seq::<u8>::empty()) { unimplemented!() }
    }
}

// ---- errors

/// the error was reported by a data source (never true of the errors made by this library)
pub uninterp spec fn from_source(e: std::io::Error) -> bool;
pub uninterp spec fn err_kind(e: std::io::Error) -> std::io::ErrorKind;
pub assume_specification<T>[ Poll::<T>::is_ready ](p: &Poll<T>) -> (r: bool) ensures r == (*p is Ready);
pub assume_specification<T>[ Poll::<T>::is_pending ](p: &Poll<T>) -> (r: bool) ensures r == (*p is Pending);
pub open spec fn ready_val<T>(p: Poll<T>) -> T { match p { Poll::Ready(x) => x, Poll::Pending => arbitrary() } }
pub open spec fn start_of(p: SeekFrom) -> u64 { match p { SeekFrom::Start(x) => x, _ => arbitrary() } }
pub trait ZvSearch<T> {
    spec fn zvsq(&self) -> Seq<T>;
    /// core::slice::binary_search_by_key on a sorted slice
    fn zv_binary_search_by_key<F: Fn(&T) -> u64>(&self, b: &u64, f: F) -> (r: std::result::Result<usize, usize>)
        requires
            forall|i: int| 0 <= i < self.zvsq().len() ==> #[trigger] f.requires((&self.zvsq()[i],)),
            forall|i: int, j: int, k: u64, l: u64| 0 <= i < j < self.zvsq().len() && #[trigger] f.ensures((&self.zvsq()[i],), k) && #[trigger] f.ensures((&self.zvsq()[j],), l) ==> k <= l,
        ensures
            match r {
                Ok(i) => i < self.zvsq().len() && f.ensures((&self.zvsq()[i as int],), *b),
                Err(i) => i <= self.zvsq().len()
                    && (i > 0 ==> exists|k: u64| k < *b && #[trigger] f.ensures((&self.zvsq()[i - 1],), k))
                    && (i < self.zvsq().len() ==> exists|k: u64| k > *b && #[trigger] f.ensures((&self.zvsq()[i as int],), k)),
            };
}
impl<T> ZvSearch<T> for [T] {
    open spec fn zvsq(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn zv_binary_search_by_key<F: Fn(&T) -> u64>(&self, b: &u64, f: F) -> (r: std::result::Result<usize, usize>) { unimplemented!() }
}
