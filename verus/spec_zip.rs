// The specification: the bytes of a Zip64 store-only archive, and where they are.
pub mod spec {
use super::*;
use super::structs::*;
verus! {

pub struct ZE {
    pub name: Seq<u8>, pub content: Seq<u8>, pub size: u64, pub crc: u32,
    pub time: u16, pub date: u16, pub attrs: u32, pub offset: u64,
}
pub struct ZS { pub cd_offset: u64, pub cd_size: u64, pub eocd_offset: u64, pub total_size: u64 }

pub open spec fn lh_fixed(e: ZE) -> Seq<u8> {
    le4(0x04034b50) + le2(45) + le2(0x0808) + le2(0) + (le2(e.time) + le2(e.date)) + le4(0) + le4(0xffff_ffff) + le4(0xffff_ffff)
        + le2(e.name.len() as u16) + le2(28)
}
pub open spec fn lh_extra(e: ZE) -> Seq<u8> { le2(1) + le2(24) + le8(0) + le8(0) + le8(e.offset) }
#[verifier::opaque]
pub open spec fn lh(e: ZE) -> Seq<u8> { lh_fixed(e) + e.name + lh_extra(e) }
#[verifier::opaque]
pub open spec fn dd(e: ZE) -> Seq<u8> { le4(0x08074b50) + le4(e.crc) + le8(e.size) + le8(e.size) }
pub open spec fn cd_fixed(e: ZE) -> Seq<u8> {
    le4(0x02014b50) + (le1(45) + le1(3)) + le2(45) + le2(0x0800) + le2(0) + (le2(e.time) + le2(e.date)) + le4(e.crc)
        + le4(0xffff_ffff) + le4(0xffff_ffff) + le2(e.name.len() as u16) + le2(28) + le2(0) + le2(0) + le2(0) + le4(e.attrs) + le4(0xffff_ffff)
}
pub open spec fn cd_extra(e: ZE) -> Seq<u8> { le2(1) + le2(24) + le8(e.size) + le8(e.size) + le8(e.offset) }
#[verifier::opaque]
pub open spec fn cd(e: ZE) -> Seq<u8> { cd_fixed(e) + e.name + cd_extra(e) }
pub open spec fn eocd_rec(n: int, s: ZS) -> Seq<u8> {
    le4(0x06064b50) + le8(44) + (le1(45) + le1(3)) + le2(45) + le4(0) + le4(0) + le8(n as u64) + le8(n as u64) + le8(s.cd_size) + le8(s.cd_offset)
}
pub open spec fn eocd_loc(s: ZS) -> Seq<u8> { le4(0x07064b50) + le4(0) + le8(s.eocd_offset) + le4(1) }
pub open spec fn eocd_end() -> Seq<u8> {
    le4(0x06054b50) + le2(0) + le2(0) + le2(0xffff) + le2(0xffff) + le4(0xffff_ffff) + le4(0xffff_ffff) + le2(0)
}
#[verifier::opaque]
pub open spec fn eocd(n: int, s: ZS) -> Seq<u8> { eocd_rec(n, s) + eocd_loc(s) + eocd_end() }

// ---- sizes and offsets
pub open spec fn lh_len(e: ZE) -> int { 58 + e.name.len() as int }
pub open spec fn cd_len(e: ZE) -> int { 74 + e.name.len() as int }
pub open spec fn off(z: Seq<ZE>, i: int) -> int
    decreases i
{ if i <= 0 { 0 } else { off(z, i - 1) + lh_len(z[i - 1]) + z[i - 1].size + 24 } }
pub open spec fn cdo(z: Seq<ZE>, i: int) -> int
    decreases i
{ if i <= 0 { 0 } else { cdo(z, i - 1) + cd_len(z[i - 1]) } }

pub open spec fn wf_zip(z: Seq<ZE>, s: ZS) -> bool {
    &&& forall|i: int| 0 <= i < z.len() ==> (#[trigger] z[i]).offset == off(z, i) && z[i].name.len() <= 0xffff
    &&& s.cd_offset == off(z, z.len() as int)
    &&& s.cd_size == cdo(z, z.len() as int)
    &&& s.eocd_offset == s.cd_offset + s.cd_size
    &&& s.total_size == s.eocd_offset + 98
}
pub open spec fn faithful(z: Seq<ZE>) -> bool { forall|i: int| 0 <= i < z.len() ==> (#[trigger] z[i]).content.len() == z[i].size }

// ---- the whole archive
pub open spec fn fbytes(z: Seq<ZE>, i: int) -> Seq<u8>
    decreases i
{ if i <= 0 { Seq::empty() } else { fbytes(z, i - 1) + lh(z[i - 1]) + z[i - 1].content + dd(z[i - 1]) } }
pub open spec fn cbytes(z: Seq<ZE>, i: int) -> Seq<u8>
    decreases i
{ if i <= 0 { Seq::empty() } else { cbytes(z, i - 1) + cd(z[i - 1]) } }
/// the zip of the entries in order
pub open spec fn whole(z: Seq<ZE>, s: ZS) -> Seq<u8> { fbytes(z, z.len() as int) + cbytes(z, z.len() as int) + eocd(z.len() as int, s) }

pub open spec fn window(w: Seq<u8>, c: int, b: Seq<u8>) -> bool {
    0 <= c && c + b.len() <= w.len() && w.subrange(c, c + b.len()) == b
}

pub proof fn lemma_lens(e: ZE)
    ensures lh(e).len() == lh_len(e), cd(e).len() == cd_len(e), dd(e).len() == 24, lh_fixed(e).len() == 30, lh_extra(e).len() == 28,
        cd_fixed(e).len() == 46, cd_extra(e).len() == 28
{ reveal(lh); reveal(cd); reveal(dd); }
pub proof fn lemma_eocd_len(n: int, s: ZS)
    ensures eocd(n, s).len() == 98, eocd_rec(n, s).len() == 56, eocd_loc(s).len() == 20, eocd_end().len() == 22
{ reveal(eocd); }

pub proof fn lemma_off_mono(z: Seq<ZE>, i: int, j: int)
    requires 0 <= i <= j <= z.len()
    ensures 0 <= off(z, i) <= off(z, j), i < j ==> off(z, i) + lh_len(z[i]) + z[i].size + 24 <= off(z, j)
    decreases j
{
    if j > 0 && i < j { lemma_off_mono(z, i, j - 1); }
    if i == j && i > 0 { lemma_off_mono(z, i - 1, j - 1); }
}
pub proof fn lemma_cdo_mono(z: Seq<ZE>, i: int, j: int)
    requires 0 <= i <= j <= z.len()
    ensures 0 <= cdo(z, i) <= cdo(z, j), i < j ==> cdo(z, i) + cd_len(z[i]) <= cdo(z, j)
    decreases j
{
    if j > 0 && i < j { lemma_cdo_mono(z, i, j - 1); }
    if i == j && i > 0 { lemma_cdo_mono(z, i - 1, j - 1); }
}

proof fn lemma_fbytes_window(z: Seq<ZE>, i: int, j: int)
    requires 0 <= j <= z.len(), faithful(z)
    ensures fbytes(z, j).len() == off(z, j),
        0 <= i < j ==> window(fbytes(z, j), off(z, i), lh(z[i]))
            && window(fbytes(z, j), off(z, i) + lh_len(z[i]), z[i].content)
            && window(fbytes(z, j), off(z, i) + lh_len(z[i]) + z[i].size, dd(z[i]))
    decreases j
{
    if j > 0 {
        lemma_lens(z[j - 1]);
        lemma_fbytes_window(z, i, j - 1);
        let a = fbytes(z, j - 1);
        let b = fbytes(z, j);
        if 0 <= i < j - 1 {
            lemma_lens(z[i]);
            assert(b.subrange(0, a.len() as int) =~= a);
            lemma_off_mono(z, i, j - 1);
            lemma_window_ext(a, b, off(z, i), lh(z[i]));
            lemma_window_ext(a, b, off(z, i) + lh_len(z[i]), z[i].content);
            lemma_window_ext(a, b, off(z, i) + lh_len(z[i]) + z[i].size, dd(z[i]));
        } else if i == j - 1 {
            lemma_off_mono(z, 0, j - 1);
            assert(b.subrange(off(z, i), off(z, i) + lh_len(z[i])) =~= lh(z[i]));
            assert(b.subrange(off(z, i) + lh_len(z[i]), off(z, i) + lh_len(z[i]) + z[i].size) =~= z[i].content);
            assert(b.subrange(off(z, i) + lh_len(z[i]) + z[i].size, off(z, i) + lh_len(z[i]) + z[i].size + 24) =~= dd(z[i]));
        }
    }
}
proof fn lemma_window_ext(a: Seq<u8>, b: Seq<u8>, c: int, x: Seq<u8>)
    requires window(a, c, x), a.len() <= b.len(), b.subrange(0, a.len() as int) == a
    ensures window(b, c, x)
{
    assert(b.subrange(c, c + x.len()) =~= a.subrange(c, c + x.len())) by {
        assert forall|k: int| c <= k < c + x.len() implies b[k] == a[k] by { assert(b.subrange(0, a.len() as int)[k] == a[k]); }
    }
}
proof fn lemma_window_shift(p: Seq<u8>, b: Seq<u8>, q: Seq<u8>, c: int, x: Seq<u8>)
    requires window(b, c, x)
    ensures window(p + b + q, p.len() + c, x)
{
    assert((p + b + q).subrange(p.len() + c, p.len() + c + x.len()) =~= b.subrange(c, c + x.len()));
}
proof fn lemma_cbytes_window(z: Seq<ZE>, i: int, j: int)
    requires 0 <= j <= z.len()
    ensures cbytes(z, j).len() == cdo(z, j), 0 <= i < j ==> window(cbytes(z, j), cdo(z, i), cd(z[i]))
    decreases j
{
    if j > 0 {
        lemma_lens(z[j - 1]);
        lemma_cbytes_window(z, i, j - 1);
        let a = cbytes(z, j - 1);
        let b = cbytes(z, j);
        if 0 <= i < j - 1 {
            assert(b.subrange(0, a.len() as int) =~= a);
            lemma_window_ext(a, b, cdo(z, i), cd(z[i]));
        } else if i == j - 1 {
            lemma_cdo_mono(z, 0, j - 1);
            assert(b.subrange(cdo(z, i), cdo(z, i) + cd_len(z[i])) =~= cd(z[i]));
        }
    }
}

/// where each part of the archive is
pub open spec fn windows(w: Seq<u8>, z: Seq<ZE>, s: ZS) -> bool {
    &&& w.len() == s.total_size
    &&& forall|i: int| 0 <= i < z.len() ==> window(w, (#[trigger] z[i]).offset as int, lh(z[i]))
            && window(w, z[i].offset + lh_len(z[i]), z[i].content)
            && window(w, z[i].offset + lh_len(z[i]) + z[i].size, dd(z[i]))
            && window(w, s.cd_offset + cdo(z, i), cd(z[i]))
    &&& window(w, s.eocd_offset as int, eocd(z.len() as int, s))
}
proof fn lemma_window_at(z: Seq<ZE>, s: ZS, i: int)
    requires wf_zip(z, s), faithful(z), 0 <= i < z.len()
    ensures
        fbytes(z, z.len() as int).len() == s.cd_offset,
        z[i].offset == off(z, i), z[i].offset >= 0,
        window(fbytes(z, z.len() as int), z[i].offset as int, lh(z[i])),
        window(fbytes(z, z.len() as int), z[i].offset + lh_len(z[i]), z[i].content),
        window(fbytes(z, z.len() as int), z[i].offset + lh_len(z[i]) + z[i].size, dd(z[i])),
        window(cbytes(z, z.len() as int), cdo(z, i), cd(z[i])),
{
    hide(window);
    lemma_fbytes_window(z, i, z.len() as int);
    lemma_cbytes_window(z, i, z.len() as int);
}
proof fn lemma_windows_of(w: Seq<u8>, f: Seq<u8>, c: Seq<u8>, e: Seq<u8>, a: Seq<u8>, k: int)
    requires w == f + c + e
    ensures window(f, k, a) ==> window(w, k, a), window(c, k, a) ==> window(w, f.len() + k, a)
{
    if window(f, k, a) {
        assert(w =~= Seq::<u8>::empty() + f + (c + e));
        lemma_window_shift(Seq::empty(), f, c + e, k, a);
    }
    if window(c, k, a) { lemma_window_shift(f, c, e, k, a); }
}
proof fn lemma_windows_len(z: Seq<ZE>, s: ZS)
    requires wf_zip(z, s), faithful(z)
    ensures fbytes(z, z.len() as int).len() == s.cd_offset, cbytes(z, z.len() as int).len() == s.eocd_offset - s.cd_offset,
        s.total_size == s.eocd_offset + 98, eocd(z.len() as int, s).len() == 98,
{
    hide(window); hide(fbytes); hide(cbytes);
    lemma_fbytes_window(z, 0, z.len() as int);
    lemma_cbytes_window(z, 0, z.len() as int);
    lemma_eocd_len(z.len() as int, s);
}
pub proof fn lemma_windows(z: Seq<ZE>, s: ZS)
    requires wf_zip(z, s), faithful(z)
    ensures windows(whole(z, s), z, s)
{
    hide(wf_zip); hide(faithful); hide(window); hide(fbytes); hide(cbytes); hide(off); hide(cdo); hide(lh_len);
    let n = z.len() as int;
    let w = whole(z, s);
    let (f, c, e) = (fbytes(z, n), cbytes(z, n), eocd(n, s));
    lemma_windows_len(z, s);
    assert(w == f + (c + e)) by { assert(w =~= f + (c + e)); }
    assert(w == f + c + e) by { assert(w =~= f + c + e); }
    assert forall|i: int| 0 <= i < n implies window(w, (#[trigger] z[i]).offset as int, lh(z[i]))
            && window(w, z[i].offset + lh_len(z[i]), z[i].content)
            && window(w, z[i].offset + lh_len(z[i]) + z[i].size, dd(z[i]))
            && window(w, s.cd_offset + cdo(z, i), cd(z[i])) by {
        lemma_window_at(z, s, i);
        lemma_windows_of(w, f, c, e, lh(z[i]), z[i].offset as int);
        lemma_windows_of(w, f, c, e, z[i].content, z[i].offset + lh_len(z[i]));
        lemma_windows_of(w, f, c, e, dd(z[i]), z[i].offset + lh_len(z[i]) + z[i].size);
        lemma_windows_of(w, f, c, e, cd(z[i]), cdo(z, i));
    }
    assert(window(w, s.eocd_offset as int, e)) by {
        assert(w.subrange(s.eocd_offset as int, s.eocd_offset + 98) =~= e);
        reveal(window);
    }
}

// ---- emission: what reading a structure does to staging buffer, skip count and output
#[verifier::ext_equal]
pub struct ES { pub s: Seq<u8>, pub t: int, pub f: Seq<u8>, pub cap: int }

/// b was passed: skipped as a whole, written to the output, put into the staging buffer, or partly so; whatever
/// the reader prefers, what follows in the archive is what is staged from the skip count on.
pub open spec fn passed(e: ES, r: ES, b: Seq<u8>) -> bool {
    let a = e.s + b;
    &&& r.cap == e.cap
    &&& r.f.len() <= r.cap
    &&& r.s.len() == 0 && e.t >= a.len() ==> r.f =~= e.f && r.t == e.t - a.len()
    &&& r.s.len() == 0 && e.t < a.len() ==> r.f =~= e.f + a.subrange(e.t, a.len() as int) && r.t == 0
    &&& r.s.len() > 0 ==> r.s =~= a && e.t <= r.t < a.len() && r.f =~= e.f + a.subrange(e.t, r.t)
}

/// The output so far is f0 and then the bytes from p0 of the archive w, and what follows in w is the staging
/// buffer from the skip count on, and then what is at c.
pub open spec fn at(w: Seq<u8>, e: ES, c: int, f0: Seq<u8>, p0: int) -> bool {
    let p = p0 + e.f.len() - f0.len();
    &&& 0 <= c - e.s.len() && c <= w.len()
    &&& e.s.len() > 0 ==> e.s == w.subrange(c - e.s.len(), c)
    &&& p == c - e.s.len() + e.t
    &&& 0 <= e.t && 0 <= p0
    &&& e.s.len() > 0 ==> e.t < e.s.len()
    &&& f0.len() <= e.f.len() <= e.cap
    &&& e.f.subrange(0, f0.len() as int) == f0
    &&& e.f.len() > f0.len() ==> p <= w.len() && e.f.subrange(f0.len() as int, e.f.len() as int) == w.subrange(p0, p)
}

pub proof fn lemma_passed(w: Seq<u8>, e: ES, r: ES, c: int, f0: Seq<u8>, p0: int, b: Seq<u8>)
    requires at(w, e, c, f0, p0), window(w, c, b), passed(e, r, b)
    ensures at(w, r, c + b.len(), f0, p0)
{
    let a = e.s + b;
    let c1 = c + b.len();
    assert(a =~= w.subrange(c - e.s.len(), c1)) by {
        assert(b =~= w.subrange(c, c1));
        assert(e.s =~= w.subrange(c - e.s.len(), c));
    }
    let p = p0 + e.f.len() - f0.len();
    let k = r.f.len() - e.f.len();
    assert(r.s =~= w.subrange(c1 - r.s.len(), c1));
    if k > 0 {
        let x = a.subrange(e.t, e.t + k);
        assert(x =~= w.subrange(p, p + k));
        assert(r.f =~= e.f + x);
        if e.f.len() > f0.len() {
            assert(r.f.subrange(f0.len() as int, r.f.len() as int) =~= e.f.subrange(f0.len() as int, e.f.len() as int) + x);
            assert(w.subrange(p0, p + k) =~= w.subrange(p0, p) + w.subrange(p, p + k));
        } else {
            assert(r.f.subrange(f0.len() as int, r.f.len() as int) =~= x);
        }
    } else {
        assert(r.f =~= e.f);
    }
    assert(r.f.subrange(0, f0.len() as int) =~= e.f.subrange(0, f0.len() as int));
}
pub proof fn lemma_window_split(w: Seq<u8>, c: int, a: Seq<u8>, b: Seq<u8>)
    requires window(w, c, a + b)
    ensures window(w, c, a), window(w, c + a.len(), b)
{
    let x = w.subrange(c, c + (a + b).len());
    assert(w.subrange(c, c + a.len()) =~= x.subrange(0, a.len() as int));
    assert(x.subrange(0, a.len() as int) =~= a);
    assert(w.subrange(c + a.len(), c + a.len() + b.len()) =~= x.subrange(a.len() as int, x.len() as int));
    assert(x.subrange(a.len() as int, x.len() as int) =~= b);
}
/// reading a part that is at c of the archive moves c behind it
pub open spec fn advances(e: ES, r: ES, b: Seq<u8>) -> bool {
    forall|w: Seq<u8>, c: int, f0: Seq<u8>, p0: int| #[trigger] at(w, e, c, f0, p0) && window(w, c, b) ==> at(w, r, c + b.len(), f0, p0)
}
// ---- what is known of a step whatever the archive is
pub open spec fn es_ok(e: ES) -> bool { e.t >= 0 && (e.s.len() > 0 ==> e.t < e.s.len()) && e.f.len() <= e.cap }
/// k bytes of the archive were passed
pub open spec fn moves(e: ES, r: ES, k: int) -> bool {
    &&& es_ok(r)
    &&& r.cap == e.cap
    &&& r.f.len() - e.f.len() == k - (r.s.len() - e.s.len()) + (r.t - e.t)
    &&& e.f.len() <= r.f.len()
    &&& r.f.subrange(0, e.f.len() as int) == e.f
    &&& r.s.len() <= e.s.len() + k
    &&& r.f.len() > e.f.len() && r.s.len() == 0 ==> r.t == 0
    &&& e.s.len() == 0 && e.t == 0 && r.s.len() == 0 ==> r.t == 0
    &&& e.s.len() > 0 && r.f.len() == e.f.len() ==> r.s.len() > 0
}
pub open spec fn step(e: ES, r: ES, b: Seq<u8>) -> bool { advances(e, r, b) && moves(e, r, b.len() as int) }

pub proof fn lemma_step(e: ES, r: ES, b: Seq<u8>)
    requires es_ok(e), passed(e, r, b)
    ensures step(e, r, b)
{
    assert forall|w: Seq<u8>, c: int, f0: Seq<u8>, p0: int| #[trigger] at(w, e, c, f0, p0) && window(w, c, b)
        implies at(w, r, c + b.len(), f0, p0) by { lemma_passed(w, e, r, c, f0, p0, b); }
    assert(r.f.subrange(0, e.f.len() as int) =~= e.f);
}
pub proof fn lemma_step2(e: ES, r: ES, q: ES, a: Seq<u8>, b: Seq<u8>)
    requires step(e, r, a), step(r, q, b)
    ensures step(e, q, a + b)
{
    assert forall|w: Seq<u8>, c: int, f0: Seq<u8>, p0: int| #[trigger] at(w, e, c, f0, p0) && window(w, c, a + b)
        implies at(w, q, c + (a + b).len(), f0, p0) by {
        lemma_window_split(w, c, a, b);
        assert(at(w, r, c + a.len(), f0, p0));
    }
    assert(q.f.subrange(0, e.f.len() as int) =~= q.f.subrange(0, r.f.len() as int).subrange(0, e.f.len() as int));
}
/// passing three parts one after the other
pub proof fn lemma_step3(e: ES, a: Seq<u8>, b: Seq<u8>, d: Seq<u8>)
    requires es_ok(e)
    ensures forall|r: ES, q: ES, x: ES| #[trigger] passed(e, r, a) && #[trigger] passed(r, q, b) && #[trigger] passed(q, x, d) ==> step(e, x, a + b + d)
{
    assert forall|r: ES, q: ES, x: ES| #[trigger] passed(e, r, a) && #[trigger] passed(r, q, b) && #[trigger] passed(q, x, d)
        implies step(e, x, a + b + d) by {
        lemma_step(e, r, a);
        lemma_step(r, q, b);
        lemma_step(q, x, d);
        lemma_step2(e, r, q, a, b);
        lemma_step2(e, q, x, a + b, d);
    }
}
pub proof fn lemma_step1(e: ES, b: Seq<u8>)
    requires es_ok(e)
    ensures forall|r: ES| #[trigger] passed(e, r, b) ==> step(e, r, b)
{
    assert forall|r: ES| #[trigger] passed(e, r, b) implies step(e, r, b) by { lemma_step(e, r, b); }
}
}
}
