use crate::Ctx;
use crate::engine::*;
use crate::source::{Act, Src, World};
use actix_web::body::{BodySize, MessageBody};
use actix_web::http::header;
use actix_web::{Responder as _, test::TestRequest};
use futures_core::Stream;
use std::cell::RefCell;
use std::pin::Pin;
use std::rc::Rc;
use std::task::Poll;
use zippity::{BytesStream, Reader};

fn reader(c: &Case) -> (Reader<Src>, crate::source::W) {
    let w = world(c);
    (builder(&c.entries, &w).build(), w)
}

/// The archive as the library delivers it sequentially, with its own sizes (its content is the business of other properties).
struct Ref { all: Vec<u8>, size: u64 }
impl Ref {
    fn new(c: &Case) -> Result<Ref, String> { let all = crate::props_reader::baseline(c)?; Ok(Ref { size: all.len() as u64, all }) }
    fn window(&self, off: u64, n: usize) -> Vec<u8> { self.all.get(off.min(self.size) as usize..).unwrap_or(&[]).iter().take(n).copied().collect() }
}

/// What the first range of a header asks for, by RFC 9110 (strict grammar used in the cases).
#[derive(Clone, Debug, PartialEq)]
enum Want { Whole, Bad, Unsat, Range(u64, u64) }

/// What was done to the reader before the request.
#[derive(Clone, Debug)]
enum Pre { Nothing, Seek(u64), Read(usize), Stream(usize), Taken(u64) }

fn run_http(c: &Case, hdr: Option<&[u8]>, want: &Want, chan: bool, stop_after: Option<usize>) -> Result<(), String> {
    run_http_pre(c, &Pre::Nothing, hdr, want, chan, stop_after)
}

fn run_http_pre(c: &Case, pre: &Pre, hdr: Option<&[u8]>, want: &Want, chan: bool, stop_after: Option<usize>) -> Result<(), String> {
    let z = Ref::new(c)?;
    let (r, w) = reader(c);
    let r = match pre {
        Pre::Nothing => r,
        Pre::Seek(o) => { let mut r = r; r.seek_from_start_mut(*o); r }
        Pre::Taken(o) => { let mut r = Box::pin(r); r.as_mut().seek_from_start_pinned(*o); r.as_mut().take_pinned() }
        Pre::Read(n) => {
            let mut r = Box::pin(r);
            let mut buf = vec![0u8; 700];
            for _ in 0..*n {
                let mut b = tokio::io::ReadBuf::new(&mut buf);
                let _ = tokio::io::AsyncRead::poll_read(r.as_mut(), &mut ctx(), &mut b);
            }
            r.as_mut().take_pinned()
        }
        Pre::Stream(n) => {
            let mut s = Box::pin(r.into_bytes_stream());
            for _ in 0..*n { let _ = s.as_mut().poll_next(&mut ctx()); }
            std::mem::replace(&mut *Pin::into_inner(s), Reader::new_empty_file().into_bytes_stream()).into_reader()
        }
    };
    let Some(back) = serve(c, &z, &w, r, hdr, want, chan, stop_after)? else { return Ok(()) };
    // the reader handed back serves the whole archive and any range of it again
    let again = |e: String| format!("second request with the reader handed back: {e}");
    let Some(back) = serve(c, &z, &w, back, None, &Want::Whole, true, stop_after).map_err(again)? else { return Ok(()) };
    let a = z.size / 3;
    serve(c, &z, &w, back, Some(format!("bytes={a}-").as_bytes()), &Want::Range(a, z.size), false, None).map_err(again)?;
    Ok(())
}

#[allow(clippy::too_many_arguments)]
fn serve(c: &Case, z: &Ref, w: &crate::source::W, r: Reader<Src>, hdr: Option<&[u8]>, want: &Want, chan: bool, stop_after: Option<usize>) -> Result<Option<Reader<Src>>, String> {
    let mut req = TestRequest::default();
    if let Some(h) = hdr {
        req = req.insert_header((header::RANGE, actix_web::http::header::HeaderValue::from_bytes(h).map_err(|e| e.to_string())?));
    }
    let req = req.to_http_request();
    let (resp, mut rx) = if chan {
        let (a, rx) = r.into_responder_with_channel();
        (a.respond_to(&req), Some(rx))
    } else { (r.into_responder().respond_to(&req), None) };
    let get = |n: header::HeaderName| resp.headers().get(n).map(|v| String::from_utf8_lossy(v.as_bytes()).to_string());
    let size = z.size;
    if get(header::CONTENT_TYPE).as_deref() != Some("application/zip") { return Err("content type".into()); }
    if get(header::ACCEPT_RANGES).as_deref() != Some("bytes") { return Err("accept-ranges".into()); }
    let status = resp.status().as_u16();
    let (a, b) = match want {
        Want::Bad => {
            if status != 400 { return Err(format!("status {status} instead of 400")); }
            (0, 0)
        }
        Want::Unsat => {
            if status != 416 { return Err(format!("status {status} instead of 416")); }
            if get(header::CONTENT_RANGE) != Some(format!("bytes */{size}")) { return Err(format!("content-range {:?}", get(header::CONTENT_RANGE))); }
            (0, 0)
        }
        Want::Whole => {
            if status != 200 { return Err(format!("status {status} instead of 200")); }
            if get(header::CONTENT_RANGE).is_some() { return Err("content-range without a range request".into()); }
            (0, size)
        }
        Want::Range(a, b) => {
            let s = if *a == 0 && *b == size { 200 } else { 206 };
            if status != s { return Err(format!("status {status} instead of {s}")); }
            if get(header::CONTENT_RANGE) != Some(format!("bytes {}-{}/{}", a, b - 1, size)) { return Err(format!("content-range {:?}", get(header::CONTENT_RANGE))); }
            (*a, *b)
        }
    };
    let n = b - a;
    if matches!(want, Want::Whole | Want::Range(..)) {
        if get(header::CONTENT_LENGTH) != Some(n.to_string()) { return Err(format!("content-length {:?} instead of {n}", get(header::CONTENT_LENGTH))); }
    }
    let mut body = Box::pin(resp.into_body());
    if matches!(want, Want::Whole | Want::Range(..)) && body.size() != BodySize::Sized(n) { return Err(format!("body size {:?} instead of {n}", body.size())); }
    let mut got: Vec<u8> = vec![];
    let mut ended = false;
    // a source may deliver a byte at a time, between many answers of not being ready
    for k in 0..200_000 + 4 * (c.acts.len() + 1) * n.min(1 << 20) as usize {
        if stop_after == Some(k) { break; }
        w.borrow_mut().pend_in_call = false;
        match body.as_mut().poll_next(&mut ctx()) {
            Poll::Ready(None) => { ended = true; break; }
            Poll::Ready(Some(Ok(b))) => { got.extend_from_slice(&b); if got.len() as u64 > n { return Err(format!("body delivers more than {n} bytes")); } }
            Poll::Ready(Some(Err(e))) => return Err(format!("body error {e}")),
            Poll::Pending => if !w.borrow().pend_in_call { return Err("body not ready although no source was".into()); },
        }
    }
    if !ended && stop_after.is_none() { return Err("body does not end".into()); }
    let exp = z.window(a, if ended { n as usize } else { got.len() });
    if got != exp { return Err(format!("body of [{a}, {b}): {}", first_diff(&got, &exp))); }
    if ended && !matches!(body.as_mut().poll_next(&mut ctx()), Poll::Ready(None)) { return Err("body continues after its end".into()); }
    if let Some(rx) = rx.as_mut() {
        if matches!(want, Want::Whole | Want::Range(..)) && rx.try_recv().is_ok() { return Err("reader handed back before the body was dropped".into()); }
    }
    drop(body);
    if let Some(rx) = rx.as_mut() {
        let Ok(back) = rx.try_recv() else { return Err("reader not handed back when the body was dropped".into()) };
        if back.size() != size { return Err("other reader handed back".into()); }
        for (name, crc) in back.crc32s() {
            let e = c.entries.iter().find(|e| e.name == name).ok_or("unknown entry")?;
            if crc != e.true_crc() { return Err(format!("handed back CRC of {name:?} is wrong")); }
        }
        if ended && a == 0 && b == size && back.crc32s().count() != c.entries.len() { return Err("handed back reader lacks CRCs".into()); }
        return Ok(Some(back));
    }
    Ok(None)
}

/// Ranges of archives much larger than memory: headers, and the body when it is short.
fn run_http_huge(c: &Case, hdr: Option<&str>, want: &Want) -> Result<(), String> {
    let z = spec_of(&c.entries);
    let (r, _w) = reader(c);
    let mut req = TestRequest::default();
    if let Some(h) = hdr { req = req.insert_header((header::RANGE, h)); }
    let resp = r.into_responder().respond_to(&req.to_http_request());
    let get = |n: header::HeaderName| resp.headers().get(n).map(|v| String::from_utf8_lossy(v.as_bytes()).to_string());
    let status = resp.status().as_u16();
    let (a, b) = match want {
        Want::Whole => { if status != 200 { return Err(format!("status {status} instead of 200")); } (0, z.size) }
        Want::Unsat => {
            if status != 416 || get(header::CONTENT_RANGE) != Some(format!("bytes */{}", z.size)) { return Err(format!("status {status}, content-range {:?} instead of 416", get(header::CONTENT_RANGE))); }
            return Ok(());
        }
        Want::Range(a, b) => {
            if status != 206 { return Err(format!("status {status} instead of 206")); }
            if get(header::CONTENT_RANGE) != Some(format!("bytes {}-{}/{}", a, b - 1, z.size)) { return Err(format!("content-range {:?}", get(header::CONTENT_RANGE))); }
            (*a, *b)
        }
        Want::Bad => return Ok(()),
    };
    let n = b - a;
    if get(header::CONTENT_LENGTH) != Some(n.to_string()) { return Err(format!("content-length {:?} instead of {n}", get(header::CONTENT_LENGTH))); }
    let mut body = Box::pin(resp.into_body());
    if body.size() != BodySize::Sized(n) { return Err(format!("body size {:?} instead of {n}", body.size())); }
    let mut got: Vec<u8> = vec![];
    while (got.len() as u64) < n.min(20_000) {
        match body.as_mut().poll_next(&mut ctx()) {
            Poll::Ready(Some(Ok(b))) => got.extend_from_slice(&b),
            Poll::Ready(None) => return Err(format!("body ends after {} of {n} bytes", got.len())),
            Poll::Ready(Some(Err(e))) => return Err(format!("body error {e}")),
            Poll::Pending => return Err("body not ready although every source is".into()),
        }
    }
    if got.len() as u64 > n { return Err(format!("body delivers {} instead of {n} bytes", got.len())); }
    let exp = z.window(a, got.len());
    if got != exp { return Err(format!("body of [{a}, {b}): {}", first_diff(&got, &exp))); }
    if got.len() as u64 == n && !matches!(body.as_mut().poll_next(&mut ctx()), Poll::Ready(None)) { return Err("body continues after its end".into()); }
    Ok(())
}

fn huge(c: &mut Ctx) -> bool {
    for size in [(1u64 << 32) - 300, 1 << 32, (1 << 32) + 7, 1 << 53, 1 << 62] {
        let mut e = ESpec::simple(5, "huge", size);
        e.crc = CrcMode::Given(3);
        let case = Case { entries: vec![e, ESpec::simple(6, "x", 3)], acts: vec![], cycle: false, ops: vec![] };
        let n = spec_of(&case.entries).size;
        let mut reqs = vec![(None, Want::Whole)];
        for a in [0u64, 1, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, n - 1, n - 200, n / 2, n, n + 1, 1 << 63] {
            reqs.push((Some(format!("bytes={a}-")), if a >= n { Want::Unsat } else if a == 0 { continue } else { Want::Range(a, n) }));
            for l in [1u64, 2, 100, 1 << 32, (1 << 32) + 1] {
                if a < n && l <= n - a && !(a == 0 && l == n) { reqs.push((Some(format!("bytes={a}-{}", a + l - 1)), Want::Range(a, a + l))); }
            }
            if a > 0 && a < n { reqs.push((Some(format!("bytes=-{a}")), Want::Range(n - a, n))); }
        }
        for (h, want) in reqs {
            if !c.case("huge archives", &|| format!("{h:?} of {n} bytes, {case:?}"), || run_http_huge(&case, h.as_deref(), &want)) { return false; }
        }
    }
    true
}

pub fn c14(c: &mut Ctx) -> String {
    if !huge(c) { return String::new(); }
    let mut e1 = ESpec::simple(1, "first", 5);
    e1.crc = CrcMode::Right;
    let small = Case { entries: vec![e1, ESpec::simple(2, "second", 0)], acts: vec![], cycle: false, ops: vec![] };
    let size = spec_of(&small.entries).size;
    // every first/last position of the small archive (stepped in the quick tier)
    let step = if c.thorough { 1 } else { 5 };
    let mut a = 0;
    while a < size + 3 {
        let mut b = a;
        while b < size + 3 {
            let want = if a >= size { Want::Unsat } else if b >= size { 
                // the parser dependency refuses or clips a last position beyond the end: only well-defined ones are judged
                b += step; continue } else { Want::Range(a, b + 1) };
            let h = format!("bytes={a}-{b}");
            if !c.case("all closed ranges", &|| h.clone(), || run_http(&small, Some(h.as_bytes()), &want, b % 2 == 0, None)) { return String::new(); }
            b += step;
        }
        let open = format!("bytes={a}-");
        let want = if a >= size { Want::Unsat } else { Want::Range(a, size) };
        if !c.case("all open ranges", &|| open.clone(), || run_http(&small, Some(open.as_bytes()), &want, false, None)) { return String::new(); }
        if a > 0 && a <= size {
            let suf = format!("bytes=-{a}");
            let want = Want::Range(size - a, size);
            if !c.case("all suffix ranges", &|| suf.clone(), || run_http(&small, Some(suf.as_bytes()), &want, true, None)) { return String::new(); }
        }
        a += if a + 8 > size || a < 8 { 1 } else { step };
    }
    for h in [&b"bytes=5-4"[..], b"bytes=", b"foo", b"bytes", b"octets=0-1x", b"bytes=a-b", b"\xff\xfe", b"bytes=--5", b""] {
        // malformed: either refused as malformed or as unsatisfiable ("5-4" is valid syntax for some parsers)
        let hs = String::from_utf8_lossy(h).to_string();
        if !c.case("malformed", &|| hs.clone(), || {
            match run_http(&small, Some(h), &Want::Bad, true, None) { Ok(()) => Ok(()), Err(e) if h == b"bytes=5-4" => run_http(&small, Some(h), &Want::Unsat, false, None).map_err(|_| e), Err(e) => Err(e) }
        }) { return String::new(); }
    }
    for h in ["bytes=2-9,20-29", "bytes=10-19, 40-41", "bytes=0-0,-1"] {
        let (x, y) = match h { "bytes=2-9,20-29" => (2, 10), "bytes=0-0,-1" => (0, 1), _ => (10, 20) };
        if !c.case("several ranges", &|| h.into(), || run_http(&small, Some(h.as_bytes()), &Want::Range(x, y), false, None)) { return String::new(); }
    }
    // readers that are not fresh
    for pre in [Pre::Seek(1), Pre::Seek(size - 1), Pre::Seek(size), Pre::Seek(size + 9), Pre::Seek(u64::MAX), Pre::Taken(40), Pre::Taken(size + 1), Pre::Read(1), Pre::Read(2), Pre::Read(9), Pre::Stream(1), Pre::Stream(9)] {
        for (h, want) in [(None, Want::Whole), (Some("bytes=0-"), Want::Range(0, size)), (Some("bytes=0-9"), Want::Range(0, 10)), (Some("bytes=7-"), Want::Range(7, size)), (Some("bytes=-5"), Want::Range(size - 5, size)), (Some("bytes=100000-"), Want::Unsat)] {
            for chan in [false, true] {
                if !c.case("readers that are not fresh", &|| format!("{pre:?}, {h:?}, channel {chan}"), || run_http_pre(&small, &pre, h.map(str::as_bytes), &want, chan, None)) { return String::new(); }
            }
        }
    }
    let mut r = Rng::new(c.seed ^ 14);
    let o = GenOpts { max_entries: 4, sizes: vec![0, 1, 5, 300, 8192, 9000, 20000], ..Default::default() };
    let mut k = 0u64;
    while c.go() && (c.thorough || k < 40000) {
        k += 1;
        let mut case = history_case0(&mut r, &o);
        case.ops.clear();
        let z = spec_of(&case.entries);
        let (h, want) = match r.below(4) {
            0 => (None, Want::Whole),
            1 => { let a = gen_offset(&mut r, &z).min(z.size - 1); (Some(format!("bytes={a}-")), Want::Range(a, z.size)) }
            2 => { let n = 1 + r.below(z.size); (Some(format!("bytes=-{n}")), Want::Range(z.size - n, z.size)) }
            _ => { let a = gen_offset(&mut r, &z).min(z.size - 1); let b = a + r.below(z.size - a); (Some(format!("bytes={a}-{b}")), Want::Range(a, b + 1)) }
        };
        let chan = r.chance(1, 2);
        let stop = if r.chance(1, 3) { Some(r.below(20) as usize) } else { None };
        let pre = match r.below(8) { 0 => Pre::Seek(gen_offset(&mut r, &z)), 1 => Pre::Read(r.below(12) as usize), 2 => Pre::Stream(r.below(6) as usize), 3 => Pre::Taken(gen_offset(&mut r, &z)), _ => Pre::Nothing };
        if !c.case("random archives and ranges", &|| format!("{pre:?}, {h:?}, channel {chan}, stop {stop:?}, {case:?}"), || run_http_pre(&case, &pre, h.as_deref().map(str::as_bytes), &want, chan, stop)) { break; }
    }
    "all open and suffix ranges and (stepped) all closed ranges of a small archive, malformed and multiple ranges, random archives with random ranges, readiness schedules and dropped bodies; status, headers, body bytes, body length and the handed back reader are compared with the specification".into()
}

fn history_case0(r: &mut Rng, o: &GenOpts) -> Case {
    let entries = gen_entries(r, o);
    let (acts, cycle) = gen_acts(r, o);
    Case { entries, acts, cycle, ops: vec![] }
}

// ------------------------------------------------------------------ C15
#[derive(Clone, Debug)]
enum SOp { Poll, Clone, CloneKeepBoth, Back, Seek(u64), Pinned }

fn run_stream(c: &Case, start: u64, ops: &[SOp]) -> Result<(), String> {
    let z = Ref::new(c)?;
    let (mut r, w) = reader(c);
    r.seek_from_start_mut(start);
    let mut pos = start;
    let mut s = Box::pin(if ops.len() % 2 == 0 { r.into_bytes_stream() } else { BytesStream::from(r) });
    let mut idle = 0;
    let mut k = 0;
    loop {
        let op = ops.get(k).cloned().unwrap_or(SOp::Poll);
        let listed = k < ops.len();
        k += 1;
        let step = |e: String| format!("operation {k} ({op:?}): {e}");
        match op {
            SOp::Poll => {
                { let mut w = w.borrow_mut(); w.pend_in_call = false; w.err_in_call = false; }
                let x = s.as_mut().poll_next(&mut ctx());
                let (pend, err) = { let w = w.borrow(); (w.pend_in_call, w.err_in_call) };
                if err && !matches!(x, Poll::Ready(Some(Err(_)))) { return Err(step("an error of a source is not passed on".into())); }
                match x {
                    Poll::Ready(Some(Ok(b))) => {
                        if b.is_empty() { return Err(step("empty block".into())); }
                        let want = z.window(pos, b.len());
                        if want != b[..] { return Err(step(format!("block at {pos}: {}", first_diff(&b, &want)))); }
                        pos += b.len() as u64;
                        idle = 0;
                    }
                    Poll::Ready(None) => {
                        if pos < z.size { return Err(step(format!("stream ends at {pos} of {}", z.size))); }
                        if !listed {
                            if !matches!(s.as_mut().poll_next(&mut ctx()), Poll::Ready(None)) { return Err(step("stream continues after its end".into())); }
                            return Ok(());
                        }
                    }
                    Poll::Pending => { if !pend { return Err(step("not ready although no source was".into())); } idle += 1; }
                    Poll::Ready(Some(Err(e))) => { if !err { return Err(step(format!("error {e} although no source failed"))); } if Some(e.kind()) != w.borrow().kind { return Err(step(format!("{e:?} is not the source's error"))); } idle += 1; }
                }
                if s.reader_ref().tell() != pos { return Err(step(format!("position {} instead of {pos}", s.reader_ref().tell()))); }
                if idle > 3_000_000 { return Err(step("no progress".into())); }
            }
            SOp::Clone => { let t = (*s).clone(); s = Box::pin(t); }
            SOp::CloneKeepBoth => {
                let mut t = Box::pin((*s).clone());
                if t.reader_ref().tell() != pos { return Err(step("clone at another position".into())); }
                for _ in 0..3 {
                    match t.as_mut().poll_next(&mut ctx()) {
                        Poll::Ready(Some(Ok(b))) => { let p = t.reader_ref().tell() - b.len() as u64; if z.window(p, b.len()) != b[..] { return Err(step("clone delivers other bytes".into())); } }
                        _ => {}
                    }
                }
            }
            SOp::Back => {
                let st = std::mem::replace(&mut *Pin::into_inner(s), Reader::new_empty_file().into_bytes_stream());
                let r = st.into_reader();
                if r.tell() != pos { return Err(step(format!("reader given back at {} instead of {pos}", r.tell()))); }
                s = Box::pin(r.into());
            }
            SOp::Seek(o) => {
                if k % 2 == 0 { s.as_mut().get_mut().reader_mut().seek_from_start_mut(o); } else { s.as_mut().reader_pin_mut().seek_from_start_pinned(o); }
                pos = o;
            }
            SOp::Pinned => { if s.reader_ref().size() != z.size { return Err(step("size".into())); } let p = s.as_mut().reader_pin_mut(); if p.tell() != pos { return Err(step("position of pinned reader".into())); } }
        }
    }
}

pub fn c15(c: &mut Ctx) -> String {
    let mut r = Rng::new(c.seed ^ 15);
    let menu = [SOp::Poll, SOp::Clone, SOp::CloneKeepBoth, SOp::Back, SOp::Pinned];
    let base = Case { entries: vec![ESpec::simple(1, "a", 9000), ESpec::simple(2, "b", 3)], acts: vec![Act::Full, Act::Pending, Act::Short(700), Act::Pending], cycle: false, ops: vec![] };
    for a in &menu { for b in &menu { for d in &menu { for start in [0u64, 50, 9100] {
        let ops = vec![a.clone(), b.clone(), d.clone()];
        if !c.case("all sequences of three", &|| format!("start {start}, {ops:?}"), || run_stream(&base, start, &ops)) { return String::new(); }
    } } } }
    let o = GenOpts { max_entries: 4, sizes: vec![0, 1, 5, 300, 8192, 9000, 20000], ..Default::default() };
    let oe = GenOpts { err: true, max_entries: 4, sizes: vec![0, 1, 5, 300, 9000], ..Default::default() };
    let mut k = 0u64;
    while c.go() && (c.thorough || k < 100000) {
        k += 1;
        let case = history_case0(&mut r, if k % 3 == 0 { &oe } else { &o });
        let z = spec_of(&case.entries);
        let start = if r.chance(1, 2) { 0 } else { gen_offset(&mut r, &z) };
        let ops: Vec<SOp> = (0..r.below(12)).map(|_| match r.below(9) { 0 => SOp::Clone, 1 => SOp::CloneKeepBoth, 2 => SOp::Back, 3 => SOp::Seek(gen_offset(&mut r, &z)), 4 => SOp::Pinned, _ => SOp::Poll }).collect();
        if !c.case("random", &|| format!("start {start}, {ops:?}, {case:?}"), || run_stream(&case, start, &ops)) { break; }
    }
    let _ = Rc::new(RefCell::new(World::default()));
    "sequences of polls, clones, give-backs and seeks on streams over small and random archives with short, not-ready and failing sources; every block, the end and the position compared with the specification".into()
}
