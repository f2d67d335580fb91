//! The trusted contracts of external code (verus/prelude.rs, verus/shim_*.rs), run against the real dependencies.
//! Not a property of the library: a failure here means that a contract the proofs rely on is wrong.
use crate::Ctx;
use crate::engine::{Rng, ctx};
use std::collections::HashSet;
use std::io::{ErrorKind, SeekFrom};
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll};
use tokio::io::{AsyncRead, AsyncSeek, ReadBuf};

type R = Result<(), String>;
macro_rules! ck { ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } } }

fn bytes(r: &mut Rng, n: usize) -> Vec<u8> { (0..n).map(|_| r.next() as u8).collect() }
fn text(r: &mut Rng, n: u64) -> String {
    let a = ['/', '/', 'a', '.', '\u{0}', 'é', '漢', '😀', ' ', '\\', 'Z'];
    (0..r.below(n + 1)).map(|_| a[r.below(a.len() as u64) as usize]).collect()
}

/// model of ReadBuf: capacity, initialised bytes, filled length
struct M { cap: usize, data: Vec<u8>, flen: usize }

fn readbuf(seed: u64) -> R {
    let mut r = Rng::new(seed);
    let cap = r.pick(&[0usize, 1, 7, 64, 300]);
    let mut v: Vec<u8> = Vec::new();
    v.reserve(cap);
    ck!(v.capacity() - v.len() >= cap, "reserve gives too little");
    let mut b = ReadBuf::uninit(&mut v.spare_capacity_mut()[..cap]);
    let mut m = M { cap, data: vec![], flen: 0 };
    ck!(b.filled().is_empty() && b.initialized().is_empty() && b.capacity() == cap, "uninit");
    for _ in 0..12 {
        let rem = m.cap - m.flen;
        match r.below(6) {
            0 => {
                let n = r.below(rem as u64 + 1) as usize;
                let s = bytes(&mut r, n);
                b.put_slice(&s);
                let mut f = m.data[..m.flen].to_vec();
                f.extend_from_slice(&s);
                m.flen += n;
                if m.data.len() < m.flen { m.data.resize(m.flen, 0); }
                m.data[..m.flen].copy_from_slice(&f);
            }
            1 => {
                let n = r.below(rem as u64 + 1) as usize;
                let s = bytes(&mut r, n);
                {
                    let d = b.initialize_unfilled_to(n);
                    ck!(d.len() == n, "initialize_unfilled_to: {} bytes for {n}", d.len());
                    d.copy_from_slice(&s);
                }
                if m.data.len() < m.flen + n { m.data.resize(m.flen + n, 0); }
                m.data[m.flen..m.flen + n].copy_from_slice(&s);
            }
            2 => {
                let n = r.below((m.data.len() - m.flen) as u64 + 1) as usize;
                b.advance(n);
                m.flen += n;
            }
            3 => {
                let n = r.below(m.data.len() as u64 + 1) as usize;
                b.set_filled(n);
                m.flen = n;
            }
            4 => {
                if r.chance(1, 3) { b.clear(); m.flen = 0; }
            }
            _ => {
                let n = r.below(rem as u64 + 20) as usize;
                let t = b.take(n);
                ck!(t.filled().is_empty() && t.initialized().is_empty() && t.capacity() == n.min(rem), "take({n}) of {rem}");
            }
        }
        ck!(b.capacity() == m.cap && b.remaining() == m.cap - m.flen, "capacity or remaining");
        ck!(b.filled() == &m.data[..m.flen], "filled");
        ck!(b.initialized().len() >= m.data.len(), "initialised part has shrunk");
        ck!(b.filled().len() <= b.initialized().len() && b.initialized().len() <= b.capacity(), "invariant");
    }
    Ok(())
}

fn crc(seed: u64) -> R {
    let mut r = Rng::new(seed);
    let n = r.pick(&[0u64, 1, 15, 64, 200, 5000]);
    let n = r.below(n + 1) as usize;
    let d = bytes(&mut r, n);
    let want = crc32fast::hash(&d);
    ck!(want == crate::spec::crc32(&d), "hash is not CRC-32");
    ck!(crc32fast::Hasher::new().finalize() == crc32fast::hash(&[]), "empty");
    let mut h = crc32fast::Hasher::new();
    let mut k = 0;
    while k < n {
        let e = k + 1 + r.below((n - k) as u64) as usize;
        if r.chance(1, 4) { h.update(&[]); }
        if r.chance(1, 4) {
            let c = h.clone();
            ck!(c.finalize() == crc32fast::hash(&d[..k]), "clone");
        }
        h.update(&d[k..e]);
        k = e;
    }
    ck!(h.finalize() == want, "updates in pieces differ from the whole");
    Ok(())
}

fn indexmap(seed: u64) -> R {
    use indexmap::map::Entry;
    let mut r = Rng::new(seed);
    let mut m = indexmap::IndexMap::<String, u64>::new();
    let mut v: Vec<(String, u64)> = vec![];
    for i in 0..r.below(60) {
        let k = text(&mut r, 3);
        let had = v.iter().any(|e| e.0 == k);
        ck!(m.contains_key(k.as_str()) == had, "contains_key");
        match m.entry(k.clone()) {
            Entry::Vacant(e) => {
                ck!(!had && *e.key() == k, "vacant");
                if r.chance(1, 4) {
                    ck!(e.into_key() == k, "into_key");
                } else {
                    let x = e.insert(i);
                    ck!(*x == i, "insert");
                    *x += 1000;
                    v.push((k, i + 1000));
                }
            }
            Entry::Occupied(e) => ck!(had && *e.key() == k, "occupied"),
        }
        ck!(m.len() == v.len(), "len");
    }
    ck!(m.iter().map(|(k, x)| (k.clone(), *x)).collect::<Vec<_>>() == v, "order of iteration");
    ck!(m.into_iter().collect::<Vec<_>>() == v, "order of into_iter");
    ck!(v.iter().map(|e| &e.0).collect::<HashSet<_>>().len() == v.len(), "keys are distinct");
    Ok(())
}

struct Script { data: Vec<u8>, pos: usize, r: Rng }
impl AsyncRead for Script {
    fn poll_read(mut self: Pin<&mut Self>, _: &mut Context<'_>, b: &mut ReadBuf<'_>) -> Poll<std::io::Result<()>> {
        match self.r.below(4) {
            0 => Poll::Pending,
            1 => Poll::Ready(Err(std::io::Error::other("script"))),
            _ => {
                let k = b.remaining().min(self.data.len() - self.pos) as u64;
                let k = self.r.below(k + 1) as usize;
                let (p, e) = (self.pos, self.pos + k);
                b.put_slice(&self.data[p..e]);
                self.pos = e;
                Poll::Ready(Ok(()))
            }
        }
    }
}

fn buffers(seed: u64) -> R {
    use bytes::{Bytes, BytesMut};
    let mut r = Rng::new(seed);
    let c = r.below(80) as usize;
    let mut b = BytesMut::with_capacity(c);
    ck!(b.is_empty() && b.capacity() == c, "with_capacity({c}) has {}", b.capacity());
    ck!(BytesMut::new().capacity() == 0, "new");
    let data = bytes(&mut r, 4000);
    let mut s = Script { data, pos: 0, r: Rng::new(seed ^ 77) };
    let mut m: Vec<u8> = vec![];
    let mut kept: Vec<(Bytes, Vec<u8>)> = vec![];
    for _ in 0..25 {
        let (len, cap) = (b.len(), b.capacity());
        ck!(len == m.len() && len <= cap && b.is_empty() == (len == 0), "len");
        match r.below(8) {
            0 | 1 | 2 => {
                // tokio_util::io::poll_read_buf
                if cap > len {
                    let p = s.pos;
                    let res = tokio_util::io::poll_read_buf(Pin::new(&mut s), &mut ctx(), &mut b);
                    if let Poll::Ready(Ok(n)) = res {
                        ck!(s.pos == p + n && n <= cap - len, "poll_read_buf: {n} bytes, source moved {}", s.pos - p);
                        m.extend_from_slice(&s.data[p..p + n]);
                    } else {
                        ck!(s.pos == p, "poll_read_buf lost bytes");
                    }
                    ck!(b.capacity() == cap, "poll_read_buf changed the capacity");
                }
            }
            3 => {
                let n = r.below(100) as usize;
                b.reserve(n);
                ck!(b.capacity() >= len + n && b.capacity() >= cap, "reserve({n}): {cap} -> {}, len {len}", b.capacity());
            }
            4 => {
                let t = b.split();
                ck!(t.capacity() == t.len() && t[..] == m[..] && b.is_empty() && b.capacity() == cap - len,
                    "split: {cap},{len} -> {} and {}", t.capacity(), b.capacity());
                let f = t.freeze();
                kept.push((f, std::mem::take(&mut m)));
            }
            5 => {
                let n = r.below(len as u64 + 5) as usize;
                b.truncate(n);
                m.truncate(n);
                ck!(b.capacity() == cap, "truncate changed the capacity");
            }
            6 => if r.chance(1, 3) { b.clear(); m.clear(); ck!(b.capacity() == cap, "clear changed the capacity") },
            _ => {
                let c = b.clone();
                ck!(c.capacity() == c.len() && c[..] == m[..], "clone");
            }
        }
        ck!(b[..] == m[..], "content");
    }
    for (mut f, v) in kept {
        ck!(f[..] == v[..] && f.len() == v.len(), "frozen bytes changed");
        let n = r.below(v.len() as u64 + 1) as usize;
        ck!(f.slice(..n)[..] == v[..n], "slice");
        let t = f.split_to(n);
        ck!(t[..] == v[..n] && f[..] == v[n..], "split_to");
        let k = r.below(v.len() as u64 + 2) as usize;
        f.truncate(k);
        ck!(f[..] == v[n..][..k.min(v.len() - n)], "truncate");
    }
    Ok(())
}

fn ranges(seed: u64) -> R {
    let mut r = Rng::new(seed);
    let num = |r: &mut Rng| -> String {
        let a = r.below(12);
        match r.below(9) { 0 => String::new(), 1 => "18446744073709551615".into(), 2 => "18446744073709551616".into(), 3 => "-1".into(), 4 => " 3".into(), 5 => "x".into(), _ => a.to_string() }
    };
    let mut s = r.pick(&["bytes=", "bytes=", "bytes=", "bytes=", "", "bytes", "items=", "bytes = "]).to_string();
    for i in 0..1 + r.below(3) {
        if i > 0 { s.push_str(r.pick(&[",", ", ", ";"])); }
        s.push_str(&num(&mut r));
        s.push_str(r.pick(&["-", "-", "-", "-", "--", ""]));
        s.push_str(&num(&mut r));
    }
    let size = r.pick(&[1u64, 2, 5, 10, u64::MAX, u64::MAX - 1]);
    if let Ok(p) = http_range_header::parse_range_header(&s) {
        if let Ok(v) = p.validate(size) {
            ck!(!v.is_empty(), "{s:?} of {size}: no range");
            for x in &v { ck!(*x.start() <= *x.end() && *x.end() < size, "{s:?} of {size}: {x:?}"); }
            let w = http_range_header::parse_range_header(&s).map_err(|e| format!("{e:?}"))?.validate(size).map_err(|e| format!("{e:?}"))?;
            ck!(v == w, "not a function of the header and the size");
        }
    }
    Ok(())
}

fn search(seed: u64) -> R {
    let mut r = Rng::new(seed);
    let (n, k) = (r.below(20), r.below(8) + 1);
    let mut v: Vec<u64> = (0..n).map(|_| r.below(k)).collect();
    v.sort_unstable();
    for t in 0..k + 1 {
        match v.binary_search_by_key(&t, |x| *x) {
            Ok(i) => ck!(v[i] == t, "found"),
            Err(i) => ck!(i <= v.len() && (i == 0 || v[i - 1] < t) && (i == v.len() || v[i] > t), "not found"),
        }
    }
    Ok(())
}

fn texts(seed: u64) -> R {
    let mut r = Rng::new(seed);
    let s = text(&mut r, 8);
    let c = r.pick(&['/', 'a', '漢']);
    let v: Vec<char> = s.chars().collect();
    let (mut a, mut b) = (0, v.len());
    while b > 0 && v[b - 1] == c { b -= 1; }
    ck!(s.trim_end_matches(c) == v[..b].iter().collect::<String>(), "trim_end_matches");
    while a < v.len() && v[a] == c { a += 1; }
    ck!(s.trim_start_matches(c) == v[a..].iter().collect::<String>(), "trim_start_matches");
    let want = if a >= v.len() { String::new() } else { v[a..b.max(a)].iter().collect() };
    ck!(s.trim_matches(c) == want, "trim_matches");
    ck!(s.ends_with(c) == (v.last() == Some(&c)) && s.starts_with(c) == (v.first() == Some(&c)), "ends_with");
    for k in 0..=v.len() {
        let h: String = v[..k].iter().collect();
        let mut t = s.clone();
        t.truncate(h.len());
        ck!(t == h, "truncate");
        t = s.clone();
        t.truncate(s.len() + 1);
        ck!(t == s, "truncate beyond the end");
    }
    ck!(Some(s.clone()).as_deref() == Some(s.as_str()), "as_deref");
    let n = r.next() >> r.below(64);
    let mut d = vec![];
    let mut x = n;
    loop { d.push(b'0' + (x % 10) as u8); x /= 10; if x == 0 { break; } }
    d.reverse();
    ck!(format!("a{n}/{s}").as_bytes() == [b"a", &d[..], b"/", s.as_bytes()].concat(), "format!");
    Ok(())
}

/// read_result of shim_async.rs: what a read from a source may do
fn source<S: AsyncRead + AsyncSeek + Unpin>(seed: u64, mut s: S, content: &[u8], real: bool) -> R {
    let mut r = Rng::new(seed);
    let len = content.len() as u64;
    let mut pos = 0u64;
    for _ in 0..20 {
        if r.chance(1, 2) {
            let pre = r.below(4) as usize;
            let n = r.pick(&[0usize, 1, 3, 64, 9000]);
            let mut v = vec![7u8; pre + n];
            let mut b = ReadBuf::new(&mut v);
            b.set_filled(pre);
            let mut turns = 0;
            loop {
                match Pin::new(&mut s).poll_read(&mut ctx(), &mut b) {
                    Poll::Pending => {
                        ck!(real && b.filled() == &vec![7u8; pre][..], "not ready, but bytes");
                        turns += 1;
                        ck!(turns < 20_000, "never ready");
                        std::thread::sleep(std::time::Duration::from_micros(50));
                    }
                    Poll::Ready(Ok(())) => break,
                    Poll::Ready(Err(e)) => return Err(format!("read failed: {e}")),
                }
            }
            let got = b.filled()[pre..].to_vec();
            ck!(b.filled()[..pre] == vec![7u8; pre][..], "what was filled before has changed");
            let at = pos.min(len) as usize;
            ck!(got.len() <= n && content[at..].starts_with(&got), "read at {pos}: wrong bytes");
            ck!(!got.is_empty() || n == 0 || pos >= len, "no byte before the end");
            pos += got.len() as u64;
        } else {
            let (t, want) = match r.below(3) {
                0 => { let x = r.pick(&[0, 1, len / 2, len, len + 5]); (SeekFrom::Start(x), Some(x as i128)) }
                1 => { let x = r.below(2 * len + 4) as i64 - len as i64; (SeekFrom::End(x), Some(len as i128 + x as i128)) }
                _ => { let x = r.below(2 * len + 4) as i64 - len as i64; (SeekFrom::Current(x), Some(pos as i128 + x as i128)) }
            };
            let want = want.filter(|w| *w >= 0);
            match Pin::new(&mut s).start_seek(t) {
                Err(e) => {
                    ck!(want.is_none() && !matches!(t, SeekFrom::Start(_)) && e.kind() == ErrorKind::InvalidInput, "seek to {t:?} refused: {e}");
                    continue;
                }
                Ok(()) => {}
            }
            let mut turns = 0;
            loop {
                match Pin::new(&mut s).poll_complete(&mut ctx()) {
                    Poll::Pending => {
                        turns += 1;
                        ck!(real && turns < 20_000, "never ready");
                        std::thread::sleep(std::time::Duration::from_micros(50));
                    }
                    Poll::Ready(Ok(p)) => {
                        ck!(want == Some(p as i128), "seek to {t:?} from {pos} of {len} arrived at {p}");
                        pos = p;
                        break;
                    }
                    Poll::Ready(Err(e)) => {
                        // a file reports a target below its start here
                        ck!(real && want.is_none() && e.kind() == ErrorKind::InvalidInput, "seek to {t:?}: {e}");
                        break;
                    }
                }
            }
        }
    }
    Ok(())
}

fn cursor(seed: u64) -> R {
    let mut r = Rng::new(seed);
    let n = r.below(40) as usize;
    let d = bytes(&mut r, n);
    let a: Arc<[u8]> = d.as_slice().into();
    ck!(a[..] == d[..] && a.len() == n && Arc::clone(&a)[..] == d[..], "Arc");
    source(seed ^ 5, std::io::Cursor::new(a), &d, false)
}

fn files(seed: u64, dir: &std::path::Path) -> R {
    let mut r = Rng::new(seed);
    let n = r.pick(&[0usize, 1, 50, 5000]);
    let d = bytes(&mut r, n);
    let p = dir.join(format!("f{seed}"));
    std::fs::write(&p, &d).map_err(|e| e.to_string())?;
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().map_err(|e| e.to_string())?;
    let _g = rt.enter();
    let f = rt.block_on(tokio::fs::File::open(p.clone())).map_err(|e| e.to_string())?;
    let m = rt.block_on(tokio::fs::symlink_metadata(&p)).map_err(|e| e.to_string())?;
    ck!(m.len() == n as u64 && !m.is_dir() && !m.is_symlink(), "metadata");
    let res = source(seed ^ 5, f, &d, true);
    let _ = std::fs::remove_file(&p);
    res
}

fn walk(seed: u64, dir: &std::path::Path) -> R {
    let mut r = Rng::new(seed);
    let root = dir.join(format!("w{seed}"));
    let e = |x: std::io::Error| x.to_string();
    std::fs::create_dir(&root).map_err(e)?;
    let mut want: Vec<(std::path::PathBuf, String, u8)> = vec![];
    let mut dirs = vec![(root.clone(), String::new())];
    let res = (|| {
        for i in 0..r.below(12) {
            let (d, rel) = r.pick(&dirs);
            let name = format!("{}{i}", r.pick(&["x", "é", " ", "..", "\\", "-"]));
            let p = d.join(&name);
            let rn = if rel.is_empty() { name } else { format!("{rel}/{name}") };
            let k = r.below(3) as u8;
            match k {
                0 => { std::fs::create_dir(&p).map_err(e)?; dirs.push((p.clone(), rn.clone())); }
                1 => std::os::unix::fs::symlink("somewhere/else", &p).map_err(e)?,
                _ => std::fs::write(&p, b"abc").map_err(e)?,
            }
            want.push((p, rn, k));
        }
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().map_err(e)?;
        rt.block_on(async {
            let mut got = HashSet::new();
            for (d, _) in &dirs {
                let mut rd = tokio::fs::read_dir(d).await.map_err(e)?;
                while let Some(x) = rd.next_entry().await.map_err(e)? {
                    let p = x.path();
                    let m = x.metadata().await.map_err(e)?;
                    let Some(w) = want.iter().find(|w| w.0 == p) else { return Err(format!("{p:?} is not there")) };
                    ck!(p.parent() == Some(d.as_path()), "parent of {p:?}");
                    ck!(m.is_dir() == (w.2 == 0) && m.is_symlink() == (w.2 == 1) && m.is_file() == (w.2 == 2), "type of {p:?}");
                    let s = p.strip_prefix(&root).map_err(|_| "strip_prefix".to_string())?;
                    ck!(s.to_string_lossy() == w.1, "relative name {s:?}, want {:?}", w.1);
                    if w.2 == 1 {
                        let t = tokio::fs::read_link(&p).await.map_err(e)?;
                        ck!(t.as_os_str().as_encoded_bytes() == b"somewhere/else", "read_link");
                    }
                    ck!(got.insert(p), "listed twice");
                }
            }
            ck!(got.len() == want.len(), "not all listed");
            Ok(())
        })
    })();
    let _ = std::fs::remove_dir_all(&root);
    res
}

fn chrono_(seed: u64) -> R {
    use chrono::{Datelike as _, TimeZone as _, Timelike as _};
    let mut r = Rng::new(seed);
    let s = r.below(300 * 366 * 86400) as i64 - 86400 * 365 * 30;
    let t = std::time::UNIX_EPOCH;
    let t = if s >= 0 { t + std::time::Duration::from_secs(s as u64) } else { t - std::time::Duration::from_secs(s.unsigned_abs()) };
    let u = chrono::DateTime::<chrono::Utc>::from(t);
    let off = r.below(86400 * 2 - 1) as i32 - 86399;
    let Some(z) = chrono::FixedOffset::east_opt(off) else { return Ok(()) };
    let l = u.with_timezone(&z).naive_local();
    // days and seconds by hand
    let (day, sec) = ((s + off as i64).div_euclid(86400), (s + off as i64).rem_euclid(86400));
    let d = chrono::Utc.timestamp_opt(day * 86400, 0).single().ok_or("day")?;
    ck!((l.year(), l.month(), l.day()) == (d.year(), d.month(), d.day()), "date");
    ck!((l.hour() as i64, l.minute() as i64, l.second() as i64) == (sec / 3600, sec / 60 % 60, sec % 60), "time");
    ck!((1..=12).contains(&l.month()) && (1..=31).contains(&l.day()), "range");
    Ok(())
}

fn channel(seed: u64) -> R {
    let (tx, mut rx) = tokio::sync::oneshot::channel::<u64>();
    ck!(rx.try_recv().is_err(), "received before it was sent");
    ck!(tx.send(seed).is_ok() && rx.try_recv() == Ok(seed), "oneshot");
    let (tx, rx) = tokio::sync::oneshot::channel::<u64>();
    drop(rx);
    ck!(tx.send(seed) == Err(seed), "send to nobody");
    Ok(())
}

fn responses(seed: u64) -> R {
    use actix_web::http::{StatusCode, header};
    use actix_web::{HttpResponse, body::MessageBody as _, test::TestRequest};
    let mut r = Rng::new(seed);
    let mut b = HttpResponse::Ok();
    let hs = [header::CONTENT_TYPE, header::ACCEPT_RANGES, header::CONTENT_RANGE];
    let mut m: Vec<Option<String>> = vec![None; 3];
    let mut st = 200;
    for _ in 0..r.below(8) {
        if r.chance(1, 4) {
            let s = r.pick(&[StatusCode::OK, StatusCode::PARTIAL_CONTENT, StatusCode::BAD_REQUEST, StatusCode::RANGE_NOT_SATISFIABLE]);
            b.status(s);
            st = s.as_u16();
        } else {
            let k = r.below(3) as usize;
            let v = format!("bytes {}", r.next());
            b.insert_header((hs[k].clone(), v.clone()));
            m[k] = Some(v);
        }
    }
    let text = bytes(&mut r, 9);
    let resp = if r.chance(1, 2) { b.finish() } else { b.body(text.clone()) };
    ck!(resp.status().as_u16() == st, "status");
    for k in 0..3 {
        let got: Vec<_> = resp.headers().get_all(&hs[k]).map(|v| v.to_str().unwrap_or("?").to_string()).collect();
        ck!(got == m[k].iter().cloned().collect::<Vec<_>>(), "header {k}: {got:?}");
    }
    if let Ok(x) = resp.into_body().try_into_bytes() { ck!(x.is_empty() || x[..] == text[..], "body"); }
    let q = TestRequest::default().insert_header((header::RANGE, "bytes=1-2")).to_http_request();
    ck!(q.headers().get(header::RANGE).map(|v| v.to_str().ok()) == Some(Some("bytes=1-2")) && q.headers().get(header::ACCEPT).is_none(), "request headers");
    Ok(())
}

pub fn run(c: &mut Ctx) -> String {
    let tmp = tempfile::tempdir().unwrap();
    let dir = tmp.path().to_path_buf();
    let fs: &[(&str, &dyn Fn(u64) -> R, u64)] = &[
        ("tokio::io::ReadBuf, Vec::reserve", &readbuf, 1), ("crc32fast", &crc, 1), ("indexmap", &indexmap, 1),
        ("bytes, tokio_util::io::poll_read_buf", &buffers, 1), ("http-range-header", &ranges, 1), ("binary_search_by_key", &search, 1),
        ("str, String, format!", &texts, 1), ("std::io::Cursor, Arc", &cursor, 1), ("tokio::fs::File", &|s| files(s, &dir), 20),
        ("tokio::fs::read_dir, Path", &|s| walk(s, &dir), 20), ("chrono", &chrono_, 1), ("tokio::sync::oneshot", &channel, 1),
        ("actix-web responses", &responses, 1),
    ];
    let top = if c.thorough { 200_000 } else { 3000 };
    let base = c.seed.wrapping_mul(1_000_003);
    for i in 0..top {
        for (name, f, every) in fs {
            if i % every != 0 { continue; }
            if !c.go() { return RULE.into(); }
            let s = base.wrapping_add(i);
            if !c.case(name, &|| format!("seed {s}"), || f(s)) { return RULE.into(); }
        }
    }
    RULE.into()
}
const RULE: &str = "a case is one random history of one dependency, checked against the contract the proofs assume of it";
