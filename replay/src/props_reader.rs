use crate::Ctx;
use crate::engine::*;
use crate::source::{Act, W};
use crate::spec::SpecZip;
use std::io::SeekFrom;
use std::pin::Pin;
use zippity::{ReadError, Reader};

type PR = Pin<Box<Reader<crate::source::Src>>>;

fn make(c: &Case) -> (PR, W) {
    let w = world(c);
    let r = Box::pin(builder(&c.entries, &w).build());
    (r, w)
}

/// Structural small-scope lists: every combination of up to two entries from a small menu.
fn small_lists() -> Vec<Vec<ESpec>> {
    let menu: Vec<ESpec> = [0u64, 1, 5].iter().flat_map(|&l| {
        [CrcMode::Unknown, CrcMode::Right].into_iter().map(move |k| { let mut e = ESpec::simple(l as u32, "", l); e.crc = k; e })
    }).collect();
    let mut v: Vec<Vec<ESpec>> = vec![vec![]];
    for a in &menu {
        let mut a1 = a.clone();
        a1.name = "a".into();
        v.push(vec![a1.clone()]);
        for b in &menu {
            let mut b1 = b.clone();
            b1.name = "bé".into();
            b1.id += 50;
            v.push(vec![a1.clone(), b1]);
        }
    }
    for k in [CrcMode::Unknown, CrcMode::Right] {
        let mut a = ESpec::simple(crate::spec::ZERO, "zero", 4);
        a.crc = k;
        let mut b = ESpec::simple(crate::spec::ZERO + 1, "zero again", 8);
        b.crc = CrcMode::Unknown;
        v.push(vec![a, b]);
    }
    v
}

fn plain(entries: Vec<ESpec>) -> Case { Case { entries, acts: vec![], cycle: false, ops: vec![] } }

// ------------------------------------------------------------------ C01
fn seq_check(c: &Case, n: usize) -> Result<(), String> {
    let z = spec_of(&c.entries);
    let (mut r, _w) = make(c);
    let got = read_all(r.as_mut(), n, z.size + 10)?;
    let want = z.window(0, z.size as usize);
    if got != want { return Err(format!("archive differs from specification: {}", first_diff(&got, &want))); }
    Ok(())
}

fn virtual_list(r: &mut Rng) -> Vec<ESpec> {
    let n = 1 + r.below(4);
    (0..n).map(|i| {
        let huge = i == 0 && r.below(4) == 0;
        let mut e = ESpec::simple(i as u32, &format!("v{i}"), if huge { r.pick(&[(1u64 << 62) + 3, (1 << 63) - 1, 1 << 63, (1 << 63) + 12345]) } else { 0 } + r.pick(&[0u64, 3, 1 << 16, (1 << 31) + 1, (1 << 32) - 1, 1 << 32, (1 << 32) + 7, 1 << 40, 1 << 50, 1 << 60]));
        e.crc = if e.declared <= 1 << 16 { CrcMode::Right } else { CrcMode::Given(r.next() as u32) };
        e
    }).collect()
}

/// windows of archives much larger than memory, reached by seeking
fn virtual_check(c: &Case, offs: &[u64]) -> Result<(), String> {
    let z = spec_of(&c.entries);
    let (mut r, _w) = make(c);
    if r.size() != z.size { return Err(format!("size {} instead of {}", r.size(), z.size)); }
    for &o in offs {
        r.as_mut().seek_from_start_pinned(o);
        let mut got = Vec::new();
        while got.len() < 300 {
            match poll_read(r.as_mut(), 300 - got.len(), 0)? {
                Got::Bytes(b) if b.is_empty() => break,
                Got::Bytes(b) => got.extend_from_slice(&b),
                Got::Pending => {}
                Got::Err(e) => return Err(format!("read error at {o}: {e}")),
            }
        }
        let want = z.window(o, 300);
        if got != want { return Err(format!("at offset {o}: {}", first_diff(&got, &want))); }
    }
    Ok(())
}

fn interesting(z: &SpecZip) -> Vec<u64> {
    let mut v = vec![];
    for m in z.local.iter().chain(&z.data).chain(&z.desc).chain(&z.cd).chain([&z.cd_off, &z.eocd_off, &z.size]) {
        for d in [-2i64, 0, 1, 9] { v.push(m.saturating_add_signed(d)); }
    }
    v.retain(|o| *o <= z.size + 5);
    v.sort_unstable();
    v.dedup();
    v
}

pub fn c01(c: &mut Ctx) -> String {
    for l in small_lists() {
        for n in [1usize, 7, 100, 8192] {
            let case = plain(l.clone());
            if !c.case("small-scope", &|| format!("buffer {n}, {case:?}"), || seq_check(&case, n)) { return String::new(); }
        }
    }
    // every type / permission class, field boundaries
    let mut r = Rng::new(c.seed);
    // more than 65535 entries
    let many: Vec<ESpec> = (0..65537u32).map(|i| ESpec::simple(i, &format!("{i:x}"), u64::from(i % 3 == 0))).collect();
    let case = plain(many);
    if !c.case("65537 entries", &|| "65537 entries of 0 or 1 bytes, buffer 100000".into(), || seq_check(&case, 100_000)) { return String::new(); }
    let o = GenOpts { names: true, meta: true, pend: false, max_entries: 6, sizes: vec![0, 1, 2, 3, 10, 100, 8191, 8192, 8193, 20000], ..Default::default() };
    let mut k = 0u64;
    while c.go() && (c.thorough || k < 40000) {
        k += 1;
        if k % 5 == 0 {
            let case = plain(virtual_list(&mut r));
            let z = spec_of(&case.entries);
            let offs = interesting(&z);
            if !c.case("huge archives (windows)", &|| format!("{case:?}"), || virtual_check(&case, &offs)) { break; }
        } else {
            let entries = gen_entries(&mut r, &o);
            let (acts, cycle) = gen_acts(&mut r, &o);
            let case = Case { entries, acts, cycle, ops: vec![] };
            let n = r.pick(&[1usize, 3, 30, 100, 8192, 70000]);
            let total: u64 = case.entries.iter().map(|e| e.declared + 200 + 2 * e.name.len() as u64).sum();
            let n = if total > 30000 { n.max(100) } else { n };
            if !c.case("random", &|| short_case(&case, n), || seq_check(&case, n)) { break; }
        }
    }
    "the archive read from the library is compared with an independent executable specification, byte for byte; \
     cases: all lists of at most two entries from a menu of six, 65537 entries, random lists with rich names and metadata, huge declared sizes checked in windows; distinct = different case text".into()
}

fn short_case(c: &Case, n: usize) -> String { format!("buffer {n}, {c:?}") }

// ------------------------------------------------------------------ scale
/// Archives of thousands of entries: positions deep inside of the central directory and the end records.
fn many(n: u32, len: u64) -> Vec<ESpec> {
    (0..n).map(|i| {
        let mut e = ESpec::simple(i, &format!("{i:x}"), if i % 7 == 0 { len } else { 0 });
        if i % 2 == 0 { e.crc = CrcMode::Right; }
        e
    }).collect()
}

/// Windows after seeks, relative to the library's own sequential bytes; every read has to deliver something before the end.
fn scale_check(case: &Case, offs: &[u64], n: usize) -> Result<(), String> {
    let base = baseline(case)?;
    let (mut r, _w) = make(case);
    for &o in offs {
        r.as_mut().seek_from_start_pinned(o);
        let mut pos = o;
        for _ in 0..3 {
            match poll_read(r.as_mut(), n, 0)? {
                Got::Bytes(b) => {
                    let want: Vec<u8> = base.get(pos.min(base.len() as u64) as usize..).unwrap_or(&[]).iter().take(b.len()).copied().collect();
                    if b != want { return Err(format!("after a seek to {o}, at {pos}: {}", first_diff(&b, &want))); }
                    if b.is_empty() && (pos as usize) < base.len() { return Err(format!("end of file reported at {pos} of {} after a seek to {o}", base.len())); }
                    pos += b.len() as u64;
                    if r.tell() != pos { return Err(format!("position {} instead of {pos}", r.tell())); }
                }
                Got::Pending => {}
                Got::Err(e) => return Err(format!("after a seek to {o}: {e}")),
            }
        }
    }
    Ok(())
}

fn scale(c: &mut Ctx) -> bool {
    for n in [300u32, 1100, 5000, 70_000] {
        let case = plain(many(n, 2));
        let z = spec_of(&case.entries);
        let k = n as usize;
        let offs = vec![z.size - 1, z.eocd_off, z.cd[k - 1] + 3, z.cd[k / 2], z.cd_off + 1, z.desc[k - 1] + 5, z.data[k - 7], z.local[k / 3] + 2, z.size, 0];
        for b in [1usize, 60, 5000] {
            if !c.case("thousands of entries", &|| format!("{n} entries of 0 or 2 bytes, offsets {offs:?}, buffer {b}"), || scale_check(&case, &offs, b)) { return false; }
        }
    }
    true
}

/// An entry of more than 4 GiB of one byte value between two small ones.
fn giant(crc: CrcMode) -> Vec<ESpec> {
    let mut e = ESpec::simple(crate::spec::FLAT + 0x5a, "giant", (1 << 32) + 100);
    e.crc = crc;
    vec![ESpec::simple(1, "first", 3), e, ESpec::simple(2, "last", 4)]
}

/// Sequential read of more than 4 GiB: position after every read, and the bytes behind the data.
fn giant_seq(case: &Case) -> Result<(), String> {
    let z = spec_of(&case.entries);
    let (mut r, _w) = make(case);
    let mut mem = vec![0u8; 1 << 20];
    let mut pos = 0u64;
    loop {
        let mut buf = tokio::io::ReadBuf::new(&mut mem);
        match tokio::io::AsyncRead::poll_read(r.as_mut(), &mut ctx(), &mut buf) {
            std::task::Poll::Ready(Ok(())) => {}
            x => return Err(format!("{x:?} at {pos}")),
        }
        let b = buf.filled();
        if b.is_empty() { break; }
        if pos < z.data[1] || pos + b.len() as u64 > z.desc[1] {
            let want = z.window(pos, b.len());
            if b != want { return Err(format!("at {pos}: {}", first_diff(b, &want))); }
        }
        pos += b.len() as u64;
        if r.tell() != pos { return Err(format!("position {} instead of {pos}", r.tell())); }
    }
    if pos != z.size { return Err(format!("end at {pos} of {}", z.size)); }
    check_crcs(case, &r)
}

// ------------------------------------------------------------------ histories

#[derive(Clone, Copy, Default)]
pub struct Oracle {
    pub crc: bool,
    pub lazy: bool,
    /// compare with the library's own sequential read instead of the specification
    pub relative: bool,
}

pub fn baseline(c: &Case) -> Result<Vec<u8>, String> {
    let p = plain(c.entries.clone());
    let (mut r, _) = make(&p);
    let lim = 1 << 26;
    read_all(r.as_mut(), 1 << 20, lim)
}

struct Hist { r: PR, w: W, pos: u64, stats_opens: usize }

fn check_crcs(c: &Case, r: &Reader<crate::source::Src>) -> Result<(), String> {
    let mut i = 0;
    let mut listed = 0;
    for (name, crc) in r.crc32s() {
        while i < c.entries.len() && c.entries[i].name != name { i += 1; }
        let Some(e) = c.entries.get(i) else { return Err(format!("CRC listed for {name:?} out of order or unknown")); };
        let want = match e.crc { CrcMode::Given(g) => g, _ => e.true_crc() };
        if crc != want { return Err(format!("CRC listed for {name:?} is {crc:08x}, its data has {want:08x}")); }
        i += 1;
        listed += 1;
    }
    let supplied = c.entries.iter().filter(|e| e.crc != CrcMode::Unknown).count();
    if listed < supplied { return Err("a supplied CRC is missing from the list".into()); }
    Ok(())
}

/// entries which a read of n bytes at pos may open
fn check_opens(c: &Case, z: &SpecZip, pos: u64, n: usize, known: &[bool], opened: &[u32]) -> Result<(), String> {
    let end = pos.saturating_add(n as u64);
    for (k, id) in opened.iter().enumerate() {
        let Some(i) = c.entries.iter().position(|e| e.id == *id) else { return Err("unknown source opened".into()); };
        let e = &c.entries[i];
        if e.declared == 0 { return Err(format!("empty entry {i} was opened")); }
        if opened[..k].contains(id) { return Err(format!("entry {i} opened twice in one read")); }
        let data = pos < z.desc[i] && end > z.data[i];
        let desc = pos < z.desc[i] + 24 && end > z.desc[i];
        let cd_end = z.cd.get(i + 1).copied().unwrap_or(z.eocd_off);
        let cd = pos < cd_end && end > z.cd[i];
        if !(data || (!known[i] && (desc || cd))) {
            return Err(format!("entry {i} opened by a read of {n} bytes at {pos}, which needs neither its data nor an unknown CRC"));
        }
    }
    Ok(())
}

fn known(c: &Case, r: &Reader<crate::source::Src>) -> Vec<bool> {
    let l: Vec<String> = r.crc32s().map(|x| x.0.to_string()).collect();
    c.entries.iter().map(|e| l.contains(&e.name)).collect()
}

fn do_read(c: &Case, z: &SpecZip, want: Option<&[u8]>, h: &mut Hist, n: usize, prefix: usize, o: Oracle) -> Result<(bool, usize), String> {
    { let mut w = h.w.borrow_mut(); w.pend_in_call = false; w.err_in_call = false; }
    let before = if o.lazy { known(c, &h.r) } else { vec![] };
    let nopen = h.w.borrow().opens.len();
    let before_len = h.pos;
    let got = poll_read(h.r.as_mut(), n, prefix)?;
    let (pend, err) = { let w = h.w.borrow(); (w.pend_in_call, w.err_in_call) };
    let mut progress = false;
    let mut count = 0;
    if err && !matches!(got, Got::Err(_)) { return Err(format!("a source failed in a read of {n} bytes at {}, but the read does not report it", h.pos)); }
    match got {
        Got::Bytes(b) => {
            if n > 0 && b.is_empty() && h.pos < z.size { return Err(format!("end of file reported at {} of {}", h.pos, z.size)); }
            let exp = match want {
                Some(w) => w.get(h.pos.min(w.len() as u64) as usize..).unwrap_or(&[]).iter().take(b.len()).copied().collect::<Vec<u8>>(),
                None => z.window(h.pos, b.len()),
            };
            if exp != b { return Err(format!("read of {n} bytes at {}: {}", h.pos, first_diff(&b, &exp))); }
            h.pos += b.len() as u64;
            count = b.len();
            progress = !b.is_empty();
        }
        Got::Pending => { if !pend { return Err(format!("not-ready at {} although no source reported not-ready", h.pos)); } }
        Got::Err(e) => {
            if !err { return Err(format!("error {e} at {} although no source failed", h.pos)); }
            if !e.to_string().contains("injected") || Some(e.kind()) != h.w.borrow().kind { return Err(format!("error at {} is {e:?}, not the source's error", h.pos)); }
        }
    }
    if h.r.tell() != h.pos { return Err(format!("position is {} after a read from {} delivering {} bytes", h.r.tell(), before_len, h.pos - before_len)); }
    if o.lazy {
        let w = h.w.borrow();
        check_opens(c, z, before_len, n, &before, &w.opens[nopen..])?;
        if w.max_live > 1 { return Err("two sources open at the same time".into()); }
    }
    h.stats_opens = h.w.borrow().opens.len();
    if o.crc { check_crcs(c, &h.r)?; }
    Ok((progress, count))
}

pub fn run_history(c: &Case, o: Oracle) -> Result<(), String> {
    let z = spec_of(&c.entries);
    let base = if o.relative { Some(baseline(c)?) } else { None };
    let want = base.as_deref();
    let (r, w) = make(c);
    let mut h = Hist { r, w, pos: 0, stats_opens: 0 };
    let size = h.r.size();
    if size != z.size { return Err(format!("size {} instead of {}", size, z.size)); }
    for (k, op) in c.ops.iter().enumerate() {
        let step = |e: String| format!("operation {k} ({op:?}): {e}");
        match op {
            Op::Read(n) => { do_read(c, &z, want, &mut h, *n, k % 3, o).map_err(step)?; }
            Op::SeekMut(p) => { 
                // needs a reader that is not pinned for good: in place, or taken out first
                if k % 3 != 0 {
                    h.r.as_mut().get_mut().seek_from_start_mut(*p);
                } else {
                    let mut inner = h.r.as_mut().take_pinned();
                    inner.seek_from_start_mut(*p);
                    h.r = Box::pin(inner);
                }
                h.pos = *p;
            }
            Op::SeekPinned(p) => { h.r.as_mut().seek_from_start_pinned(*p); h.pos = *p; }
            Op::SeekAsync(s) => {
                let target: Option<u64> = match s {
                    SeekFrom::Start(p) => Some(*p),
                    SeekFrom::End(d) => { let t = i128::from(size) + i128::from(*d); if t > i128::from(u64::MAX) { continue; } u64::try_from(t).ok() }
                    SeekFrom::Current(d) => { let t = i128::from(h.pos) + i128::from(*d); if t > i128::from(u64::MAX) { continue; } u64::try_from(t).ok() }
                };
                match (async_seek(h.r.as_mut(), *s), target) {
                    (Ok(p), Some(t)) => { if p != t { return Err(step(format!("seek returned {p} instead of {t}"))); } h.pos = t; }
                    (Ok(p), None) => return Err(step(format!("seek before start succeeded ({p})"))),
                    (Err(e), Some(t)) => return Err(step(format!("seek to {t} failed: {e}"))),
                    (Err(e), None) => {
                        if e.kind() != std::io::ErrorKind::InvalidInput { return Err(step(format!("seek before start failed with {:?}", e.kind()))); }
                    }
                }
            }
            Op::Clone => { let r2 = (*h.r).clone(); h.r = Box::pin(r2); }
            Op::DropClone => {
                // a clone that is read on its own must not disturb the original
                let mut r2 = Box::pin((*h.r).clone());
                if r2.size() != size || r2.tell() != h.pos { return Err(step("clone has other size or position".into())); }
                for n in [1usize, 40] { let _ = poll_read(r2.as_mut(), n, 0).map_err(step)?; }
                r2.as_mut().seek_from_start_pinned(3);
            }
            Op::Take => {
                let known_before: Vec<(String, u32)> = h.r.crc32s().map(|x| (x.0.to_string(), x.1)).collect();
                let r2 = h.r.as_mut().take_pinned();
                let known_after: Vec<(String, u32)> = r2.crc32s().map(|x| (x.0.to_string(), x.1)).collect();
                if known_before != known_after { return Err(step("taking changed the known CRCs".into())); }
                let empty = spec_of(&[]);
                if h.r.tell() != 0 || h.r.size() != empty.size || h.r.crc32s().count() != 0 { return Err(step("taken-from reader is not an empty archive at its start".into())); }
                let b = read_all(h.r.as_mut(), 9, 1000).map_err(step)?;
                if b != empty.window(0, 1000) { return Err(step("taken-from reader does not deliver the empty archive".into())); }
                if h.w.borrow().live > 0 { return Err(step("a source is still held open after the taking".into())); }
                h.r = Box::pin(r2);
            }
            Op::Stream(_) => {}
        }
        if h.r.tell() != h.pos { return Err(step(format!("position {} instead of {}", h.r.tell(), h.pos))); }
        if h.r.size() != size { return Err(step("size changed".into())); }
        if o.crc { check_crcs(c, &h.r).map_err(step)?; }
    }
    // finish reading
    let mut idle = 0;
    while h.pos < size {
        let left = size - h.pos;
        let n = if left > 5000 { 4096 } else { 37 };
        let (progress, _) = do_read(c, &z, want, &mut h, n, 0, o).map_err(|e| format!("reading on to the end: {e}"))?;
        if progress { idle = 0 } else { idle += 1 }
        if idle > 3_000_000 { return Err(format!("no progress at {}", h.pos)); }
    }
    let (p, _) = do_read(c, &z, want, &mut h, 5, 0, o).map_err(|e| format!("after the end: {e}"))?;
    if p { return Err("bytes delivered after the end".into()); }
    Ok(())
}

// ------------------------------------------------------------------ C03
pub fn c03(c: &mut Ctx) -> String {
    // exhaustive: every offset of every small list, few buffer sizes
    let lists = small_lists();
    for l in &lists {
        let z = spec_of(l);
        let step = if l.len() < 2 || c.thorough { 1 } else { 3 };
        for n in [1usize, 33, 1000] {
            let case = plain(l.clone());
            if !c.case("every offset", &|| format!("all offsets step {step}, buffer {n}, {case:?}"), || {
                let base = baseline(&case)?;
                let (mut r, _w) = make(&case);
                let mut off = 0;
                while off <= z.size + 2 {
                    r.as_mut().seek_from_start_pinned(off);
                    if r.tell() != off { return Err(format!("position {} after seek to {off}", r.tell())); }
                    let mut got = vec![];
                    for _ in 0..(200 / n + 4) {
                        match poll_read(r.as_mut(), n, 0)? { Got::Bytes(b) => got.extend_from_slice(&b), Got::Pending => return Err("not-ready".into()), Got::Err(e) => return Err(format!("after seek to {off}: {e}")) }
                    }
                    let want: Vec<u8> = base.get(off as usize..).unwrap_or(&[]).iter().take(got.len()).copied().collect();
                    if got != want || (got.is_empty() && off < z.size) { return Err(format!("after seek to {off}: {}", first_diff(&got, &want))); }
                    off += step;
                }
                Ok(())
            }) { return String::new(); }
        }
    }
    if !scale(c) { return String::new(); }
    for crc in [CrcMode::Given(7), CrcMode::Unknown] {
        let case = plain(giant(crc));
        let z = spec_of(&case.entries);
        for d in [1u64 << 32, (1 << 32) - 270] {
            let offs = [z.data[1] + d];
            if !c.case("skip of 4 GiB", &|| format!("{crc:?}, offsets {offs:?}, {case:?}"), || virtual_check(&case, &offs)) { return String::new(); }
        }
    }
    let mut r = Rng::new(c.seed ^ 3);
    let o = GenOpts { ops: 14, seeks: true, max_entries: 5, sizes: vec![0, 1, 2, 5, 40, 300, 9000], names: false, ..Default::default() };
    let big = GenOpts { ops: 6, seeks: true, names: true, sizes: vec![0, 1, 100, 20000], ..Default::default() };
    let mut k = 0u64;
    while c.go() && (c.thorough || k < 30000) {
        k += 1;
        if k % 8 == 0 {
            let case = plain(virtual_list(&mut r));
            let z = spec_of(&case.entries);
            let mut offs = interesting(&z);
            for i in (1..offs.len()).rev() { let j = r.below(i as u64 + 1) as usize; offs.swap(i, j); }
            if !c.case("huge archives", &|| format!("offsets {offs:?}, {case:?}"), || virtual_check(&case, &offs)) { break; }
            continue;
        }
        let oo = if k % 50 == 0 { &big } else { &o };
        let case = history_case(&mut r, oo);
        if !c.case("histories", &|| format!("{case:?}"), || run_history(&case, Oracle { relative: true, ..Default::default() })) { break; }
    }
    "histories of seeks (all entry points, offsets around every structure boundary and beyond the end) and reads, compared with the library's own sequential read and with the requested position; all offsets of all lists of at most two entries; distinct = different case text".into()
}

pub fn history_case(r: &mut Rng, o: &GenOpts) -> Case {
    let entries = gen_entries(r, o);
    let (acts, cycle) = gen_acts(r, o);
    let z = spec_of(&entries);
    let ops = gen_ops(r, o, &z);
    Case { entries, acts, cycle, ops }
}

// ------------------------------------------------------------------ C04
pub fn c04(c: &mut Ctx) -> String {
    // every buffer size 1..=N against one-shot reading
    for l in small_lists() {
        for n in 1usize..=if c.thorough { 240 } else { 130 } {
            if l.len() == 2 && n % 5 != 0 && !c.thorough && n > 40 { continue; }
            let case = plain(l.clone());
            if !c.case("buffer sizes", &|| format!("buffer {n}, {case:?}"), || {
                let base = baseline(&case)?;
                let (mut r, _w) = make(&case);
                let mut pos = 0u64;
                loop {
                    match poll_read(r.as_mut(), n, n % 4)? {
                        Got::Bytes(b) => {
                            if b.is_empty() { break; }
                            let want: Vec<u8> = base.get(pos as usize..).unwrap_or(&[]).iter().take(b.len()).copied().collect();
                            if b != want { return Err(format!("at {pos}: {}", first_diff(&b, &want))); }
                            pos += b.len() as u64;
                        }
                        Got::Pending => return Err(format!("not-ready at {pos} with sources that are always ready")),
                        Got::Err(e) => return Err(format!("error at {pos}: {e}")),
                    }
                    if r.tell() != pos { return Err(format!("position {} after {pos} bytes", r.tell())); }
                }
                if pos != base.len() as u64 { return Err(format!("end reported at {pos} of {}", base.len())); }
                Ok(())
            }) { return String::new(); }
        }
    }
    if !scale(c) { return String::new(); }
    {
        let case = plain(giant(CrcMode::Given(crate::spec::content_crc(crate::spec::FLAT + 0x5a, (1 << 32) + 100))));
        if !c.case("sequential read of 4 GiB", &|| format!("buffer 1 MiB, {case:?}"), || giant_seq(&case)) { return String::new(); }
    }
    // all not-ready schedules of a bounded length, small lists
    let depth = if c.thorough { 9 } else { 6 };
    for (li, l) in small_lists().into_iter().enumerate() {
        if l.len() == 2 && li % 3 != 0 && !c.thorough { continue; }
        for mask in 0u32..(1 << depth) {
            for n in [1usize, 40, 300] {
                let acts: Vec<Act> = (0..depth).map(|i| if mask >> i & 1 == 1 { Act::Pending } else { Act::Short(2) }).collect();
                let case = Case { entries: l.clone(), acts, cycle: false, ops: vec![Op::Read(n); 3] };
                if !c.case("all schedules", &|| format!("{case:?}"), || run_history(&case, Oracle { relative: true, ..Default::default() })) { return String::new(); }
            }
        }
        if !c.go() { break; }
    }
    let mut r = Rng::new(c.seed ^ 4);
    let o = GenOpts { ops: 25, seeks: false, max_entries: 5, sizes: vec![0, 1, 2, 5, 40, 300, 9000, 17000], ..Default::default() };
    let mut k = 0u64;
    while c.go() && (c.thorough || k < 100000) {
        k += 1;
        let mut case = history_case(&mut r, &o);
        // a start in the middle exercises the skip and the separate CRC pass
        if k % 3 == 0 { let z = spec_of(&case.entries); let off = gen_offset(&mut r, &z); case.ops.insert(0, Op::SeekPinned(off)); }
        if !c.case("histories", &|| format!("{case:?}"), || run_history(&case, Oracle { relative: true, ..Default::default() })) { break; }
    }
    "reads with every buffer size up to the bound, all not-ready schedules up to the bound, and random ones, compared with one-shot reading by ready sources; position checked after every read; distinct = different case text".into()
}

// ------------------------------------------------------------------ C05
pub fn c05(c: &mut Ctx) -> String {
    let mut r = Rng::new(c.seed ^ 5);
    for l in small_lists() {
        let z = spec_of(&l);
        for off in interesting(&z) {
            for n in [1usize, 50, 1000] {
                let case = Case { entries: l.clone(), acts: vec![Act::Short(1); 3], cycle: false, ops: vec![Op::SeekPinned(off), Op::Read(n), Op::SeekPinned(0)] };
                if !c.case("seek, read, restart", &|| format!("{case:?}"), || crc_history(&case)) { return String::new(); }
            }
        }
    }
    // supplied CRCs which are not those of the data, on entries which are not read in full or are empty
    for len in [0u64, 1, 9000] {
        for given in [0u32, 1, 0xffff_ffff, 0x1234_5678] {
            let mut e = ESpec::simple(3, "g", len);
            e.crc = CrcMode::Given(given);
            let l = vec![ESpec::simple(1, "a", 2), e, ESpec::simple(2, "b", 0)];
            let z = spec_of(&l);
            let starts = if len == 0 { vec![0, z.local[1], z.desc[1], z.cd_off] } else { vec![z.desc[1], z.data[1] + 1, z.cd_off] };
            for s in starts {
                for n in [1usize, 25, 1000] {
                    let case = Case { entries: l.clone(), acts: vec![], cycle: false, ops: vec![Op::SeekPinned(s), Op::Read(n), Op::Read(n)] };
                    if !c.case("supplied CRCs", &|| format!("{case:?}"), || crc_history(&case)) { return String::new(); }
                }
            }
        }
    }
    for n in [300u32, 1100, 5000] {
        let case = plain(many(n, 3));
        let z = spec_of(&case.entries);
        for off in [z.size - 1, z.eocd_off - 20, z.cd_off, z.desc[n as usize / 2]] {
            if !c.case("thousands of entries", &|| format!("{n} entries, offset {off}"), || {
                let (mut r, _w) = make(&case);
                r.as_mut().seek_from_start_pinned(off);
                poll_read(r.as_mut(), 1000, 0)?;
                check_crcs(&case, &r)?;
                r.as_mut().seek_from_start_pinned(z.cd_off);
                let got = read_all(r.as_mut(), 5000, z.size)?;
                let want = z.window(z.cd_off, z.size as usize);
                if got != want { return Err(format!("central directory: {}", first_diff(&got, &want))); }
                check_crcs(&case, &r)
            }) { return String::new(); }
        }
    }
    {
        let case = plain(giant(CrcMode::Unknown));
        let z = spec_of(&case.entries);
        for (what, offs) in [("separate pass", vec![z.cd[1]]), ("skip", vec![z.desc[1] - 5])] {
            if !c.case("CRC of more than 4 GiB", &|| format!("{what}, offsets {offs:?}, {case:?}"), || virtual_check(&case, &offs)) { return String::new(); }
        }
        if !c.case("CRC of more than 4 GiB", &|| format!("sequential read, {case:?}"), || giant_seq(&case)) { return String::new(); }
    }
    let o = GenOpts { ops: 12, seeks: true, clones: true, max_entries: 4, sizes: vec![0, 1, 2, 5, 40, 300, 9000], ..Default::default() };
    let mut k = 0u64;
    while c.go() && (c.thorough || k < 100000) {
        k += 1;
        let mut case = history_case(&mut r, &o);
        for e in &mut case.entries { if r.chance(1, 5) { e.crc = CrcMode::Given(r.next() as u32); } }
        // a wrong supplied CRC is only delivered when the data is not read in full: handled by crc_history
        if !c.case("histories", &|| format!("{case:?}"), || crc_history(&case)) { break; }
    }
    "histories of seeks, reads, clones and takes; after every operation the list of CRCs, and in every read the CRC fields of descriptors and central directory, are compared with an independent CRC-32 of the content (or the supplied value)".into()
}

/// Compares only CRC fields (other bytes belong to other properties) and the list.
fn crc_history(c: &Case) -> Result<(), String> {
    let z = spec_of(&c.entries);
    let mut is_crc = std::collections::HashMap::new();
    for i in 0..c.entries.len() {
        for k in 0..4 { is_crc.insert(z.desc[i] + 4 + k, i); is_crc.insert(z.cd[i] + 16 + k, i); }
    }
    let (mut r, _w) = make(c);
    let mut ops = c.ops.clone();
    ops.push(Op::SeekPinned(z.cd_off));
    ops.extend(std::iter::repeat_n(Op::Read(60), 3 + c.entries.len() * 4));
    for (k, op) in ops.iter().enumerate() {
        match op {
            Op::Read(n) => {
                let pos = r.tell();
                match poll_read(r.as_mut(), *n, 0)? {
                    Got::Bytes(b) => for (j, x) in b.iter().enumerate() {
                        let off = pos + j as u64;
                        if let Some(i) = is_crc.get(&off) {
                            let want = z.window(off, 1);
                            if want != [*x] { return Err(format!("operation {k}: CRC byte of entry {i} at offset {off} is {x:02x}, expected {:02x}", want[0])); }
                        }
                    },
                    Got::Pending => {}
                    Got::Err(e) => {
                        // the data of an entry with a wrong supplied CRC was read in full
                        if e.get_ref().is_some_and(|e| matches!(e.downcast_ref(), Some(ReadError::Crc32Mismatch { .. }))) { 
                            let p = r.tell();
                            let i = (0..c.entries.len()).rev().find(|i| z.data[*i] <= p).unwrap_or(0);
                            if matches!(c.entries[i].crc, CrcMode::Given(g) if g != c.entries[i].true_crc()) { r.as_mut().seek_from_start_pinned(z.desc[i]); continue; }
                        }
                        return Err(format!("operation {k}: error {e}"));
                    }
                }
            }
            Op::SeekMut(p) => r.as_mut().get_mut().seek_from_start_mut(*p),
            Op::SeekPinned(p) => r.as_mut().seek_from_start_pinned(*p),
            Op::SeekAsync(s) => {
                let (SeekFrom::Start(_) | SeekFrom::End(_)) = s else { continue };
                if let SeekFrom::End(d) = s { if i128::from(z.size) + i128::from(*d) < 0 { continue; } }
                let _ = async_seek(r.as_mut(), *s);
            }
            Op::Clone => { let r2 = (*r).clone(); r = Box::pin(r2); }
            Op::Take | Op::DropClone | Op::Stream(_) => { let r2 = r.as_mut().take_pinned(); r = Box::pin(r2); }
        }
        check_crcs(c, &r).map_err(|e| format!("operation {k} ({op:?}): {e}"))?;
    }
    Ok(())
}

// ------------------------------------------------------------------ C06
fn c06_case(c: &Case, bad: usize, bufs: &[usize]) -> Result<(), String> {
    let z = spec_of(&c.entries);
    let (mut r, _w) = make(c);
    // what was done before does not matter
    for op in &c.ops {
        match op {
            Op::Read(n) => { let _ = poll_read(r.as_mut(), *n, 0)?; }
            Op::Clone => { let r2 = (*r).clone(); r = Box::pin(r2); }
            Op::Take => { let r2 = r.as_mut().take_pinned(); r = Box::pin(r2); }
            Op::SeekPinned(p) => r.as_mut().seek_from_start_pinned(*p),
            Op::SeekMut(p) => r.as_mut().get_mut().seek_from_start_mut(*p),
            Op::SeekAsync(s) => {
                // a target beyond u64::MAX is the caller's error
                let base = match s { SeekFrom::Start(_) => 0, SeekFrom::End(_) => z.size, SeekFrom::Current(_) => r.tell() };
                let by = match s { SeekFrom::Start(_) => 0, SeekFrom::End(d) | SeekFrom::Current(d) => *d };
                if i128::from(base) + i128::from(by) <= i128::from(u64::MAX) { let _ = async_seek(r.as_mut(), *s); }
            }
            _ => {}
        }
    }
    let e = &c.entries[bad];
    if r.tell() > z.data[bad] { r.as_mut().seek_from_start_pinned(if c.ops.len() % 2 == 0 { z.local[bad] } else { z.data[bad] }); }
    let start = r.tell();
    // all bytes which may be delivered before the error: everything before the data, and the data there is
    let may = z.data[bad] + e.actual;
    let mut pos = start;
    let mut seen_err = 0;
    for k in 0..CALL_LIMIT {
        match poll_read(r.as_mut(), bufs[k % bufs.len()], 0)? {
            Got::Bytes(b) => {
                pos += b.len() as u64;
                if seen_err > 0 { return Err(format!("{} bytes delivered by retrying after the error", b.len())); }
                if pos > may { return Err(format!("read went past the data of the wrong entry (to {pos}, data ends at {may})")); }
                if b.is_empty() { return Err("end of file instead of an error".into()); }
            }
            Got::Pending => {}
            Got::Err(err) => {
                let Some(re) = err.get_ref().and_then(|x| x.downcast_ref::<ReadError>()) else { return Err(format!("error {err:?} instead of a mismatch error")); };
                let want_crc = match e.crc { CrcMode::Given(g) => Some(g), CrcMode::Right => Some(e.true_crc()), CrcMode::Unknown => None };
                match re {
                    ReadError::SizeMismatch { entry_name, expected_size, actual_size } => {
                        if *entry_name != e.name || *expected_size != e.declared || *actual_size != e.actual || e.actual == e.declared {
                            return Err(format!("wrong error details: {re:?}"));
                        }
                    }
                    ReadError::Crc32Mismatch { entry_name, expected_crc, actual_crc } => {
                        if *entry_name != e.name || Some(*expected_crc) != want_crc || *actual_crc != e.true_crc() || want_crc == Some(e.true_crc()) {
                            return Err(format!("wrong error details: {re:?}"));
                        }
                    }
                    _ => return Err(format!("wrong error {re:?}")),
                }
                let shown = err.to_string();
                let (x, y) = match re { ReadError::SizeMismatch { expected_size, actual_size, .. } => (*expected_size, *actual_size), ReadError::Crc32Mismatch { expected_crc, actual_crc, .. } => (u64::from(*expected_crc), u64::from(*actual_crc)), _ => (0, 0) };
                let rest = shown.replacen(&e.name, "", 1);
                let has = |v: u64| rest.contains(&v.to_string()) || rest.to_lowercase().contains(&format!("{v:x}"));
                if !shown.contains(&e.name) || !has(x) || !has(y) { return Err(format!("error text {shown:?} lacks the name, {x} or {y}")); }
                seen_err += 1;
                if seen_err > 3 { return Ok(()); }
            }
        }
    }
    Err("neither error nor end".into())
}

pub fn c06(c: &mut Ctx) -> String {
    // exhaustive small: declared/actual up to 4, supplied CRC right/wrong/absent, buffers
    for declared in 1u64..=4 {
        for actual in 0u64..=5 {
            for crc in 0..5 {
                for n in [1usize, 2, 3, 5, 100] {
                    for pre in 0..2 {
                        if actual == declared && crc < 2 { continue; }
                        let mut e = ESpec::simple(7, "bad", declared);
                        e.actual = actual;
                        e.crc = match crc { 0 => CrcMode::Unknown, 1 => CrcMode::Right, 2 => CrcMode::Given(e.true_crc() ^ 0x8000_0000), 3 => CrcMode::Given(0),
                            // right for the declared part of the data
                            _ => CrcMode::Given(crate::spec::content_crc(7, declared.min(actual))) };
                        if actual == declared && crc == 4 { continue; }
                        let mut l = vec![e, ESpec::simple(8, "after", 3)];
                        if pre == 1 { l.insert(0, ESpec::simple(9, "before", 2)); }
                        let case = plain(l);
                        if !c.case("small-scope", &|| format!("buffer {n}, {case:?}"), || c06_case(&case, pre, &[n])) { return String::new(); }
                    }
                }
            }
        }
    }
    // sizes which are the same in their lower 32 bits
    for (declared, actual) in [((1u64 << 32) + 5, 5u64), ((1 << 33), 1), (1 << 32, 0), (5, (1 << 32) + 5)] {
        let mut e = ESpec::simple(crate::spec::FLAT + 9, "bad", declared);
        e.actual = actual;
        for crc in [CrcMode::Unknown, CrcMode::Right] {
            if actual > 1 << 31 && crc == CrcMode::Unknown { continue; }
            e.crc = crc;
            let case = plain(vec![e.clone(), ESpec::simple(8, "after", 3)]);
            if !c.case("sizes differing by 4 GiB", &|| format!("{case:?}"), || c06_case(&case, 0, &[100_000])) { return String::new(); }
        }
    }
    let mut r = Rng::new(c.seed ^ 6);
    let o = GenOpts { max_entries: 4, sizes: vec![1, 2, 5, 40, 300, 8192, 9000], ..Default::default() };
    let mut k = 0u64;
    while c.go() && (c.thorough || k < 40000) {
        k += 1;
        let mut entries = gen_entries(&mut r, &o);
        if entries.is_empty() { continue; }
        let bad = r.below(entries.len() as u64) as usize;
        let e = &mut entries[bad];
        if r.chance(1, 2) {
            let d = r.pick(&[1i64, -1, 7, -7, 8192, -5000, 100_000]);
            e.actual = e.declared.saturating_add_signed(d);
            if e.actual == e.declared { e.actual += 1; }
        } else {
            e.crc = CrcMode::Given(e.true_crc() ^ (1 << r.below(32)));
        }
        if r.chance(1, 4) { e.crc = CrcMode::Given(e.true_crc() ^ (1 << r.below(32))); }
        else if e.actual != e.declared && r.chance(1, 3) { e.crc = CrcMode::Given(crate::spec::content_crc(e.id, e.declared.min(e.actual))); }
        let (acts, cycle) = gen_acts(&mut r, &o);
        let ops = if r.chance(1, 3) { let z = spec_of(&entries); gen_ops(&mut r, &GenOpts { ops: 6, seeks: true, clones: true, ..Default::default() }, &z) } else { vec![] };
        let case = Case { entries, acts, cycle, ops };
        let bufs: Vec<usize> = (0..1 + r.below(4)).map(|_| r.pick(&[1usize, 2, 7, 30, 100, 5000, 100_000])).collect();
        let big: u64 = case.entries.iter().map(|e| e.actual).sum();
        let bufs = if big > 20000 { vec![4000usize, 100, 30000] } else { bufs };
        if !c.case("random", &|| format!("buffers {bufs:?}, entry {bad}, {case:?}"), || c06_case(&case, bad, &bufs)) { break; }
    }
    "one entry declares a wrong size or carries a wrong CRC; sequential reading with all small and random buffer sizes, short reads and not-ready schedules must fail with the right error before anything following the data is delivered, and keep failing".into()
}

// ------------------------------------------------------------------ C07
pub fn c07(c: &mut Ctx) -> String {
    // a failure at every single point, two failures at every pair of points (bounded)
    let n_pts = if c.thorough { 12 } else { 8 };
    for l in small_lists() {
        if l.is_empty() { continue; }
        let z = spec_of(&l);
        let mut starts = vec![0u64, z.cd_off, z.cd[l.len() - 1], z.desc[0], z.data[0] + 1];
        starts.dedup();
        for &s in &starts {
            for a in 0..n_pts {
                for n in [1usize, 60, 400] {
                    for second in [None, Some(a + 1)] {
                        let mut acts = vec![Act::Short(2); n_pts + 1];
                        acts[a] = Act::Err;
                        if let Some(b) = second { acts[b] = Act::Err; }
                        let case = Case { entries: l.clone(), acts, cycle: false, ops: vec![Op::SeekPinned(s), Op::Read(n), Op::Read(n), Op::Read(n)] };
                        if !c.case("failure points", &|| format!("{case:?}"), || run_history(&case, Oracle { relative: true, ..Default::default() })) { return String::new(); }
                    }
                }
            }
        }
    }
    let mut r = Rng::new(c.seed ^ 7);
    let o = GenOpts { ops: 15, seeks: true, err: true, max_entries: 5, sizes: vec![0, 1, 2, 5, 40, 300, 9000], ..Default::default() };
    let mut k = 0u64;
    while c.go() && (c.thorough || k < 30000) {
        k += 1;
        let case = history_case(&mut r, &o);
        if !c.case("histories", &|| format!("{case:?}"), || run_history(&case, Oracle { crc: true, relative: true, ..Default::default() })) { break; }
    }
    "a source failure is injected at every operation of small archives (and at every two consecutive ones), and at random operations of random histories; bytes, position and later reads are compared with the specification".into()
}

// ------------------------------------------------------------------ C11
pub fn c11(c: &mut Ctx) -> String {
    if !c.case("new_empty_file", &|| "Reader::new_empty_file".into(), || {
        let mut e = Box::pin(Reader::<crate::source::Src>::new_empty_file());
        let z = spec_of(&[]);
        if e.size() != z.size || e.tell() != 0 { return Err("wrong size or position of the empty reader".into()); }
        for n in [1usize, 50, 98, 200] {
            e.as_mut().seek_from_start_pinned(0);
            let b = read_all(e.as_mut(), n, 1000)?;
            if b != z.window(0, 200) { return Err(first_diff(&b, &z.window(0, 200))); }
        }
        Ok(())
    }) { return String::new(); }
    for l in small_lists() {
        let z = spec_of(&l);
        for off in interesting(&z) {
            for op in [Op::Clone, Op::Take, Op::DropClone] {
                for n in [1usize, 45] {
                    let case = Case { entries: l.clone(), acts: vec![Act::Full, Act::Pending, Act::Short(1), Act::Pending], cycle: false,
                        ops: vec![Op::SeekPinned(off), Op::Read(n), op.clone(), Op::Read(n), op.clone()] };
                    if !c.case("clone or take at every structure", &|| format!("{case:?}"), || run_history(&case, Oracle { crc: true, relative: true, ..Default::default() })) { return String::new(); }
                }
            }
        }
    }
    let mut r = Rng::new(c.seed ^ 11);
    let o = GenOpts { ops: 14, seeks: true, clones: true, max_entries: 4, sizes: vec![0, 1, 2, 5, 40, 300, 9000], ..Default::default() };
    let mut k = 0u64;
    while c.go() && (c.thorough || k < 200000) {
        k += 1;
        let case = history_case(&mut r, &o);
        if !c.case("histories", &|| format!("{case:?}"), || run_history(&case, Oracle { crc: true, relative: true, ..Default::default() })) { break; }
    }
    "histories with clones and takes at arbitrary points, including in the middle of a pending read; size, position, CRC list and all further bytes compared with the specification; the emptied reader must deliver the empty archive".into()
}

// ------------------------------------------------------------------ C16
pub fn c16(c: &mut Ctx) -> String {
    for l in small_lists() {
        let z = spec_of(&l);
        let case = plain(l.clone());
        if !c.case("sequential", &|| format!("{case:?}"), || {
            for n in [1usize, 30, 1000] {
                let (mut r, w) = make(&case);
                if !w.borrow().opens.is_empty() { return Err("source opened before any read".into()); }
                let _ = read_all(r.as_mut(), n, z.size + 100)?;
                let want: Vec<u32> = case.entries.iter().filter(|e| e.declared > 0).map(|e| e.id).collect();
                let w = w.borrow();
                if w.opens != want { return Err(format!("sequential read opened {:?} instead of {want:?}", w.opens)); }
                if w.max_live > 1 || w.live > 0 { return Err("sources left open".into()); }
                let total: u64 = case.entries.iter().map(|e| e.actual).sum();
                if w.bytes_read != total { return Err(format!("{} bytes read from sources instead of {total}", w.bytes_read)); }
            }
            Ok(())
        }) { return String::new(); }
        for off in interesting(&z) {
            for n in [1usize, 50, 1000] {
                let case = Case { entries: l.clone(), acts: vec![], cycle: false, ops: vec![Op::SeekPinned(off), Op::Read(n), Op::Read(n)] };
                if !c.case("seek and read", &|| format!("{case:?}"), || run_history(&case, Oracle { lazy: true, relative: true, ..Default::default() })) { return String::new(); }
            }
        }
    }
    let mut r = Rng::new(c.seed ^ 16);
    for n in [300u32, 3000] {
        let l = many(n, 2);
        let z = spec_of(&l);
        for off in [z.size - 1, z.cd_off, z.cd[n as usize - 1], z.data[n as usize / 2], 0] {
            let case = Case { entries: l.clone(), acts: vec![], cycle: false, ops: vec![Op::SeekPinned(off), Op::Read(2000)] };
            if !c.case("thousands of entries", &|| format!("{n} entries, offset {off}"), || run_history(&case, Oracle { lazy: true, relative: true, ..Default::default() })) { return String::new(); }
        }
    }
    let o = GenOpts { ops: 14, seeks: true, max_entries: 5, sizes: vec![0, 0, 1, 2, 5, 40, 300, 9000], ..Default::default() };
    let oc = GenOpts { ops: 14, seeks: true, clones: true, max_entries: 5, sizes: vec![0, 0, 1, 2, 5, 40, 300, 9000], ..Default::default() };
    let mut k = 0u64;
    while c.go() && (c.thorough || k < 200000) {
        k += 1;
        let mut case = history_case(&mut r, if k % 3 == 0 { &oc } else { &o });
        case.ops.retain(|x| !matches!(x, Op::DropClone));
        for (i, e) in case.entries.iter_mut().enumerate() { e.id = i as u32 + if k % 4 == 0 && e.declared % 4 == 0 { crate::spec::ZERO } else { 0 }; }
        if !c.case("histories", &|| format!("{case:?}"), || run_history(&case, Oracle { lazy: true, relative: true, ..Default::default() })) { break; }
    }
    "every opening of a source during histories of seeks and reads is checked against the bytes the read asked for and the CRCs known before it; sequential reads must open each non-empty source exactly once, in order, one at a time".into()
}
