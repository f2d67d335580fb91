use crate::Ctx;
use crate::engine::*;
use crate::source::{Src, W, World};
use crate::spec::SpecZip;
use chrono::{NaiveDate, NaiveDateTime};
use std::cell::RefCell;
use std::io::SeekFrom;
use std::pin::Pin;
use std::rc::Rc;
use std::task::Poll;
use std::time::{Duration, SystemTime};
use tokio::io::ReadBuf;
use zippity::{AddEntryError, Builder};

fn w0() -> W { Rc::new(RefCell::new(World::default())) }
fn src(id: u32, len: u64, w: &W) -> Src { Src { id, declared: len, actual: len, w: w.clone() } }

const MAXNAME: usize = 65535;
const FIXED: u64 = 98;
const PER_ENTRY: u64 = 30 + 28 + 24 + 46 + 28;

#[derive(Clone, Debug)]
enum BOp {
    Add { name_len: usize, tag: u64, size: u64 },
    Meta(usize),
    Remove(usize),
    SwapRemove(usize),
    Clear,
    Truncate(usize),
    CloneBuilder,
    Sort,
    Retain,
}

/// a name of `len` bytes; tags from 100 on make it of characters of more than one byte
fn name_of(len: usize, tag: u64) -> String {
    let t = tag.to_string();
    if len <= t.len() { return t[..len].to_string(); }
    let c = match tag / 100 { 1 => "\u{e9}", 2 => "\u{20ac}", 3 => "\u{10348}", _ => "x" };
    let n = (len - t.len()) / c.len();
    c.repeat(n) + &"y".repeat(len - t.len() - n * c.len()) + &t
}

struct Model { entries: Vec<(String, u64)>, total: u128 }
impl Model {
    fn size(&self) -> u128 { self.entries.iter().map(|e| u128::from(PER_ENTRY) + 2 * e.0.len() as u128 + u128::from(e.1)).sum::<u128>() + u128::from(FIXED) }
}

fn run_builder(ops: &[BOp], removals: bool) -> Result<(), String> {
    let w = w0();
    let mut b: Builder<Src> = Builder::new();
    let mut m = Model { entries: vec![], total: 0 };
    m.total = m.size();
    let mut id = 0;
    for (k, op) in ops.iter().enumerate() {
        let step = |e: String| format!("operation {k} ({op:?}): {e}");
        match op {
            BOp::Add { name_len, tag, size } => {
                let name = name_of(*name_len, *tag);
                id += 1;
                let want = if name.len() > MAXNAME { 1 }
                    else if m.entries.iter().any(|e| e.0 == name) { 2 }
                    else if m.size() + u128::from(PER_ENTRY) + 2 * name.len() as u128 + u128::from(*size) > u128::from(u64::MAX) { 3 } else { 0 };
                let added = b.add_entry(name.clone(), src(id, *size, &w));
                if let Err(e @ (AddEntryError::DuplicateEntryName { .. } | AddEntryError::TooLongZipFile { .. })) = &added {
                    if !e.to_string().contains(&name) { return Err(step(format!("error text {:?} lacks the name {name:?}", e.to_string()))); }
                }
                let got = match added {
                    Ok(_) => 0,
                    Err(AddEntryError::TooLongEntryName { entry_name }) => { if entry_name != name { return Err(step("error names another entry".into())); } 1 }
                    Err(AddEntryError::DuplicateEntryName { entry_name }) => { if entry_name != name { return Err(step("error names another entry".into())); } 2 }
                    Err(AddEntryError::TooLongZipFile { entry_name }) => { if entry_name != name { return Err(step("error names another entry".into())); } 3 }
                    Err(e) => return Err(step(format!("unexpected error {e}"))),
                };
                let names = ["accepted", "name too long", "duplicate", "archive too long"];
                if got != want { return Err(step(format!("{} instead of {}", names[got], names[want]))); }
                if want == 0 { m.entries.push((name, *size)); }
            }
            BOp::Meta(i) => if let Some((_, e)) = b.get_entries_mut().get_index_mut(*i) {
                e.datetime_fields_or_default(2020, 2, 3, 4, 5, 6).directory().unix_permissions(0o700);
            },
            BOp::Remove(i) => if removals && *i < m.entries.len() { b.get_entries_mut().shift_remove_index(*i); m.entries.remove(*i); },
            BOp::SwapRemove(i) => if removals && *i < m.entries.len() { b.get_entries_mut().swap_remove_index(*i); m.entries.swap_remove(*i); },
            BOp::Clear => if removals { b.get_entries_mut().clear(); m.entries.clear(); },
            BOp::Truncate(i) => if removals { b.get_entries_mut().truncate(*i); m.entries.truncate(*i); },
            BOp::CloneBuilder => { let c = b.clone(); b = c; }
            BOp::Sort => if removals { b.get_entries_mut().sort_keys(); m.entries.sort_by(|a, b| a.0.cmp(&b.0)); },
            BOp::Retain => if removals { b.get_entries_mut().retain(|k, _| k.len() % 2 == 0); m.entries.retain(|e| e.0.len() % 2 == 0); },
        }
        if u128::from(b.size()) != m.size() { return Err(step(format!("announced size {} instead of {}", b.size(), m.size()))); }
        let names: Vec<&String> = b.get_entries().keys().collect();
        if names.len() != m.entries.len() || names.iter().zip(&m.entries).any(|(a, b)| **a != b.0) { return Err(step("entries of the builder differ from the accepted ones in order".into())); }
    }
    // the reader which is built
    let size = b.size();
    let metas: Vec<String> = b.get_entries().values().map(|e| format!("{e:?}")).collect();
    let _ = metas;
    let mut r = Box::pin(b.build());
    if r.size() != size { return Err(format!("builder announces {size}, reader {}", r.size())); }
    // a full read delivers as many bytes (only when feasible)
    if size < 3_000_000 {
        let n = read_all(r.as_mut(), 65536, size + 10)?.len() as u64;
        if n != size { return Err(format!("{size} bytes announced, {n} delivered")); }
    } else {
        // the end of the archive is where it is announced
        r.as_mut().seek_from_start_pinned(size - FIXED);
        let n = read_all(r.as_mut(), 1000, 1000)?;
        let z: SpecZip = SpecZip::default();
        let _ = z;
        if n.len() as u64 != FIXED || n[..4] != [0x50, 0x4b, 6, 6] { return Err("end records are not where the announced size puts them".into()); }
        if n[56..60] != [0x50, 0x4b, 6, 7] || u64::from_le_bytes(n[64..72].try_into().unwrap()) != size - FIXED { return Err("end record offset wrong".into()); }
    }
    Ok(())
}

fn bops(r: &mut Rng, removals: bool) -> Vec<BOp> {
    let mut v = vec![];
    let huge = r.chance(1, 2);
    for i in 0..1 + r.below(8) {
        v.push(match r.below(if removals { 14 } else { 9 }) {
            0..=6 => {
                let name_len = r.pick(&[0usize, 1, 2, 3, 10, 255, 256, 65534, 65535, 65536, 65537, 131_071, 70_000]);
                let size = if huge { r.pick(&[u64::MAX, u64::MAX - 98, u64::MAX - 99, u64::MAX - 254, 1 << 63, (1 << 63) - 1, (1 << 63) - 300, 1 << 62, 5, 0, u64::MAX / 3]) } else { r.pick(&[0u64, 1, 5, 1000, 1 << 16, 20]) };
                BOp::Add { name_len, tag: r.below(4) + r.pick(&[0u64, 0, 100, 200, 300]), size }
            }
            7 => BOp::Meta(r.below(3) as usize),
            8 => BOp::CloneBuilder,
            9 => BOp::Remove(r.below(3) as usize),
            10 => BOp::SwapRemove(r.below(3) as usize),
            11 => BOp::Retain,
            12 => BOp::Truncate(r.below(3) as usize),
            _ => if i % 2 == 0 { BOp::Clear } else { BOp::Sort },
        });
    }
    v
}

/// an addition that fits exactly, by one less, by one more
fn boundary(c: &mut Ctx) -> bool {
    for pre in [vec![], vec![BOp::Add { name_len: 3, tag: 1, size: 10 }], vec![BOp::Add { name_len: 0, tag: 1, size: 1 << 63 }]] {
        let used: u128 = u128::from(FIXED) + pre.iter().map(|p| match p { BOp::Add { name_len, size, .. } => u128::from(PER_ENTRY) + 2 * *name_len as u128 + u128::from(*size), _ => 0 }).sum::<u128>();
        for name_len in [1usize, 7, 65535] {
            let free = u128::from(u64::MAX) - used - u128::from(PER_ENTRY) - 2 * name_len as u128;
            for d in -3i128..=3 {
                let s = free as i128 + d;
                if s < 0 || s > i128::from(u64::MAX) { continue; }
                let mut ops = pre.clone();
                ops.push(BOp::Add { name_len, tag: 2, size: s as u64 });
                ops.push(BOp::Add { name_len: 2, tag: 33, size: 0 });
                ops.push(BOp::Add { name_len: 0, tag: 33, size: 0 });
                if !c.case("at the size limit", &|| format!("{ops:?}"), || run_builder(&ops, false)) { return false; }
            }
        }
    }
    for tag in [1, 101, 201, 301] {
        for l in 65530..65545usize {
            let ops = vec![BOp::Add { name_len: l, tag, size: 3 }, BOp::Add { name_len: l, tag, size: 3 }];
            if !c.case("at the name limit", &|| format!("{ops:?}"), || run_builder(&ops, false)) { return false; }
        }
    }
    true
}

pub fn c02(c: &mut Ctx) -> String {
    if !boundary(c) { return String::new(); }
    let mut r = Rng::new(c.seed ^ 2);
    let mut k = 0u64;
    while c.go() && (c.thorough || k < 200000) {
        k += 1;
        let ops = bops(&mut r, true);
        if !c.case("builder histories", &|| format!("{ops:?}"), || run_builder(&ops, true)) { break; }
    }
    "histories of additions (accepted and refused), metadata changes, removals, reorderings and builder clones; the announced size is compared with an independent sum after each operation, with the built reader and with the bytes delivered".into()
}

pub fn c08(c: &mut Ctx) -> String {
    if !boundary(c) { return String::new(); }
    if !c.case("defaults of an accepted entry", &|| "one entry".into(), defaults) { return String::new(); }
    // a refused addition leaves metadata of the others alone
    let mut r = Rng::new(c.seed ^ 8);
    let mut k = 0u64;
    while c.go() && (c.thorough || k < 200000) {
        k += 1;
        let ops = bops(&mut r, false);
        if !c.case("builder histories", &|| format!("{ops:?}"), || run_builder(&ops, false)) { break; }
        let meta = r.below(4);
        if !c.case("refused addition leaves metadata", &|| format!("refusal kind {meta}, seed {k}"), || {
            let w = w0();
            let mut b: Builder<Src> = Builder::new();
            b.add_entry("a".into(), src(1, 3, &w)).unwrap().crc32(k as u32).symlink().datetime_fields(2001, 2, 3, 4, 5, 6);
            b.add_entry("b".into(), src(2, 1 << 63, &w)).unwrap().directory().readonly(true);
            b.get_entries_mut().get_index_mut(1).unwrap().1.crc32(77);
            let tail = |b: &Builder<Src>| -> Result<Vec<u8>, String> {
                let mut r = Box::pin(b.clone().build());
                let n = (r.size() - (1 << 63)).min(10_000);
                let mut out = vec![];
                // local header of the first entry, then everything behind the data of the second
                let h = read_some(r.as_mut(), 33)?;
                out.extend_from_slice(&h);
                let sz = r.size();
                r.as_mut().seek_from_start_pinned(sz - (n - 90 - 30));
                out.extend_from_slice(&read_all(r.as_mut(), 4096, 100_000)?);
                Ok(out)
            };
            let before = tail(&b)?;
            let (n, s) = match meta { 0 => ("a".to_string(), 1), 1 => ("q".repeat(65536), 1), 2 => ("c".into(), 1 << 63), _ => ("b".into(), u64::MAX) };
            if b.add_entry(n, src(9, s, &w)).is_ok() { return Err("addition accepted".into()); }
            let after = tail(&b)?;
            if after != before { return Err(format!("archive changed by a refused addition: {}", first_diff(&after, &before))); }
            Ok(())
        }) { break; }
    }
    "histories of additions around every limit (name length, duplicates, total size) compared with an independent model of the builder".into()
}

fn read_some(mut r: Pin<&mut zippity::Reader<Src>>, n: usize) -> Result<Vec<u8>, String> {
    let mut out = vec![];
    while out.len() < n {
        match poll_read(r.as_mut(), n - out.len(), 0)? { Got::Bytes(b) if b.is_empty() => break, Got::Bytes(b) => out.extend_from_slice(&b), Got::Pending => {}, Got::Err(e) => return Err(format!("{e}")) }
    }
    Ok(out)
}

/// Entries without any setter called have default type, permissions and time.
fn defaults() -> Result<(), String> {
    let w = w0();
    let mut b: Builder<Src> = Builder::new();
    b.add_entry("x".into(), src(1, 4, &w)).map_err(|e| e.to_string())?;
    let (l, cd, a) = stored_time(b)?;
    if a != 0o100_644 << 16 || l != cd || l != dos(None) { return Err(format!("default metadata: attributes {a:#x}, times {l:?} {cd:?}")); }
    Ok(())
}

// ------------------------------------------------------------------ C09
/// (time, date) in local and central header of the single entry
fn stored_time(b: Builder<Src>) -> Result<((u16, u16), (u16, u16), u32), String> {
    let mut r = Box::pin(b.build());
    let d = read_all(r.as_mut(), 4096, 100_000)?;
    let le = |o: usize| u16::from_le_bytes([d[o], d[o + 1]]);
    let cd = d.windows(4).position(|w| w == [0x50, 0x4b, 1, 2]).ok_or("no central directory")?;
    let attrs = u32::from_le_bytes(d[cd + 38..cd + 42].try_into().unwrap());
    Ok(((le(10), le(12)), (le(cd + 12), le(cd + 14)), attrs))
}

type F6 = (i32, u32, u32, u32, u32, u32);

fn gen_fields(r: &mut Rng) -> F6 {
    if r.chance(1, 2) {
        return (1980 + r.below(128) as i32, 1 + r.below(12) as u32, 1 + r.below(31) as u32, r.below(24) as u32, r.below(60) as u32, r.below(60) as u32);
    }
    (r.pick(&[1979, 1980, 2107, 2108, 2000, i32::MIN, i32::MAX, 0, -1, 1980 + 65536]),
     r.pick(&[0u32, 1, 12, 13, 6, u32::MAX, 65537]), r.pick(&[0u32, 1, 31, 32, 15, 65537]), r.pick(&[0u32, 23, 24, 5, 65536]),
     r.pick(&[0u32, 59, 60, 30, 65536]), r.pick(&[0u32, 1, 58, 59, 60, 61, 65536]))
}

fn ok_fields(f: F6) -> bool {
    (1980..=2107).contains(&f.0) && (1..=12).contains(&f.1) && (1..=31).contains(&f.2) && f.3 <= 23 && f.4 <= 59 && f.5 <= 59
}

#[derive(Clone, Debug)]
enum TOp { Fields(F6), FieldsDef(F6), Sys(i64, u32), SysDef(i64, u32), Chrono(F6, u32), ChronoDef(F6, u32), OtherMeta }

/// with nanoseconds, from 1_000_000_000 on a leap second
fn naive(f: F6, n: u32) -> Option<NaiveDateTime> { NaiveDate::from_ymd_opt(f.0, f.1, f.2)?.and_hms_nano_opt(f.3, f.4, f.5, n) }
fn systime(s: i64, n: u32) -> SystemTime { (if s >= 0 { SystemTime::UNIX_EPOCH + Duration::from_secs(s as u64) } else { SystemTime::UNIX_EPOCH - Duration::from_secs(s.unsigned_abs()) }) + Duration::from_nanos(n.into()) }
fn utc_fields(s: i64) -> F6 {
    use chrono::{Datelike, Timelike};
    let n = chrono::DateTime::from_timestamp(s, 0).unwrap().naive_utc();
    (n.year(), n.month(), n.day(), n.hour(), n.minute(), n.second())
}

fn run_time(conv: u64, ops: &[TOp]) -> Result<(), String> {
    let w = w0();
    let mut b: Builder<Src> = Builder::new();
    match conv {
        0 => {}
        1 => { b.system_time_timezone(chrono::Utc); }
        2 => { b.system_time_converter(|t| { let s = t.duration_since(SystemTime::UNIX_EPOCH).map(|d| d.as_secs()).unwrap_or(0); (1990, 7, 1 + (s % 28) as u32, 3, 4, (s % 90) as u32) }); }
        _ => { b.system_time_timezone(chrono::FixedOffset::east_opt(7200).unwrap()); }
    }
    let convert = |s: i64| -> Option<F6> {
        match conv {
            0 => None,
            1 => Some(utc_fields(s)),
            2 => { let s = s.max(0) as u64; Some((1990, 7, 1 + (s % 28) as u32, 3, 4, (s % 90) as u32)) }
            _ => Some(utc_fields(s + 7200)),
        }
    };
    b.add_entry("t".into(), src(1, 2, &w)).unwrap();
    // converter set after the entry was added does not matter
    b.system_time_converter(|_| (2099, 9, 9, 9, 9, 9));
    let mut model: Option<F6> = None;
    for (k, op) in ops.iter().enumerate() {
        let e = b.get_entries_mut().get_index_mut(0).unwrap().1;
        let fail = |x: &str| Err(format!("operation {k} ({op:?}): {x}"));
        match op {
            TOp::Fields(f) => { let got = e.datetime_fields(f.0, f.1, f.2, f.3, f.4, f.5).is_some(); if got != ok_fields(*f) { return fail("accepted/refused wrongly"); } if got { model = Some(*f); } }
            TOp::FieldsDef(f) => { e.datetime_fields_or_default(f.0, f.1, f.2, f.3, f.4, f.5); model = ok_fields(*f).then_some(*f); }
            TOp::Sys(s, n) => { let t = convert(*s).filter(|f| ok_fields(*f)); let got = e.datetime_system(systime(*s, *n)).is_some(); if got != t.is_some() { return fail("accepted/refused wrongly"); } if got { model = t; } }
            TOp::SysDef(s, n) => { e.datetime_system_or_default(systime(*s, *n)); model = convert(*s).filter(|f| ok_fields(*f)); }
            TOp::Chrono(f, n) => if let Some(n) = naive(*f, *n) { let got = e.datetime(n).is_some(); if got != ok_fields(*f) { return fail("accepted/refused wrongly"); } if got { model = Some(*f); } },
            TOp::ChronoDef(f, n) => if let Some(n) = naive(*f, *n) { e.datetime_or_default(n); model = ok_fields(*f).then_some(*f); },
            TOp::OtherMeta => { e.directory().unix_permissions(0o700); }
        }
    }
    let (l, cd, _) = stored_time(b)?;
    let want = dos(model);
    if l != want || cd != want { return Err(format!("stored (time, date) is {l:?} locally, {cd:?} centrally instead of {want:?} for {model:?}")); }
    Ok(())
}

pub fn c09(c: &mut Ctx) -> String {
    // every value of each field, the others fixed
    let base: F6 = (2003, 5, 17, 13, 44, 38);
    let mut all: Vec<F6> = vec![];
    for y in 1970..2120 { all.push((y, base.1, base.2, base.3, base.4, base.5)); }
    for v in 0..70u32 { all.push((base.0, v, base.2, base.3, base.4, base.5)); all.push((base.0, base.1, v, base.3, base.4, base.5)); all.push((base.0, base.1, base.2, v, base.4, base.5)); all.push((base.0, base.1, base.2, base.3, v, base.5)); all.push((base.0, base.1, base.2, base.3, base.4, v)); }
    for f in all {
        for op in [TOp::Fields(f), TOp::FieldsDef(f), TOp::Chrono(f, 0), TOp::ChronoDef(f, 0), TOp::Chrono(f, 500_000_000), TOp::ChronoDef(f, 999_999_999), TOp::Chrono(f, 1_600_000_000)] {
            let ops = vec![op];
            if !c.case("each field value", &|| format!("{ops:?}"), || run_time(0, &ops)) { return String::new(); }
        }
    }
    let ops = vec![];
    if !c.case("no time set", &|| "no setter called".into(), || run_time(0, &ops)) { return String::new(); }
    let mut r = Rng::new(c.seed ^ 9);
    let mut k = 0u64;
    while c.go() && (c.thorough || k < 600000) {
        k += 1;
        let conv = r.below(4);
        let ops: Vec<TOp> = (0..r.below(5)).map(|_| {
            let s = r.pick(&[0i64, 315_532_799, 315_532_800, 4_354_819_199, 4_354_819_200, 1_000_000_000, -1, -5_000_000_000, 315_525_600, 4_354_812_000]) + r.below(3) as i64 * 1234;
            let n = r.pick(&[0u32, 0, 1, 499_999_999, 500_000_000, 999_999_999]);
            match r.below(7) { 0 => TOp::Fields(gen_fields(&mut r)), 1 => TOp::FieldsDef(gen_fields(&mut r)), 2 => TOp::Sys(s, n), 3 => TOp::SysDef(s, n), 4 => TOp::Chrono(gen_fields(&mut r), n), 5 => TOp::ChronoDef(gen_fields(&mut r), n), _ => TOp::OtherMeta }
        }).collect();
        if !c.case("setter histories", &|| format!("converter {conv}, {ops:?}"), || run_time(conv, &ops)) { break; }
    }
    "each field over its range and beyond through each setter, and random sequences of setters with four converters; the time read back from local and central header is compared with a model of the documented behaviour".into()
}

// ------------------------------------------------------------------ C10
#[derive(Clone, Debug)]
enum POp { File, Dir, Link, Unix(u32), Ro(bool), StdPerm(u32), Meta(usize), Time }

fn run_perm(ops: &[POp], objs: &[(std::fs::Metadata, Ty, u32)]) -> Result<(), String> {
    use std::os::unix::fs::PermissionsExt as _;
    let w = w0();
    let mut b: Builder<Src> = Builder::new();
    b.system_time_timezone(chrono::Utc);
    b.add_entry("p".into(), src(1, 2, &w)).unwrap();
    let (mut ty, mut perm, mut time) = (Ty::File, Perm::Default, None);
    for op in ops {
        let e = b.get_entries_mut().get_index_mut(0).unwrap().1;
        match op {
            POp::File => { e.file(); ty = Ty::File; }
            POp::Dir => { e.directory(); ty = Ty::Dir; }
            POp::Link => { e.symlink(); ty = Ty::Link; }
            POp::Unix(m) => { e.unix_permissions(*m); perm = Perm::Unix(*m); }
            POp::Ro(x) => { e.readonly(*x); perm = if *x { Perm::Ro } else { Perm::Rw }; }
            POp::StdPerm(m) => { e.permissions(&std::fs::Permissions::from_mode(*m)); perm = Perm::Unix(*m); }
            POp::Meta(i) => {
                let (m, t, p) = &objs[*i];
                e.metadata(m);
                ty = *t;
                perm = Perm::Unix(*p);
                let s = m.modified().unwrap().duration_since(SystemTime::UNIX_EPOCH).map(|d| d.as_secs() as i64).unwrap_or_else(|e| -(e.duration().as_secs() as i64) - i64::from(e.duration().subsec_nanos() > 0));
                time = Some(utc_fields(s)).filter(|f| ok_fields(*f));
            }
            POp::Time => { e.datetime_fields(2011, 11, 11, 11, 11, 11); time = Some((2011, 11, 11, 11, 11, 11)); }
        }
    }
    let (l, cd, a) = stored_time(b)?;
    let want = attrs(ty, perm);
    if a != want { return Err(format!("external attributes {a:#010x} instead of {want:#010x} for {ty:?} {perm:?}")); }
    if l != dos(time) || cd != l { return Err(format!("time {l:?}/{cd:?} instead of {:?}", dos(time))); }
    Ok(())
}

pub fn c10(c: &mut Ctx) -> String {
    use std::os::unix::fs::PermissionsExt as _;
    // scratch objects with known metadata
    let tmp = tempfile::TempDir::new().expect("scratch directory");
    let mut objs = vec![];
    for (i, mode) in [0o644u32, 0o600, 0o755, 0o444, 0o1777, 0o4755].iter().enumerate() {
        let f = tmp.path().join(format!("f{i}"));
        std::fs::write(&f, b"x").unwrap();
        std::fs::set_permissions(&f, std::fs::Permissions::from_mode(*mode)).unwrap();
        let t = [0u64, 1_000_000_000, 315_532_799, 315_532_801, 4_354_819_199, 4_354_819_200][i];
        std::fs::File::options().read(true).open(&f).unwrap().set_modified(SystemTime::UNIX_EPOCH + Duration::from_secs(t)).unwrap();
        objs.push((std::fs::symlink_metadata(&f).unwrap(), Ty::File, *mode));
    }
    let d = tmp.path().join("d");
    std::fs::create_dir(&d).unwrap();
    std::fs::set_permissions(&d, std::fs::Permissions::from_mode(0o2750)).unwrap();
    objs.push((std::fs::symlink_metadata(&d).unwrap(), Ty::Dir, 0o2750));
    let l = tmp.path().join("l");
    std::os::unix::fs::symlink("d", &l).unwrap();
    objs.push((std::fs::symlink_metadata(&l).unwrap(), Ty::Link, 0o777));

    let objs = &objs;
    let types = [POp::File, POp::Dir, POp::Link];
    for m in (0..0o10000u32).chain([0o100644, 0o040755, 0o120777, u32::MAX, 0x8000_0000]) {
        let t = types[m as usize % 3].clone();
        let ops = if m % 2 == 0 { vec![t, POp::Unix(m)] } else { vec![POp::StdPerm(m & 0o177777), t] };
        if !c.case("every mode", &|| format!("{ops:?}"), || run_perm(&ops, objs)) { return String::new(); }
    }
    // all sequences up to length 3
    let menu = vec![POp::File, POp::Dir, POp::Link, POp::Unix(0o750), POp::Unix(0o107001), POp::Ro(true), POp::Ro(false), POp::StdPerm(0o100400), POp::Meta(1), POp::Meta(6), POp::Meta(7), POp::Meta(0), POp::Time];
    for a in &menu { for b in &menu {
        for x in menu.iter().map(Some).chain([None]) {
            let mut ops = vec![a.clone(), b.clone()];
            if let Some(x) = x { ops.push(x.clone()); }
            if !c.case("sequences of setters", &|| format!("{ops:?}"), || run_perm(&ops, objs)) { return String::new(); }
        }
    } }
    for i in 0..objs.len() { let ops = vec![POp::Time, POp::Meta(i)]; if !c.case("file metadata", &|| format!("{ops:?}"), || run_perm(&ops, objs)) { return String::new(); } }
    let ops = vec![];
    c.case("default", &|| "no setter".into(), || run_perm(&ops, objs));
    let mut r = Rng::new(c.seed ^ 10);
    let mut k = 0u64;
    while c.go() && (c.thorough || k < 200000) {
        k += 1;
        let ops: Vec<POp> = (0..r.below(8)).map(|_| match r.below(9) { 0 => POp::File, 1 => POp::Dir, 2 => POp::Link, 3 => POp::Unix(r.next() as u32), 4 => POp::Ro(r.chance(1, 2)), 5 => POp::StdPerm(r.next() as u32), 6 => POp::Meta(r.below(8) as usize), 7 => POp::Time, _ => POp::Dir }).collect();
        if !c.case("random sequences", &|| format!("{ops:?}"), || run_perm(&ops, objs)) { break; }
    }
    "all twelve-bit modes, all sequences of up to three setters from a menu of thirteen, metadata of scratch files, directories and links; attributes and times read back from the archive are compared with a model".into()
}

// ------------------------------------------------------------------ C12
// The in-memory source is compiled here from the library's own source file, because its
// reader is not nameable outside of the crate.
#[cfg(feature = "private")]
#[path = "/repo/src/entry_data.rs"]
#[allow(dead_code, unused_imports, rustdoc::broken_intra_doc_links)]
mod entry_data;
#[cfg(feature = "private")]
use entry_data::{EntryData as _, EntryReader as _};

#[derive(Clone, Debug)]
enum MOp { Read(usize), Start(u64), End(i64), Cur(i64), Double(u64) }

#[cfg(not(feature = "private"))]
fn run_mem(_: &[u8], _: &[MOp]) -> Result<(), String> { Ok(()) }
#[cfg(feature = "private")]
fn run_mem(data: &[u8], ops: &[MOp]) -> Result<(), String> { run_mem_on(&data.to_vec(), ops) }
#[cfg(not(feature = "private"))]
fn run_mem_on(_: &Vec<u8>, _: &[MOp]) -> Result<(), String> { Ok(()) }
#[cfg(feature = "private")]
fn run_mem_on(v: &Vec<u8>, ops: &[MOp]) -> Result<(), String> {
    let data: &[u8] = v;
    if v.size() != data.len() as u64 { return Err("declared size is not the length".into()); }
    let fut = std::pin::pin!(entry_data::EntryData::get_reader(v));
    let Poll::Ready(Ok(mut rd)) = std::future::Future::poll(fut, &mut ctx()) else { return Err("not ready at once".into()) };
    let mut pos: u64 = 0;
    for (k, op) in ops.iter().enumerate() {
        let mut p = Pin::new(&mut rd);
        let seek = |s: SeekFrom, pos: &mut u64, mut p: Pin<&mut entry_data::AsRefReader>| -> Result<(), String> {
            let base = match s { SeekFrom::Start(o) => i128::from(o), SeekFrom::End(d) => data.len() as i128 + i128::from(d), SeekFrom::Current(d) => i128::from(*pos) + i128::from(d) };
            match (p.as_mut().start_seek(v, s), u64::try_from(base)) {
                (Ok(()), Ok(t)) => *pos = t,
                (Err(e), Err(_)) if e.kind() == std::io::ErrorKind::InvalidInput => {}
                (r, t) => return Err(format!("operation {k} ({op:?}): seek gave {r:?}, target {t:?}")),
            }
            match p.as_mut().poll_seek_complete(v, &mut ctx()) {
                Poll::Ready(Ok(q)) if q == *pos => Ok(()),
                x => Err(format!("operation {k} ({op:?}): position {x:?} instead of {pos}")),
            }
        };
        match op {
            MOp::Read(n) => {
                let mut mem = vec![0u8; n + 2];
                let mut b = ReadBuf::new(&mut mem);
                b.put_slice(&[9, 9]);
                if !matches!(p.as_mut().poll_read(v, &mut ctx(), &mut b), Poll::Ready(Ok(()))) { return Err(format!("operation {k}: read not ready or failed")); }
                let got = &b.filled()[2..];
                let from = pos.min(data.len() as u64) as usize;
                let want = &data[from..(from + n).min(data.len())];
                if got != want { return Err(format!("operation {k} ({op:?}) at {pos}: {}", first_diff(got, want))); }
                pos += got.len() as u64;
            }
            MOp::Start(o) => seek(SeekFrom::Start(*o), &mut pos, p)?,
            MOp::End(o) => seek(SeekFrom::End(*o), &mut pos, p)?,
            MOp::Cur(o) => seek(SeekFrom::Current(*o), &mut pos, p)?,
            MOp::Double(o) => { seek(SeekFrom::Start(*o), &mut pos, p.as_mut())?; seek(SeekFrom::Current(1), &mut pos, p)?; }
        }
    }
    Ok(())
}

fn via_reader<D>(c: &Case, f: impl Fn(&[u8]) -> D) -> Result<(), String> where D: zippity::EntryData {
    let mut b: Builder<D> = Builder::new();
    for e in &c.entries { b.add_entry(e.name.clone(), f(&crate::spec::content(e.id, e.actual))).map_err(|e| e.to_string())?; }
    let z = spec_of(&c.entries);
    let mut r = Box::pin(b.build());
    if r.size() != z.size { return Err("size".into()); }
    let mut got = vec![];
    loop {
        let mut mem = [0u8; 700];
        let mut buf = ReadBuf::new(&mut mem);
        match tokio::io::AsyncRead::poll_read(r.as_mut(), &mut ctx(), &mut buf) { Poll::Ready(Ok(())) => {} x => return Err(format!("in-memory archive gave {x:?}")) }
        if buf.filled().is_empty() { break; }
        got.extend_from_slice(buf.filled());
    }
    let want = z.window(0, z.size as usize);
    if got != want { return Err(first_diff(&got, &want)); }
    Ok(())
}

pub fn c12(c: &mut Ctx) -> String {
    let menu: Vec<MOp> = [MOp::Read(0), MOp::Read(1), MOp::Read(2), MOp::Read(10), MOp::Start(0), MOp::Start(2), MOp::Start(3), MOp::Start(9), MOp::Start(u64::MAX), MOp::End(0), MOp::End(-1), MOp::End(-4), MOp::End(5), MOp::End(i64::MIN), MOp::Cur(0), MOp::Cur(1), MOp::Cur(-2), MOp::Cur(i64::MAX), MOp::Double(2)].to_vec();
    for len in [0usize, 1, 3] {
        let data: Vec<u8> = (0..len as u8).map(|x| x + 65).collect();
        for a in &menu { for b in &menu { for d in &menu {
            let ops = vec![a.clone(), b.clone(), d.clone(), MOp::Read(3)];
            if !c.case("all sequences of three", &|| format!("length {len}, {ops:?}"), || run_mem(&data, &ops)) { return String::new(); }
        } } }
    }
    // positions beyond 4 GiB (memory that is never touched)
    if !c.case("data of more than 4 GiB", &|| "zeros with a few other bytes".into(), || {
        let n = (1u64 << 32) + 40;
        let mut v = vec![0u8; n as usize];
        for (k, o) in [0u64, 5, 30, (1 << 31) + 1, (1 << 32) - 1, 1 << 32, (1 << 32) + 5, n - 1].into_iter().enumerate() { v[o as usize] = k as u8 + 1; }
        run_mem_on(&v, &[MOp::Start((1 << 32) - 2), MOp::Read(10), MOp::End(-3), MOp::Read(10), MOp::Cur(-(1 << 32)), MOp::Read(6), MOp::Cur(1 << 32), MOp::Read(1), MOp::End(-(1i64 << 32)), MOp::Read(3), MOp::Start((1 << 31) - 1), MOp::Read(4), MOp::End(1 << 32), MOp::Read(1)])
    }) { return String::new(); }
    let mut r = Rng::new(c.seed ^ 12);
    let mut k = 0u64;
    let o = GenOpts { sizes: vec![0, 1, 2, 100, 5000, 20000], known_crc: false, ..Default::default() };
    while c.go() && (c.thorough || k < 200000) {
        k += 1;
        if k % 40 == 0 {
            let entries = gen_entries(&mut r, &o);
            let case = Case { entries, acts: vec![], cycle: false, ops: vec![] };
            if !c.case("archives of vectors, boxes and arcs", &|| format!("{case:?}"), || { via_reader(&case, |d| d.to_vec())?; via_reader(&case, |d| -> Box<[u8]> { d.into() })?; via_reader(&case, |d| -> std::sync::Arc<[u8]> { d.into() }) }) { break; }
        }
        let len = r.pick(&[0u64, 1, 10, 300]);
        let data = crate::spec::content(5, len);
        let ops: Vec<MOp> = (0..1 + r.below(10)).map(|_| match r.below(8) { 0..=3 => MOp::Read(r.below(len + 4) as usize), 4 => MOp::Start(r.below(len * 2 + 3)), 5 => MOp::End(r.below(2 * len + 6) as i64 - len as i64 - 3), 6 => MOp::Cur(r.below(2 * len + 6) as i64 - len as i64 - 3), _ => r.pick(&[MOp::Start(u64::MAX), MOp::Cur(i64::MAX), MOp::Cur(i64::MIN), MOp::End(i64::MAX), MOp::Double(1)]) }).collect();
        if !c.case("random operations", &|| format!("length {len}, {ops:?}"), || run_mem(&data, &ops)) { break; }
    }
    "all sequences of three reads and seeks from a menu of nineteen on short data, random sequences on longer data, and whole archives over several in-memory types, compared with a model".into()
}
