//! Cases (entry list + source script + operations), generation, and drivers.
use crate::source::{Act, Src, W, World};
use crate::spec::{SpecEntry, SpecZip};
use std::cell::RefCell;
use std::io::SeekFrom;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};
use tokio::io::{AsyncRead, AsyncSeek, ReadBuf};
use zippity::{Builder, Reader};

pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed.wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ 0xd1b5_4a32_d192_ed03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut x = self.0;
        x = (x ^ (x >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        x = (x ^ (x >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        x ^ (x >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.next() % n }
    }
    pub fn pick<T: Clone>(&mut self, xs: &[T]) -> T {
        xs[self.below(xs.len() as u64) as usize].clone()
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CrcMode { Unknown, Right, Given(u32) }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ty { File, Dir, Link }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Perm { Default, Ro, Rw, Unix(u32) }

#[derive(Clone, Debug)]
pub struct ESpec {
    pub name: String,
    pub id: u32,
    pub declared: u64,
    pub actual: u64,
    pub crc: CrcMode,
    pub dt: Option<(i32, u32, u32, u32, u32, u32)>,
    pub ty: Ty,
    pub perm: Perm,
}

pub fn attrs(ty: Ty, perm: Perm) -> u32 {
    let t = match ty { Ty::File => 0o100000u32, Ty::Dir => 0o040000, Ty::Link => 0o120000 };
    let p = if ty == Ty::Link { 0o777 } else {
        let x = if ty == Ty::Dir { 0o111 } else { 0 };
        match perm {
            Perm::Default | Perm::Rw => 0o644 | x,
            Perm::Ro => 0o444 | x,
            Perm::Unix(m) => m & 0o777,
        }
    };
    (t | p) << 16
}

pub fn dos(dt: Option<(i32, u32, u32, u32, u32, u32)>) -> (u16, u16) {
    let d = match dt {
        Some((y, mo, d, h, mi, s))
            if (1980..=2107).contains(&y) && (1..=12).contains(&mo) && (1..=31).contains(&d)
                && h <= 23 && mi <= 59 && s <= 59 => (y, mo, d, h, mi, s),
        _ => (1980, 1, 1, 0, 0, 0),
    };
    (
        (d.5 / 2 + d.4 * 32 + d.3 * 2048) as u16,
        (d.2 + d.1 * 32 + (d.0 - 1980) as u32 * 512) as u16,
    )
}

impl ESpec {
    pub fn simple(id: u32, name: &str, len: u64) -> ESpec {
        ESpec { name: name.to_string(), id, declared: len, actual: len, crc: CrcMode::Unknown, dt: None, ty: Ty::File, perm: Perm::Default }
    }
    pub fn true_crc(&self) -> u32 {
        crate::spec::content_crc(self.id, self.actual)
    }
    pub fn spec(&self) -> SpecEntry {
        let (t, d) = dos(self.dt);
        SpecEntry {
            name: self.name.clone(), id: self.id, len: self.declared,
            crc: match self.crc { CrcMode::Given(c) => c, _ => self.true_crc() },
            dos_time: t, dos_date: d, attrs: attrs(self.ty, self.perm),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Op {
    Read(usize),
    SeekMut(u64),
    SeekPinned(u64),
    SeekAsync(SeekFrom),
    Clone,
    Take,
    /// build a byte stream and pull that many items, then back to the reader
    Stream(usize),
    DropClone,
}

#[derive(Clone, Debug)]
pub struct Case {
    pub entries: Vec<ESpec>,
    pub acts: Vec<Act>,
    pub cycle: bool,
    pub ops: Vec<Op>,
}

pub fn world(c: &Case) -> W {
    Rc::new(RefCell::new(World { acts: c.acts.clone(), cycle: c.cycle, ..Default::default() }))
}

pub fn builder(entries: &[ESpec], w: &W) -> Builder<Src> {
    let mut b: Builder<Src> = Builder::new();
    for e in entries {
        let n = b
            .add_entry(e.name.clone(), Src { id: e.id, declared: e.declared, actual: e.actual, w: w.clone() })
            .expect("entry admitted");
        match e.crc {
            CrcMode::Unknown => {}
            CrcMode::Right => { n.crc32(e.true_crc()); }
            CrcMode::Given(c) => { n.crc32(c); }
        }
        if let Some((y, mo, d, h, mi, s)) = e.dt {
            n.datetime_fields_or_default(y, mo, d, h, mi, s);
        }
        match e.ty { Ty::File => {} Ty::Dir => { n.directory(); } Ty::Link => { n.symlink(); } }
        match e.perm {
            Perm::Default => {}
            Perm::Ro => { n.readonly(true); }
            Perm::Rw => { n.readonly(false); }
            Perm::Unix(m) => { n.unix_permissions(m); }
        }
    }
    b
}

pub fn spec_of(entries: &[ESpec]) -> SpecZip {
    SpecZip::new(&entries.iter().map(ESpec::spec).collect::<Vec<_>>())
}

pub fn ctx() -> Context<'static> {
    Context::from_waker(Waker::noop())
}

#[derive(Debug)]
pub enum Got { Bytes(Vec<u8>), Pending, Err(std::io::Error) }

/// One poll_read into a buffer of `n` bytes which already contains some bytes before.
pub fn poll_read(r: Pin<&mut Reader<Src>>, n: usize, prefix: usize) -> Result<Got, String> {
    let mut mem = vec![0xEEu8; n + prefix];
    let mut buf = ReadBuf::new(&mut mem);
    for i in 0..prefix { buf.put_slice(&[i as u8]); }
    let res = r.poll_read(&mut ctx(), &mut buf);
    let filled = buf.filled().to_vec();
    if filled.len() < prefix || filled[..prefix].iter().enumerate().any(|(i, b)| *b != i as u8) {
        return Err("bytes already in the caller's buffer were changed".into());
    }
    let new = filled[prefix..].to_vec();
    Ok(match res {
        Poll::Ready(Ok(())) => Got::Bytes(new),
        Poll::Pending => {
            if !new.is_empty() { return Err(format!("not-ready with {} bytes delivered", new.len())); }
            Got::Pending
        }
        Poll::Ready(Err(e)) => {
            if !new.is_empty() { return Err(format!("error with {} bytes delivered", new.len())); }
            Got::Err(e)
        }
    })
}

pub const CALL_LIMIT: usize = 2_000_000;

/// Reads to the end with buffers of size n, tolerating not-ready; error ends it.
pub fn read_all(mut r: Pin<&mut Reader<Src>>, n: usize, limit: u64) -> Result<Vec<u8>, String> {
    let mut out = Vec::new();
    for _ in 0..CALL_LIMIT {
        match poll_read(r.as_mut(), n, 0)? {
            Got::Bytes(b) if b.is_empty() => return Ok(out),
            Got::Bytes(b) => {
                out.extend_from_slice(&b);
                if out.len() as u64 > limit { return Err(format!("more than {limit} bytes delivered")); }
            }
            Got::Pending => {}
            Got::Err(e) => return Err(format!("read error: {e}")),
        }
    }
    Err("no end of file reached".into())
}

pub fn first_diff(a: &[u8], b: &[u8]) -> String {
    let n = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    format!("first difference at {} (lengths {} / {}; expected {:02x?}, got {:02x?})", n, b.len(), a.len(),
        &b[n.min(b.len())..(n + 8).min(b.len())], &a[n.min(a.len())..(n + 8).min(a.len())])
}

/// Seek through the AsyncSeek interface.
pub fn async_seek(mut r: Pin<&mut Reader<Src>>, s: SeekFrom) -> std::io::Result<u64> {
    r.as_mut().start_seek(s)?;
    for _ in 0..10 {
        if let Poll::Ready(x) = r.as_mut().poll_complete(&mut ctx()) { return x; }
    }
    Err(std::io::Error::other("seek never completes"))
}

// ---------------------------------------------------------------- generation

pub struct GenOpts {
    pub max_entries: u64,
    pub sizes: Vec<u64>,
    pub names: bool,
    pub meta: bool,
    pub known_crc: bool,
    pub pend: bool,
    pub short: bool,
    pub err: bool,
    pub ops: u64,
    pub seeks: bool,
    pub clones: bool,
    pub streams: bool,
}

impl Default for GenOpts {
    fn default() -> Self {
        GenOpts { max_entries: 4, sizes: vec![0, 0, 1, 2, 3, 7, 40, 100], names: false, meta: false, known_crc: true,
            pend: true, short: true, err: false, ops: 0, seeks: false, clones: false, streams: false }
    }
}

pub fn gen_name(r: &mut Rng, i: u64, rich: bool) -> String {
    if !rich {
        return match r.below(4) { 0 => format!("{i}"), 1 => format!("n{i}"), 2 => format!("dir/name{i}"), _ => format!("e{i}é") };
    }
    match r.below(9) {
        0 => format!("{i}"),
        1 => "é".repeat(r.below(40) as usize) + &i.to_string(),
        2 => format!("a/b/c/{i}/"),
        3 => "x".repeat(r.below(300) as usize) + &i.to_string(),
        4 => "\u{10348}\u{0}\u{7f}".to_string() + &i.to_string(),
        5 => { let t = i.to_string(); "y".repeat(65535 - t.len()) + &t }
        6 => { let t = i.to_string(); "z".repeat(8192 - t.len() - r.below(60) as usize) + &t }
        7 => if i == 0 { String::new() } else { format!("{i}") },
        _ => format!("name {i}.txt"),
    }
}

pub fn gen_entries(r: &mut Rng, o: &GenOpts) -> Vec<ESpec> {
    let n = r.below(o.max_entries + 1);
    (0..n).map(|i| {
        let len = r.pick(&o.sizes);
        let id = r.below(3) as u32 * 100 + i as u32;
        let id = if len % 4 == 0 && id % 5 == 3 { crate::spec::ZERO + id } else { id };
        let mut e = ESpec::simple(id, &gen_name(r, i, o.names), len);
        if o.known_crc && r.chance(1, 2) { e.crc = CrcMode::Right; }
        if o.meta {
            e.dt = match r.below(6) {
                0 | 1 => None,
                2 => Some((1980 + r.below(128) as i32, 1 + r.below(12) as u32, 1 + r.below(31) as u32, r.below(24) as u32, r.below(60) as u32, r.below(60) as u32)),
                3 => Some((2107, 12, 31, 23, 59, 59)),
                4 => Some((1979, 12, 31, 23, 59, 59)),
                _ => Some((1980, 1, 1, 0, 0, 1)),
            };
            e.ty = r.pick(&[Ty::File, Ty::File, Ty::Dir, Ty::Link]);
            e.perm = match r.below(4) { 0 => Perm::Default, 1 => Perm::Ro, 2 => Perm::Rw, _ => Perm::Unix(r.next() as u32) };
        }
        e
    }).collect()
}

pub fn gen_acts(r: &mut Rng, o: &GenOpts) -> (Vec<Act>, bool) {
    let n = r.below(40);
    let style = r.below(4);
    let v = (0..n).map(|_| {
        let k = r.below(100);
        if o.err && k < 12 { Act::Err }
        else if o.pend && k < 12 + [0, 10, 50, 30][style as usize] { Act::Pending }
        else if o.short && k < 80 && style != 1 { Act::Short(1 + r.below(5) as u16) }
        else { Act::Full }
    }).collect::<Vec<_>>();
    let cycle = !o.err && r.chance(1, 2) && v.iter().any(|a| !matches!(a, Act::Pending | Act::Err));
    (v, cycle)
}

pub fn gen_offset(r: &mut Rng, z: &SpecZip) -> u64 {
    let mut marks: Vec<u64> = vec![0, z.cd_off, z.eocd_off, z.size];
    for v in [&z.local, &z.data, &z.desc, &z.cd] {
        if !v.is_empty() { marks.push(v[r.below(v.len() as u64) as usize]); }
    }
    match r.below(12) {
        0..=6 => {
            let m = marks[r.below(marks.len() as u64) as usize];
            let d = r.below(7) as i64 - 3;
            m.saturating_add_signed(d)
        }
        7..=9 => r.below(z.size + 2),
        10 => z.size + r.below(100),
        _ => r.pick(&[u64::MAX, u64::MAX - 1, 1 << 63, 1 << 32, z.size]),
    }
}

pub fn gen_ops(r: &mut Rng, o: &GenOpts, z: &SpecZip) -> Vec<Op> {
    let n = 1 + r.below(o.ops.max(1));
    (0..n).map(|_| {
        let k = r.below(100);
        if o.seeks && k < 35 {
            let off = gen_offset(r, z);
            match r.below(6) {
                0 => Op::SeekMut(off),
                1 => Op::SeekPinned(off),
                2 => Op::SeekAsync(SeekFrom::Start(off)),
                3 => Op::SeekAsync(SeekFrom::End(if off > (1 << 62) { 5 } else { off as i64 - z.size as i64 })),
                4 => Op::SeekAsync(SeekFrom::End(-(r.below(z.size + 4) as i64))),
                _ => Op::SeekAsync(SeekFrom::Current(r.below(2 * z.size + 10) as i64 - z.size as i64)),
            }
        } else if o.clones && k < 55 {
            r.pick(&[Op::Clone, Op::Take, Op::DropClone])
        } else if o.streams && k < 70 {
            Op::Stream(r.below(4) as usize)
        } else {
            Op::Read(r.pick(&[1, 1, 2, 3, 5, 10, 29, 30, 31, 64, 100, 1000, 8192, 20000]))
        }
    }).collect()
}
