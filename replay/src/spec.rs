//! Independent executable specification of the archive (does not use the library).
//! Contents are virtual (a function of entry id and offset), so that archives far larger
//! than memory can be checked in windows.

/// Sources with an id from here on deliver one byte value only (fast enough for more than 4 GiB).
pub const FLAT: u32 = 0xf000_0000;
/// contents with these ids have CRC-32 zero at every length that is a multiple of four
pub const ZERO: u32 = 0x6000_0000;

pub fn content_byte(id: u32, off: u64) -> u8 {
    if id >= FLAT { return id as u8; }
    if id >= ZERO { return [0x9d, 0x0a, 0xd9, 0x6d][off as usize % 4]; }
    let mut x = (u64::from(id) << 32) ^ off ^ 0x9e37_79b9_7f4a_7c15;
    x = (x ^ (x >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    (x ^ (x >> 31)) as u8
}

pub fn content(id: u32, len: u64) -> Vec<u8> {
    (0..len).map(|i| content_byte(id, i)).collect()
}

/// CRC-32 (reflected, polynomial 0xEDB88320), computed bit by bit.
pub fn crc32(data: &[u8]) -> u32 {
    let mut table = [0u32; 256];
    for (i, t) in table.iter_mut().enumerate() {
        let mut c = i as u32;
        for _ in 0..8 {
            c = if c & 1 != 0 { 0xedb8_8320 ^ (c >> 1) } else { c >> 1 };
        }
        *t = c;
    }
    let mut c = 0xffff_ffffu32;
    for b in data {
        c = table[((c ^ u32::from(*b)) & 0xff) as usize] ^ (c >> 8);
    }
    c ^ 0xffff_ffff
}

/// CRC-32 of the content of a source
pub fn content_crc(id: u32, len: u64) -> u32 {
    if id < FLAT || len < 10_000 { return crc32(&content(id, len)); }
    // of a run of equal bytes: feeding n zero bits to the register is linear, so it is done by squaring
    let byte_step = |c: u32| -> u32 { let mut c = c; for _ in 0..8 { c = if c & 1 != 0 { 0xedb8_8320 ^ (c >> 1) } else { c >> 1 }; } c };
    let apply = |m: &[u32; 33], x: u32| -> u32 { (0..32).filter(|i| x >> i & 1 != 0).fold(m[32], |a, i| a ^ m[i]) };
    // affine map of the register for one byte: columns 0..32 and the constant
    let mut m = [0u32; 33];
    m[32] = byte_step(u32::from(id as u8));
    for i in 0..32 { m[i] = byte_step((1 << i) ^ u32::from(id as u8)) ^ m[32]; }
    let mut c = 0xffff_ffffu32;
    let mut n = len;
    while n > 0 {
        if n & 1 != 0 { c = apply(&m, c); }
        let mut q = [0u32; 33];
        q[32] = apply(&m, m[32]);
        for i in 0..32 { q[i] = apply(&m, m[i]) ^ m[32]; }
        m = q;
        n >>= 1;
    }
    c ^ 0xffff_ffff
}

#[derive(Clone, Debug)]
pub struct SpecEntry {
    pub name: String,
    pub id: u32,
    pub len: u64,
    /// CRC the archive has to contain
    pub crc: u32,
    pub dos_time: u16,
    pub dos_date: u16,
    pub attrs: u32,
}

#[derive(Clone, Debug)]
pub enum Seg {
    Bytes(Vec<u8>),
    Data { id: u32, len: u64 },
}

#[derive(Clone, Debug, Default)]
pub struct SpecZip {
    pub segs: Vec<(u64, Seg)>,
    pub size: u64,
    /// per entry: offset of local header, of data, of descriptor, of CD header
    pub local: Vec<u64>,
    pub data: Vec<u64>,
    pub desc: Vec<u64>,
    pub cd: Vec<u64>,
    pub cd_off: u64,
    pub eocd_off: u64,
}

fn le16(v: &mut Vec<u8>, x: u16) { v.extend_from_slice(&x.to_le_bytes()); }
fn le32(v: &mut Vec<u8>, x: u32) { v.extend_from_slice(&x.to_le_bytes()); }
fn le64(v: &mut Vec<u8>, x: u64) { v.extend_from_slice(&x.to_le_bytes()); }

impl SpecZip {
    fn push(&mut self, s: Seg) {
        let len = match &s {
            Seg::Bytes(b) => b.len() as u64,
            Seg::Data { len, .. } => *len,
        };
        if len > 0 {
            self.segs.push((self.size, s));
        }
        self.size += len;
    }

    pub fn new(entries: &[SpecEntry]) -> Self {
        let mut z = SpecZip::default();
        for e in entries {
            z.local.push(z.size);
            let off = z.size;
            let mut v = Vec::new();
            le32(&mut v, 0x0403_4b50);
            le16(&mut v, 45);
            le16(&mut v, 0x0808);
            le16(&mut v, 0);
            le16(&mut v, e.dos_time);
            le16(&mut v, e.dos_date);
            le32(&mut v, 0);
            le32(&mut v, 0xffff_ffff);
            le32(&mut v, 0xffff_ffff);
            le16(&mut v, e.name.len() as u16);
            le16(&mut v, 28);
            v.extend_from_slice(e.name.as_bytes());
            le16(&mut v, 1);
            le16(&mut v, 24);
            le64(&mut v, 0);
            le64(&mut v, 0);
            le64(&mut v, off);
            z.push(Seg::Bytes(v));
            z.data.push(z.size);
            z.push(Seg::Data { id: e.id, len: e.len });
            z.desc.push(z.size);
            let mut v = Vec::new();
            le32(&mut v, 0x0807_4b50);
            le32(&mut v, e.crc);
            le64(&mut v, e.len);
            le64(&mut v, e.len);
            z.push(Seg::Bytes(v));
        }
        z.cd_off = z.size;
        for (i, e) in entries.iter().enumerate() {
            z.cd.push(z.size);
            let mut v = Vec::new();
            le32(&mut v, 0x0201_4b50);
            v.push(45);
            v.push(3);
            le16(&mut v, 45);
            le16(&mut v, 0x0800);
            le16(&mut v, 0);
            le16(&mut v, e.dos_time);
            le16(&mut v, e.dos_date);
            le32(&mut v, e.crc);
            le32(&mut v, 0xffff_ffff);
            le32(&mut v, 0xffff_ffff);
            le16(&mut v, e.name.len() as u16);
            le16(&mut v, 28);
            le16(&mut v, 0);
            le16(&mut v, 0);
            le16(&mut v, 0);
            le32(&mut v, e.attrs);
            le32(&mut v, 0xffff_ffff);
            v.extend_from_slice(e.name.as_bytes());
            le16(&mut v, 1);
            le16(&mut v, 24);
            le64(&mut v, e.len);
            le64(&mut v, e.len);
            le64(&mut v, z.local[i]);
            z.push(Seg::Bytes(v));
        }
        z.eocd_off = z.size;
        let n = entries.len() as u64;
        let cd_size = z.eocd_off - z.cd_off;
        let mut v = Vec::new();
        le32(&mut v, 0x0606_4b50);
        le64(&mut v, 44);
        v.push(45);
        v.push(3);
        le16(&mut v, 45);
        le32(&mut v, 0);
        le32(&mut v, 0);
        le64(&mut v, n);
        le64(&mut v, n);
        le64(&mut v, cd_size);
        le64(&mut v, z.cd_off);
        le32(&mut v, 0x0706_4b50);
        le32(&mut v, 0);
        le64(&mut v, z.eocd_off);
        le32(&mut v, 1);
        le32(&mut v, 0x0605_4b50);
        le16(&mut v, 0);
        le16(&mut v, 0);
        le16(&mut v, 0xffff);
        le16(&mut v, 0xffff);
        le32(&mut v, 0xffff_ffff);
        le32(&mut v, 0xffff_ffff);
        le16(&mut v, 0);
        z.push(Seg::Bytes(v));
        z
    }

    /// Up to `n` bytes at `off`
    pub fn window(&self, off: u64, n: usize) -> Vec<u8> {
        let mut out = Vec::with_capacity(n);
        let mut pos = off;
        let mut i = match self.segs.binary_search_by_key(&off, |s| s.0) {
            Ok(i) => i,
            Err(0) => 0,
            Err(i) => i - 1,
        };
        while out.len() < n && i < self.segs.len() {
            let (start, seg) = &self.segs[i];
            let rel = pos - *start;
            match seg {
                Seg::Bytes(b) => {
                    if (rel as usize) < b.len() {
                        let take = (b.len() - rel as usize).min(n - out.len());
                        out.extend_from_slice(&b[rel as usize..rel as usize + take]);
                        pos += take as u64;
                    }
                }
                Seg::Data { id, len } => {
                    if rel < *len {
                        let take = (*len - rel).min((n - out.len()) as u64);
                        for k in 0..take {
                            out.push(content_byte(*id, rel + k));
                        }
                        pos += take;
                    }
                }
            }
            i += 1;
        }
        out
    }
}
