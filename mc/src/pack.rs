//! Writers of the compression formats, built from their specifications (LZ4 block and frame, lz4-java
//! block stream, LZF, zstd, zip) or by the usual libraries (deflate, bzip2). Every variation a
//! format allows is a parameter.
use std::hash::Hasher;
use std::io::Write;

// ---------------------------------------------------------------------------------------------
// gzip

pub fn deflate(data: &[u8], level: u32) -> Vec<u8> {
    let mut e = flate2::write::DeflateEncoder::new(Vec::new(), flate2::Compression::new(level));
    e.write_all(data).expect("ENGINE: deflate");
    e.finish().expect("ENGINE: deflate")
}

pub fn bzip2(data: &[u8]) -> Vec<u8> {
    let mut e = bzip2::write::BzEncoder::new(Vec::new(), bzip2::Compression::best());
    e.write_all(data).expect("ENGINE: bzip2");
    e.finish().expect("ENGINE: bzip2")
}

pub fn crc(data: &[u8]) -> u32 {
    let mut h = crc32fast::Hasher::new();
    h.update(data);
    h.finalize()
}

/// One gzip member; flags: 1 text, 2 header crc, 4 extra, 8 name, 16 comment.
pub fn gzip_member(data: &[u8], level: u32, flags: u8) -> Vec<u8> {
    let mut o = vec![0x1f, 0x8b, 8, flags, 1, 2, 3, 4, 0, 255];
    if flags & 4 != 0 {
        o.extend([6, 0, b'a', b'b', 2, 0, 0, 1]);
    }
    if flags & 8 != 0 {
        o.extend(b"name.csv\0");
    }
    if flags & 16 != 0 {
        o.extend(b"a comment\0");
    }
    if flags & 2 != 0 {
        let c = crc(&o) as u16;
        o.extend(c.to_le_bytes());
    }
    o.extend(deflate(data, level));
    o.extend(crc(data).to_le_bytes());
    o.extend((data.len() as u32).to_le_bytes());
    o
}

/// Members of at most `each` bytes (0: one member).
pub fn gzip(data: &[u8], each: usize, level: u32, flags: u8) -> Vec<u8> {
    pieces(data, each).iter().flat_map(|p| gzip_member(p, level, flags)).collect()
}

pub fn pieces(data: &[u8], each: usize) -> Vec<&[u8]> {
    if each == 0 || data.is_empty() {
        vec![data]
    } else {
        data.chunks(each).collect()
    }
}

// ---------------------------------------------------------------------------------------------
// lz4

fn xxh32(data: &[u8], seed: u32) -> u32 {
    let mut h = twox_hash::XxHash32::with_seed(seed);
    h.write(data);
    h.finish() as u32
}

fn xxh64(data: &[u8]) -> u64 {
    let mut h = twox_hash::XxHash64::with_seed(0);
    h.write(data);
    h.finish()
}

fn lz4_len(o: &mut Vec<u8>, mut n: usize) {
    while n >= 255 {
        o.push(255);
        n -= 255;
    }
    o.push(n as u8);
}

fn lz4_sequence(o: &mut Vec<u8>, lit: &[u8], copy: Option<(usize, usize)>) {
    let l = lit.len();
    let m = copy.map_or(0, |c| c.1 - 4);
    o.push((l.min(15) << 4) as u8 | m.min(15) as u8);
    if l >= 15 {
        lz4_len(o, l - 15);
    }
    o.extend(lit);
    if let Some((off, _)) = copy {
        o.extend((off as u16).to_le_bytes());
        if m >= 15 {
            lz4_len(o, m - 15);
        }
    }
}

/// LZ4 block of data[from..], which may refer back to data before `from` (up to 64K).
pub fn lz4_block(data: &[u8], from: usize) -> Vec<u8> {
    let n = data.len();
    let mut o = Vec::new();
    // last position (plus 1) of what starts with bytes of this hash
    let mut seen = vec![0u32; 1 << 14];
    let slot = |i: usize| {
        let k = u32::from_le_bytes([data[i], data[i + 1], data[i + 2], data[i + 3]]);
        (k.wrapping_mul(2654435761) >> 18) as usize
    };
    let back = (16 * (n - from)).clamp(4096, 65535);
    for i in from.saturating_sub(back)..from.saturating_sub(3) {
        seen[slot(i)] = i as u32 + 1;
    }
    let mut lit = from;
    let mut i = from;
    // the last match starts 12 bytes before the end or earlier, the last 5 bytes are literals
    while i + 12 <= n {
        let h = slot(i);
        let p = seen[h] as usize;
        seen[h] = i as u32 + 1;
        if p > 0 && i - (p - 1) <= 65535 && data[p - 1..p + 3] == data[i..i + 4] {
            let p = p - 1;
            let mut m = 4;
            while i + m < n - 5 && data[p + m] == data[i + m] {
                m += 1;
            }
            lz4_sequence(&mut o, &data[lit..i], Some((i - p, m)));
            i += m;
            lit = i;
        } else {
            i += 1;
        }
    }
    lz4_sequence(&mut o, &data[lit..], None);
    o
}

#[derive(Clone, Copy, Debug, Hash, PartialEq)]
pub struct Lz4 {
    pub block: usize,
    pub linked: bool,
    pub block_sum: bool,
    pub size: bool,
    pub sum: bool,
    pub raw: bool,
    /// every second block is stored
    pub mix: bool,
}

/// LZ4 frame.
pub fn lz4_frame(data: &[u8], c: Lz4) -> Vec<u8> {
    let mut o = vec![0x04, 0x22, 0x4d, 0x18];
    let mut flg = 0x40u8;
    if !c.linked {
        flg |= 0x20;
    }
    if c.block_sum {
        flg |= 0x10;
    }
    if c.size {
        flg |= 0x08;
    }
    if c.sum {
        flg |= 0x04;
    }
    let bd = match c.block {
        0..=65536 => 4u8,
        65537..=262144 => 5,
        262145..=1048576 => 6,
        _ => 7,
    };
    let mut d = vec![flg, bd << 4];
    if c.size {
        d.extend((data.len() as u64).to_le_bytes());
    }
    let hc = (xxh32(&d, 0) >> 8) as u8;
    o.extend(d);
    o.push(hc);
    let mut at = 0;
    while at < data.len() {
        let end = (at + c.block).min(data.len());
        let p = &data[at..end];
        let back = if c.linked { at.min(65535) } else { 0 };
        let z = lz4_block(&data[at - back..end], back);
        let (size, body) =
            if c.raw || c.mix && at / c.block % 2 == 0 || z.len() >= p.len() { (p.len() as u32 | 1 << 31, p.to_vec()) } else { (z.len() as u32, z) };
        o.extend(size.to_le_bytes());
        o.extend(&body);
        if c.block_sum {
            o.extend(xxh32(&body, 0).to_le_bytes());
        }
        at = end;
    }
    o.extend([0; 4]);
    if c.sum {
        o.extend(xxh32(data, 0).to_le_bytes());
    }
    o
}

/// Block stream of lz4-java; blocks of at most `block` bytes, `level`: block size is 1 << (10 + level).
pub fn lz4_java(data: &[u8], block: usize, raw: bool) -> Vec<u8> {
    let level = (0..16).find(|l| 1usize << (10 + l) >= block).unwrap_or(15) as u8;
    let mut o = Vec::new();
    for p in data.chunks(block) {
        let z = lz4_block(p, 0);
        let (method, body) = if raw || z.len() >= p.len() { (0x10, p.to_vec()) } else { (0x20, z) };
        o.extend(b"LZ4Block");
        o.push(method | level);
        o.extend((body.len() as u32).to_le_bytes());
        o.extend((p.len() as u32).to_le_bytes());
        o.extend((xxh32(p, 0x9747b28c) & 0x0fff_ffff).to_le_bytes());
        o.extend(body);
    }
    o.extend(b"LZ4Block");
    o.push(0x10 | level);
    o.extend([0; 12]);
    o
}

// ---------------------------------------------------------------------------------------------
// lzf

fn lzf_literals(o: &mut Vec<u8>, lit: &[u8]) {
    for p in lit.chunks(32) {
        o.push(p.len() as u8 - 1);
        o.extend(p);
    }
}

fn lzf_block(data: &[u8]) -> Vec<u8> {
    use std::collections::HashMap;
    let mut o = Vec::new();
    let mut seen: HashMap<[u8; 3], usize> = HashMap::new();
    let n = data.len();
    let (mut lit, mut i) = (0, 0);
    while i + 3 <= n {
        let k = [data[i], data[i + 1], data[i + 2]];
        let hit = seen.get(&k).copied().filter(|p| i - p <= 8192);
        seen.insert(k, i);
        if let Some(p) = hit {
            let mut m = 3;
            while i + m < n && m < 264 && data[p + m] == data[i + m] {
                m += 1;
            }
            lzf_literals(&mut o, &data[lit..i]);
            let off = i - p - 1;
            let l = m - 2;
            if l < 7 {
                o.push((l << 5 | off >> 8) as u8);
            } else {
                o.push((7 << 5 | off >> 8) as u8);
                o.push((l - 7) as u8);
            }
            o.push(off as u8);
            i += m;
            lit = i;
        } else {
            i += 1;
        }
    }
    lzf_literals(&mut o, &data[lit..]);
    o
}

pub fn lzf(data: &[u8], block: usize, raw: bool) -> Vec<u8> {
    let mut o = Vec::new();
    for p in data.chunks(block.min(65535)) {
        let z = lzf_block(p);
        if raw || z.len() >= p.len() {
            o.extend(b"ZV\0");
            o.extend((p.len() as u16).to_be_bytes());
            o.extend(p);
        } else {
            o.extend(b"ZV\x01");
            o.extend((z.len() as u16).to_be_bytes());
            o.extend((p.len() as u16).to_be_bytes());
            o.extend(z);
        }
    }
    o
}

// ---------------------------------------------------------------------------------------------
// zstd

#[derive(Clone, Copy, Debug, Hash, PartialEq)]
pub struct Zst {
    pub block: usize,
    pub frame: usize, // bytes per frame, 0: one frame
    pub single: bool, // single segment (content size given), else a window of 128K
    pub sum: bool,
    pub lit: bool, // literals wrapped in compressed blocks, else raw or run-length blocks
}

fn zst_block(o: &mut Vec<u8>, last: bool, p: &[u8], lit: bool) {
    let rle = p.len() > 1 && p.iter().all(|b| *b == p[0]);
    let (ty, size, body) = if lit {
        let mut b = Vec::new();
        // literals section: raw (0) or run-length (1), 20 bit size; then no sequences
        let h = (if rle { 1 } else { 0 }) | 3 << 2 | (p.len() as u32) << 4;
        b.extend(&h.to_le_bytes()[..3]);
        if rle {
            b.push(p[0]);
        } else {
            b.extend(p);
        }
        b.push(0);
        (2u32, b.len(), b)
    } else if rle {
        (1, p.len(), vec![p[0]])
    } else {
        (0, p.len(), p.to_vec())
    };
    let h = last as u32 | ty << 1 | (size as u32) << 3;
    o.extend(&h.to_le_bytes()[..3]);
    o.extend(body);
}

pub fn zst_frame(data: &[u8], c: Zst) -> Vec<u8> {
    let mut o = vec![0x28, 0xb5, 0x2f, 0xfd];
    let mut d = 0u8;
    if c.sum {
        d |= 4;
    }
    if c.single {
        d |= 0x20 | 2 << 6;
    }
    o.push(d);
    if c.single {
        o.extend((data.len() as u32).to_le_bytes());
    } else {
        o.push(7 << 3); // window of 2^(10+7) bytes
    }
    let ps = pieces(data, c.block);
    for (i, p) in ps.iter().enumerate() {
        zst_block(&mut o, i + 1 == ps.len(), p, c.lit && p.len() < 1 << 17);
    }
    if c.sum {
        o.extend((xxh64(data) as u32).to_le_bytes());
    }
    o
}

/// A frame of one block (data up to 128K); size: bytes of the content size in the header (0, 1, 2, 4, 8), with a window
/// descriptor or without, block type (0 raw, 1 run-length, 2 compressed) and
/// an empty block after the last one that has data or not. None if there is no such frame.
pub fn zst_frame_as(data: &[u8], size: usize, window: bool, kind: usize, sum: bool, more: bool) -> Option<Vec<u8>> {
    if !window && size == 0 || window && size == 1 || size == 2 && data.len() < 256 || size == 1 && data.len() > 255 {
        return None;
    }
    if kind == 1 && !data.iter().all(|b| *b == data[0]) {
        return None;
    }
    let mut o = vec![0x28, 0xb5, 0x2f, 0xfd];
    let flag = match size {
        0 | 1 => 0u8,
        2 => 1,
        4 => 2,
        _ => 3,
    };
    o.push(flag << 6 | (!window as u8) << 5 | (sum as u8) << 2);
    if window {
        o.push(7 << 3);
    }
    let n = if size == 2 { data.len() - 256 } else { data.len() } as u64;
    o.extend(&n.to_le_bytes()[..size]);
    let mut body = match kind {
        2 => {
            let mut b = (3 << 2 | (data.len() as u32) << 4).to_le_bytes()[..3].to_vec();
            b.extend(data);
            b.push(0);
            b
        }
        1 => vec![data.get(0).cloned().unwrap_or(0)],
        _ => data.to_vec(),
    };
    let len = if kind == 2 { body.len() } else { data.len() } as u32;
    o.extend(&(!more as u32 | (kind as u32) << 1 | len << 3).to_le_bytes()[..3]);
    o.append(&mut body);
    if more {
        o.extend([1, 0, 0]);
    }
    if sum {
        o.extend((xxh64(data) as u32).to_le_bytes());
    }
    Some(o)
}

/// a frame that has no data in it
pub fn zst_skip(low: u8, body: &[u8]) -> Vec<u8> {
    let mut o = vec![low, 0x2a, 0x4d, 0x18];
    o.extend((body.len() as u32).to_le_bytes());
    o.extend(body);
    o
}

pub fn zst(data: &[u8], c: Zst) -> Vec<u8> {
    pieces(data, c.frame).iter().flat_map(|p| zst_frame(p, c)).collect()
}

// ---------------------------------------------------------------------------------------------
// zip

#[derive(Clone, Debug)]
pub struct Member {
    pub name: Vec<u8>,
    pub data: Vec<u8>,
    pub method: u16,
    pub flags: u16, // 1 encrypted, 8 data descriptor, 0x800 utf-8
    pub extra_local: Vec<u8>,
    pub extra_central: Vec<u8>,
    pub comment: Vec<u8>,
    /// which of size, compressed size, header offset, disk are in a zip64 extra field (bits)
    pub zip64: u8,
    pub crc_xor: u32,
    pub disk: u16,
    /// what has no bearing on the content; 0, 45 and the like unless set
    pub idle: Idle,
}

#[derive(Clone, Debug)]
pub struct Idle {
    pub made_by: u16,
    pub needed: [u16; 2], // in the local header and the central one
    pub time: [u16; 2],
    pub date: [u16; 2],
    pub internal: u16,
    pub external: u32,
    /// crc and sizes of the local header if they are to be others
    pub local_crc: Option<u32>,
    pub local_size: Option<u32>,
    pub local_packed: Option<u32>,
    pub needed_end: [u16; 2], // versions of the zip64 end record
}

impl Default for Idle {
    fn default() -> Idle {
        Idle {
            made_by: 45,
            needed: [45; 2],
            time: [0x4a21; 2],
            date: [0x4a21; 2],
            internal: 0,
            external: 0,
            local_crc: None,
            local_size: None,
            local_packed: None,
            needed_end: [45; 2],
        }
    }
}

impl Member {
    pub fn new(name: &str, data: &[u8], method: u16) -> Member {
        Member {
            name: name.as_bytes().to_vec(),
            data: data.to_vec(),
            method,
            flags: 0,
            extra_local: vec![],
            extra_central: vec![],
            comment: vec![],
            zip64: 0,
            crc_xor: 0,
            disk: 0,
            idle: Idle::default(),
        }
    }
}

#[derive(Clone, Debug, Default)]
pub struct Zip {
    pub members: Vec<Member>,
    pub prefix: Vec<u8>,
    pub gap: Vec<u8>, // between the data and the central directory
    pub comment: Vec<u8>,
    /// zip64 end record: 0 none, 1 present, 2 present and the counts only there, 3 all fields only there
    pub zip64: u8,
    pub zip64_extra: Vec<u8>, // extensible data of the zip64 record
    pub disks: u32,           // additional disks
    pub count_add: i64,
}

fn le16(o: &mut Vec<u8>, v: u16) {
    o.extend(v.to_le_bytes());
}
fn le32(o: &mut Vec<u8>, v: u32) {
    o.extend(v.to_le_bytes());
}
fn le64(o: &mut Vec<u8>, v: u64) {
    o.extend(v.to_le_bytes());
}

pub fn pack(method: u16, data: &[u8]) -> Vec<u8> {
    match method {
        8 => deflate(data, 6),
        12 => bzip2(data),
        _ => data.to_vec(),
    }
}

impl Zip {
    pub fn of(m: Member) -> Zip {
        Zip { members: vec![m], ..Zip::default() }
    }

    pub fn bytes(&self) -> Vec<u8> {
        let mut o = self.prefix.clone();
        let mut central = Vec::new();
        for m in &self.members {
            let at = o.len() as u64;
            let z = pack(m.method, &m.data);
            let sum = crc(&m.data) ^ m.crc_xor;
            let later = m.flags & 8 != 0;
            le32(&mut o, 0x04034b50);
            let i = &m.idle;
            le16(&mut o, i.needed[0]);
            le16(&mut o, m.flags);
            le16(&mut o, m.method);
            le16(&mut o, i.time[0]);
            le16(&mut o, i.date[0]);
            le32(&mut o, i.local_crc.unwrap_or(if later { 0 } else { sum }));
            le32(&mut o, i.local_packed.unwrap_or(if later { 0 } else { z.len() as u32 }));
            le32(&mut o, i.local_size.unwrap_or(if later { 0 } else { m.data.len() as u32 }));
            le16(&mut o, m.name.len() as u16);
            le16(&mut o, m.extra_local.len() as u16);
            o.extend(&m.name);
            o.extend(&m.extra_local);
            o.extend(&z);
            if later {
                le32(&mut o, 0x08074b50);
                le32(&mut o, sum);
                le32(&mut o, z.len() as u32);
                le32(&mut o, m.data.len() as u32);
            }
            let mut x = Vec::new();
            if m.zip64 & 1 != 0 {
                le64(&mut x, m.data.len() as u64);
            }
            if m.zip64 & 2 != 0 {
                le64(&mut x, z.len() as u64);
            }
            if m.zip64 & 4 != 0 {
                le64(&mut x, at);
            }
            if m.zip64 & 8 != 0 {
                le32(&mut x, m.disk as u32);
            }
            let mut extra = m.extra_central.clone();
            if m.zip64 & 16 != 0 {
                // after the other extra fields instead of before them
                le16(&mut extra, 1);
                le16(&mut extra, x.len() as u16);
                extra.extend(x);
            } else if m.zip64 != 0 {
                let mut f = Vec::new();
                le16(&mut f, 1);
                le16(&mut f, x.len() as u16);
                f.extend(x);
                f.extend(extra);
                extra = f;
            }
            let c = &mut central;
            le32(c, 0x02014b50);
            le16(c, i.made_by);
            le16(c, i.needed[1]);
            le16(c, m.flags);
            le16(c, m.method);
            le16(c, i.time[1]);
            le16(c, i.date[1]);
            le32(c, sum);
            le32(c, if m.zip64 & 2 != 0 { u32::MAX } else { z.len() as u32 });
            le32(c, if m.zip64 & 1 != 0 { u32::MAX } else { m.data.len() as u32 });
            le16(c, m.name.len() as u16);
            le16(c, extra.len() as u16);
            le16(c, m.comment.len() as u16);
            le16(c, if m.zip64 & 8 != 0 { 0xffff } else { m.disk });
            le16(c, i.internal);
            le32(c, i.external);
            le32(c, if m.zip64 & 4 != 0 { u32::MAX } else { at as u32 });
            c.extend(&m.name);
            c.extend(&extra);
            c.extend(&m.comment);
        }
        o.extend(&self.gap);
        let start = o.len() as u64;
        o.extend(&central);
        let n = (self.members.len() as i64 + self.count_add) as u64;
        if self.zip64 > 0 {
            let at = o.len() as u64;
            le32(&mut o, 0x06064b50);
            le64(&mut o, 44 + self.zip64_extra.len() as u64);
            let v = self.members.first().map_or([45; 2], |m| m.idle.needed_end);
            le16(&mut o, v[0]);
            le16(&mut o, v[1]);
            le32(&mut o, self.disks);
            le32(&mut o, self.disks);
            le64(&mut o, n);
            le64(&mut o, n);
            le64(&mut o, central.len() as u64);
            le64(&mut o, start);
            o.extend(&self.zip64_extra);
            le32(&mut o, 0x07064b50);
            le32(&mut o, self.disks);
            le64(&mut o, at);
            le32(&mut o, self.disks + 1);
        }
        let d = self.disks as u16;
        le32(&mut o, 0x06054b50);
        le16(&mut o, if self.zip64 == 3 { 0xffff } else { d });
        le16(&mut o, if self.zip64 == 3 { 0xffff } else { d });
        le16(&mut o, if self.zip64 >= 2 { 0xffff } else { n as u16 });
        le16(&mut o, if self.zip64 >= 2 { 0xffff } else { n as u16 });
        le32(&mut o, if self.zip64 == 3 { u32::MAX } else { central.len() as u32 });
        le32(&mut o, if self.zip64 == 3 { u32::MAX } else { start as u32 });
        le16(&mut o, self.comment.len() as u16);
        o.extend(&self.comment);
        o
    }
}

// ---------------------------------------------------------------------------------------------
// all of them

pub struct Packer {
    pub name: &'static str,
    pub suffix: &'static str,
    pub pack: fn(&[u8]) -> Vec<u8>,
}

pub const LZ: Lz4 = Lz4 { block: 65536, linked: false, block_sum: false, size: false, sum: true, raw: false, mix: false };
pub const ZS: Zst = Zst { block: 4096, frame: 0, single: false, sum: true, lit: false };

/// Everything but zip (which needs a file). The first one of each format is the plain variant.
pub fn packers() -> Vec<Packer> {
    macro_rules! p {
        ($n:expr, $s:expr, $f:expr) => {
            Packer { name: $n, suffix: $s, pack: $f }
        };
    }
    vec![
        p!("gzip", ".gz", |d| gzip(d, 0, 6, 0)),
        p!("gzip-header-fields", ".gz", |d| gzip(d, 0, 9, 31)),
        p!("gzip-stored", ".gz", |d| gzip(d, 0, 0, 8)),
        p!("gzip-2-members", ".gz", |d| gzip(d, d.len() / 2 + 1, 6, 8)),
        p!("gzip-many-members", ".gz", |d| gzip(d, d.len() / 37 + 1, 6, 0)),
        p!("gzip-empty-members", ".gz", |d| {
            let mut o = gzip(b"", 0, 6, 0);
            o.extend(gzip(d, 0, 6, 0));
            o.extend(gzip(b"", 0, 6, 8));
            o
        }),
        p!("lz4", ".lz4", |d| lz4_frame(d, LZ)),
        p!("lz4-all-checks", ".lz4", |d| lz4_frame(d, Lz4 { block_sum: true, size: true, ..LZ })),
        p!("lz4-no-checks", ".lz4", |d| lz4_frame(d, Lz4 { sum: false, ..LZ })),
        p!("lz4-linked", ".lz4", |d| lz4_frame(d, Lz4 { linked: true, block: 1000, ..LZ })),
        p!("lz4-linked-64k", ".lz4", |d| lz4_frame(d, Lz4 { linked: true, size: true, ..LZ })),
        p!("lz4-linked-mixed", ".lz4", |d| lz4_frame(d, Lz4 { linked: true, mix: true, block: 1000, ..LZ })),
        p!("lz4-linked-mixed-no-checks", ".lz4", |d| {
            lz4_frame(d, Lz4 { linked: true, mix: true, block: (d.len() / 5 + 1).min(65536), sum: false, ..LZ })
        }),
        p!("lz4-2-frames", ".lz4", |d| {
            let (a, b) = d.split_at(d.len() / 2);
            let mut o = lz4_frame(a, Lz4 { linked: true, size: true, ..LZ });
            o.extend(lz4_frame(b, Lz4 { linked: true, sum: false, ..LZ }));
            o
        }),
        p!("lz4-many-frames", ".lz4", |d| {
            let n = (d.len() / 29 + 1).min(20_000);
            let all: Vec<Vec<u8>> = d.chunks(n).map(|p| lz4_frame(p, Lz4 { linked: true, mix: true, block: (n / 3 + 1).min(4096), ..LZ })).collect();
            if all.is_empty() { lz4_frame(b"", LZ) } else { all.concat() }
        }),
        p!("lz4-odd-frames", ".lz4", |d| {
            let mut o = lz4_frame(b"", LZ);
            o.extend([0x5f, 0x2a, 0x4d, 0x18, 5, 0, 0, 0, 4, 0x22, 0x4d, 0x18, 0]);
            o.extend(lz4_frame(d, LZ));
            o.extend([0x50, 0x2a, 0x4d, 0x18, 0, 0, 0, 0]);
            o.extend(lz4_frame(b"", Lz4 { sum: false, ..LZ }));
            o
        }),
        p!("lz4-raw", ".lz4", |d| lz4_frame(d, Lz4 { raw: true, block: 3000, ..LZ })),
        p!("lz4-256k", ".lz4", |d| lz4_frame(d, Lz4 { block: 262144, ..LZ })),
        p!("lz4block", ".lz4", |d| lz4_java(d, 65536, false)),
        p!("lz4block-64", ".lz4", |d| lz4_java(d, 64, false)),
        p!("lz4block-raw", ".lz4", |d| lz4_java(d, 1024, true)),
        p!("lz4block-128k", ".lz4", |d| lz4_java(d, 131072, false)),
        p!("lzf", ".lzf", |d| lzf(d, 65535, false)),
        p!("lzf-100", ".lzf", |d| lzf(d, 100, false)),
        p!("lzf-raw", ".lzf", |d| lzf(d, 8192, true)),
        p!("zstd", ".zst", |d| zst(d, ZS)),
        p!("zstd-no-sum", ".zst", |d| zst(d, Zst { sum: false, ..ZS })),
        p!("zstd-single", ".zst", |d| zst(d, Zst { single: true, block: 100000, ..ZS })),
        p!("zstd-literals", ".zst", |d| zst(d, Zst { lit: true, block: 5000, ..ZS })),
        p!("zstd-2-frames", ".zst", |d| zst(d, Zst { frame: d.len() / 2 + 1, ..ZS })),
        p!("zstd-many-frames", ".zst", |d| zst(d, Zst { frame: d.len() / 23 + 1, sum: false, single: true, ..ZS })),
        p!("zstd-empty-frames", ".zst", |d| {
            let mut o = zst(b"", ZS);
            o.extend(zst(d, ZS));
            o.extend(zst(b"", Zst { sum: false, single: true, ..ZS }));
            o
        }),
        p!("zstd-odd-frames", ".zst", |d| {
            let (a, b) = d.split_at(d.len() / 3);
            let mut o = zst(a, ZS);
            o.extend(zst_skip(0x50, &[0x28, 0xb5, 0x2f, 0xfd, 0]));
            o.extend(zst_skip(0x53, b""));
            o.extend(zst(b, Zst { sum: false, ..ZS }));
            o.extend(zst_skip(0x5f, &[0x5f, 0x2a, 0x4d, 0x18, 1, 0, 0, 0, 0, 7]));
            o
        }),
        p!("zstd-tiny-blocks", ".zst", |d| zst(d, Zst { block: (d.len() / 300 + 1).min(128 << 10), ..ZS })),
    ]
}
