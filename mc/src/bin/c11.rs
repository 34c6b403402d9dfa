//! C11: a failed or cut-off input is reported, never taken for its end.
use std::cell::Cell;
use std::io::ErrorKind;
use std::rc::Rc;
use std::sync::{Arc, OnceLock};

use chopper::chopper::chopper::Source;
use chopper::cli::util::YesNoAuto;
use chopper::decompress::zip;
use chopper::error::{CliResult, Error};
use chopper::input::input::{Input, InputFormat, InputType};
use chopper::input::input_factory::InputFactory;
use chopper::chopper::types::{FieldType, TimestampRange};
use mc::graph::{model_order, run_real, Graph, Node};
use mc::kit::*;
use mc::pack::*;
use mc::*;

#[path = "../sys.rs"]
mod sys;

const KINDS: [ErrorKind; 10] = [
    ErrorKind::Other,
    ErrorKind::UnexpectedEof,
    ErrorKind::ConnectionReset,
    ErrorKind::BrokenPipe,
    ErrorKind::InvalidData,
    ErrorKind::InvalidInput,
    ErrorKind::TimedOut,
    ErrorKind::WouldBlock,
    ErrorKind::NotFound,
    ErrorKind::PermissionDenied,
];

/// An input as a list of parts after each of which a stream of this format may rightly end.
struct Case {
    name: String,
    kind: &'static str,
    suffix: &'static str,
    zip: bool,
    parts: Vec<Vec<u8>>,
    rows: usize,
    whole: OnceLock<Result<Read, String>>,
}

impl Case {
    fn bytes(&self) -> Vec<u8> {
        self.parts.concat()
    }
    fn whole(&self) -> Result<Read, String> {
        self.whole
            .get_or_init(|| open_and_read(open(self, self.bytes(), Box::new(|_, n| Ok(n)))))
            .clone()
    }
    /// The positions at which the input may rightly end.
    fn ends(&self) -> Vec<usize> {
        let mut at = 0;
        self.parts
            .iter()
            .map(|p| {
                at += p.len();
                at
            })
            .collect()
    }
}

/// Text that does not compress much, so that packed inputs are as long as plain ones.
fn word(i: u64, n: usize) -> String {
    let mut x = (i + 1).wrapping_mul(0x9e37_79b9_7f4a_7c15);
    (0..n)
        .map(|_| {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_"[(x >> 32) as usize % 64] as char
        })
        .collect()
}

fn csv(n: usize) -> Vec<Vec<u8>> {
    let mut r = vec![b"timeSeconds,word\n".to_vec()];
    for i in 0..n as u64 {
        r.push(format!("{},{}\n", 1_546_300_800 + i * 977, word(i, 40)).into_bytes());
    }
    r
}

fn dc_rows(n: usize) -> (H, Vec<R>) {
    let head = H::new(&[("word", FieldType::String), ("n", FieldType::Int), ("d", FieldType::Double)]);
    let rows = (0..n as u64)
        .map(|i| {
            let nn = if i % 5 == 2 { V::N } else { V::I((i as i32).wrapping_mul(7_654_321)) };
            (i * 1_000_000_007, vec![V::S(word(i, 30)), nn, V::D((i as f64 / 3.0).to_bits())])
        })
        .collect();
    (head, rows)
}

fn dc(n: usize) -> Vec<Vec<u8>> {
    let (head, rows) = dc_rows(n);
    let all = dc_bytes(&head, &rows);
    let mut r = vec![dc_bytes(&head, &[])];
    let start = r[0].len();
    for x in rows.chunks(1) {
        r.push(dc_bytes(&head, x)[start..].to_vec());
    }
    assert!(r.concat() == all, "ENGINE: the rows of a dc file do not follow each other");
    r
}

/// Splits a block stream into its blocks; `size` tells a block's length from its first bytes.
fn blocks(mut b: &[u8], size: fn(&[u8]) -> usize) -> Vec<Vec<u8>> {
    let mut r = Vec::new();
    while !b.is_empty() {
        let n = size(b).min(b.len());
        r.push(b[..n].to_vec());
        b = &b[n..];
    }
    r
}

fn parts_of(p: &Packer, d: &[u8]) -> Vec<Vec<u8>> {
    let z = (p.pack)(d);
    match p.suffix {
        ".lzf" => blocks(&z, |b| {
            let n = u16::from_be_bytes([b[3], b[4]]) as usize;
            n + if b[2] == 0 { 5 } else { 7 }
        }),
        ".lz4" if z.starts_with(b"LZ4Block") => {
            blocks(&z, |b| 21 + u32::from_le_bytes([b[9], b[10], b[11], b[12]]) as usize)
        }
        ".lz4" => blocks(&z, |b| {
            let word = |i: usize| u32::from_le_bytes([b[i], b[i + 1], b[i + 2], b[i + 3]]) as usize;
            if word(0) != 0x184d2204 {
                return 8 + word(4); // to be skipped
            }
            let mut at = 7 + if b[4] & 8 != 0 { 8 } else { 0 };
            while word(at) != 0 {
                at += 4 + (word(at) & 0x7fff_ffff) + if b[4] & 16 != 0 { 4 } else { 0 };
            }
            at + 4 + if b[4] & 4 != 0 { 4 } else { 0 }
        }),
        // a member or frame ends where the next one starts; the pieces below are built from the same
        // calls as the whole
        ".gz" | ".zst" => {
            let mut starts: Vec<usize> = Vec::new();
            let magic: &[u8] = if p.suffix == ".gz" { &[0x1f, 0x8b, 8] } else { &[0x28, 0xb5, 0x2f, 0xfd] };
            let mut i = 0;
            while i < z.len() {
                if p.suffix == ".zst" && z[i..].get(1..4) == Some(&[0x2a, 0x4d, 0x18]) && z[i] >> 4 == 5 {
                    starts.push(i); // to be skipped
                    i += 8 + u32::from_le_bytes([z[i + 4], z[i + 5], z[i + 6], z[i + 7]]) as usize;
                    continue;
                }
                if z[i..].starts_with(magic) {
                    starts.push(i);
                }
                i += 1;
            }
            starts.push(z.len());
            starts.windows(2).map(|w| z[w[0]..w[1]].to_vec()).collect()
        }
        _ => unreachable!("ENGINE: {}", p.suffix),
    }
}

fn cases(n: usize) -> Arc<Vec<Case>> {
    let mut r = Vec::new();
    for kind in ["csv", "dc"] {
        let plain = if kind == "csv" { csv(n) } else { dc(n) };
        let d = plain.concat();
        r.push(Case {
            name: kind.to_string(),
            kind,
            suffix: "",
            zip: false,
            parts: plain,
            rows: n,
            whole: Default::default(),
        });
        for p in packers() {
            r.push(Case {
                name: format!("{} {}", kind, p.name),
                kind,
                suffix: p.suffix,
                zip: false,
                parts: parts_of(&p, &d),
                rows: n,
                whole: Default::default(),
            });
        }
        for m in [0, 8, 12] {
            for extra in [false, true] {
                let mut e = Member::new(&format!("in.{}", kind), &d, m);
                if extra {
                    e.extra_central = vec![9, 9, 2, 0, 1, 1];
                    e.extra_local = vec![7, 7, 1, 0, 1];
                    e.zip64 = 7;
                    e.flags = 8;
                }
                let mut z = Zip::of(e);
                if extra {
                    z.comment = b"some comment".to_vec();
                    z.zip64 = 3;
                }
                r.push(Case {
                    name: format!("{} zip {} {}", kind, m, if extra { "with all records" } else { "plain" }),
                    kind,
                    suffix: "",
                    zip: true,
                    parts: vec![z.bytes()],
                    rows: n,
                    whole: Default::default(),
                });
            }
        }
    }
    Arc::new(r)
}

fn open(c: &Case, data: Vec<u8>, plan: Box<dyn FnMut(usize, usize) -> Result<usize, ErrorKind>>) -> CliResult<Box<dyn Source>> {
    let cfg = plain_cfg(YesNoAuto::Yes);
    let r = Pieces { data, pos: 0, plan };
    if c.zip {
        let (inner, name) = zip::new_reader_for_single_file_zip_archive(r).map_err(Error::from)?;
        open_stream(inner, Some(&name), None, cfg)
    } else {
        let f = format!(".{}{}", c.kind, c.suffix);
        open_stream(Box::new(r), None, Some(&f), cfg)
    }
}

fn is_prefix(got: &[R], want: &[R]) -> bool {
    got.len() <= want.len() && got.iter().zip(want).all(|(a, b)| a == b)
}

/// The result must be an error, after rows of the whole input only.
fn reported(c: &Case, got: &Result<Read, String>, how: &dyn Fn() -> String) -> Res {
    let whole = c.whole()?;
    ensure!(whole.err.is_none() && whole.rows.len() == c.rows, "{} undisturbed: {}", c.name, brief(&Ok(whole)));
    if let Ok(g) = got {
        ensure!(g.header == whole.header, "{} {}: header {:?}", c.name, how(), g.header);
        ensure!(
            is_prefix(&g.rows, &whole.rows),
            "{} {}: rows delivered are not the first rows of the input: {} rows, the last {:?}",
            c.name,
            how(),
            g.rows.len(),
            g.rows.last()
        );
        ensure!(
            g.err.is_some(),
            "{} {}: taken for the end of the input after {} of {} rows",
            c.name,
            how(),
            g.rows.len(),
            whole.rows.len()
        );
    }
    Ok(())
}

/// Reads with a fault at byte `at`, persistent or only once; also tells whether it was met.
fn with_fault(c: &Case, at: usize, kind: ErrorKind, once: bool, piece: usize) -> (Result<Read, String>, bool) {
    let met = Rc::new(Cell::new(false));
    let m = met.clone();
    let plan = move |pos: usize, want: usize| {
        if pos == at && !(once && m.get()) && want > 0 {
            m.set(true);
            return Err(kind);
        }
        Ok(if pos < at { (at - pos).min(want).min(piece) } else { want.min(piece) })
    };
    let got = open_and_read(open(c, c.bytes(), Box::new(plan)));
    (got, met.get())
}

fn fault(ctx: &mut Ctx, c: &Case, at: usize, kind: ErrorKind, once: bool, piece: usize) -> Res {
    ctx.step(&(&c.name, at, format!("{:?}", kind), once, piece));
    let (got, met) = with_fault(c, at, kind, once, piece);
    ctx.outcome(&(&got, met));
    ctx.note(|| format!("{} with {:?} at byte {} (met: {}): {}", c.name, kind, at, met, brief(&got)));
    if met {
        reported(c, &got, &|| format!("with an I/O error ({:?}) at byte {} of {}", kind, at, c.bytes().len()))
    } else {
        let whole = c.whole();
        ensure!(got == whole, "{} with an error at byte {}, which is not read: {}", c.name, at, brief(&got));
        Ok(())
    }
}

// ---------------------------------------------------------------------------------------------

fn cut(ctx: &mut Ctx, c: &Case, at: usize) -> Res {
    ctx.step(&(&c.name, at));
    let all = c.bytes();
    let got = open_and_read(open(c, all[..at].to_vec(), Box::new(|_, n| Ok(n))));
    ctx.outcome(&got);
    ctx.note(|| format!("{} cut at byte {} of {}: {}", c.name, at, all.len(), brief(&got)));
    let how = || format!("cut at byte {} of {}", at, all.len());
    let block_stream = c.name.contains("lzf") || c.name.contains("lz4block");
    if c.ends().contains(&at) || (at == 0 && block_stream) {
        // may be a proper end of the stream, but what it holds may not be
        if c.kind == "dc" {
            if let Ok(g) = &got {
                let whole = c.whole()?;
                ensure!(is_prefix(&g.rows, &whole.rows), "{} {}: wrong rows", c.name, how());
                if c.suffix == "" {
                    ensure!(g.err.is_none(), "{} {}: {}", c.name, how(), brief(&got));
                }
            }
        }
        return Ok(());
    }
    reported(c, &got, &how)
}

// ---------------------------------------------------------------------------------------------

/// Formats with a checksum over everything; the ranges of bytes whose change must be noticed
/// (None: all of them, unless the result is the same).
fn checked(scale: usize) -> Arc<Vec<(Case, Vec<(usize, usize)>)>> {
    let mut r = Vec::new();
    let ps = packers();
    for kind in ["csv", "dc"] {
        let d = if kind == "csv" { csv(4 * scale) } else { dc(5 * scale) }.concat();
        let rows = if kind == "csv" { 4 } else { 5 } * scale;
        let mk = |name: String, suffix: &'static str, zip: bool, bytes: Vec<u8>| Case {
            name: format!("{} {}", kind, name),
            kind,
            suffix,
            zip,
            parts: vec![bytes],
            rows,
            whole: Default::default(),
        };
        for n in ["gzip", "gzip-stored", "gzip-2-members", "gzip-header-fields"] {
            if let Some(p) = ps.iter().find(|p| p.name == n) {
                let z = (p.pack)(&d);
                let all = vec![(0, z.len())];
                r.push((mk(n.to_string(), ".gz", false, z), all));
            }
        }
        for m in [0, 8, 12] {
            let z = Zip::of(Member::new(&format!("in.{}", kind), &d, m)).bytes();
            let all = vec![(0, z.len())];
            r.push((mk(format!("zip {}", m), "", true, z), all));
        }
        let lz = Lz4 { block: 65536, linked: false, block_sum: false, size: false, sum: true, raw: false, mix: false };
        for (n, o) in [
            ("lz4 content checksum", lz),
            ("lz4 raw blocks", Lz4 { raw: true, block: 100, ..lz }),
            ("lz4 block checksums", Lz4 { block_sum: true, sum: false, block: 100, ..lz }),
            ("lz4 all checksums", Lz4 { block_sum: true, size: true, linked: true, block: 100, ..lz }),
        ] {
            let z = lz4_frame(&d, o);
            let all = vec![(0, z.len())];
            r.push((mk(n.to_string(), ".lz4", false, z), all));
        }
        // zstd with stored blocks: data and checksum only (what the rest is changed to may be anything)
        for block in [if scale > 1 { 131072 } else { 0 }, 50] {
            let z = zst_frame(&d, Zst { block, frame: 0, single: false, sum: true, lit: false });
            let mut spots = Vec::new();
            let mut at = 6;
            for p in pieces(&d, block) {
                spots.push((at + 3, at + 3 + p.len()));
                at += 3 + p.len();
            }
            spots.push((at, at + 4));
            r.push((mk(format!("zstd stored blocks of {}", block), ".zst", false, z), spots));
        }
        // lz4 block stream with stored blocks
        for block in [65536, 50] {
            let z = lz4_java(&d, block, true);
            let mut spots = Vec::new();
            let mut at = 0;
            for p in pieces(&d, block) {
                spots.push((at + 17, at + 20)); // the upper four bits of the checksum are not used
                spots.push((at + 21, at + 21 + p.len()));
                at += 21 + p.len();
            }
            r.push((mk(format!("lz4 block stream, stored blocks of {}", block), ".lz4", false, z), spots));
        }
    }
    Arc::new(r)
}

fn spots(r: &[(usize, usize)]) -> Vec<usize> {
    r.iter().flat_map(|(a, b)| *a..*b).collect()
}

fn damage(ctx: &mut Ctx, c: &Case, changes: &[(usize, u8)]) -> Res {
    ctx.step(&(&c.name, changes));
    let mut z = c.bytes();
    for (at, x) in changes {
        z[*at] ^= x;
    }
    let got = open_and_read(open(c, z, Box::new(|_, n| Ok(n))));
    let end = match &got {
        Err(_) => Err(()),
        Ok(g) => Ok((g.rows.len(), g.err.is_some())),
    };
    ctx.outcome(&end);
    ctx.note(|| format!("{} with {:?} changed: {}", c.name, changes, brief(&got)));
    let whole = c.whole()?;
    ensure!(whole.err.is_none() && whole.rows.len() == c.rows, "{} undisturbed: {}", c.name, brief(&Ok(whole)));
    if let Ok(g) = &got {
        ensure!(
            g.err.is_some() || *g == whole,
            "{} damaged (byte, changed bits): {:?}: accepted, {}",
            c.name,
            changes,
            brief(&got)
        );
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------

fn run_driver(ctx: &mut Ctx, k: usize, max: usize) -> Res {
    let head = H::new(&[("a", FieldType::String)]);
    let mut rows: Vec<Vec<R>> = Vec::new();
    let mut errs = Vec::new();
    for s in 0..k {
        let n = ctx.choose(max + 1);
        let mut t = 0;
        let mut x = Vec::new();
        for i in 0..n {
            t += ctx.choose(3) as u64;
            x.push((t, vec![V::S(format!("s{}r{}", s, i))]));
        }
        rows.push(x);
        errs.push(ctx.flag());
    }
    let end = if ctx.flag() { Some(2u64) } else { None };
    if !errs.iter().any(|e| *e) {
        return Ok(());
    }
    let mut g: Graph = Vec::new();
    for i in 0..k {
        g.push(vec![Node::Rec(i), Node::Merge(k)]);
    }
    g.push(vec![Node::MergeHead, Node::Rec(k)]);
    ctx.step(&(&rows, &errs, end));
    let sources: Vec<Box<dyn Source>> = rows
        .iter()
        .zip(&errs)
        .map(|(x, e)| {
            Box::new(VecSource {
                header: head.header(),
                rows: x.iter().map(row).collect(),
                err_at_end: if *e { Some("broken input".to_string()) } else { None },
            }) as Box<dyn Source>
        })
        .collect();
    let log = log();
    let range = TimestampRange { begin: None, end };
    let (bl, d) = run_real(&g, &vec![head.clone(); k], sources, range, &log);
    let ok = bl.is_ok() && d.is_ok();
    let seen: Vec<R> = log.borrow().iter().filter_map(|e| match e {
        Ev::Row(i, x) if *i == k => Some(x.clone()),
        _ => None,
    }).collect();
    ctx.outcome(&(ok, &seen));
    ctx.note(|| format!("rows {:?}, failing after them {:?}, end {:?}: {:?} {:?}, output {:?}", rows, errs, end, bl, d, seen));
    // an input that got past the end bound is not read any further
    let inside = |x: &R| end.map_or(true, |e| x.0 < e);
    let must = rows.iter().zip(&errs).any(|(x, e)| *e && x.iter().all(&inside));
    let kept: Vec<Vec<R>> = rows.iter().map(|x| x.iter().filter(|r| inside(r)).cloned().collect()).collect();
    let want: Vec<R> = model_order(&kept).into_iter().map(|x| x.1).collect();
    ensure!(!(must && ok), "a failing input is taken for a complete one: rows {:?}, failing {:?}, end {:?}", rows, errs, end);
    ensure!(is_prefix(&seen, &want), "output {:?} is not a prefix of {:?}", seen, want);
    ensure!(!ok || seen == want, "output {:?}, expected {:?}", seen, want);
    Ok(())
}

/// An input by path, with one call of the operating system failing (or all from one on).
fn on_disk(
    ctx: &mut Ctx,
    calls: &OnceLock<(usize, String)>,
    path: &str,
    what: &dyn Fn() -> String,
    same: Option<&Result<Read, String>>,
) -> Res {
    let read = || {
        open_and_read((|| {
            InputFactory::new(plain_cfg(YesNoAuto::Yes), None, None)?.create_source_from_path(path)
        })())
    };
    let (whole, n, _) = sys::with(sys::Fault::None, read);
    let (n0, first) = calls.get_or_init(|| (n, format!("{:?}", whole)));
    ensure!(whole.as_ref().map_or(false, |w| w.err.is_none()), "{} without faults: {}", what(), brief(&whole));
    ensure!(*first == format!("{:?}", whole), "{} without faults: {} where it was {} before", what(), brief(&whole), first);
    assert!(n == *n0, "ENGINE: the number of calls differs between runs");
    ensure!(same.map_or(true, |s| *s == whole), "{}: {} by path, {} as stream", what(), brief(&whole), brief(same.unwrap()));
    let at = ctx.choose(n);
    let e = *ctx.pick(&[libc::EIO, libc::EACCES, libc::ESTALE]);
    let fault = if ctx.flag() { sys::Fault::From(at, e) } else { sys::Fault::Once(at, e) };
    let (got, _, hit) = sys::with(fault, read);
    ctx.step(&(what(), fault));
    let how = || format!("{}, {:?} of {} calls ({})", what(), fault, n, hit);
    ctx.outcome(&(hit, got.is_ok(), got.as_ref().map(|g| g.err.clone()).ok()));
    ctx.note(|| format!("{}: {}", how(), brief(&got)));
    let (Ok(got), Ok(whole)) = (&got, &whole) else { return Ok(()) };
    if got.err.is_some() {
        ensure!(
            got.header == whole.header && got.rows.len() <= whole.rows.len() && got.rows[..] == whole.rows[..got.rows.len()],
            "{}: wrong rows before the error: {}",
            how(),
            brief(&Ok(got.clone()))
        );
    } else {
        ensure!(got == whole, "{}: taken for complete: {}; it is {}", how(), brief(&Ok(got.clone())), brief(&Ok(whole.clone())));
    }
    Ok(())
}

fn main() {
    mc::main("C11", Level::FaultEnumeration, |c| {
        let t = c.thorough;
        c.rule = "an I/O error at every byte position of the input (10 kinds, persistent or once); a cut at every byte; \
                  every single-bit change (thorough: every single-byte change and every pair of bit changes) of inputs \
                  with checksums; every subset of failing inputs of a merge and every failing file of a directory"
            .to_string();
        c.assume("changes of the parts of zstd and lz4 block streams that are not data or checksums are left to their decoders");

        let small = cases(if t { 40 } else { 12 });
        let n = small.len();
        let s1 = small.clone();
        c.scenario(
            "fault-at-every-byte",
            "CSV and DC of 12 rows (thorough 40), plain, in 34 packed forms and 6 zips x an I/O error at every byte position \
             (2 kinds x persistent; thorough 10 kinds x persistent or once)",
            0,
            move |ctx| {
                let c = &s1[ctx.choose(n)];
                let at = ctx.choose(c.bytes().len() + 1);
                let kind = KINDS[ctx.choose(if t { KINDS.len() } else { 2 })];
                let once = t && ctx.flag();
                fault(ctx, c, at, kind, once, usize::MAX)
            },
        );
        let big = cases(if t { 400 } else { 210 });
        c.scenario(
            "fault-after-the-preview",
            "the same of 210 rows (thorough 400), so that it is longer than the preview x an error of each of 2 kinds (thorough: 3, \
             persistent or once) at every byte position from 8190 on (quick: to 9290)",
            0,
            move |ctx| {
                let c = &big[ctx.choose(n)];
                let len = c.bytes().len() + 1;
                if len <= 8190 {
                    return Ok(());
                }
                let span = if t { len - 8190 } else { (len - 8190).min(1100) };
                let at = 8190 + ctx.choose(span);
                let kind = KINDS[ctx.choose(if t { 3 } else { 2 })];
                let once = t && ctx.flag();
                fault(ctx, c, at, kind, once, usize::MAX)
            },
        );
        let few = cases(3);
        c.scenario(
            "fault-kinds",
            "the same of 3 rows x 10 kinds of error at every byte position x persistent or once x reads of up to 1, 7 or any number of bytes",
            0,
            move |ctx| {
                let c = &few[ctx.choose(n)];
                let at = ctx.choose(c.bytes().len() + 1);
                let kind = KINDS[ctx.choose(KINDS.len())];
                let once = ctx.flag();
                let piece = if t { *ctx.pick(&[usize::MAX, 1, 7]) } else { usize::MAX };
                fault(ctx, c, at, kind, once, piece)
            },
        );
        let s2 = small.clone();
        let mid = cases(if t { 300 } else { 60 });
        c.scenario(
            "cut-at-every-byte",
            "the same (but plain CSV) of 12 rows (thorough 40) and of 60 rows (thorough 300) cut after every number of bytes",
            0,
            move |ctx| {
                let m = ctx.flag();
                let c = &(if m { &mid } else { &s2 })[ctx.choose(n)];
                if c.name == "csv" {
                    return Ok(());
                }
                let at = ctx.choose(c.bytes().len());
                cut(ctx, c, at)
            },
        );
        let inner = cases(6);
        c.scenario(
            "cut-then-packed",
            "DC of 6 rows cut after every number of bytes and then packed (34 forms and zips): the packed stream is complete, its content is not",
            0,
            move |ctx| {
                let d = inner.iter().find(|c| c.name == "dc").ok_or("ENGINE: no dc")?;
                let all = d.bytes();
                let at = ctx.choose(all.len());
                let ps = packers();
                let i = ctx.choose(ps.len() + 3);
                let (z, zip, suffix) = if i < ps.len() {
                    ((ps[i].pack)(&all[..at]), false, ps[i].suffix)
                } else {
                    (Zip::of(Member::new("in.dc", &all[..at], [0, 8, 12][i - ps.len()])).bytes(), true, "")
                };
                let name = format!("cut dc packed by {}", ps.get(i).map_or("zip", |p| p.name));
                let c = Case { name, kind: "dc", suffix, zip, parts: vec![z], rows: 0, whole: Default::default() };
                ctx.step(&(i, at));
                let got = c.whole();
                ctx.outcome(&got);
                ctx.note(|| format!("{} at {}: {}", c.name, at, brief(&got)));
                if d.ends().contains(&at) {
                    return Ok(());
                }
                reported(d, &got, &|| format!("cut at byte {} of {} and packed: {}", at, all.len(), c.name))
            },
        );
        let ch = checked(1);
        let ch2 = ch.clone();
        let m = ch.len();
        c.scenario(
            "single-bit-damage",
            "CSV of 4 rows and DC of 5 as gzip (4 forms), zip (3 methods), lz4 frame (4 forms), zstd and lz4 block stream with stored \
             blocks x every change of a single bit (thorough: every other value of a single byte)",
            0,
            move |ctx| {
                let (c, s) = &ch[ctx.choose(m)];
                let s = spots(s);
                let at = *ctx.pick(&s);
                let x = if t { 1 + ctx.choose(255) as u8 } else { 1 << ctx.choose(8) };
                damage(ctx, c, &[(at, x)])
            },
        );
        if t {
            c.scenario(
                "two-byte-damage",
                "the same x the lowest or highest bit changed in every pair of bytes up to 40 bytes apart",
                0,
                move |ctx| {
                    let (c, s) = &ch2[ctx.choose(m)];
                    let s = spots(s);
                    let i = ctx.choose(s.len());
                    let j = i + 1 + ctx.choose((s.len() - i).min(41).max(1));
                    if j >= s.len() {
                        return Ok(());
                    }
                    let x = if ctx.flag() { 1 } else { 128 };
                    damage(ctx, c, &[(s[i], x), (s[j], x)])
                },
            );
        }
        c.scenario(
            "merged-sources",
            "1..=3 sources of up to 2 rows (thorough: 3 rows for up to 2 sources) with time steps 0..=2 x each failing after its rows or not x with an end bound or not, merged",
            0,
            move |ctx| {
                let k = 1 + ctx.choose(3);
                let max = if t && k < 3 { 3 } else { 2 };
                run_driver(ctx, k, max)
            },
        );
        c.scenario(
            "directory",
            "a directory of 3 files x the file that is cut (DC, gzip, zstd, lz4 or zip of DC or CSV) x every number of bytes",
            0,
            move |ctx| {
                let bad = ctx.choose(3);
                let form = ctx.choose(6);
                let (head, rows) = dc_rows(9);
                let data: Vec<Vec<u8>> = (0..3).map(|i| dc_bytes(&head, &rows[i * 3..i * 3 + 3])).collect();
                let pack = |d: &[u8]| match form {
                    0 => d.to_vec(),
                    1 => gzip(d, 0, 6, 0),
                    2 => zst(d, Zst { block: 50, frame: 0, single: false, sum: true, lit: false }),
                    3 => lz4_frame(d, Lz4 { block: 65536, linked: false, block_sum: false, size: false, sum: true, raw: false, mix: false }),
                    4 => Zip::of(Member::new("in.dc", d, 8)).bytes(),
                    _ => Zip::of(Member::new("in.dc", d, 12)).bytes(),
                };
                let suffix = ["", ".gz", ".zst", ".lz4", ".zip", ".zip"][form];
                let z = pack(&data[bad]);
                let at = ctx.choose(z.len() + 1);
                ctx.step(&(bad, form, at));
                let dir = ctx.fresh_dir();
                for i in 0..3 {
                    let b = if i == bad { z[..at].to_vec() } else { pack(&data[i]) };
                    std::fs::write(dir.join(format!("{}.dc{}", i, suffix)), b).map_err(|e| format!("ENGINE: {}", e))?;
                }
                let mut f = InputFactory::new(plain_cfg(YesNoAuto::Yes), None, None).map_err(|e| err_text(&e))?;
                let got = open_and_read(f.create_source_from_input(&Input {
                    input: InputType::Path(dir.to_string_lossy().to_string()),
                    format: InputFormat::Auto,
                }));
                ctx.outcome(&got);
                ctx.note(|| format!("file {} cut at byte {}: {}", bad, at, brief(&got)));
                let how = || format!("directory of DC files{}, file {} cut at byte {} of {}", suffix, bad, at, z.len());
                let proper = form == 0 && (0..=3).any(|k| dc_bytes(&head, &rows[bad * 3..bad * 3 + k]).len() == at);
                if proper || at == z.len() {
                    let g = got?;
                    ensure!(g.err.is_none(), "{}: {:?}", how(), g.err);
                    return Ok(());
                }
                if let Ok(g) = &got {
                    ensure!(is_prefix(&g.rows, &rows), "{}: rows {:?}", how(), g.rows);
                    ensure!(g.rows.len() <= bad * 3 + 3, "{}: rows of later files: {}", how(), g.rows.len());
                    ensure!(g.err.is_some(), "{}: taken for complete", how());
                    ensure!(g.rows.len() >= bad * 3, "{}: rows of earlier files are missing", how());
                }
                Ok(())
            },
        );
        c.scenario(
            "command-line",
            "chop on a cut file (DC and CSV, plain, gzip, zstd, lz4, zip) by path or standard input, alone or as one of two inputs x cuts at every 16th byte (thorough: every byte)",
            0,
            move |ctx| {
                let kind = *ctx.pick(&["dc", "csv"]);
                let form = ctx.choose(6);
                let (head, rows) = dc_rows(6);
                let d = if kind == "dc" { dc_bytes(&head, &rows) } else { csv(6).concat() };
                let z = match form {
                    0 => d.clone(),
                    1 => gzip(&d, 0, 6, 0),
                    2 => zst(&d, Zst { block: 50, frame: 0, single: false, sum: true, lit: false }),
                    3 => lz4_frame(&d, Lz4 { block: 65536, linked: false, block_sum: false, size: false, sum: true, raw: false, mix: false }),
                    4 => Zip::of(Member::new("in.dc", &d, 8)).bytes(),
                    _ => Zip::of(Member::new("in.csv", &d, 12)).bytes(),
                };
                if (form == 4) != (form >= 4 && kind == "dc") || (form == 0 && kind == "csv") {
                    return Ok(());
                }
                let step = if t { 1 } else { 16 };
                let at = (ctx.choose((z.len() - 1) / step + 1) * step).min(z.len() - 1);
                let stdin = form < 4 && ctx.flag();
                let two = !stdin && ctx.flag();
                let suffix = ["", ".gz", ".zst", ".lz4", ".zip", ".zip"][form];
                let dir = ctx.dir().to_path_buf();
                let w = |n: &str, b: &[u8]| std::fs::write(dir.join(n), b).map_err(|e| format!("ENGINE: {}", e));
                let (full, part) = (dir.join(format!("full.{}{}", kind, suffix)), dir.join(format!("part.{}{}", kind, suffix)));
                w(&format!("full.{}{}", kind, suffix), &z)?;
                w(&format!("part.{}{}", kind, suffix), &z[..at])?;
                let (full, part) = (full.to_string_lossy().to_string(), part.to_string_lossy().to_string());
                let f = format!(".{}{}", kind, suffix);
                let base = ["-E", "-g", "ns", "--csv-in-has-header", "yes"];
                let go = |a: &str| {
                    let mut args: Vec<&str> = base.to_vec();
                    if stdin {
                        args.extend(["-f", &f]);
                        let b = if a == part { z[..at].to_vec() } else { z.clone() };
                        chop(&args, &[], &b)
                    } else {
                        if two {
                            args.push(&full);
                        }
                        args.push(a);
                        chop(&args, &[], b"")
                    }
                };
                ctx.step(&(kind, form, at, stdin, two));
                let want = go(&full);
                let got = go(&part);
                ctx.outcome(&(got.code, &got.stdout));
                ctx.note(|| format!("{} {} cut at {}: {}", kind, suffix, at, got.text()));
                let how = || format!("chop, {}{} cut at byte {} of {}, stdin {}, two inputs {}", kind, suffix, at, z.len(), stdin, two);
                ensure!(want.code == Some(0), "chop on the whole input: {}", want.text());
                let proper = form == 0 && (0..=6).any(|k| dc_bytes(&head, &rows[..k]).len() == at);
                if proper {
                    ensure!(got.code == Some(0), "{}: {}", how(), got.text());
                    return Ok(());
                }
                ensure!(!got.crashed(), "{}: {}", how(), got.text());
                ensure!(got.code != Some(0), "{}: reported success: {}", how(), got.text());
                ensure!(!got.stderr.is_empty(), "{}: no message", how());
                if !two {
                    ensure!(want.stdout.starts_with(&got.stdout), "{}: output is not a prefix: {}", how(), got.text());
                }
                Ok(())
            },
        );
        let vast = cases(if t { 30_000 } else { 8_000 });
        let v2 = vast.clone();
        c.scenario(
            "large",
            "the same of 8000 (thorough 30000) rows, 430 KB to 1.6 MB x an error (persistent or once) or a cut at 60 positions: around every \
             power of two from 2^15 and 3/2 of it, at every 17th part of the length, 1, 2, 5, 9, 22, 100, 1000 bytes before the end",
            0,
            move |ctx| {
                let c = &v2[ctx.choose(n)];
                let len = c.bytes().len();
                let mut ps: Vec<usize> = Vec::new();
                for k in 15..22 {
                    ps.extend([(1 << k) - 1, 1 << k, (1 << k) + 1, 3 << (k - 1)]);
                }
                ps.extend((1..17).map(|i| len / 17 * i));
                ps.extend([1, 2, 5, 9, 22, 100, 1000].iter().map(|i| len.saturating_sub(*i)));
                ps.retain(|p| *p > 8200 && *p < len);
                ps.sort();
                ps.dedup();
                if ps.is_empty() {
                    return Ok(());
                }
                let at = *ctx.pick(&ps);
                match ctx.choose(3) {
                    0 => fault(ctx, c, at, ErrorKind::Other, false, usize::MAX),
                    1 => fault(ctx, c, at, ErrorKind::UnexpectedEof, true, 100_000),
                    _ if c.name == "csv" => Ok(()),
                    _ => cut(ctx, c, at),
                }
            },
        );
        drop(vast);
        let chl = checked(if t { 4000 } else { 1200 });
        let m = chl.len();
        c.scenario(
            "large-damage",
            "inputs with checksums as above, of 4800 or 6000 rows (thorough 16000, 20000) x one bit changed at each 47th part of the bytes whose change must be \
             noticed, at the first and at the last 8 of them",
            0,
            move |ctx| {
                let (c, s) = &chl[ctx.choose(m)];
                let s = spots(s);
                let mut ps: Vec<usize> = (0..47).map(|i| i * s.len() / 47).collect();
                ps.extend(s.len() - 8..s.len());
                let i = *ctx.pick(&ps);
                let x = 1 << ctx.choose(2) * 5;
                damage(ctx, c, &[(s[i], x)])
            },
        );
        c.scenario(
            "bad-row",
            "a CSV (comma or tab, with a header) with one row that cannot be read, as the 1st to 4th, 50th, 100th to 103rd, 128th to 130th, 255th to 258th, 1000th, \
             1024th to 1026th or 5000th, of 4 kinds (invalid UTF-8, more cells than columns, a time that is none, no time cell), in 3 formats of time, as the last \
             row or followed by 1 or 200, read by the library or chop: an error, with a message and a status of its own, and no row but the ones before",
            0,
            move |ctx| {
                let ks = [0usize, 1, 2, 3, 49, 99, 100, 101, 102, 127, 128, 129, 254, 255, 256, 257, 999, 1023, 1024, 1025, 4999];
                let k = *ctx.pick(&ks);
                let kind = ctx.choose(4);
                let fmt = ctx.choose(3);
                let after = *ctx.pick(&[0usize, 1, 200]);
                let d = if (k + after + fmt) % 2 == 0 { ',' } else { '\t' };
                let by_chop = ctx.flag();
                let names = ["timeSeconds", "time", "ms"][fmt];
                let time = |i: usize| match fmt {
                    0 => (1_546_300_800 + i).to_string(),
                    1 => format!("2019-01-01 {:02}:{:02}:{:02}", i / 3600, i / 60 % 60, i % 60),
                    _ => format!("2019/01/01 {:02}.{:02}.{:02}", i / 3600, i / 60 % 60, i % 60),
                };
                let mut b = format!("w{}{}{0}v\n", d, names).into_bytes();
                let mut good = 0;
                for i in 0..k + 1 + after {
                    if i != k {
                        b.extend(format!("r{}{}{}{1}x\n", i, d, time(i)).into_bytes());
                        good += (i < k) as usize;
                        continue;
                    }
                    b.extend(match kind {
                        0 => [b"a\xff".to_vec(), format!("{}{}{0}x\n", d, time(i)).into_bytes()].concat(),
                        1 => format!("a{}{}{0}x{0}y\n", d, time(i)).into_bytes(),
                        2 => format!("a{}none{0}x\n", d).into_bytes(),
                        _ => b"a\n".to_vec(),
                    });
                }
                ctx.step(&(k, kind, fmt, after, by_chop));
                let p = ctx.dir().join("bad.csv");
                std::fs::write(&p, &b).expect("ENGINE: cannot write");
                let p = p.to_str().unwrap();
                let what = || format!("row {} of kind {}, then {}, time as {:?}, {:?}", k, kind, after, time(0), d);
                if by_chop {
                    let ds = d.to_string();
                    let mut args = vec!["-E", "-z", "UTC", "--csv-in-has-header", "yes", "--csv-in-delimiter", &ds, "--csv-in-ts-col", "1", p];
                    if fmt == 2 {
                        args.extend(["--csv-in-ts-fmt", "%Y/%m/%d %H.%M.%S"]);
                    }
                    let o = chop(&args, &[], b"");
                    let how = || format!("{}: {:?}: {}", what(), args, o.text());
                    ctx.outcome(&(o.code, o.stdout.len()));
                    ctx.note(how);
                    ensure!(!o.crashed() && o.code != Some(0), "not reported: {}", how());
                    ensure!(o.stderr.iter().any(|b| !b.is_ascii_whitespace()), "no message: {}", how());
                    let lines = o.stdout_text().lines().count();
                    ensure!(lines <= good + 1, "{} lines: {}", lines, how());
                    return Ok(());
                }
                use chopper::source::csv_configs::*;
                let tf = if fmt == 2 { TimestampFmtConfig::Explicit("%Y/%m/%d %H.%M.%S".to_string()) } else { TimestampFmtConfig::Auto };
                let zone = if fmt == 0 { mc::time::Zone::None } else { mc::time::Zone::Utc };
                let ts = TimestampConfig::new(TimestampColConfig::Index(1), tf, zone.tz());
                let cf = CSVInputConfig::new(Some(&d.to_string()), YesNoAuto::Yes, ts).map_err(|e| err_text(&e))?;
                let mut f = InputFactory::new(cf, None, None).map_err(|e| err_text(&e))?;
                let got = open_and_read(f.create_source_from_path(p));
                ctx.outcome(&got.as_ref().map(|g| (g.rows.len(), g.err.is_some())).map_err(|_| ()));
                ctx.note(|| format!("{}: {}", what(), brief(&got)));
                if let Ok(g) = &got {
                    ensure!(g.err.is_some(), "{}: not reported: {}", what(), brief(&got));
                    ensure!(g.rows.len() <= good, "{}: {}", what(), brief(&got));
                    let right = g.rows.iter().enumerate().all(|(i, r)| r.1[0] == V::S(format!("r{}", i)));
                    ensure!(right, "{}: rows changed: {}", what(), brief(&got));
                }
                Ok(())
            },
        );
        c.scenario(
            "status",
            "chop on 8 inputs that cannot be read (a packed one cut or damaged, a binary one cut, unknown in type or version, a directory in place of a file in an archive, a \
             missing or unreadable file, one of no known format), alone, before or after a proper one, with rows to standard output or a file, with or without \
             --backtrace: an error with a message",
            0,
            move |ctx| {
                let (head, rows) = dc_rows(30);
                let bin = dc_bytes(&head, &rows);
                let text = csv(300).concat();
                let z = gzip(&text, 0, 6, 0);
                let ps = packers();
                let pack = |n: &str| ps.iter().find(|p| p.name == n).map(|p| (p.pack)(&text)).unwrap_or_default();
                let cut = |b: &[u8]| b[..b.len() - 3].to_vec();
                let flip = |mut b: Vec<u8>, at: usize| {
                    b[at] ^= 0x11;
                    b
                };
                let n = z.len();
                let bad: [(&str, Vec<u8>); 11] = [
                    ("cut.csv.gz", cut(&z)),
                    ("crc.csv.gz", flip(z.clone(), n - 6)),
                    ("cut.csv.zst", cut(&pack("zstd"))),
                    ("cut.csv.lz4", cut(&pack("lz4"))),
                    ("cut.csv.lzf", cut(&pack("lzf"))),
                    ("cut.dc", cut(&bin)),
                    ("version.dc", flip(bin.clone(), 9)),
                    ("cut.zip", cut(&Zip::of(Member::new("a.csv", &text, 8)).bytes())),
                    ("none.csv", vec![]),
                    ("x.unknown", b"\xff\xfe\0\0\x01".to_vec()),
                    ("dir.csv/missing.csv", vec![]),
                ];
                let (name, b) = &bad[ctx.choose(bad.len())];
                let place = ctx.choose(3);
                let to_file = ctx.flag();
                let trace = ctx.flag();
                let dir = ctx.fresh_dir();
                std::fs::write(dir.join("good.csv"), csv(5).concat()).expect("ENGINE: cannot write");
                std::fs::create_dir(dir.join("dir.csv")).expect("ENGINE: cannot make directory");
                if !b.is_empty() {
                    std::fs::write(dir.join(name), b).expect("ENGINE: cannot write");
                }
                let path = |n: &str| dir.join(n).to_str().unwrap().to_string();
                let mut args: Vec<String> = ["-E", "--csv-in-has-header", "yes"].iter().map(|s| s.to_string()).collect();
                args.extend(match place {
                    0 => vec![path(name)],
                    1 => vec![path(name), path("good.csv")],
                    _ => vec![path("good.csv"), path(name)],
                });
                if to_file {
                    args.extend(["-o".to_string(), path("o.csv")]);
                }
                if trace {
                    args.push("--backtrace".to_string());
                }
                let args: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
                let o = chop(&args, &[], b"");
                let how = || format!("{:?}: {}", args, o.text());
                ctx.step(&(name, place, to_file, trace));
                ctx.outcome(&(name, o.code));
                ctx.note(how);
                ensure!(!o.crashed() && o.code != Some(0), "not reported: {}", how());
                ensure!(o.stderr.iter().any(|b| !b.is_ascii_whitespace()), "no message: {}", how());
                Ok(())
            },
        );
        let files = cases(if t { 210 } else { 12 });
        let long = cases(if t { 2000 } else { 210 });
        let calls: Arc<Vec<OnceLock<(usize, String)>>> = Arc::new((0..2 * n + 4).map(|_| Default::default()).collect());
        let calls2 = calls.clone();
        c.scenario(
            "system-calls",
            "CSV and DC of 12 (thorough 210) and 210 (thorough 2000) rows, plain, in 34 packed forms and 6 zips, in a file given by path x \
             each call of stat, open, lseek and read failing (with EIO, EACCES or ESTALE; this call or this and all later ones)",
            0,
            move |ctx| {
                let i = ctx.choose(2 * n);
                let c = if i < n { &files[i] } else { &long[i - n] };
                let name = if c.zip { "in.zip".to_string() } else { format!("in.{}{}", c.kind, c.suffix) };
                let path = ctx.fresh_dir().join(name);
                std::fs::write(&path, c.bytes()).expect("ENGINE: cannot write");
                on_disk(ctx, &calls[i], path.to_str().unwrap(), &|| c.name.clone(), Some(&c.whole()))
            },
        );
        let of = cases(if t { 40 } else { 12 });
        c.scenario(
            "system-calls-directory",
            "a directory of 1, 3, 5 or 40 files (csv in its forms, zip; then a sub-directory) of 12 (thorough 40) rows x each call of stat, opendir, \
             readdir, open, lseek and read failing (with EIO, EACCES or ESTALE; this call or this and all later ones)",
            0,
            move |ctx| {
                let i = ctx.choose(4);
                let k = [1usize, 3, 5, 40][i];
                let dir = ctx.fresh_dir();
                let csvs: Vec<&Case> = of.iter().filter(|c| c.kind == "csv").collect();
                for j in 0..k {
                    let c = csvs[if k == 40 { 0 } else { j * 7 % csvs.len() }];
                    let c = if j == 2 && k < 40 { csvs.iter().find(|c| c.zip).unwrap() } else { c };
                    let name = if c.zip { format!("{:03}.zip", j) } else { format!("{:03}.{}{}", j, c.kind, if k == 40 { "" } else { c.suffix }) };
                    let b = if k == 40 { b"timeSeconds,word\n1546300800,w\n".to_vec() } else { c.bytes() };
                    std::fs::write(dir.join(name), b).expect("ENGINE: cannot write");
                }
                std::fs::create_dir(dir.join("sub")).expect("ENGINE: cannot make directory");
                on_disk(ctx, &calls2[2 * n + i], dir.to_str().unwrap(), &|| format!("directory of {} files", k), None)
            },
        );
    });
}
