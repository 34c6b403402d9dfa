//! C13: malformed input yields an error: no crash, hang or memory blow-up.
use std::io::Cursor;
use std::sync::Arc;

use chopper::chopper::chopper::Source;
use chopper::chopper::types::FieldType;
use chopper::cli::util::YesNoAuto;
use chopper::decompress::zip;
use chopper::error::{CliResult, Error};
use chopper::input::input::{Input, InputFormat, InputType};
use chopper::input::input_factory::InputFactory;
use chopper::source::csv_configs::*;
use chopper::source::csv_timestamp::TimestampUnits;
use chopper::util::tz::ChopperTz;
use mc::alloc;
use mc::kit::*;
use mc::pack::*;
use mc::*;

fn tz(utc: bool) -> ChopperTz {
    if utc {
        ChopperTz::from(chrono_tz::UTC)
    } else {
        ChopperTz::new_always_fails()
    }
}

/// What an execution may use: a fixed amount and some multiple of the input.
fn allowance(input: usize) -> i64 {
    (3 << 20) + 300 * input as i64
}

/// Opens and reads to the end, checking number of rows and memory. Crashes and hangs are noticed by
/// the engine.
fn drain(
    ctx: &mut Ctx,
    what: &dyn Fn() -> String,
    input: usize,
    blown: usize, // most bytes the input can hold once unpacked
    output: bool,
    open: &mut dyn FnMut() -> CliResult<Box<dyn Source>>,
) -> Res {
    let live = alloc::live();
    alloc::reset_peak();
    let end: Result<(usize, Option<String>), String> = match open() {
        Err(e) => Err(err_text(&e)),
        Ok(mut s) => {
            let mut head = s.header().clone();
            let width = head.field_names().len();
            ensure!(width == head.field_types().len(), "{}: {} names, {} types", what(), width, head.field_types().len());
            let mut sink = if output {
                use chopper::chopper::chopper::HeaderSink;
                let cfg = CSVOutputConfig::new(
                    ",",
                    true,
                    None,
                    TimestampStyle::HumanReadable,
                    TimestampUnits::Nanos,
                    tz(true),
                );
                let p = ctx.dir().join("o.csv").to_string_lossy().to_string();
                let k = chopper::write::csv_sink::CSVSink::new(&Some(p), cfg).map_err(|e| format!("ENGINE: {}", err_text(&e)))?;
                Box::new(k).process_header(&mut head).ok()
            } else {
                None
            };
            let mut n = 0;
            loop {
                match s.next_row() {
                    Ok(Some(r)) => {
                        n += 1;
                        ensure!(r.field_values.len() == width, "{}: row of {} values for {} columns", what(), r.field_values.len(), width);
                        ensure!(n <= blown + 1, "{}: {} rows from an input that can hold {} bytes at most", what(), n, blown);
                        if let Some(k) = &mut sink {
                            if k.write_row(&mut vec![r]).is_err() {
                                sink = None;
                            }
                        }
                    }
                    Ok(None) => break Ok((n, None)),
                    Err(e) => break Ok((n, Some(err_text(&e)))),
                }
            }
        }
    };
    let used = alloc::peak() - live;
    ctx.outcome(&end);
    ctx.note(|| format!("{}: {:?}, {} bytes of memory for {} bytes of input", what(), end, used, input));
    ensure!(
        used <= allowance(blown.max(input)),
        "{}: {} bytes of memory in use for an input of {} bytes ({:?})",
        what(),
        used,
        input,
        end
    );
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// CSV

fn csv_cfg(header: YesNoAuto, delimiter: Option<&str>, col: TimestampColConfig, fmt: TimestampFmtConfig, utc: bool) -> Result<CSVInputConfig, String> {
    CSVInputConfig::new(delimiter, header, TimestampConfig::new(col, fmt, tz(utc))).map_err(|e| format!("ENGINE: {}", err_text(&e)))
}

fn csv_all(ctx: &mut Ctx, bytes: Vec<u8>, output: bool) -> Res {
    let header = *ctx.pick(&[0usize, 1, 2]);
    let header = || match header {
        0 => YesNoAuto::Yes,
        1 => YesNoAuto::No,
        _ => YesNoAuto::Auto,
    };
    let fixed = ctx.flag();
    csv_run(ctx, bytes, output, &|| csv_cfg(header(), if fixed { Some(",") } else { None }, TimestampColConfig::Auto, TimestampFmtConfig::Auto, true))
}

fn csv_run(ctx: &mut Ctx, bytes: Vec<u8>, output: bool, cfg: &dyn Fn() -> Result<CSVInputConfig, String>) -> Res {
    ctx.step(&bytes);
    let n = bytes.len();
    let show = bytes[..n.min(120)].to_vec();
    let what = move || format!("CSV of {} bytes {:?}", n, String::from_utf8_lossy(&show));
    let cfg = cfg()?;
    drain(ctx, &what, n, n, output, &mut || csv_source(&bytes, &cfg))
}

// ---------------------------------------------------------------------------------------------
// damage

/// The same damages for every binary format.
#[derive(Clone, Copy, Debug)]
enum Damage {
    Byte(usize, u8),
    Word(usize, usize, u64, bool),
    Cut(usize),
    Drop(usize, usize),
    Repeat(usize, usize),
}

const EXTREME: [u64; 12] = [
    0,
    1,
    2,
    0x7f,
    0x80,
    0x7fff,
    0x8000,
    0xfffe,
    0x0100_0000,
    0x7fff_ffff,
    0x8000_0000,
    u64::MAX,
];

fn apply(z: &[u8], d: Damage) -> Vec<u8> {
    let mut z = z.to_vec();
    match d {
        Damage::Byte(at, x) => z[at] ^= x,
        Damage::Word(at, n, x, be) => {
            let b = if be { x.to_be_bytes()[8 - n..].to_vec() } else { x.to_le_bytes()[..n].to_vec() };
            for i in 0..n {
                if at + i < z.len() {
                    z[at + i] = b[i];
                }
            }
        }
        Damage::Cut(at) => z.truncate(at),
        Damage::Drop(at, n) => {
            let e = (at + n).min(z.len());
            z.drain(at..e);
        }
        Damage::Repeat(at, n) => {
            let e = (at + n).min(z.len());
            let p = z[at..e].to_vec();
            z.splice(e..e, p);
        }
    }
    z
}

fn damage(ctx: &mut Ctx, len: usize, all: bool) -> Damage {
    match ctx.choose(5) {
        0 => Damage::Byte(ctx.choose(len), if all { 1 + ctx.choose(255) as u8 } else { *ctx.pick(&[1, 2, 4, 8, 16, 32, 64, 128, 255]) }),
        1 => {
            let at = ctx.choose(len);
            let n = *ctx.pick(&[2, 4, 8]);
            Damage::Word(at, n, *ctx.pick(&EXTREME), ctx.flag())
        }
        2 => Damage::Cut(ctx.choose(len)),
        3 => Damage::Drop(ctx.choose(len), 1 + ctx.choose(9)),
        _ => Damage::Repeat(ctx.choose(len), 1 + ctx.choose(9)),
    }
}

struct Sample {
    name: String,
    bytes: Vec<u8>,
    format: &'static str,
    inner: usize,
}

fn read_sample(ctx: &mut Ctx, s: &Sample, z: Vec<u8>, how: String, file: bool, output: bool) -> Res {
    ctx.step(&(&s.name, &z, file));
    let n = z.len();
    // what the damaged input may unpack to, generously
    let limit = if s.format == ".dc" || s.format == ".csv" {
        n
    } else if s.name.contains("method 12") {
        // a run-length coded block of 900 KB
        50_000_000 / 300
    } else {
        (s.inner + n) * 40
    };
    let what = || format!("{}, {}", s.name, how);
    let cfg = plain_cfg(YesNoAuto::Yes);
    let path = ctx.dir().join(format!("x{}", s.format));
    if file {
        std::fs::write(&path, &z).map_err(|e| format!("ENGINE: {}", e))?;
    }
    drain(ctx, &what, n, limit, output, &mut || {
        if file {
            let mut f = InputFactory::new(cfg.clone(), None, None)?;
            f.create_source_from_input(&Input { input: InputType::Path(path.to_string_lossy().to_string()), format: InputFormat::Auto })
        } else if s.format == ".zip" {
            let (r, name) = zip::new_reader_for_single_file_zip_archive(Cursor::new(z.clone())).map_err(Error::from)?;
            // only the archive is malformed; do not take the content for something else
            let f = if name.contains("csv") { ".csv" } else { ".dc" };
            open_stream(r, None, Some(f), cfg.clone())
        } else {
            open_stream(Box::new(Cursor::new(z.clone())), None, Some(s.format), cfg.clone())
        }
    })
}

fn dc_samples() -> Vec<Sample> {
    use FieldType::*;
    let all = [Byte, Char, Double, Float, Int, Long, Short, String];
    let val = |t: FieldType| match t {
        Byte => V::Byte(200),
        Char => V::Char(65),
        Double => V::D(1.5f64.to_bits()),
        Float => V::F(1.5f32.to_bits()),
        Int => V::I(-3),
        Long => V::L(1 << 40),
        Short => V::Sh(-4),
        _ => V::S("abé".into()),
    };
    let mut r = Vec::new();
    let mut add = |name: &str, bytes: Vec<u8>| {
        r.push(Sample { name: format!("DC {}", name), inner: bytes.len(), bytes, format: ".dc" });
    };
    let h = H { names: all.iter().enumerate().map(|(i, _)| format!("c{}", i)).collect(), types: all.to_vec() };
    let rows: Vec<R> = vec![(1, all.iter().map(|t| val(*t)).collect()), (2, all.iter().map(|_| V::N).collect())];
    add("of all types", dc_bytes(&h, &rows));
    let h = H::new(&[("a", String), ("", String)]);
    add("of strings", dc_bytes(&h, &[(u64::MAX, vec![V::S("x".into()), V::S("yé".into())]), (3, vec![V::N, V::S("".into())])]));
    add("without columns", dc_bytes(&H::new(&[]), &[(1, vec![]), (2, vec![])]));
    add("with unsupported columns", dc_bytes(&H::new(&[("b", Boolean), ("u", ByteBuf), ("i", Int)]), &[(1, vec![V::N, V::N, V::I(1)]), (2, vec![V::Bool(true), V::N, V::N])]));
    let long = "z".repeat(33000);
    add("with a long string", dc_bytes(&H::new(&[("s", String)]), &[(1, vec![V::S(long)])]));
    let nine = H { names: (0..9).map(|i| format!("{}", i)).collect(), types: vec![Short; 9] };
    add("of 9 columns", dc_bytes(&nine, &[(1, vec![V::N; 9]), (2, (0..9).map(V::Sh).collect())]));
    r
}

fn gzip_samples() -> Vec<Sample> {
    let mut r = Vec::new();
    for kind in [".csv.gz", ".dc.gz"] {
        let d = if kind == ".csv.gz" { sample_csv(200).0 } else { sample_dc(6).0 };
        let mut add = |name: &str, bytes: Vec<u8>| r.push(Sample { name: format!("gzip {} {}", kind, name), inner: d.len(), bytes, format: kind });
        add("", gzip(&d, 0, 6, 0));
        add("with all header fields", gzip(&d, 0, 9, 31));
        add("of two members", gzip(&d, d.len() / 2 + 1, 0, 8));
        add("of nothing", gzip(b"", 0, 6, 0));
    }
    r
}

fn zip_samples() -> Vec<Sample> {
    let mut r = Vec::new();
    for kind in ["csv", "dc"] {
        let d = if kind == "csv" { sample_csv(120).0 } else { sample_dc(4).0 };
        for m in [0u16, 8, 12] {
            for full in [false, true] {
                let mut e = Member::new(&format!("in.{}", kind), &d, m);
                let mut z = Zip::default();
                if full {
                    e.extra_central = vec![9, 9, 2, 0, 1, 1];
                    e.extra_local = vec![7, 7, 1, 0, 1];
                    e.comment = b"member".to_vec();
                    e.zip64 = 15;
                    e.flags = 0x808;
                    z.comment = b"PK\x05\x06 comment".to_vec();
                    z.zip64 = 3;
                }
                z.members = vec![e];
                let bytes = z.bytes();
                r.push(Sample {
                    name: format!("zip of {} method {}{}", kind, m, if full { " with all records" } else { "" }),
                    inner: d.len(),
                    bytes,
                    format: ".zip",
                });
            }
        }
    }
    r
}

fn main() {
    mc::main("C13", Level::ModelChecking, |c| {
        let t = c.thorough;
        c.assume("the lzf, lz4 and zstd decoders are not part of the statement");

        c.scenario(
            "csv-strings",
            "every string of up to 4 (thorough 6) symbols out of comma, quote, LF, CR, blank, tab, 1, a, byte ff, bytes c3 a9, NUL as CSV x 3 header modes x delimiter given or guessed",
            0,
            move |ctx| {
                let syms: [&[u8]; 11] = [b",", b"\"", b"\n", b"\r", b" ", b"\t", b"1", b"a", b"\xff", b"\xc3\xa9", b"\0"];
                let n = ctx.choose(if t { 7 } else { 5 });
                let mut b = Vec::new();
                for _ in 0..n {
                    b.extend(*ctx.pick(&syms));
                }
                csv_all(ctx, b, false)
            },
        );
        c.scenario(
            "csv-tokens",
            "every sequence of up to 4 (thorough 5) tokens (dates, epochs, huge numbers, names of time columns, separators, broken UTF-8, byte order mark) as CSV, also written to CSV again",
            0,
            move |ctx| {
                let toks: [&[u8]; 15] = [
                    b"timeSeconds",
                    b"date,time",
                    b"1546300800",
                    b"99999999999999999999",
                    b"2019-01-01 00:00:00",
                    b"2019-01-01",
                    b"-1",
                    b"1e400",
                    "é€\u{1F600}".as_bytes(),
                    b"\"a\"\"b\n",
                    b"\xe2\x82",
                    b"\xef\xbb\xbf",
                    b",",
                    b"\n",
                    b"\r\n",
                ];
                let n = ctx.choose(if t { 6 } else { 5 });
                let mut b = Vec::new();
                for _ in 0..n {
                    b.extend(*ctx.pick(&toks));
                }
                csv_all(ctx, b, t && n < 5)
            },
        );
        c.scenario(
            "csv-time-cells",
            "19 odd cells x every time format, unit and column selection of the configuration, in first and second row",
            0,
            move |ctx| {
                let cells = [
                    "", " ", "1", "-1", "0", "99999999999999999999", "18446744073709551615", "9223372036854775808", "1e9",
                    "2019-01-01", "2019-13-45", "99999-01-01 00:00:00", "0000-00-00 00:00:00", "é", "1546300800é", "\u{1F600}\u{1F600}\u{1F600}\u{1F600}\u{1F600}",
                    "2019-01-01T00:00:00+99:99", "2262-04-12 00:00:00", "1546300800000000000000",
                ];
                let (a, b) = (*ctx.pick(&cells), *ctx.pick(&cells));
                let cols = [
                    TimestampColConfig::Auto,
                    TimestampColConfig::Index(0),
                    TimestampColConfig::Index(7),
                    TimestampColConfig::DateTimeIndex(0, 1),
                    TimestampColConfig::DateTimeIndex(1, 9),
                    TimestampColConfig::Name("time".to_string()),
                    TimestampColConfig::Name("".to_string()),
                    TimestampColConfig::DateTimeName("date".to_string(), "time".to_string()),
                ];
                let fmts = [
                    TimestampFmtConfig::Auto,
                    TimestampFmtConfig::Epoch(TimestampUnits::Seconds),
                    TimestampFmtConfig::Epoch(TimestampUnits::Millis),
                    TimestampFmtConfig::Epoch(TimestampUnits::Nanos),
                    TimestampFmtConfig::Explicit("%Y-%m-%d %H:%M:%S".to_string()),
                    TimestampFmtConfig::Explicit("%Y-%m-%d".to_string()),
                    TimestampFmtConfig::Explicit("%s".to_string()),
                    TimestampFmtConfig::Explicit("%Q%".to_string()),
                    TimestampFmtConfig::Explicit("".to_string()),
                    TimestampFmtConfig::Explicit("%Y-%m-%dT%H:%M:%S%z".to_string()),
                    TimestampFmtConfig::DateTimeExplicit("%Y-%m-%d".to_string(), "%H:%M".to_string()),
                    TimestampFmtConfig::DateTimeExplicit("%".to_string(), "é".to_string()),
                ];
                let (col, fmt) = (ctx.pick(&cols).clone(), ctx.pick(&fmts).clone());
                let utc = ctx.flag();
                let mk = move || csv_cfg(YesNoAuto::Yes, Some(","), col.clone(), fmt.clone(), utc);
                let text = format!("date,time,x\n{},{},1\n{},{},2\n", a, b, b, a);
                csv_run(ctx, text.into_bytes(), false, &mk)
            },
        );
        c.scenario(
            "csv-long",
            "each of 14 symbols, and each pair of them, repeated to 8190..=8194, 20000 and 300000 bytes, alone or after a header, x 3 header modes x delimiter given or guessed",
            0,
            move |ctx| {
                let syms: [&[u8]; 14] = [
                    b"a", b",", b"\"", b"\n", b"\r", b" ", b"1", b"\0", b"\xff", "é".as_bytes(), "€".as_bytes(), b"\"\"", b"\"\n", b"1546300800,",
                ];
                let unit = [*ctx.pick(&syms), if ctx.flag() { *ctx.pick(&syms) } else { b"" }].concat();
                let n = *ctx.pick(&[8190usize, 8191, 8192, 8193, 8194, 20000, 300_000]);
                if n > 20000 && !t && unit.len() > 1 {
                    return Ok(());
                }
                let mut b = if ctx.flag() { b"timeSeconds,a\n1546300800,".to_vec() } else { vec![] };
                while b.len() < n {
                    b.extend(&unit);
                }
                b.truncate(n);
                csv_all(ctx, b, false)
            },
        );
        c.scenario(
            "any-start",
            "every input of one or two bytes, and every byte after each prefix of the DC, gzip and zip signatures, without name or format, or as csv or dc",
            0,
            move |ctx| {
                let magics: [&[u8]; 3] = [&[0, 0, 0, 0, 0x44, 0x43, 0x41, 0x54, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0], &[0x1f, 0x8b, 8, 0, 1, 2, 3, 4, 0, 255, 3, 0], b"PK\x03\x04\x14\0\0\0\0\0"];
                let b = if ctx.flag() {
                    let m = *ctx.pick(&magics);
                    let k = ctx.choose(m.len() + 1);
                    let mut b = m[..k].to_vec();
                    b.push(ctx.choose(256) as u8);
                    b.extend(vec![*ctx.pick(&[0u8, 255]); ctx.choose(3) * 9]);
                    b
                } else {
                    let n = ctx.choose(3);
                    (0..n).map(|_| ctx.choose(256) as u8).collect()
                };
                let fmt = *ctx.pick(&[None, Some(".csv"), Some(".dc"), Some(".csv.gz"), Some(".dc.gz")]);
                ctx.step(&(&b, fmt));
                let cfg = plain_cfg(YesNoAuto::Auto);
                let n = b.len();
                let what = || format!("input {:x?} as {:?}", b, fmt);
                drain(ctx, &what, n, n * 1100 + 100, false, &mut || open_stream(Box::new(Cursor::new(b.clone())), None, fmt, cfg.clone()))
            },
        );

        type Samples = Arc<Vec<Sample>>;
        let formats: Vec<(&'static str, Samples)> = vec![
            ("dc", Arc::new(dc_samples())),
            ("gzip", Arc::new(gzip_samples())),
            ("zip", Arc::new(zip_samples())),
        ];
        for (name, ss) in formats {
            let n = ss.len();
            let s1 = ss.clone();
            c.scenario(
                &format!("{}-damage", name),
                "each sample x every byte x 9 (thorough 255) changes; every 2, 4, 8-byte word set to 12 extreme values in both byte orders; every cut; every stretch of up to 9 bytes removed or doubled",
                0,
                move |ctx| {
                    let s = &s1[ctx.choose(n)];
                    let len = s.bytes.len().min(if s.bytes.len() > 10000 { 120 } else { 2000 });
                    let d = damage(ctx, len, t);
                    let z = apply(&s.bytes, d);
                    let output = s.format == ".dc" && (t || matches!(d, Damage::Byte(..)));
                    read_sample(ctx, s, z, format!("{:?}", d), false, output)
                },
            );
            let s2 = ss.clone();
            c.scenario(
                &format!("{}-damage-pairs", name),
                "each sample x pairs of words of 2 or 4 bytes up to 24 bytes apart set to extreme values",
                0,
                move |ctx| {
                    let s = &s2[ctx.choose(n)];
                    let len = s.bytes.len().min(if t { 600 } else { 150 });
                    let from = if name == "zip" { s.bytes.len() - len } else { 0 };
                    let a = from + ctx.choose(len);
                    let b = a + 1 + ctx.choose(if t { 24 } else { 8 });
                    let vals: &[u64] = if t { &[0, 1, 0x7fff_ffff, 0x0100_0000, u64::MAX] } else { &[0, 0x7fff_ffff, u64::MAX] };
                    let be = name == "dc";
                    let n1 = *ctx.pick(&[2, 4]);
                    let z = apply(&s.bytes, Damage::Word(a, n1, *ctx.pick(vals), be));
                    if b >= z.len() {
                        return Ok(());
                    }
                    let z = apply(&z, Damage::Word(b, if n1 == 2 { 4 } else { 2 }, *ctx.pick(vals), be));
                    read_sample(ctx, s, z, format!("words at {} and {} changed", a, b), false, false)
                },
            );
            let s3 = ss.clone();
            c.scenario(
                &format!("{}-damaged-files", name),
                "each sample as a file, by path x every byte x 2 (thorough 9) changes, every word set to 12 extreme values (quick: 4-byte words), every cut",
                0,
                move |ctx| {
                    let s = &s3[ctx.choose(n)];
                    let len = s.bytes.len().min(if s.bytes.len() > 10000 { 60 } else { 2000 });
                    let d = match ctx.choose(3) {
                        0 => Damage::Byte(ctx.choose(len), *ctx.pick(if t { &[1, 2, 4, 8, 16, 32, 64, 128, 255] } else { &[1, 128] })),
                        1 => Damage::Word(ctx.choose(len), if t { *ctx.pick(&[2, 4, 8]) } else { 4 }, *ctx.pick(&EXTREME), name == "dc"),
                        _ => Damage::Cut(ctx.choose(len)),
                    };
                    let z = apply(&s.bytes, d);
                    read_sample(ctx, s, z, format!("{:?}", d), true, false)
                },
            );
        }
        c.scenario(
            "dc-declared-sizes",
            "every length and count field of a DC file set to 2^k-1, 2^k, 2^k+1 for all k x the file ending there or going on x up to 100 KB",
            0,
            move |ctx| {
                let k = ctx.choose(33);
                let v = ((1u64 << k) as i64 + ctx.choose(3) as i64 - 1) as u32;
                let field = ctx.choose(5);
                let tail = *ctx.pick(&[0usize, 1, 11, 12, 13, 100, 8192, 100_000]);
                let fill = *ctx.pick(&[0u8, b'I', 255]);
                let mut b = Vec::new();
                b.extend(0x4443_4154u64.to_be_bytes());
                b.extend(2u16.to_be_bytes());
                b.extend((if field == 0 { v } else { 0 }).to_be_bytes());
                if field >= 1 {
                    b.extend((if field == 1 { v } else { 1 }).to_be_bytes());
                }
                if field >= 2 {
                    b.extend((if field == 2 { v } else { 0 }).to_be_bytes());
                }
                if field >= 3 {
                    let s: &[u8] = b"Ljava.lang.String;";
                    b.extend((if field == 3 { v } else { s.len() as u32 }).to_be_bytes());
                    if field > 3 {
                        b.extend(s);
                    }
                }
                if field == 4 {
                    b.extend((-1i32).to_be_bytes());
                    b.extend(7u64.to_be_bytes());
                    b.push(0);
                    b.extend((-1i16).to_be_bytes());
                    b.extend(v.to_be_bytes());
                }
                b.extend(vec![fill; tail]);
                let s = Sample { name: format!("DC with field {} = {}", field, v), inner: b.len(), bytes: vec![], format: ".dc" };
                read_sample(ctx, &s, b, format!("then {} bytes {}", tail, fill), false, false)
            },
        );
        c.scenario(
            "zip-without-end",
            "a zip signature and up to 2 MB (by path: 300 KB) of zeros, blanks or signatures of other zip records",
            0,
            move |ctx| {
                let n = *ctx.pick(&[0usize, 1, 17, 18, 21, 22, 65556, 65557, 65558, 300_000, 2_000_000]);
                let fill = *ctx.pick(&[&b"\0"[..], b" ", b"PK\x05\x06", b"PK\x06\x07", b"PK\x01\x02", b"PK\x05\x06\0\0\0\0\x01\0\x01\0\xff\xff\0\0\xff\xff\0\0\xff\xff"]);
                let file = n <= 300_000 && ctx.flag();
                let mut z = b"PK\x03\x04".to_vec();
                while z.len() < n {
                    z.extend(fill);
                }
                let s = Sample { name: "zip without end".to_string(), inner: 100, bytes: vec![], format: ".zip" };
                read_sample(ctx, &s, z, format!("{} bytes {:?}", n, fill), file, false)
            },
        );
        let zs = zip_samples();
        c.scenario(
            "zip-declared-sizes",
            "sizes, lengths, counts and offsets of zip records (with and without zip64) set to extreme values, three at a time",
            0,
            move |ctx| {
                let s = &zs[ctx.choose(zs.len())];
                // end record: from the end; central header: search
                let z = s.bytes.clone();
                let find = |sig: &[u8]| z.windows(4).position(|w| w == sig);
                let mut fields: Vec<(usize, usize)> = Vec::new();
                let mut add = |sig: &[u8], fs: &[(usize, usize)]| {
                    if let Some(p) = find(sig) {
                        fields.extend(fs.iter().map(|(o, n)| (p + o, *n)));
                    }
                };
                add(b"PK\x01\x02", &[(8, 2), (10, 2), (16, 4), (20, 4), (24, 4), (28, 2), (30, 2), (32, 2), (34, 2), (42, 4)]);
                add(b"PK\x03\x04", &[(26, 2), (28, 2)]);
                add(b"PK\x06\x06", &[(4, 8), (16, 4), (20, 4), (24, 8), (32, 8), (40, 8), (48, 8)]);
                add(b"PK\x06\x07", &[(4, 4), (8, 8), (16, 4)]);
                add(b"PK\x05\x06", &[(4, 2), (6, 2), (8, 2), (10, 2), (12, 4), (16, 4), (20, 2)]);
                let vals: &[u64] = if t { &EXTREME } else { &[0, 1, 0x7fff_ffff, u64::MAX] };
                let mut z = z.clone();
                let mut k = 0;
                let mut how = Vec::new();
                for _ in 0..if t { 3 } else { 2 } {
                    if k >= fields.len() {
                        break;
                    }
                    k += ctx.choose(fields.len() - k + 1);
                    if k >= fields.len() {
                        break;
                    }
                    let (at, n) = fields[k];
                    let v = *ctx.pick(if t && how.len() == 2 { &[0u64, 1, u64::MAX][..] } else { vals });
                    z = apply(&z, Damage::Word(at, n, v, false));
                    how.push((at, n, v));
                    k += 1;
                }
                read_sample(ctx, s, z, format!("fields set {:?}", how), false, false)
            },
        );
    });
}
