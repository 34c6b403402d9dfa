//! C16: the input format is recognised by request, then name, then content.
use std::io::{Cursor, Read as _};

use chopper::chopper::chopper::Source;
use chopper::chopper::types::FieldType;
use chopper::cli::util::YesNoAuto;
use chopper::error::{CliResult, Error};
use chopper::input::input::{Input, InputFormat, InputType};
use chopper::input::input_factory::InputFactory;
use chopper::source::dc_source::DCSource;
use mc::kit::*;
use mc::pack::*;
use mc::*;

type Res1 = Result<mc::kit::Read, String>;

/// The data, how it is packed, and the bytes that result.
#[derive(Clone)]
struct Content {
    name: String,
    plain: Vec<u8>,
    pack: Option<&'static str>,
    bytes: Vec<u8>,
}

#[derive(Clone, Debug, PartialEq)]
enum Want {
    Csv(Vec<u8>),
    Dc(Vec<u8>),
    Error,
    Open,
}

const SUFFIXES: [&str; 5] = [".gz", ".lz4", ".lzf", ".zip", ".zst"];

/// The compression a content claims by its first bytes.
fn signature(b: &[u8]) -> Option<&'static str> {
    let sigs: [(&[u8], &'static str); 7] = [
        (b"\x1f\x8b\x08", ".gz"),
        (b"\x04\x22\x4d\x18", ".lz4"),
        (b"LZ4Block", ".lz4"),
        (b"ZV\x00", ".lzf"),
        (b"ZV\x01", ".lzf"),
        (b"PK\x03\x04", ".zip"),
        (b"\x28\xb5\x2f\xfd", ".zst"),
    ];
    sigs.iter().find(|s| b.starts_with(s.0)).map(|s| s.1)
}

/// Whether the part looked at ahead (complete lines in the first 8192 bytes) is text.
fn is_text(b: &[u8]) -> bool {
    let b = if b.len() < 8192 {
        b
    } else {
        let p = &b[..8192];
        &p[..p.iter().rposition(|&c| c == b'\n').map_or(0, |i| i + 1)]
    };
    std::str::from_utf8(b).is_ok()
}

fn by_content(b: &[u8]) -> Want {
    if b.starts_with(b"\0\0\0\0DCAT\0\x02") {
        Want::Dc(b.to_vec())
    } else if is_text(b) {
        Want::Csv(b.to_vec())
    } else {
        Want::Error
    }
}

fn unpack(c: &Content, suffix: &str) -> Result<Vec<u8>, Want> {
    if c.pack == Some(suffix) && suffix != ".zip" {
        Ok(c.plain.clone())
    } else if c.bytes.is_empty() {
        Err(Want::Open) // nothing at all is data of no packing in particular
    } else {
        Err(Want::Error)
    }
}

fn decide(format: Option<&str>, name: Option<&str>, c: &Content) -> Want {
    let requested = format.map(|f| if f.starts_with('.') { f.to_string() } else { format!(".{}", f) });
    let mut rest = match requested.as_ref().map(|s| s.as_str()).or(name) {
        Some(s) => s.to_string(),
        None => String::new(),
    };
    let mut b = c.bytes.clone();
    let mut unpacked = false;
    if let Some(s) = SUFFIXES.iter().find(|s| rest.ends_with(**s)) {
        rest.truncate(rest.len() - s.len());
        unpacked = true;
        b = match unpack(c, s) {
            Ok(b) => b,
            // an error in any case if what is left is unknown
            Err(w) => return if requested.is_some() && rest != ".csv" && rest != ".dc" { Want::Error } else { w },
        };
    }
    if requested.is_some() {
        return match rest.as_str() {
            ".csv" => Want::Csv(b),
            ".dc" => Want::Dc(b),
            _ => Want::Error,
        };
    }
    if rest.ends_with(".csv") {
        return Want::Csv(b);
    }
    if rest.ends_with(".dc") {
        return Want::Dc(b);
    }
    if !unpacked {
        if let Some(s) = signature(&b) {
            b = match unpack(c, s) {
                Ok(b) => b,
                Err(w) => return w,
            };
        }
    }
    by_content(&b)
}

fn cfg() -> chopper::source::csv_configs::CSVInputConfig {
    plain_cfg(YesNoAuto::Yes)
}

fn direct(w: &Want) -> Option<Res1> {
    match w {
        Want::Csv(b) => Some(open_and_read(csv_source(b, &cfg()))),
        Want::Dc(b) => {
            let s = (|| -> CliResult<Box<dyn Source>> {
                let r: Box<dyn std::io::Read> = Box::new(Cursor::new(b.clone()));
                let p = chopper::util::reader::ChopperBufPreviewer::new(r).map_err(Error::from)?;
                Ok(Box::new(DCSource::new(p.get_reader())?))
            })();
            Some(open_and_read(s))
        }
        _ => None,
    }
}

fn judge(ctx: &mut Ctx, got: &Res1, want: &Want, what: &dyn Fn() -> String) -> Res {
    ctx.outcome(got);
    ctx.note(|| format!("{}: {}", what(), brief(got)));
    let full = |r: &Res1| matches!(r, Ok(x) if x.err.is_none());
    match direct(want) {
        None => {
            if *want == Want::Error {
                ensure!(!full(got), "{}: read without any error: {}", what(), brief(got));
            }
        }
        Some(d) => {
            let kind = if matches!(want, Want::Csv(_)) { "csv" } else { "dc" };
            let same = match (got, &d) {
                // errors need not have the same text
                (Ok(a), Ok(b)) => a.header == b.header && a.rows == b.rows && a.err.is_some() == b.err.is_some(),
                (Err(_), Err(_)) => true,
                _ => false,
            };
            ensure!(same, "{}: expected to be read as {} ({}), but: {}", what(), kind, brief(&d), brief(got));
        }
    }
    Ok(())
}

fn stream(format: Option<&str>, name: Option<&str>, bytes: &[u8]) -> Res1 {
    open_and_read(open_stream(Box::new(Cursor::new(bytes.to_vec())), name, format, cfg()))
}

fn from_path(path: &std::path::Path, format: Option<&str>) -> Res1 {
    let mut f = match InputFactory::new(cfg(), None, None) {
        Ok(f) => f,
        Err(e) => return Err(err_text(&e)),
    };
    open_and_read(match format {
        None => f.create_source_from_path(&path.to_string_lossy()),
        Some(x) => f.create_source_from_input(&Input {
            input: InputType::Path(path.to_string_lossy().to_string()),
            format: InputFormat::Extension(x.to_string()),
        }),
    })
}

/// DC data all of whose bytes are ASCII.
fn ascii_dc() -> Vec<u8> {
    let head = H::new(&[("word", FieldType::String)]);
    dc_bytes(&head, &[(1, vec![V::S("a,b".into())]), (2, vec![V::N]), (0x0a, vec![V::S("c".into())])])
}

fn plains() -> Vec<(&'static str, Vec<u8>)> {
    let mut long = b"timeSeconds,word\n1,".to_vec();
    long.resize(8191, b'x');
    long.extend("\u{e9}y\n2,z\n".as_bytes());
    vec![
        ("csv", b"timeSeconds,word\n1,a\n2,b\n".to_vec()),
        ("dc", sample_dc(5).0),
        ("csv-of-20k", sample_csv(20000).0),
        ("dc-of-20k", sample_dc(700).0),
        ("binary", b"timeSeconds,w\xff\xfe\n1,a\n".to_vec()),
        ("csv-with-character-across-8192", long),
        ("ascii-dc", ascii_dc()),
        ("dc-without-rows", sample_dc(0).0),
        ("csv-in-one-line-of-9k", [b"timeSeconds,".to_vec(), vec![b'y'; 9000]].concat()),
    ]
}

fn contents() -> Vec<Content> {
    let mut r = Vec::new();
    for (n, p) in plains() {
        r.push(Content { name: n.to_string(), plain: p.clone(), pack: None, bytes: p.clone() });
        for k in packers() {
            if !["gzip", "gzip-header-fields", "lz4", "lz4block", "lzf", "zstd"].contains(&k.name) {
                continue;
            }
            r.push(Content { name: format!("{} {}", n, k.name), plain: p.clone(), pack: Some(k.suffix), bytes: (k.pack)(&p) });
        }
        let z = Zip::of(Member::new("in.csv", &p, 8)).bytes();
        r.push(Content { name: format!("{} zip", n), plain: p.clone(), pack: Some(".zip"), bytes: z });
    }
    // packed data that itself starts like something packed, or is
    let inner: Vec<(String, Vec<u8>)> = [
        ("text-LZ4Block", &b"LZ4Block,timeSeconds\n1,2\n"[..]),
        ("text-PK34", b"PK\x03\x04,timeSeconds\n1,2\n"),
        ("text-ZV1", b"ZV\x01,timeSeconds\n1,2\n"),
        ("text-lz4", b"\x04\x22\x4d\x18,timeSeconds\n1,2\n"),
    ]
    .iter()
    .map(|(n, b)| (n.to_string(), b.to_vec()))
    .chain(packers().into_iter().filter(|k| ["gzip", "lz4", "lzf", "zstd"].contains(&k.name)).map(|k| {
        (format!("csv {}", k.name), (k.pack)(b"timeSeconds,word\n1,a\n2,b\n"))
    }))
    .collect();
    for (n, p) in inner {
        for k in packers() {
            if ["gzip", "lz4", "lz4block", "lzf", "zstd"].contains(&k.name) {
                r.push(Content { name: format!("{} {}", n, k.name), plain: p.clone(), pack: Some(k.suffix), bytes: (k.pack)(&p) });
            }
        }
    }
    for (n, b) in [
        ("empty", &b""[..]),
        ("newline", b"\n"),
        ("text-LZ4Block", b"timeSeconds,LZ4Block\n1,2\n"),
        ("starting-LZ4Block", b"LZ4Block,timeSeconds\n1,2\n"),
        ("starting-LZ4Bloc", b"LZ4Bloc,timeSeconds\n1,2\n"),
        ("starting-ZV1", b"ZV\x01,timeSeconds\n1,2\n"),
        ("starting-ZV2", b"ZV\x02,timeSeconds\n1,2\n"),
        ("starting-PK34", b"PK\x03\x04,timeSeconds\n1,2\n"),
        ("starting-PK56", b"PK\x05\x06,timeSeconds\n1,2\n"),
        ("starting-lz4", b"\x04\x22\x4d\x18,timeSeconds\n1,2\n"),
    ] {
        r.push(Content { name: n.to_string(), plain: b.to_vec(), pack: None, bytes: b.to_vec() });
    }
    r
}

/// First parts of names and formats, followed by nothing or one of the suffixes.
fn names() -> Vec<String> {
    let mut v = Vec::new();
    for b in [
        "a", "a.csv", "a.dc", ".csv", ".dc", "csv", "dc", "a.txt", "", "a.csv.dc", "a.dc.csv", "acsv", "adc",
        "a.csv.txt", "a.dc.txt", "a.csvx", "a.csv.gz", "a.dc.zst", "a.gz.csv", "a.zst.dc", "\u{e9}.csv", "\u{e9}.dc", "\u{e9}",
    ] {
        v.push(b.to_string());
        for s in SUFFIXES {
            v.push(format!("{}{}", b, s));
        }
    }
    for n in ["gz", "zst", "a.csvgz", "agz", "a.gzx", "a.GZ", "a.csv.gz.txt", "a.csv.tgz"] {
        v.push(n.to_string());
    }
    v
}

const FORMATS: [&str; 23] = [
    "csv", ".csv", "dc", ".dc", "csv.gz", ".csv.gz", "dc.gz", ".dc.lz4", "csv.lz4", "csv.lzf", "dc.zst", ".csv.zst",
    "gz", ".gz", "", ".", "CSV", "txt", "csv.zip", "csv.gz.gz", "xcsv", "csv ", "csv.txt",
];

fn main() {
    mc::main("C16", Level::ModelChecking, |c| {
        let t = c.thorough;
        let all: &'static Vec<Content> = Box::leak(Box::new(contents()));
        let all_names: &'static Vec<String> = Box::leak(Box::new(names()));
        c.scenario(
            "by-name-and-content",
            "a stream with any of 147 names (or none) and any of 122 contents: 9 data (csv, dc, binary, long, ...) plain and in 7 packings, data packed twice, and texts that start almost like a signature or like one",
            0,
            move |ctx| {
                let k = ctx.choose(all_names.len() + 1);
                let name = if k == 0 { None } else { Some(all_names[k - 1].as_str()) };
                let c = ctx.pick(all);
                ctx.step(&(&name, &c.name));
                let got = stream(None, name, &c.bytes);
                judge(ctx, &got, &decide(None, name, c), &|| format!("{} in a stream named {:?}", c.name, name))
            },
        );
        c.scenario(
            "by-request",
            "the same contents, 23 requested formats, names a.csv, a.dc, a.csv.gz, a.zst, none",
            0,
            move |ctx| {
                let f = *ctx.pick(&FORMATS);
                let name = *ctx.pick(&[None, Some("a.csv"), Some("a.dc"), Some("a.csv.gz"), Some("a.zst")]);
                let c = ctx.pick(all);
                ctx.step(&(f, &name, &c.name));
                let got = stream(Some(f), name, &c.bytes);
                judge(ctx, &got, &decide(Some(f), name, c), &|| {
                    format!("{} named {:?} with format {:?} requested", c.name, name, f)
                })
            },
        );
        c.scenario(
            "in-a-file",
            "the same as files below directories named d.dc.gz and e.csv, with and without a requested format (10), and inside a zip archive whose own name is any of 4",
            0,
            move |ctx| {
                let dir = ctx.fresh_dir();
                let zip = ctx.flag();
                let c = ctx.pick(all);
                let k = ctx.choose(if t { all_names.len() } else { 24 });
                let inner = if t { all_names[k].as_str() } else { all_names[k * 11 % all_names.len()].as_str() };
                let kf = ctx.choose(if zip || t { 4 } else { 2 });
                let f = [None, Some("csv"), Some(".dc"), Some("csv.gz")][kf];
                if inner.is_empty() || (c.pack == Some(".zip") && !zip) || (c.bytes.starts_with(b"PK\x03\x04") && !zip) {
                    return Ok(()); // an archive itself: the other half of this scenario
                }
                let sub = dir.join(["d.dc.gz", "e.csv"][(kf + k) % 2]);
                std::fs::create_dir_all(&sub).expect("ENGINE: directory");
                let (path, bytes) = if zip {
                    let outer = *ctx.pick(&["o.zip", "o", "o.dc", "o.csv.gz"]);
                    let method = if c.bytes.len() % 2 == 0 { 8 } else { 0 };
                    (sub.join(outer), Zip::of(Member::new(inner, &c.bytes, method)).bytes())
                } else {
                    (sub.join(inner), c.bytes.clone())
                };
                std::fs::write(&path, &bytes).expect("ENGINE: cannot write");
                ctx.step(&(&path.file_name(), inner, f, &c.name));
                let got = from_path(&path, f);
                judge(ctx, &got, &decide(f, Some(inner), c), &|| {
                    format!("{} in {}{:?}, requested {:?}", c.name, if zip { "an archive as " } else { "file " }, inner, f)
                })
            },
        );
        c.scenario(
            "any-character",
            "names with each of the characters 1 to 127 but / and 4 others before, between or after other parts (16 ways) x CSV, DC and packed CSV, as the name of a \
             stream, of a file and in an archive",
            0,
            move |ctx| {
                let chars: Vec<char> = (1u8..128).map(|b| b as char).filter(|c| *c != '/').chain("\u{e9}\u{2028}\u{1f600}\u{feff}".chars()).collect();
                let ch = *ctx.pick(&chars);
                let name = match ctx.choose(16) {
                    8 => format!("a.dc{}", ch),
                    9 => format!("a.dc{0}{0}", ch),
                    10 => format!("a.csv{0}{0}", ch),
                    11 => format!("a.csv.gz{}", ch),
                    12 => format!("a.csv{}.gz", ch),
                    13 => format!("a.{}dc", ch),
                    14 => format!("a{}dc", ch),
                    15 => format!("a{}csv", ch),
                    0 => format!("{}.csv", ch),
                    1 => format!("a.dc{}1.csv", ch),
                    2 => format!("a.csv{}x.dc", ch),
                    3 => format!("a{}b.csv.gz", ch),
                    4 => format!("a.csv{}", ch),
                    5 => format!("{}a.csv", ch),
                    6 => format!("a.{}csv", ch),
                    _ => format!("{}", ch),
                };
                let wanted = *ctx.pick(&["csv", "dc", "csv gzip"]);
                let c = all.iter().find(|c| c.name == wanted).ok_or("ENGINE: no such content")?;
                ctx.step(&(&name, &c.name));
                let got = match ctx.choose(3) {
                    0 => stream(None, Some(&name), &c.bytes),
                    k => {
                        if name == "." || name == ".." {
                            return Ok(());
                        }
                        let dir = ctx.fresh_dir();
                        let (p, b) = if k == 1 { (dir.join(&name), c.bytes.clone()) } else { (dir.join("o.zip"), Zip::of(Member::new(&name, &c.bytes, 8)).bytes()) };
                        std::fs::write(&p, b).expect("ENGINE: cannot write");
                        from_path(&p, None)
                    }
                };
                judge(ctx, &got, &decide(None, Some(&name), c), &|| format!("{} named {:?}", c.name, name))
            },
        );
        c.scenario(
            "signature-bytes",
            "each byte of each of 8 signatures changed to every value (quick: every 3rd), cut anywhere, followed by 3 tails, in streams without a deciding name",
            0,
            move |ctx| {
                let sigs: [&[u8]; 8] = [
                    b"\x1f\x8b\x08\x00",
                    b"\x04\x22\x4d\x18",
                    b"LZ4Block",
                    b"ZV\x00",
                    b"ZV\x01",
                    b"PK\x03\x04",
                    b"\x28\xb5\x2f\xfd",
                    b"\0\0\0\0DCAT\0\x02",
                ];
                let s = *ctx.pick(&sigs);
                let tail: &[u8] = [&b"abc,timeSeconds\n1,2\n"[..], b"\n", b""][ctx.choose(3)];
                let mut b = s.to_vec();
                let cut = ctx.choose(s.len() + 1);
                b.truncate(s.len() - cut);
                if cut == 0 {
                    let i = ctx.choose(s.len());
                    b[i] = if t { ctx.choose(256) as u8 } else { b[i].wrapping_add(3 * ctx.choose(86) as u8) };
                }
                b.extend(tail);
                if b.len() < 4 && signature(&b).is_some() {
                    return Ok(());
                }
                let name = *ctx.pick(&[None, Some("a"), Some("a.csv")]);
                ctx.step(&(&b, name));
                let c = Content { name: format!("{:?}", String::from_utf8_lossy(&b)), plain: vec![], pack: None, bytes: b };
                let got = stream(None, name, &c.bytes);
                judge(ctx, &got, &decide(None, name, &c), &|| format!("{} named {:?}", c.name, name))
            },
        );
        c.scenario(
            "dc-in-text-bytes",
            "DC data of ASCII bytes only with each byte of magic and version changed to each of 256 values (quick: 128)",
            0,
            move |ctx| {
                let mut b = ascii_dc();
                let i = ctx.choose(10);
                b[i] = if t { ctx.choose(256) as u8 } else { ctx.choose(128) as u8 };
                let name = *ctx.pick(&[None, Some("x"), Some("x.dc")]);
                ctx.step(&(&b, name));
                let c = Content { name: format!("DC data with byte {} as {:#x}", i, b[i]), plain: vec![], pack: None, bytes: b };
                let got = stream(None, name, &c.bytes);
                judge(ctx, &got, &decide(None, name, &c), &|| format!("{} named {:?}", c.name, name))
            },
        );
        c.scenario(
            "text-up-to-8192",
            "texts with an invalid byte (or a 2, 3 or 4 byte character) at each of 40 positions around the end of the preview and of its last line, in lines of 4 lengths",
            0,
            move |ctx| {
                let total = *ctx.pick(&[8100usize, 8190, 8191, 8192, 8193, 8300, 17000]);
                let line = *ctx.pick(&[19usize, 100, 4096, 9000]);
                let mut b = b"timeSeconds,word\n".to_vec();
                while b.len() < total {
                    let n = (total - b.len()).min(line);
                    let mut l = b"1,".to_vec();
                    l.resize(n.max(3) - 1, b'x');
                    l.push(b'\n');
                    b.extend(l);
                }
                let last = b[..b.len().min(8192)].iter().rposition(|&c| c == b'\n').unwrap_or(0);
                let mut at: Vec<usize> = (8180..8200).chain(last.saturating_sub(12)..last + 8).collect();
                at.extend([0, 5, 3000]);
                let at = *ctx.pick(&at);
                let ch = *ctx.pick(&[&b"\xff"[..], b"\xc3\xa9", b"\xe2\x82\xac", b"\xf0\x9f\x98\x80", b"\x80"]);
                if at + ch.len() > b.len() {
                    return Ok(());
                }
                if b[at..at + ch.len()].contains(&b'\n') {
                    return Ok(());
                }
                b[at..at + ch.len()].copy_from_slice(ch);
                // what is wrong in the unfinished line may be noticed or not
                let lines = b[..b.len().min(8192)].iter().rposition(|&c| c == b'\n').map_or(0, |i| i + 1);
                let vague = b.len() >= 8192 && at >= lines && at < 8192 && std::str::from_utf8(ch).is_err();
                let name = *ctx.pick(&[None, Some("x")]);
                ctx.step(&(total, line, at, ch, name));
                let c = Content {
                    name: format!("text of {} bytes in lines of {} with {:?} at {}", b.len(), line, ch, at),
                    plain: vec![],
                    pack: None,
                    bytes: b,
                };
                let got = stream(None, name, &c.bytes);
                let want = if vague { Want::Error } else { decide(None, name, &c) };
                judge(ctx, &got, &want, &|| format!("{} named {:?}", c.name, name))
            },
        );
        c.scenario(
            "standard-input",
            "each of the 122 contents on the standard input of the program, with no, csv, dc, csv.gz, dc.zst or any of 14 formats that are none of these",
            0,
            move |ctx| {
                let c = ctx.pick(all);
                let f = *ctx.pick(&[None, Some("csv"), Some("dc"), Some("csv.gz"), Some(".dc.zst"), Some("x"), Some("a"), Some("au"), Some("aut"),
                    Some("autos"), Some("AUTO"), Some("auto "), Some(".auto"), Some("c"), Some("cs"), Some("d"), Some("v"), Some("csv.auto"), Some("none")]);
                let mut args = vec!["--csv-in-has-header", "yes", "--print-time", "yes", "-E", "--csv-in-delimiter", ","];
                if let Some(f) = f {
                    args.extend(["-f", f]);
                }
                ctx.step(&(&c.name, f));
                let o = chop(&args, &[], &c.bytes);
                ctx.outcome(&o.code);
                ctx.note(|| format!("{} with {:?}: {}", c.name, f, o.text()));
                let want = decide(f, None, c);
                let d = direct(&want);
                let ok = matches!(&d, Some(Ok(x)) if x.err.is_none());
                if want != Want::Open {
                    ensure!(!o.crashed(), "{} on standard input, format {:?}: crashed: {}", c.name, f, o.text());
                    ensure!(
                        (o.code == Some(0)) == ok,
                        "{} on standard input, format {:?}: exit {:?}, expected {}: {}",
                        c.name,
                        f,
                        o.code,
                        if ok { "success" } else { "failure" },
                        o.text()
                    );
                    if let (true, Some(Ok(x))) = (ok, &d) {
                        let mut want = format!("timestamp,{}\n", x.header.names.join(","));
                        // only the times and the number of columns are compared
                        for r in &x.rows {
                            want += &format!("{},{}\n", r.0, r.1.len());
                        }
                        let mut text = String::new();
                        let _ = (&o.stdout[..]).read_to_string(&mut text);
                        let cells = |l: &str| l.split(',').next().unwrap_or("").to_string();
                        let a: Vec<String> = want.lines().skip(1).map(cells).collect();
                        let b: Vec<String> = text.lines().skip(1).map(cells).collect();
                        ensure!(a == b, "{} on standard input, format {:?}: {} lines of output, expected {}", c.name, f, b.len(), a.len());
                    }
                }
                Ok(())
            },
        );
        c.scenario(
            "dc-of-every-shape",
            "DC data of 0..=9 columns of 10 types, user headers of 0 to 9000 bytes, 0 to 1200 rows, plain or packed in 4 \
             ways, in streams named in 4 ways or not at all, or with a requested format",
            0,
            move |ctx| {
                use FieldType::*;
                let cols = [
                    ("a", Boolean), ("b", Byte), ("c", ByteBuf), ("d", Char), ("e", Double), ("f", Float), ("g", Int),
                    ("h", Long), ("i", Short), ("j", String),
                ];
                let first = ctx.choose(10);
                let n = *ctx.pick(&[0usize, 1, 2, 8, 9]);
                let user = *ctx.pick(&[0usize, 1, 12, 5000, 9000]);
                let rows = *ctx.pick(&[0usize, 1, 300, 1200]);
                if n == 0 && first > 0 {
                    return Ok(());
                }
                let hd = H::new(&(0..n).map(|i| cols[(first + i * 3) % 10]).collect::<Vec<_>>());
                let all_null = ctx.flag();
                let data: Vec<R> = (0..rows)
                    .map(|r| {
                        let vs = hd.types.iter().map(|t| match t {
                            _ if all_null => V::N,
                            Boolean => V::Bool(r % 2 == 0),
                            Byte => V::Byte(r as u8),
                            ByteBuf => V::Buf(vec![r as u8; r % 5]),
                            Char => V::Char(65 + r as u16 % 26),
                            Double => V::D((r as f64).to_bits()),
                            Float => V::F((r as f32).to_bits()),
                            Int => V::I(r as i32),
                            Long => V::L(-(r as i64)),
                            Short => V::Sh(r as i16),
                            String => V::S("w".repeat(r % 9)),
                        });
                        (r as u64, vs.collect())
                    })
                    .collect();
                let mut b = dc_bytes(&hd, &data);
                b[10..14].copy_from_slice(&(user as u32).to_be_bytes());
                b.splice(14..14, (0..user).map(|i| (i * 7) as u8));
                let k = ctx.choose(5);
                let c = if k == 0 {
                    Content { name: "dc".to_string(), plain: b.clone(), pack: None, bytes: b }
                } else {
                    if rows == 1200 && !t {
                        return Ok(());
                    }
                    let ps: Vec<_> = packers().into_iter().filter(|p| ["gzip", "lz4", "lzf", "zstd"].contains(&p.name)).collect();
                    let p = &ps[k - 1];
                    Content { name: p.name.to_string(), bytes: (p.pack)(&b), plain: b, pack: Some(p.suffix) }
                };
                let (name, f) = *ctx.pick(&[(None, None), (Some("x"), None), (Some("x.dc"), None), (Some("x.csv.txt"), None), (Some("x.csv"), Some("dc"))]);
                if f.is_some() && k > 0 || name == Some("x.dc") && k > 0 {
                    return Ok(());
                }
                ctx.step(&(&hd, user, rows, all_null, k, name, f));
                let got = stream(f, name, &c.bytes);
                judge(ctx, &got, &decide(f, name, &c), &|| {
                    format!("DC data ({}) of {} columns from {:?}, user header of {} bytes, {} rows, named {:?}", c.name, n, first, user, rows, name)
                })
            },
        );
    });
}
