//! C22: the command line does what its help says.
use std::path::Path;
use std::sync::OnceLock;

use chopper::chopper::types::FieldType;
use mc::csvtime::*;
use mc::kit::*;
use mc::pack;
use mc::time::*;
use mc::*;

const NAMES: [&str; 6] = ["d", "t", "time", "altMillis", "fmt", "x"];
const T0: i64 = 1_000_000_000; // 2001-09-09T01:46:40Z

/// One line of the inputs: all its time columns state the same instant if read in UTC.
fn cells(at: i64, x: &str) -> Vec<String> {
    let t = T0 + at;
    let (y, m, d) = civil(t.div_euclid(DAY));
    let s = t.rem_euclid(DAY);
    let hms = format!("{:02}:{:02}:{:02}", s / 3600, s / 60 % 60, s % 60);
    vec![
        format!("{:04}{:02}{:02}", y, m, d),
        hms.clone(),
        t.to_string(),
        (t * 1000).to_string(),
        format!("{:02}.{:02}.{:04} {}", d, m, y, hms),
        x.to_string(),
    ]
}

fn text(delim: &str, header: bool, rows: &[(i64, &str)]) -> Vec<u8> {
    let mut s = String::new();
    if header {
        s += &NAMES.join(delim);
        s += "\n";
    }
    for (t, x) in rows {
        s += &cells(*t, x).join(delim);
        s += "\n";
    }
    s.into_bytes()
}

#[derive(Clone, Debug)]
enum Is {
    Csv(Vec<u8>),
    Dc(H, Vec<R>),
    /// a directory of csv texts in order of their names
    Dir(Vec<Vec<u8>>),
    Missing,
    Garbage,
}

/// A file: its name, what it contains, its bytes, compressed or not.
struct File {
    name: &'static str,
    is: Is,
    bytes: Vec<u8>,
    /// what the name says of the format: compression suffix, csv or dc
    gz: bool,
}

fn files() -> &'static Vec<File> {
    static F: OnceLock<Vec<File>> = OnceLock::new();
    F.get_or_init(|| {
        let a: &[(i64, &str)] = &[(0, "a0"), (1, "a1"), (3, "a2")];
        let b: &[(i64, &str)] = &[(1, "b0"), (2, "b1"), (3, "b2"), (86400 * 200, "b3")];
        let c: &[(i64, &str)] = &[(-5, "c0"), (3, "c1")];
        let head = H::new(&NAMES.iter().map(|n| (*n, FieldType::String)).collect::<Vec<_>>());
        let rows: Vec<R> = c
            .iter()
            .map(|(t, x)| {
                ((T0 + t) as u64 * 1_000_000_000 + 5_000_000, cells(*t, x).into_iter().map(V::S).collect())
            })
            .collect();
        let dc = dc_bytes(&head, &rows);
        let csv = |name: &'static str, b: Vec<u8>| File { name, is: Is::Csv(b.clone()), bytes: b, gz: false };
        let other = b"time,y\n1000000000,o0\n".to_vec();
        let pair = b"date,time,x\n20010909,01:46:40,p0\n20010909,01:46:41,p1\n".to_vec();
        vec![
            csv("a.csv", text(",", true, a)),
            csv("b.csv", text(",", true, b)),
            File { name: "c.dc", is: Is::Dc(head.clone(), rows.clone()), bytes: dc.clone(), gz: false },
            csv("semi.csv", text(";", true, a)),
            csv("tab.csv", text("\t", true, b)),
            csv("nohead.csv", text(",", false, a)),
            csv("a.txt", text(",", true, a)),
            File { name: "a.csv.gz", is: Is::Csv(text(",", true, a)), bytes: pack::gzip_member(&text(",", true, a), 6, 0), gz: true },
            File { name: "c.bin", is: Is::Dc(head, rows), bytes: dc, gz: false },
            csv("other.csv", other),
            csv("pair.csv", pair),
            csv("empty.csv", vec![]),
            csv("headonly.csv", text(",", true, &[])),
            File { name: "missing.csv", is: Is::Missing, bytes: vec![], gz: false },
            File {
                name: "some.d",
                is: Is::Dir(vec![text(",", true, a), text(",", true, &[(10, "d0"), (11, "d1")])]),
                bytes: vec![],
                gz: false,
            },
            File { name: "junk", is: Is::Garbage, bytes: b"\xff\xfe\xfd\xfc\xfb junk \xff\n".to_vec(), gz: false },
        ]
    })
}

fn file(name: &str) -> &'static File {
    match files().iter().find(|f| f.name == name) {
        Some(f) => f,
        None => panic!("ENGINE: no file {}", name),
    }
}

fn lay(dir: &Path, names: &[&str]) {
    for n in names {
        let f = file(n);
        let p = dir.join(f.name);
        match &f.is {
            Is::Missing => {}
            Is::Dir(v) => {
                let _ = std::fs::create_dir(&p);
                for (i, b) in v.iter().enumerate() {
                    std::fs::write(p.join(format!("{}.csv", i)), b).expect("ENGINE: input");
                }
            }
            _ => std::fs::write(p, &f.bytes).expect("ENGINE: input"),
        }
    }
}

// ---------------------------------------------------------------------------------------------
// options and what they mean

#[derive(Clone, Debug, PartialEq)]
enum Bound {
    Nanos(u64),
    /// seconds and nanoseconds of local time
    Local(i64, i64),
    Bad,
}

#[derive(Clone, Debug, PartialEq)]
enum Out1 {
    Stdout,
    Csv(&'static str),
    Dc(&'static str),
    Bad(&'static str),
}

/// What the options of a run say. None: absent. Err: a bad value.
#[derive(Clone)]
struct Run {
    inputs: Vec<&'static str>,
    stdin: Option<&'static str>,
    format: Option<&'static str>,
    zopt: Option<&'static str>,
    zenv: Option<&'static str>,
    begin: Option<(&'static str, Bound)>,
    end: Option<(&'static str, Bound)>,
    output: Out1,
    epoch: Option<&'static str>,
    human: Option<&'static str>,
    units: Option<&'static str>,
    time_name: Option<&'static str>,
    print: Option<&'static str>,
    delim: Option<&'static str>,
    in_delim: Option<&'static str>,
    has_header: Option<&'static str>,
    ts_col: Option<&'static str>,
    col_date: Option<&'static str>,
    col_time: Option<&'static str>,
    ts_fmt: Option<&'static str>,
    fmt_date: Option<&'static str>,
    fmt_time: Option<&'static str>,
    in_epoch: Option<&'static str>,
    backtrace: bool,
    extra: Option<&'static str>,
    spelling: usize,
}

fn zone(name: &str) -> Option<Zone> {
    match name {
        "UTC" => Some(Zone::Utc),
        "America/New_York" => Some(Zone::NewYork),
        "Asia/Tokyo" => Some(Zone::Tokyo),
        _ => None,
    }
}

fn unit(s: &str) -> Option<(u64, &'static str, usize)> {
    match s {
        "s" => Some((1_000_000_000, "Seconds", 0)),
        "ms" => Some((1_000_000, "Millis", 3)),
        "us" => Some((1_000, "Micros", 6)),
        "ns" => Some((1, "Nanos", 9)),
        _ => None,
    }
}

fn one_ascii(s: &str) -> Option<char> {
    if s == "\\t" {
        return Some('\t');
    }
    let mut c = s.chars();
    match (c.next(), c.next()) {
        (Some(c), None) if c.is_ascii() => Some(c),
        _ => None,
    }
}

fn cell_type(s: &str) -> u8 {
    if s.parse::<i64>().is_ok() {
        0
    } else if s.parse::<f64>().is_ok() {
        1
    } else {
        2
    }
}

/// Header and rows of a csv text, or an error, by C06, C08 and C23.
fn read_csv(text: &[u8], r: &Run, z: Zone) -> Result<(H, Vec<R>), String> {
    let s = std::str::from_utf8(text).map_err(|_| "not text".to_string())?;
    let lines: Vec<&str> = s.lines().collect();
    let delim = match r.in_delim {
        Some(d) => one_ascii(d).ok_or("delimiter")?,
        None => {
            let first = lines.get(0).cloned().unwrap_or("");
            let count = |c: char| first.chars().filter(|x| *x == c).count();
            let mut best = ',';
            for c in ['\t', ' '] {
                if count(c) > count(best) {
                    best = c;
                }
            }
            best
        }
    };
    let split = |l: &str| l.split(delim).map(|c| c.trim().to_string()).collect::<Vec<String>>();
    let header = match r.has_header.map(|h| h.to_lowercase()).as_deref() {
        Some("yes") => true,
        Some("no") => false,
        _ => match (lines.get(0), lines.get(1)) {
            (Some(a), Some(b)) => {
                let ty = |l: &str| split(l).iter().map(|c| cell_type(c)).collect::<Vec<u8>>();
                ty(a) != ty(b)
            }
            _ => false,
        },
    };
    let mut recs: Vec<Vec<String>> = lines.iter().map(|l| split(l)).collect();
    let names: Vec<String> = if recs.is_empty() {
        vec![]
    } else if header {
        recs.remove(0)
    } else {
        (0..recs[0].len()).map(|i| format!("col_{}", i)).collect()
    };
    let h = H { types: vec![FieldType::String; names.len()], names: names.clone() };
    if recs.iter().any(|r| r.len() > names.len()) {
        return Err("too many cells".into());
    }
    let col = match (r.col_date, r.col_time) {
        (Some(d), Some(t)) => match (d.parse::<usize>(), t.parse::<usize>()) {
            (Ok(d), Ok(t)) => Col::Pair(d, t),
            _ => Col::NamePair(d.into(), t.into()),
        },
        _ => match r.ts_col {
            None => Col::Auto,
            Some(c) => match c.parse::<usize>() {
                Ok(i) => Col::Index(i),
                Err(_) => Col::Name(c.into()),
            },
        },
    };
    let fmt = match (r.fmt_date, r.fmt_time) {
        // the format of the time has a default
        (Some(_), _) => Fmt::Split(("%Y%m%d", "YMD"), ("%H:%M:%S", "h:m:s")),
        _ => match (r.ts_fmt, r.in_epoch) {
            (Some(f), _) => Fmt::Explicit(f, "D.M.Y h:m:s"),
            (_, Some(u)) => Fmt::Epoch(unit(u).ok_or("unit")?.0),
            _ => Fmt::Auto,
        },
    };
    let (ts, bad) = model(&names, &recs, &col, &fmt, z);
    if bad {
        return Err("bad time".into());
    }
    let rows = ts
        .into_iter()
        .zip(&recs)
        .map(|(t, c)| {
            let mut v: Vec<V> = c.iter().map(|x| V::S(x.clone())).collect();
            v.resize(names.len(), V::N);
            (t, v)
        })
        .collect();
    Ok((h, rows))
}

fn read_file(f: &File, fmt: Option<&str>, r: &Run, z: Zone) -> Result<(H, Vec<R>), String> {
    let want = fmt.filter(|f| *f != "auto");
    if let Is::Dir(v) = &f.is {
        // the format of every file in the directory
        let mut all: Option<(H, Vec<R>)> = None;
        for b in v {
            if want.map_or(false, |w| w != "csv") {
                return Err("format".into());
            }
            let (h, mut rows) = read_csv(b, r, z)?;
            match &mut all {
                None => all = Some((h, rows)),
                Some(a) => {
                    if a.0 != h {
                        return Err("columns".into());
                    }
                    a.1.append(&mut rows)
                }
            }
        }
        return all.ok_or("empty".into());
    }
    if let Some(w) = want {
        let (w, gz) = match w.strip_suffix(".gz") {
            Some(w) => (w, true),
            None => (w, false),
        };
        let fits = match &f.is {
            Is::Csv(_) => w == "csv",
            Is::Dc(..) => w == "dc",
            _ => false,
        };
        if !fits || gz != f.gz {
            return Err("format".into());
        }
    }
    match &f.is {
        Is::Csv(b) => read_csv(b, r, z),
        Is::Dc(h, rows) => Ok((h.clone(), rows.clone())),
        _ => Err("unreadable".into()),
    }
}

/// Contents of the output, or an error.
fn expected(r: &Run) -> Result<Vec<u8>, String> {
    let e = |s: &str| Err(s.to_string());
    if r.extra.is_some() {
        return e("unknown option");
    }
    // combinations
    if r.epoch.is_some() && r.human.is_some() {
        return e("epoch and human");
    }
    if r.col_date.is_some() != r.col_time.is_some() || (r.fmt_date.is_none() && r.fmt_time.is_some()) {
        return e("half a pair");
    }
    let single = r.ts_col.is_some() || r.ts_fmt.is_some();
    if (r.col_date.is_some() || r.fmt_date.is_some()) && single {
        return e("pair and single");
    }
    if r.in_epoch.is_some() && (r.col_date.is_some() || r.ts_fmt.is_some()) {
        return e("epoch of a pair");
    }
    // values
    let z = match (r.zopt, r.zenv) {
        (Some(n), _) | (None, Some(n)) => zone(n).ok_or("zone")?,
        _ => Zone::None,
    };
    let bound = |b: &Option<(&'static str, Bound)>| -> Result<Option<u64>, String> {
        match b {
            None => Ok(None),
            Some((_, Bound::Nanos(n))) => Ok(Some(*n)),
            Some((_, Bound::Local(s, ns))) => instant((*s, *ns, None), z).map(Some).ok_or("bound".into()),
            Some((_, Bound::Bad)) => Err("bound".into()),
        }
    };
    let (begin, end) = (bound(&r.begin)?, bound(&r.end)?);
    let (u, uname, digits) = unit(r.units.unwrap_or("ns")).ok_or("units")?;
    let print = match r.print.map(|p| p.to_lowercase()).as_deref() {
        None | Some("yes") => true,
        Some("no") => false,
        _ => return e("print-time"),
    };
    if !matches!(r.has_header.map(|p| p.to_lowercase()).as_deref(), None | Some("yes") | Some("no") | Some("auto")) {
        return e("has-header");
    }
    if let Some(d) = r.in_delim {
        one_ascii(d).ok_or("delimiter")?;
    }
    if let Some(d) = r.in_epoch {
        unit(d).ok_or("epoch unit")?;
    }
    let formats: Vec<&str> = r.format.map_or(vec!["auto"], |f| f.split(',').collect());
    if let Out1::Bad(_) = r.output {
        return e("output");
    }
    // inputs
    let mut srcs = Vec::new();
    if let (Some(n), true) = (r.stdin, r.inputs.is_empty()) {
        srcs.push(read_file(file(n), Some(formats[0]), r, z)?);
    }
    for (i, n) in r.inputs.iter().enumerate() {
        srcs.push(read_file(file(n), Some(formats[i.min(formats.len() - 1)]), r, z)?);
    }
    let head = srcs[0].0.clone();
    if srcs.iter().any(|s| s.0 != head) {
        return e("headers differ");
    }
    let mut rows: Vec<(u64, usize, usize, Vec<V>)> = Vec::new();
    for (i, s) in srcs.iter().enumerate() {
        for (k, (t, v)) in s.1.iter().enumerate() {
            if begin.map_or(true, |b| b <= *t) && end.map_or(true, |e| *t < e) {
                rows.push((*t, i, k, v.clone()));
            }
        }
    }
    rows.sort_by_key(|r| (r.0, r.1, r.2));
    if let Out1::Dc(_) = r.output {
        return Ok(dc_bytes(&head, &rows.into_iter().map(|r| (r.0, r.3)).collect::<Vec<R>>()));
    }
    // csv
    let d = r.delim.unwrap_or(",");
    let mut o = String::new();
    let mut line = |first: Option<String>, cells: Vec<String>| {
        let v: Vec<String> = first.into_iter().chain(cells).collect();
        o += &v.join(d);
        o += "\n";
    };
    let epoch = r.epoch.is_some();
    let name = match r.time_name {
        Some(n) => n.to_string(),
        None if epoch => format!("timestamp{}", uname),
        None => "time".to_string(),
    };
    line(if print { Some(name) } else { None }, head.names.clone());
    for (t, _, _, v) in &rows {
        let first = match (print, epoch) {
            (false, _) => None,
            (_, true) => Some((t / u).to_string()),
            _ => {
                if z == Zone::None {
                    return e("no zone for output");
                }
                Some(human(z, *t, digits))
            }
        };
        line(first, v.iter().map(|x| if let V::S(s) = x { s.clone() } else { String::new() }).collect());
    }
    Ok(o.into_bytes())
}

/// Neither side's behaviour is documented.
fn open_question(r: &Run) -> bool {
    // an epoch unit and formats for a pair of columns
    (r.in_epoch.is_some() && r.fmt_date.is_some())
}

fn arguments(r: &Run, dir: &Path) -> Vec<String> {
    let mut v = Vec::new();
    let path = |n: &str| dir.join(n).to_string_lossy().to_string();
    let mut opts: Vec<(Option<&str>, &str, Option<String>)> = Vec::new();
    let mut opt = |s: Option<&'static str>, l: &'static str, x: Option<&str>| {
        if let Some(x) = x {
            opts.push((s, l, Some(x.to_string())));
        }
    };
    let outp = match &r.output {
        Out1::Stdout => None,
        Out1::Csv(n) | Out1::Dc(n) | Out1::Bad(n) => Some(path(n)),
    };
    opt(Some("o"), "output", outp.as_deref());
    opt(Some("f"), "format", r.format);
    opt(Some("z"), "timezone", r.zopt);
    opt(Some("b"), "begin", r.begin.as_ref().map(|b| b.0));
    opt(Some("e"), "end", r.end.as_ref().map(|b| b.0));
    opt(None, "time-col-name", r.time_name);
    opt(Some("g"), "granularity", r.units);
    opt(None, "csv-in-delimiter", r.in_delim);
    opt(None, "delimiter", r.delim);
    opt(None, "csv-in-has-header", r.has_header);
    opt(None, "print-time", r.print);
    opt(None, "csv-in-ts-col", r.ts_col);
    opt(None, "csv-in-ts-col-date", r.col_date);
    opt(None, "csv-in-ts-col-time", r.col_time);
    opt(None, "csv-in-ts-fmt", r.ts_fmt);
    opt(None, "csv-in-ts-fmt-date", r.fmt_date);
    opt(None, "csv-in-ts-fmt-time", r.fmt_time);
    opt(None, "csv-in-epoch", r.in_epoch);
    for f in [r.epoch, r.human, r.extra].iter().flatten() {
        opts.push((None, f, None));
    }
    if r.backtrace {
        opts.push((None, "--backtrace", None));
    }
    let ins: Vec<String> = r.inputs.iter().map(|n| path(n)).collect();
    if r.spelling == 1 {
        v.extend(ins.clone());
    }
    for (s, l, x) in opts {
        match (x, s) {
            (None, _) => v.push(l.to_string()),
            // an option and its value as two arguments, or as one
            (Some(x), Some(s)) if r.spelling == 0 => v.extend([format!("-{}", s), x]),
            (Some(x), Some(s)) if r.spelling == 2 && !x.is_empty() => v.push(format!("-{}{}", s, x)),
            (Some(x), _) if r.spelling == 1 => v.push(format!("--{}={}", l, x)),
            (Some(x), _) => v.extend([format!("--{}", l), x]),
        }
    }
    if r.spelling == 2 {
        v.push("--".into());
    }
    if r.spelling != 1 {
        v.extend(ins);
    }
    v
}

const WORLDS: &[&[&str]] = &[
    &["a.csv"],
    &["<a.csv"],
    &["a.csv", "b.csv"],
    &["b.csv", "a.csv"],
    &["a.csv", "c.dc"],
    &["c.dc"],
    &["c.dc", "b.csv", "a.csv"],
    &["semi.csv"],
    &["tab.csv", "a.csv.gz"],
    &["nohead.csv"],
    &["a.txt"],
    &["<c.bin"],
    &["a.txt", "c.bin", "b.csv"],
    &["a.csv", "a.csv"],
    &["some.d"],
    &["b.csv", "some.d"],
    &["other.csv", "a.csv"],
    &["pair.csv"],
    &["empty.csv"],
    &["headonly.csv"],
    &["missing.csv"],
    &["a.csv", "missing.csv"],
    &["junk"],
    &["<a.csv.gz"],
    &["<a.csv", "b.csv"],
];

const FORMATS: &[&str] = &["auto", "csv", "dc", "csv,dc", "dc,csv", "auto,csv", "csv,auto", "csv.gz", "csv,dc,csv", "csv,csv.gz", "xyz"];

fn bounds() -> Vec<(&'static str, Bound)> {
    let local = |h: i64, mi: i64, s: i64| Bound::Local(local_secs(2001, 9, 9, h, mi, s).unwrap_or(0), 0);
    vec![
        ("1000000001000000000", Bound::Nanos(1_000_000_001_000_000_000)),
        ("1000000003", Bound::Nanos(1_000_000_003_000_000_000)),
        ("2001-09-09T01:46:43Z", Bound::Nanos(1_000_000_003_000_000_000)),
        ("20010909-014642", local(1, 46, 42)),
        ("2001/09/08 21:46:41", Bound::Local(local_secs(2001, 9, 8, 21, 46, 41).unwrap_or(0), 0)),
        ("20010909", local(0, 0, 0)),
        ("2002", Bound::Local(local_secs(2002, 1, 1, 0, 0, 0).unwrap_or(0), 0)),
        ("yesterday", Bound::Bad),
        ("", Bound::Bad),
    ]
}

/// One text for each list of formats, for the whole process.
fn leak(key: String) -> &'static str {
    static L: OnceLock<std::sync::Mutex<std::collections::HashMap<String, &'static str>>> = OnceLock::new();
    let mut m = match L.get_or_init(Default::default).lock() {
        Ok(m) => m,
        Err(e) => e.into_inner(),
    };
    m.entry(key.clone()).or_insert_with(|| Box::leak(key.into_boxed_str()))
}

fn base() -> Run {
    Run {
        inputs: vec![],
        stdin: None,
        format: None,
        zopt: None,
        zenv: Some("America/New_York"),
        begin: None,
        end: None,
        output: Out1::Stdout,
        epoch: None,
        human: None,
        units: None,
        time_name: None,
        print: None,
        delim: None,
        in_delim: None,
        has_header: None,
        ts_col: None,
        col_date: None,
        col_time: None,
        ts_fmt: None,
        fmt_date: None,
        fmt_time: None,
        in_epoch: None,
        backtrace: false,
        extra: None,
        spelling: 0,
    }
}

fn set_world(r: &mut Run, w: &'static [&'static str]) {
    for n in w.iter() {
        match n.strip_prefix('<') {
            Some(n) => r.stdin = Some(n),
            None => r.inputs.push(n),
        }
    }
}

/// Leaves each option absent or gives it one of its values, which counts as a deviation.
fn options(ctx: &mut Ctx, r: &mut Run) {
    macro_rules! opt {
        ($f:ident, $v:expr) => {{
            let v: &[&'static str] = $v;
            match ctx.deviate(v.len() + 1) {
                0 => {}
                i => r.$f = Some(v[i - 1]),
            }
        }};
    }
    match ctx.deviate(9) {
        0 => {}
        1 => r.zopt = Some("UTC"),
        2 => (r.zopt, r.zenv) = (Some("Asia/Tokyo"), None),
        3 => r.zenv = Some("UTC"),
        4 => r.zenv = None,
        5 => r.zenv = Some("Mars/Olympus"),
        6 => (r.zopt, r.zenv) = (Some("UTC"), Some("Mars/Olympus")),
        7 => r.zopt = Some("Nowhere"),
        _ => r.zopt = Some(""),
    }
    let b = bounds();
    match ctx.deviate(b.len() + 1) {
        0 => {}
        i => r.begin = Some(b[i - 1].clone()),
    }
    match ctx.deviate(b.len() + 1) {
        0 => {}
        i => r.end = Some(b[i - 1].clone()),
    }
    match ctx.deviate(12) {
        0 => {}
        8 => r.output = Out1::Dc("x.csv.dc"),
        10 => r.output = Out1::Bad("x.dc.txt"),
        11 => r.output = Out1::Bad("dc.gz"),
        9 => r.output = Out1::Csv("x.dc.csv"),
        1 => r.output = Out1::Csv("out.csv"),
        2 => r.output = Out1::Dc("out.dc"),
        3 => r.output = Out1::Bad("out.txt"),
        4 => r.output = Out1::Bad("out"),
        5 => r.output = Out1::Bad("none/out.csv"),
        6 => r.output = Out1::Bad("out.csv.gz"),
        _ => r.output = Out1::Csv("x.y z.csv"),
    }
    opt!(epoch, &["-E", "--epoch"]);
    opt!(human, &["-H", "--human"]);
    opt!(units, &["s", "ms", "us", "ns", "m"]);
    opt!(time_name, &["when", "a b"]);
    opt!(print, &["yes", "no", "YES", "No", "nO", "maybe"]);
    opt!(delim, &[";", "|", "::", " "]);
    opt!(in_delim, &[",", ";", "\\t", " ", "ab", "", "é"]);
    opt!(has_header, &["yes", "no", "auto", "YES", "nO", "Auto", "perhaps"]);
    opt!(ts_col, &["time", "altMillis", "2", "3", "fmt", "99", "nosuch", "d"]);
    match ctx.deviate(6) {
        0 => {}
        1 => (r.col_date, r.col_time) = (Some("d"), Some("t")),
        2 => (r.col_date, r.col_time) = (Some("0"), Some("1")),
        3 => r.col_date = Some("d"),
        4 => r.col_time = Some("t"),
        _ => (r.col_date, r.col_time) = (Some("d"), Some("zz")),
    }
    opt!(ts_fmt, &["%d.%m.%Y %H:%M:%S"]);
    match ctx.deviate(4) {
        0 => {}
        1 => (r.fmt_date, r.fmt_time) = (Some("%Y%m%d"), Some("%H:%M:%S")),
        2 => r.fmt_date = Some("%Y%m%d"),
        _ => r.fmt_time = Some("%H:%M:%S"),
    }
    opt!(in_epoch, &["s", "ms", "us", "ns", "h"]);
    r.backtrace = ctx.deviate(2) == 1;
    opt!(extra, &["--frobnicate", "-q", "--begin"]);
    r.spelling = ctx.deviate(3);
}

fn check(ctx: &mut Ctx, r: &Run) -> Res {
    if open_question(r) {
        return Ok(());
    }
    let dir = ctx.fresh_dir();
    let mut used: Vec<&str> = r.inputs.clone();
    used.dedup();
    lay(&dir, &used);
    let args = arguments(r, &dir);
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let env: Vec<(&str, &str)> = r.zenv.iter().map(|z| ("CHOPPER_TZ", *z)).collect();
    let input = r.stdin.map_or(&[][..], |n| &file(n).bytes[..]);
    let o = chop(&a, &env, input);
    let want = expected(r);
    let d = dir.to_string_lossy().to_string();
    let line = || {
        format!(
            "chopper {} (CHOPPER_TZ {:?}, standard input {:?})",
            args.iter().map(|x| format!("{:?}", x.replace(&format!("{}/", d), ""))).collect::<Vec<_>>().join(" "),
            r.zenv,
            r.stdin
        )
    };
    ctx.step(&(&line(), r.stdin));
    ctx.outcome(&(o.code, &o.stdout));
    ctx.note(|| format!("{}: {}; expected {:?}", line(), o.text(), want.as_ref().map(|w| String::from_utf8_lossy(w).to_string())));
    ensure!(!o.crashed(), "{} crashed: {}", line(), o.text());
    match want {
        Err(e) => {
            ensure!(o.code != Some(0), "{} succeeded, expected an error ({}): {}", line(), e, o.text());
            ensure!(!o.stderr.is_empty(), "{} failed without a message ({})", line(), e);
        }
        Ok(w) => {
            ensure!(o.code == Some(0), "{} failed: {}", line(), o.text());
            let got = match r.output {
                Out1::Csv(n) | Out1::Dc(n) => {
                    ensure!(o.stdout.is_empty(), "{}: output to a file and to standard output: {}", line(), o.text());
                    match std::fs::read(dir.join(n)) {
                        Ok(b) => b,
                        Err(e) => return Err(format!("{}: no output file: {}", line(), e)),
                    }
                }
                _ => o.stdout.clone(),
            };
            ensure!(
                got == w,
                "{}: output {:?}, expected {:?}",
                line(),
                String::from_utf8_lossy(&got),
                String::from_utf8_lossy(&w)
            );
        }
    }
    Ok(())
}

fn main() {
    mc::main("C22", Level::ModelChecking, |c| {
        let t = c.thorough;
        c.assume("not judged: --csv-in-epoch together with formats for a pair of columns, spelling variants of timezone names");
        c.rule = "options are absent (CHOPPER_TZ set) unless one of the deviations of the bound gives them a value".into();
        let bound = if t { 3 } else { 2 };
        c.scenario(
            "options",
            "25 input sets x all ways to set up to the bound of 22 options (formats, timezone option and variable, bounds, output, style, units, names, delimiters, header, time columns and formats, spelling) to one of their values, bad ones included",
            bound,
            move |ctx| {
                let mut r = base();
                set_world(&mut r, WORLDS[ctx.deviate(WORLDS.len())]);
                match ctx.deviate(FORMATS.len() + 1) {
                    0 => {}
                    i => r.format = Some(FORMATS[i - 1]),
                }
                options(ctx, &mut r);
                check(ctx, &r)
            },
        );
        let inputs = move |ctx: &mut Ctx, formats: usize| {
            let mut r = base();
            set_world(&mut r, WORLDS[ctx.choose(WORLDS.len())]);
            match ctx.choose(formats) {
                0 => {}
                i => r.format = Some(FORMATS[i - 1]),
            }
            options(ctx, &mut r);
            check(ctx, &r)
        };
        c.scenario(
            "inputs",
            "25 input sets x format absent, auto, csv or dc x every way to set 1 other option",
            1,
            move |ctx| inputs(ctx, 4),
        );
        if t {
            c.scenario("input-pairs", "25 input sets x every way to set 2 options but the format", 2, move |ctx| inputs(ctx, 1));
        }
        c.scenario(
            "split-columns",
            "pair of time columns by name or index, formats for them, for the date only or none, on 6 input sets x 1 other option",
            1,
            move |ctx| {
                let mut r = base();
                set_world(&mut r, WORLDS[*ctx.pick(&[0, 1, 2, 9, 14, 17])]);
                (r.col_date, r.col_time) = *ctx.pick(&[
                    (None, None),
                    (Some("d"), Some("t")),
                    (Some("0"), Some("1")),
                    (Some("1"), Some("0")),
                    (Some("date"), Some("time")),
                    (Some("0"), Some("t")),
                    (Some("d"), Some("1")),
                    (Some("1"), Some("d")),
                    (Some("0"), Some("01")),
                    (Some("+1"), Some("0")),
                ]);
                match ctx.choose(3) {
                    0 => {}
                    1 => (r.fmt_date, r.fmt_time) = (Some("%Y%m%d"), Some("%H:%M:%S")),
                    _ => r.fmt_date = Some("%Y%m%d"),
                }
                let (cd, ct, fd, ft) = (r.col_date, r.col_time, r.fmt_date, r.fmt_time);
                options(ctx, &mut r);
                if r.col_date != cd || r.col_time != ct || r.fmt_date != fd || r.fmt_time != ft {
                    return Ok(());
                }
                check(ctx, &r)
            },
        );
        c.scenario(
            "format-lists",
            "every list of up to 2 (thorough 3) formats of 5 x every sequence of up to 3 (thorough 4) inputs of 5",
            0,
            move |ctx| {
                let k = if t { 4 } else { 3 };
                let mut fs: Vec<&str> = Vec::new();
                let mut r = base();
                r.zopt = Some("UTC");
                let n = ctx.choose(k);
                for _ in 0..n {
                    fs.push(*ctx.pick(&["auto", "csv", "dc", "csv.gz", "xyz"]));
                }
                let n = 1 + ctx.choose(k);
                for _ in 0..n {
                    r.inputs.push(*ctx.pick(&["a.txt", "c.bin", "a.csv", "c.dc", "a.csv.gz"]));
                }
                r.format = if fs.is_empty() { None } else { Some(leak(fs.join(","))) };
                check(ctx, &r)
            },
        );
        c.scenario("help", "--help, -h, --version, -V alone and with another option: success and text", 0, move |ctx| {
            let a = *ctx.pick(&["--help", "-h", "--version", "-V"]);
            let b = ctx.flag();
            let args: Vec<&str> = if b { vec!["-E", a] } else { vec![a] };
            let o = chop(&args, &[], b"");
            ctx.step(&(a, b));
            ctx.outcome(&o.stdout);
            ctx.note(|| format!("{:?}: {}", args, o.text()));
            ensure!(o.code == Some(0) && !o.stdout.is_empty(), "{:?}: {}", args, o.text());
            Ok(())
        });
        c.scenario(
            "many-inputs",
            "1 to 12, 31, 32, 33, 64, 65, 100, 128, 129, 256, 257 and 300 inputs of 6 files in 3 orders x no list of formats, lists one shorter, as long, \
             one longer than the inputs, with one wrong entry at each end, or of 2",
            0,
            move |ctx| {
                const IN: [(&str, &str); 6] = [
                    ("a.csv", "csv"),
                    ("c.bin", "dc"),
                    ("a.csv.gz", "csv.gz"),
                    ("b.csv", "auto"),
                    ("c.dc", "dc"),
                    ("a.txt", "csv"),
                ];
                let mut r = base();
                r.zopt = Some("UTC");
                let n = match ctx.choose(23) {
                    i if i < 12 => i + 1,
                    i => [31, 32, 33, 64, 65, 100, 128, 129, 256, 257, 300][i - 12],
                };
                let order = *ctx.pick(&[1usize, 5, 0]);
                let mut fs: Vec<&str> = Vec::new();
                for i in 0..n {
                    let (f, t) = IN[if order == 0 { i * i / 3 % 6 } else { i * order % 6 }];
                    r.inputs.push(f);
                    fs.push(t);
                }
                match ctx.choose(7) {
                    0 => fs.clear(),
                    1 if n > 1 => fs.truncate(n - 1),
                    2 => fs.push("xyz"),
                    3 => fs[0] = if fs[0] == "dc" { "csv" } else { "dc" },
                    4 => fs[n - 1] = if fs[n - 1] == "dc" { "csv" } else { "dc" },
                    5 => fs = vec!["csv", "auto"],
                    _ => {}
                }
                r.format = if fs.is_empty() { None } else { Some(leak(fs.join(","))) };
                check(ctx, &r)
            },
        );
        c.scenario(
            "combinations",
            "4 input sets x timezone option, variable or none x 3 bounds below x 3 above x 3 outputs x 2 styles x 2 units x \
             time printed or not x default or other delimiter: all options at once",
            0,
            move |ctx| {
                let mut r = base();
                set_world(&mut r, *ctx.pick(&[&["<a.csv"][..], &["<b.csv", "a.csv", "c.dc"][..], &["a.csv", "c.dc"][..], &["tab.csv", "some.d", "a.csv.gz"][..]]));
                match ctx.choose(3) {
                    0 => {}
                    1 => (r.zopt, r.zenv) = (Some("Asia/Tokyo"), Some("UTC")),
                    _ => r.zenv = None,
                }
                let b = bounds();
                let pick = |i: usize, from: [usize; 2]| if i == 0 { None } else { Some(b[from[i - 1]].clone()) };
                r.begin = pick(ctx.choose(3), [0, 4]);
                r.end = pick(ctx.choose(3), [1, 6]);
                r.output = ctx.pick(&[Out1::Stdout, Out1::Csv("out.csv"), Out1::Dc("out.dc")]).clone();
                if ctx.flag() {
                    r.epoch = Some("-E");
                }
                if ctx.flag() {
                    r.units = Some("ms");
                }
                if ctx.flag() {
                    r.print = Some("no");
                }
                if ctx.flag() {
                    (r.delim, r.time_name) = (Some(";"), Some("when"));
                }
                r.spelling = if t { ctx.choose(3) } else { 0 };
                check(ctx, &r)
            },
        );
        c.scenario(
            "timezone-names",
            "timezone option and variable each absent or one of 8 names x the embedding program's own names for timezones: none, an empty map, \
             or 5 maps (a new name, one that hides a known one, of other case, blank): output of one row, for which a time is to be read or only shown",
            0,
            move |ctx| {
                const NAMES: [&str; 8] = ["NYC", "nyc", "America/New_York", "UTC", "Asia/Tokyo", "bogus", "", " UTC"];
                const MAPS: [&str; 6] = [
                    "",
                    "NYC=America/New_York",
                    "UTC=Asia/Tokyo",
                    "bogus=UTC,NYC=Asia/Tokyo",
                    "=Asia/Tokyo",
                    "America/New_York=UTC,Asia/Tokyo=America/New_York",
                ];
                let opt = [None].into_iter().chain(NAMES.iter().map(|n| Some(*n))).collect::<Vec<_>>();
                let z = *ctx.pick(&opt);
                let env = *ctx.pick(&opt);
                let map = match ctx.choose(MAPS.len() + 1) {
                    0 => None,
                    i => Some(MAPS[i - 1]),
                };
                let local = ctx.flag();
                let named = z.or(env);
                let own = |n: &str| map.and_then(|m| m.split(',').filter_map(|x| x.split_once('=')).find(|x| x.0 == n).map(|x| x.1));
                let zone = named.map(|n| own(n).unwrap_or(n));
                let want = match (zone, local) {
                    (Some("UTC"), false) => Some("2019-01-01T00:00:00.000000000Z"),
                    (Some("America/New_York"), false) => Some("2018-12-31T19:00:00.000000000-05:00"),
                    (Some("Asia/Tokyo"), false) => Some("2019-01-01T09:00:00.000000000+09:00"),
                    (Some("UTC"), true) => Some("1546300800000000000"),
                    (Some("America/New_York"), true) => Some("1546318800000000000"),
                    (Some("Asia/Tokyo"), true) => Some("1546268400000000000"),
                    _ => None,
                };
                let mut args = vec!["--csv-in-has-header", "yes"];
                if let Some(z) = z {
                    args.extend(["-z", z]);
                }
                let text = if local {
                    args.push("-E");
                    "time,a\n20190101 00:00:00,1\n"
                } else {
                    "time,a\n1546300800,1\n"
                };
                let mut vars = Vec::new();
                if let Some(e) = env {
                    vars.push(("CHOPPER_TZ", e));
                }
                if let Some(m) = map {
                    vars.push(("MC_TZ_MAP", m));
                }
                let o = chop(&args, &vars, text.as_bytes());
                ctx.step(&(z, env, map, local));
                ctx.outcome(&(o.code, &o.stdout));
                let how = || format!("option {:?} variable {:?} names {:?} {:?}: {}", z, env, map, text, o.text());
                ctx.note(how);
                ensure!(!o.crashed(), "crash: {}", how());
                match want {
                    Some(w) => {
                        let line = o.stdout_text().lines().nth(1).map(|l| l.to_string());
                        ensure!(o.code == Some(0), "refused: {}", how());
                        ensure!(
                            line.as_ref().map_or(false, |l| l.starts_with(&format!("{},", w)) || l.starts_with(&format!("{},", w.replace('Z', "+00:00")))),
                            "expected {}: {}",
                            w,
                            how()
                        );
                    }
                    None => ensure!(o.code != Some(0) && !o.stderr.is_empty(), "accepted: {}", how()),
                }
                Ok(())
            },
        );
        c.scenario(
            "column-numbers",
            "inputs of 3, 12, 300 and 70000 columns with the time in a column given by its number, of 0..=2, 9..=11, 127..=129, 254..=257, 299, 32767, 32768, 65534..=65537, \
             69999, or one past the last, a day in another column or not, with or without a header: that column is the time, or it is an error",
            0,
            move |ctx| {
                let n = *ctx.pick(&[3usize, 12, 300, 70_000]);
                let all = [0usize, 1, 2, 9, 10, 11, 127, 128, 129, 254, 255, 256, 257, 299, 32767, 32768, 65534, 65535, 65536, 65537, 69999];
                let mut is: Vec<usize> = all.iter().cloned().filter(|i| *i < n).collect();
                is.push(n);
                let i = *ctx.pick(&is);
                let pair = ctx.choose(3);
                let head = ctx.flag();
                // the column with the day: near or at the other end
                let j = if pair == 1 { if i == 0 { 1 } else { i - 1 } } else { n - 1 - i.min(n - 1) };
                if pair == 2 && j == i || pair > 0 && n > 300 && i % 2 == 0 {
                    return Ok(());
                }
                let mut b = String::new();
                if head {
                    b += &(0..n).map(|c| format!("c{}", c)).collect::<Vec<_>>().join(",");
                    b += "\n";
                }
                let cell = |c: usize| match (pair, c == i, c == j) {
                    (0, true, _) => "1546300805".to_string(),
                    (_, true, _) => "00:00:05".to_string(),
                    (1, _, true) | (2, _, true) => "20190101".to_string(),
                    _ => format!("v{}", c % 1000),
                };
                b += &(0..n).map(cell).collect::<Vec<_>>().join(",");
                b += "\n";
                let p = ctx.dir().join("in.csv");
                std::fs::write(&p, &b).expect("ENGINE: file");
                let (is, js) = (i.to_string(), j.to_string());
                let mut args = vec!["-E", "-z", "UTC", "--csv-in-delimiter", ",", "--csv-in-has-header", if head { "yes" } else { "no" }, p.to_str().unwrap()];
                if pair == 0 {
                    args.extend(["--csv-in-ts-col", is.as_str()]);
                } else {
                    args.extend(["--csv-in-ts-col-date", js.as_str(), "--csv-in-ts-col-time", is.as_str()]);
                }
                let o = chop(&args, &[], b"");
                ctx.step(&(n, i, pair, head));
                ctx.outcome(&(o.code, o.stdout.len()));
                let out = o.stdout_text();
                let brief = |s: &str| s.chars().take(200).collect::<String>();
                let how = || format!("{} columns, {:?}: {:?}, {} {}", n, args, o.code, brief(&out), brief(&String::from_utf8_lossy(&o.stderr)));
                ctx.note(how);
                ensure!(!o.crashed(), "crash: {}", how());
                if i == n {
                    ensure!(o.code != Some(0) && !o.stderr.is_empty(), "accepted: {}", how());
                    return Ok(());
                }
                let want = format!("1546300805000000000,{}", (0..n).map(cell).collect::<Vec<_>>().join(","));
                ensure!(o.code == Some(0), "refused: {}", how());
                ensure!(out.lines().last() == Some(want.as_str()) && out.lines().count() == 2, "expected {}: {}", brief(&want), how());
                Ok(())
            },
        );
        c.scenario(
            "message-not-writable",
            "standard error a full device, a pipe that nobody reads, closed or a file, standard output a pipe read, not read or a full device, for 16 runs with errors \
             of every kind and 3 without, with --backtrace or not: status 1 if anything is wrong and 0 otherwise, never a crash",
            0,
            move |ctx| {
                use std::os::fd::{FromRawFd, OwnedFd};
                use std::os::unix::process::CommandExt;
                use std::process::Stdio;
                let dir = ctx.fresh_dir();
                let files: [(&str, &[u8]); 5] = [
                    ("a.csv", b"timeSeconds,a\n1546300800,1\n"),
                    ("bad.csv", b"timeSeconds,a\n1546300800,1\nnone,2\n"),
                    ("more.csv", b"timeSeconds,a\n1546300800,1,2,3\n"),
                    ("bad.dc", b"\0\0\0\0DCAT\0\x02\0\0"),
                    ("bad.csv.gz", b"\x1f\x8b\x08\0\0\0\0\0\0\0abc"),
                ];
                for (n, b) in files {
                    std::fs::write(dir.join(n), b).expect("ENGINE: file");
                }
                let runs: [(&[&str], bool); 19] = [
                    (&["a.csv"], true),
                    (&["a.csv", "-o", "o.dc"], true),
                    (&["a.csv", "-z", "UTC", "-b", "20200101"], true),
                    (&["none.csv"], false),
                    (&["bad.csv"], false),
                    (&["more.csv"], false),
                    (&["bad.dc"], false),
                    (&["bad.csv.gz"], false),
                    (&["a.csv", "none.csv"], false),
                    (&["a.csv", "-o", "none/o.csv"], false),
                    (&["a.csv", "-o", "o.txt"], false),
                    (&["a.csv", "-o", "a.csv"], false),
                    (&["a.csv", "-z", "Nowhere/None"], false),
                    (&["a.csv", "-b", "soon"], false),
                    (&["a.csv", "--no-such-option"], false),
                    (&["a.csv", "--csv-in-delimiter", ";;"], false),
                    (&["a.csv", "--csv-in-ts-col", "99"], false),
                    (&["a.csv", "-e", "none"], false),
                    (&["a.csv", "-f", ".nothing"], false),
                ];
                let (args, fine) = *ctx.pick(&runs);
                let (out, err) = (ctx.choose(3), ctx.choose(4));
                let trace = ctx.flag();
                let mut c = chop_command(&["-E", "--csv-in-has-header", "yes"], &[]);
                c.args(args).current_dir(&dir).stdin(Stdio::null());
                if trace {
                    c.arg("--backtrace");
                }
                let full = || Stdio::from(std::fs::OpenOptions::new().write(true).open("/dev/full").expect("ENGINE: /dev/full"));
                let nobody = || {
                    let mut p = [0i32; 2];
                    assert!(unsafe { libc::pipe2(p.as_mut_ptr(), libc::O_CLOEXEC) } == 0, "ENGINE: pipe");
                    unsafe { libc::close(p[0]) };
                    Stdio::from(unsafe { OwnedFd::from_raw_fd(p[1]) })
                };
                c.stdout(match out {
                    0 => Stdio::piped(),
                    1 => nobody(),
                    _ => full(),
                });
                c.stderr(match err {
                    0 => full(),
                    1 => nobody(),
                    2 => Stdio::null(),
                    _ => Stdio::from(std::fs::File::create(dir.join("messages")).expect("ENGINE: file")),
                });
                if err == 2 {
                    unsafe {
                        c.pre_exec(|| {
                            libc::close(2);
                            Ok(())
                        });
                    }
                }
                let o = c.spawn().expect("ENGINE: cannot start chop").wait_with_output().expect("ENGINE: waiting for chop");
                ctx.step(&(args, out, err, trace));
                let how = || format!("{:?}{}, output {}, messages {}: {}", args, if trace { " --backtrace" } else { "" }, ["read", "not read", "full"][out], ["full", "not read", "closed", "in a file"][err], o.status);
                ctx.outcome(&(args, out, o.status.code()));
                ctx.note(how);
                // rows that cannot be written are an error as any other
                let want = if fine && (out == 0 || args.contains(&"-o")) { 0 } else { 1 };
                ensure!(o.status.code() == Some(want), "expected status {}: {}", want, how());
                if err == 3 {
                    let m = std::fs::read(dir.join("messages")).expect("ENGINE: messages");
                    // that nobody reads the output needs no message
                    let text = m.iter().any(|b| !b.is_ascii_whitespace());
                    ensure!(fine && out == 1 || text == (want == 1), "message {:?}: {}", String::from_utf8_lossy(&m), how());
                }
                Ok(())
            },
        );
        c.scenario(
            "not-unicode",
            "an argument that is not valid unicode as each option's value, as an option and as input, alone or after a proper input: no crash; \
             files and directories with such names inside a directory are read",
            0,
            move |ctx| {
                use std::ffi::OsStr;
                use std::os::unix::ffi::OsStrExt;
                let dir = ctx.fresh_dir();
                let bad = ctx.pick(&[&b"\xff.csv"[..], b"a\xc3", b"\xed\xa0\x80", b"--\xff", b"x\xffy/b.csv"]).to_vec();
                let bad = OsStr::from_bytes(&bad);
                const OPTS: [&str; 12] = [
                    "", "-o", "-z", "-b", "-e", "-f", "-g", "--delimiter", "--time-col-name", "--csv-in-ts-col", "--csv-in-ts-fmt", "--csv-in-delimiter",
                ];
                let opt = *ctx.pick(&OPTS);
                let inside = opt.is_empty() && ctx.flag();
                let before = ctx.flag();
                std::fs::create_dir_all(dir.join("d")).expect("ENGINE: directory");
                std::fs::write(dir.join("d/a.csv"), "timeSeconds,a\n1546300800,1\n").expect("ENGINE: file");
                let mut c = chop_command(&["-E", "--csv-in-has-header", "yes"], &[]);
                c.current_dir(&dir).stdin(std::process::Stdio::null());
                if before {
                    c.arg("d");
                }
                if inside {
                    if let Some(p) = std::path::Path::new(bad).parent() {
                        std::fs::create_dir_all(dir.join("d").join(p)).expect("ENGINE: directory");
                    }
                    std::fs::write(dir.join("d").join(bad), "timeSeconds,a\n1546300801,2\n").expect("ENGINE: file");
                    if !before {
                        c.arg("d");
                    }
                } else {
                    if !opt.is_empty() {
                        c.arg(opt);
                    }
                    c.arg(bad);
                }
                let o = c.output().expect("ENGINE: cannot start chop");
                let o = Out { code: o.status.code(), stdout: o.stdout, stderr: o.stderr };
                ctx.step(&(opt, inside, before, bad));
                ctx.outcome(&(opt, o.code));
                let how = || format!("{:?} {:?} in a directory {} after another {}: {}", opt, bad, inside, before, o.text());
                ctx.note(how);
                ensure!(!o.crashed(), "crash: {}", how());
                if inside {
                    let sub = bad.as_bytes().contains(&b'/');
                    let n = if sub { 2 } else { 3 };
                    ensure!(o.code == Some(0) && o.stdout_text().lines().count() == n, "expected {} lines: {}", n, how());
                } else {
                    ensure!(o.code == Some(0) || !o.stderr.is_empty(), "no message: {}", how());
                }
                Ok(())
            },
        );
        c.scenario(
            "output-among-inputs",
            "every sequence of 1 to 2 (thorough 3) inputs of 9 (files, symbolic and hard links to them, a directory, a link to it, the directory above), or standard input from 4 files, x 15 outputs (new ones, \
             existing ones, the inputs under this or another name, files in the input directory), named or standard output appended to them, x short or 200 KB long files: an output that is read as \
             input too is refused, and no file is changed; otherwise the inputs are not changed and the output is what a pipe would get",
            0,
            move |ctx| {
                use std::os::unix::fs::symlink;
                let n = ctx.choose(if t { 4 } else { 3 });
                let long = n < 3 && ctx.flag();
                let dir = ctx.fresh_dir();
                let rows = if long { 9000 } else { 2 };
                let body = |at: usize| {
                    let mut s = "time,v\n".to_string();
                    for i in 0..rows {
                        s += &format!("{},value {}\n", 1_546_300_800 + at + i, i);
                    }
                    s
                };
                std::fs::create_dir_all(dir.join("d/s")).expect("ENGINE: directory");
                const FILES: [&str; 5] = ["a.csv", "b.csv", "d/1.csv", "d/2.csv", "d/s/x.csv"];
                for (i, f) in FILES.iter().enumerate() {
                    std::fs::write(dir.join(f), body(i * 10)).expect("ENGINE: file");
                }
                symlink("a.csv", dir.join("la.csv")).expect("ENGINE: link");
                symlink("d", dir.join("ld")).expect("ENGINE: link");
                symlink("../b.csv", dir.join("d/3.csv")).expect("ENGINE: link");
                std::fs::hard_link(dir.join("a.csv"), dir.join("ha.csv")).expect("ENGINE: link");
                std::fs::hard_link(dir.join("d/2.csv"), dir.join("h2.csv")).expect("ENGINE: link");
                // what each of the names reads
                const INPUTS: [(&str, &[&str]); 9] = [
                    ("a.csv", &["a.csv"]),
                    ("./d/../a.csv", &["a.csv"]),
                    ("la.csv", &["a.csv"]),
                    ("b.csv", &["b.csv"]),
                    ("d", &["d/1.csv", "d/2.csv", "b.csv"]),
                    ("ld/", &["d/1.csv", "d/2.csv", "b.csv"]),
                    ("d/1.csv", &["d/1.csv"]),
                    ("d/s", &["d/s/x.csv"]),
                    ("ha.csv", &["a.csv"]),
                ];
                let here = dir.to_string_lossy().to_string();
                let outputs: [(String, &str); 15] = [
                    ("a.csv".into(), "a.csv"),
                    ("./a.csv".into(), "a.csv"),
                    (format!("{}/a.csv", here), "a.csv"),
                    ("la.csv".into(), "a.csv"),
                    ("ha.csv".into(), "a.csv"),
                    ("h2.csv".into(), "d/2.csv"),
                    ("d/../b.csv".into(), "b.csv"),
                    ("d/3.csv".into(), "b.csv"),
                    ("d/1.csv".into(), "d/1.csv"),
                    ("ld/2.csv".into(), "d/2.csv"),
                    ("d/s/x.csv".into(), "d/s/x.csv"),
                    ("d/new.csv".into(), "d/new.csv"),
                    ("new.csv".into(), "new.csv"),
                    ("./ld/../new.csv".into(), "new.csv"),
                    ("d/s/../../new2.csv".into(), "new2.csv"),
                ];
                let mut ins: Vec<(&str, &[&str])> = (0..n).map(|_| *ctx.pick(&INPUTS)).collect();
                let from = if n == 0 {
                    let i = *ctx.pick(&[INPUTS[0], INPUTS[2], INPUTS[6], INPUTS[8]]);
                    ins.push(i);
                    Some(i.0)
                } else {
                    None
                };
                let append = ctx.flag();
                let (out, file) = ctx.pick(&outputs).clone();
                // a file that is appended to exists before
                let twice = ins.iter().any(|(n, r)| r.contains(&file) || (append && file == "d/new.csv" && (*n == "d" || *n == "ld/")));
                let state = || -> Vec<Option<Vec<u8>>> { FILES.iter().map(|f| std::fs::read(dir.join(f)).ok()).collect() };
                let before = state();
                let run = |out: Option<&str>| {
                    let mut c = chop_command(&["-E", "--csv-in-has-header", "yes"], &[]);
                    c.current_dir(&dir).stdin(std::process::Stdio::null());
                    match from {
                        Some(f) => {
                            c.stdin(std::fs::File::open(dir.join(f)).expect("ENGINE: open"));
                        }
                        None => {
                            c.args(ins.iter().map(|i| i.0));
                        }
                    }
                    c.stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::piped());
                    match out {
                        Some(o) if append => {
                            let f = std::fs::OpenOptions::new().append(true).create(true).open(dir.join(o)).expect("ENGINE: open");
                            c.stdout(f);
                            // a run that reads what it writes would go on for ever
                            use std::os::unix::process::CommandExt;
                            unsafe {
                                c.pre_exec(|| {
                                    let l = libc::rlimit { rlim_cur: 10 << 20, rlim_max: 10 << 20 };
                                    libc::setrlimit(libc::RLIMIT_FSIZE, &l);
                                    Ok(())
                                });
                            }
                        }
                        Some(o) => {
                            c.args(["-o", o]);
                        }
                        None => {}
                    }
                    let o = c.output().expect("ENGINE: cannot start chop");
                    Out { code: o.status.code(), stdout: o.stdout, stderr: o.stderr }
                };
                let plain = run(None);
                let o = run(Some(&out));
                ctx.step(&(long, &ins, &out, append, from));
                ctx.outcome(&(twice, append, o.code));
                let how = || format!("inputs {:?}{} output {}{}: {}", ins, if from.is_some() { " (standard)" } else { "" }, out, if append { " appended to" } else { "" }, o.text());
                ctx.note(how);
                ensure!(plain.code == Some(0) && plain.stdout.len() > 20, "to standard output: {}", plain.text());
                ensure!(!o.crashed(), "crash: {}", how());
                let mut want = before.clone();
                if twice {
                    ensure!(o.code != Some(0) && !o.stderr.is_empty(), "accepted: {}", how());
                } else {
                    ensure!(o.code == Some(0), "refused: {}", how());
                    let got = std::fs::read(dir.join(file)).unwrap_or_default();
                    let mut all = Vec::new();
                    if append {
                        all = FILES.iter().position(|f| *f == file).and_then(|i| before[i].clone()).unwrap_or_default();
                    }
                    all.extend(&plain.stdout);
                    ensure!(got == all, "{} bytes written, {} to standard output: {}", got.len(), plain.stdout.len(), how());
                    if let Some(i) = FILES.iter().position(|f| *f == file) {
                        want[i] = Some(got);
                    }
                }
                let after = state();
                for (i, f) in FILES.iter().enumerate() {
                    ensure!(after[i] == want[i], "{} was changed: {}", f, how());
                }
                Ok(())
            },
        );
        c.scenario(
            "odd-names",
            "inputs and outputs of 34 odd names (one dash, dashes first, blanks and tabs around, commas, colons, wildcards, quotes, a tilde, a percent sign, backslashes, line ends, hidden, upper case, other \
             scripts), with other files beside them under each name they could be taken for; named as they are (after -- or not), from the directory or by the whole path; alone or before \
             another input: the file of that very name is read or written, or the output refused if its name ends in neither csv nor dc",
            0,
            |ctx| {
                const NAMES: [&str; 34] = [
                    "-", "--", "-x.csv", "--output", "-o", " a.csv", "a.csv ", "a.csv\t", "\ta.csv", "a.csv\n", "a b.csv", "a,b.csv", "a;b.csv", "a:b.csv", "*.csv", "?.csv", "[a].csv", "~", "~.csv",
                    "$HOME.csv", "a%20b.csv", "a\\b.csv", "'a.csv'", "\"a.csv\"", ".a.csv", "A.CSV", "a.Csv", "#a.csv", "e\u{301}.csv", "\u{e9}.csv", "\u{a0}a.csv", "漢.csv", "csv", ".csv",
                ];
                let name = *ctx.pick(&NAMES);
                let way = ctx.choose(4);
                let out = ctx.flag();
                let more = ctx.flag();
                let dir = ctx.fresh_dir();
                let arg = match way {
                    0 | 1 => name.to_string(),
                    2 => format!("./{}", name),
                    _ => format!("{}/{}", dir.to_string_lossy(), name),
                };
                if way == 0 && name.starts_with('-') {
                    return Ok(());
                }
                let body = |x: &str| format!("time,v\n1546300800,{}\n", x);
                let result = |x: &str| format!("timestampNanos,time,v\n1546300800000000000,1546300800,{}\n", x);
                // what it could be taken for
                let mut others = vec![name.trim().to_string(), name.to_lowercase(), name.replace('\\', "/"), "a b.csv".into(), "a".into(), "b.csv".into(), "a.csv".into(), "ab.csv".into()];
                others.extend(["e\u{301}.csv", "\u{e9}.csv", "$HOME", "A.csv", "a.csv", "_.csv"].map(|x| x.to_string()));
                for o in &others {
                    if o != name && !o.contains('/') && !o.is_empty() {
                        std::fs::write(dir.join(o), body("wrong")).expect("ENGINE: file");
                    }
                }
                std::fs::write(dir.join("more.csv"), body("more")).expect("ENGINE: file");
                let list = || -> Vec<(std::ffi::OsString, Vec<u8>)> {
                    let mut v: Vec<_> = std::fs::read_dir(&dir)
                        .expect("ENGINE: directory")
                        .map(|e| e.expect("ENGINE: entry"))
                        .map(|e| (e.file_name(), std::fs::read(e.path()).unwrap_or_default()))
                        .collect();
                    v.sort();
                    v
                };
                let mut c = chop_command(&["-E", "--csv-in-has-header", "yes", "-f", "csv,csv"], &[]);
                c.current_dir(&dir).stdin(std::process::Stdio::piped());
                let accepted = name.ends_with("csv");
                if out {
                    // a name given as -o=name may start with a dash
                    match way {
                        1 => c.arg(format!("--output={}", arg)),
                        _ => c.arg("-o").arg(&arg),
                    };
                    c.arg("more.csv");
                    if more {
                        std::fs::write(dir.join(name), body("before, and longer than what comes")).expect("ENGINE: file");
                    }
                } else {
                    std::fs::write(dir.join(name), body("right")).expect("ENGINE: file");
                    if way == 1 {
                        c.arg("--");
                    }
                    c.arg(&arg);
                    if more {
                        c.arg("more.csv");
                    }
                }
                let mut want = list();
                c.stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::piped());
                let o = {
                    use std::io::Write;
                    let mut ch = c.spawn().expect("ENGINE: cannot start chop");
                    if let Some(mut p) = ch.stdin.take() {
                        let _ = p.write_all(body("standard input").as_bytes());
                    }
                    let o = ch.wait_with_output().expect("ENGINE: waiting for chop");
                    Out { code: o.status.code(), stdout: o.stdout, stderr: o.stderr }
                };
                ctx.step(&(name, way, out, more));
                ctx.outcome(&(o.code, &o.stdout));
                let how = || format!("{} {:?}{}: {}", if out { "output" } else { "input" }, arg, if more { " and another" } else { "" }, o.text());
                ctx.note(how);
                ensure!(!o.crashed(), "crash: {}", how());
                let after = list();
                if out {
                    if accepted {
                        ensure!(o.code == Some(0) && o.stdout.is_empty(), "not written: {}", how());
                        want.retain(|x| x.0 != name);
                        want.push((name.into(), result("more").into_bytes()));
                        want.sort();
                    } else {
                        ensure!(o.code == Some(1) && !o.stderr.is_empty(), "accepted: {}", how());
                    }
                } else {
                    ensure!(o.code == Some(0), "not read: {}", how());
                    let mut w = result("right");
                    if more {
                        w += result("more").split_once('\n').map_or("", |x| x.1);
                    }
                    ensure!(o.stdout == w.as_bytes(), "expected {:?}: {}", w, how());
                }
                for (a, b) in want.iter().zip(&after) {
                    ensure!(a == b, "files: {:?}, expected {:?}: {}", b, a, how());
                }
                ensure!(want.len() == after.len(), "files: {:?}, expected {:?}: {}", after.iter().map(|x| &x.0).collect::<Vec<_>>(), want.iter().map(|x| &x.0).collect::<Vec<_>>(), how());
                Ok(())
            },
        );
        c.scenario(
            "spelled-formats",
            "22 pairs of date and time formats and 14 formats of one column, read with -z UTC and -z Asia/Tokyo, columns by name and by number, where each format and each text of the two lines comes from a table that was written by hand",
            0,
            |ctx| {
                // 2019-01-02 and 2019-11-30; 15:04:05 or what of it the format says
                const D: [i64; 2] = [1_546_387_200, 1_575_072_000];
                let split = ctx.flag();
                let (f, cells, g, times, of_day): (&str, [&str; 2], Option<&str>, [&str; 2], [i64; 2]) = if split {
                    let ymd = ["20190102", "20191130"];
                    let hms = 54_245i64;
                    *ctx.pick(&[
                        ("%Y%m%d", ymd, None, ["15:04:05", "00:00:01"], [hms, 1]),
                        ("%Y%m%d", ymd, Some("%H:%M:%S"), ["15:04:05", "00:00:01"], [hms, 1]),
                        ("%Y%m%d", ymd, Some("%H%M%S"), ["150405", "000001"], [hms, 1]),
                        ("%Y%m%d", ymd, Some("%T"), ["15:04:05", "23:59:59"], [hms, 86_399]),
                        ("%Y%m%d", ymd, Some("%R"), ["15:04", "23:59"], [54_240, 86_340]),
                        ("%Y%m%d", ymd, Some("%H:%M"), ["15:04", "00:00"], [54_240, 0]),
                        ("%Y%m%d", ymd, Some("%Hh%M"), ["15h04", "01h00"], [54_240, 3600]),
                        ("%Y%m%d", ymd, Some("%I:%M:%S %p"), ["03:04:05 PM", "12:00:00 AM"], [hms, 0]),
                        ("%Y%m%d", ymd, Some("at %H.%M.%S"), ["at 15.04.05", "at 00.10.00"], [hms, 600]),
                        ("%Y%m%d", ymd, Some("noon"), ["noon", "noon"], [0, 0]),
                        ("%Y%m%d", ymd, Some("#"), ["#", "#"], [0, 0]),
                        ("%Y%m%d", ymd, Some(""), ["", ""], [0, 0]),
                        ("%Y%m%d", ymd, Some("%H:%M:%S%%"), ["15:04:05%", "00:00:01%"], [hms, 1]),
                        ("%Y%m%d", ymd, Some("%H#%M"), ["15#04", "23#59"], [54_240, 86_340]),
                        ("%Y#%m#%d", ["2019#01#02", "2019#11#30"], Some("%T"), ["15:04:05", "00:00:01"], [hms, 1]),
                        ("%Y-%m-%d", ["2019-01-02", "2019-11-30"], None, ["15:04:05", "00:00:01"], [hms, 1]),
                        ("%d/%m/%Y", ["02/01/2019", "30/11/2019"], None, ["15:04:05", "00:00:01"], [hms, 1]),
                        ("%m/%d/%y", ["01/02/19", "11/30/19"], Some("%H%M"), ["1504", "0001"], [54_240, 60]),
                        ("%d %b %Y", ["02 Jan 2019", "30 Nov 2019"], Some("%H,%M"), ["\"15,04\"", "\"01,00\""], [54_240, 3600]),
                        ("%F", ["2019-01-02", "2019-11-30"], Some("%T"), ["15:04:05", "00:00:01"], [hms, 1]),
                        ("%Y%j", ["2019002", "2019334"], Some("%T"), ["15:04:05", "00:00:01"], [hms, 1]),
                        ("%%%Y.%m.%d", ["%2019.01.02", "%2019.11.30"], Some("%T"), ["15:04:05", "00:00:01"], [hms, 1]),
                    ])
                } else {
                    let none = ["", ""];
                    *ctx.pick(&[
                        ("%d/%m/%Y %H:%M:%S", ["02/01/2019 15:04:05", "30/11/2019 00:00:01"], None, none, [54_245, 1]),
                        ("%m/%d/%Y %H:%M:%S", ["01/02/2019 15:04:05", "11/30/2019 00:00:01"], None, none, [54_245, 1]),
                        ("%d.%m.%y", ["02.01.19", "30.11.19"], None, none, [0, 0]),
                        ("%y.%m.%d", ["19.01.02", "19.11.30"], None, none, [0, 0]),
                        ("%Y%m%d", ["20190102", "20191130"], None, none, [0, 0]),
                        ("%Y-%m-%d", ["2019-01-02", "2019-11-30"], None, none, [0, 0]),
                        ("%b %d %Y %H:%M", ["Jan 02 2019 15:04", "Nov 30 2019 00:01"], None, none, [54_240, 60]),
                        ("%d%b%Y:%H:%M:%S", ["02Jan2019:15:04:05", "30Nov2019:00:00:01"], None, none, [54_245, 1]),
                        ("%Y%m%d%H%M%S", ["20190102150405", "20191130000001"], None, none, [54_245, 1]),
                        ("%Y-%m-%dT%H:%M:%S", ["2019-01-02T15:04:05", "2019-11-30T00:00:01"], None, none, [54_245, 1]),
                        ("day %Y/%j", ["day 2019/002", "day 2019/334"], None, none, [0, 0]),
                        ("%I.%M %p on %F", ["03.04 PM on 2019-01-02", "12.00 AM on 2019-11-30"], None, none, [54_240, 0]),
                        ("%H:%M:%S %d-%m-%Y", ["15:04:05 02-01-2019", "00:00:01 30-11-2019"], None, none, [54_245, 1]),
                        ("#%Y%m%d#%H#%M", ["#20190102#15#04", "#20191130#01#00"], None, none, [54_240, 3600]),
                    ])
                };
                let z = *ctx.pick(&["UTC", "Asia/Tokyo"]);
                let by_number = ctx.flag();
                let (d, t) = if by_number { ("0", "2") } else { ("day", "clock") };
                let mut args = vec!["--csv-in-has-header", "yes", "-E", "-z", z];
                if split {
                    args.extend(["--csv-in-ts-col-date", d, "--csv-in-ts-col-time", t, "--csv-in-ts-fmt-date", f]);
                    if let Some(g) = g {
                        args.extend(["--csv-in-ts-fmt-time", g]);
                    }
                } else {
                    args.extend(["--csv-in-ts-col", d, "--csv-in-ts-fmt", f]);
                }
                let mut text = String::from("day,a,clock\n");
                for i in 0..2 {
                    text += &format!("{},{},{}\n", cells[i], i + 7, times[i]);
                }
                let p = ctx.fresh_dir().join("a.csv");
                std::fs::write(&p, &text).expect("ENGINE: file");
                let mut c = chop_command(&args, &[]);
                c.arg(&p).stdin(std::process::Stdio::null());
                let o = c.output().expect("ENGINE: cannot start chop");
                let o = Out { code: o.status.code(), stdout: o.stdout, stderr: o.stderr };
                ctx.step(&(f, g, z, by_number));
                ctx.outcome(&o.stdout);
                let how = || format!("{:?} with {:?}: {}", args, text, o.text());
                ctx.note(how);
                ensure!(o.code == Some(0), "refused: {}", how());
                let out = o.stdout_text();
                let mut lines = out.lines().skip(1);
                for i in 0..2 {
                    let at = D[i] + of_day[i] - if z == "UTC" { 0 } else { 32_400 };
                    let l = lines.next().unwrap_or("");
                    ensure!(l.starts_with(&format!("{}000000000,", at)) && l.contains(&(i + 7).to_string()), "line {} is not of {}: {}", i, at, how());
                }
                ensure!(lines.next().is_none(), "more lines: {}", how());
                Ok(())
            },
        );
        c.scenario(
            "timezone-not-unicode",
            "a timezone variable that is not valid unicode, with and without a timezone option or the embedding program's own names, for values that do and do not need a zone: an error unless the option names the zone",
            0,
            |ctx| {
                use std::ffi::OsStr;
                use std::os::unix::ffi::OsStrExt;
                let bad = *ctx.pick(&[&b"\xff"[..], b"UTC\xff", b"Asia/Tok\xc3", b"\xed\xa0\x80"]);
                let z = *ctx.pick(&[None, Some("UTC"), Some("Asia/Tokyo"), Some("nowhere")]);
                let map = ctx.flag();
                let local = ctx.flag();
                let mut args = vec!["--csv-in-has-header", "yes", "-E"];
                if let Some(z) = z {
                    args.extend(["-z", z]);
                }
                let mut c = chop_command(&args, if map { &[("MC_TZ_MAP", "mine=UTC")] } else { &[] });
                c.env("CHOPPER_TZ", OsStr::from_bytes(bad));
                let p = ctx.fresh_dir().join("a.csv");
                std::fs::write(&p, if local { "time,a\n20190101 00:00:00,1\n" } else { "time,a\n1546300800,1\n" }).expect("ENGINE: file");
                c.arg(&p).stdin(std::process::Stdio::null());
                let o = c.output().expect("ENGINE: cannot start chop");
                let o = Out { code: o.status.code(), stdout: o.stdout, stderr: o.stderr };
                ctx.step(&(bad, z, map, local));
                ctx.outcome(&o.code);
                let how = || format!("variable {:?} option {:?} own names {} local {}: {}", bad, z, map, local, o.text());
                ctx.note(how);
                ensure!(!o.crashed(), "crash: {}", how());
                let good = matches!(z, Some("UTC") | Some("Asia/Tokyo"));
                if good {
                    let at = if local && z == Some("Asia/Tokyo") { 1_546_268_400u64 } else { 1_546_300_800 };
                    ensure!(o.code == Some(0), "refused: {}", how());
                    ensure!(o.stdout_text().contains(&format!("\n{}000000000,", at)), "expected {}: {}", at, how());
                } else {
                    ensure!(o.code != Some(0) && !o.stderr.is_empty(), "accepted: {}", how());
                }
                Ok(())
            },
        );
    });
}
