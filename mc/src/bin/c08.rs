//! C08: every CSV row and cell is delivered exactly, none lost or carried over.
use chopper::chopper::types::FieldType;
use chopper::cli::util::YesNoAuto;
use chopper::source::csv_configs::*;
use chopper::source::csv_timestamp::TimestampUnits;
use chopper::util::tz::ChopperTz;
use mc::kit::*;
use mc::*;

const S: u64 = 1_000_000_000;

#[derive(Clone, Copy, Debug, Hash, PartialEq)]
enum Head {
    Yes,
    No,
    Auto,
}

fn cfg(delim: Option<&str>, head: Head) -> Result<CSVInputConfig, String> {
    cfg_at(delim, head, 0)
}

fn cfg_at(delim: Option<&str>, head: Head, time_col: usize) -> Result<CSVInputConfig, String> {
    let h = match head {
        Head::Yes => YesNoAuto::Yes,
        Head::No => YesNoAuto::No,
        Head::Auto => YesNoAuto::Auto,
    };
    CSVInputConfig::new(
        delim,
        h,
        TimestampConfig::new(
            TimestampColConfig::Index(time_col),
            TimestampFmtConfig::Epoch(TimestampUnits::Seconds),
            ChopperTz::new_always_fails(),
        ),
    )
    .map_err(|e| err_text(&e))
}

/// A cell as written, and what it reads as.
#[derive(Clone, Debug, Hash)]
struct C(String, String);

fn plain(s: &str) -> C {
    C(s.to_string(), s.to_string())
}

fn quoted(s: &str) -> C {
    C(format!("\"{}\"", s.replace('"', "\"\"")), s.trim_matches(' ').to_string())
}

/// Records to text; expected rows up to the first bad one, and whether there is a bad one.
struct File {
    text: String,
    names: Vec<String>,
    rows: Vec<R>,
    bad: bool,
    time_col: usize,
}

fn file(delim: &str, head: Option<&[C]>, recs: &[Vec<C>], nl: &str, last_nl: bool) -> File {
    file_at(delim, head, recs, nl, last_nl, 0)
}

fn file_at(delim: &str, head: Option<&[C]>, recs: &[Vec<C>], nl: &str, last_nl: bool, time_col: usize) -> File {
    let mut text = String::new();
    let line = |r: &[C]| r.iter().map(|c| c.0.clone()).collect::<Vec<_>>().join(delim);
    let mut lines: Vec<String> = Vec::new();
    if let Some(h) = head {
        lines.push(line(h));
    }
    lines.extend(recs.iter().map(|r| line(r)));
    text.push_str(&lines.join(nl));
    if last_nl && !lines.is_empty() {
        text.push_str(nl);
    }
    let n = head.map_or(recs.get(0).map_or(0, |r| r.len()), |h| h.len());
    let names = match head {
        Some(h) => h.iter().map(|c| c.1.clone()).collect(),
        None => (0..n).map(|i| format!("col_{}", i)).collect(),
    };
    let mut rows = Vec::new();
    let mut bad = false;
    for r in recs {
        if r.len() > n {
            bad = true;
            break;
        }
        let mut v: Vec<V> = r.iter().map(|c| V::S(c.1.clone())).collect();
        while v.len() < n {
            v.push(V::N);
        }
        rows.push((r[time_col].1.parse::<u64>().unwrap_or(0) * S, v));
    }
    File { text, names, rows, bad, time_col }
}

fn cut(s: &str) -> String {
    s.chars().take(400).collect()
}

fn check(ctx: &mut Ctx, f: &File, delim: Option<&str>, head: Head) -> Res {
    ctx.note(|| format!("delimiter {:?}, header {:?}, {} bytes: {:?}", delim, head, f.text.len(), cut(&f.text)));
    for x in f.rows.iter().take(40) {
        ctx.step(&(delim, head, &f.names, x, f.text.len()));
    }
    ctx.step(&(hash_of(&f.text), f.rows.len(), f.bad));
    let c = cfg_at(delim, head, f.time_col)?;
    let got = open_and_read(csv_source(f.text.as_bytes(), &c));
    ctx.outcome(&got);
    let what = || format!("delimiter {:?}, header {:?}, input {:?}", delim, head, cut(&f.text));
    let rd = match got {
        Err(e) => {
            ensure!(f.bad, "{}: error {}", what(), e);
            return Ok(());
        }
        Ok(r) => r,
    };
    ensure!(rd.header.names == f.names, "{}: columns {:?}, expected {:?}", what(), rd.header.names, f.names);
    ensure!(
        rd.header.types.len() == f.names.len() && rd.header.types.iter().all(|t| *t == FieldType::String),
        "{}: types {:?}",
        what(),
        rd.header.types
    );
    ensure!(f.bad == rd.err.is_some(), "{}: error {:?}, expected one: {}", what(), rd.err, f.bad);
    ensure!(
        rd.rows.len() <= f.rows.len() && (f.bad || rd.rows.len() == f.rows.len()),
        "{}: {} rows, expected {}",
        what(),
        rd.rows.len(),
        f.rows.len()
    );
    for (i, (a, b)) in rd.rows.iter().zip(f.rows.iter()).enumerate() {
        // an absent cell may be null or empty text
        let same = a.0 == b.0
            && a.1.len() == b.1.len()
            && a.1.iter().zip(&b.1).all(|(x, y)| x == y || (*y == V::N && *x == V::S(String::new())));
        ensure!(
            same,
            "{}: row {} is {}, expected {}",
            what(),
            i,
            cut(&format!("{:?}", a)),
            cut(&format!("{:?}", b))
        );
    }
    Ok(())
}

fn time(i: usize) -> C {
    plain(&format!("{}", 1_546_300_800 + i))
}

fn names(n: usize) -> Vec<C> {
    (0..n).map(|i| plain(["time", "aa", "bb", "cc", "dd", "ee"][i])).collect()
}

fn pool(delim: &str) -> Vec<C> {
    let mut p = vec![
        plain("x"),
        plain(""),
        plain("12"),
        quoted(&format!("a{}b", delim)),
        quoted(""),
        quoted("say \"hi\""),
        quoted("two\nlines"),
        quoted("\r\n"),
        quoted("a\r\nb\rc"),
        quoted(&delim.repeat(3)),
        plain("é漢🦀"),
        plain("in\"side"),
        plain("'x'"),
        plain("\\"),
        plain("#c"),
    ];
    if delim != " " {
        p.push(C("  x y ".into(), "x y".into()));
        p.push(C("   ".into(), "".into()));
        p.push(C("\"  q \"".into(), "q".into()));
    }
    // the blanks that surround a quoted text are trimmed like any others
    for c in p.iter_mut() {
        c.1 = c.1.trim().to_string();
    }
    p
}

const DELIMS: [&str; 6] = [",", "\t", " ", ";", "|", "x"];

fn main() {
    mc::main("C08", Level::ModelChecking, |c| {
        let t = c.thorough;
        c.scenario(
            "cells",
            "3 columns: both non-time cells of a record each any of 18 kinds of cell (blank-padded, quoted with \
             delimiter, quote or newlines, empty, non-ASCII, ...), before a plain record; thorough: the cells of \
             the second record vary too; 6 delimiters or guessed, 3 header modes, LF, CRLF or CR, with and \
             without final line end",
            0,
            move |ctx| {
                let k = ctx.choose(7);
                let (d, conf) = if k == 6 { (",", None) } else { (DELIMS[k], Some(DELIMS[k])) };
                let d_arg = if d == "\t" { Some("\\t") } else { conf };
                let head = *ctx.pick(&[Head::Yes, Head::No, Head::Auto]);
                let nl = *ctx.pick(&["\n", "\r\n", "\r"]);
                if nl == "\r" && (head == Head::Auto || conf.is_none()) {
                    return Ok(()); // nothing to guess from: there is no line
                }
                let p: Vec<C> = pool(d).into_iter().filter(|c| d != "x" || !c.0.contains('x') || c.0.starts_with('"')).collect();
                let last = ctx.flag();
                let a = ctx.pick(&p).clone();
                let b = ctx.pick(&p).clone();
                if conf.is_none() && head == Head::No && (a.0.starts_with('"') || b.0.starts_with('"') || a.0.contains(' ') || b.0.contains(' ')) {
                    return Ok(()); // the first line does not imply the delimiter
                }
                let mut recs = vec![vec![time(0), a, b]];
                if t {
                    recs.push(vec![time(1), ctx.pick(&p).clone(), ctx.pick(&p).clone()]);
                } else {
                    recs.push(vec![time(1), plain("z"), ctx.pick(&p[..3]).clone()]);
                }
                let mut hd = names(3);
                if d == "x" {
                    hd = vec![plain("time"), plain("n1"), plain("n2")];
                }
                let f = file(d, if head == Head::No { None } else { Some(&hd) }, &recs, nl, last);
                check(ctx, &f, d_arg, head)
            },
        );
        c.scenario(
            "names",
            "headers of 1..=4 columns, each name any of 11 kinds (blank-padded, quoted, with delimiter, quote or \
             newline, without text, like another, non-ASCII, number), before 2 records; header given or guessed, 3 \
             delimiters, 3 line ends, with and without final line end",
            0,
            move |ctx| {
                let d = *ctx.pick(&[",", "\t", ";"]);
                let head = *ctx.pick(&[Head::Yes, Head::Auto]);
                let nl = *ctx.pick(&["\n", "\r\n", "\r"]);
                let last = ctx.flag();
                let p = [
                    plain("aa"),
                    plain(""),
                    C("  pad ded ".into(), "pad ded".into()),
                    quoted(&format!("q{}q", d)),
                    quoted("two\nlines"),
                    quoted("say \"x\""),
                    C(" \"in blanks\"".into(), "".into()),
                    plain("\u{e9}\u{6f22}"),
                    plain("7"),
                    plain("AA"),
                    C("   ".into(), "".into()),
                ];
                let n = 1 + ctx.choose(if t { 4 } else { 3 });
                let hd: Vec<C> = (0..n)
                    .map(|i| match ctx.choose(if i == 0 && head == Head::Auto { 1 } else { p.len() }) {
                        6 => quoted("\u{201e}"),
                        k => p[k].clone(),
                    })
                    .collect();
                if n == 1 && hd[0].0.is_empty() {
                    return Ok(()); // an empty line
                }
                if head == Head::Auto && (nl == "\r" || hd.iter().any(|c| c.0.starts_with('"'))) {
                    return Ok(()); // the lines to guess from are not the records
                }
                let rec = |i: usize| (0..n).map(|j| if j == 0 { time(i) } else { plain(&format!("r{}c{}", i, j)) }).collect();
                let f = file(d, Some(&hd), &[rec(0), rec(1)], nl, last);
                check(ctx, &f, Some(if d == "\t" { "\\t" } else { d }), head)
            },
        );
        c.scenario(
            "lengths",
            "5 records of 1 to 4 cells each under a 3-column header, or without header (the first record \
             decides), last cell empty or not, thorough: 6 records",
            0,
            move |ctx| {
                let head = ctx.flag();
                let d = *ctx.pick(&[",", ";"]);
                let n = if t { 6 } else { 5 };
                let empty = ctx.flag();
                let mut recs = Vec::new();
                for i in 0..n {
                    let k = 1 + ctx.choose(4);
                    let mut r = vec![time(i)];
                    for j in 1..k {
                        r.push(plain(&format!("r{}c{}", i, j)));
                    }
                    if empty && k > 1 {
                        r[k - 1] = plain("");
                    }
                    recs.push(r);
                }
                let hd = names(3);
                let f = file(d, if head { Some(&hd) } else { None }, &recs, "\n", true);
                check(ctx, &f, Some(d), if head { Head::Yes } else { Head::No })
            },
        );
        c.scenario(
            "empty",
            "17 inputs without records (nothing, line ends only, blank lines, header only with any line end) \
             x 4 delimiter settings x header modes: a source without rows",
            0,
            |ctx| {
                let heads = ["", "time,aa,bb", "time", "time;aa", "\"ti,me\",x"];
                let h = *ctx.pick(&heads);
                let end = *ctx.pick(&["", "\n", "\r\n", "\n\n", "\n\r\n\n"]);
                let d = *ctx.pick(&[None, Some(","), Some(";"), Some("\\t")]);
                let head = *ctx.pick(&[Head::Yes, Head::No, Head::Auto]);
                if !h.is_empty() && head != Head::Yes {
                    return Ok(()); // a row then
                }
                let text = format!("{}{}", h, end);
                ctx.step(&(&text, d, head));
                let c = cfg(d, head)?;
                let got = open_and_read(csv_source(text.as_bytes(), &c));
                ctx.note(|| format!("{:?} delimiter {:?} header {:?}: {:?}", text, d, head, got));
                ctx.outcome(&got);
                let ok = match &got {
                    Ok(r) => r.rows.is_empty() && r.err.is_none(),
                    _ => false,
                };
                ensure!(ok, "{:?} delimiter {:?} header {:?}: {:?}", text, d, head, got);
                if let Ok(r) = got {
                    let sep = match d {
                        Some("\\t") => '\t',
                        Some(";") => ';',
                        _ => ',',
                    };
                    if !h.starts_with('"') {
                        let want: Vec<&str> =
                            if h.is_empty() { vec![] } else { h.split(sep).collect() };
                        ensure!(r.header.names == want, "{:?}: columns {:?}", text, r.header.names);
                    }
                }
                Ok(())
            },
        );
        c.scenario(
            "blank-lines",
            "3 records, 0..=2 empty lines before the header and before, between and after them, LF or CRLF",
            0,
            |ctx| {
                let nl = *ctx.pick(&["\n", "\r\n"]);
                let head = ctx.flag();
                let recs: Vec<Vec<C>> =
                    (0..3).map(|i| vec![time(i), plain(&format!("v{}", i)), plain("")]).collect();
                let hd = names(3);
                let mut f = file(",", if head { Some(&hd) } else { None }, &recs, "\n", true);
                let mut text = String::new();
                for l in f.text.lines() {
                    text.push_str(&nl.repeat(ctx.choose(3)));
                    text.push_str(l);
                    text.push_str(nl);
                }
                text.push_str(&nl.repeat(ctx.choose(3)));
                f.text = text;
                check(ctx, &f, Some(","), if head { Head::Yes } else { Head::No })
            },
        );
        c.scenario(
            "boundary",
            "a first record that ends d bytes from the 8192-byte buffer length (or twice or four times it), d in \
             -24..=24, then 3 short records; plain, quoted or multi-line filler, in the record or in the header; \
             3 line ends/final line end choices, 3 header modes",
            0,
            move |ctx| {
                let mult = *ctx.pick(&[1usize, 2, 4]);
                let off = ctx.choose(49) as i64 - 24;
                let kind = ctx.choose(4);
                let head = *ctx.pick(&[Head::Yes, Head::No, Head::Auto]);
                let (nl, last) = *ctx.pick(&[("\n", true), ("\n", false), ("\r\n", true)]);
                if head == Head::Auto && kind == 3 {
                    return Ok(());
                }
                let target = (8192 * mult) as i64 + off;
                let hd = names(3);
                let mk = |n: usize| -> File {
                    let fill = match kind {
                        0 | 3 => plain(&"f".repeat(n)),
                        1 => quoted(&"a,".repeat((n + 1) / 2)[..n]),
                        _ => {
                            let s = format!("{}f", "l\n".repeat((n + 1) / 2))[..n].to_string();
                            let e = s.trim().to_string();
                            C(format!("\"{}\"", s), e)
                        }
                    };
                    let mut h2 = hd.clone();
                    let mut recs = vec![vec![time(0), plain("p"), plain("q")]];
                    if kind == 3 && head == Head::Yes {
                        h2[2] = fill;
                    } else {
                        recs[0][2] = fill;
                    }
                    for i in 1..4 {
                        recs.push(vec![time(i), plain(&format!("v{}", i)), plain(&format!("w{}", i))]);
                    }
                    file(",", if head == Head::No { None } else { Some(&h2) }, &recs, nl, last)
                };
                // the three short records and line ends take a fixed length
                let base = mk(1).text.len();
                let tail: usize = 3 * 16 + 2 * nl.len() + if last { nl.len() } else { 0 };
                let n = (target - (base - tail) as i64 + 1).max(1) as usize;
                let f = mk(n);
                // the header is guessed from complete lines within the first 8192 bytes
                let second = f.text.split_inclusive('\n').take(2).map(|l| l.len()).sum::<usize>();
                if head == Head::Auto && (second > 8192 || kind == 2) {
                    return Ok(());
                }
                check(ctx, &f, Some(","), head)
            },
        );
        c.scenario(
            "many",
            "records of every length 12..=75, as many as fill 3 (thorough 9) buffers, every third short of a \
             cell, LF or CRLF, configured or guessed delimiter",
            0,
            move |ctx| {
                let len = 12 + ctx.choose(64);
                let nl = *ctx.pick(&["\n", "\r\n"]);
                let d = *ctx.pick(&[Some(","), None]);
                let n = 8192 * if t { 9 } else { 3 } / len;
                let recs: Vec<Vec<C>> = (0..n)
                    .map(|i| {
                        let mut r = vec![time(i), plain(&format!("{:01$}", i % 10, len - 11))];
                        if i % 3 != 1 {
                            r.push(plain(&format!("{}", i % 7)));
                        }
                        r
                    })
                    .collect();
                let hd = names(3);
                let f = file(",", Some(&hd), &recs, nl, ctx.flag());
                check(ctx, &f, d, Head::Yes)
            },
        );
        c.scenario(
            "wide",
            "1..=40 (and 255, 256, 1000) columns, 3 records, the second with every smaller (or up to 8 of them) \
             number of cells, the third full",
            0,
            |ctx| {
                let n = match ctx.choose(43) {
                    40 => 255,
                    41 => 256,
                    42 => 1000,
                    i => i + 1,
                };
                let k = 1 + ctx.choose(n.min(40));
                let rec = |i: usize, n: usize| -> Vec<C> {
                    let mut r = vec![time(i)];
                    r.extend((1..n).map(|j| plain(&format!("r{}c{}", i, j))));
                    r
                };
                let recs = vec![rec(0, n), rec(1, k), rec(2, n)];
                let mut hd = vec![plain("time")];
                hd.extend((1..n).map(|j| plain(&format!("n{}", j))));
                let head = ctx.flag();
                let f = file(",", if head { Some(&hd) } else { None }, &recs, "\n", true);
                check(ctx, &f, Some(","), if head { Head::Yes } else { Head::No })
            },
        );
        c.scenario(
            "large-cells",
            "a cell of 2^k-1, 2^k, 2^k+1 (k = 8, 10, 12, 15, 16, 17, 20) bytes, plain, quoted, of quoted quotes, of line ends, of \
             delimiters, of 2- or 3-byte characters, in the time's own record before, between or after short cells or in the next \
             record; followed by 2 short records",
            0,
            move |ctx| {
                let k = *ctx.pick(&[8u32, 10, 12, 15, 16, 17, 20]);
                let n = (1usize << k) + ctx.choose(3) - 1;
                let kind = ctx.choose(7);
                let at = 1 + ctx.choose(3);
                let second = ctx.flag();
                let c = match kind {
                    0 => plain(&"f".repeat(n)),
                    1 => quoted(&"f".repeat(n)),
                    2 => quoted(&"\"".repeat(n)),
                    3 => {
                        let s = format!("f{}f", "\n".repeat(n - 2));
                        quoted(&s)
                    }
                    4 => quoted(&",".repeat(n)),
                    5 => plain(&"\u{e9}".repeat(n / 2)),
                    _ => plain(&format!("a{}", "\u{6f22}".repeat(n / 3))),
                };
                let rec = |i: usize| -> Vec<C> {
                    vec![time(i), plain(&format!("p{}", i)), plain(&format!("q{}", i)), plain(&format!("r{}", i))]
                };
                let mut recs: Vec<Vec<C>> = (0..4).map(rec).collect();
                recs[second as usize][at] = c;
                let hd = names(4);
                let f = file(",", Some(&hd), &recs, "\n", true);
                check(ctx, &f, Some(","), Head::Yes)
            },
        );
        c.scenario(
            "many-rows",
            "255..=257, 1023..=1025, 4095..=4097, 65535..=65537, 140001 and 400000 (thorough also 2000000) records of 2 to 4 cells, all full or \
             every 5th short, all alike in length or growing, or with one too long at the end",
            0,
            move |ctx| {
                let mut sizes =
                    vec![255usize, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537, 140001, 400000];
                if t {
                    sizes.push(2000000);
                }
                let n = *ctx.pick(&sizes);
                let kind = if n > 200000 { 1 } else { ctx.choose(4) };
                let hd = names(4);
                let recs: Vec<Vec<C>> = (0..n)
                    .map(|i| {
                        let mut r = vec![time(i), plain(&format!("{}", i))];
                        if kind != 1 || i % 5 != 3 {
                            r.push(plain(if i % 3 == 0 { "" } else { "y" }));
                            r.push(plain(&"z".repeat(if kind == 2 { i % 97 } else { 1 })));
                        }
                        if kind == 3 && i == n - 1 {
                            r.push(plain("more"));
                        }
                        r
                    })
                    .collect();
                let f = file(",", Some(&hd), &recs, "\n", true);
                check(ctx, &f, Some(","), Head::Yes)
            },
        );
        c.scenario(
            "very-wide",
            "2049, 4097, 65537 and 70000 columns, 3 records, the second full, one cell, half, or one short",
            0,
            move |ctx| {
                let n = *ctx.pick(&[2049usize, 4097, 65537, 70000]);
                let k = *ctx.pick(&[n, 1, n / 2, n - 1]);
                let rec = |i: usize, n: usize| -> Vec<C> {
                    let mut r = vec![time(i)];
                    r.extend((1..n).map(|j| plain(&format!("{}", (i + j) % 1000))));
                    r
                };
                let recs = vec![rec(0, n), rec(1, k), rec(2, n)];
                let mut hd = vec![plain("time")];
                hd.extend((1..n).map(|j| plain(&format!("n{}", j))));
                let head = ctx.flag();
                let f = file(",", if head { Some(&hd) } else { None }, &recs, "\n", true);
                check(ctx, &f, Some(","), if head { Head::Yes } else { Head::No })
            },
        );
        c.scenario(
            "every-character",
            "every ASCII character but line ends (and 4 others), alone, doubled, before, within, after or \
             around a text, or between lines of a quoted text, in the first, middle or last cell of a record, in one of 2 records or in both, quoted or \
             not, time in the first, second or last of 3 columns, 3 delimiters, header given or none",
            0,
            move |ctx| {
                let d = *ctx.pick(&[",", ";", "\t"]);
                let time_col = ctx.choose(3);
                let other = ctx.choose(2);
                let both = ctx.flag();
                let head = ctx.flag();
                let q = ctx.flag();
                let chars: Vec<String> = (0u8..0x80)
                    .filter(|b| *b != b'\n' && *b != b'\r')
                    .map(|b| (b as char).to_string())
                    .chain(["\u{e9}", "\u{feff}x", "\u{fffd}", "\u{1f980}"].iter().map(|s| s.to_string()))
                    .collect();
                let ch = ctx.pick(&chars).clone();
                let text = match ctx.choose(if q { 7 } else { 6 }) {
                    6 => format!("x\n{}\ny", ch),
                    0 => ch.clone(),
                    1 => format!("{}{}", ch, ch),
                    2 => format!("{}xy", ch),
                    3 => format!("x{}y", ch),
                    4 => format!("xy{}", ch),
                    _ => format!("{}x y{}", ch, ch),
                };
                if !q && (text.starts_with('"') || text.contains(d)) {
                    return Ok(()); // needs the quotes
                }
                let mut cell = if q { quoted(&text) } else { plain(&text) };
                cell.1 = text.trim().to_string();
                if !head && both && time_col != 0 && other == 0 && text.starts_with('\u{feff}') {
                    return Ok(()); // at the start of the input it is a byte order mark
                }
                let col = (0..3).filter(|c| *c != time_col).nth(other).unwrap();
                let mut recs: Vec<Vec<C>> = (0..3)
                    .map(|i| (0..3).map(|j| if j == time_col { time(i) } else { plain(&format!("r{}c{}", i, j)) }).collect())
                    .collect();
                recs[1][col] = cell.clone();
                if both {
                    recs[0][col] = cell.clone();
                }
                let hd = [plain("n0"), plain("n1"), plain("n2")];
                let f = file_at(d, if head { Some(&hd) } else { None }, &recs, "\n", true, time_col);
                check(ctx, &f, Some(if d == "\t" { "\\t" } else { d }), if head { Head::Yes } else { Head::No })
            },
        );
        c.scenario(
            "far-away",
            "plain records of 3 cells for 0, 8150..=8210 or 16384, 40000, 140000 bytes, then a record with any of 16 kinds of cell as its second or \
             third, short by 1 or 2 cells, one too long, ended otherwise, or after an empty line, then 2 plain records; header given, none \
             or guessed, delimiter given or guessed, LF or CRLF",
            0,
            move |ctx| {
                let nl = *ctx.pick(&["\n", "\r\n"]);
                let d = *ctx.pick(&[Some(","), None]);
                let head = *ctx.pick(&[Head::Yes, Head::No, Head::Auto]);
                let after = match ctx.choose(65) {
                    0 => 0,
                    62 => 16384,
                    63 => 40000,
                    64 => 140000,
                    i => 8149 + i,
                };
                let kind = ctx.choose(16 + 5);
                if after == 0 && (head != Head::Yes || d.is_none()) {
                    return Ok(()); // see "cells"
                }
                let hd = names(3);
                let n = (after + 19) / 20;
                let rec = |i: usize| vec![time(i), plain(&format!("{}", i % 10)), plain("plain"[..5 - (nl.len() - 1)].as_ref())];
                let mut recs: Vec<Vec<C>> = (0..n).map(rec).collect();
                // the first record takes up what is left over
                let mut f = file(",", if head == Head::No { None } else { Some(&hd) }, &recs, nl, true);
                while f.text.len() > after && recs.len() > 1 {
                    recs.pop();
                    f = file(",", if head == Head::No { None } else { Some(&hd) }, &recs, nl, true);
                }
                if after > f.text.len() && !recs.is_empty() {
                    let fill = after - f.text.len();
                    recs[0][2] = plain(&format!("{}{}", recs[0][2].0, "f".repeat(fill)));
                }
                let good = recs.len();
                let mut odd = rec(n);
                let special = [
                    quoted("a,b"),
                    quoted(""),
                    quoted("say \"hi\""),
                    quoted("two\nlines"),
                    quoted("a\r\nb"),
                    quoted("plain"),
                    quoted(",,,"),
                    plain("\u{e9}\u{6f22}\u{1f980}"),
                    plain("in\"side"),
                    plain(""),
                    C("  x y ".into(), "x y".into()),
                    C("   ".into(), "".into()),
                    plain("\u{1a}"),
                    plain("a;b\tc|d"),
                    plain("12"),
                    quoted("12"),
                ];
                match kind {
                    k if k < 16 => {
                        let at = 1 + ctx.choose(2);
                        odd[at] = special[k].clone();
                    }
                    16 => odd.truncate(2),
                    17 => odd.truncate(1),
                    18 => odd.push(plain("more")),
                    _ => {}
                }
                recs.push(odd);
                recs.push(rec(n + 1));
                recs.push(rec(n + 2));
                let mut f = file(",", if head == Head::No { None } else { Some(&hd) }, &recs, nl, ctx.flag());
                if kind >= 19 {
                    let other = if nl == "\n" { "\r\n" } else { "\n" };
                    let head_text = file(",", if head == Head::No { None } else { Some(&hd) }, &recs[..good], nl, true).text;
                    let rest = &f.text[head_text.len()..];
                    f.text = match kind {
                        19 => format!("{}{}", head_text, rest.replace(nl, other)),
                        _ => format!("{}{}{}", head_text, nl, rest),
                    };
                }
                check(ctx, &f, d, head)
            },
        );
        c.scenario(
            "every-delimiter",
            "each ASCII character but quote, CR and LF as the configured delimiter, header given or none, time in any of 3 columns; 3 records, the cells of which hold the \
             delimiter (quoted) at any place, digits, letters, nothing, or are the last two left out",
            0,
            |ctx| {
                let d: Vec<char> = (0..128u8).map(|b| b as char).filter(|c| !"\"\r\n".contains(*c)).collect();
                let d = *ctx.pick(&d);
                let head = ctx.flag();
                let t = ctx.choose(3);
                let cell = |s: String| {
                    let odd = s.contains(d) || s.trim() != s;
                    if odd { quoted(&s) } else { plain(&s) }
                };
                let texts = [
                    "x".to_string(),
                    "".to_string(),
                    "12".to_string(),
                    format!("a{}b", d),
                    format!("{}{}7", if d.is_whitespace() { "q" } else { "" }, d),
                    format!("Z{}{}", d, if d.is_whitespace() { "q" } else { "" }),
                ];
                let x = ctx.pick(&texts).clone();
                let y = ctx.pick(&texts).clone();
                let short = ctx.flag();
                let rec = |i: usize, x: &str, y: &str| {
                    let mut r = vec![cell(x.to_string()), cell(y.to_string())];
                    r.insert(t, cell(format!("{}", 105 + i)));
                    r
                };
                let hd: Vec<C> = (0..3).map(|i| cell(format!("n{}", i))).collect();
                let mut recs = vec![rec(0, "p", "q"), rec(1, &x, &y), rec(2, &y, "r")];
                if short {
                    recs[1].truncate(t + 1);
                    if recs[1].len() == 1 && d.is_whitespace() {
                        return Ok(());
                    }
                }
                let f = file_at(&d.to_string(), if head { Some(&hd) } else { None }, &recs, "\n", true, t);
                check(ctx, &f, Some(&d.to_string()), if head { Head::Yes } else { Head::No })
            },
        );
        c.scenario(
            "words",
            "33 texts that mean something elsewhere (NULL, NA, nan, \\\\N, true, 0x1F, 1e5, -0, None, ...) in the first, \
             middle or last cell, in 1 of 2 records or both, quoted or not, time in any of 3 columns, header or none: \
             delivered as they are",
            0,
            move |ctx| {
                let words = [
                    "NULL", "null", "Null", "NA", "N/A", "#N/A", "nan", "NaN", "None", "none", "nil", "-", "--", "?", ".",
                    "\\N", "\\", "\\n", "true", "False", "TRUE", "0x1F", "1e5", "-0", "+1", "007", "1,0", "inf", "-inf",
                    "undefined", "empty", "0", "\"",
                ];
                let time_col = ctx.choose(3);
                let other = ctx.choose(2);
                let both = ctx.flag();
                let head = ctx.flag();
                let q = ctx.flag();
                let w = *ctx.pick(&words);
                if !q && (w.contains(',') || w.starts_with('"')) {
                    return Ok(());
                }
                let cell = if q { quoted(w) } else { plain(w) };
                let col = (0..3).filter(|c| *c != time_col).nth(other).unwrap();
                let mut recs: Vec<Vec<C>> = (0..3)
                    .map(|i| (0..3).map(|j| if j == time_col { time(i) } else { plain(&format!("r{}c{}", i, j)) }).collect())
                    .collect();
                recs[1][col] = cell.clone();
                if both {
                    recs[0][col] = cell.clone();
                }
                let hd = [plain("n0"), plain("n1"), plain("n2")];
                let f = file_at(",", if head { Some(&hd) } else { None }, &recs, "\n", true, time_col);
                check(ctx, &f, Some(","), if head { Head::Yes } else { Head::No })
            },
        );
        c.scenario(
            "nearly-the-same",
            "cells of every length 1..=130 and 255..=257, 1000, 4096: a record, one that differs from it in one byte (each place to length 130, 130 of them over), in \
             case, in length by one, or in nothing, then the first one again; in the middle or last column, quoted or not; header or none",
            0,
            move |ctx| {
                let n = match ctx.choose(135) {
                    k if k < 130 => k + 1,
                    k => [255, 256, 257, 1000, 4096][k - 130],
                };
                let at = ctx.choose(2 * n.min(130) + 3);
                let col = 1 + ctx.choose(2);
                let q = ctx.flag();
                let head = ctx.flag();
                let one: Vec<u8> = (0..n).map(|i| b'a' + (i % 23) as u8).collect();
                let mut two = one.clone();
                match at {
                    0 => {}
                    1 => two.push(b'z'),
                    2 => {
                        two.pop();
                    }
                    k => {
                        let p = (k - 3) / 2 * n / n.min(130);
                        two[p] = if k % 2 == 1 { b'z' } else { two[p].to_ascii_uppercase() };
                    }
                }
                let cell = |b: &[u8]| {
                    let s = String::from_utf8_lossy(b);
                    if q { quoted(&s) } else { plain(&s) }
                };
                let recs: Vec<Vec<C>> = [&one, &two, &one]
                    .iter()
                    .enumerate()
                    .map(|(i, b)| {
                        let mut r = vec![time(i), plain("x")];
                        r.insert(col, cell(b));
                        r
                    })
                    .collect();
                let hd = [plain("n0"), plain("n1"), plain("n2")];
                let f = file(",", if head { Some(&hd) } else { None }, &recs, "\n", true);
                check(ctx, &f, Some(","), if head { Head::Yes } else { Head::No })
            },
        );
        c.scenario(
            "repeats",
            "records that are like the header, like the record before or unlike any: every sequence of 5 (thorough 7) records \
             of which each is any of 4 kinds, under a header that looks like a record, given or (first record) absent, time in the \
             first or last of 3 columns, LF or CRLF, with or without final line end",
            0,
            move |ctx| {
                let time_col = *ctx.pick(&[0usize, 2]);
                let head = ctx.flag();
                let (nl, last) = *ctx.pick(&[("\n", true), ("\n", false), ("\r\n", true)]);
                let rec = |t: usize, s: &str| -> Vec<C> {
                    let mut r = vec![plain(s), plain("x")];
                    r.insert(time_col, time(t));
                    r
                };
                let hd = rec(0, "r0");
                let mut recs: Vec<Vec<C>> = Vec::new();
                if !head {
                    recs.push(hd.clone());
                }
                for i in 0..if t { 7 } else { 5 } {
                    let r = match ctx.choose(4) {
                        0 => hd.clone(),
                        1 => recs.last().unwrap_or(&hd).clone(),
                        // same time, another text
                        2 => rec(0, &format!("r{}", i + 1)),
                        _ => rec(i + 1, "r0"),
                    };
                    recs.push(r);
                }
                let f = file_at(",", if head { Some(&hd) } else { None }, &recs, nl, last, time_col);
                check(ctx, &f, Some(","), if head { Head::Yes } else { Head::No })
            },
        );
    });
}
