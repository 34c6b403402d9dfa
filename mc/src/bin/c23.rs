//! C23: guesses of delimiter and header are what the first lines imply.
use chopper::cli::util::YesNoAuto;
use chopper::source::csv_configs::*;
use chopper::source::csv_timestamp::TimestampUnits;
use chopper::util::csv_util;
use chopper::util::tz::ChopperTz;
use mc::kit::*;
use mc::*;

const SIZE: usize = 8192;

/// The most frequent of comma, tab, blank; the earlier of those on a tie.
fn delimiter(line: &str) -> u8 {
    let n = |c: char| line.chars().filter(|x| *x == c).count();
    let (a, b, c) = (n(','), n('\t'), n(' '));
    if a >= b && a >= c {
        b','
    } else if b >= c {
        b'\t'
    } else {
        b' '
    }
}

/// 0 integer, 1 number, 2 text
fn kind(cell: &str) -> u8 {
    let b = cell.trim();
    let s = b.strip_prefix(|c| c == '+' || c == '-').unwrap_or(b);
    let digits = |x: &str| x.bytes().all(|c| c.is_ascii_digit());
    if !s.is_empty() && digits(s) {
        let z = s.trim_start_matches('0');
        let max = if b.starts_with('-') { "9223372036854775808" } else { "9223372036854775807" };
        return if z.len() < 19 || (z.len() == 19 && z <= max) { 0 } else { 1 };
    }
    if ["inf", "infinity", "nan"].contains(&s.to_ascii_lowercase().as_str()) {
        return 1;
    }
    let (m, e) = match s.find(|c| c == 'e' || c == 'E') {
        Some(i) => (&s[..i], Some(&s[i + 1..])),
        None => (s, None),
    };
    if let Some(e) = e {
        let e = e.strip_prefix(|c| c == '+' || c == '-').unwrap_or(e);
        if e.is_empty() || !digits(e) {
            return 2;
        }
    }
    let (i, f) = match m.find('.') {
        Some(k) => (&m[..k], &m[k + 1..]),
        None => (m, ""),
    };
    if digits(i) && digits(f) && !(i.is_empty() && f.is_empty()) {
        1
    } else {
        2
    }
}

fn header(a: &str, b: &str, d: u8) -> bool {
    let k = |l: &str| l.split(d as char).map(kind).collect::<Vec<u8>>();
    k(a) != k(b)
}

/// Lines a guess may look at: complete ones in the first 8192 bytes, all if the input is smaller.
fn lines(text: &str) -> Vec<String> {
    let b = text.as_bytes();
    let mut v = Vec::new();
    let mut from = 0;
    while from < b.len() {
        match b[from..].iter().position(|c| *c == b'\n') {
            Some(n) if from + n < SIZE => {
                v.push(String::from_utf8_lossy(&b[from..from + n]).trim_end_matches('\r').to_string());
                from += n + 1;
            }
            None if b.len() < SIZE => {
                v.push(String::from_utf8_lossy(&b[from..]).trim_end_matches('\r').to_string());
                break;
            }
            _ => break,
        }
    }
    v
}

fn cfg(delim: Option<&str>, h: YesNoAuto) -> Result<CSVInputConfig, String> {
    let t = TimestampConfig::new(
        TimestampColConfig::Index(0),
        TimestampFmtConfig::Epoch(TimestampUnits::Seconds),
        ChopperTz::new_always_fails(),
    );
    CSVInputConfig::new(delim, h, t).map_err(|e| err_text(&e))
}

/// Names and records of a text without quotes, or None if an error is due
/// (first cell of a record no epoch, more cells than columns).
fn model(text: &str, mode: usize) -> Option<(Vec<String>, Vec<Vec<String>>)> {
    let mut l = lines(text);
    l.retain(|l| !l.is_empty());
    let d = l.get(0).map_or(b',', |x| delimiter(x));
    let head = match mode {
        0 => true,
        1 => false,
        _ => l.len() > 1 && header(&l[0], &l[1], d),
    };
    let mut recs: Vec<Vec<String>> =
        text.lines().filter(|l| !l.is_empty()).map(|l| l.split(d as char).map(|c| c.trim().to_string()).collect()).collect();
    let names: Vec<String> = if recs.is_empty() {
        vec![]
    } else if head {
        recs.remove(0)
    } else {
        (0..recs[0].len()).map(|i| format!("col_{}", i)).collect()
    };
    for r in &recs {
        if r.len() > names.len() || r[0].is_empty() || !r[0].bytes().all(|c| c.is_ascii_digit()) || r[0].len() > 9 {
            return None;
        }
    }
    Some((names, recs))
}

fn mode(i: usize) -> YesNoAuto {
    [YesNoAuto::Yes, YesNoAuto::No, YesNoAuto::Auto][i]
}

fn check_source(ctx: &mut Ctx, text: &str, m: usize) -> Res {
    let got = open_and_read(csv_source(text.as_bytes(), &cfg(None, mode(m))?));
    let want = model(text, m);
    ctx.outcome(&(m, want.is_some(), want.as_ref().map(|w| w.0.len()), text.len() > SIZE));
    let d = || {
        let t = if text.len() > 200 { format!("{}.. ({} bytes)", text.chars().take(100).collect::<String>(), text.len()) } else { text.to_string() };
        format!("{:?} header mode {}: {}; expected {}", t, ["yes", "no", "auto"][m], brief(&got), match &want {
            None => "an error".to_string(),
            Some((n, r)) => format!("columns {:?} and {} rows", &n[..n.len().min(9)], r.len()),
        })
    };
    ctx.note(d);
    match (&got, &want) {
        (Err(_), None) => Ok(()),
        (Ok(g), None) => {
            ensure!(g.err.is_some(), "no error: {}", d());
            Ok(())
        }
        (Ok(g), Some((names, recs))) if g.err.is_none() => {
            ensure!(g.header.names == *names, "columns {:?}: {}", g.header.names, d());
            let cells: Vec<Vec<String>> = g
                .rows
                .iter()
                .map(|r| r.1.iter().map(|v| if let V::S(s) = v { s.clone() } else { String::new() }).collect())
                .collect();
            let mut recs = recs.clone();
            recs.iter_mut().for_each(|r| r.resize(names.len(), String::new()));
            ensure!(cells == recs, "rows {:?}: {}", cells, d());
            Ok(())
        }
        _ => Err(format!("error: {}", d())),
    }
}

fn main() {
    mc::main("C23", Level::ModelChecking, |c| {
        let t = c.thorough;
        c.assume("delimiters within quotes count as any other where the delimiter is guessed, as the statement has it");
        c.scenario(
            "delimiter",
            "every first line of up to 6 characters (thorough also 7 of the first 7) of 10: comma, tab, blank, semicolon, quote, a, e-acute and three characters whose code point ends like a delimiter's; with the function and through a source",
            0,
            move |ctx| {
                let n = ctx.choose(if t { 8 } else { 7 });
                let mut s = String::new();
                for _ in 0..n {
                    let chars = [',', '\t', ' ', ';', '"', 'a', 'é', '\u{12c}', '\u{2009}', '\u{220}'];
                    s.push(*ctx.pick(&chars[..if n > 6 { 7 } else { 10 }]));
                }
                let want = delimiter(&s);
                ctx.step(&s);
                let got = csv_util::guess_delimiter(&s, b",\t ");
                ctx.outcome(&want);
                ctx.note(|| format!("{:?}: {:?}, expected {:?}", s, got as char, want as char));
                ensure!(got == want, "delimiter of {:?}: {:?}, expected {:?}", s, got as char, want as char);
                if n > 0 && (n < 6 || t) && !s.contains('"') {
                    let r = open_and_read(csv_source(format!("{}\n", s).as_bytes(), &cfg(None, YesNoAuto::Yes)?))?;
                    let k = s.chars().filter(|c| *c == want as char).count() + 1;
                    ensure!(r.header.names.len() == k, "columns of {:?}: {:?}, expected {}", s, r.header.names, k);
                }
                Ok(())
            },
        );
        c.scenario(
            "many-delimiters",
            "first lines of 0..=3, 127..=129, 255..=257, 300, 511..=513, 1000, 4000 (thorough 65535..=65537) commas, tabs and blanks each, in 2 orders: with the function and, as far as the line is among the first 8192 bytes, through a source",
            0,
            move |ctx| {
                let mut ns = vec![0, 1, 2, 3, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 4000];
                if t {
                    ns.extend([65535, 65536, 65537]);
                }
                let n = [*ctx.pick(&ns), *ctx.pick(&ns), *ctx.pick(&ns)];
                let mixed = ctx.flag();
                let chars = [',', '\t', ' '];
                let mut s = String::from("x");
                if mixed {
                    for i in 0..*n.iter().max().unwrap_or(&0) {
                        for (c, k) in chars.iter().zip(&n) {
                            if i < *k {
                                s.push(*c);
                            }
                        }
                    }
                } else {
                    for (c, k) in chars.iter().zip(&n).rev() {
                        s += &c.to_string().repeat(*k);
                    }
                }
                s.push('y');
                let want = delimiter(&s);
                ctx.step(&(&n, mixed));
                let got = csv_util::guess_delimiter(&s, b",\t ");
                ctx.outcome(&want);
                ctx.note(|| format!("{:?}: {:?}, expected {:?}", n, got as char, want as char));
                ensure!(got == want, "delimiter of a line with {:?} of comma, tab, blank: {:?}, expected {:?}", n, got as char, want as char);
                if s.len() < SIZE - 1 && !mixed {
                    let r = open_and_read(csv_source(format!("{}\n", s).as_bytes(), &cfg(None, YesNoAuto::Yes)?))?;
                    let k = n[chars.iter().position(|c| *c == want as char).unwrap_or(0)] + 1;
                    ensure!(r.header.names.len() == k, "{} columns from a line with {:?}, expected {}", r.header.names.len(), n, k);
                }
                Ok(())
            },
        );
        c.scenario("candidates", "guess_delimiter with every ordered list of up to 3 of 5 other candidates x every line of up to 5 of 7 characters", 0, move |ctx| {
            let k = 1 + ctx.choose(3);
            let mut pool = vec![b';', b'|', b',', b':', b' '];
            let mut cand = Vec::new();
            for _ in 0..k {
                let i = ctx.choose(pool.len());
                cand.push(pool.remove(i));
            }
            let n = ctx.choose(if t { 6 } else { 5 });
            let mut s = String::new();
            for _ in 0..n {
                s.push(*ctx.pick(&[';', '|', ',', ':', ' ', 'x', '\u{13b}']));
            }
            let count = |d: u8| s.chars().filter(|c| *c == d as char).count();
            let mut want = cand[0];
            for d in &cand[1..] {
                if count(*d) > count(want) {
                    want = *d;
                }
            }
            ctx.step(&(&cand, &s));
            let got = csv_util::guess_delimiter(&s, &cand);
            ctx.outcome(&got);
            ctx.note(|| format!("{:?} of {:?}: {:?}", s, cand, got as char));
            ensure!(got == want, "delimiter of {:?} among {:?}: {:?}, expected {:?}", s, cand, got as char, want as char);
            Ok(())
        });
        c.scenario("cells", "a cell of 32 against a cell of 32, alone or after an integer: types integer, number, text", 0, move |ctx| {
            let cells = [
                "", "1", "-5", "+7", "0", "-0", "007", "1.5", "1e3", "1E-3", ".5", "5.", ".", "e5", "1e", "abc", "1a", "nan", "NaN", "inf",
                "-Infinity", "-", "+", "0x1", "9223372036854775807", "9223372036854775808", "-9223372036854775808",
                "-9223372036854775809", " 12 ", "1_000", "\u{663}", "true",
            ];
            let (a, b) = (*ctx.pick(&cells), *ctx.pick(&cells));
            let (a, b) = if ctx.flag() { (format!("5,{}", a), format!("6,{}", b)) } else { (a.to_string(), b.to_string()) };
            ctx.step(&(&a, &b));
            let want = header(&a, &b, b',');
            let got = csv_util::guess_has_header(Some(&a), Some(&b), b',');
            ctx.outcome(&(want, &a));
            ctx.note(|| format!("{:?} / {:?}: {}", a, b, got));
            ensure!(got == want, "header guess of {:?} and {:?}: {}, expected {}", a, b, got, want);
            for (x, y) in [(None, None), (Some(&a), None), (None, Some(&b))] {
                ensure!(!csv_util::guess_has_header(x, y, b','), "header guessed from less than two lines: {:?} {:?}", x, y);
            }
            if a.starts_with("5,") {
                check_source(ctx, &format!("{}\n{}", a, b), 2)?;
            }
            Ok(())
        });
        c.scenario("two-lines", "every pair of lines of 1..=3 cells of 7 (thorough 8) x comma, tab or blank between", 0, move |ctx| {
            let d = *ctx.pick(&[',', '\t', ' ']);
            let mut line = || {
                let n = 1 + ctx.choose(3);
                let mut v = Vec::new();
                for _ in 0..n {
                    v.push(ctx.pick(&["7", "2.5", "x", "", "-3", "nan", "y1", "12"][..if t { 8 } else { 7 }]).to_string());
                }
                v.join(&d.to_string())
            };
            let (a, b) = (line(), line());
            ctx.step(&(&a, &b));
            let want = header(&a, &b, d as u8);
            let got = csv_util::guess_has_header(Some(&a), Some(&b), d as u8);
            ctx.outcome(&(want, a.len(), b.len()));
            ctx.note(|| format!("{:?} / {:?}: {}", a, b, got));
            ensure!(got == want, "header guess of {:?} and {:?}: {}, expected {}", a, b, got, want);
            Ok(())
        });
        c.scenario(
            "many-cells",
            "two lines of 1..=130, 255..=257, 300, 511..=513 and 1000 cells, the first line's of one kind (3) but for one cell at the start, in the middle, at \
             the end or at 10, 63, 64, 99, 100 or 255 which is of any of 3 kinds, the second line's all of one kind, with as many cells or one less or more: with the function",
            0,
            |ctx| {
                let n = match ctx.choose(138) {
                    k if k < 130 => k + 1,
                    k => [255, 256, 257, 300, 511, 512, 513, 1000][k - 130],
                };
                let kinds = ["1546300800", "2.5", "x"];
                let base = ctx.choose(3);
                let odd = ctx.choose(3);
                let at = match ctx.choose(9) {
                    0 => 0,
                    1 => n / 2,
                    2 => n - 1,
                    k => [10, 63, 64, 99, 100, 255][k - 3],
                };
                if at >= n {
                    return Ok(());
                }
                let width = match ctx.choose(3) {
                    0 => n,
                    1 => n + 1,
                    _ => n - 1,
                };
                let cells: Vec<&str> = (0..n).map(|i| kinds[if i == at { odd } else { base }]).collect();
                let a = cells.join(",");
                let b = vec![kinds[base]; width].join(",");
                ctx.step(&(n, base, odd, at, width));
                let want = header(&a, &b, b',');
                let got = csv_util::guess_has_header(Some(&a), Some(&b), b',');
                ctx.outcome(&(want, n, width));
                ctx.note(|| format!("{} cells of {:?}, the one at {} {:?}, then {}: {}", n, kinds[base], at, kinds[odd], width, got));
                ensure!(got == want, "header guess of {} cells of {:?}, the one at {} {:?}, then {}: {}, expected {}", n, kinds[base], at, kinds[odd], width, got, want);
                Ok(())
            },
        );
        c.scenario(
            "texts",
            "every text of up to 3 lines of up to 3 (thorough 4) characters of 6, empty ones included, but none of nothing but blanks, last line ended or not, lf or cr lf, header yes, no or auto, delimiter guessed",
            0,
            move |ctx| {
                let n = ctx.choose(4);
                let mut v = Vec::new();
                for i in 0..n {
                    let k = ctx.choose(if i == 2 { 2 } else if t { 5 } else { 4 });
                    let mut s = String::new();
                    for _ in 0..k {
                        s.push(*ctx.pick(&['1', '7', 'a', ',', ' ', '\t'][..if i == 2 { 4 } else { 6 }]));
                    }
                    if !s.is_empty() && s.trim().is_empty() {
                        return Ok(());
                    }
                    v.push(s);
                }
                let (end, crlf, m) = if n == 2 { (ctx.flag(), ctx.flag(), ctx.choose(3)) } else { (ctx.flag(), false, ctx.choose(3)) };
                let nl = if crlf { "\r\n" } else { "\n" };
                let mut s = v.join(nl);
                if end && n > 0 {
                    s += nl;
                }
                ctx.step(&(&s, m));
                check_source(ctx, &s, m)
            },
        );
        c.scenario(
            "long-lines",
            "first and second line of lengths around 0, 4096 and 8192 bytes and their sum around 8192, with a third line or none, ended or not: only complete lines of the first 8192 bytes count",
            0,
            move |ctx| {
                let around: Vec<usize> = (8180..8197).chain([4, 10, 4090, 4096, 9000, 20000]).collect();
                let a = *ctx.pick(&around);
                let sum = ctx.flag();
                let b = if sum { 8170 + ctx.choose(40) } else { *ctx.pick(&around) };
                let b = if sum {
                    if b < a + 6 {
                        return Ok(());
                    }
                    b - a
                } else {
                    b
                };
                let k = ctx.choose(3);
                let end = ctx.flag();
                let head = ctx.flag();
                let line = |n: usize, text: bool| {
                    // "5," and then a number or text up to the length
                    let mut s = String::from("5,");
                    s += if text { "x" } else { "1" };
                    while s.len() < n {
                        s.push('1');
                    }
                    s
                };
                let mut s = line(a, head);
                for (i, l) in [b, 7].iter().enumerate() {
                    if k > i {
                        s += "\n";
                        s += &line(*l, false);
                    }
                }
                if end {
                    s += "\n";
                }
                // an unfinished line that ends with the preview may or may not be taken for complete
                if s.len() == SIZE && !end {
                    return Ok(());
                }
                ctx.step(&(a, b, k, end, head));
                check_source(ctx, &s, 2)
            },
        );
        c.scenario(
            "configured",
            "every delimiter text of up to 1 of all ascii characters, 2 of 22 and 3 of 12 characters, multi-byte ones included: accepted exactly if one ascii character or \\t, and then used",
            0,
            move |ctx| {
                let n = ctx.choose(4);
                let all: Vec<char> = (0..128u8).map(|c| c as char).chain(['é', '\u{12c}', '\u{80}', '\u{1f600}']).collect();
                let some = [',', '\\', 't', ' ', '\t', ';', '\n', '\0', '|', 'n', 'é', '\u{12c}', 'a', '1', '"', '\'', '0', 'T', 'x', '\r', '/', '\u{7f}'];
                let mut s = String::new();
                for _ in 0..n {
                    s.push(match n {
                        1 => *ctx.pick(&all),
                        2 => *ctx.pick(&some),
                        _ => *ctx.pick(&some[..12]),
                    });
                }
                let want = if s == "\\t" {
                    Some(b'\t')
                } else if s.len() == 1 {
                    Some(s.as_bytes()[0])
                } else {
                    None
                };
                ctx.step(&s);
                ctx.outcome(&want);
                let got = csv_util::parse_into_delimiter(&s).ok();
                let c = cfg(Some(&s), YesNoAuto::Yes);
                ctx.note(|| format!("{:?}: {:?}", s, got));
                ensure!(got == want, "delimiter {:?} read as {:?}, expected {:?}", s, got, want);
                ensure!(c.is_ok() == want.is_some(), "delimiter {:?}: configuration accepted: {}", s, c.is_ok());
                if let (Some(d), Ok(c)) = (want, c) {
                    if b"\n\r\"pqr".contains(&d) {
                        return Ok(());
                    }
                    let text = format!("p{0}q{0}r\n", d as char);
                    let r = open_and_read(csv_source(text.as_bytes(), &c))?;
                    ensure!(r.header.names == ["p", "q", "r"], "delimiter {:?}: columns {:?}", s, r.header.names);
                }
                Ok(())
            },
        );
        c.scenario(
            "quotes-and-blank-lines",
            "two lines of 1..=2 (thorough 3) cells of 14, 10 of them in quotes, with the delimiter, quotes, integers, numbers and texts in them, and a third of two \
             integers, an empty line before each or not, at the start a byte order mark or not: columns and rows with header guessed, and with it given",
            0,
            move |ctx| {
                // as written, and what is in it
                let cells = [
                    ("7", "7"), ("\"7\"", "7"), ("\"2.5\"", "2.5"), ("x", "x"), ("\"x\"", "x"), ("\"\"", ""), ("", ""), ("\"x,y\"", "x,y"),
                    ("\"x,7\"", "x,7"), ("\"7,x\"", "7,x"), ("\"7,8\"", "7,8"), ("\" 9 \"", "9"), ("\"a\"\"b\"", "a\"b"), ("3.5", "3.5"),
                ];
                let m = ctx.choose(3);
                let bom = ctx.flag();
                let mut text = String::new();
                if bom {
                    text.push('\u{feff}');
                }
                let mut recs: Vec<Vec<String>> = Vec::new();
                for i in 0..2 {
                    // a line of nothing but the mark is no empty line
                    if !(bom && i == 0) && ctx.flag() {
                        text += "\n";
                    }
                    let n = 1 + ctx.choose(if t { 3 } else { 2 });
                    let v: Vec<(&str, &str)> = (0..n).map(|_| *ctx.pick(&cells)).collect();
                    if n == 1 && v[0].0.is_empty() {
                        return Ok(());
                    }
                    text += &v.iter().map(|x| x.0).collect::<Vec<_>>().join(",");
                    text += "\n";
                    recs.push(v.iter().map(|x| x.1.to_string()).collect());
                }
                if ctx.flag() {
                    text += "\n";
                }
                text += "5,6";
                recs.push(vec!["5".to_string(), "6".to_string()]);
                ctx.step(&(&text, m));
                let kinds = |r: &Vec<String>| r.iter().map(|c| kind(c)).collect::<Vec<u8>>();
                let head = m == 0 || m == 2 && kinds(&recs[0]) != kinds(&recs[1]);
                let names: Vec<String> = if head {
                    recs.remove(0)
                } else {
                    (0..recs[0].len()).map(|i| format!("col_{}", i)).collect()
                };
                let bad = recs
                    .iter()
                    .any(|r| r.len() > names.len() || r[0].is_empty() || !r[0].bytes().all(|c| c.is_ascii_digit()));
                let got = open_and_read(csv_source(text.as_bytes(), &cfg(Some(","), mode(m))?));
                let d = || {
                    format!("{:?} header mode {}: {}; expected columns {:?} and {} rows{}", text, ["yes", "no", "auto"][m], brief(&got), names,
                        recs.len(), if bad { ", and an error" } else { "" })
                };
                ctx.note(d);
                ctx.outcome(&(m, head, bad, names.len()));
                if bad {
                    ensure!(got.as_ref().map_or(true, |g| g.err.is_some()), "no error: {}", d());
                    return Ok(());
                }
                let g = got.as_ref().map_err(|e| format!("error {}: {}", e, d()))?;
                ensure!(g.err.is_none(), "error: {}", d());
                ensure!(g.header.names == names, "columns {:?}: {}", g.header.names, d());
                let rows: Vec<Vec<String>> = g
                    .rows
                    .iter()
                    .map(|r| r.1.iter().map(|v| if let V::S(s) = v { s.clone() } else { String::new() }).collect())
                    .collect();
                let mut want = recs.clone();
                want.iter_mut().for_each(|r| r.resize(names.len(), String::new()));
                ensure!(rows == want, "rows {:?}: {}", rows, d());
                Ok(())
            },
        );
    });
}
