//! C19: CSV output shows header and every value with the chosen delimiter.
use chopper::chopper::types::FieldType;
use chopper::source::csv_configs::*;
use chopper::source::csv_timestamp::TimestampUnits;
use chopper::util::tz::ChopperTz;
use chopper::write::factory;
use mc::kit::*;
use mc::*;

fn cfg(delim: &str, time: bool) -> CSVOutputConfig {
    CSVOutputConfig::new(
        delim,
        time,
        None,
        TimestampStyle::Epoch,
        TimestampUnits::Nanos,
        ChopperTz::new_always_fails(),
    )
}

/// What a cell must look like.
enum Cell {
    Text(String),
    D(f64),
    F(f32),
    Bad,
}

fn cell(v: &V) -> Cell {
    match v {
        V::N => Cell::Text(String::new()),
        V::Bool(_) | V::Buf(_) => Cell::Bad,
        V::Byte(x) => Cell::Text(x.to_string()),
        V::Char(x) => Cell::Text(x.to_string()),
        V::Sh(x) => Cell::Text(x.to_string()),
        V::I(x) => Cell::Text(x.to_string()),
        V::L(x) => Cell::Text(x.to_string()),
        V::S(x) => Cell::Text(x.clone()),
        V::D(x) => Cell::D(f64::from_bits(*x)),
        V::F(x) => Cell::F(f32::from_bits(*x)),
    }
}

fn same64(t: &str, x: f64) -> bool {
    t.parse::<f64>().map_or(false, |y| y.to_bits() == x.to_bits() || (y.is_nan() && x.is_nan()))
}

fn same32(t: &str, x: f32) -> bool {
    t.parse::<f32>().map_or(false, |y| y.to_bits() == x.to_bits() || (y.is_nan() && x.is_nan()))
}


struct Cur<'a> {
    rest: &'a str,
    whole: bool,
}

impl<'a> Cur<'a> {
    fn eat(&mut self, want: &str, what: &dyn Fn() -> String) -> Result<(), String> {
        if let Some(r) = self.rest.strip_prefix(want) {
            self.rest = r;
            return Ok(());
        }
        if !self.whole && want.starts_with(self.rest) {
            self.rest = "";
            return Ok(());
        }
        let cut = |s: &str| s.chars().take(60).collect::<String>();
        Err(format!("{}: expected {:?}, output goes on with {:?}", what(), cut(want), cut(self.rest)))
    }
}

/// Compare output with header and rows; the text of floating point cells is read back, everything
/// else is compared byte by byte. `whole`: the output is complete, else it is any prefix of it.
fn compare(bytes: &[u8], head: &H, rows: &[R], delim: &str, time: bool, whole: bool) -> Res {
    let text = String::from_utf8(bytes.to_vec()).map_err(|_| "output is not text".to_string())?;
    let mut c = Cur { rest: &text, whole };
    let mut names = head.names.clone();
    if time {
        names.insert(0, "timestampNanos".to_string());
    }
    c.eat(&(names.join(delim) + "\n"), &|| "header".to_string())?;
    for (i, x) in rows.iter().enumerate() {
        if time {
            c.eat(&x.0.to_string(), &|| format!("time of row {}", i))?;
        }
        for (j, v) in x.1.iter().enumerate() {
            let what = || {
                let mut s = format!("{:?}", v);
                s.truncate(s.char_indices().nth(60).map_or(s.len(), |x| x.0));
                format!("row {} column {} value {}", i, j, s)
            };
            if time || j > 0 {
                c.eat(delim, &what)?;
            }
            let float = |ok: &dyn Fn(&str) -> bool, c: &mut Cur| -> Res {
                let end = if j + 1 < x.1.len() { delim } else { "\n" };
                match c.rest.find(end) {
                    Some(n) => {
                        ensure!(ok(&c.rest[..n]), "{}: printed as {:?}", what(), &c.rest[..n]);
                        c.rest = &c.rest[n..];
                    }
                    None if !c.whole => c.rest = "",
                    None => return Err(format!("{}: cell does not end", what())),
                }
                Ok(())
            };
            match cell(v) {
                Cell::Text(t) => c.eat(&t, &what)?,
                Cell::Bad => {
                    ensure!(!whole, "{} was accepted", what());
                    ensure!(c.rest.is_empty(), "{}: output goes on with {:?}", what(), c.rest);
                    return Ok(());
                }
                Cell::D(d) => float(&|t| same64(t, d), &mut c)?,
                Cell::F(d) => float(&|t| same32(t, d), &mut c)?,
            }
        }
        c.eat("\n", &|| format!("end of row {}", i))?;
    }
    ensure!(c.rest.is_empty(), "more output than rows: {:?}", c.rest.chars().take(60).collect::<String>());
    Ok(())
}

fn run(ctx: &mut Ctx, head: &H, rows: &[R], delim: &str, time: bool, dflt: bool) -> Res {
    let path = ctx.dir().join("o.csv");
    let p = path.to_string_lossy().to_string();
    let _ = std::fs::remove_file(&path);
    let conf = if dflt { None } else { Some(cfg(delim, time)) };
    let got = feed(factory::new_header_sink(Some(&p), conf), head, rows);
    let bytes = std::fs::read(&path).unwrap_or_default();
    let bad = rows.iter().any(|x| x.1.iter().any(|v| matches!(cell(v), Cell::Bad)));
    ctx.outcome(&(&bytes, got.is_ok()));
    for x in rows.iter().take(50) {
        ctx.step(&(head, x, delim, time));
    }
    ctx.note(|| {
        let t: String = String::from_utf8_lossy(&bytes).chars().take(300).collect();
        format!("{} columns, {} rows, delimiter {:?}, time {}: {:?} {:?}", head.names.len(), rows.len(), delim, time, got, t)
    });
    ensure!(
        bad != got.is_ok(),
        "columns {:?}, rows {:?}, delimiter {:?}: result {:?}",
        head,
        rows.iter().take(5).collect::<Vec<_>>(),
        delim,
        got
    );
    compare(&bytes, head, rows, delim, time, !bad)
        .map_err(|e| format!("delimiter {:?}, time column {}: {}", delim, time, e))
}

/// Boundary values of each type.
fn values() -> Vec<(FieldType, Vec<V>)> {
    let mut r: Vec<(FieldType, Vec<V>)> = Vec::new();
    r.push((FieldType::Byte, [0, 1, 9, 10, 65, 127, 128, 255].iter().map(|x| V::Byte(*x)).collect()));
    r.push((FieldType::Char, [0, 1, 65, 127, 128, 255, 256, 0xd800, 65535].iter().map(|x| V::Char(*x)).collect()));
    r.push((
        FieldType::Short,
        [0, 1, -1, 255, 256, i16::MAX, i16::MIN, i16::MIN + 1].iter().map(|x| V::Sh(*x)).collect(),
    ));
    r.push((
        FieldType::Int,
        [0, 1, -1, 65535, 65536, i32::MAX, i32::MIN, i32::MIN + 1].iter().map(|x| V::I(*x)).collect(),
    ));
    let mut l: Vec<i64> = vec![0, i64::MAX, i64::MIN, i64::MIN + 1];
    for b in 0..63 {
        l.extend([1i64 << b, -(1i64 << b), (1i64 << b) - 1]);
    }
    for e in 0..19 {
        l.extend([10i64.pow(e), 10i64.pow(e) - 1, -(10i64.pow(e))]);
    }
    r.push((FieldType::Long, l.iter().map(|x| V::L(*x)).collect()));
    let mut d: Vec<f64> = vec![
        0.0, -0.0, 0.1, 0.2, 0.3, 1.0, 1.5, -1.5, 1.0 / 3.0, 1e21, 1e22, 1e23, 1e15, 1e16, 1e17, 123456789.123456789,
        9007199254740993.0, 5e-324, f64::MIN_POSITIVE, f64::MAX, f64::MIN, f64::EPSILON, f64::NAN, f64::INFINITY,
        f64::NEG_INFINITY, 2.2250738585072011e-308,
    ];
    for e in -320..309 {
        d.push(format!("1e{}", e).parse().unwrap());
        d.push(format!("-1.7e{}", e).parse().unwrap());
    }
    for e in 0..2047u64 {
        d.push(f64::from_bits(e << 52 | 0xfffffffffffff));
        d.push(f64::from_bits(e << 52 | 0x5555555555555));
    }
    r.push((FieldType::Double, d.iter().map(|x| V::D(x.to_bits())).collect()));
    let mut f: Vec<f32> = vec![
        0.0, -0.0, 0.1, 0.2, 0.3, 1.0, 1.5, -1.5, 1.0 / 3.0, 1e10, 16777217.0, f32::MIN_POSITIVE, f32::MAX, f32::MIN,
        f32::NAN, f32::INFINITY, f32::NEG_INFINITY,
    ];
    for e in 0..255u32 {
        for m in [0, 1, 2, 0x2aaaaa, 0x400000, 0x555555, 0x7fffff] {
            f.push(f32::from_bits(e << 23 | m));
            f.push(f32::from_bits(1 << 31 | e << 23 | m));
        }
    }
    r.push((FieldType::Float, f.iter().map(|x| V::F(x.to_bits())).collect()));
    let s = ["", "a", " ", " a", "a ", "\ta\t", "\u{a0}a", "a\u{3000}", "\u{feff}a", "A", "aA", "a\\n", "01", "+1", "1e3", "a b", "a,b", "\"", "\"a\"", "a\tb", "a;b", "é", "漢字", "🦀", "\u{0}", "NULL", "-1"];
    let mut s: Vec<V> = s.iter().map(|x| V::S(x.to_string())).collect();
    for n in [255, 8191, 8192, 8193, 20000] {
        s.push(V::S("x".repeat(n)));
    }
    r.push((FieldType::String, s));
    r
}

const DELIMS: [&str; 7] = [",", "\t", ";", " ", "||", "é", ""];

fn main() {
    mc::main("C19", Level::ModelChecking, |c| {
        let t = c.thorough;
        c.scenario(
            "values",
            "every boundary value of every printable type (all powers of 2 and 10 for longs, all exponents \
             with 2 mantissas for doubles, with 7 for floats) \
             in a column of its own and null, as only, first or last column, with and without time column, 7 \
             delimiters (one of them empty) and the default configuration",
            0,
            move |ctx| {
                let vals = values();
                let (ty, vs) = ctx.pick(&vals).clone();
                let place = ctx.choose(4);
                let k = ctx.choose(DELIMS.len() + 1);
                let (delim, time, dflt) =
                    if k == DELIMS.len() { (",", true, true) } else { (DELIMS[k], ctx.flag(), false) };
                let cols = [1, 2, 2, 3][place];
                let at = [0, 0, 1, 1][place];
                // where such a number ends cannot be told
                if delim.is_empty() && matches!(ty, FieldType::Double | FieldType::Float) && at + 1 < cols {
                    return Ok(());
                }
                let names: Vec<String> = (0..cols).map(|i| format!("n{}", i)).collect();
                let types = (0..cols).map(|i| if i == at { ty } else { FieldType::String }).collect();
                let mut vs = vs;
                vs.insert(1, V::N);
                vs.push(V::N);
                let rows: Vec<R> = vs
                    .iter()
                    .enumerate()
                    .map(|(i, v)| {
                        let cells = (0..cols).map(|j| if j == at { v.clone() } else { V::S(format!("s{}", i)) });
                        (i as u64 * 1_000_000_007, cells.collect())
                    })
                    .collect();
                run(ctx, &H { names, types }, &rows, delim, time, dflt)
            },
        );
        c.scenario(
            "shapes",
            "0..=4 columns (and 9, 17, 300) x 0..=3 rows (and 3000) x 7 delimiters (one of them empty) and the default x time \
             column or not x every assignment of null, integer, text and empty text to up to 4 cells of a row",
            0,
            |ctx| {
                let n = *ctx.pick(&[0usize, 1, 2, 3, 4, 9, 17, 300]);
                let rows = *ctx.pick(&[0usize, 1, 2, 3, 3000]);
                if n == 300 && rows == 3000 {
                    return Ok(());
                }
                let k = ctx.choose(DELIMS.len() + 1);
                let (delim, time, dflt) =
                    if k == DELIMS.len() { (",", true, true) } else { (DELIMS[k], ctx.flag(), false) };
                let kind = |i: usize| match i {
                    0 => V::L(-7),
                    1 => V::N,
                    2 => V::S("t".into()),
                    _ => V::S(String::new()),
                };
                let vary = if rows == 0 || rows > 3 { 0 } else { n.min(4) };
                let pat: Vec<usize> = (0..vary).map(|_| ctx.choose(4)).collect();
                let data: Vec<R> = (0..rows)
                    .map(|i| {
                        let cells = (0..n).map(|j| kind(if i == 0 && j < vary { pat[j] } else { (i + j) % 4 }));
                        (u64::MAX - i as u64, cells.collect())
                    })
                    .collect();
                let head = H {
                    names: (0..n).map(|i| format!("name {}", i)).collect(),
                    types: vec![FieldType::String; n],
                };
                run(ctx, &head, &data, delim, time, dflt)
            },
        );
        c.scenario(
            "unprintable",
            "a boolean or byte buffer value in any of 4 columns of any of 3 rows, with and without time \
             column, 7 delimiters (one of them empty): error, and nothing of it or after it is in the output",
            0,
            |ctx| {
                let bad = if ctx.flag() { V::Bool(ctx.flag()) } else { V::Buf(vec![65; ctx.choose(3)]) };
                let (r, col) = (ctx.choose(3), ctx.choose(4));
                let delim = *ctx.pick(&DELIMS);
                let time = ctx.flag();
                let ty = if let V::Bool(_) = bad { FieldType::Boolean } else { FieldType::ByteBuf };
                let head = H {
                    names: (0..4).map(|i| format!("n{}", i)).collect(),
                    types: (0..4).map(|i| if i == col { ty } else { FieldType::Int }).collect(),
                };
                let rows: Vec<R> = (0..3)
                    .map(|i| {
                        let cells = (0..4).map(|j| {
                            if j != col {
                                V::I((i * 4 + j) as i32)
                            } else if i == r {
                                bad.clone()
                            } else {
                                V::N
                            }
                        });
                        (i as u64, cells.collect())
                    })
                    .collect();
                run(ctx, &head, &rows, delim, time, false)
            },
        );
        c.scenario(
            "names",
            "3 columns, each with any of 10 names (empty, with delimiter, quotes, blanks around, non-ASCII, 9000 bytes long), over texts of the same kind",
            0,
            |ctx| {
                let long = "n".repeat(9000);
                let pool = ["a", "", "a,b", "\"q\"", "é", &long, " b", "b ", "\t", "\u{a0}b\u{3000}"];
                let names: Vec<String> = (0..3).map(|_| ctx.pick(&pool).to_string()).collect();
                let rows: Vec<R> = vec![
                    (5, vec![V::I(1), V::I(2), V::I(3)]),
                    (6, names.iter().map(|x| V::S(x.clone())).collect()),
                    (7, names.iter().rev().map(|x| V::S(x.clone())).collect()),
                ];
                let head = H { names, types: vec![FieldType::String; 3] };
                let time = ctx.flag();
                let delim = *ctx.pick(&[",", ";"]);
                run(ctx, &head, &rows, delim, time, false)
            },
        );
        c.scenario(
            "every-character",
            "texts and column names of every character 1..=0x17f and 12 others (line ends of other kinds, marks, the last ones): alone, doubled, before, after, \
             within and around a text, in any of 3 columns, with and without time column, 3 delimiters: written as they are",
            0,
            |ctx| {
                let others = [0x2028u32, 0x2029, 0x200b, 0x200e, 0x2212, 0x3000, 0xfeff, 0xfffd, 0xffff, 0x10000, 0x1f980, 0x10ffff];
                let k = ctx.choose(0x17f + others.len());
                let n = if k < 0x17f { k as u32 + 1 } else { others[k - 0x17f] };
                let c = std::char::from_u32(n).unwrap();
                let at = ctx.choose(3);
                let in_name = ctx.flag();
                let delim = *ctx.pick(&[",", "\t", "||"]);
                let time = ctx.flag();
                let texts = [
                    format!("{}", c),
                    format!("{}{}", c, c),
                    format!("{}a", c),
                    format!("a{}", c),
                    format!("a{}b", c),
                    format!("{}a{}", c, c),
                    format!("a b{}c d", c),
                ];
                let names = (0..3).map(|i| if i == at && in_name { texts[4].clone() } else { format!("n{}", i) }).collect();
                let rows: Vec<R> = texts
                    .iter()
                    .enumerate()
                    .map(|(i, x)| (i as u64, (0..3).map(|j| V::S(if j == at { x.clone() } else { format!("c{}", j) })).collect()))
                    .collect();
                run(ctx, &H { names, types: vec![FieldType::String; 3] }, &rows, delim, time, false)
            },
        );
        if t {
            c.scenario(
                "floats",
                "every f32 whose lower 8 mantissa bits are zero or all ones",
                0,
                |ctx| {
                    let hi = ctx.choose(512) as u32;
                    let rows: Vec<R> = (0..1u32 << 15)
                        .flat_map(|m| [hi << 23 | m << 8, hi << 23 | m << 8 | 0xff])
                        .map(|b| (0, vec![V::F(b)]))
                        .collect();
                    let head = H::new(&[("f", FieldType::Float)]);
                    run(ctx, &head, &rows, ",", false, false)
                },
            );
        }
        c.scenario(
            "large",
            "rows 255..=257, 1023..=1025, 8191..=8193, 65537 and 200001 of 4 columns (integers, texts of changing length, null); 1000, 4097 and 65537 \
             columns; a text of 8190..=8194, 65535..=65537 and 1000001 bytes in any of 3 columns; with and without time column",
            0,
            |ctx| {
                let time = ctx.flag();
                let delim = *ctx.pick(&[",", "\t"]);
                let (n, rows, long) = match ctx.choose(3) {
                    0 => (4, *ctx.pick(&[255usize, 256, 257, 1023, 1024, 1025, 8191, 8192, 8193, 65537, 200001]), None),
                    1 => (*ctx.pick(&[1000usize, 4097, 65537]), 3, None),
                    _ => {
                        let len = *ctx.pick(&[8190usize, 8191, 8192, 8193, 8194, 65535, 65536, 65537, 1000001]);
                        (3, 3, Some((ctx.choose(3), len)))
                    }
                };
                let data: Vec<R> = (0..rows)
                    .map(|i| {
                        let cells = (0..n).map(|j| match (long, (i + j) % 4) {
                            (Some((at, len)), _) if at == j && i == 1 => V::S("y".repeat(len)),
                            (_, 0) => V::L(i as i64 - 7),
                            (_, 1) => V::N,
                            (_, 2) => V::S("t".repeat(i % 83)),
                            _ => V::I(j as i32),
                        });
                        (i as u64 * 1000, cells.collect())
                    })
                    .collect();
                let head = H {
                    names: (0..n).map(|i| format!("name {}", i)).collect(),
                    types: vec![FieldType::String; n],
                };
                run(ctx, &head, &data, delim, time, false)
            },
        );
    });
}
