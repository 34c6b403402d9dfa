//! C18: filters keep exactly the right rows and delete exactly the right column.
use chopper::chopper::chopper::{ChopperDriver, HeaderSink, Source};
use chopper::chopper::header_graph::{HeaderChain, HeaderGraph, HeaderNode};
use chopper::chopper::types::{FieldType, TIMESTAMP_RANGE_ALL};
use chopper::driver::driver::Driver;
use chopper::driver::merge_join::MergeJoin;
use chopper::filter::column_filter_delete_col::ColumnFilterDelete;
use chopper::filter::row_filter_equal_value::RowFilterEqualValue;
use chopper::filter::row_filter_greater_value::RowFilterGreaterValue;
use mc::kit::*;
use mc::*;

#[derive(Clone, Debug, PartialEq, Hash)]
enum F {
    Eq(String, V),
    Gt(String, V),
    Del(String),
}

impl F {
    fn name(&self) -> &str {
        match self {
            F::Eq(n, _) | F::Gt(n, _) | F::Del(n) => n,
        }
    }
    fn sink(&self) -> Box<dyn HeaderSink> {
        match self {
            F::Eq(n, x) => RowFilterEqualValue::new(n, fv(x)),
            F::Gt(n, x) => RowFilterGreaterValue::new(n, fv(x)),
            F::Del(n) => ColumnFilterDelete::new(n),
        }
    }
}

fn ascii_lower(s: &str) -> Vec<u8> {
    s.bytes().map(|b| if (b'A'..=b'Z').contains(&b) { b + 32 } else { b }).collect()
}

fn position(head: &H, name: &str) -> Option<usize> {
    head.names.iter().position(|n| ascii_lower(n) == ascii_lower(name))
}

fn less(a: f64, b: f64) -> bool {
    // false with NaN
    a < b
}

fn equal(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::D(x), V::D(y)) => {
            let (x, y) = (f64::from_bits(*x), f64::from_bits(*y));
            !x.is_nan() && !y.is_nan() && !less(x, y) && !less(y, x)
        }
        (V::F(x), V::F(y)) => {
            let (x, y) = (f32::from_bits(*x) as f64, f32::from_bits(*y) as f64);
            !x.is_nan() && !y.is_nan() && !less(x, y) && !less(y, x)
        }
        _ => a == b,
    }
}

fn greater(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::D(x), V::D(y)) => less(f64::from_bits(*y), f64::from_bits(*x)),
        (V::F(x), V::F(y)) => less(f32::from_bits(*y) as f64, f32::from_bits(*x) as f64),
        (V::Byte(x), V::Byte(y)) => x > y,
        (V::Char(x), V::Char(y)) => x > y,
        (V::I(x), V::I(y)) => x > y,
        (V::L(x), V::L(y)) => x > y,
        (V::Sh(x), V::Sh(y)) => x > y,
        (V::S(x), V::S(y)) => x.as_bytes() > y.as_bytes(),
        _ => false, // nulls
    }
}

/// What comes of header and rows, None if the filters must be refused.
fn model(fs: &[F], head: &H, rows: &[R]) -> Option<(H, Vec<R>)> {
    let mut head = head.clone();
    let mut rows = rows.to_vec();
    for f in fs {
        let i = position(&head, f.name())?;
        match f {
            F::Eq(_, x) => rows.retain(|r| equal(&r.1[i], x)),
            F::Gt(_, x) => rows.retain(|r| greater(&r.1[i], x)),
            F::Del(_) => {
                head.names.remove(i);
                head.types.remove(i);
                for r in &mut rows {
                    r.1.remove(i);
                }
            }
        }
    }
    Some((head, rows))
}

/// Through the filters as part of a driver, from one or two sources; what reaches the end.
fn run(fs: &[F], head: &H, rows: &[R], merged: bool) -> Result<(Vec<H>, Vec<R>, usize), String> {
    let log = log();
    let mut nodes: Vec<HeaderNode> = Vec::new();
    for f in fs {
        nodes.push(HeaderNode::HeaderSink(f.sink()));
    }
    nodes.push(HeaderNode::HeaderSink(Rec::new(0, &log)));
    let mut sources: Vec<Box<dyn Source>> = Vec::new();
    let mut chains = Vec::new();
    if merged {
        let (a, b): (Vec<(usize, &R)>, Vec<(usize, &R)>) = rows.iter().enumerate().partition(|r| r.0 % 2 == 0);
        for x in [a, b].iter() {
            let rows: Vec<R> = x.iter().map(|r| r.1.clone()).collect();
            sources.push(VecSource::new(head, &rows));
            let m = HeaderNode::Merge(2);
            chains.push(HeaderChain::new(vec![m]));
        }
        let m = MergeJoin::new(2).map_err(|e| err_text(&e))?;
        let t = m.get_new_header_count_tracker();
        nodes.insert(0, HeaderNode::MergeHeaderSink(m, t));
    } else {
        sources.push(VecSource::new(head, rows));
    }
    chains.push(HeaderChain::new(nodes));
    let headers = sources.iter().map(|s| s.header().clone()).collect();
    let mut d = Driver::new(sources, HeaderGraph::new(chains), TIMESTAMP_RANGE_ALL, headers).map_err(|e| err_text(&e))?;
    d.drive().map_err(|e| err_text(&e))?;
    let mut hs = Vec::new();
    let mut rs = Vec::new();
    let mut flushes = 0;
    for e in log.borrow().iter() {
        match e {
            Ev::Header(_, h) => hs.push(h.clone()),
            Ev::Row(_, r) => rs.push(r.clone()),
            Ev::Flush(_) => flushes += 1,
        }
    }
    Ok((hs, rs, flushes))
}

fn case(ctx: &mut Ctx, fs: &[F], head: &H, rows: &[R], merged: bool) -> Res {
    ctx.step(&(fs, head, rows, merged));
    let got = run(fs, head, rows, merged);
    ctx.outcome(&got);
    let what = || format!("filters {} on columns {}, rows {}{}", show(fs), show(&head.names), show(rows), if merged { ", merged" } else { "" });
    ctx.note(|| format!("{}: {}", what(), show(&got)));
    match (got, model(fs, head, rows)) {
        (Err(_), None) => Ok(()),
        (Err(e), Some(_)) => Err(format!("{}: refused: {}", what(), e)),
        (Ok(_), None) => Err(format!("{}: accepted", what())),
        (Ok((hs, rs, _)), Some((h, want))) => {
            ensure!(hs == vec![h.clone()], "{}: header {:?}, expected {:?}", what(), hs, h);
            ensure!(rs == want, "{}: {} rows {}, expected {} rows {}", what(), rs.len(), show(&rs), want.len(), show(&want));
            Ok(())
        }
    }
}

fn values(t: FieldType) -> Vec<V> {
    let d = |x: f64| V::D(x.to_bits());
    let f = |x: f32| V::F(x.to_bits());
    let mut v = vec![V::N];
    v.extend(match t {
        FieldType::Double => vec![
            d(0.0), d(-0.0), d(1.0), d(-1.0), d(1.0 + f64::EPSILON), d(f64::NAN), d(-f64::NAN), d(f64::INFINITY),
            d(f64::NEG_INFINITY), d(f64::MIN_POSITIVE), d(5e-324), d(-5e-324), d(f64::MAX), d(16777217.0), d(16777216.0),
        ],
        FieldType::Float => vec![
            f(0.0), f(-0.0), f(1.0), f(-1.0), f(1.0 + f32::EPSILON), f(f32::NAN), f(-f32::NAN), f(f32::INFINITY),
            f(f32::NEG_INFINITY), f(1e-45), f(-1e-45), f(f32::MAX),
        ],
        FieldType::Byte => [0u8, 1, 127, 128, 255].iter().map(|x| V::Byte(*x)).collect(),
        FieldType::Char => [0u16, 1, 0x7fff, 0x8000, 0xffff].iter().map(|x| V::Char(*x)).collect(),
        FieldType::Short => [0i16, 1, -1, 255, 256, i16::MAX, i16::MIN].iter().map(|x| V::Sh(*x)).collect(),
        FieldType::Int => [0i32, 1, -1, 65536, 16777216, 16777217, i32::MAX, i32::MIN].iter().map(|x| V::I(*x)).collect(),
        FieldType::Long => [0i64, 1, -1, 1 << 32, (1 << 53) + 1, 1 << 53, i64::MAX, i64::MIN].iter().map(|x| V::L(*x)).collect(),
        _ => ["", "a", "A", "b", "aa", "a ", " a", "a\0", "10", "9", "-1", "\u{e9}", "e\u{301}", "\u{10000}", "\u{ffff}", "z", "B"]
            .iter()
            .map(|x| V::S(x.to_string()))
            .collect(),
    });
    v
}

const TYPES: [FieldType; 8] = [
    FieldType::Double,
    FieldType::Float,
    FieldType::Byte,
    FieldType::Char,
    FieldType::Short,
    FieldType::Int,
    FieldType::Long,
    FieldType::String,
];

fn main() {
    mc::main("C18", Level::ModelChecking, |c| {
        let t = c.thorough;
        c.scenario(
            "values",
            "both row filters, 8 types, all pairs of 6 to 18 values (limits, zeros, NaN, infinities, null, texts), with any value in the next row, the column being any of 1..=3",
            0,
            move |ctx| {
                let eq = ctx.flag();
                let ty = *ctx.pick(&TYPES);
                let vs = values(ty);
                let x = ctx.pick(&vs).clone();
                let rest: Vec<V> = (0..if t { 3 } else { 2 }).map(|_| ctx.pick(&vs).clone()).collect();
                if !eq && x == V::N && rest.iter().any(|v| *v != V::N) {
                    return Ok(()); // whether anything is greater than null is left open
                }
                let n = if t && vs.len() > 12 { 2 } else { 1 + ctx.choose(3) };
                let at = if t && vs.len() > 12 { 1 } else { ctx.choose(n) };
                let mut head = H::new(&[("p", FieldType::Int), ("q", FieldType::String), ("r", FieldType::Double)][..n]);
                head.names[at] = "x".into();
                head.types[at] = ty;
                let fill = [V::I(7), V::S("a".into()), V::N];
                let rows: Vec<R> = rest
                    .iter()
                    .enumerate()
                    .map(|(i, v)| {
                        let mut vs = fill[..n].to_vec();
                        vs[at] = v.clone();
                        (i as u64, vs)
                    })
                    .collect();
                let f = if eq { F::Eq("x".into(), x) } else { F::Gt("x".into(), x) };
                case(ctx, &[f], &head, &rows, false)
            },
        );
        c.scenario(
            "names",
            "the three filters, all headers of 0..=3 (thorough 4) names out of 9 (other case, accents, empty, prefixes), 12 wanted names",
            0,
            move |ctx| {
                let n = ctx.choose(if t { 5 } else { 4 });
                let mut head = H::new(&[]);
                for _ in 0..n {
                    head.names.push(ctx.pick(&["a", "A", "ab", "", "\u{e9}", "\u{c9}", "Ab", "a ", "[a"]).to_string());
                    head.types.push(FieldType::Int);
                }
                let name = *ctx.pick(&["a", "A", "ab", "aB", "AB", "", "\u{e9}", "\u{c9}", "b", " a", "{a", "\u{212a}"]);
                // row i has 1 in column i and 0 elsewhere, but null after it
                let rows: Vec<R> = (0..n)
                    .map(|i| (i as u64, (0..n).map(|j| if j > i { V::N } else { V::I((i == j) as i32) }).collect()))
                    .collect();
                let f = match ctx.choose(3) {
                    0 => F::Eq(name.into(), V::I(1)),
                    1 => F::Gt(name.into(), V::I(0)),
                    _ => F::Del(name.into()),
                };
                case(ctx, &[f], &head, &rows, false)
            },
        );
        c.scenario(
            "programs",
            "all sequences of 0..=3 (thorough 5) filters out of 12 on 4 columns (two of the same name) and 5 rows, from one source or two merged",
            0,
            move |ctx| {
                let head = H::new(&[
                    ("a", FieldType::Int),
                    ("b", FieldType::String),
                    ("A", FieldType::Int),
                    ("c", FieldType::Double),
                ]);
                let s = |x: &str| V::S(x.to_string());
                let d = |x: f64| V::D(x.to_bits());
                let rows: Vec<R> = vec![
                    (1, vec![V::I(1), s("x"), V::I(2), d(0.5)]),
                    (1, vec![V::I(2), s("y"), V::I(1), V::N]),
                    (2, vec![V::N, s("x"), V::I(2), d(f64::NAN)]),
                    (3, vec![V::I(3), V::N, V::I(3), d(2.5)]),
                    (4, vec![V::I(3), s(""), V::N, d(-0.0)]),
                ];
                let all = [
                    F::Eq("a".into(), V::I(2)),
                    F::Eq("A".into(), V::N),
                    F::Gt("a".into(), V::I(1)),
                    F::Del("a".into()),
                    F::Del("A".into()),
                    F::Eq("b".into(), s("x")),
                    F::Gt("B".into(), s("")),
                    F::Del("B".into()),
                    F::Gt("c".into(), d(-1.0)),
                    F::Eq("C".into(), d(0.0)),
                    F::Del("c".into()),
                    F::Del("d".into()),
                ];
                let n = ctx.choose(if t { 6 } else { 4 });
                let fs: Vec<F> = (0..n).map(|_| ctx.pick(&all).clone()).collect();
                let merged = ctx.flag();
                case(ctx, &fs, &head, &rows, merged)
            },
        );
        c.scenario(
            "many-columns",
            "each column of 1..=20 (and 40, 300) columns deleted, or filtered on, by the name in other case, all names being alike but for their end",
            0,
            move |ctx| {
                let n = *ctx.pick(&[1usize, 2, 3, 4, 5, 7, 8, 9, 10, 15, 16, 17, 20, 40, 300]);
                let at = ctx.choose(n);
                let head = H {
                    names: (0..n).map(|i| format!("column{}", i)).collect(),
                    types: (0..n).map(|i| TYPES[i % 8]).collect(),
                };
                let rows: Vec<R> = (0..4)
                    .map(|r| (r as u64, (0..n).map(|i| values(TYPES[i % 8])[(1 + r + i) % 4].clone()).collect()))
                    .collect();
                let name = format!("COLUMN{}", at);
                let f = match ctx.choose(3) {
                    0 => F::Del(name),
                    1 => F::Eq(name, rows[0].1[at].clone()),
                    _ => F::Gt(name, values(TYPES[at % 8])[1].clone()),
                };
                case(ctx, &[f], &head, &rows, false)
            },
        );
        c.scenario(
            "other-types",
            "an equality filter whose value is of another type than the column's values, for all ordered pairs of the 8 types: the same number (0, 1, \
             65, 127) or text in both; no such row is kept",
            0,
            move |ctx| {
                let of = |ty: FieldType, n: u8| match ty {
                    FieldType::Double => V::D((n as f64).to_bits()),
                    FieldType::Float => V::F((n as f32).to_bits()),
                    FieldType::Byte => V::Byte(n),
                    FieldType::Char => V::Char(n as u16),
                    FieldType::Short => V::Sh(n as i16),
                    FieldType::Int => V::I(n as i32),
                    FieldType::Long => V::L(n as i64),
                    _ => V::S(n.to_string()),
                };
                let (a, b) = (*ctx.pick(&TYPES), *ctx.pick(&TYPES));
                let n = *ctx.pick(&[0u8, 1, 65, 127]);
                let x = if a == FieldType::String && n == 65 && ctx.flag() { V::S("A".into()) } else { of(a, n) };
                let head = H::new(&[("k", b), ("v", FieldType::String)]);
                let rows: Vec<R> = [n, n + 1, n].iter().enumerate().map(|(i, n)| (i as u64, vec![of(b, *n), V::S(format!("r{}", i))])).collect();
                case(ctx, &[F::Eq("k".into(), x)], &head, &rows, false)
            },
        );
        c.scenario(
            "long-runs",
            "all keep/drop patterns of 10 (thorough 14) rows through an equality and a greater-than filter",
            0,
            move |ctx| {
                let n = if t { 14 } else { 10 };
                let head = H::new(&[("k", FieldType::Int), ("v", FieldType::String)]);
                let rows: Vec<R> =
                    (0..n).map(|i| (i / 2, vec![V::I(ctx.choose(2) as i32), V::S(format!("r{}", i))])).collect();
                let f = if ctx.flag() { F::Eq("k".into(), V::I(1)) } else { F::Gt("k".into(), V::I(0)) };
                case(ctx, &[f], &head, &rows, false)
            },
        );
        c.scenario(
            "large",
            "255..=257, 1023..=1025, 4097, 65537 and 100001 rows in 4 patterns (alternately kept, runs of 300 and more kept or dropped, \
             one kept at the end, all kept) through one filter or 3 in a row",
            0,
            move |ctx| {
                let n = *ctx.pick(&[255usize, 256, 257, 1023, 1024, 1025, 4097, 65537, 100001]);
                let p = ctx.choose(4);
                let head = H::new(&[("k", FieldType::Int), ("v", FieldType::String), ("w", FieldType::Long)]);
                let rows: Vec<R> = (0..n)
                    .map(|i| {
                        let keep = match p {
                            0 => i % 2 == 1,
                            1 => i / 333 % 2 == 1,
                            2 => i == n - 1,
                            _ => true,
                        };
                        (i as u64, vec![V::I(keep as i32), V::S(format!("r{}", i)), V::L(i as i64 % 1000)])
                    })
                    .collect();
                let mut fs = vec![if ctx.flag() { F::Eq("k".into(), V::I(1)) } else { F::Gt("k".into(), V::I(0)) }];
                if ctx.flag() {
                    fs.push(F::Del("v".into()));
                    fs.push(F::Gt("w".into(), V::L(500)));
                }
                let merged = ctx.flag();
                case(ctx, &fs, &head, &rows, merged)
            },
        );
        c.scenario(
            "long-texts",
            "a column of texts of 0, 1, 15..=17, 255..=257, 1023..=1025, 32767..=32769, 65535..=65537 and 1000001 bytes compared with \
             the same text, one changed in its last, middle or first byte, one shorter, one longer, by both row filters",
            0,
            move |ctx| {
                let n = *ctx.pick(&[0usize, 1, 15, 16, 17, 255, 256, 257, 1023, 1024, 1025, 32767, 32768, 32769, 65535, 65536, 65537, 1000001]);
                let text = |at: usize, c: char, n: usize| -> V { V::S((0..n).map(|i| if i == at { c } else { 'm' }).collect()) };
                let all = |n: usize| {
                    let none = n + 5;
                    let mut v = vec![text(none, 'm', n), text(none, 'm', n + 1)];
                    if n > 0 {
                        v.push(text(none, 'm', n - 1));
                        for at in [0, n / 2, n - 1].iter() {
                            v.push(text(*at, 'a', n));
                            v.push(text(*at, 'z', n));
                        }
                    }
                    v
                };
                let head = H::new(&[("k", FieldType::String)]);
                let rows: Vec<R> = all(n).into_iter().enumerate().map(|(i, v)| (i as u64, vec![v])).collect();
                let x = text(n, 'm', n);
                let f = if ctx.flag() { F::Eq("k".into(), x) } else { F::Gt("k".into(), x) };
                case(ctx, &[f], &head, &rows, false)
            },
        );
    });
}
