//! C12: binary DC files round-trip and follow the wire format.
use chopper::chopper::chopper::Source;
use chopper::chopper::types::{FieldType, FieldType::*};
use chopper::error::CliResult;
use chopper::source::dc_source::DCSource;
use chopper::write::factory;
use mc::kit::*;
use mc::*;

const TYPES: [FieldType; 8] = [Byte, Char, Double, Float, Int, Long, Short, String];

fn type_text(t: FieldType) -> &'static str {
    match t {
        Boolean => "Z",
        Byte => "B",
        Char => "C",
        Double => "D",
        Float => "F",
        Int => "I",
        Long => "J",
        Short => "S",
        String => "Ljava.lang.String;",
        ByteBuf => "Ljava.lang.ByteBuffer;",
    }
}

// ---------------------------------------------------------------------------------------------
// independent decoder of the format

struct Bytes<'a>(&'a [u8], usize);

impl<'a> Bytes<'a> {
    fn take(&mut self, n: usize) -> Result<&'a [u8], std::string::String> {
        if self.0.len() - self.1 < n {
            return Err(format!("{} bytes wanted at {} of {}", n, self.1, self.0.len()));
        }
        self.1 += n;
        Ok(&self.0[self.1 - n..self.1])
    }
    fn be(&mut self, n: usize) -> Result<u64, std::string::String> {
        Ok(self.take(n)?.iter().fold(0u64, |a, b| a << 8 | *b as u64))
    }
    fn text(&mut self, n: usize) -> Result<std::string::String, std::string::String> {
        std::string::String::from_utf8(self.take(n)?.to_vec()).map_err(|e| e.to_string())
    }
}

fn decode(b: &[u8]) -> Result<(H, Vec<R>), std::string::String> {
    let mut b = Bytes(b, 0);
    let (m, v) = (b.be(8)?, b.be(2)?);
    if m != 0x44434154 || v != 2 {
        return Err(format!("magic {:x}, version {}", m, v));
    }
    let n = b.be(4)? as usize;
    b.take(n)?;
    let cols = b.be(4)? as usize;
    let mut h = H { names: vec![], types: vec![] };
    for i in 0..cols {
        let n = b.be(4)? as usize;
        h.names.push(b.text(n)?);
        let n = b.be(4)? as usize;
        let t = b.text(n)?;
        match TYPES.iter().find(|x| type_text(**x) == t) {
            Some(x) => h.types.push(*x),
            None => return Err(format!("type {:?} of column {}", t, i)),
        }
        let hint = b.be(4)? as u32 as i32;
        if hint < -1 || hint > 6 {
            return Err(format!("display hint {}", hint));
        }
    }
    let mut rows = Vec::new();
    while b.1 < b.0.len() {
        let t = b.be(8)?;
        let bits = b.take((cols + 7) / 8)?;
        for i in cols..bits.len() * 8 {
            if bits[i / 8] >> (i % 8) & 1 != 0 {
                return Err(format!("null bit {} set of {} columns", i, cols));
            }
        }
        let mut vs = Vec::new();
        for (i, ty) in h.types.iter().enumerate() {
            vs.push(if bits[i / 8] >> (i % 8) & 1 != 0 {
                V::N
            } else {
                match ty {
                    Byte => V::Byte(b.be(1)? as u8),
                    Char => V::Char(b.be(2)? as u16),
                    Double => V::D(b.be(8)?),
                    Float => V::F(b.be(4)? as u32),
                    Int => V::I(b.be(4)? as u32 as i32),
                    Long => V::L(b.be(8)? as i64),
                    Short => V::Sh(b.be(2)? as u16 as i16),
                    _ => {
                        let n = b.be(2)? as u16 as i16;
                        let n = if n < 0 {
                            let m = b.be(4)? as usize;
                            if n != -1 || m <= 32767 {
                                return Err(format!("string length {} {}", n, m));
                            }
                            m
                        } else {
                            n as usize
                        };
                        V::S(b.text(n)?)
                    }
                }
            });
        }
        rows.push((t, vs));
    }
    Ok((h, rows))
}

/// The values of a type that are worth trying.
fn values(t: FieldType) -> Vec<V> {
    match t {
        Byte => vec![0, 1, 127, 128, 255].into_iter().map(V::Byte).collect(),
        Char => vec![0, 1, 0x41, 0xff, 0x100, 0xd800, 0xffff].into_iter().map(V::Char).collect(),
        Double => [0.0, -0.0, 1.5, f64::MAX, f64::MIN_POSITIVE, f64::INFINITY, f64::NEG_INFINITY]
            .iter()
            .map(|x| x.to_bits())
            .chain([1, 0x7ff8_0000_0000_0000, 0x7ff0_0000_0000_0001, 0xfff8_0000_dead_beef])
            .map(V::D)
            .collect(),
        Float => [0.0, -0.0, 1.5, f32::MAX, f32::INFINITY]
            .iter()
            .map(|x| x.to_bits())
            .chain([1, 0x7fc0_0000, 0xffc0_beef])
            .map(V::F)
            .collect(),
        Int => vec![0, 1, -1, 255, 256, 65536, i32::MAX, i32::MIN].into_iter().map(V::I).collect(),
        Long => vec![0, 1, -1, 1 << 32, i64::MAX, i64::MIN].into_iter().map(V::L).collect(),
        Short => vec![0, 1, -1, 255, 256, i16::MAX, i16::MIN].into_iter().map(V::Sh).collect(),
        _ => ["", "a", "\0", "é", "日本語", "a,\"\n", "\u{10ffff}"].iter().map(|s| V::S(s.to_string())).collect(),
    }
}

fn write(ctx: &Ctx, h: &H, rows: &[R]) -> Result<Vec<u8>, std::string::String> {
    let p = ctx.dir().join("o.dc");
    feed(factory::new_header_sink(Some(&p.to_string_lossy()), None), h, rows)?;
    std::fs::read(&p).map_err(|e| e.to_string())
}

fn source(b: &[u8]) -> CliResult<Box<dyn Source>> {
    Ok(Box::new(DCSource::new(std::io::Cursor::new(b.to_vec()))?))
}

/// As read back: unnamed columns get a name.
fn named(h: &H) -> H {
    H {
        names: h.names.iter().enumerate().map(|(i, n)| if n.is_empty() { format!("col_{}", i) } else { n.clone() }).collect(),
        types: h.types.clone(),
    }
}

fn first_difference(got: &[R], want: &[R]) -> std::string::String {
    let short = |x: Option<&R>| {
        let s = format!("{:?}", x);
        if s.chars().count() > 300 { s.chars().take(300).collect::<std::string::String>() + "..." } else { s }
    };
    for i in 0..got.len().max(want.len()) {
        if got.get(i) != want.get(i) {
            return format!("row {}: {}, expected {}", i, short(got.get(i)), short(want.get(i)));
        }
    }
    "no difference".to_string()
}

fn read_back(b: &[u8], h: &H, rows: &[R], what: &str) -> Res {
    let got = open_and_read(source(b)).map_err(|e| format!("{}: not read: {}", what, e))?;
    ensure!(got.header == named(h), "{}: header {:?}, expected {:?}", what, got.header, named(h));
    ensure!(
        got.err.is_none() && got.rows == rows,
        "{}: {}, {:?}",
        what,
        first_difference(&got.rows, rows),
        got.err
    );
    Ok(())
}

fn round_trip(ctx: &mut Ctx, h: &H, rows: &[R]) -> Res {
    ctx.step(&(h, rows));
    let b = write(ctx, h, rows)?;
    ctx.outcome(&b);
    ctx.note(|| format!("{:?}: {} rows, {} bytes", h, rows.len(), b.len()));
    let (dh, dr) = decode(&b).map_err(|e| format!("bytes written for {:?} do not follow the format: {}", h, e))?;
    ensure!(dh == *h, "header written {:?}, expected {:?}", dh, h);
    ensure!(dr == rows, "written bytes: {}", first_difference(&dr, rows));
    read_back(&b, h, rows, "read back")
}

/// Columns whose types cycle, and two values for each.
fn columns(n: usize, shift: usize) -> H {
    H {
        names: (0..n).map(|i| if i % 4 == 3 { "".to_string() } else { format!("c{}", i) }).collect(),
        types: (0..n).map(|i| TYPES[(i + shift) % 8]).collect(),
    }
}

fn filled(h: &H, null: &dyn Fn(usize) -> bool, salt: usize) -> Vec<V> {
    (0..h.types.len())
        .map(|i| {
            let vs = values(h.types[i]);
            if null(i) { V::N } else { vs[(i + salt) % vs.len()].clone() }
        })
        .collect()
}

fn main() {
    mc::main("C12", Level::ModelChecking, |c| {
        let t = c.thorough;
        c.scenario(
            "types-and-nulls",
            "every sequence of up to 3 (thorough 4) column types x every null pattern of two rows",
            0,
            move |ctx| {
                let n = ctx.choose(if t { 5 } else { 4 });
                let types: Vec<FieldType> = (0..n).map(|_| *ctx.pick(&TYPES)).collect();
                let h = H { names: (0..n).map(|i| format!("n{}", i)).collect(), types };
                let (a, b) = (ctx.choose(1 << n), ctx.choose(1 << n));
                let rows = vec![
                    (5, filled(&h, &|i| a >> i & 1 == 1, 1)),
                    (7, filled(&h, &|i| b >> i & 1 == 1, 4)),
                ];
                round_trip(ctx, &h, &rows)
            },
        );
        c.scenario(
            "column-counts",
            "0..=70 columns of all types x 4 rows out of: no, all, odd, even, first, last column null; 0..=4 rows",
            0,
            move |ctx| {
                let n = ctx.choose(71);
                let h = columns(n, ctx.choose(8));
                let rows: Vec<R> = (0..ctx.choose(5))
                    .map(|r| {
                        let k = ctx.choose(6);
                        let null = move |i: usize| match k {
                            0 => false,
                            1 => true,
                            2 => i % 2 == 0,
                            3 => i % 2 == 1,
                            4 => i == 0,
                            _ => i + 1 == n,
                        };
                        if !t && r > 1 && k > 1 {
                            return (r as u64, filled(&h, &|_| false, r));
                        }
                        (r as u64, filled(&h, &null, r))
                    })
                    .take(4)
                    .collect();
                if !t && n > 18 && rows.len() > 1 {
                    return Ok(());
                }
                round_trip(ctx, &h, &rows)
            },
        );
        c.scenario(
            "null-patterns",
            "every null pattern of 7..=11 columns (thorough 7..=17, with a second row of the opposite pattern)",
            0,
            move |ctx| {
                let n = 7 + ctx.choose(if t { 11 } else { 5 });
                let h = columns(n, 5);
                let m = ctx.choose(1 << n);
                let mut rows = vec![(1u64 << 40, filled(&h, &|i| m >> i & 1 == 1, 0))];
                rows.push((1 << 41, filled(&h, &|i| m >> i & 1 == 0, 3)));
                round_trip(ctx, &h, &rows)
            },
        );
        c.scenario(
            "two-nulls",
            "columns 12..=66 (quick: 15..=18, 31..=34, 63..=66), every pair of null columns, or all but a pair",
            0,
            move |ctx| {
                let all: Vec<usize> = (12..=66).collect();
                let few: Vec<usize> = [15, 16, 17, 18, 31, 32, 33, 34, 63, 64, 65, 66].to_vec();
                let n = *ctx.pick(if t { &all } else { &few });
                let h = columns(n, 2);
                let a = ctx.choose(n);
                let b = a + ctx.choose(n - a);
                let inv = ctx.flag();
                round_trip(ctx, &h, &[(9, filled(&h, &|i| (i == a || i == b) != inv, 0)), (9, filled(&h, &|_| false, 1))])
            },
        );
        c.scenario(
            "values",
            "each extreme value of each type, in pairs next to each other; timestamps 0, 1, powers of two, 2^64-1",
            0,
            move |ctx| {
                let (a, b) = (*ctx.pick(&TYPES), *ctx.pick(&TYPES));
                let h = H::new(&[("a", a), ("b", b)]);
                let (x, y) = (values(a), values(b));
                let (x, y) = (ctx.pick(&x).clone(), ctx.pick(&y).clone());
                let ts = [0u64, 1, 255, 256, 1 << 31, 1 << 32, 1 << 63, u64::MAX];
                let i = ctx.choose(ts.len());
                if !t && a != b && i > 1 {
                    return Ok(());
                }
                round_trip(ctx, &h, &[(ts[i], vec![x, y]), (ts[7 - i], vec![V::N, V::N])])
            },
        );
        c.scenario(
            "narrow-values",
            "all 256 bytes, 65536 characters and shorts, 2^k, 2^k-1, -2^k ints and longs",
            0,
            move |ctx| {
                let h = H::new(&[("x", Byte), ("c", Char), ("s", Short), ("i", Int), ("l", Long)]);
                let block = ctx.choose(256);
                let rows: Vec<R> = (0..256usize)
                    .map(|k| {
                        let x = (block << 8 | k) as u16;
                        let p = 1u64 << (k % 64);
                        let l = [p, p.wrapping_sub(1), p.wrapping_neg()][(k / 64) % 3] as i64;
                        (x as u64, vec![V::Byte(k as u8), V::Char(x), V::Sh(x as i16), V::I((l as i32).rotate_left(block as u32 % 32)), V::L(l)])
                    })
                    .collect();
                round_trip(ctx, &h, &rows)
            },
        );
        c.scenario(
            "string-lengths",
            "strings of 0..=300, around 2^8, 2^12, 2^13, 2^14, 32767, 65535, 2^17, 10^6 bytes, of 1 to 4 byte characters; alone, first, last and between other columns",
            0,
            move |ctx| {
                let mut lens: Vec<usize> = (0..=300).collect();
                for p in [4096usize, 8192, 16384, 32768, 65536, 131072, 1_000_000] {
                    let d = if t { 40 } else { 6 };
                    lens.extend(p - d..=p + d);
                }
                let n = *ctx.pick(&lens);
                let unit = *ctx.pick(&["x", "é", "日", "\u{10348}"]);
                let mut s = unit.repeat(n / unit.len());
                while s.len() < n {
                    s.push('y');
                }
                let place = ctx.choose(4);
                if n > 20000 && !t && place > 1 {
                    return Ok(());
                }
                let s = V::S(s);
                let (h, vs) = match place {
                    0 => (H::new(&[("s", String)]), vec![s]),
                    1 => (H::new(&[("s", String), ("i", Int)]), vec![s, V::I(-2)]),
                    2 => (H::new(&[("i", Long), ("s", String)]), vec![V::L(-2), s]),
                    _ => (H::new(&[("z", String), ("s", String), ("y", String)]), vec![V::S("z".into()), s, V::S("".into())]),
                };
                round_trip(ctx, &h, &[(1, vs.clone()), (2, vs.iter().map(|_| V::N).collect()), (3, vs)])
            },
        );
        c.scenario(
            "nearly-the-same",
            "3 rows, the third like the first: the second differs in one string of any length 1..=130, 255..=257, 1000, 4096, 32767..=32769 (one byte or its case, at each place, \
             130 of them over 130; the length, by one; or nothing); in one number or character of any extreme value by one bit, each; or in the time alone; with columns before and after it or none",
            0,
            move |ctx| {
                let around = ctx.flag();
                let ty = *ctx.pick(&TYPES);
                let (one, two) = if ty == String {
                    let n = match ctx.choose(138) {
                        k if k < 130 => k + 1,
                        k => [255, 256, 257, 1000, 4096, 32767, 32768, 32769][k - 130],
                    };
                    let at = ctx.choose(2 * n.min(130) + 3);
                    let one: std::string::String = (0..n).map(|i| (b'a' + (i % 23) as u8) as char).collect();
                    let mut two = one.clone().into_bytes();
                    match at {
                        0 => {}
                        1 => two.push(b'z'),
                        2 => {
                            two.pop();
                        }
                        k => {
                            let p = (k - 3) / 2 * n / n.min(130);
                            two[p] = if k % 2 == 1 { b'z' } else { two[p].to_ascii_uppercase() };
                        }
                    }
                    (V::S(one), V::S(std::string::String::from_utf8(two).unwrap()))
                } else {
                    let one = ctx.pick(&values(ty)).clone();
                    let bits = match ty {
                        Byte => 8,
                        Char | Short => 16,
                        Float | Int => 32,
                        _ => 64,
                    };
                    let k = ctx.choose(bits + 1);
                    let m = if k < bits { 1u64 << k } else { 0 };
                    let two = match &one {
                        V::Byte(x) => V::Byte(x ^ m as u8),
                        V::Char(x) => V::Char(x ^ m as u16),
                        V::Sh(x) => V::Sh(x ^ m as i16),
                        V::F(x) => V::F(x ^ m as u32),
                        V::I(x) => V::I(x ^ m as i32),
                        V::D(x) => V::D(x ^ m),
                        V::L(x) => V::L(x ^ m as i64),
                        x => x.clone(),
                    };
                    (one, two)
                };
                let (h, row) = if around {
                    let h = H::new(&[("b", String), ("x", ty), ("a", Int)]);
                    (h, vec![V::S("é".into()), V::N, V::I(3)])
                } else {
                    (H::new(&[("x", ty)]), vec![V::N])
                };
                let rows: Vec<R> = [&one, &two, &one]
                    .iter()
                    .enumerate()
                    .map(|(i, v)| {
                        let mut r = row.clone();
                        r[around as usize] = (*v).clone();
                        (i as u64, r)
                    })
                    .collect();
                round_trip(ctx, &h, &rows)
            },
        );
        c.scenario(
            "names",
            "2 columns named by each pair out of 12 names (empty, blank, unicode, long, col_0, equal ones)",
            0,
            move |ctx| {
                let names: Vec<std::string::String> = ["", " ", "a", "A", "col_0", "col_1", "é", "日本", "a,b", "x\ny"]
                    .iter()
                    .map(|s| s.to_string())
                    .chain(["n".repeat(300), "n".repeat(70000)])
                    .collect();
                let h = H {
                    names: vec![ctx.pick(&names).clone(), ctx.pick(&names).clone()],
                    types: vec![*ctx.pick(&TYPES), String],
                };
                let rows = vec![(4, filled(&h, &|_| false, 1))];
                round_trip(ctx, &h, &rows)
            },
        );
        c.scenario(
            "names-of-characters",
            "2 columns, one named by each character up to U+02FF and 120 others (blanks, controls, marks, ends of ranges), alone, twice, three times, before or after a letter, or by a digit after it",
            0,
            move |ctx| {
                let others = (0x2000u32..0x2070).chain([0x3000, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xffff, 0x10000, 0x10ffff]);
                let chars: Vec<char> = (0u32..0x300).chain(others).filter_map(char::from_u32).collect();
                let ch = *ctx.pick(&chars);
                let name = match ctx.choose(6) {
                    0 => format!("{}", ch),
                    1 => format!("{0}{0}", ch),
                    2 => format!("{0}{0}{0}", ch),
                    3 => format!("{}a", ch),
                    4 => format!("a{}", ch),
                    _ => format!("{}1", ch),
                };
                let names = if ctx.flag() { vec!["x".to_string(), name] } else { vec![name, "x".to_string()] };
                let h = H { names, types: vec![FieldType::Int, String] };
                let rows = vec![(4, filled(&h, &|_| false, 1))];
                round_trip(ctx, &h, &rows)
            },
        );
        c.scenario(
            "many-rows",
            "0..=600 rows (thorough 3000) of 3, 8 or 9 columns with changing nulls: written and read across buffer ends",
            0,
            move |ctx| {
                let h = columns(*ctx.pick(&[3usize, 8, 9]), ctx.choose(8));
                let n = ctx.choose(if t { 3001 } else { 601 });
                if !t && n % 7 != 0 && n > 50 {
                    return Ok(());
                }
                let rows: Vec<R> = (0..n).map(|r| (r as u64 * 1_000_000_007, filled(&h, &|i| (r / 3 + i) % 5 == 0, r))).collect();
                round_trip(ctx, &h, &rows)
            },
        );
        c.scenario(
            "unsupported-types",
            "boolean or byte buffer columns at every place among up to 3 columns: written with and without rows, values null or not; read",
            0,
            move |ctx| {
                let n = 1 + ctx.choose(3);
                let at = ctx.choose(n);
                let bad = *ctx.pick(&[Boolean, ByteBuf]);
                let h = H {
                    names: (0..n).map(|i| format!("c{}", i)).collect(),
                    types: (0..n).map(|i| if i == at { bad } else { *ctx.pick(&TYPES) }).collect(),
                };
                let val = if bad == Boolean { V::Bool(true) } else { V::Buf(vec![1, 2]) };
                let kind = ctx.choose(3);
                let rows: Vec<R> = match kind {
                    0 => vec![],
                    _ => vec![(
                        1,
                        (0..n)
                            .map(|i| {
                                if i != at {
                                    values(h.types[i])[1].clone()
                                } else if kind == 1 {
                                    V::N
                                } else {
                                    val.clone()
                                }
                            })
                            .collect(),
                    )],
                };
                ctx.step(&(&h, kind));
                let w = write(ctx, &h, &rows);
                ctx.outcome(&w.is_err());
                ensure!(w.is_err(), "columns {:?} written", h.types);
                // reading one: never a made-up value
                let b = dc_bytes(&h, &rows);
                let got = open_and_read(source(&b));
                ctx.note(|| format!("read: {}", brief(&got)));
                if kind == 2 {
                    if let Ok(g) = &got {
                        ensure!(g.err.is_some() && g.rows.is_empty(), "column of type {:?} read as {:?}", bad, g.rows);
                    }
                }
                // a type the format does not know
                let mut b = dc_bytes(&h, &[]);
                let s = type_text(bad).as_bytes().to_vec();
                if let Some(p) = b.windows(s.len()).rposition(|w| w == &s[..]) {
                    b[p] = *ctx.pick(b"zLVQ\x00[");
                    if std::str::from_utf8(&b[p..p + s.len()]).ok() != Some(type_text(bad)) {
                        let got = open_and_read(source(&b));
                        ensure!(got.is_err(), "unknown column type read: {}", brief(&got));
                    }
                }
                Ok(())
            },
        );
        c.scenario(
            "mismatched-row-types",
            "a row value of an unsupported type in a supported column is refused when written",
            0,
            move |ctx| {
                let ty = *ctx.pick(&TYPES);
                let bad = ctx.pick(&[V::Bool(false), V::Buf(vec![])]).clone();
                let h = H::new(&[("a", Int), ("x", ty)]);
                ctx.step(&(&h, &bad));
                let w = write(ctx, &h, &[(1, vec![V::I(1), bad])]);
                ctx.outcome(&w.is_err());
                ensure!(w.is_err(), "a boolean or byte buffer was written");
                Ok(())
            },
        );
        c.scenario(
            "foreign-files",
            "files by an independent writer: user header of 0..=40, 8150..=8200, 100000 bytes x display hints -1..=6 of two columns x both columns' names empty or not",
            0,
            move |ctx| {
                let lens: Vec<usize> = (0..=40).chain(8150..=8200).chain([100_000]).collect();
                let n = *ctx.pick(&lens);
                let hints = [ctx.choose(8) as i32 - 1, if t { ctx.choose(8) as i32 - 1 } else { -1 }];
                let h = H::new(&[(*ctx.pick(&["", "first"]), String), (*ctx.pick(&["", "second"]), Double)]);
                let rows = vec![
                    (3, vec![V::S("abc".into()), V::N]),
                    (u64::MAX, vec![V::N, V::D(1.0f64.to_bits())]),
                    (0, vec![V::S("".into()), V::D(0)]),
                ];
                let plain = dc_bytes(&h, &rows);
                let mut b = plain[..10].to_vec();
                b.extend((n as u32).to_be_bytes());
                b.extend((0..n).map(|i| (i * 7) as u8));
                b.extend(&plain[14..18]);
                let mut at = 18;
                for (i, name) in h.names.iter().enumerate() {
                    let len = 4 + name.len() + 4 + type_text(h.types[i]).len();
                    b.extend(&plain[at..at + len]);
                    b.extend(hints[i].to_be_bytes());
                    at += len + 4;
                }
                b.extend(&plain[at..]);
                ctx.step(&(n, hints, &h));
                ctx.outcome(&b);
                read_back(&b, &h, &rows, &format!("user header of {} bytes, hints {:?}", n, hints))
            },
        );
        c.scenario(
            "display-hints",
            "files by an independent writer: two columns of each of the 8 types x each display hint -1..=6 (thorough also 7, 255, limits of integers)",
            0,
            move |ctx| {
                let all = [-1, 0, 1, 2, 3, 4, 5, 6, 7, 255, i32::MIN, i32::MAX];
                let all = &all[..if t { 12 } else { 8 }];
                let types = [*ctx.pick(&TYPES), *ctx.pick(&TYPES)];
                let hints = [*ctx.pick(all), *ctx.pick(all)];
                let h = H::new(&[("first", types[0]), ("second", types[1])]);
                let rows = vec![(3, filled(&h, &|_| false, 1)), (4, filled(&h, &|i| i == 0, 2)), (4, filled(&h, &|i| i == 1, 3))];
                let plain = dc_bytes(&h, &rows);
                let mut b = plain[..18].to_vec();
                let mut at = 18;
                for (i, name) in h.names.iter().enumerate() {
                    let len = 4 + name.len() + 4 + type_text(h.types[i]).len();
                    b.extend(&plain[at..at + len]);
                    b.extend(hints[i].to_be_bytes());
                    at += len + 4;
                }
                b.extend(&plain[at..]);
                ctx.step(&(&h, hints));
                let got = open_and_read(source(&b));
                ctx.outcome(&(got.is_ok(), hints));
                // what is no hint may be refused
                if hints.iter().any(|h| *h < -1 || *h > 6) && got.is_err() {
                    return Ok(());
                }
                read_back(&b, &h, &rows, &format!("hints {:?}", hints))
            },
        );
        c.scenario(
            "spare-null-bits",
            "files by an independent writer: 1..=7, 9..=15 and 17 columns of each first type, every pattern of nulls of the last two columns, every pattern (of more than \
             4 bits: 16) of the bits beyond the last column, in the first or the second row or both",
            0,
            move |ctx| {
                let n = *ctx.pick(&[1usize, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 13, 14, 15, 17]);
                let h = columns(n, ctx.choose(8));
                let nulls = ctx.choose(4);
                let spare = 8 - n % 8;
                let bits = if spare <= 4 { ctx.choose(1 << spare) as u8 } else { *ctx.pick(&[1u8, 2, 3, 4, 5, 8, 0x10, 0x11, 0x18, 0x20, 0x40, 0x55, 0x2a, 0x7f, 0xff, 0xfe]) };
                let which = 1 + ctx.choose(3);
                let rows: Vec<R> = vec![
                    (1, filled(&h, &|i| i + 2 >= n && nulls >> (n - 1 - i) & 1 == 1, 1)),
                    (2, filled(&h, &|_| false, 2)),
                ];
                let mut b = dc_bytes(&h, &rows);
                let start = [dc_bytes(&h, &[]).len(), dc_bytes(&h, &rows[..1]).len()];
                for i in 0..2 {
                    if which >> i & 1 == 1 {
                        b[start[i] + 8 + n / 8] |= bits << (n % 8);
                    }
                }
                ctx.step(&(n, nulls, bits, which, &h.types[0]));
                ctx.outcome(&b);
                read_back(&b, &h, &rows, &format!("{} columns, further bits {:#x} in rows {:#b}", n, bits, which))
            },
        );
        c.scenario(
            "foreign-shapes",
            "files by an independent writer read back: every sequence of up to 3 types x every null pattern; 0..=70 columns",
            0,
            move |ctx| {
                let (h, rows) = if ctx.flag() {
                    let n = ctx.choose(4);
                    let types: Vec<FieldType> = (0..n).map(|_| *ctx.pick(&TYPES)).collect();
                    let h = H { names: (0..n).map(|i| format!("n{}", i)).collect(), types };
                    let a = ctx.choose(1 << n);
                    let rows = vec![(5, filled(&h, &|i| a >> i & 1 == 1, 1)), (5, filled(&h, &|_| false, 2))];
                    (h, rows)
                } else {
                    let n = ctx.choose(71);
                    let h = columns(n, ctx.choose(8));
                    let k = ctx.choose(n + 1);
                    let rows = vec![(1, filled(&h, &|i| i == k, 1)), (1, filled(&h, &|i| i < k, 2)), (1, filled(&h, &|i| i >= k, 2))];
                    (h, rows)
                };
                ctx.step(&(&h, &rows));
                let b = dc_bytes(&h, &rows);
                ctx.outcome(&b);
                read_back(&b, &h, &rows, "file by another writer")
            },
        );
        c.scenario(
            "wrong-magic-or-version",
            "every single-bit change of magic and version is refused",
            0,
            move |ctx| {
                let h = H::new(&[("a", Int)]);
                let mut b = dc_bytes(&h, &[(1, vec![V::I(1)])]);
                let (at, bit) = (ctx.choose(10), ctx.choose(8));
                b[at] ^= 1 << bit;
                ctx.step(&(at, bit));
                let got = open_and_read(source(&b));
                ctx.outcome(&got.is_err());
                ensure!(got.is_err(), "bit {} of byte {} changed: {}", bit, at, brief(&got));
                Ok(())
            },
        );
        c.scenario(
            "long",
            "1023..=1025, 4097, 65535..=65537 and 100001 (thorough also 500000) rows of 3 or 9 columns: no nulls, changing nulls, nulls from one \
             row on, first value after many nulls; equal times or growing",
            0,
            move |ctx| {
                let mut sizes = vec![1023usize, 1024, 1025, 4097, 65535, 65536, 65537, 100001];
                if t {
                    sizes.push(500000);
                }
                let n = *ctx.pick(&sizes);
                let h = columns(*ctx.pick(&[3usize, 9]), 2 * ctx.choose(4));
                let k = ctx.choose(4);
                let grow = n > 60000 || ctx.flag();
                let null = move |r: usize, i: usize| match k {
                    0 => false,
                    1 => (r + i) % 5 == 0,
                    2 => r > n / 2 && i % 2 == 0,
                    _ => r + 3 < n && i > 0,
                };
                let rows: Vec<R> = (0..n)
                    .map(|r| (if grow { r as u64 * 1_000_000_007 } else { 5 }, filled(&h, &|i| null(r, i), r)))
                    .collect();
                round_trip(ctx, &h, &rows)
            },
        );
        c.scenario(
            "very-wide",
            "71..=130, 255..=257, 511..=513, 1023..=1025, 2047..=2049, 4096, 10000, 32767..=32769 and 65535..=65537 columns x no, all, odd, even, first, last, \
             only last not null x 2 rows",
            0,
            move |ctx| {
                let n = match ctx.choose(60 + 20) {
                    i if i < 60 => 71 + i,
                    i => [255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4096, 10000, 32767, 32768, 32769, 65535, 65536, 65537]
                        [i - 60],
                };
                let h = columns(n, ctx.choose(if n > 2000 { 1 } else { 8 }));
                let k = ctx.choose(7);
                let null = move |i: usize| match k {
                    0 => false,
                    1 => true,
                    2 => i % 2 == 0,
                    3 => i % 2 == 1,
                    4 => i == 0,
                    5 => i + 1 == n,
                    _ => i + 1 != n,
                };
                let rows: Vec<R> = vec![(1, filled(&h, &null, 0)), (2, filled(&h, &|i| !null(i), 1))];
                round_trip(ctx, &h, &rows)
            },
        );
        c.scenario(
            "long-names",
            "3 columns, one named by 127..=129, 255..=257, 1023..=1025, 8190..=8194, 32767..=32769, 65535..=65537, 1000000 bytes of 1- to 4-byte characters",
            0,
            move |ctx| {
                let n = *ctx.pick(&[
                    127usize, 128, 129, 255, 256, 257, 1023, 1024, 1025, 8190, 8191, 8192, 8193, 8194, 32767, 32768, 32769, 65535, 65536, 65537,
                    1000000,
                ]);
                let w = *ctx.pick(&["x", "\u{e9}", "\u{6f22}", "\u{1f980}"]);
                let at = ctx.choose(3);
                let mut name = "a".repeat(n % w.len());
                name.push_str(&w.repeat(n / w.len()));
                let mut h = columns(3, 1);
                h.names[at] = name;
                let rows: Vec<R> = (0..2).map(|r| (r as u64, filled(&h, &|i| i == r, r))).collect();
                round_trip(ctx, &h, &rows)
            },
        );
    });
}
