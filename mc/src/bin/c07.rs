//! C07: the CSV output time column shows each row's exact time.
use chopper::source::csv_configs::*;
use chopper::source::csv_timestamp::TimestampUnits;
use chopper::write::factory;
use mc::kit::*;
use mc::time::*;
use mc::*;

const UNITS: [(&str, u64, usize, &str); 4] = [
    ("Seconds", 1_000_000_000, 0, "s"),
    ("Millis", 1_000_000, 3, "ms"),
    ("Micros", 1_000, 6, "us"),
    ("Nanos", 1, 9, "ns"),
];

fn unit(i: usize) -> TimestampUnits {
    match i {
        0 => TimestampUnits::Seconds,
        1 => TimestampUnits::Millis,
        2 => TimestampUnits::Micros,
        _ => TimestampUnits::Nanos,
    }
}

#[derive(Clone, Debug, Hash)]
struct Conf {
    human: bool,
    unit: usize,
    zone: Zone,
    name: Option<String>,
    print: bool,
    delim: &'static str,
}

fn model(c: &Conf, times: &[u64], cols: usize) -> Result<Vec<u8>, Vec<u8>> {
    let mut o = String::new();
    let mut head = Vec::new();
    if c.print {
        head.push(c.name.clone().unwrap_or_else(|| {
            if c.human {
                "time".to_string()
            } else {
                format!("timestamp{}", UNITS[c.unit].0)
            }
        }));
    }
    for i in 0..cols {
        head.push(format!("c{}", i));
    }
    o.push_str(&head.join(c.delim));
    o.push('\n');
    for t in times {
        let mut r = Vec::new();
        if c.print {
            if c.human && c.zone == Zone::None {
                return Err(o.into_bytes());
            }
            r.push(if c.human {
                human(c.zone, *t, UNITS[c.unit].2)
            } else {
                (t / UNITS[c.unit].1).to_string()
            });
        }
        for i in 0..cols {
            r.push(format!("v{}", i));
        }
        o.push_str(&r.join(c.delim));
        o.push('\n');
    }
    Ok(o.into_bytes())
}

fn check(ctx: &mut Ctx, c: &Conf, times: &[u64], cols: usize) -> Res {
    let path = ctx.dir().join("o.csv");
    let p = path.to_string_lossy().to_string();
    let head = H {
        names: (0..cols).map(|i| format!("c{}", i)).collect(),
        types: vec![chopper::chopper::types::FieldType::String; cols],
    };
    let rows: Vec<R> = times
        .iter()
        .map(|t| (*t, (0..cols).map(|i| V::S(format!("v{}", i))).collect()))
        .collect();
    let style = if c.human { TimestampStyle::HumanReadable } else { TimestampStyle::Epoch };
    let cfg = CSVOutputConfig::new(c.delim, c.print, c.name.clone(), style, unit(c.unit), c.zone.tz());
    ctx.note(|| format!("{:?}, timestamps {:?}", c, times));
    for t in times {
        ctx.step(&(c, t));
    }
    let got = feed(factory::new_header_sink(Some(&p), Some(cfg)), &head, &rows);
    let bytes = std::fs::read(&path).unwrap_or_default();
    judge(ctx, c, times, got.is_ok(), &bytes, model(c, times, cols))
}

fn judge(
    ctx: &mut Ctx,
    c: &Conf,
    times: &[u64],
    ok: bool,
    bytes: &[u8],
    want: Result<Vec<u8>, Vec<u8>>,
) -> Res {
    ctx.outcome(&(ok, bytes));
    match want {
        Ok(w) => {
            ensure!(ok, "{:?}, timestamps {:?}: failed", c, times);
            if bytes != &w[..] {
                let g = String::from_utf8_lossy(bytes).to_string();
                let w = String::from_utf8_lossy(&w).to_string();
                let i = g.lines().zip(w.lines()).position(|(a, b)| a != b);
                return Err(format!(
                    "{:?}: line {:?}: got {:?}, expected {:?} (timestamp {:?})",
                    c,
                    i,
                    i.map_or(g.clone(), |i| g.lines().nth(i).unwrap_or("").to_string()),
                    i.map_or(w.clone(), |i| w.lines().nth(i).unwrap_or("").to_string()),
                    i.and_then(|i| if i > 0 { times.get(i - 1) } else { None })
                ));
            }
        }
        Err(w) => {
            ensure!(!ok, "{:?}, timestamps {:?}: no error", c, times);
            ensure!(w.starts_with(bytes), "{:?}: wrong output {:?}", c, String::from_utf8_lossy(bytes));
        }
    }
    Ok(())
}

fn conf(human: bool, unit: usize, zone: Zone) -> Conf {
    Conf { human, unit, zone, name: None, print: true, delim: "," }
}

fn main() {
    mc::main("C07", Level::ModelChecking, |c| {
        let thorough = c.thorough;
        c.assume("timezone rules: those in force for the zones of the oracle in the years it covers");
        c.scenario(
            "calendar",
            "6 timezones x every year the oracle knows from 1970 x both styles x 4 granularities; rows at \
             both daylight saving switches, at year ends and around February 29, each -1 s, -1 ns, 0, +1 ns, \
             +1 s; thorough: also every midnight and every half hour of the year",
            0,
            move |ctx| {
                let z = ZONES[1 + ctx.choose(ZONES.len() - 1)];
                let (a, b) = z.years();
                let a = a.max(1970);
                let y = a + ctx.choose((b - a + 1) as usize) as i64;
                let cf = conf(ctx.flag(), ctx.choose(4), z);
                let mut at = Vec::new();
                if let Some((s, e)) = z.switches(y) {
                    at.extend([s, e, s + HOUR, e - HOUR, e + HOUR]);
                }
                for (m, d) in [(1, 1), (2, 28), (3, 1), (7, 4), (12, 31)] {
                    at.push(days(y, m, d).unwrap() * DAY);
                }
                if leap(y) {
                    at.push(days(y, 2, 29).unwrap() * DAY);
                }
                let mut times = Vec::new();
                for t in at {
                    for (s, n) in [(-1, 0), (-1, 999_999_999), (0, 0), (0, 1), (1, 0)] {
                        // the local year has to be one the rules hold for
                        let l = t + s + z.offset_at(t);
                        let ly = civil(l.div_euclid(DAY)).0;
                        if t + s < 0 || ly < a || ly > b {
                            continue;
                        }
                        times.extend(nanos(t + s, n));
                    }
                }
                if thorough {
                    let t0 = days(y, 1, 2).unwrap() * DAY;
                    for k in 0..363 * 48 {
                        times.extend(nanos(t0 + k * HOUR / 2, 0));
                    }
                }
                check(ctx, &cf, &times, 1)
            },
        );
        c.scenario(
            "odd-switches",
            "7 zones that change their clocks at odd times (see C05) or by odd amounts: rows every 10 (thorough: 1) minutes from 27 hours before each change \
             to 27 after, and the change itself -1 s, -1 ns, +1 ns; both styles x 4 granularities",
            0,
            move |ctx| {
                let z = *ctx.pick(&ODD_ZONES);
                let cf = conf(ctx.flag(), ctx.choose(4), z);
                let mut at: Vec<i64> = z.changes().iter().map(|c| c.0).filter(|c| *c > 0).collect();
                if at.is_empty() {
                    at.push(days(2015, 4, 25).unwrap_or(0) * DAY);
                }
                let at = *ctx.pick(&at);
                let step = if thorough { 60 } else { 600 };
                let mut times: Vec<u64> = Vec::new();
                let mut t = -27 * HOUR;
                while t <= 27 * HOUR {
                    times.extend(nanos(at + t, 0));
                    t += step;
                }
                for (s, n) in [(-1, 0), (-1, 999_999_999), (0, 1)] {
                    times.extend(nanos(at + s, n));
                }
                check(ctx, &cf, &times, 1)
            },
        );
        c.scenario(
            "digits",
            "every fraction k*10^e and k*10^e - 1 (k 1..9, e 0..9), at 7 seconds from 0 to the largest \
             representable time, 7 timezones (one is none) x both styles x 4 granularities",
            0,
            |ctx| {
                let z = *ctx.pick(&ZONES);
                let cf = conf(ctx.flag(), ctx.choose(4), z);
                let secs = [0i64, 1, 59, 86399, 1_546_300_799, 1_562_203_445, 2_000_000_000];
                let s = *ctx.pick(&secs);
                let mut times = Vec::new();
                if z == Zone::None && !cf.human || z.years().0 <= 1970 || s > 1_500_000_000 {
                    for e in 0..9 {
                        for k in 1..10u64 {
                            let f = k * 10u64.pow(e);
                            times.push(s as u64 * 1_000_000_000 + f);
                            times.push(s as u64 * 1_000_000_000 + f - 1);
                        }
                    }
                    times.push(s as u64 * 1_000_000_000 + 123_456_789);
                    times.push(s as u64 * 1_000_000_000 + 999_999_999);
                }
                if !cf.human {
                    times.extend([i64::MAX as u64, i64::MAX as u64 + 1, u64::MAX - 1, u64::MAX]);
                } else if z == Zone::Utc {
                    times.extend([i64::MAX as u64, i64::MAX as u64 + 1]);
                }
                check(ctx, &cf, &times, 1)
            },
        );
        c.scenario(
            "names",
            "4 column names and the default x both styles x 4 granularities x printed or not x 3 delimiters \
             x 0..=3 further columns x 0..=2 rows x timezone given or not",
            0,
            |ctx| {
                let names = [None, Some("t"), Some(""), Some("time stamp"), Some("timestampNanos")];
                let mut cf = conf(ctx.flag(), ctx.choose(4), Zone::NewYork);
                cf.name = ctx.pick(&names).map(|s| s.to_string());
                cf.print = !ctx.flag();
                cf.delim = *ctx.pick(&[",", "\t", "||"]);
                let cols = ctx.choose(4);
                let n = ctx.choose(3);
                if ctx.flag() {
                    cf.zone = Zone::None;
                }
                let times: Vec<u64> =
                    (0..n).map(|i| 1_562_203_445_987_654_321 + i as u64 * 1_000_000_007).collect();
                check(ctx, &cf, &times, cols)
            },
        );
        c.scenario(
            "every-name",
            "names of the time column: each ASCII character but quote, CR, LF and comma and 12 others alone, before, after and between two letters and twice; both styles",
            0,
            |ctx| {
                let all: Vec<char> = (0..128u8)
                    .map(|b| b as char)
                    .chain("\u{85}\u{a0}é\u{300}\u{2003}\u{2028}\u{200b}\u{feff}ı漢\u{fffd}😀".chars())
                    .filter(|c| !"\"\r\n,".contains(*c))
                    .collect();
                let x = *ctx.pick(&all);
                let name = match ctx.choose(5) {
                    0 => format!("{}", x),
                    1 => format!("{}ab", x),
                    2 => format!("ab{}", x),
                    3 => format!("a{}b", x),
                    _ => format!("{}{}", x, x),
                };
                let mut cf = conf(ctx.flag(), 3, Zone::NewYork);
                cf.name = Some(name);
                check(ctx, &cf, &[1_562_203_445_987_654_321], 1)
            },
        );
        c.scenario(
            "command-line",
            "chop with -E, -H or neither x -g absent or any of 4 x timezone by -z, by CHOPPER_TZ, both \
             (different) or none x --time-col-name absent or given",
            0,
            |ctx| {
                let style = ctx.choose(3);
                let g = ctx.choose(5);
                let tz = ctx.choose(4);
                let mut cf = conf(style != 1, if g == 0 { 3 } else { g - 1 }, Zone::None);
                let mut args = Vec::new();
                match style {
                    1 => args.push("-E"),
                    2 => args.push("-H"),
                    _ => {}
                }
                if g > 0 {
                    args.extend(["-g", UNITS[g - 1].3]);
                }
                let mut env = Vec::new();
                if tz & 2 != 0 {
                    env.push(("CHOPPER_TZ", "Asia/Tokyo"));
                    cf.zone = Zone::Tokyo;
                }
                if tz & 1 != 0 {
                    args.extend(["-z", "America/New_York"]);
                    cf.zone = Zone::NewYork;
                }
                if ctx.flag() {
                    args.extend(["--time-col-name", "when"]);
                    cf.name = Some("when".to_string());
                }
                args.extend(["--csv-in-has-header", "yes"]);
                let times = [1_552_201_199_999_999_999u64, 1_552_201_200_000_000_000];
                let mut text = "timeNanos,c1\n".to_string();
                for t in times {
                    text.push_str(&format!("{},x\n", t));
                }
                ctx.note(|| format!("chop {:?} {:?}", args, env));
                for t in times {
                    ctx.step(&("cli", &cf, t, tz));
                }
                let o = chop(&args, &env, text.as_bytes());
                ensure!(!o.crashed(), "chop {:?} {:?}: {}", args, env, o.text());
                // the input has columns timeNanos and c1
                let want = {
                    let line = |t: String, a: String, b: &str| format!("{},{},{}\n", t, a, b);
                    let m = model(&cf, &times, 0).map_err(|x| x);
                    let fix = |b: Vec<u8>| {
                        let s = String::from_utf8_lossy(&b).to_string();
                        let mut o = String::new();
                        for (i, l) in s.lines().enumerate() {
                            o += &if i == 0 {
                                line(l.to_string(), "timeNanos".to_string(), "c1")
                            } else {
                                line(l.to_string(), times[i - 1].to_string(), "x")
                            };
                        }
                        o.into_bytes()
                    };
                    match m {
                        Ok(b) => Ok(fix(b)),
                        Err(b) => Err(fix(b)),
                    }
                };
                judge(ctx, &cf, &times, o.code == Some(0), &o.stdout, want)
            },
        );
    });
}
