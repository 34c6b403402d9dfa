//! C06: CSV rows get the timestamp their time column(s) state, or an error.
use chopper::cli::util::YesNoAuto;
use chopper::source::csv_configs::*;
use chopper::source::csv_timestamp::TimestampUnits;
use mc::csvtime::*;
use mc::kit::*;
use mc::time::*;
use mc::*;

fn unit_enum(u: u64) -> TimestampUnits {
    match u {
        1_000_000_000 => TimestampUnits::Seconds,
        1_000_000 => TimestampUnits::Millis,
        1_000 => TimestampUnits::Micros,
        _ => TimestampUnits::Nanos,
    }
}

fn run(
    ctx: &mut Ctx,
    names: &[String],
    rows: &[Vec<String>],
    col: Col,
    fmt: Fmt,
    z: Zone,
    header: bool,
) -> Res {
    let mut text = String::new();
    if header {
        text.push_str(&names.join(","));
        text.push('\n');
    }
    for r in rows {
        // an empty line is no record, so one empty cell has to be quoted
        text.push_str(if r.len() == 1 && r[0].is_empty() { "\"\"".to_string() } else { r.join(",") }.as_str());
        text.push('\n');
    }
    let c = match &col {
        Col::Auto => TimestampColConfig::Auto,
        Col::Index(i) => TimestampColConfig::Index(*i),
        Col::Pair(a, b) => TimestampColConfig::DateTimeIndex(*a, *b),
        Col::Name(a) => TimestampColConfig::Name(a.clone()),
        Col::NamePair(a, b) => TimestampColConfig::DateTimeName(a.clone(), b.clone()),
    };
    let f = match &fmt {
        Fmt::Auto => TimestampFmtConfig::Auto,
        Fmt::Epoch(u) => TimestampFmtConfig::Epoch(unit_enum(*u)),
        Fmt::Explicit(a, _) => TimestampFmtConfig::Explicit(a.to_string()),
        Fmt::Split(a, b) => TimestampFmtConfig::DateTimeExplicit(a.0.to_string(), b.0.to_string()),
    };
    let h = if header { YesNoAuto::Yes } else { YesNoAuto::No };
    let cfg = CSVInputConfig::new(Some(","), h, TimestampConfig::new(c, f, z.tz()))
        .map_err(|e| err_text(&e))?;
    let got = open_and_read(csv_source(text.as_bytes(), &cfg));
    let (want, bad) = model(names, rows, &col, &fmt, z);
    ctx.note(|| {
        format!("{} column {:?} format {:?} zone {:?}: expected {} bad {}", show(&text), col, fmt, z, show(&want), bad)
    });
    // model state: the configuration and the time column as far as it has been read
    let conf = hash_of(&(&col, &fmt, names));
    for (i, w) in want.iter().enumerate() {
        ctx.step(&(z, conf, w, i));
    }
    ctx.step(&(z, conf, rows.len(), want.len(), bad));
    let (ts, err) = match &got {
        Ok(r) => (r.rows.iter().map(|x| x.0).collect::<Vec<_>>(), r.err.clone()),
        Err(e) => (vec![], Some(e.clone())),
    };
    ctx.outcome(&(&ts, err.is_some()));
    let d = || {
        format!(
            "{} column {:?} format {:?} zone {:?}: {} timestamps {} error {:?}, expected {}: {}{}, first difference at {:?}",
            show(&text),
            col,
            fmt,
            z,
            ts.len(),
            show(&ts),
            err,
            want.len(),
            show(&want),
            if bad { " and an error" } else { "" },
            ts.iter().zip(&want).position(|x| x.0 != x.1)
        )
    };
    if bad {
        ensure!(err.is_some(), "no error: {}", d());
        ensure!(ts.len() <= want.len() && ts[..] == want[..ts.len()], "wrong rows: {}", d());
    } else {
        ensure!(err.is_none() && ts == want, "{}", d());
    }
    Ok(())
}

fn cell(mode: usize, name: &str, i: usize) -> String {
    let l = name.to_lowercase();
    match mode {
        0 => {
            if l.ends_with("date") {
                format!("2019010{}", i + 1)
            } else if l.ends_with("time") {
                format!("10:00:0{}", i)
            } else if let Some(u) = suffix_unit(&l) {
                ((1_546_300_800 + i as u64) * (1_000_000_000 / u)).to_string()
            } else {
                format!("154630080{}", i)
            }
        }
        1 => format!("154630080{}", i),
        2 => format!("20190101 10:00:0{}", i),
        _ => format!("2019-01-01T10:00:0{}Z", i),
    }
}

fn main() {
    mc::main("C06", Level::ModelChecking, |c| {
        let t = c.thorough;
        c.assume("names that begin with time and end in a second date, time or time with units (timeDate) are not judged: the order of guesses does not say which they are");
        c.assume("format strings are those of the alphabet; chrono's leniency for other spellings (1-digit months, omitted blanks) is not judged");
        c.scenario(
            "guess-column",
            "every header of 1..=4 names out of 14 (time, date, units and prefixes in several cases) x \
             cells of 4 kinds, columns guessed, timezone New York",
            0,
            move |ctx| {
                let all = [
                    "a",
                    "time",
                    "TIME",
                    "Date",
                    "timeMillis",
                    "TimeSeconds",
                    "timenanos",
                    "tradeDate",
                    "tradeTime",
                    "Tradetime",
                    "order_time",
                    "order_date",
                    "fooTimeMicros",
                    "xTimeSeconds",
                ];
                let mode = ctx.choose(4);
                let n = 1 + ctx.choose(4);
                let names: Vec<String> = (0..n).map(|_| ctx.pick(&all).to_string()).collect();
                let rows: Vec<Vec<String>> =
                    vec![names.iter().enumerate().map(|(i, x)| cell(mode, x, i)).collect()];
                run(ctx, &names, &rows, Col::Auto, Fmt::Auto, Zone::NewYork, true)
            },
        );
        c.scenario(
            "guess-among-odd-names",
            "every header of 1..=3 names out of 24 (time, date or units more than once or inside other words, \
             prefixes that begin alike, non-ASCII and blank names) x cells of 4 kinds, columns guessed",
            0,
            move |ctx| {
                let all = [
                    "x",
                    "time",
                    "date",
                    "timeNanos",
                    "xTimeMicros",
                    "uptimeTimeMillis",
                    "tTime",
                    "tDate",
                    "tradeDate",
                    "trTime",
                    "tradeTime",
                    "updateTime",
                    "update",
                    "dateTime",
                    "datetimeMillis",
                    "timestamp",
                    "timeMillisX",
                    "timeMinutes",
                    "time_millis",
                    "dateMillis",
                    "\u{e9}Time",
                    "\u{c9}Date",
                    "sometimes",
                    "dates",
                ];
                let mode = ctx.choose(4);
                let n = 1 + ctx.choose(3);
                let names: Vec<String> = (0..n).map(|_| ctx.pick(&all).to_string()).collect();
                let rows: Vec<Vec<String>> =
                    (0..2).map(|k| names.iter().enumerate().map(|(i, x)| cell(mode, x, i + k)).collect()).collect();
                run(ctx, &names, &rows, Col::Auto, Fmt::Auto, Zone::NewYork, true)
            },
        );
        c.scenario(
            "same-names",
            "every header of 1..=4 names out of 5 (time, date, timeMillis, x, X) with repetitions, time column by each name, pair of names, or guessed, cells of 5 kinds, which tell each column from the others, 2 rows",
            0,
            |ctx| {
                let pool = ["time", "date", "timeMillis", "x", "X"];
                let n = 1 + ctx.choose(4);
                let names: Vec<String> = (0..n).map(|_| ctx.pick(&pool).to_string()).collect();
                let col = match ctx.choose(3) {
                    0 => Col::Auto,
                    1 => Col::Name(ctx.pick(&pool).to_string()),
                    _ => Col::NamePair(ctx.pick(&pool).to_string(), ctx.pick(&pool).to_string()),
                };
                let mode = ctx.choose(5);
                let value = |r: usize, i: usize| match mode {
                    // dates and times
                    4 if i % 2 == 0 => format!("201901{:02}", 10 * r + i + 1),
                    4 => format!("1{}:00:0{}", r, i),
                    _ => cell(mode, &names[i], 4 * r + i),
                };
                let rows: Vec<Vec<String>> = (0..2).map(|r| (0..n).map(|i| value(r, i)).collect()).collect();
                run(ctx, &names, &rows, col, Fmt::Auto, Zone::NewYork, true)
            },
        );
        c.scenario(
            "configured-column",
            "7 named columns x selection by index 0..=8, by name (also absent and wrong-case names), by \
             pairs of indices 0..=7 and pairs of names x cells of 4 kinds x header or not",
            0,
            move |ctx| {
                let names: Vec<String> =
                    ["a", "Time", "tradeTimeMillis", "date", "time", "xSeconds", "Nanos"]
                        .iter()
                        .map(|s| s.to_string())
                        .collect();
                let mode = ctx.choose(4);
                let header = ctx.flag();
                let pool: Vec<String> = names
                    .iter()
                    .cloned()
                    .chain(["TIME", "tradetimemillis", "zz"].iter().map(|s| s.to_string()))
                    .collect();
                let col = match ctx.choose(5) {
                    0 => Col::Auto,
                    1 => Col::Index(ctx.choose(9)),
                    2 => Col::Pair(ctx.choose(8), ctx.choose(8)),
                    3 => Col::Name(ctx.pick(&pool).clone()),
                    _ => Col::NamePair(ctx.pick(&pool).clone(), ctx.pick(&pool).clone()),
                };
                let rows: Vec<Vec<String>> =
                    vec![names.iter().enumerate().map(|(i, x)| cell(mode, x, i)).collect()];
                let names = if header {
                    names
                } else {
                    (0..7).map(|i| format!("col_{}", i)).collect()
                };
                run(ctx, &names, &rows, col, Fmt::Auto, Zone::NewYork, header)
            },
        );
        c.scenario(
            "values",
            "one time column; guessed, 4 epoch units or 4 explicit formats; every pair of 48 values in \
             the first and second row, a good third row (thorough: and with one more of 48 between); 7 timezones",
            0,
            move |ctx| {
                let vals = [
                    "630000000",
                    "1999999999",
                    "2000000000",
                    "629999999",
                    "630000000000",
                    "1546300800123",
                    "629999999999999",
                    "630000000000000",
                    "1999999999999999",
                    "1546300800123456789",
                    "2000000000000000000",
                    "0",
                    "007",
                    "18446744073",
                    "18446744074",
                    "18446744073709",
                    "18446744073710",
                    "18446744073709551",
                    "18446744073709552",
                    "18446744073709551615",
                    "18446744073709551616",
                    "99999999999999999999999",
                    "20190101",
                    "20190310",
                    "20190230",
                    "19691231",
                    "22630101",
                    "20190101.100000",
                    "20190310 023000",
                    "20190310 100000",
                    "20191103 01:30:00",
                    "20191103 10:00:01",
                    "20190331 01:30:00",
                    "2019/06/15-23:59:59",
                    "2019/02/29-00:00:00",
                    "2019-01-01T00:00:00Z",
                    "2019-01-01T00:00:00.123456789-05:00",
                    "1969-12-31T23:59:59Z",
                    "2262-04-11T23:47:16.854775808Z",
                    "2019-06-15 12:34:56",
                    "15.06.2019",
                    "2019-06-15T12:34:56+0100",
                    "",
                    "-5",
                    "1.5",
                    "abc",
                    "12:00:00",
                    "20190101 24:00:00",
                ];
                let fmts = [
                    Fmt::Auto,
                    Fmt::Epoch(1),
                    Fmt::Epoch(1_000),
                    Fmt::Epoch(1_000_000),
                    Fmt::Epoch(1_000_000_000),
                    Fmt::Explicit("%Y-%m-%d %H:%M:%S", "Y-M-D h:m:s"),
                    Fmt::Explicit("%d.%m.%Y", "D.M.Y"),
                    Fmt::Explicit("%Y-%m-%dT%H:%M:%S%z", "Y-M-DTh:m:sz"),
                    Fmt::Explicit("%Y%m%d", "YMD"),
                ];
                let fmt = ctx.pick(&fmts).clone();
                let z = *ctx.pick(&ZONES);
                let mut rows = vec![vec!["x".to_string(), ctx.pick(&vals).to_string()]];
                for _ in 0..if t { 2 } else { 1 } {
                    rows.push(vec!["y".to_string(), ctx.pick(&vals).to_string()]);
                }
                rows.push(vec!["z".to_string(), rows[0][1].clone()]);
                let names = vec!["a".to_string(), "time".to_string()];
                run(ctx, &names, &rows, Col::Auto, fmt, z, true)
            },
        );
        c.scenario(
            "offsets",
            "texts with an offset: every pair of 13 in the first and second row x 3 local times (one does not exist in New York) x with and without fraction x 5 \
             timezones (one of them: none), guessed and with an explicit format: the configured timezone does not matter",
            0,
            |ctx| {
                let z = *ctx.pick(&[Zone::None, Zone::Utc, Zone::NewYork, Zone::LordHowe, Zone::Kathmandu]);
                let offs = [
                    "+00:00", "-00:00", "+09:30", "-05:00", "+05:45", "+14:00", "-12:00", "+00:01", "-00:30", "-09:30", "+23:59", "-23:59", "Z",
                ];
                let explicit = ctx.flag();
                let offs = if explicit { &offs[..12] } else { &offs[..] };
                let dt = *ctx.pick(&["2015-06-15T12:34:56", "2015-03-08T02:30:00", "2015-12-31T23:59:59"]);
                let fr = if explicit { "" } else { *ctx.pick(&["", ".026490"]) };
                let rows: Vec<Vec<String>> = (0..3)
                    .map(|i| {
                        let off = if i < 2 { *ctx.pick(offs) } else { "+01:00" };
                        let off = if explicit { off.replace(':', "") } else { off.to_string() };
                        vec![format!("{}{}{}", dt, fr, off)]
                    })
                    .collect();
                let fmt = if explicit { Fmt::Explicit("%Y-%m-%dT%H:%M:%S%z", "Y-M-DTh:m:sz") } else { Fmt::Auto };
                run(ctx, &["time".to_string()], &rows, Col::Auto, fmt, z, true)
            },
        );
        c.scenario(
            "switches",
            "rows before, at and after each change of clocks of 5 zones that change at odd times (see C05) and of New York, London and Lord Howe in 3 \
             years: local times every 10 minutes from 27 hours (those 3: 3 hours) before to as long after, in 4 kinds of column, as first or \
             second of three rows",
            0,
            move |ctx| {
                let zs = [
                    Zone::StJohns, Zone::SaoPaulo, Zone::Apia, Zone::Caracas, Zone::Pyongyang, Zone::NewYork, Zone::London, Zone::LordHowe,
                ];
                let z = *ctx.pick(&zs);
                let mut at: Vec<i64> = Vec::new();
                let odd = ODD_ZONES.contains(&z);
                if odd {
                    at.extend(z.changes().iter().map(|c| c.0).filter(|c| *c > 0));
                } else {
                    for y in [2009, 2019, 2030] {
                        at.extend(z.switches(y).iter().flat_map(|s| [s.0, s.1]));
                    }
                }
                let at = *ctx.pick(&at);
                let span = if odd { 27 * 60 } else { 180 };
                let n = ctx.choose(2 * span as usize / 10 + 1) as i64;
                let kind = ctx.choose(4);
                let first = ctx.flag();
                let mid = at + z.offset_at(at - 1);
                let text = |local: i64| -> Vec<String> {
                    let (y, m, d) = civil(local.div_euclid(DAY));
                    let s = local.rem_euclid(DAY);
                    let (h, mi, s) = (s / HOUR, s / 60 % 60, s % 60);
                    match kind {
                        0 => vec![format!("{:04}{:02}{:02} {:02}:{:02}:{:02}", y, m, d, h, mi, s)],
                        1 => vec![format!("{:04}{:02}{:02}", y, m, d), format!("{:02}:{:02}:{:02}", h, mi, s)],
                        2 => vec![format!("{:04}{:02}{:02}", y, m, d), format!("{:02}{:02}{:02}", h, mi, s)],
                        _ => vec![format!("{:04}{:02}{:02}", y, m, d)],
                    }
                };
                let names: Vec<String> = match kind {
                    0 => vec!["time".into()],
                    3 => vec!["date".into()],
                    _ => vec!["date".into(), "time".into()],
                };
                if kind == 3 && n % 6 != 0 {
                    return Ok(());
                }
                let probe = text(mid + (n * 10 - span) * 60);
                // noon of days without a change
                let noon = |k: i64| text((mid.div_euclid(DAY) + k) * DAY + DAY / 2);
                let rows = if first { vec![probe, noon(5), noon(6)] } else { vec![noon(-5), probe, noon(5)] };
                run(ctx, &names, &rows, Col::Auto, Fmt::Auto, z, true)
            },
        );
        c.scenario(
            "unit-column",
            "a column named with units (4 units x 3 prefixes) selected by guess, by name and by index, format guessed, any of 4 \
             epoch units or an explicit one (which prevail over the name), \
             every pair of 20 values at the limits of what 64 bits of nanoseconds hold",
            0,
            move |ctx| {
                let u = *ctx.pick(&UNITS);
                let pre = *ctx.pick(&["time", "xTime", "Time"]);
                let name = format!("{}{}", pre, u.0);
                let max = u64::MAX / u.1;
                let vals: Vec<String> = [
                    0u128,
                    1,
                    999,
                    1546300800,
                    max as u128 - 1,
                    max as u128,
                    max as u128 + 1,
                    u64::MAX as u128,
                    u64::MAX as u128 + 1,
                    (1u128 << 63) / u.1 as u128,
                    (1u128 << 64) / u.1 as u128 + 7,
                ]
                .iter()
                .map(|n| n.to_string())
                .chain(
                    ["", "-1", "1.0", "1e3", "x", "0x10", "1_000", "2019-01-01T00:00:00Z", "20190101"]
                        .iter()
                        .map(|s| s.to_string()),
                )
                .collect();
                let col = match ctx.choose(3) {
                    0 => Col::Auto,
                    1 => Col::Name(name.clone()),
                    _ => Col::Index(1),
                };
                let fmt = match ctx.choose(6) {
                    0 => Fmt::Auto,
                    5 => Fmt::Explicit("%Y%m%d", "YMD"),
                    k => Fmt::Epoch(UNITS[k - 1].1),
                };
                let z = if matches!(fmt, Fmt::Explicit(..)) { Zone::Utc } else { Zone::None };
                let rows = vec![
                    vec!["7".to_string(), ctx.pick(&vals).clone()],
                    vec!["8".to_string(), ctx.pick(&vals).clone()],
                ];
                run(ctx, &["a".to_string(), name], &rows, col, fmt, z, true)
            },
        );
        c.scenario(
            "unit-words",
            "a time column with one of 16 names that have units at the end, at the start, inside, twice, cut short or not at \
             all, selected by name or index: 12 values in each of 2 rows; header with 2 more such columns around it",
            0,
            move |ctx| {
                let all = [
                    "millis", "NANOS", "xSeconds", "millisX", "nanosAt", "secondsMillis", "millisSeconds", "Microseconds", "nanosecond",
                    "ms", "second", "milli", "tMicros_", "time", "timemillis2", "xmicrosnanosx",
                ];
                let vals = [
                    "0", "7", "1546300800", "1546300800123", "1546300800123456", "1546300800123456789", "18446744073709551615",
                    "20190101", "2019-01-01T00:00:00Z", "20190101 10:00:00", "x", "",
                ];
                let name = ctx.pick(&all).to_string();
                let other = ctx.pick(&["before", "aMillis", "seconds"]).to_string();
                let col = if ctx.flag() { Col::Name(name.clone()) } else { Col::Index(1) };
                let rows: Vec<Vec<String>> =
                    (0..2).map(|_| vec!["1".to_string(), ctx.pick(&vals).to_string(), "3".to_string()]).collect();
                run(ctx, &[other, name, "nanos2".to_string()], &rows, col, Fmt::Auto, Zone::Utc, true)
            },
        );
        c.scenario(
            "date-and-time",
            "a date and a time column in either order; guessed or 5 explicit format pairs; every pair of \
             9 dates x 18 times in the first row, 5 x 11 in the second; 4 timezones",
            0,
            move |ctx| {
                let dates = [
                    "20190101", "20190310", "20191103", "20190230", "20200229", "22630101", "2019-01-02", "", "x",
                ];
                let times = [
                    "10:00:00.000", "00:00:00.500", "10:00:00.120", "000000000", "100000123", "100000", "023000", "10:00:01", "02:30:00", "01:30:00", "9:30", "09:30",
                    "24:00", "10:00:00.5", "235959999", "23:60:00", "", "x",
                ];
                let fmts = [
                    Fmt::Auto,
                    Fmt::Split(("%Y%m%d", "YMD"), ("%H:%M:%S", "h:m:s")),
                    Fmt::Split(("%Y-%m-%d", "Y-M-D"), ("%H%M%S", "hms")),
                    Fmt::Split(("%Y%m%d", "YMD"), ("%H%M%S%3f", "hmsf")),
                    Fmt::Split(("%Y%m%d", "YMD"), ("%H:%M:%S.%3f", "h:m:s.f")),
                    Fmt::Split(("%Y-%m-%d", "Y-M-D"), ("%H:%M:%S%.f", "h:m:sF")),
                ];
                let swap = ctx.flag();
                let fmt = ctx.pick(&fmts).clone();
                let z = *ctx.pick(&[Zone::NewYork, Zone::None, Zone::Utc, Zone::LordHowe]);
                let mut rows = Vec::new();
                let nd = [&dates[..], &dates[..5]];
                let nt = [&times[..], &times[..11]];
                for k in 0..2 {
                    let d = ctx.pick(nd[k]).to_string();
                    let t = ctx.pick(nt[k]).to_string();
                    rows.push(if swap { vec![t, "q".to_string(), d] } else { vec![d, "q".to_string(), t] });
                }
                let names: Vec<String> = if swap {
                    ["time", "a", "date"].iter().map(|s| s.to_string()).collect()
                } else {
                    ["date", "a", "time"].iter().map(|s| s.to_string()).collect()
                };
                run(ctx, &names, &rows, Col::Auto, fmt, z, true)
            },
        );
        c.scenario(
            "part-of-a-time",
            "formats with a date and each of the 128 sets out of %H, %I, %p, %M, %S, %.f and %z behind it (or before it), in one column or two, \
             zone UTC, Tokyo or none, 2 rows: a complete time of day (hour and minute; a fraction with a second) is the time, no time at all \
             is midnight, and a part of a time, or an offset without a time, is an error",
            0,
            |ctx| {
                const ITEMS: [(&str, [&str; 2]); 7] = [
                    ("%H", ["15", "03"]),
                    ("%I", ["03", "03"]),
                    ("%p", ["PM", "AM"]),
                    ("%M", ["04", "59"]),
                    ("%S", ["05", "00"]),
                    ("%.f", [".25", ".5"]),
                    ("%z", ["+0100", "-0230"]),
                ];
                let has: Vec<bool> = (0..7).map(|_| ctx.flag()).collect();
                let (hh, ii, pp, mm, ss, ff, zz) = (has[0], has[1], has[2], has[3], has[4], has[5], has[6]);
                let place = ctx.choose(3); // one column: the date first or last; two columns
                let z = *ctx.pick(&[Zone::Utc, Zone::Tokyo, Zone::None]);
                let join = |f: &dyn Fn(usize) -> String, date: &str| {
                    let t: Vec<String> = (0..7).filter(|i| has[*i]).map(f).collect();
                    let t = t.join(" ");
                    match place {
                        0 => format!("{} at {}", date, t),
                        1 => format!("{} at {}", t, date),
                        _ => format!("{},{}", date, t),
                    }
                };
                let fmt = join(&|i| ITEMS[i].0.to_string(), "%Y%m%d");
                let rows: Vec<String> = (0..2).map(|k| join(&|i| ITEMS[i].1[k].to_string(), ["20190102", "20191130"][k])).collect();
                let (col, f) = match fmt.split_once(',') {
                    Some((a, b)) => (TimestampColConfig::DateTimeIndex(0, 1), TimestampFmtConfig::DateTimeExplicit(a.to_string(), b.to_string())),
                    None => (TimestampColConfig::Index(0), TimestampFmtConfig::Explicit(fmt.clone())),
                };
                let text = format!("{}\n{}\n{}\n", if place == 2 { "p,q" } else { "p" }, rows[0], rows[1]);
                let cfg = CSVInputConfig::new(Some(","), YesNoAuto::Yes, TimestampConfig::new(col, f, z.tz())).map_err(|e| err_text(&e))?;
                let got = open_and_read(csv_source(text.as_bytes(), &cfg));
                let any = has.iter().any(|x| *x);
                let whole = (hh || ii && pp) && mm && (!ff || ss);
                let shift: Option<[i64; 2]> = match (any, whole, zz) {
                    (true, true, true) => Some([3600, -9000]),
                    (true, false, _) => None,
                    _ => match z {
                        Zone::Utc => Some([0, 0]),
                        Zone::Tokyo => Some([32_400, 32_400]),
                        _ => None,
                    },
                };
                let want: Option<Vec<u64>> = shift.map(|shift| {
                    (0..2)
                        .map(|k| {
                            let mut t = [1_546_387_200i64, 1_575_072_000][k] - shift[k];
                            let mut nanos = 0;
                            if any {
                                t += [15 * 3600 + 240, 3 * 3600 + 59 * 60][k] + if ss { [5, 0][k] } else { 0 };
                                nanos = if ff { [250_000_000, 500_000_000][k] } else { 0 };
                            }
                            t as u64 * 1_000_000_000 + nanos
                        })
                        .collect()
                });
                ctx.step(&(&has, place, z));
                let (ts, err) = match &got {
                    Ok(r) => (r.rows.iter().map(|x| x.0).collect::<Vec<_>>(), r.err.clone()),
                    Err(e) => (vec![], Some(e.clone())),
                };
                ctx.outcome(&(&ts, err.is_some()));
                let how = || format!("format {:?} zone {:?} {}: {:?} error {:?}, expected {:?}", fmt, z, show(&text), ts, err, want);
                ctx.note(how);
                match &want {
                    Some(w) => ensure!(err.is_none() && ts == *w, "{}", how()),
                    None => ensure!(err.is_some() && ts.is_empty(), "{}", how()),
                }
                Ok(())
            },
        );
        c.scenario(
            "empty-cells",
            "4 rows of 1..=3 columns, each row after the first with any of its cells empty (all of them too) or blank, time in \
             column 0..=2 by index, name or guessed, date and time in two columns; formats guessed, epoch, explicit",
            0,
            move |ctx| {
                let n = 1 + ctx.choose(3);
                let at = ctx.choose(n);
                let pair = n > 1 && ctx.flag();
                let names: Vec<String> = (0..n)
                    .map(|i| if i == at { "date" } else if pair && i == (at + 1) % n { "time" } else { "x" }.to_string())
                    .collect();
                let (col, fmt) = if pair {
                    (Col::Auto, Fmt::Auto)
                } else {
                    let c = match ctx.choose(3) {
                        0 => Col::Auto,
                        1 => Col::Index(at),
                        _ => Col::Name("date".to_string()),
                    };
                    (c, ctx.pick(&[Fmt::Auto, Fmt::Epoch(1_000_000_000)]).clone())
                };
                let rows: Vec<Vec<String>> = (0..4)
                    .map(|k| {
                        let blank = if k == 0 { 0 } else { ctx.choose(1 << n) };
                        let text = if blank > 0 && k == 1 && ctx.flag() { " " } else { "" };
                        (0..n)
                            .map(|i| {
                                if blank >> i & 1 == 1 {
                                    text.to_string()
                                } else if i == at {
                                    if pair { "20190101".to_string() } else { format!("154630080{}", k) }
                                } else if names[i] == "time" {
                                    format!("10:0{}:00", k)
                                } else {
                                    "v".to_string()
                                }
                            })
                            .collect()
                    })
                    .collect();
                run(ctx, &names, &rows, col, fmt, Zone::Utc, true)
            },
        );
        c.scenario(
            "missing-cells",
            "3 rows of 1..=4 cells each under a 4-column header, time in column 0..=4 or date and time \
             in any pair of columns",
            0,
            move |ctx| {
                let col = if ctx.flag() {
                    Col::Pair(ctx.choose(5), ctx.choose(5))
                } else {
                    Col::Index(ctx.choose(5))
                };
                let names: Vec<String> = (0..4).map(|i| format!("n{}", i)).collect();
                let single = matches!(col, Col::Index(_));
                let d = match &col {
                    Col::Pair(a, _) => *a,
                    _ => 9,
                };
                let rows: Vec<Vec<String>> = (0..3)
                    .map(|k| {
                        let n = 1 + ctx.choose(4);
                        (0..n)
                            .map(|i| {
                                if single {
                                    format!("15463008{}{}", k, i)
                                } else if i == d {
                                    "20190101".to_string()
                                } else {
                                    format!("10:0{}:0{}", k, i)
                                }
                            })
                            .collect()
                    })
                    .collect();
                run(ctx, &names, &rows, col, Fmt::Auto, Zone::Utc, true)
            },
        );
        c.scenario(
            "long",
            "255..=257, 1023..=1025, 4097, 65537 and 100001 rows whose time column (7 kinds: seconds, milliseconds by name, \
             three formats, date and time, all moving by 3677 s a row) is good, or not a time (7 texts) in row 1, n/2 or n-1, or goes \
             back in time there; 3 timezones",
            0,
            move |ctx| {
                let n = *ctx.pick(&[255usize, 256, 257, 1023, 1024, 1025, 4097, 65537, 100001]);
                let kind = ctx.choose(7);
                let at = *ctx.pick(&[usize::MAX, 1, n / 2, n - 1]);
                let text = if at == usize::MAX {
                    ""
                } else if n > 5000 {
                    *ctx.pick(&["", "x"])
                } else {
                    *ctx.pick(&["", "x", "0", "-1", "99999999999999999999", "20190230", "20190101 25:00:00"])
                };
                let z = *ctx.pick(&if n > 5000 { vec![Zone::NewYork] } else { vec![Zone::Utc, Zone::NewYork, Zone::None] });
                let (names, col) = match kind {
                    1 => (vec!["v", "timeMillis"], Col::Auto),
                    6 => (vec!["time", "v", "date"], Col::Auto),
                    _ => (vec!["v", "time"], Col::Auto),
                };
                let mut secs: i64 = 1_167_609_600; // 2007-01-01
                let rows: Vec<Vec<String>> = (0..n)
                    .map(|i| {
                        if i == at && text == "0" {
                            secs -= 40_000_000;
                        }
                        secs += 3677;
                        // not into the hours skipped when clocks go forward
                        if secs.rem_euclid(86400) / 3600 == 2 {
                            secs += 3600;
                        }
                        let (y, m, d) = civil(secs.div_euclid(86400));
                        let r = secs.rem_euclid(86400);
                        let (h, mi, s) = (r / 3600, r / 60 % 60, r % 60);
                        let v = format!("{}", i % 10);
                        let bad = |x: String| if i == at && text != "0" { text.to_string() } else { x };
                        match kind {
                            0 => vec![v, bad(secs.to_string())],
                            1 => vec![v, bad((secs * 1000 + i as i64 % 1000).to_string())],
                            2 => vec![v, bad(format!("{:04}{:02}{:02} {:02}:{:02}:{:02}", y, m, d, h, mi, s))],
                            3 => vec![v, bad(format!("{:04}-{:02}-{:02}T{:02}:{:02}:{:02}Z", y, m, d, h, mi, s))],
                            4 => vec![v, bad(format!("{:04}{:02}{:02}", y, m, d))],
                            5 => vec![v, bad(format!("{:04}/{:02}/{:02}-{:02}:{:02}:{:02}", y, m, d, h, mi, s))],
                            _ => vec![
                                format!("{:02}:{:02}:{:02}", h, mi, s),
                                v,
                                bad(format!("{:04}{:02}{:02}", y, m, d)),
                            ],
                        }
                    })
                    .collect();
                let names: Vec<String> = names.iter().map(|s| s.to_string()).collect();
                run(ctx, &names, &rows, col, Fmt::Auto, z, true)
            },
        );
        c.scenario(
            "long-names",
            "names of time columns, or of date and time columns, whose prefix has 0..=70 (thorough 0..=300) letters or is about 2^7..2^16 long, \
             alone or next to a pair whose prefix differs in its last letter or its length: guessed, by index, by name; cells of 4 kinds",
            0,
            move |ctx| {
                let mut lens: Vec<usize> = (0..=if t { 300 } else { 70 }).collect();
                lens.extend([127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 4096, 65535, 65536].iter().filter(|n| !t || **n > 300));
                let n = *ctx.pick(&lens);
                let p = ctx.pick(&["x", "Xy_", "\u{e9}"]).repeat(n + 1).chars().take(n).collect::<String>();
                let kind = ctx.choose(6);
                let names: Vec<String> = match kind {
                    0 => vec!["a".into(), format!("{}Time", p)],
                    1 => vec![format!("{}Date", p), format!("{}Time", p)],
                    2 => vec![format!("{}time", p), "a".into(), format!("{}date", p)],
                    3 => vec![format!("{}y_date", p), format!("{}x_date", p), format!("{}x_time", p), "a".into()],
                    4 => vec![format!("{}timeMillis", p), "b".into()],
                    _ => vec!["a".into(), format!("{}Date", p)],
                };
                let mode = ctx.choose(4);
                let rows: Vec<Vec<String>> =
                    (0..2).map(|k| names.iter().enumerate().map(|(i, x)| cell(mode, x, i + k)).collect()).collect();
                let col = match ctx.choose(3) {
                    0 => Col::Auto,
                    1 if kind == 0 => Col::Name(names[1].clone()),
                    1 if kind == 4 => Col::Name(names[0].clone()),
                    1 if kind == 1 || kind == 2 => Col::NamePair(names[if kind == 1 { 0 } else { 2 }].clone(), names[if kind == 1 { 1 } else { 0 }].clone()),
                    2 if kind == 0 => Col::Index(1),
                    2 if kind == 4 => Col::Index(0),
                    2 if kind == 1 => Col::Pair(0, 1),
                    _ => return Ok(()),
                };
                run(ctx, &names, &rows, col, Fmt::Auto, Zone::Utc, true)
            },
        );
        c.scenario(
            "wide",
            "1..=20, 31..=33, 63..=65, 127..=129, 255..=257, 1000 and 1025 columns, time in the first, a middle, the last column, or date \
             and time in the first, middle and last ones: selected by guess, index, name; 2 rows, the second complete, or cut before \
             or after the time",
            0,
            move |ctx| {
                let n = match ctx.choose(36) {
                    i if i < 20 => i + 1,
                    i => [31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1025, 500, 100][i - 20],
                };
                let places = [0, 1, n / 2, n - 1];
                let a = *ctx.pick(&places);
                let b = *ctx.pick(&places);
                if a >= n || b >= n {
                    return Ok(());
                }
                let mut names: Vec<String> = (0..n).map(|i| format!("n{}", i)).collect();
                let by = ctx.choose(3);
                let (col, first): (Col, String) = if a == b {
                    names[a] = if by == 0 { "time".into() } else { "when".into() };
                    (
                        match by {
                            0 => Col::Auto,
                            1 => Col::Index(a),
                            _ => Col::Name("when".into()),
                        },
                        "20190102 03:04:05".into(),
                    )
                } else {
                    names[a] = if by == 0 { "date".into() } else { "p".into() };
                    names[b] = if by == 0 { "time".into() } else { "q".into() };
                    (
                        match by {
                            0 => Col::Auto,
                            1 => Col::Pair(a, b),
                            _ => Col::NamePair("p".into(), "q".into()),
                        },
                        "20190102".into(),
                    )
                };
                let row = |k: usize, len: usize| -> Vec<String> {
                    (0..len)
                        .map(|i| {
                            if i == a {
                                first.clone()
                            } else if i == b {
                                format!("03:04:0{}", k)
                            } else {
                                format!("{}", i)
                            }
                        })
                        .collect()
                };
                let m = a.max(b);
                let len = match ctx.choose(4) {
                    0 => n,
                    1 => m + 1,
                    2 => m,
                    _ => a.min(b) + 1,
                };
                if len == 0 {
                    return Ok(());
                }
                run(ctx, &names, &[row(0, n), row(1, len), row(2, n)], col, Fmt::Auto, Zone::Utc, true)
            },
        );
    });
}
