//! C05: begin/end bounds mean the instant that was written.
use chopper::chopper::types::TimestampRange;
use chopper::util::timestamp_util::parse_datetime_range_element;
use mc::time::*;
use mc::*;

fn check(ctx: &mut Ctx, text: &str, z: Zone, want: Option<u64>) -> Res {
    let got = parse_datetime_range_element(text, &z.tz());
    ctx.note(|| format!("bound {:?} in {:?}: expected {:?}", text, z, want));
    ctx.step(&(z, want, text.len()));
    let g = got.as_ref().ok().cloned();
    ctx.outcome(&g);
    match (&want, &got) {
        (Some(w), Ok(x)) if w == x => {}
        (None, Err(_)) => {}
        (w, x) => {
            return Err(format!(
                "bound {:?} in {:?} is understood as {:?}, expected {:?}",
                text,
                z,
                x.as_ref().map_err(|e| format!("{}", e)),
                w
            ))
        }
    }
    // the same as begin and as end of a range
    for k in 0..2 {
        let (b, e) = if k == 0 { (Some(text), None) } else { (None, Some(text)) };
        match (TimestampRange::new(b, e, &z.tz()), want) {
            (Ok(x), Some(w)) => {
                let (gb, ge) = (x.begin, x.end);
                let exp = if k == 0 { (Some(w), None) } else { (None, Some(w)) };
                ensure!((gb, ge) == exp, "range ({:?}, {:?}) is {:?} {:?}", b, e, gb, ge);
            }
            (Err(_), None) => {}
            (Ok(_), None) => return Err(format!("range with bad bound {:?} is accepted", text)),
            (Err(e), Some(_)) => return Err(format!("range with bound {:?}: {}", text, e)),
        }
    }
    Ok(())
}

const DATES: [(&str, &str); 3] = [("YMD", ""), ("Y/M/D", "/"), ("Y-M-D", "-")];

fn date_text(y: i64, m: i64, d: i64, f: usize) -> String {
    let s = DATES[f].1;
    format!("{:04}{}{:02}{}{:02}", y, s, m, s, d)
}

fn main() {
    mc::main("C05", Level::ModelChecking, |c| {
        let t = c.thorough;
        c.assume("daylight-saving rules of the oracle: New York 1987-2037, London 1996-2037, Lord Howe 2009-2037, fixed offsets elsewhere; the changes of five further zones in a few years, as listed in the oracle");
        c.scenario(
            "forms",
            "22 dates (calendar, leap and daylight-saving days, first and last representable days) x 3 \
             date forms x separators ' ', '-', 'T' x 2 time forms x 17 times of day (3 with a second of 60, which is the one after 59) x 8 fractions x 7 \
             timezones (one of them: none)",
            0,
            |ctx| {
                let days = [
                    (1970, 1, 1),
                    (1969, 12, 31),
                    (1970, 1, 2),
                    (1999, 12, 31),
                    (2000, 2, 29),
                    (2000, 3, 1),
                    (2019, 2, 28),
                    (2019, 2, 29),
                    (2019, 3, 10),
                    (2019, 3, 31),
                    (2019, 4, 7),
                    (2019, 6, 15),
                    (2019, 10, 6),
                    (2019, 10, 27),
                    (2019, 11, 3),
                    (2019, 12, 31),
                    (2020, 2, 29),
                    (2033, 5, 18),
                    (2037, 7, 1),
                    (2262, 4, 11),
                    (2262, 4, 12),
                    (2300, 1, 1),
                ];
                let times = [
                    (0, 0, 0),
                    (0, 59, 59),
                    (1, 0, 0),
                    (1, 30, 0),
                    (1, 59, 59),
                    (2, 0, 0),
                    (2, 15, 0),
                    (2, 30, 0),
                    (2, 59, 59),
                    (3, 0, 0),
                    (9, 0, 0),
                    (12, 34, 56),
                    (23, 47, 16),
                    (23, 59, 59),
                    (23, 59, 60),
                    (1, 59, 60),
                    (9, 0, 60),
                ];
                let fr = ["", ".0", ".5", ".001", ".854775807", ".854775808", ".999999", ".000000001"];
                let z = *ctx.pick(&ZONES);
                let (y, m, d) = *ctx.pick(&days);
                let (lo, hi) = z.years();
                let f = ctx.choose(3);
                let sep = *ctx.pick(&[" ", "-", "T"]);
                let colon = ctx.flag();
                let (h, mi, s) = *ctx.pick(&times);
                let frac = *ctx.pick(&fr);
                if y < lo || y > hi {
                    return Ok(());
                }
                let tm = if colon {
                    format!("{:02}:{:02}:{:02}", h, mi, s)
                } else {
                    format!("{:02}{:02}{:02}", h, mi, s)
                };
                let text = format!("{}{}{}{}", date_text(y, m, d, f), sep, tm, frac);
                let form = format!("{}{}{}F", DATES[f].0, sep, if colon { "h:m:s" } else { "hms" });
                let want = parse(&text, &form).and_then(|p| {
                    let leap = (s == 60) as i64;
                    nanos(z.resolve(p.0 - leap)? + leap, p.1)
                });
                check(ctx, &text, z, want)
            },
        );
        c.scenario(
            "calendar",
            "years 1969, 1970, 1990, 2000, 2019, 2020, 2100, 2262, 2263 x months 00..13 x days 00..32 as \
             YYYYMMDD, as a date with time in 3 forms and as ISO 8601; YYYY and YYYYMM for the same; \
             UTC, Tokyo and no timezone",
            0,
            |ctx| {
                let z = *ctx.pick(&[Zone::Utc, Zone::Tokyo, Zone::None]);
                let y = *ctx.pick(&[1969, 1970, 1990, 2000, 2019, 2020, 2100, 2262, 2263]);
                let m = ctx.choose(14) as i64;
                let d = ctx.choose(33) as i64;
                let inst = |y, m, d, s| {
                    local_secs(y, m, d, 0, 0, 0).and_then(|l| instant((l + s, 0, None), z))
                };
                let w = inst(y, m, d, 0);
                check(ctx, &format!("{:04}{:02}{:02}", y, m, d), z, w)?;
                if d == 0 {
                    check(ctx, &format!("{:04}{:02}", y, m), z, inst(y, m, 1, 0))?;
                    if m == 0 {
                        check(ctx, &format!("{:04}", y), z, inst(y, 1, 1, 0))?;
                    }
                }
                for f in 0..3 {
                    let text = format!("{} 00:00:01", date_text(y, m, d, f));
                    check(ctx, &text, z, inst(y, m, d, 1))?;
                }
                for (o, os) in [(0, "Z"), (0, "+00:00"), (19800, "+05:30"), (-18000, "-05:00")] {
                    let text = format!("{:04}-{:02}-{:02}T00:00:00{}", y, m, d, os);
                    let want = local_secs(y, m, d, 0, 0, 0).and_then(|l| nanos(l - o, 0));
                    check(ctx, &text, z, want)?;
                }
                Ok(())
            },
        );
        c.scenario(
            "iso-offset",
            "ISO 8601 with an offset: 8 instants x 8 fractions x 13 offsets x 3 timezones: the configured \
             timezone does not matter",
            0,
            |ctx| {
                let z = *ctx.pick(&[Zone::None, Zone::NewYork, Zone::LordHowe]);
                let dt = *ctx.pick(&[
                    "1970-01-01T00:00:00",
                    "1970-01-01T05:30:00",
                    "1969-12-31T23:59:59",
                    "2019-03-10T02:30:00",
                    "2019-11-03T01:30:00",
                    "2001-07-08T00:34:60",
                    "2262-04-11T23:47:16",
                    "2019-06-15T23:59:59",
                ]);
                let fr = *ctx.pick(&[
                    "",
                    ".0",
                    ".9",
                    ".026",
                    ".026490",
                    ".854775807",
                    ".854775808",
                    ".000000001",
                ]);
                let off = *ctx.pick(&[
                    "Z", "+00:00", "-00:00", "+09:30", "-05:00", "+05:30", "+14:00", "-12:00", "+00:01", "-00:30", "-09:30", "+23:59", "-23:59",
                ]);
                let text = format!("{}{}{}", dt, fr, off);
                let want = parse(&text, "Y-M-DTh:m:sFZ").and_then(|p| instant(p, z));
                check(ctx, &text, z, want)
            },
        );
        c.scenario(
            "long-fractions",
            "fractions of 9..=13, 20 and 40 digits (all 9, all 0, only the last one not 0, counting) in the date forms with each separator and both time \
             forms, and in ISO 8601 with 4 offsets: the digits beyond nanoseconds do not matter; T and Z in ISO 8601 in capital or small letters",
            0,
            |ctx| {
                let n = *ctx.pick(&[0usize, 9, 10, 11, 12, 13, 20, 40]);
                let digits: String = match ctx.choose(4) {
                    0 => "9".repeat(n),
                    1 => "0".repeat(n),
                    2 if n > 0 => "0".repeat(n - 1) + "5",
                    _ => "1234567890".chars().cycle().take(n).collect(),
                };
                let (frac, kept) = if n == 0 { ("".to_string(), "".to_string()) } else { (format!(".{}", digits), format!(".{}", &digits[..9])) };
                if ctx.flag() {
                    let off = *ctx.pick(&["Z", "z", "+00:00", "-05:30"]);
                    let mid = *ctx.pick(&["T", "t"]);
                    let z = *ctx.pick(&[Zone::None, Zone::NewYork]);
                    let text = format!("2019-06-15{}23:59:58{}{}", mid, frac, off);
                    let plain = format!("2019-06-15T23:59:58{}{}", kept, off.to_uppercase());
                    let want = parse(&plain, "Y-M-DTh:m:sFZ").and_then(|p| instant(p, z));
                    return check(ctx, &text, z, want);
                }
                let z = *ctx.pick(&[Zone::Utc, Zone::NewYork]);
                let f = ctx.choose(3);
                let sep = *ctx.pick(&[" ", "-", "T"]);
                let colon = ctx.flag();
                let tm = if colon { "23:59:58" } else { "235958" };
                let form = format!("{}{}{}F", DATES[f].0, sep, if colon { "h:m:s" } else { "hms" });
                let plain = format!("{}{}{}{}", date_text(2019, 6, 15, f), sep, tm, kept);
                let text = format!("{}{}{}{}", date_text(2019, 6, 15, f), sep, tm, frac);
                let want = parse(&plain, &form).and_then(|p| instant(p, z));
                check(ctx, &text, z, want)
            },
        );
        c.scenario(
            "epoch",
            "every number within 2 of each end of each unit's range, of powers of 10 and of the ends of \
             64-bit integers, and 3 in the middle of each range, with 0, 1, 2 or 5 zeros in front, with and without a timezone",
            0,
            |ctx| {
                let z = *ctx.pick(&[Zone::None, Zone::Utc]);
                let mut v: Vec<u128> = Vec::new();
                for u in [1u128, 1_000, 1_000_000, 1_000_000_000] {
                    for k in [630_000_000u128, 2_000_000_000] {
                        v.push(k * u);
                    }
                    for k in [946_684_800u128, 1_546_300_800, 1_999_999_999] {
                        v.push(k * u + (u - 1) / 2);
                    }
                }
                for e in 9..22 {
                    v.push(10u128.pow(e));
                }
                v.extend([1u128 << 63, 1 << 64, 1 << 31, 1 << 32]);
                let base = *ctx.pick(&v);
                let n = base + ctx.choose(5) as u128 - 2;
                let text = format!("{}{}", "0".repeat(*ctx.pick(&[0, 1, 2, 5])), n);
                let mut want = None;
                for u in [1u128, 1_000, 1_000_000, 1_000_000_000] {
                    let (lo, hi) = (630_000_000 * u, 2_000_000_000 * u);
                    if lo <= n && n < hi {
                        want = Some((n * (1_000_000_000 / u)) as u64);
                    }
                }
                // 8 digits or fewer would be dates
                if text.len() <= 8 {
                    return Ok(());
                }
                check(ctx, &text, z, want)
            },
        );
        c.scenario(
            "switches",
            "every daylight-saving switch of New York 1987-2037, London 1996-2037 and Lord Howe \
             2009-2037: local times every 30 (thorough: 5) minutes from 3 hours before to 3 hours after, and one second \
             before each",
            0,
            move |ctx| {
                let z = *ctx.pick(&[Zone::NewYork, Zone::London, Zone::LordHowe]);
                let (lo, hi) = z.years();
                let y = lo + ctx.choose((hi - lo + 1) as usize) as i64;
                let (a, b) = z.switches(y).unwrap();
                let at = if ctx.flag() { b } else { a };
                let stepm = if t { 5 } else { 30 };
                let n = ctx.choose((360 / stepm) as usize + 1) as i64;
                let less = ctx.choose(2) as i64;
                let local = at + z.offsets()[0] + (n * stepm - 180) * 60 - less;
                let (yy, m, d) = civil(local.div_euclid(DAY));
                let s = local.rem_euclid(DAY);
                let text = format!(
                    "{:04}{:02}{:02}-{:02}:{:02}:{:02}",
                    yy,
                    m,
                    d,
                    s / HOUR,
                    s / 60 % 60,
                    s % 60
                );
                let want = z.resolve(local).and_then(|t| nanos(t, 0));
                check(ctx, &text, z, want)
            },
        );
        c.scenario(
            "odd-switches",
            "the changes of St. John's (a minute past midnight) 2008-2010, Sao Paulo (midnight) 2013-2014, Apia (a day left out) 2011, Caracas and \
             Pyongyang (half an hour for good) and a day of Kathmandu (+5:45): local times every 10 (thorough: 1) minutes from 27 hours before to 27 \
             after, 3 forms, and one second before each",
            0,
            move |ctx| {
                let z = *ctx.pick(&ODD_ZONES);
                let mut at: Vec<i64> = z.changes().iter().map(|c| c.0).filter(|c| *c > 0).collect();
                if at.is_empty() {
                    at.push(days(2015, 4, 25).unwrap_or(0) * DAY);
                }
                let at = *ctx.pick(&at);
                let form = ctx.choose(3);
                let stepm = if t { 1 } else { 10 };
                let n = ctx.choose((54 * 60 / stepm) as usize + 1);
                let mid = at + z.offset_at(at - 1);
                let less = ctx.choose(2) as i64;
                let local = mid + (n as i64 * stepm - 27 * 60) * 60 - less;
                let (y, m, d) = civil(local.div_euclid(DAY));
                let s = local.rem_euclid(DAY);
                let text = format!(
                    "{}{}{:02}:{:02}:{:02}",
                    date_text(y, m, d, form),
                    [' ', '-', 'T'][form],
                    s / HOUR,
                    s / 60 % 60,
                    s % 60
                );
                let want = z.resolve(local).and_then(|t| nanos(t, 0));
                check(ctx, &text, z, want)
            },
        );
        c.scenario(
            "days-of-changes",
            "days without a time (YYYYMMDD, YYYYMM and YYYY): every day from 40 before to 40 after each change of clocks of the zones of odd-switches, \
             some of which leave out midnight or have it twice or leave out a day; of New York, London and Lord Howe every day of 2009, 2019 and 2030",
            0,
            |ctx| {
                let zs = [
                    Zone::StJohns, Zone::SaoPaulo, Zone::Apia, Zone::Caracas, Zone::Pyongyang, Zone::Kathmandu,
                    Zone::NewYork, Zone::London, Zone::LordHowe,
                ];
                let z = *ctx.pick(&zs);
                let day = if ODD_ZONES.contains(&z) {
                    let mut at: Vec<i64> = z.changes().iter().map(|c| c.0).filter(|c| *c > 0).collect();
                    if at.is_empty() {
                        at.push(days(2015, 4, 25).unwrap_or(0) * DAY);
                    }
                    let at = *ctx.pick(&at);
                    (at + z.offset_at(at - 1)).div_euclid(DAY) + ctx.choose(81) as i64 - 40
                } else {
                    days(*ctx.pick(&[2009, 2019, 2030]), 1, 1).unwrap_or(0) + ctx.choose(365) as i64
                };
                let (y, m, d) = civil(day);
                let mut texts = vec![format!("{:04}{:02}{:02}", y, m, d)];
                if d == 1 {
                    texts.push(format!("{:04}{:02}", y, m));
                    if m == 1 {
                        texts.push(format!("{:04}", y));
                    }
                }
                let want = z.resolve(day * DAY).and_then(|t| nanos(t, 0));
                for text in texts {
                    check(ctx, &text, z, want)?;
                }
                Ok(())
            },
        );
        c.scenario(
            "out-of-range",
            "each hour of 0, 9, 10, 12, 23..=25, 30, 60, 99, each minute and second of 0, 9, 59..=61, 99 in the date forms with each separator and both time \
             forms and in ISO 8601 with 2 offsets, with and without a fraction, in 2 timezones: a time that is none is an error",
            0,
            |ctx| {
                let h = *ctx.pick(&[0, 9, 10, 12, 23, 24, 25, 30, 60, 99]);
                let m = *ctx.pick(&[0, 9, 59, 60, 61, 99]);
                let s = *ctx.pick(&[0, 9, 59, 60, 61, 99]);
                let frac = *ctx.pick(&["", ".25"]);
                let z = *ctx.pick(&[Zone::Utc, Zone::NewYork]);
                let colons = format!("{:02}:{:02}:{:02}{}", h, m, s, frac);
                let way = ctx.choose(20);
                if way >= 18 {
                    let text = format!("2019-06-15T{}{}", colons, ["Z", "-05:30"][way - 18]);
                    let want = parse(&text, "Y-M-DTh:m:sFZ").and_then(|p| instant(p, z));
                    return check(ctx, &text, z, want);
                }
                let (f, sep) = (way % 3, [" ", "-", "T"][way / 3 % 3]);
                let colon = way < 9;
                let time = if colon { colons } else { format!("{:02}{:02}{:02}{}", h, m, s, frac) };
                let form = format!("{}{}{}F", DATES[f].0, sep, if colon { "h:m:s" } else { "hms" });
                let text = format!("{}{}{}", date_text(2019, 6, 15, f), sep, time);
                let want = parse(&text, &form).and_then(|p| instant(p, z));
                check(ctx, &text, z, want)
            },
        );
        c.scenario(
            "not-a-bound",
            "texts that are none of the forms, in 3 timezones: all are errors",
            0,
            |ctx| {
                let z = *ctx.pick(&[Zone::None, Zone::Utc, Zone::NewYork]);
                let bad = [
                    "",
                    " ",
                    "0",
                    "1",
                    "19",
                    "201",
                    "20191",
                    "2019010",
                    "123456789",
                    "629999999",
                    "201913",
                    "201900",
                    "20190001",
                    "20191301",
                    "20190100",
                    "20190132",
                    "20190230",
                    "20190101-",
                    "20190101-24:00:00",
                    "20190101-12:60:00",
                    "20190101-12:00:61",
                    "20190101-120000x",
                    "x20190101-120000",
                    "20190101_120000",
                    "20190101-12:00",
                    "20190101-12",
                    "20190101-12:00:00.",
                    "20190101-12:00:00.x",
                    "20190101-12:00:00,5",
                    "2019/01-01 12:00:00",
                    "2019-01-01",
                    "2019/01/01",
                    "2019-01",
                    "2019-W01-1T00:00:00",
                    "01/02/2019 12:00:00",
                    "2019-13-01 00:00:00",
                    "2019-02-29 00:00:00",
                    "2019-01-01T00:00:00+25:00x",
                    "-1",
                    "-2019",
                    "+2019",
                    "1.5",
                    "1e9",
                    "0x7fffffff",
                    "630000000s",
                    "630000000.5",
                    "now",
                    "today",
                    "99999999999999999999999999",
                    "18446744073709551615",
                    "18446744073709551616",
                    "\u{0662}\u{0660}\u{0661}\u{0669}",
                    "2019\u{0}",
                    " 2019",
                    "2019 ",
                    "201901 ",
                    "\t20190101",
                    "20190101\n",
                    "20190101-12:00:00 ",
                    "20190101-12:00:00.5 ",
                    "1546300800 ",
                    " 1546300800",
                    "1546300800000\t",
                    "1546300800000000\u{a0}",
                    "\r1546300800000000000",
                    "1_546_300_800",
                    "1,546,300,800",
                    "1546300800.",
                    "2019 01 01",
                    "2019/01/01-12:00:00 UTC",
                    "\"20190101\"",
                    "'20190101'",
                    "20190101Z",
                    "20190101T",
                    "20190101T12",
                    "20190101T1200",
                    "2019-001T00:00:00",
                    "\u{feff}20190101",
                ];
                let text = *ctx.pick(&bad);
                check(ctx, text, z, None)
            },
        );
        c.scenario(
            "both",
            "every pair of 10 bounds (3 of them bad) given together, in 3 timezones: each means what it means alone, whichever is earlier; a bad one is an error",
            0,
            |ctx| {
                const S: u64 = 1_000_000_000;
                let z = *ctx.pick(&[Zone::Utc, Zone::NewYork, Zone::None]);
                let local = |s: i64| match z {
                    Zone::None => None,
                    Zone::NewYork => Some((s + 5 * 3600) as u64 * S),
                    _ => Some(s as u64 * S),
                };
                let texts: [(&str, Option<u64>); 10] = [
                    ("1546300800", Some(1_546_300_800 * S)),
                    ("1546300800001", Some(1_546_300_800 * S + 1_000_000)),
                    ("1546300799999999999", Some(1_546_300_800 * S - 1)),
                    ("2019-01-01T00:00:00Z", Some(1_546_300_800 * S)),
                    ("2019-01-01T01:00:00+01:00", Some(1_546_300_800 * S)),
                    ("20190101", local(1_546_300_800)),
                    ("2019/01/01 00:00:01", local(1_546_300_801)),
                    ("2019-13-01", None),
                    ("soon", None),
                    ("", None),
                ];
                let (b, wb) = *ctx.pick(&texts);
                let (e, we) = *ctx.pick(&texts);
                let got = TimestampRange::new(Some(b), Some(e), &z.tz()).map(|r| (r.begin, r.end));
                ctx.step(&(b, e, z));
                ctx.outcome(&got.as_ref().ok());
                let want = wb.and_then(|b| we.map(|e| (Some(b), Some(e))));
                ctx.note(|| format!("{:?} to {:?} in {:?}: expected {:?}", b, e, z, want));
                ensure!(got.as_ref().ok() == want.as_ref(), "{:?} to {:?} in {:?}: {:?}, expected {:?}", b, e, z, got.map_err(|e| e.to_string()), want);
                Ok(())
            },
        );
    });
}
