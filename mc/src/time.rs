//! Calendar and timezone oracle, written from the published daylight-saving rules and independent
//! of the libraries the code under test uses.
use chopper::util::tz::ChopperTz;

pub fn leap(y: i64) -> bool {
    (y % 4 == 0 && y % 100 != 0) || y % 400 == 0
}

pub fn month_days(y: i64, m: i64) -> i64 {
    match m {
        2 => 28 + leap(y) as i64,
        4 | 6 | 9 | 11 => 30,
        1..=12 => 31,
        _ => 0,
    }
}

/// Days since 1970-01-01, None if there is no such date.
pub fn days(y: i64, m: i64, d: i64) -> Option<i64> {
    if d < 1 || d > month_days(y, m) {
        return None;
    }
    let mut n = 0;
    if y >= 1970 {
        for k in 1970..y {
            n += 365 + leap(k) as i64;
        }
    } else {
        for k in y..1970 {
            n -= 365 + leap(k) as i64;
        }
    }
    for k in 1..m {
        n += month_days(y, k);
    }
    Some(n + d - 1)
}

pub fn civil(mut n: i64) -> (i64, i64, i64) {
    let mut y = 1970;
    // 400 years are 146097 days
    y += 400 * n.div_euclid(146097);
    n = n.rem_euclid(146097);
    loop {
        let l = 365 + leap(y) as i64;
        if n < l {
            break;
        }
        n -= l;
        y += 1;
    }
    let mut m = 1;
    while n >= month_days(y, m) {
        n -= month_days(y, m);
        m += 1;
    }
    (y, m, n + 1)
}

/// 0 = Sunday
pub fn weekday(n: i64) -> i64 {
    (n + 4).rem_euclid(7)
}

/// Day number of the k-th (1..) Sunday of a month, or the last one for k = 0.
fn sunday(y: i64, m: i64, k: i64) -> i64 {
    if k > 0 {
        let first = days(y, m, 1).unwrap();
        first + (7 - weekday(first)) % 7 + 7 * (k - 1)
    } else {
        let last = days(y, m, month_days(y, m)).unwrap();
        last - weekday(last)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Zone {
    None,
    Utc,
    NewYork,
    London,
    Tokyo,
    Kolkata,
    LordHowe,
    // the following by the list of their changes, for a few years only
    StJohns,
    SaoPaulo,
    Apia,
    Caracas,
    Pyongyang,
    Kathmandu,
    Monrovia,
}

/// Zones whose clocks change at midnight or a minute past, by half an hour or by a
/// number of seconds, or over a whole day.
pub const ODD_ZONES: [Zone; 7] =
    [Zone::StJohns, Zone::SaoPaulo, Zone::Apia, Zone::Caracas, Zone::Pyongyang, Zone::Kathmandu, Zone::Monrovia];

pub const ZONES: [Zone; 7] = [
    Zone::None,
    Zone::Utc,
    Zone::NewYork,
    Zone::London,
    Zone::Tokyo,
    Zone::Kolkata,
    Zone::LordHowe,
];

pub const HOUR: i64 = 3600;
pub const DAY: i64 = 86400;

impl Zone {
    pub fn tz(&self) -> ChopperTz {
        match self {
            Zone::None => ChopperTz::new_always_fails(),
            Zone::Utc => ChopperTz::from(chrono_tz::Etc::UTC),
            Zone::NewYork => ChopperTz::from(chrono_tz::America::New_York),
            Zone::London => ChopperTz::from(chrono_tz::Europe::London),
            Zone::Tokyo => ChopperTz::from(chrono_tz::Asia::Tokyo),
            Zone::Kolkata => ChopperTz::from(chrono_tz::Asia::Kolkata),
            Zone::LordHowe => ChopperTz::from(chrono_tz::Australia::Lord_Howe),
            Zone::StJohns => ChopperTz::from(chrono_tz::America::St_Johns),
            Zone::SaoPaulo => ChopperTz::from(chrono_tz::America::Sao_Paulo),
            Zone::Apia => ChopperTz::from(chrono_tz::Pacific::Apia),
            Zone::Caracas => ChopperTz::from(chrono_tz::America::Caracas),
            Zone::Pyongyang => ChopperTz::from(chrono_tz::Asia::Pyongyang),
            Zone::Kathmandu => ChopperTz::from(chrono_tz::Asia::Kathmandu),
            Zone::Monrovia => ChopperTz::from(chrono_tz::Africa::Monrovia),
        }
    }
    pub fn name(&self) -> &'static str {
        match self {
            Zone::None => "",
            Zone::Utc => "UTC",
            Zone::NewYork => "America/New_York",
            Zone::London => "Europe/London",
            Zone::Tokyo => "Asia/Tokyo",
            Zone::Kolkata => "Asia/Kolkata",
            Zone::LordHowe => "Australia/Lord_Howe",
            Zone::StJohns => "America/St_Johns",
            Zone::SaoPaulo => "America/Sao_Paulo",
            Zone::Apia => "Pacific/Apia",
            Zone::Caracas => "America/Caracas",
            Zone::Pyongyang => "Asia/Pyongyang",
            Zone::Kathmandu => "Asia/Kathmandu",
            Zone::Monrovia => "Africa/Monrovia",
        }
    }
    /// Years for which the rules below hold.
    pub fn years(&self) -> (i64, i64) {
        match self {
            Zone::None | Zone::Utc | Zone::Tokyo | Zone::Kolkata => (1960, 2500),
            Zone::NewYork => (1987, 2037),
            Zone::London => (1996, 2037),
            Zone::LordHowe => (2009, 2037),
            Zone::StJohns => (2008, 2010),
            Zone::SaoPaulo => (2013, 2014),
            Zone::Apia => (2011, 2011),
            Zone::Caracas => (2010, 2018),
            Zone::Pyongyang => (2000, 2018),
            Zone::Kathmandu => (1990, 2018),
            Zone::Monrovia => (1970, 1972),
        }
    }
    pub fn offsets(&self) -> &'static [i64] {
        match self {
            Zone::None | Zone::Utc => &[0],
            Zone::NewYork => &[-5 * HOUR, -4 * HOUR],
            Zone::London => &[0, HOUR],
            Zone::Tokyo => &[9 * HOUR],
            Zone::Kolkata => &[5 * HOUR + HOUR / 2],
            Zone::LordHowe => &[10 * HOUR + HOUR / 2, 11 * HOUR],
            Zone::StJohns => &[-3 * HOUR - HOUR / 2, -2 * HOUR - HOUR / 2],
            Zone::SaoPaulo => &[-3 * HOUR, -2 * HOUR],
            Zone::Apia => &[-11 * HOUR, -10 * HOUR, 14 * HOUR],
            Zone::Caracas => &[-4 * HOUR - HOUR / 2, -4 * HOUR],
            Zone::Pyongyang => &[9 * HOUR, 8 * HOUR + HOUR / 2],
            Zone::Kathmandu => &[5 * HOUR + 45 * 60],
            Zone::Monrovia => &[-44 * 60 - 30, 0],
        }
    }
    /// Instants (utc seconds) of the two switches of a year: to summer time, from summer time.
    pub fn switches(&self, y: i64) -> Option<(i64, i64)> {
        match self {
            Zone::NewYork => {
                let (a, b) = if y >= 2007 {
                    (sunday(y, 3, 2), sunday(y, 11, 1))
                } else {
                    (sunday(y, 4, 1), sunday(y, 10, 0))
                };
                // 2:00 local standard time, 2:00 local summer time
                Some((a * DAY + 7 * HOUR, b * DAY + 6 * HOUR))
            }
            Zone::London => Some((sunday(y, 3, 0) * DAY + HOUR, sunday(y, 10, 0) * DAY + HOUR)),
            Zone::LordHowe => {
                // 2:00 local standard time (+10:30), 2:00 local summer time (+11)
                let a = sunday(y, 10, 1) * DAY + 2 * HOUR - (10 * HOUR + HOUR / 2);
                let b = sunday(y, 4, 1) * DAY + 2 * HOUR - 11 * HOUR;
                Some((a, b))
            }
            _ => None,
        }
    }
    /// Changes of the odd zones: instant (utc seconds) and index of the offset from then on; the
    /// first is that in force when their years begin.
    pub fn changes(&self) -> Vec<(i64, usize)> {
        let utc = |y: i64, m: i64, d: i64, h: i64, mi: i64| days(y, m, d).unwrap() * DAY + h * HOUR + mi * 60;
        match self {
            Zone::StJohns => {
                // 00:01 local time, second Sunday of March and first of November
                let mut v = vec![(i64::MIN, 0)];
                for y in 2008..=2010 {
                    v.push((sunday(y, 3, 2) * DAY + 3 * HOUR + 31 * 60, 1));
                    v.push((sunday(y, 11, 1) * DAY + 2 * HOUR + 31 * 60, 0));
                }
                v
            }
            Zone::SaoPaulo => {
                // midnight, third Sunday of February and of October
                let mut v = vec![(i64::MIN, 1)];
                for y in 2013..=2014 {
                    v.push((sunday(y, 2, 3) * DAY + 2 * HOUR, 0));
                    v.push((sunday(y, 10, 3) * DAY + 3 * HOUR, 1));
                }
                v
            }
            Zone::Apia => vec![
                (i64::MIN, 1),
                (utc(2011, 4, 2, 14, 0), 0),
                (utc(2011, 9, 24, 14, 0), 1),
                // from the end of the 29th to the start of the 31st
                (utc(2011, 12, 30, 10, 0), 2),
            ],
            Zone::Caracas => vec![(i64::MIN, 0), (utc(2016, 5, 1, 7, 0), 1)],
            Zone::Pyongyang => vec![(i64::MIN, 0), (utc(2015, 8, 14, 15, 0), 1), (utc(2018, 5, 4, 15, 0), 0)],
            // from midnight to 00:44:30
            Zone::Monrovia => vec![(i64::MIN, 0), (utc(1972, 1, 7, 0, 44) + 30, 1)],
            _ => vec![(i64::MIN, 0)],
        }
    }
    /// Offset from UTC in force at an instant.
    pub fn offset_at(&self, t: i64) -> i64 {
        let o = self.offsets();
        if o.len() == 1 {
            return o[0];
        }
        if ODD_ZONES.contains(self) {
            return o[self.changes().iter().rev().find(|c| c.0 <= t).map_or(0, |c| c.1)];
        }
        let (y, _, _) = civil((t + o[0]).div_euclid(DAY));
        let (a, b) = self.switches(y).unwrap();
        let summer = if a < b { a <= t && t < b } else { t < b || a <= t };
        o[summer as usize]
    }
    /// The instant of a local time, None if it does not exist, is ambiguous, or there is no zone.
    pub fn resolve(&self, local: i64) -> Option<i64> {
        if *self == Zone::None {
            return None;
        }
        let c: Vec<i64> = self
            .offsets()
            .iter()
            .map(|o| (local - o, *o))
            .filter(|(t, o)| self.offset_at(*t) == *o)
            .map(|x| x.0)
            .collect();
        if c.len() == 1 {
            Some(c[0])
        } else {
            None
        }
    }
}

/// Nanoseconds since 1970 if that can be represented.
pub fn nanos(secs: i64, ns: i64) -> Option<u64> {
    let n = secs as i128 * 1_000_000_000 + ns as i128;
    if n < 0 || n > i64::MAX as i128 {
        None
    } else {
        Some(n as u64)
    }
}

/// A date and time of day; None if there is none.
pub fn local_secs(y: i64, mo: i64, d: i64, h: i64, mi: i64, s: i64) -> Option<i64> {
    if !(0..24).contains(&h) || !(0..60).contains(&mi) || !(0..=60).contains(&s) {
        return None;
    }
    Some(days(y, mo, d)? * DAY + h * HOUR + mi * 60 + s)
}

/// YYYY-MM-DDTHH:MM:SS[.fraction]+HH:MM of an instant.
pub fn human(z: Zone, t: u64, digits: usize) -> String {
    let secs = (t / 1_000_000_000) as i64;
    let ns = t % 1_000_000_000;
    let o = z.offset_at(secs);
    let l = secs + o;
    let (y, m, d) = civil(l.div_euclid(DAY));
    let s = l.rem_euclid(DAY);
    let mut r = format!(
        "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}",
        y,
        m,
        d,
        s / HOUR,
        s / 60 % 60,
        s % 60
    );
    if digits > 0 {
        r.push('.');
        r.push_str(&format!("{:09}", ns)[..digits]);
    }
    // to the minute: the one nearest, halves away from zero
    let a = (o.abs() + 30) / 60;
    r.push_str(&format!("{}{:02}:{:02}", if o < 0 { '-' } else { '+' }, a / 60, a % 60));
    r
}

/// Strict parse of text against a form: letters Y M D h m s take 4/2/2/2/2/2 digits, 'f' takes
/// exactly 3 digits (milliseconds), 'H' takes 1 or 2 digits (hour), 'F' an optional fraction of
/// '.' and 1 to 9 digits, 'Z' an offset (Z or +hh:mm), 'z' an offset (+hhmm or +hh:mm); everything
/// else stands for itself. Returns (local seconds, nanos, offset).
pub fn parse(text: &str, form: &str) -> Option<(i64, i64, Option<i64>)> {
    let b = text.as_bytes();
    let mut i = 0;
    let (mut y, mut mo, mut d, mut h, mut mi, mut s, mut ns) = (1970, 1, 1, 0, 0, 0, 0i64);
    let mut off = None;
    fn num(b: &[u8], i: &mut usize, n: usize) -> Option<i64> {
        let e = *i + n;
        if e > b.len() || !b[*i..e].iter().all(|c| c.is_ascii_digit()) {
            return None;
        }
        let v = std::str::from_utf8(&b[*i..e]).ok()?.parse().ok()?;
        *i = e;
        Some(v)
    }
    for c in form.bytes() {
        match c {
            b'Y' => y = num(b, &mut i, 4)?,
            b'M' => mo = num(b, &mut i, 2)?,
            b'D' => d = num(b, &mut i, 2)?,
            b'h' => h = num(b, &mut i, 2)?,
            b'H' => h = num(b, &mut i, 2).or_else(|| num(b, &mut i, 1))?,
            b'm' => mi = num(b, &mut i, 2)?,
            b's' => s = num(b, &mut i, 2)?,
            b'f' => ns = num(b, &mut i, 3)? * 1_000_000,
            b'F' => {
                if i < b.len() && b[i] == b'.' {
                    i += 1;
                    let st = i;
                    while i < b.len() && b[i].is_ascii_digit() {
                        i += 1;
                    }
                    if i == st || i - st > 9 {
                        return None;
                    }
                    let mut t = text[st..i].to_string();
                    while t.len() < 9 {
                        t.push('0');
                    }
                    ns = t.parse().ok()?;
                }
            }
            b'Z' | b'z' => {
                if c == b'Z' && i < b.len() && b[i] == b'Z' {
                    i += 1;
                    off = Some(0);
                } else {
                    let sign = match b.get(i)? {
                        b'+' => 1,
                        b'-' => -1,
                        _ => return None,
                    };
                    i += 1;
                    let hh = num(b, &mut i, 2)?;
                    if b.get(i) == Some(&b':') {
                        i += 1;
                    }
                    let mm = num(b, &mut i, 2)?;
                    if hh > 23 || mm > 59 {
                        return None;
                    }
                    off = Some(sign * (hh * HOUR + mm * 60));
                }
            }
            c => {
                if b.get(i) != Some(&c) {
                    return None;
                }
                i += 1;
            }
        }
    }
    if i != b.len() {
        return None;
    }
    Some((local_secs(y, mo, d, h, mi, s)?, ns, off))
}

/// The instant of a parsed local or offset time.
pub fn instant(p: (i64, i64, Option<i64>), z: Zone) -> Option<u64> {
    match p.2 {
        Some(o) => nanos(p.0 - o, p.1),
        None => nanos(z.resolve(p.0)?, p.1),
    }
}
