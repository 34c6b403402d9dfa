//! Which instant a CSV row's time columns state, by C06's statement: the model shared by C06 and C22.
use crate::time::*;

#[derive(Clone, Debug, Hash)]
pub enum Col {
    Auto,
    Index(usize),
    Pair(usize, usize),
    Name(String),
    NamePair(String, String),
}

#[derive(Clone, Debug, Hash)]
pub enum Fmt {
    Auto,
    Epoch(u64),
    // format for the library, form for the oracle
    Explicit(&'static str, &'static str),
    Split((&'static str, &'static str), (&'static str, &'static str)),
}

#[derive(Clone, Debug)]
pub enum Read1 {
    Unit(u64),
    Form(String),
}

pub const UNITS: [(&str, u64); 4] = [
    ("seconds", 1_000_000_000),
    ("millis", 1_000_000),
    ("micros", 1_000),
    ("nanos", 1),
];

pub fn exact_unit(s: &str) -> Option<u64> {
    UNITS.iter().find(|u| u.0 == s).map(|u| u.1)
}

pub fn suffix_unit(s: &str) -> Option<u64> {
    let s = s.to_lowercase();
    UNITS.iter().find(|u| s.ends_with(u.0)).map(|u| u.1)
}

/// Chosen columns and unit, as the property states the guess.
pub fn guess(names: &[String]) -> (Vec<usize>, Option<u64>) {
    let low: Vec<String> = names.iter().map(|n| n.to_lowercase()).collect();
    let first = |f: &dyn Fn(&str) -> bool| low.iter().position(|n| f(n));
    if let Some(i) = first(&|n| n.starts_with("time") && exact_unit(&n[4..]).is_some()) {
        return (vec![i], exact_unit(&low[i][4..]));
    }
    let d = first(&|n| n == "date");
    let t = first(&|n| n == "time");
    match (d, t) {
        (Some(d), Some(t)) => return (vec![d, t], None),
        (Some(d), None) => return (vec![d], None),
        (None, Some(t)) => return (vec![t], None),
        _ => {}
    }
    let pu = |n: &str| -> Option<u64> {
        UNITS
            .iter()
            .find(|u| n.ends_with(&format!("time{}", u.0)) && n.len() > 4 + u.0.len())
            .map(|u| u.1)
    };
    if let Some(i) = first(&|n| pu(n).is_some()) {
        return (vec![i], pu(&low[i]));
    }
    let pd = first(&|n| n.len() > 4 && n.ends_with("date"));
    let pt = first(&|n| n.len() > 4 && n.ends_with("time"));
    match (pd, pt) {
        (Some(d), Some(t)) if low[d][..low[d].len() - 4] == low[t][..low[t].len() - 4] => {
            (vec![d, t], None)
        }
        (Some(d), _) => (vec![d], None),
        (None, Some(t)) => (vec![t], None),
        _ => (vec![0], None),
    }
}

pub fn read_value(cells: &[&str], how: &Read1, z: Zone) -> Option<u64> {
    let text = cells.join("#");
    match how {
        Read1::Unit(u) => {
            if text.is_empty() || !text.bytes().all(|c| c.is_ascii_digit()) {
                return None;
            }
            let n: u128 = text.parse().ok()?;
            let n = n.checked_mul(*u as u128)?;
            if n > u64::MAX as u128 {
                None
            } else {
                Some(n as u64)
            }
        }
        Read1::Form(f) => instant(parse(&text, f)?, z),
    }
}

pub fn auto_form(cells: &[&str], unit: Option<u64>) -> Option<Read1> {
    let text = cells.join("#");
    if cells.len() == 2 {
        for f in ["YMD#hmsf", "YMD#hms", "YMD#h:m:s", "YMD#H:m"] {
            if parse(&text, f).is_some() {
                return Some(Read1::Form(f.to_string()));
            }
        }
        return None;
    }
    if let Some(u) = unit {
        return Some(Read1::Unit(u));
    }
    for f in ["Y-M-DTh:m:sFZ", "YMD.hms", "YMD hms", "YMD h:m:s", "Y/M/D-h:m:s", "YMD"] {
        if parse(&text, f).is_some() {
            return Some(Read1::Form(f.to_string()));
        }
    }
    if text.is_empty() || !text.bytes().all(|c| c.is_ascii_digit()) {
        return None;
    }
    let n: u128 = text.parse().ok()?;
    for (_, u) in UNITS {
        let k = (1_000_000_000 / u) as u128;
        if 630_000_000 * k <= n && n < 2_000_000_000 * k {
            return Some(Read1::Unit(u));
        }
    }
    None
}

/// Timestamps of the rows up to the first bad one, and whether there is a bad one.
pub fn model(names: &[String], rows: &[Vec<String>], col: &Col, fmt: &Fmt, z: Zone) -> (Vec<u64>, bool) {
    if rows.is_empty() {
        return (vec![], false);
    }
    let by_name = |n: &String| names.iter().position(|x| x == n);
    let (cols, unit) = match col {
        Col::Auto => guess(names),
        Col::Index(i) => (vec![*i], names.get(*i).and_then(|n| suffix_unit(n))),
        Col::Pair(a, b) => (vec![*a, *b], None),
        Col::Name(n) => match by_name(n) {
            None => return (vec![], true),
            Some(i) => (vec![i], suffix_unit(n)),
        },
        Col::NamePair(a, b) => match (by_name(a), by_name(b)) {
            (Some(a), Some(b)) => (vec![a, b], None),
            _ => return (vec![], true),
        },
    };
    let mut out = Vec::new();
    let mut how: Option<Read1> = None;
    for r in rows {
        let mut cells: Vec<&str> = Vec::new();
        for c in &cols {
            match r.get(*c) {
                None => return (out, true),
                Some(x) => cells.push(x),
            }
        }
        if how.is_none() {
            how = match fmt {
                Fmt::Auto => auto_form(&cells, unit),
                Fmt::Epoch(u) => Some(Read1::Unit(*u)),
                Fmt::Explicit(_, f) => Some(Read1::Form(f.to_string())),
                Fmt::Split(d, t) => Some(Read1::Form(format!("{}#{}", d.1, t.1))),
            };
        }
        match how.as_ref().and_then(|h| read_value(&cells, h, z)) {
            None => return (out, true),
            Some(t) => out.push(t),
        }
    }
    (out, false)
}

