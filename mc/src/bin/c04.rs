//! C04: exactly the rows in [begin, end) are output, for every input.
use std::collections::HashMap;

use chopper::chopper::chopper::{ChopperDriver, Source};
use chopper::chopper::header_graph::{HeaderChain, HeaderGraph, HeaderNode};
use chopper::chopper::types::{FieldType, TimestampRange};
use chopper::driver::driver::Driver;
use chopper::driver::merge_join::MergeJoin;
use chopper::write::factory;
use mc::graph::*;
use mc::kit::*;
use mc::*;

fn seq(ctx: &mut Ctx, dom: &[u64], max: usize) -> Vec<u64> {
    let n = ctx.choose(max + 1);
    let mut lo = 0;
    let mut r = Vec::new();
    for _ in 0..n {
        lo += ctx.choose(dom.len() - lo);
        r.push(dom[lo]);
    }
    r
}

fn bound(ctx: &mut Ctx, dom: &[u64]) -> Option<u64> {
    match ctx.choose(dom.len() + 1) {
        0 => None,
        i => Some(dom[i - 1]),
    }
}

fn inside(t: u64, b: Option<u64>, e: Option<u64>) -> bool {
    b.map_or(true, |b| b <= t) && e.map_or(true, |e| t < e)
}

fn hd() -> H {
    H::new(&[("a", FieldType::String)])
}

fn rows_of(times: &[Vec<u64>]) -> Vec<Vec<R>> {
    times
        .iter()
        .enumerate()
        .map(|(s, ts)| {
            ts.iter()
                .enumerate()
                .map(|(i, t)| (*t, vec![V::S(format!("s{}r{}", s, i))]))
                .collect()
        })
        .collect()
}

fn run(ctx: &mut Ctx, times: Vec<Vec<u64>>, b: Option<u64>, e: Option<u64>, merge: bool) -> Res {
    let k = times.len();
    let rows = rows_of(&times);
    let mut g: Graph = Vec::new();
    for i in 0..k {
        g.push(if merge {
            vec![Node::Merge(k), Node::Rec(i)]
        } else {
            vec![Node::Rec(i)]
        });
    }
    if merge {
        g.push(vec![Node::MergeHead, Node::Rec(k)]);
    }
    ctx.note(|| format!("timestamps {}, begin {:?}, end {:?}, graph {:?}", show(&times), b, e, g));
    let log = log();
    let sources: Vec<Box<dyn Source>> = rows.iter().map(|x| VecSource::new(&hd(), x)).collect();
    let range = TimestampRange { begin: b, end: e };
    let (bl, d) = run_real(&g, &vec![hd(); k], sources, range, &log);
    ensure!(bl.is_ok() && d.is_ok(), "the run failed: {:?} {:?}", bl, d);
    let kept: Vec<Vec<R>> = rows
        .iter()
        .map(|rs| rs.iter().filter(|x| inside(x.0, b, e)).cloned().collect())
        .collect();
    let mut want = Vec::new();
    for (s, x) in model_order(&kept) {
        model_row(&g, s, 0, x, &mut want);
    }
    for (s, rs) in rows.iter().enumerate() {
        for (i, x) in rs.iter().enumerate() {
            let rest = &times[s][i..];
            // in long inputs only the rows next to a bound count as states of their own
            if rs.len() > 100 && i > 0 && i + 1 < rs.len() {
                let here = inside(x.0, b, e);
                if inside(times[s][i - 1], b, e) == here && inside(times[s][i + 1], b, e) == here {
                    continue;
                }
            }
            ctx.step(&(b, e, s, i, rest.len(), &rest[..rest.len().min(10)], inside(x.0, b, e)));
        }
    }
    ctx.step(&(b, e, kept.iter().map(|k| k.len()).collect::<Vec<_>>(), merge));
    let seen = log.borrow();
    ctx.note(|| format!("observed: {}", show(&*seen)));
    ctx.outcome(&*seen);
    let mut hs = HashMap::new();
    for i in 0..=k {
        hs.insert(i, hd());
    }
    compare(&g, k, &seen, &want, &hs)
}

fn main() {
    mc::main("C04", Level::ModelChecking, |c| {
        let t = c.thorough;
        c.assume("inputs are in time order, as the property presumes");
        let max = if t { 4 } else { 3 };
        c.scenario(
            "range-1",
            "1 source x every non-decreasing sequence of at most 6 timestamps of {1,2,3,4} x begin and \
             end each of {none, 0..5}",
            0,
            move |ctx| {
                let b = bound(ctx, &[0, 1, 2, 3, 4, 5]);
                let e = bound(ctx, &[0, 1, 2, 3, 4, 5]);
                let times = vec![seq(ctx, &[1, 2, 3, 4], 6)];
                run(ctx, times, b, e, false)
            },
        );
        c.scenario(
            "range-2",
            "2 sources x every non-decreasing sequence of at most 3 (thorough 4) timestamps of {1,2,3} \
             each x begin and end each of {none, 0..4} x merged or not",
            0,
            move |ctx| {
                let b = bound(ctx, &[0, 1, 2, 3, 4]);
                let e = bound(ctx, &[0, 1, 2, 3, 4]);
                let m = ctx.flag();
                let times = (0..2).map(|_| seq(ctx, &[1, 2, 3], max)).collect();
                run(ctx, times, b, e, m)
            },
        );
        c.scenario(
            "range-3",
            "3 sources x every non-decreasing sequence of at most 2 (thorough 3) timestamps of {1,2} \
             each x begin and end each of {none, 0..3} x merged or not",
            0,
            move |ctx| {
                let b = bound(ctx, &[0, 1, 2, 3]);
                let e = bound(ctx, &[0, 1, 2, 3]);
                let m = ctx.flag();
                let times = (0..3).map(|_| seq(ctx, &[1, 2], max - 1)).collect();
                run(ctx, times, b, e, m)
            },
        );
        c.scenario(
            "extreme-bounds",
            "1 source x sequences of at most 2 timestamps and bounds of {0,1,2^63-1,2^63,2^64-2,2^64-1}",
            0,
            move |ctx| {
                let dom = [0, 1, (1 << 63) - 1, 1 << 63, u64::MAX - 1, u64::MAX];
                let b = bound(ctx, &dom);
                let e = bound(ctx, &dom);
                let times = vec![seq(ctx, &dom, 2)];
                run(ctx, times, b, e, false)
            },
        );
        c.scenario(
            "outputs",
            "1..=3 sources with at most 2 rows each written to a real csv or dc file: the file holds the \
             header and exactly the rows in range, also when there are none",
            0,
            move |ctx| {
                let k = 1 + ctx.choose(3);
                let b = bound(ctx, &[1, 2]);
                let e = bound(ctx, &[1, 2, 3]);
                let dc = ctx.flag();
                let times: Vec<Vec<u64>> =
                    (0..k).map(|_| seq(ctx, &[1, 2], if k == 3 { 1 } else { 2 })).collect();
                let rows = rows_of(&times);
                let path = ctx.dir().join(if dc { "o.dc" } else { "o.csv" });
                let _ = std::fs::remove_file(&path);
                let sources: Vec<Box<dyn Source>> =
                    rows.iter().map(|x| VecSource::new(&hd(), x)).collect();
                ctx.note(|| format!("timestamps {:?}, begin {:?}, end {:?}, {:?}", times, b, e, path));
                let sink = match factory::new_header_sink(path.to_str(), None) {
                    Ok(s) => s,
                    Err(e) => return Err(format!("sink: {}", e)),
                };
                let mut chains: Vec<HeaderChain> =
                    (0..k).map(|_| HeaderChain::new(vec![HeaderNode::Merge(k)])).collect();
                let m = MergeJoin::new(k).map_err(|e| err_text(&e))?;
                let t = m.get_new_header_count_tracker();
                chains.push(HeaderChain::new(vec![
                    HeaderNode::MergeHeaderSink(m, t),
                    HeaderNode::HeaderSink(sink),
                ]));
                {
                    let mut d = Driver::new(
                        sources,
                        HeaderGraph::new(chains),
                        TimestampRange { begin: b, end: e },
                        vec![hd().header(); k],
                    )
                    .map_err(|e| err_text(&e))?;
                    let d: &mut dyn ChopperDriver = &mut d;
                    d.drive().map_err(|e| format!("the run failed: {}", e))?;
                }
                let kept: Vec<Vec<R>> = rows
                    .iter()
                    .map(|rs| rs.iter().filter(|x| inside(x.0, b, e)).cloned().collect())
                    .collect();
                let got = std::fs::read(&path).map_err(|e| format!("no output: {}", e))?;
                let mut want: Vec<u8> = Vec::new();
                if dc {
                    want.extend(0x44434154u64.to_be_bytes());
                    want.extend(2u16.to_be_bytes());
                    want.extend(0u32.to_be_bytes());
                    want.extend(1u32.to_be_bytes());
                    // the rest of the header is checked by C12; find it by the empty output
                } else {
                    want.extend(b"timestampNanos,a\n");
                }
                let mut body: Vec<u8> = Vec::new();
                for (_, (ts, v)) in model_order(&kept) {
                    ctx.step(&(dc, ts, &v));
                    let s = if let V::S(s) = &v[0] { s.clone() } else { String::new() };
                    if dc {
                        body.extend(ts.to_be_bytes());
                        body.push(0);
                        body.extend((s.len() as i16).to_be_bytes());
                        body.extend(s.as_bytes());
                    } else {
                        body.extend(format!("{},{}\n", ts, s).as_bytes());
                    }
                }
                ctx.step(&(dc, &body));
                ctx.outcome(&got);
                ensure!(
                    got.starts_with(&want) && got.ends_with(&body),
                    "output {:?} is not header {:?} ... rows {:?}",
                    String::from_utf8_lossy(&got),
                    String::from_utf8_lossy(&want),
                    String::from_utf8_lossy(&body)
                );
                if !dc {
                    ensure!(got.len() == want.len() + body.len(), "{:?}", String::from_utf8_lossy(&got));
                } else {
                    // descriptor of one string column "a": sizes 1+8 chars of the type name at most
                    let hl = got.len() - body.len();
                    ensure!(hl > want.len() && hl < want.len() + 64, "dc header of {} bytes", hl);
                }
                Ok(())
            },
        );
        c.scenario(
            "long",
            "1 to 3 sources of 255..=257, 1023..=1025, 4097, 65537 and 100001 rows with times in 3 patterns (each its own, runs of \
             5, big jumps), begin and end each none or at, just before or after the time of row 0, 1, n/2, n-2 or n-1, or far off",
            0,
            move |ctx| {
                let n = *ctx.pick(&[255usize, 256, 257, 1023, 1024, 1025, 4097, 65537, 100001]);
                let big = n > 5000;
                let k = if big { 1 + 2 * ctx.choose(2) } else { 1 + ctx.choose(3) };
                let p = ctx.choose(3);
                let time = |s: usize, i: usize| -> u64 {
                    1000 + match p {
                        0 => (i * 2 + s) as u64,
                        1 => (i / 5 * 2) as u64,
                        _ => ((i / 64) as u64) << 40 | (i % 64) as u64,
                    }
                };
                let times: Vec<Vec<u64>> = (0..k).map(|s| (0..n).map(|i| time(s, i)).collect()).collect();
                let points = if big { vec![1, n / 2, n - 1] } else { vec![0, 1, n / 2, n - 2, n - 1] };
                let mut dom = vec![0, u64::MAX];
                for i in points {
                    let x = time(0, i);
                    dom.extend(if big { vec![x] } else { vec![x - 1, x, x + 1] });
                }
                let b = bound(ctx, &dom);
                let e = bound(ctx, &dom);
                run(ctx, times, b, e, k > 1)
            },
        );
        c.scenario(
            "endless",
            "1 to 3 inputs that have no end (a row every 1, 7 or 1000 units, or the same time 5 times), an end bound of 0, 1, 5, 1000 or 3001 (thorough, one input: also 30001), a begin \
             bound of 0, 3 or 2000 or none, merged or not: the run ends with the rows in range, and no input is read more than 2000 rows further",
            0,
            move |ctx| {
                struct Endless(chopper::chopper::types::Header, u64, fn(u64) -> u64, u64, String);
                impl Source for Endless {
                    fn header(&self) -> &chopper::chopper::types::Header {
                        &self.0
                    }
                    fn next_row(&mut self) -> chopper::error::CliResult<Option<chopper::chopper::types::Row>> {
                        let i = self.1;
                        self.1 += 1;
                        if self.3 == 0 {
                            return Err(chopper::error::Error::from("still reading".to_string()));
                        }
                        if (self.2)(i) >= END.with(|e| e.get()) {
                            self.3 -= 1;
                        }
                        Ok(Some(row(&((self.2)(i), vec![V::S(format!("{}{}", self.4, i))]))))
                    }
                }
                thread_local!(static END: std::cell::Cell<u64> = const { std::cell::Cell::new(0) });
                let k = 1 + ctx.choose(3);
                let times: [fn(u64) -> u64; 4] = [|i| i, |i| i * 7, |i| i * 1000, |i| i / 5];
                let which: Vec<usize> = (0..k).map(|_| ctx.choose(4)).collect();
                let ends = [0u64, 1, 5, 1000, 3001, 30_001];
                let e = *ctx.pick(&ends[..if t && k == 1 { 6 } else { 5 }]);
                let b = *ctx.pick(&[None, Some(0), Some(3), Some(2000)]);
                let merge = k > 1 && ctx.flag();
                END.with(|x| x.set(e));
                let mut g: Graph = (0..k).map(|i| if merge { vec![Node::Merge(k)] } else { vec![Node::Rec(i)] }).collect();
                if merge {
                    g.push(vec![Node::MergeHead, Node::Rec(k)]);
                }
                let log = log();
                let sources: Vec<Box<dyn Source>> = which
                    .iter()
                    .enumerate()
                    .map(|(s, w)| Box::new(Endless(hd().header(), 0, times[*w], 2000, format!("s{}r", s))) as Box<dyn Source>)
                    .collect();
                let (bl, d) = run_real(&g, &vec![hd(); k], sources, TimestampRange { begin: b, end: Some(e) }, &log);
                let kept: Vec<Vec<R>> = which
                    .iter()
                    .enumerate()
                    .map(|(s, w)| {
                        (0..).map(|i| (times[*w](i), vec![V::S(format!("s{}r{}", s, i))])).take_while(|r| r.0 < e).filter(|r| inside(r.0, b, Some(e))).collect()
                    })
                    .collect();
                let mut want = Vec::new();
                for (s, x) in model_order(&kept) {
                    model_row(&g, s, 0, x, &mut want);
                }
                ctx.step(&(&which, b, e, merge));
                let seen = log.borrow();
                ctx.outcome(&seen.len());
                ctx.note(|| format!("inputs {:?}, begin {:?}, end {}, merged {}: {:?}, {} events", which, b, e, merge, d, seen.len()));
                ensure!(bl.is_ok() && d.is_ok(), "inputs {:?} without end, begin {:?}, end {}: {:?} {:?}", which, b, e, bl, d);
                let mut hs = HashMap::new();
                for i in 0..=k {
                    hs.insert(i, hd());
                }
                compare(&g, k, &seen, &want, &hs)
            },
        );
        c.scenario(
            "unequal-inputs",
            "3 inputs, one of 0..=300 rows, one of them wholly before, in, after or around the range, the others short: every \
             combination of 6 placements each, merged or not",
            0,
            move |ctx| {
                let place = |ctx: &mut Ctx, n: usize| -> Vec<u64> {
                    match ctx.choose(6) {
                        0 => vec![],
                        1 => (0..n as u64).collect(),                        // before
                        2 => (0..n as u64).map(|i| 1000 + i).collect(),       // in
                        3 => (0..n as u64).map(|i| 3000 + i).collect(),       // after
                        4 => (0..n as u64).map(|i| i * 5000 / n as u64).collect(), // around
                        _ => vec![1000; n],
                    }
                };
                let n = *ctx.pick(&[1usize, 3, 300]);
                let times = vec![place(ctx, n), place(ctx, 2), place(ctx, 5)];
                let b = *ctx.pick(&[None, Some(1000), Some(1001)]);
                let e = *ctx.pick(&[None, Some(2000), Some(1000)]);
                let m = ctx.flag();
                run(ctx, times, b, e, m)
            },
        );
        c.scenario(
            "command-line",
            "chop on 1 to 3 inputs (files, standard input, directories, packed or binary files) with every sequence of at most 2 (three inputs: 1, thorough 2) rows of 3 times, begin and end each \
             none or one of 5 instants before, at, between and after these, as nanoseconds or as text with an offset: the rows in range in order, the header always",
            0,
            move |ctx| {
                const S: u64 = 1_546_300_800_000_000_000;
                let at = |i: u64| S + i * 500_000_000;
                let k = 1 + ctx.choose(3);
                let b = bound(ctx, &[0, 1, 2, 3, 5]);
                let e = bound(ctx, &[0, 1, 2, 3, 5]);
                let times: Vec<Vec<u64>> = (0..k).map(|_| seq(ctx, &[1, 2, 3], if k < 3 || t { 2 } else { 1 })).collect();
                let form = match (k, t) {
                    (2, false) => [0, 2, 4][ctx.choose(3)],
                    (3, false) => times[0].len() * 2,
                    _ => ctx.choose(5),
                };
                let spelled = if k == 1 { ctx.flag() } else { (b.unwrap_or(0) + e.unwrap_or(0)) % 2 == 1 };
                let dir = ctx.fresh_dir();
                let mut args: Vec<String> = ["-E", "--csv-in-has-header", "yes", "--print-time", "yes"].iter().map(|s| s.to_string()).collect();
                let show_at = |i: u64| {
                    if !spelled {
                        at(i).to_string()
                    } else {
                        format!("2019-01-01T05:00:{:02}.{}+05:00", i / 2, i % 2 * 5)
                    }
                };
                if let Some(b) = b {
                    args.extend(["-b".to_string(), show_at(b)]);
                }
                if let Some(e) = e {
                    args.extend(["--end".to_string(), show_at(e)]);
                }
                let text = |s: usize, x: &[R]| {
                    let mut o = "t,a\n".to_string();
                    for r in x {
                        o += &format!("{},{}\n", at(r.0), match &r.1[0] { V::S(s) => s.clone(), _ => String::new() });
                    }
                    let _ = s;
                    o
                };
                let rows = rows_of(&times);
                let mut stdin = Vec::new();
                for (s, x) in rows.iter().enumerate() {
                    let csv = text(s, x).into_bytes();
                    let put = |n: &str, b: &[u8]| {
                        let p = dir.join(n);
                        std::fs::write(&p, b).expect("ENGINE: file");
                        p.to_string_lossy().to_string()
                    };
                    match form {
                        1 if k == 1 => stdin = csv,
                        2 => {
                            let d = dir.join(format!("d{}", s));
                            std::fs::create_dir_all(&d).expect("ENGINE: directory");
                            for (i, r) in x.iter().enumerate() {
                                std::fs::write(d.join(format!("{}.csv", i)), text(s, std::slice::from_ref(r))).expect("ENGINE: file");
                            }
                            if x.is_empty() {
                                std::fs::write(d.join("0.csv"), "t,a\n").expect("ENGINE: file");
                            }
                            args.push(d.to_string_lossy().to_string());
                        }
                        3 => args.push(put(&format!("{}.csv.gz", s), &mc::pack::gzip(&csv, 0, 6, 0))),
                        4 => {
                            let rows: Vec<R> = x.iter().map(|r| (at(r.0), vec![V::S(at(r.0).to_string()), r.1[0].clone()])).collect();
                            let head = H::new(&[("t", FieldType::String), ("a", FieldType::String)]);
                            args.push(put(&format!("{}.dc", s), &dc_bytes(&head, &rows)));
                        }
                        _ => args.push(put(&format!("{}.csv", s), &csv)),
                    }
                }
                let args: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
                let o = chop(&args, &[], &stdin);
                let kept: Vec<Vec<R>> =
                    rows.iter().map(|rs| rs.iter().filter(|x| inside(x.0, b, e)).cloned().collect()).collect();
                let mut want = "timestampNanos,t,a\n".to_string();
                for (_, r) in model_order(&kept) {
                    want += &format!("{0},{0},{1}\n", at(r.0), match &r.1[0] { V::S(s) => s.clone(), _ => String::new() });
                }
                ctx.step(&(form, &times, b, e, spelled));
                ctx.outcome(&(o.code, &o.stdout));
                let how = || format!("{:?}: {}", args, o.text());
                ctx.note(how);
                ensure!(o.code == Some(0) && o.stdout_text() == want, "expected {:?}: {}", want, how());
                Ok(())
            },
        );
    });
}
