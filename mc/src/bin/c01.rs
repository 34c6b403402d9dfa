//! C01: merged output is complete, in time order, and stable.
use std::collections::HashMap;

use chopper::chopper::chopper::Source;
use chopper::chopper::types::{FieldType, TIMESTAMP_RANGE_ALL};
use mc::graph::*;
use mc::kit::*;
use mc::*;

/// Enumerate a non-decreasing sequence of timestamps from the domain, of length 0..=max.
fn seq(ctx: &mut Ctx, dom: &[u64], max: usize) -> Vec<u64> {
    let n = ctx.choose(max + 1);
    let mut lo = 0;
    let mut r = Vec::new();
    for _ in 0..n {
        lo += ctx.choose(dom.len() - lo);
        r.push(dom[lo]);
    }
    r
}

/// Shape of the graph around the merge.
fn shape(kind: usize, k: usize) -> Graph {
    let mut g: Graph = Vec::new();
    for i in 0..k {
        let tag = Node::Tag((b'A' + (i % 26) as u8) as char);
        g.push(match kind {
            // as the command line sets it up, with a node of its own before the merge
            0 => vec![tag, Node::Merge(k)],
            // tee: the source's own sink after the merge
            1 => vec![Node::Merge(k), tag, Node::Rec(i + 1)],
            // no merge at all: every source has its own sink
            _ => vec![tag, Node::Rec(i + 1)],
        });
    }
    if kind < 2 {
        g.push(vec![Node::MergeHead, Node::Rec(0)]);
    }
    g
}

fn run(ctx: &mut Ctx, times: Vec<Vec<u64>>, kind: usize) -> Res {
    let hd = H::new(&[("a", FieldType::String), ("b", FieldType::Int)]);
    let k = times.len();
    let rows: Vec<Vec<R>> = times
        .iter()
        .enumerate()
        .map(|(s, ts)| {
            ts.iter()
                .enumerate()
                .map(|(i, t)| (*t, vec![V::S(format!("s{}r{}", s, i)), V::I(i as i32)]))
                .collect()
        })
        .collect();
    run_rows(ctx, hd, rows, times, kind)
}

fn run_rows(ctx: &mut Ctx, hd: H, rows: Vec<Vec<R>>, times: Vec<Vec<u64>>, kind: usize) -> Res {
    let k = times.len();
    let g = shape(kind, k);
    ctx.note(|| format!("timestamps of the sources' rows: {}, graph {}", show(&times), show(&g)));
    let log = log();
    let sources: Vec<Box<dyn Source>> = rows.iter().map(|x| VecSource::new(&hd, x)).collect();
    let headers = vec![hd.clone(); k];
    let (b, d) = run_real(&g, &headers, sources, TIMESTAMP_RANGE_ALL, &log);
    ensure!(b.is_ok(), "the graph was refused: {:?}", b);
    ensure!(d.is_ok(), "the run failed: {:?}", d);
    let mut want = Vec::new();
    // model state: what remains of every source
    let mut rest: Vec<&[u64]> = times.iter().map(|t| &t[..]).collect();
    let total = rows.iter().map(|x| x.len()).sum::<usize>();
    for (n, (s, x)) in model_order(&rows).into_iter().enumerate() {
        rest[s] = &rest[s][1..];
        if total <= 40 {
            ctx.step(&(kind, &rest));
        } else {
            ctx.step(&(kind, k, total, n, s, x.0));
        }
        model_row(&g, s, 0, x, &mut want);
    }
    let seen = log.borrow();
    ctx.note(|| format!("observed: {}", show(&*seen)));
    let mut hs = HashMap::new();
    for i in 0..=k {
        hs.insert(i, hd.clone());
    }
    if kind == 0 || kind == 1 {
        // independent of the graph model: order by (time, source, position)
        let got: Vec<u64> = seen
            .iter()
            .filter_map(|e| if let Ev::Row(0, x) = e { Some(x.0) } else { None })
            .collect();
        ensure!(got.windows(2).all(|w| w[0] <= w[1]), "output times decrease: {}", show(&got));
        ensure!(
            got.len() == times.iter().map(|x| x.len()).sum::<usize>(),
            "{} rows of {} came out",
            got.len(),
            times.iter().map(|x| x.len()).sum::<usize>()
        );
    }
    ctx.outcome(&*seen);
    compare(&g, k, &seen, &want, &hs)
}

fn main() {
    mc::main("C01", Level::ModelChecking, |c| {
        let t = c.thorough;
        c.assume("sources deliver their rows in non-decreasing time order, as the property presumes");
        let max = if t { 5 } else { 4 };
        c.scenario(
            "merge-k",
            "1..=3 sources (thorough: 4 with shorter inputs in merge-wide) x every non-decreasing \
             sequence of at most 4 (thorough 5) timestamps of {0,1,2} per source, empty ones \
             included x 3 graph shapes (merge, merge with tee, separate sinks)",
            0,
            move |ctx| {
                let k = 1 + ctx.choose(3);
                let kind = ctx.choose(3);
                let times = (0..k).map(|_| seq(ctx, &[0, 1, 2], max)).collect();
                run(ctx, times, kind)
            },
        );
        let wide = if t { vec![4, 5, 6, 7] } else { vec![4, 5] };
        c.scenario(
            "merge-wide",
            "4, 5 (thorough ..7) sources x at most 2 (5 and more: 1) rows each with timestamps of {3,4}",
            0,
            move |ctx| {
                let k = *ctx.pick(&wide);
                let max = if k == 4 { 2 } else { 1 };
                let times = (0..k).map(|_| seq(ctx, &[3, 4], max)).collect();
                run(ctx, times, 0)
            },
        );
        let m = if t { 13 } else { 10 };
        c.scenario(
            "merge-many",
            "9 and 10 (thorough ..13) sources with one row each, timestamps of {0,1}: every assignment",
            0,
            move |ctx| {
                let k = 9 + ctx.choose(m - 8);
                let times = (0..k).map(|_| vec![ctx.choose(2) as u64]).collect();
                run(ctx, times, 0)
            },
        );
        let max = if t { 5 } else { 4 };
        c.scenario(
            "equal-rows",
            "1 and 2 sources of at most 4 (thorough 5) rows, 3 of at most 2: times of {0,1}, values of two, so that rows are equal in all \
             they hold to the one before, to one further back or to one of another source; rows of one text, of one number, of one text or nothing and of no columns; 3 graph shapes",
            0,
            move |ctx| {
                let k = 1 + ctx.choose(3);
                let kind = ctx.choose(3);
                let what = ctx.choose(4);
                let hd = match what {
                    0 | 3 => H::new(&[("a", FieldType::String)]),
                    1 => H::new(&[("a", FieldType::Long)]),
                    _ => H::new(&[]),
                };
                let times: Vec<Vec<u64>> = (0..k).map(|_| seq(ctx, &[0, 1], if k == 3 { 2 } else { max })).collect();
                let rows = times
                    .iter()
                    .map(|ts| {
                        ts.iter()
                            .map(|t| {
                                let vs = match what {
                                    0 => vec![V::S(["x", ""][ctx.choose(2)].to_string())],
                                    1 => vec![V::L(ctx.choose(2) as i64)],
                                    3 => vec![[V::S("x".to_string()), V::N][ctx.choose(2)].clone()],
                                    _ => vec![],
                                };
                                (*t, vs)
                            })
                            .collect()
                    })
                    .collect();
                run_rows(ctx, hd, rows, times, kind)
            },
        );
        let max = if t { 4 } else { 3 };
        c.scenario(
            "extreme-times",
            "2 sources x every non-decreasing sequence of at most 3 (thorough 4) timestamps of \
             {0, 1, 2^31, 2^32, 2^63-1, 2^63, 2^64-2, 2^64-1}",
            0,
            move |ctx| {
                let dom = [0, 1, 1 << 31, 1 << 32, (1 << 63) - 1, 1 << 63, u64::MAX - 1, u64::MAX];
                let times = (0..2).map(|_| seq(ctx, &dom, max)).collect();
                run(ctx, times, 0)
            },
        );
        // one list per source: position i of n in pattern p
        fn times(k: usize, n: usize, p: usize) -> Vec<Vec<u64>> {
            (0..k)
                .map(|s| {
                    (0..n)
                        .map(|i| match p {
                            0 => 7,
                            1 => (i * k + (k - 1 - s)) as u64,
                            2 => (((k - s) * n + i) / 3) as u64,
                            3 => (i / 100 * (s + 1)) as u64,
                            _ => ((i * (s % 3 + 1)) / 2) as u64,
                        })
                        .collect()
                })
                .collect()
        }
        c.scenario(
            "long",
            "2 and 3 sources of 255..=257, 1000, 1023..=1025, 4095..=4097, 10000, 65535..=65537, 100001 (thorough \
             also 2 sources of 300000 and 1100000) rows each, times in 5 patterns (all equal, alternating, one source after the \
             other, runs of 100, growing at different speeds), and 1100000 rows in one source",
            0,
            move |ctx| {
                let mut sizes = vec![
                    255usize, 256, 257, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 10000, 65535, 65536, 65537, 100001,
                ];
                if t {
                    sizes.extend(&[300000, 1100000, 0]);
                } else {
                    sizes.push(0);
                }
                let n = *ctx.pick(&sizes);
                if n == 0 {
                    return run(ctx, times(1, 1100000, 4), 0);
                }
                let k = if n > 200000 { 2 } else { 2 + ctx.choose(2) };
                let p = ctx.choose(5);
                run(ctx, times(k, n, p), 0)
            },
        );
        c.scenario(
            "many-sources",
            "20, 26, 31..=33, 63..=65, 100, 127..=129, 255..=257, 300, 1000 and 1025 sources of 1..=3 rows, times in 5 \
             patterns, 3 graph shapes",
            0,
            move |ctx| {
                let k = *ctx.pick(&[20usize, 26, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 1000, 1025]);
                let n = 1 + ctx.choose(3);
                let p = ctx.choose(5);
                let kind = ctx.choose(3);
                run(ctx, times(k, n, p), kind)
            },
        );
    });
}
