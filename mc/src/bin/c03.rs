//! C03: headers describe the rows; mismatched merges are refused up front.
use chopper::chopper::chopper::Source;
use chopper::chopper::types::{FieldType, TIMESTAMP_RANGE_ALL};
use mc::graph::*;
use mc::kit::*;
use mc::*;

fn headers() -> Vec<H> {
    use FieldType::*;
    vec![
        H::new(&[("a", String), ("b", Int)]),
        H::new(&[("b", Int), ("a", String)]),
        H::new(&[("a", String)]),
        H::new(&[("a", String), ("b", Long)]),
        H::new(&[("a", String), ("b", Int), ("c", Int)]),
        H::new(&[]),
    ]
}

fn row_for(h: &H, s: usize, i: usize) -> R {
    (
        i as u64,
        h.types
            .iter()
            .map(|t| match t {
                FieldType::Int => V::I(i as i32),
                FieldType::Long => V::L(i as i64),
                FieldType::Float => V::F((i as f32 + 0.5).to_bits()),
                FieldType::Char => V::Char(65 + i as u16),
                FieldType::Byte => V::Byte(i as u8),
                _ => V::S(format!("{}{}", s, i)),
            })
            .collect(),
    )
}

fn run(ctx: &mut Ctx, g: Graph, hs: Vec<H>) -> Res {
    let rows: Vec<Vec<R>> = hs
        .iter()
        .enumerate()
        .map(|(s, h)| (0..2).map(|i| row_for(h, s, i)).collect())
        .collect();
    ctx.note(|| format!("graph {}, headers {}", show(&g), show(&hs)));
    let log = log();
    let sources: Vec<Box<dyn Source>> =
        hs.iter().zip(&rows).map(|(h, x)| VecSource::new(h, x)).collect();
    let (b, d) = run_real(&g, &hs, sources, TIMESTAMP_RANGE_ALL, &log);
    let seen = log.borrow();
    ctx.note(|| format!("construction {:?}, run {:?}, observed {}", b, d, show(&*seen)));
    ctx.outcome(&(b.is_ok(), &*seen));
    match model_headers(&g, &hs) {
        Err(()) => {
            ctx.step(&(&g, &hs, "refused"));
            ensure!(b.is_err(), "a merge of different headers was accepted");
            ensure!(
                !seen.iter().any(|e| matches!(e, Ev::Row(..))),
                "rows were delivered although the headers do not match"
            );
            Ok(())
        }
        Ok(want_h) => {
            ensure!(b.is_ok(), "a graph with matching headers was refused: {:?}", b);
            ensure!(d.is_ok(), "the run failed: {:?}", d);
            let mut ids: Vec<_> = want_h.iter().collect();
            ids.sort_by_key(|x| x.0);
            for (i, h) in ids {
                ctx.step(&(i, h));
            }
            let mut want = Vec::new();
            for (s, x) in model_order(&rows) {
                model_row(&g, s, 0, x, &mut want);
            }
            for e in &want {
                ctx.step(e);
            }
            compare(&g, hs.len(), &seen, &want, &want_h)
        }
    }
}

/// Header seen by each recorder, or Err if the graph is to be refused: a chain that is missing,
/// that is entered more than once other than by its merge, or whose merge is not fed by precisely
/// the number of inputs it was made for, or by inputs with different headers.
fn any_graph_headers(g: &Graph, headers: &[H]) -> Result<std::collections::HashMap<usize, H>, &'static str> {
    struct S<'a> {
        g: &'a Graph,
        done: Vec<bool>,
        fed: Vec<Vec<H>>,
        seen: std::collections::HashMap<usize, H>,
    }
    fn enter(s: &mut S, chain: usize, m: H, by_merge: bool) -> Result<(), &'static str> {
        let g = s.g;
        if chain >= g.len() {
            return Err("missing chain");
        }
        match g[chain].first() {
            Some(Node::MergeOf(n)) => {
                s.fed[chain].push(m.clone());
                if s.fed[chain].len() > *n {
                    return Err("merge fed by too many");
                }
                if s.fed[chain][0] != m {
                    return Err("different headers");
                }
                if s.fed[chain].len() < *n {
                    return Ok(());
                }
            }
            _ if by_merge => return Err("no merge"),
            _ => {}
        }
        if s.done[chain] {
            return Err("entered twice");
        }
        s.done[chain] = true;
        let mut m = m;
        for n in &g[chain] {
            match n {
                Node::Rec(id) => {
                    s.seen.insert(*id, m.clone());
                }
                Node::Split(ids) => {
                    for i in ids {
                        enter(s, *i, m.clone(), false)?;
                    }
                }
                Node::Merge(t) => enter(s, *t, m.clone(), true)?,
                n => model_header(n, &mut m),
            }
        }
        Ok(())
    }
    let mut s = S { g, done: vec![false; g.len()], fed: vec![Vec::new(); g.len()], seen: Default::default() };
    for (i, x) in headers.iter().enumerate() {
        enter(&mut s, i, x.clone(), false)?;
    }
    for (c, f) in g.iter().zip(&s.fed) {
        if let Some(Node::MergeOf(n)) = c.first() {
            if f.len() < *n {
                return Err("merge fed by too few");
            }
        }
    }
    Ok(s.seen)
}

fn run_any(ctx: &mut Ctx, g: Graph, k: usize) -> Res {
    let h = headers()[0].clone();
    let hs = vec![h.clone(); k];
    let rows: Vec<Vec<R>> = (0..k).map(|s| (0..2).map(|i| row_for(&h, s, i)).collect()).collect();
    ctx.note(|| format!("graph {}, {} inputs", show(&g), k));
    let log = log();
    let sources: Vec<Box<dyn Source>> =
        hs.iter().zip(&rows).map(|(h, x)| VecSource::new(h, x)).collect();
    let (b, d) = run_real(&g, &hs, sources, TIMESTAMP_RANGE_ALL, &log);
    let seen = log.borrow();
    ctx.note(|| format!("construction {:?}, run {:?}, observed {}", b, d, show(&*seen)));
    ctx.outcome(&(b.is_ok(), &*seen));
    match any_graph_headers(&g, &hs) {
        Err(why) => {
            ctx.step(&(&g, k, why));
            ensure!(b.is_err(), "a graph was accepted that is to be refused: {}", why);
            ensure!(
                !seen.iter().any(|e| matches!(e, Ev::Row(..))),
                "rows were delivered although the graph was refused"
            );
            Ok(())
        }
        Ok(want_h) => {
            ensure!(b.is_ok(), "a proper graph was refused: {:?}", b);
            ensure!(d.is_ok(), "the run failed: {:?}", d);
            ctx.step(&(&g, k));
            let mut want = Vec::new();
            for (s, x) in model_order(&rows) {
                model_row(&g, s, 0, x, &mut want);
            }
            compare(&g, k, &seen, &want, &want_h)
        }
    }
}

/// `n` chains with `budget` nodes in all, each chain of at most `max` and followed by a recorder
/// unless it is empty and the second choice is so.
fn any_graph(ctx: &mut Ctx, n: usize, budget: usize, max: usize) -> Graph {
    let mut nodes = vec![Node::Rename("z".to_string()), Node::MergeOf(1), Node::MergeOf(2)];
    for a in 0..n + 1 {
        nodes.push(Node::Merge(a));
        nodes.push(Node::Split(vec![a]));
        for b in 0..n {
            if a < n {
                nodes.push(Node::Split(vec![a, b]));
            }
        }
    }
    let mut left = budget;
    (0..n)
        .map(|i| {
            let len = ctx.choose(max.min(left) + 1);
            left -= len;
            let mut c: Vec<Node> = (0..len).map(|_| ctx.pick(&nodes).clone()).collect();
            if len > 0 || ctx.choose(2) == 0 {
                c.push(Node::Rec(i));
            }
            c
        })
        .collect()
}

fn changes() -> Vec<Node> {
    vec![
        Node::Rename("x".to_string()),
        Node::Rename("b".to_string()),
        Node::AddCol("n".to_string(), FieldType::Int),
        Node::AddCol("n".to_string(), FieldType::String),
        Node::DelCol(0),
        Node::DelCol(1),
        Node::Retype,
    ]
}

fn program(ctx: &mut Ctx, max: usize) -> Vec<Node> {
    let a = changes();
    let n = ctx.choose(max + 1);
    (0..n).map(|_| ctx.pick(&a).clone()).collect()
}

fn main() {
    mc::main("C03", Level::ModelChecking, |c| {
        let t = c.thorough;
        let max = if t { 2 } else { 1 };
        c.scenario(
            "merge-headers",
            "2 sources x 6 headers each x at most 2 and 1 (thorough 2 and 2) header changes each before \
             the merge x at most 1 after it",
            0,
            move |ctx| {
                let hs = headers();
                let a = ctx.pick(&hs).clone();
                let b = ctx.pick(&hs).clone();
                let mut c0 = program(ctx, 2);
                c0.extend(vec![Node::Merge(2), Node::Rec(0)]);
                let mut c1 = program(ctx, max);
                c1.extend(vec![Node::Merge(2), Node::Rec(1)]);
                let mut c2 = vec![Node::MergeHead, Node::Rec(2)];
                c2.extend(program(ctx, 1));
                c2.push(Node::Rec(3));
                run(ctx, vec![c0, c1, c2], vec![a, b])
            },
        );
        c.scenario(
            "merge-3",
            "3 and 4 sources with every choice of 6 headers each, merged directly",
            0,
            move |ctx| {
                let hs = headers();
                let k = 3 + ctx.choose(2);
                let v: Vec<H> = (0..k).map(|_| ctx.pick(&hs).clone()).collect();
                let mut g: Graph =
                    (0..k).map(|i| vec![Node::Merge(k), Node::Rec(i)]).collect();
                g.push(vec![Node::MergeHead, Node::Rec(k)]);
                run(ctx, g, v)
            },
        );
        c.scenario(
            "split-headers",
            "1 source x 6 headers, at most 1 change before a split, at most 2 in each branch and 1 \
             after the split, branches merged again or not, recording sinks everywhere",
            0,
            move |ctx| {
                let hs = headers();
                let a = ctx.pick(&hs).clone();
                let mut c0 = program(ctx, 1);
                c0.push(Node::Split(vec![1, 2]));
                c0.push(Node::Rec(0));
                c0.extend(program(ctx, max - 1));
                c0.push(Node::Rec(10));
                let mut c1 = program(ctx, 2);
                c1.push(Node::Rec(1));
                let mut c2 = program(ctx, 2);
                c2.push(Node::Rec(2));
                let mut g = vec![c0, c1, c2];
                if ctx.flag() {
                    g[1].push(Node::Merge(3));
                    g[2].push(Node::Merge(3));
                    g.push(vec![Node::MergeHead, Node::Rec(3)]);
                }
                run(ctx, g, vec![a])
            },
        );
        c.scenario(
            "merge-target-position",
            "merges whose target chain id is lower or higher than its feeders' and merges from within a \
             split, over 6 x 6 headers",
            0,
            move |ctx| {
                let hs = headers();
                let a = ctx.pick(&hs).clone();
                let b = ctx.pick(&hs).clone();
                let g: Graph = match ctx.choose(3) {
                    // branch of source 0 and source 1 merge
                    0 => vec![
                        vec![Node::Split(vec![2, 3]), Node::Rec(0)],
                        vec![Node::Merge(4), Node::Rec(1)],
                        vec![Node::Merge(4), Node::Rec(2)],
                        vec![Node::DelCol(0), Node::Rec(3)],
                        vec![Node::MergeHead, Node::Rec(4)],
                    ],
                    // chained merges
                    1 => vec![
                        vec![Node::Merge(3), Node::Rec(0)],
                        vec![Node::Rename("a".to_string()), Node::Merge(3), Node::Merge(2)],
                        vec![Node::MergeHead, Node::Rec(2)],
                        vec![Node::MergeHead, Node::Merge(2), Node::Rec(3)],
                    ],
                    // the merge chain splits
                    _ => vec![
                        vec![Node::Merge(2), Node::DelCol(0), Node::Rec(0)],
                        vec![Node::Merge(2), Node::Rec(1)],
                        vec![Node::MergeHead, Node::Split(vec![3, 4]), Node::Rec(2)],
                        vec![Node::DelCol(0), Node::Rec(3)],
                        vec![Node::AddCol("n".to_string(), FieldType::Int), Node::Rec(4)],
                    ],
                };
                run(ctx, g, vec![a, b])
            },
        );
        c.scenario(
            "too-few-chains",
            "1..=4 inputs x 0..=5 chains, plain sinks or merges",
            0,
            move |ctx| {
                let k = 1 + ctx.choose(4);
                let n = ctx.choose(6);
                let h = headers()[0].clone();
                let g: Graph = (0..n).map(|i| vec![Node::Rec(i)]).collect();
                ctx.note(|| format!("{} inputs, {} chains", k, n));
                let log = log();
                let rows: Vec<R> = vec![row_for(&h, 0, 0)];
                let sources: Vec<Box<dyn Source>> =
                    (0..k).map(|_| VecSource::new(&h, &rows)).collect();
                let (b, d) = run_real(&g, &vec![h.clone(); k], sources, TIMESTAMP_RANGE_ALL, &log);
                ctx.step(&(k, n));
                ctx.outcome(&b.is_ok());
                if n < k {
                    ensure!(b.is_err(), "{} inputs were accepted with {} chains", k, n);
                    ensure!(log.borrow().is_empty(), "sinks were used in a refused graph");
                } else {
                    ensure!(b.is_ok() && d.is_ok(), "{:?} {:?}", b, d);
                }
                Ok(())
            },
        );
        c.scenario(
            "many-columns",
            "2 sources of 1, 2, 7..=9, 15..=17, 31..=33, 63..=65, 127..=129, 255..=257, 1000, 1025 and 5000 columns, merged: \
             equal, or the second different in the name, the case of the name, or the type of one column (first, middle, last, \
             every one up to 65), or in one column more",
            0,
            move |ctx| {
                let n = *ctx.pick(&[
                    1usize, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1025, 5000,
                ]);
                let a = H {
                    names: (0..n).map(|i| format!("col{}", i)).collect(),
                    types: (0..n).map(|i| if i % 3 == 0 { FieldType::String } else { FieldType::Int }).collect(),
                };
                let mut b = a.clone();
                let d = ctx.choose(6);
                if d > 1 {
                    let at = if n <= 65 { ctx.choose(n) } else { [0, n / 2, n - 2, n - 1][ctx.choose(4)] };
                    match d {
                        2 => b.names[at] = format!("cow{}", at),
                        3 => b.names[at] = format!("Col{}", at),
                        4 => b.types[at] = FieldType::Long,
                        _ => {
                            b.names.remove(at);
                            b.types.remove(at);
                        }
                    }
                } else if d == 1 {
                    b.names.push("more".to_string());
                    b.types.push(FieldType::Int);
                }
                let g = vec![
                    vec![Node::Merge(2), Node::Rec(0)],
                    vec![Node::Merge(2), Node::Rec(1)],
                    vec![Node::MergeHead, Node::Rec(2)],
                ];
                let v = if ctx.flag() { vec![b, a] } else { vec![a, b] };
                run(ctx, g, v)
            },
        );
        c.scenario(
            "types",
            "2 sources merged, of 1..=3 columns, of which one has each pair of the 10 types: refused exactly if they differ",
            0,
            move |ctx| {
                use FieldType::*;
                const TYPES: [FieldType; 10] = [Boolean, Byte, ByteBuf, Char, Double, Float, Int, Long, Short, String];
                let n = 1 + ctx.choose(3);
                let at = ctx.choose(n);
                let h = |t: FieldType| H {
                    names: (0..n).map(|i| format!("c{}", i)).collect(),
                    types: (0..n).map(|i| if i == at { t } else { Int }).collect(),
                };
                let (a, b) = (h(*ctx.pick(&TYPES)), h(*ctx.pick(&TYPES)));
                let g = vec![
                    vec![Node::Merge(2), Node::Rec(0)],
                    vec![Node::Merge(2), Node::Rec(1)],
                    vec![Node::MergeHead, Node::Rec(2)],
                ];
                run(ctx, g, vec![a, b])
            },
        );
        c.scenario(
            "long-names",
            "2 sources with a column name of 15..=17, 31..=33, 63..=65, 127..=129, 255..=257, 1023..=1025, 65535..=65537 \
             bytes, merged: equal, or different in one byte (first, middle, last), or longer by one",
            0,
            move |ctx| {
                let n = *ctx.pick(&[
                    15usize, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 65535, 65536, 65537,
                ]);
                let name = |at: usize, n: usize| -> String { (0..n).map(|i| if i == at { 'X' } else { 'x' }).collect() };
                let mk = |x: String| H { names: vec!["a".into(), x], types: vec![FieldType::String, FieldType::Int] };
                let b = match ctx.choose(5) {
                    0 => name(n + 1, n),
                    1 => name(0, n),
                    2 => name(n / 2, n),
                    3 => name(n - 1, n),
                    _ => name(n + 2, n + 1),
                };
                let g = vec![
                    vec![Node::Merge(2), Node::Rec(0)],
                    vec![Node::Merge(2), Node::Rec(1)],
                    vec![Node::MergeHead, Node::Rec(2)],
                ];
                run(ctx, g, vec![mk(name(n + 2, n)), mk(b)])
            },
        );
        c.scenario(
            "names-with-separators",
            "2 sources merged, each with 1 or 2 text columns named of {nothing, a, b, a separator alone, and before, after or between a and b}, for each of 13 \
             separators (`,` `, ` `;` `|` `:` `::` `/` `\"` space, tab, line end, NUL, unit separator): accepted only if the lists of names are equal",
            0,
            move |ctx| {
                let sep = *ctx.pick(&[",", ", ", ";", "|", ":", "::", "/", "\"", " ", "\t", "\n", "\0", "\u{1f}"]);
                let names = ["".to_string(), "a".into(), "b".into(), sep.into(), format!("a{}", sep), format!("{}b", sep), format!("a{}b", sep)];
                let mk = |ctx: &mut Ctx| {
                    let n = 1 + ctx.choose(2);
                    let names: Vec<String> = (0..n).map(|_| ctx.pick(&names).clone()).collect();
                    H { types: vec![FieldType::String; n], names }
                };
                let v = vec![mk(ctx), mk(ctx)];
                let g = vec![
                    vec![Node::Merge(2), Node::Rec(0)],
                    vec![Node::Merge(2), Node::Rec(1)],
                    vec![Node::MergeHead, Node::Rec(2)],
                ];
                run(ctx, g, v)
            },
        );
        c.scenario(
            "many-sources",
            "5, 8, 9, 16, 17, 32, 33, 64, 65, 100, 128, 129, 256, 257, 300 and 1000 sources merged, one of them (each up to 100, else first, \
             second, middle, last) or none with another type, another name, or a column more",
            0,
            move |ctx| {
                let k = *ctx.pick(&[5usize, 8, 9, 16, 17, 32, 33, 64, 65, 100, 128, 129, 256, 257, 300, 1000]);
                let hs = headers();
                let mut v = vec![hs[0].clone(); k];
                let d = ctx.choose(4);
                if d > 0 {
                    let at = if k <= 100 { ctx.choose(k) } else { [0, 1, k / 2, k - 1][ctx.choose(4)] };
                    v[at] = match d {
                        1 => hs[3].clone(),
                        2 => hs[4].clone(),
                        _ => H::new(&[("a", FieldType::String), ("B", FieldType::Int)]),
                    };
                }
                let mut g: Graph = (0..k).map(|i| vec![Node::Merge(k), Node::Rec(i)]).collect();
                g.push(vec![Node::MergeHead, Node::Rec(k)]);
                run(ctx, g, v)
            },
        );
        c.scenario("merge-of-nothing", "a merge of 0..=3 inputs is made or, for 0, refused", 0, move |ctx| {
            let n = ctx.choose(4);
            let r = chopper::driver::merge_join::MergeJoin::new(n);
            ctx.step(&n);
            ctx.outcome(&r.is_ok());
            ensure!(r.is_ok() == (n > 0), "a merge of {} inputs: {}", n, if r.is_ok() { "made" } else { "refused" });
            Ok(())
        });
        c.scenario(
            "any-graph",
            "every graph of 1..=3 chains with at most 5 (thorough 6; of 3 chains 4 and 5) nodes in all, at most 3 (of 3 chains 2) of them in a chain, of a \
             header change, merges made for 1 and 2 inputs, sending to the merge of any chain or of a missing one, and splitting into any one or \
             two chains (also the same twice, itself or a missing one), and a sink at the end of each chain unless it is empty, with 1 and 2 \
             inputs: refused, before any row, if a chain is missing, entered other than once or by its merge, or if its merge is fed by fewer or \
             more inputs than it was made for, or by different headers; else each sink gets its header and rows",
            0,
            move |ctx| {
                let n = 1 + ctx.choose(3);
                let k = 1 + ctx.choose(n.min(2));
                let (budget, max) = if n < 3 { (if t { 6 } else { 5 }, 3) } else { (if t { 5 } else { 4 }, 2) };
                let g = any_graph(ctx, n, budget, max);
                run_any(ctx, g, k)
            },
        );
        c.scenario(
            "deletions",
            "headers of 1..=6 columns of different types, every sequence of up to 3 (thorough 4) columns deleted by the \
             crate's filter, before, in or after a split, or in one of two inputs of a merge",
            0,
            move |ctx| {
                use FieldType::*;
                let cols = [("a", Int), ("b", Long), ("c", String), ("d", Float), ("e", Char), ("f", Byte)];
                let k = 1 + ctx.choose(6);
                let head = H::new(&cols[..k]);
                let place = ctx.choose(4);
                let n = 1 + ctx.choose(if t { 4 } else { 3 });
                if n > k {
                    return Ok(());
                }
                let mut del = Vec::new();
                for i in 0..n {
                    del.push(Node::DelCol(ctx.choose(k - i)));
                    del.push(Node::Rec(10 + i));
                }
                let g: Graph = match place {
                    0 => vec![del],
                    1 => vec![
                        [del, vec![Node::Split(vec![1, 2])]].concat(),
                        vec![Node::Rec(1)],
                        vec![Node::DelCol(0), Node::Rec(2)],
                    ],
                    2 => vec![vec![Node::Split(vec![1, 2]), Node::Rec(0)], del, vec![Node::Rec(2)]],
                    _ => {
                        // the columns are the same again only if the other input has them deleted too
                        let plain: Vec<Node> = del.iter().filter(|n| matches!(n, Node::DelCol(_))).cloned().collect();
                        let other = match ctx.choose(3) {
                            0 => plain,
                            1 => plain[..n - 1].to_vec(),
                            _ => plain.into_iter().rev().collect(),
                        };
                        vec![
                            [del, vec![Node::Merge(2)]].concat(),
                            [other, vec![Node::Merge(2)]].concat(),
                            vec![Node::MergeHead, Node::Rec(2)],
                        ]
                    }
                };
                let k = if place == 3 { 2 } else { 1 };
                run(ctx, g, vec![head; k])
            },
        );
    });
}
