//! C02: rows visit exactly the chains and nodes the graph says, in isolation.
use std::collections::HashMap;

use chopper::chopper::chopper::Source;
use chopper::chopper::types::{FieldType, TIMESTAMP_RANGE_ALL};
use mc::graph::*;
use mc::kit::*;
use mc::*;

fn hd() -> H {
    H::new(&[("a", FieldType::String), ("b", FieldType::Int)])
}

fn all_recs(g: &Graph) -> HashMap<usize, H> {
    let mut m = HashMap::new();
    for c in g {
        for n in c {
            if let Node::Rec(i) = n {
                m.insert(*i, hd());
            }
        }
    }
    m
}

fn run(ctx: &mut Ctx, g: Graph, times: &[Vec<u64>]) -> Res {
    let hs = all_recs(&g);
    run_with(ctx, g, times, &hd(), hs)
}

/// Rows of the first columns of hd(), as many as hd has.
fn run_with(ctx: &mut Ctx, g: Graph, times: &[Vec<u64>], hd: &H, hs: HashMap<usize, H>) -> Res {
    let rows: Vec<Vec<R>> = times
        .iter()
        .enumerate()
        .map(|(s, ts)| {
            ts.iter()
                .enumerate()
                .map(|(i, t)| {
                    let mut vs = vec![V::S(format!("{}{}", s, i)), V::I(i as i32)];
                    vs.truncate(hd.names.len());
                    (*t, vs)
                })
                .collect()
        })
        .collect();
    ctx.note(|| format!("graph {}, header {:?}, timestamps {}", show(&g), hd.names, show(&times)));
    let log = log();
    let sources: Vec<Box<dyn Source>> = rows.iter().map(|x| VecSource::new(hd, x)).collect();
    let headers = vec![hd.clone(); rows.len()];
    let (b, d) = run_real(&g, &headers, sources, TIMESTAMP_RANGE_ALL, &log);
    ensure!(b.is_ok(), "the graph was refused: {:?}", b);
    ensure!(d.is_ok(), "the run failed: {:?}", d);
    let mut want = Vec::new();
    let mut left = rows.iter().map(|r| r.len()).sum::<usize>();
    let gh = hash_of(&g);
    for (s, x) in model_order(&rows) {
        let n = want.len();
        left -= 1;
        model_row(&g, s, 0, x, &mut want);
        for e in &want[n..] {
            ctx.step(&(gh, left, e));
        }
        ctx.step(&(gh, left));
    }
    let seen = log.borrow();
    ctx.note(|| format!("observed: {}", show(&*seen)));
    ctx.outcome(&*seen);
    compare(&g, rows.len(), &seen, &want, &hs)
}

/// Nodes from the alphabet, at most max; a Split occurs at most once.
fn program(ctx: &mut Ctx, alphabet: &[Node], max: usize, tag: &mut u8) -> Vec<Node> {
    let n = ctx.choose(max + 1);
    let mut v: Vec<Node> = Vec::new();
    for _ in 0..n {
        let mut x = ctx.pick(alphabet).clone();
        if matches!(x, Node::Split(_)) && v.contains(&x) {
            x = Node::Tag('-');
        }
        match &mut x {
            Node::Tag(c) | Node::Replace(c) => {
                *c = *tag as char;
                *tag += 1
            }
            _ => {}
        }
        v.push(x);
    }
    v
}

/// Give every chain its recorder at the end and drop what nothing refers to.
fn finish(g: &mut Graph) {
    let n = g.len();
    for (i, c) in g.iter_mut().enumerate() {
        c.push(Node::Rec(i));
    }
    // chains after the sources that are referred to nowhere are left empty
    for i in 0..n {
        let used = g.iter().any(|c| {
            c.iter().any(|x| match x {
                Node::Split(ids) => ids.contains(&i),
                Node::Merge(t) => *t == i,
                _ => false,
            })
        });
        if !used && matches!(g[i][0], Node::MergeHead) {
            g[i] = vec![Node::Tag('z')];
        }
    }
}

fn main() {
    mc::main("C02", Level::ModelChecking, |c| {
        let t = c.thorough;
        let (len_b, len_c) = if t { (2, 2) } else { (2, 1) };
        c.scenario(
            "split-merge-tee",
            "source chain of at most 3 nodes of {drop, change, replace, to 2 rows, to 3 rows of different times, split to \
             2 branches, merge}, branches of at most 2 and 1 (thorough 2) nodes of {drop, change, to \
             2 rows, merge}, merge chain with at most 1 of {drop, change, to 2 rows}; every chain ends \
             in a recording sink; rows with timestamps 0,1,2",
            0,
            move |ctx| {
                let mut tag = b'p';
                let a = [
                    Node::DropOdd,
                    Node::Tag('?'),
                    Node::Replace('?'),
                    Node::Dup(2),
                    Node::Spread(3),
                    Node::Split(vec![1, 2]),
                    Node::Merge(3),
                ];
                let b = [Node::DropOdd, Node::Tag('?'), Node::Dup(2), Node::Merge(3)];
                let c0 = program(ctx, &a, 3, &mut tag);
                let split = c0.iter().any(|n| matches!(n, Node::Split(_)));
                let (c1, c2) = if split {
                    (program(ctx, &b, len_b, &mut tag), program(ctx, &b, len_c, &mut tag))
                } else {
                    (vec![], vec![])
                };
                let merge = [&c0, &c1, &c2].iter().any(|c| c.contains(&Node::Merge(3)));
                let mut c3 = vec![Node::MergeHead];
                if merge {
                    c3.extend(program(ctx, &b[..3], 1, &mut tag));
                }
                let mut g = vec![c0, c1, c2, c3];
                finish(&mut g);
                run(ctx, g, &[vec![0, 1, 2]])
            },
        );
        c.scenario(
            "one-branch",
            "a split to 1 branch, the branch with 1 or 2 branches itself or none: up to 1 (thorough 2) nodes of {drop, change, to 2 rows, drop all, merge} before and after each \
             split and in each branch; a merge chain with at most 1 of {drop, change, to 2 rows}",
            0,
            move |ctx| {
                let mut tag = b'p';
                let b = [Node::DropOdd, Node::Tag('?'), Node::Dup(2), Node::DropAll, Node::Merge(4)];
                let n = if t { 2 } else { 1 };
                let mut c0 = program(ctx, &b, n, &mut tag);
                c0.push(Node::Split(vec![1]));
                c0.extend(program(ctx, &b, n, &mut tag));
                let mut c1 = program(ctx, &b, n, &mut tag);
                let below = ctx.choose(3);
                if below > 0 {
                    c1.push(Node::Split(if below == 1 { vec![2] } else { vec![3, 2] }));
                    c1.extend(program(ctx, &b, 1, &mut tag));
                }
                let c2 = if below > 0 { program(ctx, &b, 1, &mut tag) } else { vec![] };
                let c3 = if below > 1 { program(ctx, &b[1..3], 1, &mut tag) } else { vec![] };
                let merge = [&c0, &c1, &c2, &c3].iter().any(|c| c.contains(&Node::Merge(4)));
                let mut c4 = vec![Node::MergeHead];
                if merge {
                    c4.extend(program(ctx, &b[..3], 1, &mut tag));
                }
                let mut g = vec![c0, c1, c2, c3, c4];
                finish(&mut g);
                run(ctx, g, &[vec![0, 1, 2]])
            },
        );
        c.scenario(
            "no-columns",
            "headers of no, 1 and 2 columns; 1 source or 2; up to 2 nodes of {drop, change, to 2 rows of one or different times, delete the first column, replace} before a split or \
             merge, at most 1 in each of the 2 branches and after the merge: rows that lose all they hold go on as rows",
            0,
            move |ctx| {
                let mut tag = b'p';
                let two_cols = hd();
                let hd = [H::new(&[]), H::new(&[("a", FieldType::String)]), two_cols][ctx.choose(3)].clone();
                let b = [Node::DropOdd, Node::Tag('?'), Node::Dup(2), Node::Spread(2), Node::Replace('?'), Node::DelCol(0)];
                let two = ctx.flag();
                let n = if t { 3 } else { 2 };
                let mut c0 = program(ctx, &b, n, &mut tag);
                let mut g = if two {
                    // the merged headers are one
                    let dels = c0.iter().filter(|n| matches!(n, Node::DelCol(_))).count();
                    let mut c1 = vec![Node::DelCol(0); dels];
                    c1.extend(program(ctx, &b[..4], 1, &mut tag));
                    c0.push(Node::Merge(2));
                    c1.push(Node::Merge(2));
                    vec![c0, c1, vec![Node::MergeHead]]
                } else {
                    c0.push(Node::Split(vec![1, 2]));
                    let mut c1 = program(ctx, &b, 1, &mut tag);
                    let mut c2 = program(ctx, &b, 1, &mut tag);
                    let same = c1.contains(&b[5]) == c2.contains(&b[5]);
                    if same && ctx.flag() {
                        c1.push(Node::Merge(3));
                        c2.push(Node::Merge(3));
                        vec![c0, c1, c2, vec![Node::MergeHead]]
                    } else {
                        vec![c0, c1, c2, vec![]]
                    }
                };
                let last = g.len() - 1;
                if !g[last].is_empty() {
                    g[last].extend(program(ctx, &b, 1, &mut tag));
                }
                finish(&mut g);
                let k = if two { 2 } else { 1 };
                let hs = match model_headers(&g, &vec![hd.clone(); k]) {
                    Ok(x) => x,
                    Err(()) => return Ok(()),
                };
                let times = [vec![0, 1, 2], vec![0, 1, 1]];
                run_with(ctx, g, &times[..k], &hd, hs)
            },
        );
        c.scenario(
            "two-sources",
            "2 sources (timestamps 0,1,2 and 0,1,1), chains of at most 2 nodes of {drop, change, to 2 \
             rows of different times, split (first only), merge}, branches and merge chain with at most 1 node",
            0,
            move |ctx| {
                let mut tag = b'p';
                let a = [
                    Node::DropOdd,
                    Node::Tag('?'),
                    Node::Spread(2),
                    Node::Merge(4),
                    Node::Split(vec![2, 3]),
                ];
                let c0 = program(ctx, &a, 2, &mut tag);
                let c1 = program(ctx, &a[..4], 2, &mut tag);
                let split = c0.iter().any(|n| matches!(n, Node::Split(_)));
                let (c2, c3) = if split {
                    (program(ctx, &a[..4], 1, &mut tag), program(ctx, &a[..4], 1, &mut tag))
                } else {
                    (vec![], vec![])
                };
                let merge = [&c0, &c1, &c2, &c3].iter().any(|c| c.contains(&Node::Merge(4)));
                let mut c4 = vec![Node::MergeHead];
                if merge {
                    c4.extend(program(ctx, &a[..3], 1, &mut tag));
                }
                let mut g = vec![c0, c1, c2, c3, c4];
                finish(&mut g);
                run(ctx, g, &[vec![0, 1, 2], vec![0, 1, 1]])
            },
        );
        c.scenario(
            "nested",
            "a 2- or 3-way split whose first branch splits again, with branches of at most 1 node of \
             {drop, change, to 2 rows of different times, drop all, merge} everywhere, and a merge chain that splits or \
             merges on into a second merge chain",
            0,
            move |ctx| {
                let mut tag = b'p';
                let m = 6;
                let b = [
                    Node::DropOdd,
                    Node::Tag('?'),
                    Node::Spread(2),
                    Node::DropAll,
                    Node::Merge(m),
                ];
                let three = ctx.flag();
                let ids = if three { vec![1, 2, 3] } else { vec![1, 2] };
                let mut c0 = program(ctx, &b[..3], 1, &mut tag);
                c0.push(Node::Split(ids));
                let mut c1 = program(ctx, &b[..3], 1, &mut tag);
                c1.push(Node::Split(vec![4, 5]));
                c1.extend(program(ctx, &b, 1, &mut tag));
                let c2 = program(ctx, &b, 1, &mut tag);
                let c3 = if three { vec![Node::Tag('3'), Node::Merge(m)] } else { vec![] };
                let c4 = program(ctx, &b, 1, &mut tag);
                let c5 = program(ctx, &b, if t { 2 } else { 1 }, &mut tag);
                let merge = [&c1, &c2, &c3, &c4, &c5].iter().any(|c| c.contains(&Node::Merge(m)));
                let mut c6 = vec![Node::MergeHead];
                let mut c7 = vec![Node::MergeHead];
                if merge {
                    match ctx.choose(3) {
                        0 => {}
                        1 => {
                            c6.push(Node::Dup(2));
                            c6.push(Node::Merge(7));
                        }
                        _ => {
                            c6.push(Node::Tag('6'));
                            c6.push(Node::Merge(7));
                            c6.push(Node::Merge(7));
                            c7.push(Node::Dup(2));
                        }
                    }
                }
                let mut g = vec![c0, c1, c2, c3, c4, c5, c6, c7];
                finish(&mut g);
                run(ctx, g, &[vec![0, 1]])
            },
        );
        c.scenario(
            "ends",
            "a split into 3 branches (in any order) whose chains, like the source's and the merge chain, end otherwise than in a recording \
             sink: in a node that drops, changes, replaces or multiplies rows, in a merge or a split, or are empty; rows with timestamps 0,1,2",
            0,
            move |ctx| {
                let ends: [Vec<Node>; 12] = [
                    vec![],
                    vec![Node::Rec(0)],
                    vec![Node::DropOdd],
                    vec![Node::DropAll],
                    vec![Node::Merge(4)],
                    vec![Node::Rec(0), Node::DropOdd],
                    vec![Node::Rec(0), Node::DropAll],
                    vec![Node::Rec(0), Node::Tag('t')],
                    vec![Node::Rec(0), Node::Replace('r')],
                    vec![Node::Rec(0), Node::Dup(2)],
                    vec![Node::DropOdd, Node::Merge(4)],
                    vec![Node::Rec(0), Node::Split(vec![5, 6])],
                ];
                let ids = [[1, 2, 3], [1, 3, 2], [2, 1, 3], [2, 3, 1], [3, 1, 2], [3, 2, 1]];
                let ids = if t { *ctx.pick(&ids) } else { *ctx.pick(&ids[..2]) };
                let mut c0 = vec![Node::Split(ids.to_vec())];
                c0.extend(ctx.pick(&ends[..10]).clone());
                let mut g = vec![c0];
                for i in 1..4 {
                    // a split below the first branch only: chains belong to one split
                    g.push(ctx.pick(&ends[..if i == 1 { 12 } else { 11 }]).clone());
                }
                let merge = g.iter().any(|c| c.contains(&Node::Merge(4)));
                g.push(vec![Node::MergeHead]);
                if merge {
                    g[4].extend(ctx.pick(&[&ends[0], &ends[1], &ends[5], &ends[9]]).to_vec());
                } else {
                    g[4] = vec![];
                }
                g.push(vec![Node::DropAll]);
                g.push(vec![Node::Rec(6)]);
                for (i, c) in g.iter_mut().enumerate() {
                    for x in c {
                        if let Node::Rec(r) = x {
                            *r = i;
                        }
                    }
                }
                run(ctx, g, &[vec![0, 1, 2]])
            },
        );
        c.scenario(
            "split-into-merges",
            "a split (or a source and a split) to every sequence of 1..=4 (thorough 5) chains of {a plain one, at most once, two that start with a merge, any number of \
             times}, before and after at most 1 node of {drop, change, to 2 rows, merge into either}; merge chains with at most 1 of {drop, change, to 2 rows}",
            0,
            move |ctx| {
                let mut tag = b'p';
                let b = [Node::DropOdd, Node::Tag('?'), Node::Dup(2), Node::Merge(2), Node::Merge(3)];
                let two = ctx.flag();
                let n = ctx.choose(if t { 5 } else { 4 }) + 1;
                let mut ids = Vec::new();
                for _ in 0..n {
                    let plain = if ids.contains(&4) { 0 } else { 1 };
                    ids.push([2, 3, 4][ctx.choose(2 + plain)]);
                }
                let mut c0 = program(ctx, &b, 1, &mut tag);
                c0.push(Node::Split(ids.clone()));
                c0.extend(program(ctx, &b, 1, &mut tag));
                let c1 = if two { vec![Node::Tag('1'), Node::Merge(2)] } else { vec![Node::Tag('z')] };
                let c4 = if ids.contains(&4) { vec![Node::Tag('4'), Node::Merge(3)] } else { vec![] };
                let mut g = vec![c0, c1];
                for m in 2..4 {
                    let feeds = |n: &Node| matches!(n, Node::Merge(x) if *x == m);
                    let k = ids.iter().filter(|i| **i == m).count()
                        + [&g[0], &g[1], &c4].iter().map(|c| c.iter().filter(|n| feeds(n)).count()).sum::<usize>();
                    let mut c = vec![];
                    if k > 0 {
                        c.push(Node::MergeOf(k));
                        c.extend(program(ctx, &b[..3], 1, &mut tag));
                    }
                    g.push(c);
                }
                g.push(c4);
                for (i, c) in g.iter_mut().enumerate() {
                    c.push(Node::Rec(i));
                }
                if two {
                    run(ctx, g, &[vec![0, 1, 2], vec![0, 1, 1]])
                } else {
                    run(ctx, g, &[vec![0, 1, 2]])
                }
            },
        );
        c.scenario(
            "long",
            "255..=257, 1023..=1025, 4096, 65535..=65537 and 100001 rows (and 1100000 through a tee) through 4 graphs: tee, split of 2 \
             with drop and to 2 rows, split merged again, merge chain after a merge, from one source or two",
            0,
            move |ctx| {
                let n = *ctx.pick(&[255u64, 256, 257, 1023, 1024, 1025, 4096, 65535, 65536, 65537, 100001, 1100000]);
                let kind = if n > 1000000 { 0 } else { ctx.choose(4) };
                let two = n < 1000000 && ctx.flag();
                let first = if two { vec![Node::Merge(4), Node::Rec(0)] } else { vec![Node::Tag('-'), Node::Rec(0)] };
                let second = if two { vec![Node::Tag('='), Node::Merge(4), Node::Rec(1)] } else { vec![] };
                let (i, j) = (2, 3);
                let tail = match kind {
                    0 => vec![Node::Rec(10), Node::DropOdd, Node::Rec(11)],
                    1 => vec![Node::Split(vec![i, j]), Node::Rec(10)],
                    2 => vec![Node::Dup(2), Node::Split(vec![i, j]), Node::Rec(10)],
                    _ => vec![Node::Tag('t'), Node::Merge(5), Node::Dup(2), Node::Merge(5), Node::Rec(10)],
                };
                let branch = |x: Node, k: usize| {
                    let mut v = vec![x, Node::Rec(20 + k)];
                    if kind == 2 {
                        v.push(Node::Merge(5));
                    }
                    v
                };
                let (c2, c3) = match kind {
                    1 | 2 => (branch(Node::DropOdd, 2), branch(Node::Dup(2), 3)),
                    _ => (vec![], vec![]),
                };
                let last = vec![Node::MergeHead, Node::Tag('m'), Node::Rec(30)];
                let mut g: Graph = vec![first, second, c2, c3];
                let mut mid = vec![Node::MergeHead];
                if two {
                    mid.extend(tail);
                } else {
                    g[0].extend(tail);
                    g[1] = vec![Node::Tag('u')];
                    mid = vec![Node::Tag('u')];
                }
                g.push(mid);
                g.push(if kind >= 2 { last } else { vec![Node::Tag('u')] });
                let times: Vec<Vec<u64>> = if two {
                    vec![(0..n / 2).map(|x| x / 2).collect(), (0..n - n / 2).map(|x| x / 3).collect()]
                } else {
                    vec![(0..n).map(|x| x / 2).collect()]
                };
                run(ctx, g, &times)
            },
        );
        c.scenario(
            "large-graphs",
            "splits into, merges of, chains of, splits nested, merges chained over, and rows made out of one, each for 9 to \
             513 (9..=17, 31..=33, 63..=65, 127..=129, 255..=257, 511..=513) at once, rows made out of one also for 999..=1001, 1023..=1025, \
             4095..=4097 and 10000; for 1..=3 rows",
            0,
            move |ctx| {
                let n = *ctx.pick(&[
                    9usize, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025,
                    4095, 4096, 4097, 10000,
                ]);
                let rows = 1 + ctx.choose(3) as u64;
                let tag = |i: usize| Node::Tag((b'a' + (i % 26) as u8) as char);
                let mut g: Graph = Vec::new();
                let shape = if n > 513 { 5 } else { ctx.choose(7) };
                match shape {
                    0 => {
                        // split into n
                        g.push(vec![Node::Split((1..=n).collect()), Node::Rec(0)]);
                        for i in 1..=n {
                            g.push(vec![tag(i), Node::Rec(i)]);
                        }
                    }
                    1 => {
                        // split into n, merged again, in the order of the branches
                        g.push(vec![Node::Split((1..=n).collect()), Node::Rec(0)]);
                        for i in 1..=n {
                            g.push(vec![tag(i), Node::Merge(n + 1)]);
                        }
                        g.push(vec![Node::MergeHead, Node::Rec(n + 1)]);
                    }
                    2 => {
                        // a chain of n nodes, some of them sinks
                        let mut v = Vec::new();
                        for i in 0..n {
                            v.push(if i % 7 == 3 { Node::Rec(i) } else { tag(i) });
                        }
                        v.push(Node::Rec(n));
                        g.push(v);
                    }
                    3 => {
                        // splits nested n / 4 deep
                        let d = n / 4 + 1;
                        for i in 0..d {
                            g.push(vec![tag(i), Node::Split(vec![2 * i + 2, 2 * i + 1]), Node::Rec(2 * i)]);
                            g.push(vec![tag(i + 1), Node::Rec(2 * i + 1)]);
                        }
                        g.push(vec![Node::Rec(2 * d)]);
                    }
                    4 => {
                        // n / 4 merge chains, each going on into the next
                        let d = n / 4 + 1;
                        for i in 0..d {
                            let mut v = if i == 0 { vec![] } else { vec![Node::MergeHead] };
                            v.extend(vec![tag(i), Node::Merge(i + 1), Node::Rec(i)]);
                            g.push(v);
                        }
                        g.push(vec![Node::MergeHead, Node::Rec(d)]);
                    }
                    5 => g.push(vec![Node::Dup(n), Node::Rec(0), tag(0), Node::Merge(1), Node::Rec(2)]),
                    _ => {
                        let m = n.min(129);
                        g.push(vec![Node::Dup(m), Node::DropOdd, Node::Rec(0), Node::Dup(m / 4), Node::Split(vec![1])]);
                        g.push(vec![tag(3), Node::Rec(1)]);
                    }
                }
                if g.len() == 1 && g[0].contains(&Node::Merge(1)) {
                    g.push(vec![Node::MergeHead, tag(1), Node::Rec(1)]);
                }
                run(ctx, g, &[(0..rows).collect()])
            },
        );
    });
}
