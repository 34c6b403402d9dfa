//! Processing graphs: one description from which both the real HeaderGraph and the reference
//! model are made.
use std::collections::HashMap;

use chopper::chopper::chopper::{DataSink, HeaderSink, Source};
use chopper::chopper::header_graph::{HeaderChain, HeaderGraph, HeaderNode};
use chopper::chopper::types::{FieldType, FieldValue, Header, Row, TimestampRange};
use chopper::driver::merge_join::MergeJoin;
use chopper::filter::column_filter_delete_col::ColumnFilterDelete;
use chopper::driver::split::Split;
use chopper::error::CliResult;

use crate::kit::*;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Node {
    /// recording sink with this id
    Rec(usize),
    /// drops rows with odd timestamps
    DropOdd,
    /// drops every row
    DropAll,
    /// changes column 0 in place by appending the tag
    Tag(char),
    /// puts a new row in place of the old one
    Replace(char),
    /// turns a row into n rows, tagged a, b, ...
    Dup(usize),
    /// turns a row into n rows of different times, tagged a, b, ..., neither rising nor falling
    Spread(usize),
    /// changes the row's timestamp in place
    Shift(u64),
    /// renames column 0
    Rename(String),
    /// appends a column
    AddCol(String, FieldType),
    /// removes column i, by the crate's filter unless an earlier column is named like it
    DelCol(usize),
    /// changes the type (and values) of column 0 to long
    Retype,
    Split(Vec<usize>),
    Merge(usize),
    MergeHead,
    /// a merge made for this number of inputs
    MergeOf(usize),
}

/// Chains by id; chain i < sources is fed by source i.
pub type Graph = Vec<Vec<Node>>;

struct NodeSink {
    node: Node,
}

/// How much later than the row it is made from the k-th of n rows is.
fn spread(k: usize, n: usize) -> u64 {
    ((k + 1) * 3 % (n + 1)) as u64
}

fn append(x: &mut FieldValue, c: char) {
    if let FieldValue::String(s) = x {
        s.push(c)
    }
}

impl HeaderSink for NodeSink {
    fn process_header(self: Box<Self>, header: &mut Header) -> CliResult<Box<dyn DataSink>> {
        if let Node::DelCol(i) = &self.node {
            // the crate's own filter, where it removes that column
            let at = |n: &String| header.field_names().iter().position(|x| x.eq_ignore_ascii_case(n));
            if let Some(name) = header.field_names().get(*i).filter(|n| at(n) == Some(*i)).cloned() {
                return ColumnFilterDelete::new(&name).process_header(header);
            }
        }
        let mut m = h(header);
        model_header(&self.node, &mut m);
        header.update_field_names(m.names);
        header.update_field_types(m.types);
        Ok(self.boxed())
    }
}

impl DataSink for NodeSink {
    fn write_row(&mut self, io: &mut Vec<Row>) -> CliResult<()> {
        // nodes act on the first row of what they are given, as all nodes of the crate do
        if io.len() != 1 {
            panic!("VIOLATION: a node is given {} rows at once", io.len());
        }
        match &self.node {
            Node::DropOdd => {
                if io[0].timestamp % 2 == 1 {
                    io.clear()
                }
            }
            Node::DropAll => io.clear(),
            Node::Tag(c) => {
                if let Some(x) = io[0].field_values.get_mut(0) {
                    append(x, *c)
                }
            }
            Node::Replace(c) => {
                let n = Row {
                    timestamp: io[0].timestamp,
                    field_values: io[0]
                        .field_values
                        .iter()
                        .enumerate()
                        .map(|(i, x)| match (i, x) {
                            (0, FieldValue::String(s)) => FieldValue::String(format!("<{}{}>", c, s)),
                            (_, x) => x.clone(),
                        })
                        .collect(),
                };
                *io = vec![n];
            }
            Node::Dup(n) => {
                let base = io[0].clone();
                io.clear();
                for k in 0..*n {
                    let mut x = base.clone();
                    if let Some(f) = x.field_values.get_mut(0) {
                        append(f, std::char::from_u32(97 + k as u32).unwrap())
                    }
                    io.push(x);
                }
            }
            Node::Spread(n) => {
                let base = io.remove(0);
                for k in 0..*n {
                    let mut x = base.clone();
                    x.timestamp += spread(k, *n);
                    if let Some(f) = x.field_values.get_mut(0) {
                        append(f, std::char::from_u32(97 + k as u32).unwrap())
                    }
                    io.push(x);
                }
            }
            Node::Shift(d) => io[0].timestamp += *d,
            Node::AddCol(_, t) => {
                let x = match t {
                    FieldType::Int => FieldValue::Int(7),
                    _ => FieldValue::String("new".to_string()),
                };
                io[0].field_values.push(x)
            }
            Node::DelCol(i) => {
                if *i < io[0].field_values.len() {
                    io[0].field_values.remove(*i);
                }
            }
            Node::Retype => {
                if let Some(x) = io[0].field_values.get_mut(0) {
                    *x = FieldValue::Long(5)
                }
            }
            Node::Rename(_) => {}
            _ => unreachable!(),
        }
        Ok(())
    }
    fn boxed(self) -> Box<dyn DataSink> {
        Box::new(self)
    }
}

pub fn model_header(n: &Node, m: &mut H) {
    match n {
        Node::Rename(s) => {
            if let Some(x) = m.names.get_mut(0) {
                *x = s.clone()
            }
        }
        Node::AddCol(s, t) => {
            m.names.push(s.clone());
            m.types.push(*t);
        }
        Node::DelCol(i) => {
            if *i < m.names.len() {
                m.names.remove(*i);
                m.types.remove(*i);
            }
        }
        Node::Retype => {
            if let Some(x) = m.types.get_mut(0) {
                *x = FieldType::Long
            }
        }
        _ => {}
    }
}

fn model_rows(n: &Node, x: R) -> Vec<R> {
    let (ts, mut vs) = x;
    let tag = |vs: &mut Vec<V>, c: char| {
        if let Some(V::S(s)) = vs.get_mut(0) {
            s.push(c)
        }
    };
    match n {
        Node::DropOdd if ts % 2 == 1 => vec![],
        Node::DropAll => vec![],
        Node::Tag(c) => {
            tag(&mut vs, *c);
            vec![(ts, vs)]
        }
        Node::Replace(c) => {
            if let Some(V::S(s)) = vs.get_mut(0) {
                *s = format!("<{}{}>", c, s)
            }
            vec![(ts, vs)]
        }
        Node::Dup(n) => (0..*n)
            .map(|k| {
                let mut y = vs.clone();
                tag(&mut y, std::char::from_u32(97 + k as u32).unwrap());
                (ts, y)
            })
            .collect(),
        Node::Spread(n) => (0..*n)
            .map(|k| {
                let mut y = vs.clone();
                tag(&mut y, std::char::from_u32(97 + k as u32).unwrap());
                (ts + spread(k, *n), y)
            })
            .collect(),
        Node::Shift(d) => vec![(ts + d, vs)],
        Node::AddCol(_, FieldType::Int) => {
            vs.push(V::I(7));
            vec![(ts, vs)]
        }
        Node::AddCol(_, _) => {
            vs.push(V::S("new".to_string()));
            vec![(ts, vs)]
        }
        Node::DelCol(i) => {
            if *i < vs.len() {
                vs.remove(*i);
            }
            vec![(ts, vs)]
        }
        Node::Retype => {
            if let Some(x) = vs.get_mut(0) {
                *x = V::L(5)
            }
            vec![(ts, vs)]
        }
        _ => vec![(ts, vs)],
    }
}

/// The real graph.
pub fn build(g: &Graph, log: &Log<Ev>) -> Result<HeaderGraph, String> {
    let mut merges: HashMap<usize, usize> = HashMap::new();
    for c in g {
        for n in c {
            if let Node::Merge(t) = n {
                *merges.entry(*t).or_insert(0) += 1;
            }
        }
    }
    let mut chains = Vec::new();
    for (i, c) in g.iter().enumerate() {
        let mut nodes = Vec::new();
        for n in c {
            nodes.push(match n {
                Node::Rec(id) => HeaderNode::HeaderSink(Rec::new(*id, log)),
                Node::Split(ids) => {
                    let s = Split::new(ids.clone());
                    let t = s.get_new_header_count_tracker();
                    HeaderNode::SplitHeaderSink(s, t)
                }
                Node::Merge(t) => HeaderNode::Merge(*t),
                Node::MergeHead => {
                    let m = MergeJoin::new(merges.get(&i).cloned().unwrap_or(0))
                        .map_err(|e| err_text(&e))?;
                    let t = m.get_new_header_count_tracker();
                    HeaderNode::MergeHeaderSink(m, t)
                }
                Node::MergeOf(n) => {
                    let m = MergeJoin::new(*n).map_err(|e| err_text(&e))?;
                    let t = m.get_new_header_count_tracker();
                    HeaderNode::MergeHeaderSink(m, t)
                }
                n => HeaderNode::HeaderSink(Box::new(NodeSink { node: n.clone() })),
            });
        }
        chains.push(HeaderChain::new(nodes));
    }
    Ok(HeaderGraph::new(chains))
}

/// The real run: builds the driver and drives it.
pub fn run_real(
    g: &Graph,
    headers: &[H],
    sources: Vec<Box<dyn Source>>,
    range: TimestampRange,
    log: &Log<Ev>,
) -> (Result<(), String>, Result<(), String>) {
    use chopper::chopper::chopper::ChopperDriver;
    use chopper::driver::driver::Driver;
    let graph = match build(g, log) {
        Ok(x) => x,
        Err(e) => return (Err(e), Ok(())),
    };
    let hs = headers.iter().map(|x| x.header()).collect();
    match Driver::new(sources, graph, range, hs) {
        Err(e) => (Err(err_text(&e)), Ok(())),
        Ok(mut d) => {
            let d: &mut dyn ChopperDriver = &mut d;
            match d.drive() {
                Ok(()) => (Ok(()), Ok(())),
                Err(e) => (Ok(()), Err(err_text(&e))),
            }
        }
    }
}

/// Model: header seen by each recorder, or Err if a merge joins differing headers.
pub fn model_headers(g: &Graph, headers: &[H]) -> Result<HashMap<usize, H>, ()> {
    let mut merges: HashMap<usize, usize> = HashMap::new();
    for c in g {
        for n in c {
            if let Node::Merge(t) = n {
                *merges.entry(*t).or_insert(0) += 1;
            }
        }
    }
    struct S<'a> {
        g: &'a Graph,
        need: HashMap<usize, usize>,
        got: HashMap<usize, H>,
        seen: HashMap<usize, H>,
    }
    fn go(s: &mut S, chain: usize, mut m: H) -> Result<(), ()> {
        let g = s.g;
        for n in &g[chain] {
            match n {
                Node::Rec(id) => {
                    s.seen.insert(*id, m.clone());
                }
                Node::Split(ids) => {
                    for i in ids {
                        go(s, *i, m.clone())?;
                    }
                }
                Node::Merge(t) => {
                    if let Some(x) = s.got.get(t) {
                        if *x != m {
                            return Err(());
                        }
                    } else {
                        s.got.insert(*t, m.clone());
                    }
                    let k = s.need.get_mut(t).unwrap();
                    *k -= 1;
                    if *k == 0 {
                        go(s, *t, m.clone())?;
                    }
                }
                n => model_header(n, &mut m),
            }
        }
        Ok(())
    }
    let mut s = S { g, need: merges, got: HashMap::new(), seen: HashMap::new() };
    for (i, x) in headers.iter().enumerate() {
        go(&mut s, i, x.clone())?;
    }
    Ok(s.seen)
}

/// Model: what each recorder sees of one row entering a chain at a node, in order.
pub fn model_row(g: &Graph, chain: usize, node: usize, x: R, out: &mut Vec<(usize, R)>) {
    let n = match g[chain].get(node) {
        None => return,
        Some(n) => n,
    };
    match n {
        Node::Rec(id) => {
            out.push((*id, x.clone()));
            model_row(g, chain, node + 1, x, out)
        }
        Node::Split(ids) => {
            for i in ids {
                model_row(g, *i, 0, x.clone(), out);
            }
            model_row(g, chain, node + 1, x, out)
        }
        Node::Merge(t) => {
            model_row(g, *t, 0, x.clone(), out);
            model_row(g, chain, node + 1, x, out)
        }
        n => {
            for y in model_rows(n, x) {
                model_row(g, chain, node + 1, y, out);
            }
        }
    }
}

/// All rows in the order in which they are to be processed: (source, row).
pub fn model_order(rows: &[Vec<R>]) -> Vec<(usize, R)> {
    let mut all: Vec<(u64, usize, usize)> = Vec::new();
    for (s, rs) in rows.iter().enumerate() {
        for (i, x) in rs.iter().enumerate() {
            all.push((x.0, s, i));
        }
    }
    all.sort();
    all.into_iter().map(|(_, s, i)| (s, rows[s][i].clone())).collect()
}

/// Recorders that some source's rows or flushes reach structurally.
pub fn reachable_recs(g: &Graph, chain: usize, out: &mut Vec<usize>) {
    for n in &g[chain] {
        match n {
            Node::Rec(id) => {
                if !out.contains(id) {
                    out.push(*id)
                }
            }
            Node::Split(ids) => {
                for i in ids {
                    reachable_recs(g, *i, out)
                }
            }
            Node::Merge(t) => reachable_recs(g, *t, out),
            _ => {}
        }
    }
}

/// Compare what was recorded with the model: rows per recorder in order, no rows after the last
/// flush, at least one flush for every reachable recorder, headers first.
pub fn compare(
    g: &Graph,
    nsrc: usize,
    log: &[Ev],
    expect: &[(usize, R)],
    headers: &HashMap<usize, H>,
) -> Result<(), String> {
    let mut recs = Vec::new();
    for s in 0..nsrc {
        reachable_recs(g, s, &mut recs);
    }
    for id in recs {
        let got: Vec<&Ev> = log
            .iter()
            .filter(|e| match e {
                Ev::Header(i, _) | Ev::Row(i, _) | Ev::Flush(i) => *i == id,
            })
            .collect();
        let hd: Vec<&H> = got
            .iter()
            .filter_map(|e| if let Ev::Header(_, x) = e { Some(x) } else { None })
            .collect();
        if hd.len() != 1 || Some(hd[0]) != headers.get(&id) {
            return Err(format!(
                "sink {} was given headers {:?}, expected {:?}",
                id,
                hd,
                headers.get(&id)
            ));
        }
        if !matches!(got[0], Ev::Header(..)) {
            return Err(format!("sink {} was used before its header was given", id));
        }
        let rows: Vec<&R> = got
            .iter()
            .filter_map(|e| if let Ev::Row(_, x) = e { Some(x) } else { None })
            .collect();
        let want: Vec<&R> = expect.iter().filter(|e| e.0 == id).map(|e| &e.1).collect();
        if rows != want {
            if rows.len() + want.len() > 40 {
                let i = rows.iter().zip(&want).take_while(|x| x.0 == x.1).count();
                return Err(format!(
                    "sink {} received {} rows, expected {}; from row {} on: {:?}, expected {:?}",
                    id,
                    rows.len(),
                    want.len(),
                    i,
                    &rows[i..rows.len().min(i + 3)],
                    &want[i..want.len().min(i + 3)]
                ));
            }
            return Err(format!("sink {} received rows {:?}, expected {:?}", id, rows, want));
        }
        for x in &rows {
            if x.1.len() != hd[0].names.len() {
                return Err(format!(
                    "sink {} received a row with {} values for {} columns",
                    id,
                    x.1.len(),
                    hd[0].names.len()
                ));
            }
        }
        if !matches!(got[got.len() - 1], Ev::Flush(_)) {
            return Err(format!("sink {} was not flushed after its last row", id));
        }
    }
    Ok(())
}
