//! C20: processing is strictly streaming.
use std::cell::{Cell, RefCell};
use std::collections::VecDeque;
use std::io::{self, Read as _, Write as _};
use std::path::{Path, PathBuf};
use std::rc::Rc;
use std::sync::OnceLock;

use chopper::chopper::chopper::{ChopperDriver, DataSink, HeaderSink, Source};
use chopper::chopper::header_graph::{HeaderChain, HeaderGraph, HeaderNode};
use chopper::chopper::types::{FieldType, FieldValue, Header, Row, TimestampRange, TIMESTAMP_RANGE_ALL};
use chopper::cli::util::YesNoAuto;
use chopper::decompress::zip;
use chopper::driver::driver::Driver;
use chopper::driver::merge_join::MergeJoin;
use chopper::driver::split::Split;
use chopper::error::CliResult;
use chopper::filter::column_filter_delete_col::ColumnFilterDelete;
use chopper::filter::row_filter_equal_value::RowFilterEqualValue;
use chopper::filter::row_filter_greater_value::RowFilterGreaterValue;
use chopper::input::input::InputFormat;
use chopper::input::input_factory::{create_default_source_factories, InputFactory};
use chopper::input::serial_multi_file_provider::SerialMultiFilePathProvider;
use chopper::input::single_file::SingleFileInputFactory;
use chopper::source::csv_configs::{CSVOutputConfig, TimestampStyle};
use chopper::source::csv_timestamp::TimestampUnits;
use chopper::source::multi_file_source::SerialMultiFileSource;
use chopper::transport::seekable::seekable_factory::SeekableTransportFactory;
use chopper::transport::streaming::previewer_factory::PreviewerTransportFactory;
use chopper::transport::streaming::streaming_transport::StreamingTransport;
use chopper::util::tz::ChopperTz;
use chopper::write::factory::new_header_sink;
use mc::graph::{build, Graph, Node};
use mc::kit::*;
use mc::pack::*;
use mc::*;

// ---------------------------------------------------------------------------------------------
// what the merge has read ahead

struct Counted {
    header: Header,
    rows: VecDeque<Row>,
    id: usize,
    log: Log<(char, usize, u64)>,
}

impl Source for Counted {
    fn header(&self) -> &Header {
        &self.header
    }
    fn next_row(&mut self) -> CliResult<Option<Row>> {
        let r = self.rows.pop_front();
        if let Some(r) = &r {
            self.log.borrow_mut().push(('p', self.id, r.timestamp));
        }
        Ok(r)
    }
}

/// Logs the source (column 0) of each row that arrives.
struct Arrive {
    log: Log<(char, usize, u64)>,
}

impl HeaderSink for Arrive {
    fn process_header(self: Box<Self>, _: &mut Header) -> CliResult<Box<dyn DataSink>> {
        Ok(self.boxed())
    }
}

impl DataSink for Arrive {
    fn write_row(&mut self, io: &mut Vec<Row>) -> CliResult<()> {
        for r in io.iter() {
            if let Some(FieldValue::Int(s)) = r.field_values.get(0) {
                self.log.borrow_mut().push(('a', *s as usize, r.timestamp));
            }
        }
        Ok(())
    }
    fn boxed(self) -> Box<dyn DataSink> {
        Box::new(self)
    }
}

fn lookahead(ctx: &mut Ctx, times: &[Vec<u64>], b: Option<u64>, e: Option<u64>, shape: usize) -> Res {
    let log: Log<(char, usize, u64)> = log();
    let k = times.len();
    let head = H::new(&[("s", FieldType::Int)]);
    let mut sources: Vec<Box<dyn Source>> = Vec::new();
    let mut chains = Vec::new();
    for (i, ts) in times.iter().enumerate() {
        sources.push(Box::new(Counted {
            header: head.header(),
            rows: ts.iter().map(|t| row(&(*t, vec![V::I(i as i32)]))).collect(),
            id: i,
            log: log.clone(),
        }));
    }
    let arrive = || HeaderNode::HeaderSink(Box::new(Arrive { log: log.clone() }) as Box<dyn HeaderSink>);
    match shape {
        // each source in a chain of its own, all merged, or split to nowhere on the way
        0 => (0..k).for_each(|_| chains.push(HeaderChain::new(vec![arrive()]))),
        _ => {
            for _ in 0..k {
                chains.push(HeaderChain::new(vec![HeaderNode::Merge(k)]));
            }
            let m = MergeJoin::new(k).map_err(|e| err_text(&e))?;
            let t = m.get_new_header_count_tracker();
            let mut nodes = vec![HeaderNode::MergeHeaderSink(m, t)];
            if shape == 2 {
                let s = Split::new(vec![k + 1]);
                let t = s.get_new_header_count_tracker();
                nodes.push(HeaderNode::SplitHeaderSink(s, t));
            }
            nodes.push(arrive());
            chains.push(HeaderChain::new(nodes));
            if shape == 2 {
                chains.push(HeaderChain::new(vec![HeaderNode::HeaderSink(RowFilterEqualValue::new("s", FieldValue::Int(1)))]));
            }
        }
    }
    let headers = sources.iter().map(|s| s.header().clone()).collect();
    let range = TimestampRange { begin: b, end: e };
    let mut d = Driver::new(sources, HeaderGraph::new(chains), range, headers).map_err(|e| err_text(&e))?;
    d.drive().map_err(|e| err_text(&e))?;
    let log = log.borrow();
    ctx.outcome(&*log);
    let mut pulled = vec![0i64; k];
    let mut after_end = vec![0; k];
    let mut arrived = vec![0i64; k];
    let what = || format!("sources with times {:?}, range {:?} {:?}: events (p = read, a = arrived) {:?}", times, b, e, log);
    ctx.note(what);
    for (c, s, t) in log.iter() {
        ctx.step(&(&pulled, &arrived, &after_end, c, s, t));
        if *c == 'a' {
            arrived[*s] += 1;
            continue;
        }
        ensure!(after_end[*s] == 0, "source {} read on after a row past the end; {}", s, what());
        if e.map_or(false, |e| *t >= e) {
            after_end[*s] += 1;
        } else if b.map_or(true, |b| *t >= b) {
            pulled[*s] += 1;
        }
        // the one at hand is being read only now, so at most it and none before it wait
        ensure!(
            pulled[*s] <= arrived[*s] + 1,
            "{} rows of source {} read while only {} were passed on; {}",
            pulled[*s],
            s,
            arrived[*s],
            what()
        );
    }
    ensure!(pulled == arrived, "rows read {:?}, arrived {:?}; {}", pulled, arrived, what());
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// what a source has read ahead

struct Meter {
    data: Rc<Vec<u8>>,
    pos: usize,
    taken: Rc<Cell<usize>>,
    step: usize,
    open: Option<Rc<Cell<i64>>>,
}

impl io::Read for Meter {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = buf.len().min(self.data.len() - self.pos).min(self.step);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        self.taken.set(self.taken.get() + n);
        Ok(n)
    }
}

impl io::Seek for Meter {
    fn seek(&mut self, to: io::SeekFrom) -> io::Result<u64> {
        let p = match to {
            io::SeekFrom::Start(x) => x as i64,
            io::SeekFrom::End(x) => self.data.len() as i64 + x,
            io::SeekFrom::Current(x) => self.pos as i64 + x,
        };
        self.pos = p.max(0) as usize;
        Ok(self.pos as u64)
    }
}

impl Drop for Meter {
    fn drop(&mut self) {
        if let Some(o) = &self.open {
            o.set(o.get() - 1);
        }
    }
}

fn word(i: u64, n: usize) -> String {
    let mut x = (i + 1).wrapping_mul(0x9e37_79b9_7f4a_7c15);
    (0..n)
        .map(|_| {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_"[(x >> 32) as usize % 64] as char
        })
        .collect()
}

/// Data of n rows of about w bytes and the positions at which its rows end.
fn data(dc: bool, n: usize, w: usize) -> (Vec<u8>, Vec<usize>) {
    let mut ends = Vec::new();
    if !dc {
        let mut s = String::from("timeSeconds,word,k\n");
        for i in 0..n as u64 {
            let q = if i % 7 == 3 { "\"" } else { "" };
            s += &format!("{},{}{}{},{}\n", 1_546_300_800 + i, q, word(i, w), q, i % 3);
            ends.push(s.len());
        }
        return (s.into_bytes(), ends);
    }
    let head = H::new(&[("word", FieldType::String), ("k", FieldType::Int), ("d", FieldType::Double)]);
    let mut o = dc_bytes(&head, &[]);
    let skip = o.len();
    for i in 0..n as u64 {
        let k = if i % 5 == 2 { V::N } else { V::I(i as i32 % 3) };
        let r = (i * 1_000_000_007, vec![V::S(word(i, w)), k, V::D((i as f64).to_bits())]);
        o.extend(&dc_bytes(&head, &[r])[skip..]);
        ends.push(o.len());
    }
    (o, ends)
}

const BUF: usize = 8192;

fn ahead(ctx: &mut Ctx, dc: bool, n: usize, w: usize, step: usize) -> Res {
    let (bytes, ends) = data(dc, n, w);
    let taken = Rc::new(Cell::new(0));
    let m = Meter { data: Rc::new(bytes), pos: 0, taken: taken.clone(), step, open: None };
    let name = if dc { "a.dc" } else { "a.csv" };
    let header = if step % 2 == 0 && w < 3000 { YesNoAuto::Auto } else { YesNoAuto::Yes };
    let mut s = open_stream(Box::new(m), Some(name), None, plain_cfg(header)).map_err(|e| err_text(&e))?;
    let mut i = 0;
    let mut most = 0;
    loop {
        let r = s.next_row().map_err(|e| err_text(&e))?;
        if r.is_none() {
            break;
        }
        if i >= ends.len() {
            return Err(format!("more than {} rows", n));
        }
        let over = taken.get().saturating_sub(ends[i]);
        most = most.max(over);
        ctx.step(&(dc, n, w, step, i));
        ensure!(
            over <= 4 * BUF + 2 * w,
            "{} rows of about {} bytes ({}): with row {} (its end at byte {}) {} bytes were taken, {} more",
            n,
            w,
            name,
            i,
            ends[i],
            taken.get(),
            over
        );
        i += 1;
    }
    ctx.note(|| format!("{} {} rows of about {} bytes, {} at a time: at most {} ahead", name, n, w, step, most));
    ctx.outcome(&(most / 1000));
    ensure!(i == n, "{} rows read of {}", i, n);
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// memory

struct Probe {
    every: usize,
    rows: Rc<Cell<usize>>,
    live: Log<i64>,
    max: i64,
}

impl HeaderSink for Probe {
    fn process_header(self: Box<Self>, _: &mut Header) -> CliResult<Box<dyn DataSink>> {
        Ok(self.boxed())
    }
}

impl DataSink for Probe {
    fn write_row(&mut self, io: &mut Vec<Row>) -> CliResult<()> {
        self.rows.set(self.rows.get() + io.len());
        // the high-water mark since the last row
        self.max = self.max.max(alloc::peak());
        alloc::reset_peak();
        if self.rows.get() % self.every == 0 {
            self.live.borrow_mut().push(self.max);
            self.max = i64::MIN;
        }
        Ok(())
    }
    fn boxed(self) -> Box<dyn DataSink> {
        Box::new(self)
    }
}

#[derive(Clone)]
struct Files {
    files: Rc<Vec<Rc<Vec<u8>>>>,
    suffix: &'static str,
    open: Rc<Cell<i64>>,
    opened: Rc<Cell<usize>>,
    most: Rc<Cell<i64>>,
    taken: Rc<Cell<usize>>,
}

impl Files {
    fn new(files: Vec<Rc<Vec<u8>>>, suffix: &'static str) -> Files {
        Files {
            files: Rc::new(files),
            suffix,
            open: Default::default(),
            opened: Default::default(),
            most: Default::default(),
            taken: Default::default(),
        }
    }
    fn index(&self, path: &Path) -> Option<usize> {
        path.to_str()?.strip_suffix(self.suffix)?.parse().ok()
    }
}

impl StreamingTransport for Files {
    fn can_open(&self, path: &Path) -> bool {
        self.index(path).map_or(false, |i| i < self.files.len())
    }
    fn open(&self, path: &Path) -> io::Result<Box<dyn io::Read>> {
        let i = self.index(path).ok_or_else(|| io::Error::new(io::ErrorKind::NotFound, "no file"))?;
        self.opened.set(self.opened.get() + 1);
        self.open.set(self.open.get() + 1);
        self.most.set(self.most.get().max(self.open.get()));
        let data = self.files[i].clone();
        Ok(Box::new(Meter { data, pos: 0, taken: self.taken.clone(), step: usize::MAX, open: Some(self.open.clone()) }))
    }
    fn box_clone(&self) -> Box<dyn StreamingTransport> {
        Box::new(self.clone())
    }
    fn name(&self) -> &str {
        "files in memory"
    }
}

struct Names {
    next: usize,
    end: usize,
    suffix: &'static str,
}

impl SerialMultiFilePathProvider for Names {
    fn get_next_path(&mut self) -> Option<PathBuf> {
        if self.next == self.end {
            return None;
        }
        self.next += 1;
        Some(PathBuf::from(format!("{}{}", self.next - 1, self.suffix)))
    }
}

fn dir_source(f: &Files) -> Result<Box<dyn Source>, String> {
    let fac = SingleFileInputFactory::new(
        SeekableTransportFactory::new(vec![]),
        PreviewerTransportFactory::new(vec![Box::new(f.clone())]),
        create_default_source_factories(Some(plain_cfg(YesNoAuto::Yes))),
    );
    let p = Names { next: 0, end: f.files.len(), suffix: f.suffix };
    match SerialMultiFileSource::new(fac, Box::new(p), InputFormat::Auto, None) {
        Ok(s) => Ok(Box::new(s)),
        Err(e) => Err(err_text(&e)),
    }
}

const ROWS: usize = 8000;

struct Pack {
    name: String,
    suffix: String,
    dc: bool,
    zip: Option<u16>,
    bytes: OnceLock<(Vec<u8>, Vec<u8>)>,
}

impl Pack {
    /// The packed data and, for directories, 100 rows of it.
    fn bytes(&self, pack: &dyn Fn(&[u8]) -> Vec<u8>) -> &(Vec<u8>, Vec<u8>) {
        self.bytes.get_or_init(|| {
            let make = |n| {
                let d = data(self.dc, n, 40).0;
                match self.zip {
                    Some(m) => Zip::of(Member::new(if self.dc { "a.dc" } else { "a.csv" }, &d, m)).bytes(),
                    None => pack(&d),
                }
            };
            (make(ROWS), make(100))
        })
    }
}

fn inputs() -> Vec<(Pack, Option<fn(&[u8]) -> Vec<u8>>)> {
    let mut v: Vec<(Pack, Option<fn(&[u8]) -> Vec<u8>>)> = Vec::new();
    for dc in [false, true] {
        let kind = if dc { ".dc" } else { ".csv" };
        let mk = |name: &str, s: &str, zip| Pack {
            name: format!("{}{}", name, kind),
            suffix: format!("{}{}", kind, s),
            dc,
            zip,
            bytes: OnceLock::new(),
        };
        v.push((mk("plain", "", None), None));
        for m in [0, 8, 12] {
            v.push((mk(&format!("zip-{}", m), "", Some(m)), None));
        }
        for p in packers() {
            v.push((mk(p.name, p.suffix, None), Some(p.pack)));
        }
    }
    v
}

fn plain(d: &[u8]) -> Vec<u8> {
    d.to_vec()
}

fn source_of(p: &Pack, f: &dyn Fn(&[u8]) -> Vec<u8>, taken: &Rc<Cell<usize>>) -> Result<Box<dyn Source>, String> {
    let b = p.bytes(f).0.clone();
    let m = Meter { data: Rc::new(b), pos: 0, taken: taken.clone(), step: 100000, open: None };
    let s = match p.zip {
        Some(_) => {
            let (r, name) = zip::new_reader_for_single_file_zip_archive(m).map_err(|e| e.to_string())?;
            open_stream(r, Some(&name), None, plain_cfg(YesNoAuto::Yes))
        }
        None => open_stream(Box::new(m), Some(&format!("x{}", p.suffix)), None, plain_cfg(YesNoAuto::Yes)),
    };
    s.map_err(|e| err_text(&e))
}

fn steady(ctx: &mut Ctx, live: &[i64], what: &str) -> Res {
    // the same data again and again: what is in use in the last third is no more than before
    let n = live.len();
    ensure!(n >= 9, "{}: only {} samples", what, n);
    let early = live[n / 6..n / 2].iter().max().copied().unwrap_or(0);
    let late = live[n / 2..].iter().max().copied().unwrap_or(0);
    ctx.note(|| format!("{}: in use at most {} bytes early, {} late", what, early, late));
    ensure!(
        late <= early + 12 * 1024,
        "{}: memory in use grows with the rows processed: {} bytes more at the end than half-way (samples {:?})",
        what,
        late - early,
        live
    );
    Ok(())
}

/// 4000 rows, made as they are asked for; every 100 of them what memory was used at most.
struct Count {
    header: Header,
    n: u64,
    live: Log<i64>,
    max: i64,
}
impl Source for Count {
    fn header(&self) -> &Header {
        &self.header
    }
    fn next_row(&mut self) -> CliResult<Option<Row>> {
        self.n += 1;
        self.max = self.max.max(alloc::peak());
        alloc::reset_peak();
        if self.n % 100 == 0 {
            self.live.borrow_mut().push(self.max);
            self.max = i64::MIN;
        }
        if self.n > 4000 {
            return Ok(None);
        }
        Ok(Some(row(&(self.n, vec![V::S("0123456789abcdef".into()), V::I(1)]))))
    }
}

fn out_cfg(delim: &str) -> Result<CSVOutputConfig, String> {
    let tz: chrono_tz::Tz = match "UTC".parse() {
        Ok(t) => t,
        Err(_) => return Err("UTC".into()),
    };
    Ok(CSVOutputConfig::new(delim, true, None, TimestampStyle::HumanReadable, TimestampUnits::Nanos, ChopperTz::from(tz)))
}

fn main() {
    mc::main("C20", Level::ModelChecking, |c| {
        let t = c.thorough;
        c.scenario(
            "merge-lookahead",
            "1..=3 sources of 0..=3 (thorough 4) rows with any non-decreasing times out of 3 (4), begin and end none or any, separate, merged, or merged and split",
            0,
            move |ctx| {
                let k = 1 + ctx.choose(3);
                let dom = if t { 4 } else { 3 };
                let most = if t && k < 3 { 5 } else { 3 };
                let mut times = Vec::new();
                for _ in 0..k {
                    let n = ctx.choose(most + 1);
                    let mut lo = 0;
                    times.push(
                        (0..n)
                            .map(|_| {
                                lo += ctx.choose(dom - lo);
                                lo as u64 + 1
                            })
                            .collect::<Vec<u64>>(),
                    );
                }
                let b = if k == 3 && !t { [None, Some(2)][ctx.choose(2)] } else { [None, Some(1), Some(2), Some(3)][ctx.choose(4)] };
                let e = if k == 3 && !t { [None, Some(3)][ctx.choose(2)] } else { [None, Some(1), Some(2), Some(3)][ctx.choose(4)] };
                let shape = ctx.choose(3);
                lookahead(ctx, &times, b, e, shape)
            },
        );
        c.scenario(
            "source-lookahead",
            "csv and dc sources over rows of 0 to 20000 bytes, read in pieces of 1 byte to everything: at every row what was taken beyond it",
            0,
            move |ctx| {
                let dc = ctx.flag();
                let (n, w) = *ctx.pick(&[(20000usize, 0usize), (4000, 40), (1000, 200), (200, 3000), (60, 8192), (40, 20000)]);
                let step = *ctx.pick(&[usize::MAX, 1, 100, 8191, 8192, 50000]);
                if n > 10000 && step == 1 && !t {
                    return Ok(());
                }
                ahead(ctx, dc, n, w, step)
            },
        );
        let inputs: &'static Vec<_> = Box::leak(Box::new(inputs()));
        c.scenario(
            "packed-lookahead",
            "csv and dc in 34 packings and 3 zip methods: at each of 8 rows along the way no more has been taken than what packs the data so far, two blocks and 64 KiB",
            0,
            move |ctx| {
                let (p, f) = ctx.pick(inputs);
                let fun: &dyn Fn(&[u8]) -> Vec<u8> = match f {
                    Some(f) => f,
                    None => &plain,
                };
                let taken = Rc::new(Cell::new(0));
                let mut s = source_of(p, fun, &taken)?;
                let (raw, ends) = data(p.dc, ROWS, 40);
                let total = p.bytes(fun).0.len();
                let mut most = 0;
                for i in 0..ROWS {
                    match s.next_row() {
                        Ok(Some(_)) => {}
                        Ok(None) => return Err(format!("{}: only {} rows", p.name, i)),
                        Err(e) => return Err(format!("{}: after {} rows: {}", p.name, i, err_text(&e))),
                    }
                    if i % (ROWS / 8) != 10 {
                        continue;
                    }
                    // the packing is about uniform
                    let due = (ends[i] as f64 / raw.len() as f64 * total as f64) as usize;
                    let over = taken.get().saturating_sub(due);
                    most = most.max(over);
                    ctx.step(&(&p.name, i));
                    let block = if p.name.starts_with("lz4-256k") || p.name.starts_with("lz4block-128k") {
                        262144 * 2
                    } else if p.name.starts_with("zip-12") {
                        900000
                    } else if p.name.starts_with("zstd-single") {
                        total // the one frame is a window by itself, which the decoder holds
                    } else {
                        2 * 65536
                    };
                    ensure!(
                        over <= block + 65536,
                        "{}: at row {} of {}, {} of {} bytes were taken, {} are due",
                        p.name,
                        i,
                        ROWS,
                        taken.get(),
                        total,
                        due
                    );
                }
                ctx.note(|| format!("{}: {} bytes in all, at most {} ahead", p.name, total, most));
                ctx.outcome(&(most / 4096));
                Ok(())
            },
        );
        c.scenario(
            "memory",
            "8000 rows from csv or dc in any of 38 packings, 1 or 3 of them merged, through filters or a split, to a csv or dc file or nowhere (quick: each packing with some of these): memory in use after any row",
            0,
            move |ctx| {
                let i = ctx.choose(inputs.len());
                let (p, f) = &inputs[i];
                let fun: &dyn Fn(&[u8]) -> Vec<u8> = match f {
                    Some(f) => f,
                    None => &plain,
                };
                let all = t || p.name.starts_with("plain");
                let k = if all { [1, 3][ctx.choose(2)] } else { [1, 3][i % 2] };
                let sink = if all { ctx.choose(3) } else { i % 3 };
                let graph = if all { ctx.choose(3) } else { (i / 3) % 3 };
                if p.name.starts_with("zip-12") && k == 3 && !t {
                    return Ok(());
                }
                let dir = ctx.fresh_dir();
                let taken = Rc::new(Cell::new(0));
                p.bytes(fun);
                let rows = Rc::new(Cell::new(0));
                let live: Log<i64> = log();
                live.borrow_mut().reserve(1000);
                let mut sources = Vec::new();
                for _ in 0..k {
                    sources.push(source_of(p, fun, &taken)?);
                }
                let probe = Probe { every: ROWS * k / 40, rows: rows.clone(), live: live.clone(), max: i64::MIN };
                let mut chains = Vec::new();
                let mut nodes: Vec<HeaderNode> = Vec::new();
                let e = |e: chopper::error::Error| err_text(&e);
                if k > 1 {
                    for _ in 0..k {
                        chains.push(HeaderChain::new(vec![HeaderNode::Merge(k)]));
                    }
                    let m = MergeJoin::new(k).map_err(e)?;
                    let t = m.get_new_header_count_tracker();
                    nodes.push(HeaderNode::MergeHeaderSink(m, t));
                }
                let last = chains.len();
                nodes.push(HeaderNode::HeaderSink(Box::new(probe)));
                let val = |i: i32| if p.dc { FieldValue::Int(i) } else { FieldValue::String(i.to_string()) };
                match graph {
                    0 => {}
                    1 => {
                        nodes.push(HeaderNode::HeaderSink(RowFilterGreaterValue::new("k", val(0))));
                        nodes.push(HeaderNode::HeaderSink(ColumnFilterDelete::new("WORD")));
                    }
                    _ => {
                        let s = Split::new(vec![last + 1, last + 2]);
                        let t = s.get_new_header_count_tracker();
                        nodes.push(HeaderNode::SplitHeaderSink(s, t));
                    }
                }
                let path = |x: &str| dir.join(x).to_string_lossy().to_string();
                match sink {
                    0 => nodes.push(HeaderNode::HeaderSink(new_header_sink(Some(&path("o.csv")), Some(out_cfg(",")?)).map_err(e)?)),
                    1 => nodes.push(HeaderNode::HeaderSink(new_header_sink(Some(&path("o.dc")), None).map_err(e)?)),
                    _ => {}
                }
                chains.push(HeaderChain::new(nodes));
                if graph == 2 {
                    let d = |i| -> Result<HeaderNode, String> {
                        let s = if i == 0 { new_header_sink(Some(&path("p.csv")), Some(out_cfg(";")?)) } else { new_header_sink(Some(&path("p.dc")), None) };
                        Ok(HeaderNode::HeaderSink(s.map_err(e)?))
                    };
                    chains.push(HeaderChain::new(vec![HeaderNode::HeaderSink(RowFilterEqualValue::new("k", val(1))), d(0)?]));
                    chains.push(HeaderChain::new(vec![d(1)?]));
                }
                let headers = sources.iter().map(|s| s.header().clone()).collect();
                ctx.step(&(i, k, sink, graph));
                let mut d = Driver::new(sources, HeaderGraph::new(chains), TIMESTAMP_RANGE_ALL, headers).map_err(e)?;
                alloc::reset_peak();
                d.drive().map_err(e)?;
                drop(d);
                ensure!(rows.get() == k * ROWS, "{}: {} rows", p.name, rows.get());
                let live = live.borrow().clone();
                steady(ctx, &live, &format!("{} of {}, sink {}, graph {}", k, p.name, sink, graph))
            },
        );
        c.scenario(
            "local-files",
            "a local file (also in a directory of 3, also named as a zip archive) of 16000 and one of 24000 rows, csv or dc in any of 38 packings, opened by path: most memory in use from opening it to the last row is the same, and no more than 12 buffers and 2 blocks for plain files",
            0,
            move |ctx| {
                let (p, f) = ctx.pick(inputs);
                if p.name.starts_with("zstd-single") || p.name.starts_with("zstd-tiny") || p.name.starts_with("zstd-many") {
                    return Ok(()); // windows or blocks there grow with the file, and the decoder holds some
                }
                let fun: &dyn Fn(&[u8]) -> Vec<u8> = match f {
                    Some(f) => f,
                    None => &plain,
                };
                let dir = ctx.fresh_dir();
                let many = ctx.flag();
                let mut peaks = Vec::new();
                for n in [2 * ROWS, 3 * ROWS] {
                    let bytes = {
                        let d = data(p.dc, n, 40).0;
                        match p.zip {
                            Some(m) => Zip::of(Member::new(if p.dc { "a.dc" } else { "a.csv" }, &d, m)).bytes(),
                            None => fun(&d),
                        }
                    };
                    let sub = dir.join(n.to_string());
                    std::fs::create_dir_all(&sub).expect("ENGINE: directory");
                    let name = if p.zip.is_some() { "x.zip".to_string() } else { format!("x{}", p.suffix) };
                    for k in 0..if many { 3 } else { 1 } {
                        std::fs::write(sub.join(format!("{}{}", k, name)), &bytes).expect("ENGINE: write");
                    }
                    drop(bytes);
                    let path = if many { sub.clone() } else { sub.join(format!("0{}", name)) };
                    let path = path.to_string_lossy().to_string();
                    let e = |e: chopper::error::Error| format!("{}: {}", p.name, err_text(&e));
                    let mut fac = InputFactory::new(plain_cfg(YesNoAuto::Yes), None, None).map_err(e)?;
                    let base = alloc::reset_peak();
                    let mut s = fac.create_source_from_path(&path).map_err(e)?;
                    let mut rows = 0;
                    while s.next_row().map_err(e)?.is_some() {
                        rows += 1;
                    }
                    peaks.push(alloc::peak() - base);
                    drop(s);
                    ctx.step(&(&p.name, many, n));
                    ensure!(rows == n * if many { 3 } else { 1 }, "{}: {} rows", p.name, rows);
                }
                ctx.note(|| format!("{} directory {}: {:?} bytes in use", p.name, many, peaks));
                ctx.outcome(&peaks);
                ensure!(
                    peaks[1] <= peaks[0] + if p.name.starts_with("zstd") { 131072 } else { 16384 }, // a window
                    "{}{}: at most {} bytes in use for a file of {} rows, {} for one of {}",
                    p.name,
                    if many { " in a directory" } else { "" },
                    peaks[0],
                    2 * ROWS,
                    peaks[1],
                    3 * ROWS
                );
                ensure!(
                    !p.name.starts_with("plain") || peaks[1] <= 12 * 8192 + 65536,
                    "{}: {} bytes in use for a plain file of {} rows",
                    p.name,
                    peaks[1],
                    3 * ROWS
                );
                Ok(())
            },
        );
        c.scenario(
            "http",
            "csv, dc, csv.gz and dc.zst of 0.8 and 1.6 MB from an http server, body of announced length, in chunks or until close, 1 or 2 of them merged: most memory in use from opening to the last row is the same",
            0,
            move |ctx| {
                let kind = *ctx.pick(&["csv", "dc", "csv.gz", "dc.zst"]);
                let frame = ctx.choose(3);
                let mut peaks = Vec::new();
                for n in [2 * ROWS, 4 * ROWS] {
                    let d = data(kind.starts_with("dc"), n, 40).0;
                    let b = match kind {
                        "csv.gz" => gzip(&d, 100000, 6, 0),
                        "dc.zst" => zst(&d, Zst { block: 4096, frame: 0, single: false, sum: true, lit: false }),
                        _ => d,
                    };
                    let (port, server) = serve(b, frame);
                    let e = |e: chopper::error::Error| format!("{}: {}", kind, err_text(&e));
                    let mut fac = InputFactory::new(plain_cfg(YesNoAuto::Yes), None, None).map_err(e)?;
                    let base = alloc::reset_peak();
                    let mut s = fac.create_source_from_path(&format!("http://127.0.0.1:{}/x.{}", port, kind)).map_err(e)?;
                    let mut rows = 0;
                    while s.next_row().map_err(e)?.is_some() {
                        rows += 1;
                    }
                    peaks.push(alloc::peak() - base);
                    drop(s);
                    let _ = server.join();
                    ctx.step(&(kind, frame, n));
                    ensure!(rows == n, "{}: {} rows", kind, rows);
                }
                ctx.note(|| format!("{} framed {}: {:?} bytes in use", kind, frame, peaks));
                ensure!(
                    peaks[1] <= peaks[0] + 32768,
                    "{} over http: at most {} bytes in use for {} rows, {} for {}",
                    kind,
                    peaks[0],
                    2 * ROWS,
                    peaks[1],
                    4 * ROWS
                );
                Ok(())
            },
        );
        c.scenario(
            "directory",
            "directories of 60 files of 100 rows, csv or dc plain or in 6 packings, 1 or 2 of them merged: files opened, files open, memory in use at every row",
            0,
            move |ctx| {
                let few: Vec<usize> = (0..inputs.len())
                    .filter(|i| {
                        let n = &inputs[*i].0.name;
                        ["plain.", "gzip.", "lz4.", "lz4block.", "lzf.", "zstd.", "zstd-2-frames."].iter().any(|k| n.starts_with(k))
                    })
                    .collect();
                let (p, f) = &inputs[*ctx.pick(&few)];
                let fun: &dyn Fn(&[u8]) -> Vec<u8> = match f {
                    Some(f) => f,
                    None => &plain,
                };
                let k = 1 + ctx.choose(2);
                let b = Rc::new(p.bytes(fun).1.clone());
                let suffix: &'static str = Box::leak(p.suffix.clone().into_boxed_str());
                let fs: Vec<Files> = (0..k).map(|_| Files::new(vec![b.clone(); 60], suffix)).collect();
                let log: Log<(usize, usize, i64)> = log();
                let rows = Rc::new(Cell::new(0));
                let live: Log<i64> = Rc::new(RefCell::new(Vec::with_capacity(1000)));
                let probe = Probe { every: 100 * k, rows: rows.clone(), live: live.clone(), max: i64::MIN };
                struct Watch {
                    files: Vec<Files>,
                    rows: usize,
                    log: Log<(usize, usize, i64)>,
                }
                impl HeaderSink for Watch {
                    fn process_header(self: Box<Self>, _: &mut Header) -> CliResult<Box<dyn DataSink>> {
                        Ok(self.boxed())
                    }
                }
                impl DataSink for Watch {
                    fn write_row(&mut self, _: &mut Vec<Row>) -> CliResult<()> {
                        self.rows += 1;
                        let n = self.files.iter().map(|f| f.opened.get()).sum();
                        let o = self.files.iter().map(|f| f.open.get()).sum();
                        self.log.borrow_mut().push((self.rows, n, o));
                        Ok(())
                    }
                    fn boxed(self) -> Box<dyn DataSink> {
                        Box::new(self)
                    }
                }
                log.borrow_mut().reserve(20000);
                let e = |e: chopper::error::Error| err_text(&e);
                let mut chains = Vec::new();
                let mut nodes = Vec::new();
                if k > 1 {
                    for _ in 0..k {
                        chains.push(HeaderChain::new(vec![HeaderNode::Merge(k)]));
                    }
                    let m = MergeJoin::new(k).map_err(e)?;
                    let t = m.get_new_header_count_tracker();
                    nodes.push(HeaderNode::MergeHeaderSink(m, t));
                }
                let w = Watch { files: fs.clone(), rows: 0, log: log.clone() };
                nodes.push(HeaderNode::HeaderSink(Box::new(w) as Box<dyn HeaderSink>));
                nodes.push(HeaderNode::HeaderSink(Box::new(probe)));
                chains.push(HeaderChain::new(nodes));
                let mut sources = Vec::new();
                for f in &fs {
                    sources.push(dir_source(f)?);
                }
                let headers = sources.iter().map(|s| s.header().clone()).collect();
                let mut d = Driver::new(sources, HeaderGraph::new(chains), TIMESTAMP_RANGE_ALL, headers).map_err(e)?;
                alloc::reset_peak();
                d.drive().map_err(e)?;
                drop(d);
                ctx.step(&(&p.name, k));
                ensure!(rows.get() == 6000 * k, "{}: {} rows", p.name, rows.get());
                if k == 1 {
                    for (r, opened, open) in log.borrow().iter() {
                        ctx.step(&(&p.name, r));
                        let file = (r - 1) / 100 + 1;
                        ensure!(
                            *opened <= file + 1 && *open <= 2,
                            "{}: at row {} (of file {}) {} files had been opened and {} were open",
                            p.name,
                            r,
                            file,
                            opened,
                            open
                        );
                    }
                }
                let most: i64 = fs.iter().map(|f| f.most.get()).max().unwrap_or(0);
                ensure!(most <= 2, "{}: {} files of a directory open at a time", p.name, most);
                let live = live.borrow().clone();
                steady(ctx, &live, &format!("{} directories of {}", k, p.name))
            },
        );
        c.scenario(
            "expanding-nodes",
            "4000 rows through nodes that drop, replace or multiply rows, in chains that split and merge again: memory in use after any row",
            0,
            move |ctx| {
                let n = ctx.pick(&[Node::Tag('x'), Node::Replace('y'), Node::Dup(3), Node::Dup(1), Node::DropOdd, Node::DropAll]).clone();
                let m = ctx.pick(&[Node::Tag('x'), Node::Dup(2), Node::DropOdd]).clone();
                let shape = ctx.choose(3);
                let g: Graph = match shape {
                    0 => vec![vec![n.clone(), m.clone()]],
                    1 => vec![vec![Node::Split(vec![1, 2]), n.clone()], vec![m.clone()], vec![n.clone(), m.clone()]],
                    _ => vec![
                        vec![Node::Split(vec![1, 2])],
                        vec![n.clone(), Node::Merge(3)],
                        vec![m.clone(), Node::Merge(3)],
                        vec![Node::MergeHead, m.clone()],
                    ],
                };
                let live: Log<i64> = Rc::new(RefCell::new(Vec::with_capacity(1000)));
                let hd = H::new(&[("a", FieldType::String), ("b", FieldType::Int)]);
                let s = Count { header: hd.header(), n: 0, live: live.clone(), max: i64::MIN };
                let none = log();
                ctx.step(&(&n, &m, shape));
                let graph = build(&g, &none)?;
                let e = |e: chopper::error::Error| err_text(&e);
                let mut d = Driver::new(vec![Box::new(s)], graph, TIMESTAMP_RANGE_ALL, vec![hd.header()]).map_err(e)?;
                alloc::reset_peak();
                d.drive().map_err(e)?;
                drop(d);
                let live = live.borrow().clone();
                steady(ctx, &live, &format!("{:?}", g))
            },
        );
        c.scenario(
            "out-of-range",
            "1 to 3 sources of 4000 rows, merged or separate, begin before or at the first row, after 1, half, all but one or all of them, end none, at the begin, half way or at the last: memory in use \
             after any row taken from a source",
            0,
            move |ctx| {
                let k = 1 + ctx.choose(3);
                let merged = k > 1 && ctx.flag();
                let b = *ctx.pick(&[0u64, 1, 2, 2000, 4000, 4001]);
                let e = ctx.pick(&[None, Some(b), Some(3000), Some(4000)]).clone();
                let hd = H::new(&[("a", FieldType::String), ("b", FieldType::Int)]);
                let lives: Vec<Log<i64>> = (0..k).map(|_| Rc::new(RefCell::new(Vec::with_capacity(1000)))).collect();
                let mut sources: Vec<Box<dyn Source>> = Vec::new();
                for l in &lives {
                    sources.push(Box::new(Count { header: hd.header(), n: 0, live: l.clone(), max: i64::MIN }));
                }
                let mut g: Graph = (0..k).map(|_| if merged { vec![Node::Merge(k)] } else { vec![Node::Tag('x')] }).collect();
                if merged {
                    g.push(vec![Node::MergeHead]);
                }
                ctx.step(&(k, merged, b, e));
                let none = log();
                let graph = build(&g, &none)?;
                let err = |e: chopper::error::Error| err_text(&e);
                let mut d = Driver::new(sources, graph, TimestampRange { begin: Some(b), end: e }, vec![hd.header(); k]).map_err(err)?;
                alloc::reset_peak();
                d.drive().map_err(err)?;
                drop(d);
                for (i, l) in lives.iter().enumerate() {
                    let l = l.borrow().clone();
                    if l.len() >= 10 {
                        steady(ctx, &l, &format!("source {} of {}, merged {}, from {} to {:?}", i, k, merged, b, e))?;
                    }
                }
                Ok(())
            },
        );
        c.scenario(
            "program",
            "the program on standard input (csv, dc, csv.gz, dc.zst, csv.lzf), output to a pipe or a csv or dc file, the input pipe staying open after 1 MB: what comes out lags by a bounded number of bytes; peak memory with 6 times the input",
            0,
            move |ctx| {
                let kind = *ctx.pick(&["csv", "dc", "csv.gz", "dc.zst", "csv.lzf"]);
                let out = ctx.choose(3);
                let dir = ctx.fresh_dir();
                let dc = kind.starts_with("dc");
                let n = 18000;
                let (raw, ends) = data(dc, n, 40);
                let pack = |raw: &[u8]| match kind {
                    "csv.gz" => gzip(raw, 100000, 6, 0),
                    "dc.zst" => zst(raw, Zst { block: 4096, frame: 0, single: false, sum: true, lit: false }),
                    "csv.lzf" => lzf(raw, 8192, false),
                    _ => raw.to_vec(),
                };
                let b = pack(&raw);
                let file = dir.join(["", "o.csv", "o.dc"][out]).to_string_lossy().to_string();
                let mut args = vec!["-f", kind, "--csv-in-has-header", "yes", "-z", "UTC", "-E", "--print-time", "yes"];
                if out > 0 {
                    args.extend(["-o", &file]);
                }
                ctx.step(&(kind, out));
                use std::process::Stdio;
                use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
                use std::sync::{Arc, Mutex};
                let mut cmd = chop_command(&args, &[]);
                cmd.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped());
                let mut ch = cmd.spawn().expect("ENGINE: cannot start chop");
                let mut stdin = ch.stdin.take().expect("ENGINE: stdin");
                let mut stdout = ch.stdout.take().expect("ENGINE: stdout");
                let seen = Arc::new(AtomicUsize::new(0));
                let all = Arc::new(Mutex::new(Vec::<u8>::new()));
                let (seen2, all2) = (seen.clone(), all.clone());
                let reader = std::thread::spawn(move || {
                    let mut buf = vec![0; 65536];
                    loop {
                        match stdout.read(&mut buf) {
                            Ok(0) | Err(_) => return,
                            Ok(n) => {
                                if let Ok(mut a) = all2.lock() {
                                    a.extend(&buf[..n]);
                                }
                                seen2.fetch_add(n, SeqCst);
                            }
                        }
                    }
                });
                let give = b.len() * 9 / 10;
                let part = b[..give].to_vec();
                let writer = std::thread::spawn(move || {
                    let _ = stdin.write_all(&part);
                    let _ = stdin.flush();
                    stdin
                });
                // the rows that must be out by then, 128 KiB of data behind what was given
                let due_at = (raw.len() as f64 * 0.9) as usize - 131072 - 65536;
                let due = ends.iter().take_while(|e| **e < due_at).count();
                let rows_out = || -> usize {
                    if out == 0 {
                        return all.lock().map_or(0, |a| a.iter().filter(|c| **c == b'\n').count());
                    }
                    let d = std::fs::read(&file).unwrap_or_default();
                    match out {
                        1 => d.iter().filter(|c| **c == b'\n').count(),
                        // about uniform
                        _ => d.len() * n / raw.len(),
                    }
                };
                let t0 = std::time::Instant::now();
                let mut got;
                loop {
                    got = rows_out();
                    if got >= due || t0.elapsed().as_secs() > 15 {
                        break;
                    }
                    std::thread::sleep(std::time::Duration::from_millis(5));
                }
                if got < due {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    let _ = reader.join();
                    return Err(format!(
                        "{} to {}: of {} bytes {} were given and the input stays open; only about {} rows were written, {} due",
                        kind,
                        ["a pipe", "csv", "dc"][out],
                        b.len(),
                        give,
                        got,
                        due
                    ));
                }
                if let Ok(mut stdin) = writer.join() {
                    let _ = stdin.write_all(&b[give..]);
                }
                let peak = peak_of(ch);
                let _ = reader.join();
                let (code, rss) = peak;
                ensure!(code == Some(0), "{} ended with {:?}", kind, code);
                let all_rows = rows_out();
                ensure!(out == 2 || all_rows == n + 1, "{}: {} lines of output, expected {}", kind, all_rows, n + 1);
                let _ = seen;
                // the same with a sixth of it
                let small = pack(&raw[..ends[n / 6]]);
                let mut cmd = chop_command(&args, &[]);
                cmd.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null());
                let mut ch = cmd.spawn().expect("ENGINE: cannot start chop");
                let mut stdin = ch.stdin.take().expect("ENGINE: stdin");
                let mut stdout = ch.stdout.take().expect("ENGINE: stdout");
                let w = std::thread::spawn(move || {
                    let _ = stdin.write_all(&small);
                });
                let mut sink = Vec::new();
                let _ = stdout.read_to_end(&mut sink);
                let _ = w.join();
                let (_, rss0) = peak_of(ch);
                ctx.note(|| format!("{} out {}: peak memory {} KiB with {} bytes, {} KiB with a sixth", kind, out, rss, b.len(), rss0));
                ensure!(
                    rss <= rss0 + 1024,
                    "{}: peak memory {} KiB, with a sixth of the input {} KiB",
                    kind,
                    rss,
                    rss0
                );
                Ok(())
            },
        );
    });
}

/// Serve the bytes once over http; framed by length, in chunks or until close.
fn serve(b: Vec<u8>, frame: usize) -> (u16, std::thread::JoinHandle<()>) {
    let l = std::net::TcpListener::bind("127.0.0.1:0").expect("ENGINE: listen");
    let port = l.local_addr().expect("ENGINE: address").port();
    let t = std::thread::spawn(move || {
        let (mut s, _) = match l.accept() {
            Ok(x) => x,
            Err(_) => return,
        };
        let mut req: Vec<u8> = Vec::new();
        let mut one = [0u8; 512];
        while !req.windows(4).any(|w| w == b"\r\n\r\n") {
            match s.read(&mut one) {
                Ok(0) | Err(_) => return,
                Ok(n) => req.extend(&one[..n]),
            }
        }
        let head = match frame {
            0 => format!("Content-Length: {}\r\n", b.len()),
            1 => "Transfer-Encoding: chunked\r\n".to_string(),
            _ => String::new(),
        };
        let _ = s.write_all(format!("HTTP/1.1 200 OK\r\n{}Connection: close\r\n\r\n", head).as_bytes());
        if frame == 1 {
            for c in b.chunks(5000) {
                let _ = s.write_all(format!("{:x}\r\n", c.len()).as_bytes());
                let _ = s.write_all(c);
                let _ = s.write_all(b"\r\n");
            }
            let _ = s.write_all(b"0\r\n\r\n");
        } else {
            let _ = s.write_all(&b);
        }
    });
    (port, t)
}

/// Wait for the process; exit status and peak resident size in KiB.
fn peak_of(mut ch: std::process::Child) -> (Option<i32>, i64) {
    unsafe {
        let mut status = 0;
        let mut ru: libc::rusage = std::mem::zeroed();
        if libc::wait4(ch.id() as i32, &mut status, 0, &mut ru) < 0 {
            let _ = ch.wait();
            return (None, 0);
        }
        let code = if libc::WIFEXITED(status) { Some(libc::WEXITSTATUS(status)) } else { None };
        (code, ru.ru_maxrss as i64)
    }
}
