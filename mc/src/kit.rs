//! Shared parts of the harnesses: comparable values, in-memory sources and recording sinks.
use std::cell::RefCell;
use std::collections::VecDeque;
use std::rc::Rc;

use chopper::chopper::chopper::{DataSink, HeaderSink, Source};
use chopper::chopper::types::{FieldType, FieldValue, Header, Row};
use chopper::error::{CliResult, Error};

/// Comparable and hashable copy of a field value.
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum V {
    N,
    Bool(bool),
    Byte(u8),
    Buf(Vec<u8>),
    Char(u16),
    D(u64),
    F(u32),
    I(i32),
    L(i64),
    Sh(i16),
    S(String),
}

pub type R = (u64, Vec<V>);

pub fn v(f: &FieldValue) -> V {
    match f {
        FieldValue::Boolean(x) => V::Bool(*x),
        FieldValue::Byte(x) => V::Byte(*x),
        FieldValue::ByteBuf(x) => V::Buf(x.clone()),
        FieldValue::Char(x) => V::Char(*x),
        FieldValue::Double(x) => V::D(x.to_bits()),
        FieldValue::Float(x) => V::F(x.to_bits()),
        FieldValue::Int(x) => V::I(*x),
        FieldValue::Long(x) => V::L(*x),
        FieldValue::Short(x) => V::Sh(*x),
        FieldValue::String(x) => V::S(x.clone()),
        FieldValue::None => V::N,
    }
}

pub fn fv(v: &V) -> FieldValue {
    match v {
        V::N => FieldValue::None,
        V::Bool(x) => FieldValue::Boolean(*x),
        V::Byte(x) => FieldValue::Byte(*x),
        V::Buf(x) => FieldValue::ByteBuf(x.clone()),
        V::Char(x) => FieldValue::Char(*x),
        V::D(x) => FieldValue::Double(f64::from_bits(*x)),
        V::F(x) => FieldValue::Float(f32::from_bits(*x)),
        V::I(x) => FieldValue::Int(*x),
        V::L(x) => FieldValue::Long(*x),
        V::Sh(x) => FieldValue::Short(*x),
        V::S(x) => FieldValue::String(x.clone()),
    }
}

pub fn r(row: &Row) -> R {
    (row.timestamp, row.field_values.iter().map(v).collect())
}

pub fn row(r: &R) -> Row {
    Row {
        timestamp: r.0,
        field_values: r.1.iter().map(fv).collect(),
    }
}

/// Comparable header.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct H {
    pub names: Vec<String>,
    pub types: Vec<FieldType>,
}

pub fn h(header: &Header) -> H {
    H {
        names: header.field_names().clone(),
        types: header.field_types().clone(),
    }
}

impl H {
    pub fn new(cols: &[(&str, FieldType)]) -> H {
        H {
            names: cols.iter().map(|c| c.0.to_string()).collect(),
            types: cols.iter().map(|c| c.1).collect(),
        }
    }
    pub fn header(&self) -> Header {
        Header::new(self.names.clone(), self.types.clone())
    }
}

/// Everything a source delivers.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Read {
    pub header: H,
    pub rows: Vec<R>,
    pub err: Option<String>,
}

pub fn err_text(e: &Error) -> String {
    format!("{}", e)
}

pub fn read_all(s: &mut dyn Source) -> Read {
    let header = h(s.header());
    let mut rows = Vec::new();
    loop {
        match s.next_row() {
            Ok(Some(x)) => rows.push(r(&x)),
            Ok(None) => return Read { header, rows, err: None },
            Err(e) => return Read { header, rows, err: Some(err_text(&e)) },
        }
    }
}

/// Result of opening and reading a source to its end.
pub fn open_and_read(s: CliResult<Box<dyn Source>>) -> Result<Read, String> {
    match s {
        Ok(mut s) => Ok(read_all(&mut *s)),
        Err(e) => Err(err_text(&e)),
    }
}

pub type Log<T> = Rc<RefCell<Vec<T>>>;

pub fn log<T>() -> Log<T> {
    Rc::new(RefCell::new(Vec::new()))
}

/// Source over given rows.
pub struct VecSource {
    pub header: Header,
    pub rows: VecDeque<Row>,
    pub err_at_end: Option<String>,
}

impl VecSource {
    pub fn new(header: &H, rows: &[R]) -> Box<dyn Source> {
        Box::new(VecSource {
            header: header.header(),
            rows: rows.iter().map(row).collect(),
            err_at_end: None,
        })
    }
}

impl Source for VecSource {
    fn header(&self) -> &Header {
        &self.header
    }
    fn next_row(&mut self) -> CliResult<Option<Row>> {
        match self.rows.pop_front() {
            Some(r) => Ok(Some(r)),
            None => match &self.err_at_end {
                None => Ok(None),
                Some(e) => Err(Error::from(e.clone())),
            },
        }
    }
}

/// What a recording sink sees.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ev {
    Header(usize, H),
    Row(usize, R),
    Flush(usize),
}

/// Records what reaches it under its id; passes rows on unchanged.
pub struct Rec {
    pub id: usize,
    pub log: Log<Ev>,
}

impl Rec {
    pub fn new(id: usize, log: &Log<Ev>) -> Box<dyn HeaderSink> {
        Box::new(Rec { id, log: log.clone() })
    }
}

impl HeaderSink for Rec {
    fn process_header(self: Box<Self>, header: &mut Header) -> CliResult<Box<dyn DataSink>> {
        self.log.borrow_mut().push(Ev::Header(self.id, h(header)));
        Ok(self.boxed())
    }
}

impl DataSink for Rec {
    fn write_row(&mut self, io_rows: &mut Vec<Row>) -> CliResult<()> {
        for x in io_rows.iter() {
            self.log.borrow_mut().push(Ev::Row(self.id, r(x)));
        }
        Ok(())
    }
    fn flush(&mut self) -> CliResult<()> {
        self.log.borrow_mut().push(Ev::Flush(self.id));
        Ok(())
    }
    fn boxed(self) -> Box<dyn DataSink> {
        Box::new(self)
    }
}

/// A CSV source over bytes.
pub fn csv_source(
    bytes: &[u8],
    cfg: &chopper::source::csv_configs::CSVInputConfig,
) -> CliResult<Box<dyn Source>> {
    let b: Box<dyn std::io::Read> = Box::new(std::io::Cursor::new(bytes.to_vec()));
    csv_source_from(b, cfg)
}

pub fn csv_source_from(
    b: Box<dyn std::io::Read>,
    cfg: &chopper::source::csv_configs::CSVInputConfig,
) -> CliResult<Box<dyn Source>> {
    let p = chopper::util::reader::ChopperBufPreviewer::new(b).map_err(Error::from)?;
    Ok(Box::new(chopper::source::csv_source::CSVSource::new(p, cfg)?))
}

// ---------------------------------------------------------------------------------------------
// CSV output

/// Pass header and rows through a header sink (as the driver does: one row at a time, then flush).
pub fn feed(sink: CliResult<Box<dyn HeaderSink>>, head: &H, rows: &[R]) -> Result<(), String> {
    let e = |e: Error| err_text(&e);
    let mut hd = head.header();
    let mut sink = sink.map_err(e)?.process_header(&mut hd).map_err(e)?;
    for x in rows {
        sink.write_row(&mut vec![row(x)]).map_err(e)?;
    }
    sink.flush().map_err(e)
}

// ---------------------------------------------------------------------------------------------
// the command line front end, as a process of its own

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Out {
    /// exit status, None if ended by a signal
    pub code: Option<i32>,
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
}

impl Out {
    pub fn text(&self) -> String {
        format!(
            "exit {:?}, stdout {:?}, stderr {:?}",
            self.code,
            String::from_utf8_lossy(&self.stdout),
            String::from_utf8_lossy(&self.stderr)
        )
    }
    pub fn stdout_text(&self) -> String {
        String::from_utf8_lossy(&self.stdout).to_string()
    }
    /// Ended neither by a signal nor by a panic.
    pub fn crashed(&self) -> bool {
        self.code.is_none()
            || self.code == Some(101)
            || String::from_utf8_lossy(&self.stderr).contains("panicked at")
    }
}

/// (The program ends with the check: see bin/chop.rs. Nothing is done between fork and exec, so that no
/// copy of the page tables of this process is needed.)
pub fn chop_command(args: &[&str], env: &[(&str, &str)]) -> std::process::Command {
    let exe = std::env::var_os("MC_CHOP").expect("ENGINE: MC_CHOP");
    let mut c = std::process::Command::new(exe);
    c.args(args).env_remove("CHOPPER_TZ").env("RUST_BACKTRACE", "0");
    for (k, v) in env {
        c.env(k, v);
    }
    c
}

/// Run chop; standard input is a pipe with the given bytes.
pub fn chop(args: &[&str], env: &[(&str, &str)], input: &[u8]) -> Out {
    use std::io::Write;
    use std::process::Stdio;
    let mut c = chop_command(args, env);
    c.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped());
    let mut ch = c.spawn().expect("ENGINE: cannot start chop");
    let mut pipe = ch.stdin.take().expect("ENGINE: stdin");
    let data = input.to_vec();
    let t = std::thread::spawn(move || {
        let _ = pipe.write_all(&data);
    });
    let o = ch.wait_with_output().expect("ENGINE: waiting for chop");
    let _ = t.join();
    Out { code: o.status.code(), stdout: o.stdout, stderr: o.stderr }
}

// ---------------------------------------------------------------------------------------------
// inputs

use chopper::cli::util::YesNoAuto;
use chopper::input::input::InputFormat;
use chopper::input::input_factory as inf;
use chopper::input::single_file::SingleFileInputFactory;
use chopper::source::csv_configs::*;
use chopper::transport::seekable::seekable_factory::SeekableTransportFactory;
use chopper::transport::streaming::previewer_factory::PreviewerTransportFactory;
use chopper::util::reader::ChopperBufPreviewer;
use chopper::util::tz::ChopperTz;

/// Comma, header as told, time column and format guessed, no timezone.
pub fn plain_cfg(header: YesNoAuto) -> CSVInputConfig {
    let t = TimestampConfig::new(TimestampColConfig::Auto, TimestampFmtConfig::Auto, ChopperTz::new_always_fails());
    match CSVInputConfig::new(Some(","), header, t) {
        Ok(c) => c,
        Err(e) => panic!("ENGINE: csv configuration refused: {}", err_text(&e)),
    }
}

pub fn single_factory(cfg: CSVInputConfig) -> SingleFileInputFactory {
    SingleFileInputFactory::new(
        SeekableTransportFactory::new(inf::create_default_seekable_transports()),
        PreviewerTransportFactory::new(inf::create_default_streaming_transports()),
        inf::create_default_source_factories(Some(cfg)),
    )
}

/// A source over a stream, recognised by name or as requested.
pub fn open_stream(
    reader: Box<dyn std::io::Read>,
    name: Option<&str>,
    format: Option<&str>,
    cfg: CSVInputConfig,
) -> CliResult<Box<dyn Source>> {
    let p = ChopperBufPreviewer::new(reader).map_err(Error::from)?;
    let f = match format {
        None => InputFormat::Auto,
        Some(f) => InputFormat::Extension(f.to_string()),
    };
    single_factory(cfg).create_source_from_previewer(p, name.map(|s| s.to_string()), &f)
}

/// CSV text of at least n bytes (header timeSeconds,word,n) and its rows.
pub fn sample_csv(n: usize) -> (Vec<u8>, Vec<R>) {
    let mut s = "timeSeconds,word,n\n".to_string();
    let mut rows = Vec::new();
    let mut i = 0u64;
    while s.len() < n {
        let t = 1_546_300_800 + i;
        let w = format!("w{}", (i * 2654435761) % 4096);
        s += &format!("{},{},{}\n", t, w, i % 7);
        rows.push((t * 1_000_000_000, vec![V::S(t.to_string()), V::S(w), V::S((i % 7).to_string())]));
        i += 1;
    }
    (s.into_bytes(), rows)
}

/// Bytes of a DC file, by the format's description.
pub fn dc_bytes(head: &H, rows: &[R]) -> Vec<u8> {
    let mut o = Vec::new();
    o.extend(0x4443_4154u64.to_be_bytes());
    o.extend(2u16.to_be_bytes());
    o.extend(0u32.to_be_bytes());
    o.extend((head.names.len() as u32).to_be_bytes());
    for (n, t) in head.names.iter().zip(&head.types) {
        let s = match t {
            FieldType::Boolean => "Z",
            FieldType::Byte => "B",
            FieldType::Char => "C",
            FieldType::Double => "D",
            FieldType::Float => "F",
            FieldType::Int => "I",
            FieldType::Long => "J",
            FieldType::Short => "S",
            FieldType::String => "Ljava.lang.String;",
            FieldType::ByteBuf => "Ljava.lang.ByteBuffer;",
        };
        for x in [n.as_str(), s] {
            o.extend((x.len() as u32).to_be_bytes());
            o.extend(x.as_bytes());
        }
        o.extend((-1i32).to_be_bytes()); // no display hint
    }
    for (t, vs) in rows {
        o.extend(t.to_be_bytes());
        let mut bits = vec![0u8; (vs.len() + 7) / 8];
        for (i, v) in vs.iter().enumerate() {
            if *v == V::N {
                bits[i / 8] |= 1 << (i % 8);
            }
        }
        o.extend(bits);
        for v in vs {
            match v {
                V::N => {}
                V::Bool(x) => o.push(*x as u8),
                V::Byte(x) => o.push(*x),
                V::Char(x) => o.extend(x.to_be_bytes()),
                V::D(x) => o.extend(x.to_be_bytes()),
                V::F(x) => o.extend(x.to_be_bytes()),
                V::I(x) => o.extend(x.to_be_bytes()),
                V::L(x) => o.extend(x.to_be_bytes()),
                V::Sh(x) => o.extend(x.to_be_bytes()),
                V::S(x) => {
                    if x.len() <= 32767 {
                        o.extend((x.len() as i16).to_be_bytes());
                    } else {
                        o.extend((-1i16).to_be_bytes());
                        o.extend((x.len() as u32).to_be_bytes());
                    }
                    o.extend(x.as_bytes());
                }
                V::Buf(_) => {}
            }
        }
    }
    o
}

/// DC bytes with n rows of text, integer and double columns (with nulls), and the rows.
pub fn sample_dc(n: usize) -> (Vec<u8>, H, Vec<R>) {
    let head = H::new(&[("word", FieldType::String), ("n", FieldType::Int), ("d", FieldType::Double)]);
    let rows: Vec<R> = (0..n as u64)
        .map(|i| {
            let w = V::S(format!("w{}", (i * 2654435761) % 4096));
            (i * 1_000_000_007, vec![w, if i % 5 == 2 { V::N } else { V::I(i as i32) }, V::D((i as f64).to_bits())])
        })
        .collect();
    (dc_bytes(&head, &rows), head, rows)
}

/// A reader that gives its bytes as `plan` says: it is told the position and the number of bytes
/// wanted and answers how many to give (at least 1 is given before the end) or an error.
pub struct Pieces<F> {
    pub data: Vec<u8>,
    pub pos: usize,
    pub plan: F,
}

impl<F: FnMut(usize, usize) -> Result<usize, std::io::ErrorKind>> std::io::Read for Pieces<F> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        match (self.plan)(self.pos, buf.len()) {
            Err(k) => Err(std::io::Error::new(k, "injected")),
            Ok(n) => {
                if self.pos >= self.data.len() || buf.is_empty() {
                    return Ok(0);
                }
                let n = n.max(1).min(buf.len()).min(self.data.len() - self.pos);
                buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
                self.pos += n;
                Ok(n)
            }
        }
    }
}

impl<F> std::io::Seek for Pieces<F> {
    fn seek(&mut self, to: std::io::SeekFrom) -> std::io::Result<u64> {
        use std::io::SeekFrom::*;
        let p = match to {
            Start(x) => x as i64,
            End(x) => self.data.len() as i64 + x,
            Current(x) => self.pos as i64 + x,
        };
        if p < 0 {
            return Err(std::io::Error::new(std::io::ErrorKind::InvalidInput, "seek before start"));
        }
        self.pos = p as usize;
        Ok(p as u64)
    }
}

pub fn brief(r: &Result<Read, String>) -> String {
    match r {
        Ok(r) => format!(
            "columns {:?}, {} rows, the last {:?}, error {:?}",
            r.header.names,
            r.rows.len(),
            r.rows.last(),
            r.err
        ),
        Err(e) => format!("error {}", e),
    }
}
