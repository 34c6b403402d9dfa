//! C17: a directory reads as its files joined in name order, columns by name.
use std::collections::BTreeMap;
use std::io::{self, Cursor};
use std::path::{Path, PathBuf};
use std::rc::Rc;

use chopper::chopper::types::FieldType;
use chopper::cli::util::YesNoAuto;
use chopper::error::{CliResult, Error};
use chopper::input::files_in_dir_provider::FilesInDirPathProvider;
use chopper::input::input::{Input, InputFormat, InputType};
use chopper::input::input_factory::{create_default_source_factories, InputFactory};
use chopper::input::serial_multi_file_provider::SerialMultiFilePathProvider;
use chopper::input::single_file::SingleFileInputFactory;
use chopper::source::multi_file_source::SerialMultiFileSource;
use chopper::transport::dir::dir_transport::DirTransport;
use chopper::transport::dir::file::DirFileTransport;
use chopper::transport::seekable::seekable_factory::SeekableTransportFactory;
use chopper::transport::streaming::previewer_factory::PreviewerTransportFactory;
use chopper::transport::streaming::streaming_transport::StreamingTransport;
use mc::kit::*;
use mc::pack::*;
use mc::*;

// ---------------------------------------------------------------------------------------------
// files and directories in memory

#[derive(Clone)]
struct Mem(Rc<BTreeMap<PathBuf, Vec<u8>>>);

impl StreamingTransport for Mem {
    fn can_open(&self, path: &Path) -> bool {
        self.0.contains_key(path)
    }
    fn open(&self, path: &Path) -> io::Result<Box<dyn io::Read>> {
        match self.0.get(path) {
            Some(b) => Ok(Box::new(Cursor::new(b.clone()))),
            None => Err(io::Error::new(io::ErrorKind::NotFound, "no such file in memory")),
        }
    }
    fn box_clone(&self) -> Box<dyn StreamingTransport> {
        Box::new(self.clone())
    }
    fn name(&self) -> &str {
        "memory"
    }
}

/// A directory listing in a given order; names ending with '/' are directories.
#[derive(Clone)]
struct Listing(Vec<String>);

impl DirTransport for Listing {
    fn can_handle(&self, _: &Path) -> bool {
        true
    }
    fn is_dir(&self, path: &Path) -> bool {
        match path.strip_prefix("/d") {
            Ok(p) => p.as_os_str().is_empty() || self.0.contains(&format!("{}/", p.display())),
            Err(_) => false,
        }
    }
    fn read_dir(&self, path: &Path) -> CliResult<Box<dyn Iterator<Item = PathBuf>>> {
        let v: Vec<PathBuf> = self.0.iter().map(|n| path.join(n.trim_end_matches('/'))).collect();
        Ok(Box::new(v.into_iter()))
    }
    fn box_clone(&self) -> Box<dyn DirTransport> {
        Box::new(self.clone())
    }
    fn name(&self) -> &str {
        "listing"
    }
}

struct Given(Vec<PathBuf>);

impl SerialMultiFilePathProvider for Given {
    fn get_next_path(&mut self) -> Option<PathBuf> {
        if self.0.is_empty() {
            None
        } else {
            Some(self.0.remove(0))
        }
    }
}

struct Numbered {
    next: usize,
    n: usize,
    path: Box<dyn Fn(usize) -> PathBuf>,
}

impl SerialMultiFilePathProvider for Numbered {
    fn get_next_path(&mut self) -> Option<PathBuf> {
        if self.next == self.n {
            return None;
        }
        self.next += 1;
        Some((self.path)(self.next - 1))
    }
}

/// Read the given in-memory files, in this order, as one input.
fn read_given(files: &[(String, Vec<u8>)], common: Option<&H>) -> Result<Read, String> {
    let mem = Mem(Rc::new(files.iter().map(|(n, b)| (PathBuf::from(n), b.clone())).collect()));
    let f = SingleFileInputFactory::new(
        SeekableTransportFactory::new(vec![]),
        PreviewerTransportFactory::new(vec![Box::new(mem)]),
        create_default_source_factories(Some(plain_cfg(YesNoAuto::Yes))),
    );
    let g = Given(files.iter().map(|f| PathBuf::from(&f.0)).collect());
    let s = SerialMultiFileSource::new(f, Box::new(g), InputFormat::Auto, common.map(|h| h.header()));
    open_and_read(s.map(|s| Box::new(s) as Box<dyn chopper::chopper::chopper::Source>))
}

fn read_dir(path: &str, format: Option<&str>) -> Result<Read, String> {
    let mut f = match InputFactory::new(plain_cfg(YesNoAuto::Yes), None, None) {
        Ok(f) => f,
        Err(e) => return Err(err_text(&e)),
    };
    open_and_read(match format {
        None => f.create_source_from_path(path),
        Some(x) => f.create_source_from_input(&Input {
            input: InputType::Path(path.to_string()),
            format: InputFormat::Extension(x.to_string()),
        }),
    })
}

// ---------------------------------------------------------------------------------------------
// what should come of it

struct File {
    name: String,
    head: H,
    rows: Vec<R>,
    /// cannot be read to its end
    bad: bool,
}

fn join(files: &[File], common: Option<&H>) -> Result<Read, String> {
    let head = match (common, files.first()) {
        (Some(h), _) => h.clone(),
        (None, Some(f)) => f.head.clone(),
        (None, None) => H::new(&[]),
    };
    let mut rows = Vec::new();
    for (k, f) in files.iter().enumerate() {
        let mut map = Vec::new();
        let mut err = None;
        for (n, t) in head.names.iter().zip(&head.types) {
            match f.head.names.iter().position(|x| x == n) {
                Some(i) if f.head.types[i] == *t => map.push(i),
                Some(_) => err = Some(format!("type of {}", n)),
                None => err = Some(format!("no {}", n)),
            }
        }
        if let Some(e) = err {
            return if k == 0 { Err(e) } else { Ok(Read { header: head, rows, err: Some(e) }) };
        }
        for r in &f.rows {
            rows.push((r.0, map.iter().map(|&i| r.1[i].clone()).collect()));
        }
        if f.bad {
            return Ok(Read { header: head, rows, err: Some("bad file".into()) });
        }
    }
    Ok(Read { header: head, rows, err: None })
}

fn compare(ctx: &mut Ctx, got: &Result<Read, String>, want: &Result<Read, String>, what: &dyn Fn() -> String) -> Res {
    ctx.outcome(got);
    ctx.note(|| format!("{}: {}", what(), brief(got)));
    let same = match (got, want) {
        (Err(_), Err(_)) => true,
        (Ok(a), Ok(b)) => a.header == b.header && a.rows == b.rows && a.err.is_some() == b.err.is_some(),
        _ => false,
    };
    if same {
        return Ok(());
    }
    if let (Ok(a), Ok(b)) = (got, want) {
        if let Some(i) = (0..a.rows.len().max(b.rows.len())).find(|&i| a.rows.get(i) != b.rows.get(i)) {
            return Err(format!(
                "{}: row {} is {:?}, expected {:?} (error {:?}, expected {:?})",
                what(),
                i,
                a.rows.get(i),
                b.rows.get(i),
                a.err,
                b.err
            ));
        }
    }
    Err(format!("{}: {}; expected {}", what(), brief(got), brief(want)))
}

const TYPES: [FieldType; 6] = [
    FieldType::Int,
    FieldType::String,
    FieldType::Double,
    FieldType::Byte,
    FieldType::String,
    FieldType::Short,
];

fn type_of(col: usize) -> FieldType {
    TYPES[col % 6]
}

/// A value that tells its column, file and row; null now and then.
fn value(col: usize, t: FieldType, file: usize, row: usize) -> V {
    let x = (col * 100 + file * 10 + row) as i64;
    if (col + file + row * 2) % 4 == 3 {
        return V::N;
    }
    match t {
        FieldType::Int => V::I(x as i32),
        FieldType::Double => V::D((x as f64 / 8.0).to_bits()),
        FieldType::Byte => V::Byte(x as u8),
        FieldType::Short => V::Sh(x as i16),
        _ => V::S(format!("v{}", x)),
    }
}

/// A file with the given columns (their numbers; those named 50 and more are extra ones).
fn file(name: &str, cols: &[usize], k: usize, rows: usize) -> File {
    let head = H {
        names: cols.iter().map(|c| format!("c{}", c)).collect(),
        types: cols.iter().map(|c| type_of(*c)).collect(),
    };
    let rows = (0..rows)
        .map(|r| {
            let t = (1000000 - 100 * k as u64 + r as u64) * 1_000_000_000; // each file starts before the preceding one
            (t, cols.iter().map(|c| value(*c, type_of(*c), k, r)).collect())
        })
        .collect();
    File { name: name.to_string(), head, rows, bad: false }
}

/// As CSV: everything is text then, null is empty text, the time a column of its own.
fn to_csv(f: &File) -> (Vec<u8>, File) {
    let text = |v: &V| match v {
        V::N => String::new(),
        V::I(x) => x.to_string(),
        V::L(x) => x.to_string(),
        V::D(x) => f64::from_bits(*x).to_string(),
        V::Byte(x) => x.to_string(),
        V::Sh(x) => x.to_string(),
        V::S(x) => x.clone(),
        _ => panic!("ENGINE: value"),
    };
    let mut names = f.head.names.clone();
    names.insert(names.len() / 2, "timeSeconds".to_string());
    let mut out = names.join(",") + "\n";
    let mut rows = Vec::new();
    for (t, vs) in &f.rows {
        let mut cells: Vec<String> = vs.iter().map(text).collect();
        cells.insert(f.head.names.len() / 2, (t / 1_000_000_000).to_string());
        out += &(cells.join(",") + "\n");
        rows.push((*t, cells.into_iter().map(V::S).collect()));
    }
    let head = H { types: vec![FieldType::String; names.len()], names };
    (out.into_bytes(), File { name: f.name.clone(), head, rows, bad: f.bad })
}

fn permutation(ctx: &mut Ctx, mut v: Vec<usize>) -> Vec<usize> {
    let mut out = Vec::new();
    while !v.is_empty() {
        let i = ctx.choose(v.len());
        out.push(v.remove(i));
    }
    out
}

const NAMES: [&str; 12] = [
    "1.csv", "10.csv", "2.csv", "02.csv", "a.csv", "B.csv", "a-b.csv", "a b.csv", ".h.csv", "\u{e9}.csv", "a.b.csv", "aa.csv",
];

fn main() {
    mc::main("C17", Level::ModelChecking, |c| {
        let t = c.thorough;
        c.scenario(
            "columns",
            "dc files: first file of 1..=4 (thorough 5) columns; the next one has these and 0..=2 extra columns in any order, or lacks any column (with or without another in its place), or has any with another type, with or without a given common header; no files at all with one",
            0,
            move |ctx| {
                let n = 1 + ctx.choose(if t { 5 } else { 4 });
                let mut cols: Vec<usize> = (0..n).collect();
                let extra = ctx.choose(3);
                cols.extend((0..extra).map(|e| 50 + 3 * e));
                let wrong = ctx.choose(3);
                let at = if wrong > 0 { ctx.choose(n) } else { 0 };
                if wrong == 1 {
                    cols.remove(at);
                }
                let cols = permutation(ctx, cols);
                // 3: a header but no files at all
                let given = ctx.choose(4);
                let mut files = vec![];
                let first: Vec<usize> = (0..n).collect();
                if given < 2 {
                    files.push(file("m1.dc", &first, 0, 2));
                }
                let mut f = file("m2.dc", &cols, 1, 3);
                if wrong == 2 {
                    if let Some(i) = cols.iter().position(|c| *c == at) {
                        let t = if f.head.types[i] == FieldType::Int { FieldType::Char } else { FieldType::Int };
                        f.head.types[i] = t;
                        for (r, row) in f.rows.iter_mut().enumerate() {
                            row.1[i] = if t == FieldType::Int { V::I(r as i32) } else { V::Char(r as u16) };
                        }
                    }
                }
                if given < 3 {
                    files.push(f);
                    files.push(file("m3.dc", &first, 2, 1));
                }
                let common = if given > 0 { Some(file("", &first, 0, 0).head) } else { None };
                let bytes: Vec<(String, Vec<u8>)> =
                    files.iter().map(|f| (f.name.clone(), dc_bytes(&f.head, &f.rows))).collect();
                ctx.step(&(&cols, wrong, at, given, n));
                let got = read_given(&bytes, common.as_ref());
                let want = join(&files, common.as_ref());
                compare(ctx, &got, &want, &|| format!("columns {:?} after c0..c{}, wrong {} {}, given header {}", cols, n - 1, wrong, at, given))
            },
        );
        c.scenario(
            "three-orders",
            "four dc files: 3 columns in the first, the second, third and fourth with any order of these and one extra one (13824 ways)",
            0,
            move |ctx| {
                let a = permutation(ctx, vec![0, 1, 2, 50]);
                let k = ctx.choose(24);
                let mut b = vec![0, 1, 2, 51];
                let mut p = Vec::new();
                let mut k = k;
                for m in (1..=4).rev() {
                    p.push(b.remove(k % m));
                    k /= m;
                }
                let d = permutation(ctx, vec![0, 1, 2, 52]);
                let files = vec![
                    file("m1.dc", &[0, 1, 2], 0, 1),
                    file("m2.dc", &a, 1, 2),
                    file("m3.dc", &p, 2, 2),
                    file("m4.dc", &d, 3, 1),
                ];
                let bytes: Vec<(String, Vec<u8>)> =
                    files.iter().map(|f| (f.name.clone(), dc_bytes(&f.head, &f.rows))).collect();
                ctx.step(&(&a, &p, &d));
                let got = read_given(&bytes, None);
                let want = join(&files, None);
                compare(ctx, &got, &want, &|| format!("columns {:?}, {:?}, {:?} after c0..c2", a, p, d))
            },
        );
        c.scenario(
            "many-columns",
            "dc and csv files of 7..=40 columns: the next one reversed, rotated by any number, any two exchanged, with an extra column at any place",
            0,
            move |ctx| {
                let n = *ctx.pick(if t { &[7usize, 8, 9, 15, 16, 17, 24, 40][..] } else { &[8, 9, 17][..] });
                let mut cols: Vec<usize> = (0..n).collect();
                match ctx.choose(4) {
                    0 => {
                        let k = ctx.choose(n);
                        cols.rotate_left(k)
                    }
                    1 => cols.reverse(),
                    2 => {
                        let a = ctx.choose(n);
                        let b = ctx.choose(n);
                        cols.swap(a, b)
                    }
                    _ => cols.insert(ctx.choose(n + 1), 50),
                }
                let csv = ctx.flag();
                let mut files = vec![
                    file("m1", &(0..n).collect::<Vec<_>>(), 0, 1),
                    file("m2", &cols, 1, 2),
                    file("m3", &(0..n).collect::<Vec<_>>(), 2, 1),
                ];
                let mut bytes = vec![];
                for f in &mut files {
                    f.name += if csv { ".csv" } else { ".dc" };
                    if csv {
                        let (b, g) = to_csv(f);
                        bytes.push((f.name.clone(), b));
                        *f = g;
                    } else {
                        bytes.push((f.name.clone(), dc_bytes(&f.head, &f.rows)));
                    }
                }
                ctx.step(&(&cols, csv));
                let got = read_given(&bytes, None);
                let want = join(&files, None);
                compare(ctx, &got, &want, &|| format!("columns {:?} after c0..c{}, csv {}", cols, n - 1, csv))
            },
        );
        c.scenario(
            "listing-order",
            "all listings of 4 (thorough 5) of 12 names with a sub-directory among them, in each order in which the file system may give them",
            0,
            move |ctx| {
                let k = if t { 5 } else { 4 };
                let mut from = 0;
                let mut set = Vec::new();
                for left in (0..k).rev() {
                    let i = from + ctx.choose(NAMES.len() - from - left);
                    set.push(NAMES[i].to_string());
                    from = i + 1;
                }
                let order = permutation(ctx, (0..k).collect());
                let mut names: Vec<String> = order.iter().map(|&i| set[i].clone()).collect();
                names.insert(order[0], "aaa.csv/".to_string());
                ctx.step(&names);
                let tr: Box<dyn DirTransport> = Box::new(Listing(names.clone()));
                let mut got = Vec::new();
                match FilesInDirPathProvider::new(&tr, Path::new("/d")) {
                    Ok(mut p) => {
                        while let Some(x) = p.get_next_path() {
                            got.push(x.file_name().map_or(String::new(), |n| n.to_string_lossy().to_string()));
                            if got.len() > 20 {
                                break;
                            }
                        }
                    }
                    Err(e) => return Err(format!("listing {:?}: {}", names, err_text(&e))),
                }
                ctx.outcome(&got);
                ctx.note(|| format!("{:?}: {:?}", names, got));
                let mut want = set.clone();
                want.sort_by(|a, b| a.as_bytes().cmp(b.as_bytes()));
                ensure!(got == want, "listing {:?}: files taken {:?}, expected {:?}", names, got, want);
                Ok(())
            },
        );
        c.scenario(
            "listing-order-of-bytes",
            "all real directories of 2 or 3 of 14 names (letters of 1 to 4 bytes, both forms of an accented letter, capitals, what is no UTF-8): files taken in byte order",
            0,
            move |ctx| {
                use std::os::unix::ffi::{OsStrExt, OsStringExt};
                let all: [&[u8]; 14] = [
                    b"e", b"f", b"E", b"z", b"e\xcc\x81", b"\xc3\xa9", b"\xef\xbf\xbd", b"\xf0\x9f\x98\x80", b"\xee\x80\x80", b"\xff", b"\xfe", b"\x80", b"\xc3", b"\xc3\x28",
                ];
                let k = 2 + ctx.choose(2);
                let mut from = 0;
                let mut want: Vec<Vec<u8>> = Vec::new();
                for left in (0..k).rev() {
                    let i = from + ctx.choose(all.len() - from - left);
                    want.push([all[i], b".csv"].concat());
                    from = i + 1;
                }
                ctx.step(&want);
                let dir = ctx.fresh_dir().join("d");
                std::fs::create_dir(&dir).expect("ENGINE: directory");
                for f in &want {
                    std::fs::write(dir.join(std::ffi::OsStr::from_bytes(f)), "timeSeconds,q\n1,2\n").expect("ENGINE: write");
                }
                want.sort();
                let tr: Box<dyn DirTransport> = Box::new(DirFileTransport);
                let mut p = FilesInDirPathProvider::new(&tr, &dir).map_err(|e| err_text(&e))?;
                let mut got = Vec::new();
                while let Some(x) = p.get_next_path() {
                    got.push(x.file_name().map_or(Vec::new(), |n| n.to_os_string().into_vec()));
                    ensure!(got.len() < 10, "no end of files");
                }
                ctx.outcome(&got);
                ensure!(got == want, "files taken {:?}, expected {:?}", got, want);
                Ok(())
            },
        );
        c.scenario(
            "file-names",
            "a real directory of a.csv, z.csv and a file with any of 94 ascii characters (or 12 others, among them line ends and what is no UTF-8) or 22 names and endings \
             (hidden, backups, temporary, parts, capitals) at the start, in the middle, before the ending, at the end or as all of its name: it is taken, in its place",
            0,
            move |ctx| {
                let mut odd: Vec<Vec<u8>> = (32..127u8).filter(|b| *b != b'/').map(|b| vec![b]).collect();
                odd.extend([&b"\n"[..], b"\r", b"\t", b"\x01", b"\x7f", b"\xff", b"\x80", "\u{e9}".as_bytes(), "\u{feff}".as_bytes(), "\u{2028}".as_bytes(), "\u{10ffff}".as_bytes(), b"\xc3"].map(|x| x.to_vec()));
                odd.extend(
                    [
                        "..", "...", ".swp", ".tmp", ".bak", ".old", ".part", ".crc", ".lock", "._", "_SUCCESS", ".DS_Store", ".csv", ".CSV", ".dc", ".txt", ".gz", "lost+found",
                        "CON", "-", "--help", ".d",
                    ]
                    .map(|x| x.as_bytes().to_vec()),
                );
                let o = ctx.pick(&odd).clone();
                let name = match ctx.choose(5) {
                    0 => [&o[..], b"m.csv"].concat(),
                    1 => [b"m", &o[..], b"n.csv"].concat(),
                    2 => [b"mn.", &o[..], b"csv"].concat(),
                    3 => [b"m.csv", &o[..]].concat(),
                    _ => o,
                };
                if [&b"."[..], b".."].contains(&&name[..]) {
                    return Ok(());
                }
                use std::os::unix::ffi::{OsStrExt, OsStringExt};
                let mut want: Vec<Vec<u8>> = vec![b"a.csv".to_vec(), name.clone(), b"z.csv".to_vec()];
                ctx.step(&name);
                let dir = ctx.fresh_dir().join("d");
                std::fs::create_dir(&dir).expect("ENGINE: directory");
                for f in &want {
                    std::fs::write(dir.join(std::ffi::OsStr::from_bytes(f)), "timeSeconds,q\n1,2\n").expect("ENGINE: write");
                }
                want.sort();
                let tr: Box<dyn DirTransport> = Box::new(DirFileTransport);
                let mut p = FilesInDirPathProvider::new(&tr, &dir).map_err(|e| err_text(&e))?;
                let mut got = Vec::new();
                while let Some(x) = p.get_next_path() {
                    got.push(x.file_name().map_or(Vec::new(), |n| n.to_os_string().into_vec()));
                    ensure!(got.len() < 10, "no end of files");
                }
                ctx.outcome(&got);
                ctx.note(|| format!("{:?}: {:?}", String::from_utf8_lossy(&name), got.iter().map(|x| String::from_utf8_lossy(x)).collect::<Vec<_>>()));
                ensure!(got == want, "directory with {:?}: {} files taken, {:?}", String::from_utf8_lossy(&name), got.len(), got.iter().map(|x| String::from_utf8_lossy(x)).collect::<Vec<_>>());
                Ok(())
            },
        );
        c.scenario(
            "directories",
            "real directories of 0..=4 files with 0..=2 rows each, csv, dc or both, plain or packed (gz, zst, lz4, zip), sub-directories (with files) before, between and after, links to a file and to a directory",
            0,
            move |ctx| {
                let dir = ctx.fresh_dir();
                let d = dir.join("in.dir");
                std::fs::create_dir(&d).expect("ENGINE: directory");
                let n = ctx.choose(5);
                let kind = ctx.choose(3); // dc, csv or both with nothing but text columns
                let mut files = Vec::new();
                let subs = ctx.choose(3);
                let mut names: Vec<usize> = (0..n).collect();
                // created in any of these orders
                match ctx.choose(if n > 1 { 2 } else { 1 }) {
                    0 => {}
                    _ => names.reverse(),
                }
                let mut slots: Vec<Option<File>> = (0..n).map(|_| None).collect();
                for k in names {
                    let rows = ctx.choose(if k == 3 { 2 } else { 3 });
                    let pk = if t { ctx.choose(5) } else { (k + rows + n) % 5 };
                    let mut cols = vec![0, 1, 2];
                    cols.rotate_left(k % 3);
                    let f = file(["01", "1", "10", "a"][k], &cols, k, rows);
                    let (b, f, s) = if kind > 0 {
                        let (b, f) = to_csv(&f);
                        if kind == 2 && k % 2 == 1 {
                            (dc_bytes(&f.head, &f.rows), f, ".dc")
                        } else {
                            (b, f, ".csv")
                        }
                    } else {
                        (dc_bytes(&f.head, &f.rows), f, ".dc")
                    };
                    let name = format!("{}{}", f.name, s);
                    let (name, b) = match pk {
                        0 => (name, b),
                        1 => (name + ".gz", gzip(&b, 0, 6, 0)),
                        2 => {
                            let p = packers().into_iter().find(|p| p.name == "zstd").expect("ENGINE: zstd");
                            (name + ".zst", (p.pack)(&b))
                        }
                        3 => {
                            let p = packers().into_iter().find(|p| p.name == "lz4").expect("ENGINE: lz4");
                            (name + ".lz4", (p.pack)(&b))
                        }
                        _ => (name.replace('.', "-") + ".zip", Zip::of(Member::new(&format!("x{}", s), &b, 8)).bytes()),
                    };
                    if subs == 2 && k == 1 {
                        // a link to a file elsewhere
                        std::fs::write(dir.join("elsewhere"), &b).expect("ENGINE: write");
                        std::os::unix::fs::symlink(dir.join("elsewhere"), d.join(&name)).expect("ENGINE: link");
                    } else {
                        std::fs::write(d.join(&name), &b).expect("ENGINE: write");
                    }
                    slots[k] = Some(File { name, ..f });
                }
                files.extend(slots.into_iter().flatten());
                files.sort_by(|a, b| a.name.as_bytes().cmp(b.name.as_bytes()));
                if subs > 0 {
                    for s in ["0.csv", "1.dc.d", "zz.dc"] {
                        std::fs::create_dir(d.join(s)).expect("ENGINE: directory");
                        std::fs::write(d.join(s).join("00.csv"), "timeSeconds,q\n1,2\n").expect("ENGINE: write");
                    }
                    if subs == 2 {
                        std::os::unix::fs::symlink(d.join("0.csv"), d.join("00.csv")).expect("ENGINE: link");
                    }
                }
                let slash = ctx.flag();
                let path = d.to_string_lossy().to_string() + if slash { "/" } else { "" };
                ctx.step(&files.iter().map(|f| (f.name.clone(), f.rows.len())).collect::<Vec<_>>());
                ctx.step(&(subs, slash));
                let got = read_dir(&path, None);
                let want = join(&files, None);
                compare(ctx, &got, &want, &|| {
                    format!("directory of {:?}", files.iter().map(|f| (&f.name, f.rows.len())).collect::<Vec<_>>())
                })
            },
        );
        c.scenario(
            "empty-files",
            "real directories of 1 to 4 csv (or packed csv) files, each of two rows, of a header only or of no bytes: one of no bytes has no columns, so the \
             others' are dropped if it is the first, and it lacks them if it is not",
            0,
            |ctx| {
                let dir = ctx.fresh_dir();
                let d = dir.join("in.dir");
                std::fs::create_dir(&d).expect("ENGINE: directory");
                let n = 1 + ctx.choose(4);
                let gz = ctx.flag();
                let mut files = Vec::new();
                for k in 0..n {
                    let how = ctx.choose(3);
                    let (b, mut f) = to_csv(&file(&format!("{}", k), &[0, 1, 2], k, if how == 0 { 2 } else { 0 }));
                    f.name = format!("{}.csv{}", k, if gz { ".gz" } else { "" });
                    let b = if how == 2 { vec![] } else { b };
                    if how == 2 {
                        f.head = H::new(&[]);
                    }
                    std::fs::write(d.join(&f.name), if gz { gzip(&b, 0, 6, 0) } else { b }).expect("ENGINE: write");
                    ctx.step(&(k, how, gz, n));
                    files.push(f);
                }
                let got = read_dir(&d.to_string_lossy(), None);
                let want = join(&files, None);
                compare(ctx, &got, &want, &|| {
                    format!("directory of {:?}", files.iter().map(|f| (&f.name, f.head.names.len(), f.rows.len())).collect::<Vec<_>>())
                })
            },
        );
        c.scenario(
            "failing-file",
            "5 files of which one is cut off, of no known format, gone, lacks a column, has another type, or is without rows and lacks a column",
            0,
            move |ctx| {
                let k = ctx.choose(5);
                let how = ctx.choose(6);
                let kind = ctx.flag(); // csv?
                let rows = [ctx.choose(3), ctx.choose(2)];
                if kind && (how == 0 || how == 4) {
                    return Ok(());
                }
                let mut files = Vec::new();
                let mut bytes = Vec::new();
                let mut gone = Vec::new();
                for i in 0..5 {
                    let mut cols = vec![0, 1, 2, 4];
                    cols.rotate_left(i % 2);
                    if i == k && (how == 3 || how == 5) {
                        cols.remove(1);
                    }
                    let n = if i == k && how == 5 { 0 } else { rows[i % 2] + (i == k) as usize };
                    let mut f = file(&format!("m{}", i), &cols, i, n);
                    if i == k && how == 4 {
                        f.head.types[0] = FieldType::Char;
                        for r in &mut f.rows {
                            r.1[0] = V::Char(7);
                        }
                    }
                    let (mut b, mut f) = if kind { to_csv(&f) } else { (dc_bytes(&f.head, &f.rows), f) };
                    f.name += if kind { ".csv" } else { ".dc" };
                    if i == k {
                        match how {
                            0 => {
                                f.bad = true;
                                f.rows.pop();
                                b.pop();
                            }
                            1 => {
                                // cannot be opened at all
                                b = b"\xff\xfe\xff".to_vec();
                                f.name = f.name.replace('.', "_");
                                f.head = H::new(&[]);
                                f.rows.clear();
                            }
                            2 => {
                                f.head = H::new(&[]);
                                f.rows.clear();
                                gone.push(f.name.clone());
                            }
                            _ => {}
                        }
                    }
                    bytes.push((f.name.clone(), b));
                    files.push(f);
                }
                ctx.step(&(k, how, kind, rows));
                // a file that is gone is listed but cannot be opened
                let listed: Vec<PathBuf> = bytes.iter().map(|f| PathBuf::from(&f.0)).collect();
                let mem = Mem(Rc::new(
                    bytes.iter().filter(|f| !gone.contains(&f.0)).map(|(n, b)| (PathBuf::from(n), b.clone())).collect(),
                ));
                let f = SingleFileInputFactory::new(
                    SeekableTransportFactory::new(vec![]),
                    PreviewerTransportFactory::new(vec![Box::new(mem)]),
                    create_default_source_factories(Some(plain_cfg(YesNoAuto::Yes))),
                );
                let s = SerialMultiFileSource::new(f, Box::new(Given(listed)), InputFormat::Auto, None);
                let got = open_and_read(s.map(|s| Box::new(s) as Box<dyn chopper::chopper::chopper::Source>));
                let mut want = join(&files, None);
                if k == 0 && (how == 1 || how == 2) {
                    want = Err("the first file cannot be opened".into());
                }
                if k == 0 && how == 3 || k == 0 && how == 5 || k == 0 && how == 4 {
                    return Ok(()); // then it is the others that differ: other cases of this scenario
                }
                compare(ctx, &got, &want, &|| format!("file {} of 5 wrong in way {}, csv {}, rows {:?}", k, how, kind, rows))
            },
        );
        c.scenario(
            "many-files",
            "5000 files, all but the 1st, n-th or last without rows, all with moved columns",
            0,
            move |ctx| {
                let at = *ctx.pick(&[0usize, 1, 77, 4999]);
                let bare = dc_bytes(&file("", &[1, 50, 0], 0, 0).head, &[]);
                let mut files = Vec::new();
                let mut want = Vec::new();
                for i in 0..5000 {
                    let f = file("", if i == 0 { &[0, 1] } else { &[1, 50, 0] }, i, (i == at) as usize);
                    want.extend(f.rows.iter().map(|r| if i == 0 { r.clone() } else { (r.0, vec![r.1[2].clone(), r.1[0].clone()]) }));
                    let b = if i == 0 || i == at { dc_bytes(&f.head, &f.rows) } else { bare.clone() };
                    files.push((format!("m{}.dc", i), b));
                }
                ctx.step(&at);
                let got = read_given(&files, None);
                let want = Ok(Read { header: file("", &[0, 1], 0, 0).head, rows: want, err: None });
                compare(ctx, &got, &want, &|| format!("5000 files, only file {} with a row", at))
            },
        );
        c.scenario(
            "many-files-without-rows",
            "50000 (thorough 500000) csv files of a header only, with a row in none of them, in the first, in the last or in each 20000th, read with a stack of 2 MB",
            0,
            move |ctx| {
                let n = if t { 500000 } else { 50000 };
                let kind = ctx.choose(4);
                let has = move |i: usize| match kind {
                    0 => false,
                    1 => i == 0,
                    2 => i == n - 1,
                    _ => i % 20000 == 19999,
                };
                ctx.step(&(n, kind));
                let th = std::thread::Builder::new().stack_size(2 << 20).spawn(move || {
                    let mut mem = BTreeMap::new();
                    mem.insert(PathBuf::from("e.csv"), b"timeSeconds,a\n".to_vec());
                    mem.insert(PathBuf::from("r.csv"), b"timeSeconds,a\n1546300800,x\n".to_vec());
                    let f = SingleFileInputFactory::new(
                        SeekableTransportFactory::new(vec![]),
                        PreviewerTransportFactory::new(vec![Box::new(Mem(Rc::new(mem)))]),
                        create_default_source_factories(Some(plain_cfg(YesNoAuto::Yes))),
                    );
                    let g = Numbered { next: 0, n, path: Box::new(move |i| PathBuf::from(if has(i) { "r.csv" } else { "e.csv" })) };
                    let s = SerialMultiFileSource::new(f, Box::new(g), InputFormat::Auto, None);
                    open_and_read(s.map(|s| Box::new(s) as Box<dyn chopper::chopper::chopper::Source>))
                });
                let got = match th.map(|h| h.join()) {
                    Ok(Ok(x)) => x,
                    Ok(Err(_)) => return Err("reading panics".into()),
                    Err(e) => panic!("ENGINE: thread {}", e),
                };
                let row = || (1546300800 * 1_000_000_000, vec![V::S("1546300800".into()), V::S("x".into())]);
                let want = Ok(Read {
                    header: H::new(&[("timeSeconds", FieldType::String), ("a", FieldType::String)]),
                    rows: (0..n).filter(|i| has(*i)).map(|_| row()).collect(),
                    err: None,
                });
                compare(ctx, &got, &want, &|| format!("{} files, rows in way {}", n, kind))
            },
        );
        c.scenario(
            "alike-names",
            "2 dc or csv files: the first of 2 or 3 columns of any of 8 names, no two the same, most alike but for case, blanks around or a look-alike letter; the second of \
             1 to 4 of these: a column has the first's name only if it is the same to the byte",
            0,
            move |ctx| {
                let pool = ["a", "A", " a", "a ", "aa", "\u{e4}", "a\u{308}", "\u{c4}"];
                let csv = ctx.flag();
                let some = |ctx: &mut Ctx, lo: usize, hi: usize| -> Vec<usize> {
                    let n = lo + ctx.choose(hi - lo + 1);
                    let mut left: Vec<usize> = (0..pool.len()).collect();
                    (0..n).map(|_| { let i = ctx.choose(left.len()); left.remove(i) }).collect()
                };
                let one = some(ctx, 2, if t { 3 } else { 2 });
                let two = some(ctx, 1, if t { 4 } else { 3 });
                let make = |cols: &[usize], k: usize| {
                    let names: Vec<String> = cols.iter().map(|c| pool[*c].to_string()).collect();
                    let rows = vec![((1000 + k as u64) * 1_000_000_000, cols.iter().map(|c| V::S(format!("f{}c{}", k, c))).collect())];
                    File { name: format!("{}.{}", k, if csv { "csv" } else { "dc" }), head: H { types: vec![FieldType::String; names.len()], names }, rows, bad: false }
                };
                let mut files = Vec::new();
                let mut want = Vec::new();
                for f in [make(&one, 0), make(&two, 1)] {
                    if csv {
                        let (b, mut g) = to_csv(&f);
                        // blanks around names are not part of them in csv
                        for n in g.head.names.iter_mut() {
                            *n = n.trim().to_string();
                        }
                        files.push((f.name.clone(), b));
                        want.push(g);
                    } else {
                        files.push((f.name.clone(), dc_bytes(&f.head, &f.rows)));
                        want.push(f);
                    }
                }
                if csv && want.iter().any(|f| (0..f.head.names.len()).any(|i| f.head.names[..i].contains(&f.head.names[i]))) {
                    return Ok(()); // repeated names are another scenario's
                }
                ctx.step(&(&one, &two, csv));
                let got = read_given(&files, None);
                let want = join(&want, None);
                compare(ctx, &got, &want, &|| format!("{:?} then {:?}, csv {}", one.iter().map(|i| pool[*i]).collect::<Vec<_>>(), two.iter().map(|i| pool[*i]).collect::<Vec<_>>(), csv))
            },
        );
        c.scenario(
            "requested-format",
            "directories of 3 files named so as to mislead, read as csv, dc, csv.gz or dc.zst by request; an unknown format is an error",
            0,
            move |ctx| {
                let dir = ctx.fresh_dir();
                let f = *ctx.pick(&["csv", ".dc", "csv.gz", "dc.zst", "txt"]);
                let names = *ctx.pick(&[["1", "2", "3"], ["1.dc", "2.csv", "3.gz"], ["1.csv.gz", "2.dc", "3"]]);
                let mut files = Vec::new();
                for (i, n) in names.iter().enumerate() {
                    let x = file(n, &[0, 1], i, 2);
                    let (b, x) = if f.contains("csv") { to_csv(&x) } else { (dc_bytes(&x.head, &x.rows), x) };
                    let b = match f {
                        "csv.gz" => gzip(&b, 0, 6, 0),
                        "dc.zst" => (packers().into_iter().find(|p| p.name == "zstd").expect("ENGINE: zstd").pack)(&b),
                        _ => b,
                    };
                    std::fs::write(dir.join(n), &b).expect("ENGINE: write");
                    files.push(x);
                }
                ctx.step(&(f, names));
                let got = read_dir(&dir.to_string_lossy(), Some(f));
                let want = if f == "txt" { Err("unknown".into()) } else { join(&files, None) };
                compare(ctx, &got, &want, &|| format!("files {:?} read as {}", names, f))
            },
        );
        c.scenario(
            "pipes",
            "a directory of 1..=3 files, each a plain file, a link to one, a named pipe, or a link to a pipe, csv or dc by name: all are read",
            0,
            move |ctx| {
                use std::io::Write;
                use std::os::unix::fs::OpenOptionsExt;
                let dir = ctx.fresh_dir();
                let other = dir.join("other");
                let dir = dir.join("d");
                std::fs::create_dir(&dir).and_then(|_| std::fs::create_dir(&other)).expect("ENGINE: mkdir");
                let n = 1 + ctx.choose(3);
                let mut files = Vec::new();
                let mut pipes = Vec::new();
                let mut kinds = Vec::new();
                for i in 0..n {
                    let kind = ctx.choose(4);
                    let csv = ctx.flag();
                    kinds.push((kind, csv));
                    let x = file(&format!("f{}.{}", i, if csv { "csv" } else { "dc" }), &[0, 1], i, 2);
                    let (b, x) = if csv { to_csv(&x) } else { (dc_bytes(&x.head, &x.rows), x) };
                    let place = if kind % 2 == 1 { other.join(&x.name) } else { dir.join(&x.name) };
                    if kind < 2 {
                        std::fs::write(&place, &b).expect("ENGINE: write");
                    } else {
                        let c = std::ffi::CString::new(place.to_str().unwrap()).unwrap();
                        assert!(unsafe { libc::mkfifo(c.as_ptr(), 0o600) } == 0, "ENGINE: mkfifo");
                        pipes.push((place.clone(), b));
                    }
                    if kind % 2 == 1 {
                        std::os::unix::fs::symlink(&place, dir.join(&x.name)).expect("ENGINE: symlink");
                    }
                    files.push(x);
                }
                ctx.step(&kinds);
                let got = std::thread::scope(|s| {
                    let writers: Vec<_> = pipes
                        .iter()
                        .map(|(p, b)| {
                            s.spawn(move || {
                                if let Ok(mut f) = std::fs::OpenOptions::new().write(true).open(p) {
                                    let _ = f.write_all(b);
                                }
                            })
                        })
                        .collect();
                    let got = read_dir(&dir.to_string_lossy(), None);
                    // lets the writers go that nobody opened their pipes for
                    while !writers.iter().all(|w| w.is_finished()) {
                        for (p, _) in &pipes {
                            let _ = std::fs::OpenOptions::new().read(true).custom_flags(libc::O_NONBLOCK).open(p);
                        }
                        std::thread::yield_now();
                    }
                    got
                });
                let want = join(&files, None);
                compare(ctx, &got, &want, &|| format!("files (0 plain, 1 link, 2 pipe, 3 link to a pipe; csv): {:?}", kinds))
            },
        );
        c.scenario(
            "long-files",
            "3 files of 1025, 65537 or 1 and 100001 rows each, csv or dc, the second with its columns moved and one more: all rows of all files",
            0,
            move |ctx| {
                let a = *ctx.pick(&[1usize, 1025, 65537]);
                let b = *ctx.pick(&[1usize, 1025, 100001]);
                let csv = ctx.flag();
                let mut files =
                    vec![file("m1", &[0, 1, 2], 0, a), file("m2", &[2, 50, 1, 0], 1, b), file("m3", &[1, 2, 0], 2, a)];
                let mut bytes = vec![];
                for f in &mut files {
                    f.name += if csv { ".csv" } else { ".dc" };
                    if csv {
                        let (b, g) = to_csv(f);
                        bytes.push((f.name.clone(), b));
                        *f = g;
                    } else {
                        bytes.push((f.name.clone(), dc_bytes(&f.head, &f.rows)));
                    }
                }
                ctx.step(&(a, b, csv));
                let got = read_given(&bytes, None);
                let want = join(&files, None);
                compare(ctx, &got, &want, &|| format!("files of {}, {} and {} rows, csv {}", a, b, a, csv))
            },
        );
        c.scenario(
            "very-wide",
            "3 files of 63..=65, 127..=129, 255..=257, 300, 1000 columns: the second reversed, rotated, with two far columns exchanged, one more, \
             one lacking, one of another type (at the first, a middle, the last place)",
            0,
            move |ctx| {
                let n = *ctx.pick(&[63usize, 64, 65, 127, 128, 129, 255, 256, 257, 300, 1000]);
                let mut cols: Vec<usize> = (0..n).collect();
                let at = [0, n / 2, n - 1][ctx.choose(3)];
                let kind = ctx.choose(6);
                match kind {
                    0 => cols.reverse(),
                    1 => cols.rotate_left(at),
                    2 => cols.swap(at, (at + n / 2) % n),
                    3 => cols.insert(at, n + 50),
                    4 => {
                        cols.remove(at);
                    }
                    _ => {}
                }
                let mut files = vec![
                    file("m1.dc", &(0..n).collect::<Vec<_>>(), 0, 1),
                    file("m2.dc", &cols, 1, 2),
                    file("m3.dc", &(0..n).collect::<Vec<_>>(), 2, 1),
                ];
                if kind == 5 {
                    files[1].head.types[at] = FieldType::Long;
                    for r in files[1].rows.iter_mut() {
                        r.1[at] = V::N;
                    }
                }
                let bytes: Vec<(String, Vec<u8>)> =
                    files.iter().map(|f| (f.name.clone(), dc_bytes(&f.head, &f.rows))).collect();
                ctx.step(&(n, at, kind));
                let got = read_given(&bytes, None);
                let want = join(&files, None);
                compare(ctx, &got, &want, &|| format!("{} columns, change {} at {}", n, kind, at))
            },
        );
        c.scenario(
            "number-of-files",
            "real directories of 9..=11, 31..=33, 63..=65, 99..=101, 255..=257, 1000, 1025 csv or dc files of one row, numbered with or without leading zeros",
            0,
            move |ctx| {
                let n = *ctx.pick(&[9usize, 10, 11, 31, 32, 33, 63, 64, 65, 99, 100, 101, 255, 256, 257, 1000, 1025]);
                let dir = ctx.fresh_dir();
                let csv = ctx.flag();
                let zeros = ctx.flag();
                let mut files = Vec::new();
                for i in 0..n {
                    let name = if zeros { format!("f{:05}", i) } else { format!("f{}", i) };
                    let x = file(&format!("{}.{}", name, if csv { "csv" } else { "dc" }), &[0, 1], i, 1);
                    let (b, x) = if csv { to_csv(&x) } else { (dc_bytes(&x.head, &x.rows), x) };
                    std::fs::write(dir.join(&x.name), &b).expect("ENGINE: write");
                    files.push(x);
                }
                files.sort_by(|a, b| a.name.as_bytes().cmp(b.name.as_bytes()));
                ctx.step(&(n, csv, zeros));
                let got = read_dir(&dir.to_string_lossy(), None);
                let want = join(&files, None);
                compare(ctx, &got, &want, &|| format!("directory of {} files, csv {}, zeros {}", n, csv, zeros))
            },
        );
        c.scenario(
            "repeated-names",
            "2 or 3 dc or csv files of the same 1 to 4 columns with any of 3 names each, the same one any number of times (types by name): each row as it is in its file",
            0,
            move |ctx| {
                let n = 1 + ctx.choose(4);
                let k = 2 + ctx.choose(2);
                let cols: Vec<usize> = (0..n).map(|_| [0, 1, 2][ctx.choose(3)]).collect();
                let dc = ctx.flag();
                let mut given = Vec::new();
                let mut want = Vec::new();
                let mut head = None;
                for i in 0..k {
                    let mut f = file(&format!("{}", i), &cols, i, 3);
                    for (r, row) in f.rows.iter_mut().enumerate() {
                        for (j, v) in row.1.iter_mut().enumerate() {
                            *v = match type_of(cols[j]) {
                                FieldType::Int => V::I((i * 100 + r * 10 + j) as i32),
                                FieldType::Double => V::D(((i * 100 + r * 10 + j) as f64).to_bits()),
                                _ => V::S(format!("f{}r{}c{}", i, r, j)),
                            };
                        }
                    }
                    let (b, f) = if dc { (dc_bytes(&f.head, &f.rows), f) } else { to_csv(&f) };
                    given.push((format!("{}.{}", i, if dc { "dc" } else { "csv" }), b));
                    head = Some(f.head);
                    want.extend(f.rows);
                }
                ctx.step(&(&cols, k, dc));
                let got = read_given(&given, None);
                let want = Ok(Read { header: head.unwrap(), rows: want, err: None });
                compare(ctx, &got, &want, &|| format!("{} files with columns {:?}, dc {}", k, cols, dc))
            },
        );
    });
}
