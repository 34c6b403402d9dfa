//! C24: HTTP and user-supplied transports deliver the same data as files.
use std::cell::RefCell;
use std::collections::HashSet;
use std::io::{Cursor, Read as _, Write};
use std::net::{TcpListener, TcpStream};
use std::path::Path;
use std::rc::Rc;
use std::sync::{Arc, Mutex, OnceLock};

use chopper::chopper::chopper::Source;
use chopper::chopper::types::FieldType;
use chopper::cli::util::YesNoAuto;
use chopper::error::CliResult;
use chopper::input::input::{Input, InputFormat, InputType};
use chopper::input::input_factory::InputFactory;
use chopper::source::source_factory::SourceFactory;
use chopper::transport::streaming::streaming_transport::StreamingTransport;
use chopper::util::reader::ChopperBufPreviewer;
use mc::kit::*;
use mc::pack::*;
use mc::*;

type Got = Result<mc::kit::Read, String>;

// ---------------------------------------------------------------------------------------------
// a server that answers every request with the bytes it was told

#[derive(Clone, Debug, Default)]
struct Answer {
    /// parts sent one after another
    parts: Vec<Vec<u8>>,
    /// end with a reset instead of a regular close
    reset: bool,
    /// wait for the client to go before closing
    stay: bool,
    /// parts for requests of these paths instead
    by_path: Vec<(String, Vec<Vec<u8>>)>,
    /// wait so long before each part
    pause_ms: u64,
}

struct Server {
    port: u16,
    answer: Arc<Mutex<Answer>>,
    heads: Arc<Mutex<Vec<String>>>,
}

fn lock<T>(m: &Mutex<T>) -> std::sync::MutexGuard<'_, T> {
    m.lock().unwrap_or_else(|e| e.into_inner())
}

fn serve(mut s: TcpStream, a: Answer, heads: &Mutex<Vec<String>>) {
    let _ = s.set_nodelay(true);
    let _ = s.set_read_timeout(Some(std::time::Duration::from_secs(10)));
    let mut head = Vec::new();
    let mut b = [0; 1024];
    while !head.windows(4).any(|w| w == b"\r\n\r\n") {
        match s.read(&mut b) {
            Ok(n) if n > 0 => head.extend(&b[..n]),
            _ => break,
        }
    }
    let head = String::from_utf8_lossy(&head).to_string();
    let path = head.split(' ').nth(1).unwrap_or("").to_string();
    lock(heads).push(head);
    let parts = a.by_path.iter().find(|p| p.0 == path).map_or(&a.parts, |p| &p.1);
    for p in parts {
        if a.pause_ms > 0 {
            std::thread::sleep(std::time::Duration::from_millis(a.pause_ms));
        }
        if s.write_all(p).is_err() {
            return;
        }
    }
    if a.reset {
        use std::os::fd::AsRawFd;
        let l = libc::linger { l_onoff: 1, l_linger: 0 };
        unsafe {
            libc::setsockopt(
                s.as_raw_fd(),
                libc::SOL_SOCKET,
                libc::SO_LINGER,
                &l as *const _ as *const libc::c_void,
                std::mem::size_of::<libc::linger>() as u32,
            );
        }
        // let what was sent arrive first
        std::thread::sleep(std::time::Duration::from_millis(2));
        return;
    }
    if a.stay {
        let _ = s.read(&mut b);
    } else {
        let _ = s.shutdown(std::net::Shutdown::Write);
        let _ = s.read(&mut b);
    }
}

fn server() -> Server {
    let l = match TcpListener::bind("127.0.0.1:0") {
        Ok(l) => l,
        Err(e) => panic!("ENGINE: no loopback server: {}", e),
    };
    let port = l.local_addr().map(|a| a.port()).unwrap_or(0);
    let answer: Arc<Mutex<Answer>> = Default::default();
    let heads: Arc<Mutex<Vec<String>>> = Default::default();
    let (a, h) = (answer.clone(), heads.clone());
    std::thread::spawn(move || {
        for s in l.incoming().flatten() {
            let x = lock(&a).clone();
            let h = h.clone();
            std::thread::spawn(move || serve(s, x, &h));
        }
    });
    Server { port, answer, heads }
}

thread_local! {
    static SERVER: RefCell<Option<Server>> = RefCell::new(None);
}

/// Have the server of this thread answer so; result of f given the URL's beginning, request heads.
fn with_server<T>(a: Answer, f: impl FnOnce(&str) -> T) -> (T, Vec<String>) {
    SERVER.with(|s| {
        let mut s = s.borrow_mut();
        let s = s.get_or_insert_with(server);
        *lock(&s.answer) = a;
        lock(&s.heads).clear();
        let r = f(&format!("http://127.0.0.1:{}", s.port));
        let h = lock(&s.heads).clone();
        (r, h)
    })
}

// ---------------------------------------------------------------------------------------------
// contents and framings

struct Content {
    name: &'static str,
    bytes: Vec<u8>,
}

fn contents() -> &'static Vec<Content> {
    static C: OnceLock<Vec<Content>> = OnceLock::new();
    C.get_or_init(|| {
        let c = |name, bytes| Content { name, bytes };
        let small = sample_csv(100).0;
        let big = sample_csv(40_000).0;
        let dc = sample_dc(200).0;
        let bigdc = sample_dc(30_000).0;
        let by = |p: &str, b: &[u8]| match packers().into_iter().find(|x| x.name.starts_with(p)) {
            Some(k) => (k.pack)(b),
            None => panic!("ENGINE: no packer {}", p),
        };
        vec![
            c("x.csv", small.clone()),
            c("x.dc", dc.clone()),
            c("big.csv", big.clone()),
            c("big.dc", bigdc.clone()),
            c("x.csv.gz", gzip_member(&small, 6, 0)),
            c("big.dc.gz", gzip_member(&bigdc, 6, 0)),
            c("x", small.clone()),
            c("noext-dc", dc.clone()),
            c("data", gzip_member(&big, 1, 0)),
            c("x.csv.lz4", by("lz4", &small)),
            c("x.csv.zst", by("zst", &big)),
            c("empty.csv", vec![]),
            c("head.csv", b"time,a\n".to_vec()),
            c("wrong.dc", small.clone()),
            c("x.csv?a=b&c=d.dc", dc),
            c("no-newline.csv", b"time,a\n1000000000,x\n1000000001,y".to_vec()),
            c("late-error.csv", b"time,a\n1000000000,x\n1000000001,y\n1000000002,z,w\n".to_vec()),
        ]
    })
}

/// How a body is framed.
#[derive(Clone, Debug, PartialEq)]
enum Frame {
    Length { close: bool, http10: bool },
    UntilClose { http10: bool },
    Chunks { sizes: Vec<usize>, ext: bool, upper: bool, length_too: bool, close: bool },
}

/// The whole answer: head, body; where in the body (offsets) the data of chunks lie.
fn frame(status: &str, f: &Frame, body: &[u8]) -> (Vec<u8>, Vec<u8>, Vec<(usize, usize)>) {
    let mut h = String::new();
    let mut out = Vec::new();
    let mut data = Vec::new();
    let http = |old: bool| if old { "HTTP/1.0" } else { "HTTP/1.1" };
    match f {
        Frame::Length { close, http10 } => {
            h += &format!("{} {}\r\nContent-Type: text/plain\r\nContent-Length: {}\r\n", http(*http10), status, body.len());
            if *close {
                h += "Connection: close\r\n";
            }
            out.extend(body);
        }
        Frame::UntilClose { http10 } => {
            h += &format!("{} {}\r\n", http(*http10), status);
            if !*http10 {
                h += "Connection: close\r\n";
            }
            out.extend(body);
        }
        Frame::Chunks { sizes, ext, upper, length_too, close } => {
            h += &format!("HTTP/1.1 {}\r\nTransfer-Encoding: chunked\r\n", status);
            if *length_too {
                h += "Content-Length: 3\r\n";
            }
            if *close {
                h += "Connection: close\r\n";
            }
            let mut i = 0;
            let mut at = 0;
            while at < body.len() {
                let n = sizes[i % sizes.len()].min(body.len() - at).max(1);
                i += 1;
                let s = if *upper { format!("{:X}", n) } else { format!("{:x}", n) };
                out.extend(s.as_bytes());
                if *ext {
                    out.extend(b";name=\"val\"");
                }
                out.extend(b"\r\n");
                data.push((out.len(), out.len() + n));
                out.extend(&body[at..at + n]);
                out.extend(b"\r\n");
                at += n;
            }
            out.extend(b"0\r\n\r\n");
        }
    }
    h += "\r\n";
    (h.into_bytes(), out, data)
}

fn frames(t: bool) -> Vec<Frame> {
    let mut v = Vec::new();
    for close in [false, true] {
        for http10 in [false, true] {
            v.push(Frame::Length { close, http10 });
        }
        v.push(Frame::UntilClose { http10: close });
    }
    let mut sizes = vec![vec![1], vec![2], vec![7], vec![1000], vec![8192], vec![1 << 20], vec![1, 8191], vec![3, 1, 5000]];
    if t {
        sizes.extend((3..40).map(|n| vec![n]));
        sizes.extend([4095, 4096, 8191, 8193, 16384].map(|n| vec![n]));
    }
    for s in sizes {
        v.push(Frame::Chunks { sizes: s, ext: false, upper: false, length_too: false, close: false });
    }
    for (ext, upper, length_too, close) in
        [(true, false, false, false), (false, true, false, false), (false, false, true, false), (false, false, false, true), (true, true, true, true)]
    {
        v.push(Frame::Chunks { sizes: vec![171], ext, upper, length_too, close });
    }
    v
}

fn factory() -> CliResult<InputFactory> {
    InputFactory::new(plain_cfg(YesNoAuto::Auto), None, None)
}

fn open(path: &str) -> Got {
    open_and_read(factory().and_then(|mut f| f.create_source_from_path(path)))
}

/// What a local file of that name and content gives.
fn local(ctx: &Ctx, c: &Content) -> Got {
    let p = ctx.dir().join(c.name);
    std::fs::write(&p, &c.bytes).expect("ENGINE: file");
    let r = open(&p.to_string_lossy());
    let _ = std::fs::remove_file(&p);
    r
}

/// The same, once for every content.
fn local_cached(ctx: &Ctx, i: usize) -> Got {
    thread_local! {
        static L: RefCell<Vec<Option<Got>>> = RefCell::new(vec![None; 99]);
    }
    if let Some(g) = L.with(|l| l.borrow()[i].clone()) {
        return g;
    }
    let g = local(ctx, &contents()[i]);
    L.with(|l| l.borrow_mut()[i] = Some(g.clone()));
    g
}

fn alike(a: &Got, b: &Got) -> bool {
    match (a, b) {
        (Ok(a), Ok(b)) => a.header == b.header && a.rows == b.rows && a.err.is_some() == b.err.is_some(),
        (Err(_), Err(_)) => true,
        _ => false,
    }
}

// ---------------------------------------------------------------------------------------------
// transports and factories of the embedding program

#[derive(Clone)]
struct Mine {
    id: usize,
    able: bool,
    fails: bool,
    log: Rc<RefCell<Vec<usize>>>,
}

impl StreamingTransport for Mine {
    fn can_open(&self, p: &Path) -> bool {
        self.able && p.to_string_lossy().contains("wanted")
    }
    fn open(&self, _: &Path) -> std::io::Result<Box<dyn std::io::Read>> {
        self.log.borrow_mut().push(self.id);
        if self.fails {
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "no such thing"));
        }
        Ok(Box::new(Cursor::new(format!("time,from\n1000000000,user{}\n", self.id).into_bytes())))
    }
    fn box_clone(&self) -> Box<dyn StreamingTransport> {
        Box::new(self.clone())
    }
    fn name(&self) -> &str {
        "mine"
    }
}

#[derive(Clone)]
struct MyFactory {
    id: usize,
    by_name: bool,
    by_content: bool,
    /// (factory, what it was asked)
    log: Rc<RefCell<Vec<(usize, String)>>>,
}

impl SourceFactory for MyFactory {
    fn can_create_from_format(&self, format: &String) -> bool {
        self.log.borrow_mut().push((self.id, format.clone()));
        self.by_name && (format.ends_with(".mine") || format.ends_with(".csv") || format.ends_with(".dc"))
    }
    fn can_create_from_previewer(&self, p: &ChopperBufPreviewer<Box<dyn std::io::Read>>) -> bool {
        self.log.borrow_mut().push((self.id, "content".into()));
        self.by_content && (p.get_buf().starts_with(b"MINE") || p.get_buf().starts_with(b"time,"))
    }
    fn create_source(&mut self, p: ChopperBufPreviewer<Box<dyn std::io::Read>>) -> CliResult<Box<dyn Source>> {
        self.log.borrow_mut().push((self.id, "create".into()));
        let mut b = Vec::new();
        p.get_reader().read_to_end(&mut b)?;
        let h = H::new(&[("from", FieldType::String), ("text", FieldType::String)]);
        Ok(VecSource::new(&h, &[(5, vec![V::S(format!("factory{}", self.id)), V::S(String::from_utf8_lossy(&b).to_string())])]))
    }
    fn box_clone(&self) -> Box<dyn SourceFactory> {
        Box::new(self.clone())
    }
}

fn main() {
    mc::main("C24", Level::ModelChecking, |c| {
        let t = c.thorough;
        c.assume("https, proxies and servers that stop answering without closing are not covered: no peers for them here");
        c.assume("bodies ended by closing the connection announce no length, so a cut there cannot be told from the end");
        c.scenario(
            "framings",
            "17 contents and names (csv, dc, compressed, named and not, empty, malformed) x 19 framings (content length, until close, HTTP/1.0, chunks of 8 size patterns, extensions, both lengths; thorough 61) x answer in one or several parts: the same as the local file",
            0,
            move |ctx| {
                let i = ctx.choose(contents().len());
                let c = &contents()[i];
                let fs = frames(t);
                let f = ctx.pick(&fs);
                let many = ctx.choose(if t { 4 } else { 2 });
                let (h, b, _) = frame("200 OK", f, &c.bytes);
                let all = [h, b].concat();
                let parts: Vec<Vec<u8>> = match many {
                    0 => vec![all],
                    1 => all.chunks(all.len() / 3 + 1).map(|x| x.to_vec()).collect(),
                    2 => all.chunks(997).map(|x| x.to_vec()).collect(),
                    _ => [&all[..1], &all[1..40], &all[40..]].iter().map(|x| x.to_vec()).collect(),
                };
                let stay = matches!(f, Frame::Length { close: false, http10: false } | Frame::Chunks { close: false, .. });
                ctx.step(&(c.name, format!("{:?}", f), many));
                let want = local_cached(ctx, i);
                let (got, heads) = with_server(Answer { parts, stay, ..Default::default() }, |u| open(&format!("{}/dir/{}", u, c.name)));
                ctx.outcome(&(i, got.is_ok()));
                let d = || format!("{} framed {:?}: {}; the local file: {}", c.name, f, brief(&got), brief(&want));
                ctx.note(d);
                ensure!(alike(&got, &want), "{}", d());
                ensure!(heads.len() == 1 && heads[0].starts_with(&format!("GET /dir/{} HTTP/1.1\r\n", c.name)), "{}: requests {:?}", c.name, heads);
                Ok(())
            },
        );
        c.scenario(
            "cut",
            "answers with an announced length (content length with and without close, HTTP/1.0, chunks of 1, 7, 60 and all) of 5 contents cut at every byte, by closing or by a reset: an error, and rows that are a prefix",
            0,
            move |ctx| {
                let i = *ctx.pick(&[0usize, 1, 4, 6, 15]);
                let c = &contents()[i];
                let body = &c.bytes[..];
                let f = ctx
                    .pick(&[
                        Frame::Length { close: false, http10: false },
                        Frame::Length { close: true, http10: false },
                        Frame::Length { close: false, http10: true },
                        Frame::Chunks { sizes: vec![1], ext: false, upper: false, length_too: false, close: false },
                        Frame::Chunks { sizes: vec![7], ext: false, upper: false, length_too: false, close: true },
                        Frame::Chunks { sizes: vec![60], ext: true, upper: false, length_too: false, close: false },
                        Frame::Chunks { sizes: vec![1 << 20], ext: false, upper: false, length_too: false, close: false },
                    ])
                    .clone();
                let (h, b, data) = frame("200 OK", &f, body);
                let n = h.len() + b.len();
                let at: Vec<usize> = if t { (0..n).collect() } else { (0..n).filter(|x| (*x < 12 || *x + 3 > h.len()) && (b.len() < 400 || x % 5 == i || x + 12 > n)).collect() };
                let at = *ctx.pick(&at);
                let reset = ctx.flag();
                if reset && at % 4 != 0 {
                    return Ok(());
                }
                let all = [h.clone(), b].concat();
                ctx.step(&(c.name, format!("{:?}", f), at, reset));
                let a = Answer { parts: vec![all[..at].to_vec()], reset, ..Default::default() };
                let (got, _) = with_server(a, |u| open(&format!("{}/{}", u, c.name)));
                let want = local_cached(ctx, i);
                let d = || {
                    format!(
                        "{} framed {:?}, {} at byte {} of {}: {}",
                        c.name,
                        f,
                        if reset { "reset" } else { "closed" },
                        at,
                        n,
                        brief(&got)
                    )
                };
                ctx.note(d);
                ctx.outcome(&(i, got.as_ref().map_or(0, |g| g.rows.len())));
                let failed = match &got {
                    Ok(g) => g.err.is_some(),
                    Err(_) => true,
                };
                // from the first byte missing of a chunk's data to the last
                let inside = at >= h.len() && data.iter().any(|(a, b)| (*a..*b).contains(&(at - h.len())));
                let place = if inside && !reset { "closed within the data of a chunk and taken for complete" } else { "taken for complete" };
                ensure!(failed, "{}: {}", place, d());
                if let (Ok(g), Ok(w)) = (&got, &want) {
                    ensure!(g.header == w.header || g.rows.is_empty(), "wrong columns: {}", d());
                    ensure!(w.rows.starts_with(&g.rows), "rows that are no prefix: {}", d());
                }
                Ok(())
            },
        );
        c.scenario("status", "status 200, 201, 203 and 26 that are no success, with a proper csv body, 3 framings: success or an error", 0, move |ctx| {
            let ok = ["200 OK", "200", "201 Created", "203 Non-Authoritative", "299 Fine"];
            let bad = [
                "300 M", "301 M", "302 F", "303 S", "304 N", "305 U", "307 T", "308 P", "400 B", "401 U", "402 P", "403 F", "404 Not Found",
                "405 M", "406 N", "407 P", "408 T", "409 C", "410 G", "418 T", "429 T", "451 U", "500 I", "502 B", "503 S", "599 X",
            ];
            let i = ctx.choose(ok.len() + bad.len());
            let (s, fine) = if i < ok.len() { (ok[i], true) } else { (bad[i - ok.len()], false) };
            let f = ctx
                .pick(&[
                    Frame::Length { close: false, http10: false },
                    Frame::UntilClose { http10: true },
                    Frame::Chunks { sizes: vec![50], ext: false, upper: false, length_too: false, close: false },
                ])
                .clone();
            let ci = *ctx.pick(&[0usize, 1, 11]);
            let c = &contents()[ci];
            let (h, b, _) = frame(s, &f, &c.bytes);
            ctx.step(&(s, format!("{:?}", f), c.name));
            let (got, _) = with_server(Answer { parts: vec![h, b], ..Default::default() }, |u| open(&format!("{}/{}", u, c.name)));
            ctx.outcome(&(got.is_ok(), s));
            ctx.note(|| format!("status {} framed {:?}: {}", s, f, brief(&got)));
            if fine {
                let want = local_cached(ctx, ci);
                ensure!(alike(&got, &want), "status {} framed {:?}: {}; the local file: {}", s, f, brief(&got), brief(&want));
            } else {
                ensure!(got.is_err(), "status {} framed {:?}: taken for data: {}", s, f, brief(&got));
            }
            Ok(())
        });
        c.scenario("no-server", "refused connections, answers that are no HTTP, closed without an answer", 0, |ctx| {
            let i = ctx.choose(6);
            let name = *ctx.pick(&["x.csv", "x.dc", "x"]);
            ctx.step(&(i, name));
            let parts: Vec<Vec<u8>> = match i {
                0 => vec![],
                1 => vec![b"time,a\n1000000000,x\n".to_vec()],
                2 => vec![b"HTTP/1.1 200 OK\r\n".to_vec()],
                3 => vec![b"HTTP/1.1\r\n\r\n".to_vec()],
                4 => vec![b"HTTP/1.1 twohundred OK\r\n\r\ntime,a\n1000000000,x\n".to_vec()],
                _ => vec![],
            };
            let got = if i == 5 {
                // a port nobody listens on
                let l = TcpListener::bind("127.0.0.1:0").expect("ENGINE: port");
                let p = l.local_addr().map(|a| a.port()).unwrap_or(1);
                drop(l);
                open(&format!("http://127.0.0.1:{}/{}", p, name))
            } else {
                with_server(Answer { parts, ..Default::default() }, |u| open(&format!("{}/{}", u, name))).0
            };
            ctx.outcome(&(i, got.is_err()));
            ctx.note(|| format!("case {}: {}", i, brief(&got)));
            ensure!(got.is_err(), "case {} of {}: {}", i, name, brief(&got));
            Ok(())
        });
        c.scenario(
            "program",
            "the program with an URL as input, alone or together with a local file, body whole, with an error status, or cut half-way: exit status and output",
            0,
            |ctx| {
                let two = ctx.flag();
                let i = ctx.choose(5);
                let ci = *ctx.pick(&[0usize, 4, 8]);
                let c = &contents()[ci];
                let want = local_cached(ctx, ci)?;
                let p = ctx.dir().join("local.csv");
                std::fs::write(&p, &sample_csv(100).0).expect("ENGINE: file");
                let l = Frame::Length { close: i % 2 == 0, http10: false };
                let (h, mut b, _) = frame(if i == 1 { "404 No" } else { "200 OK" }, &l, &c.bytes);
                if i == 2 || i == 3 {
                    b.truncate(b.len() / 2);
                }
                let a = Answer { parts: vec![h, b], ..Default::default() };
                ctx.step(&(two, i, c.name));
                let (o, _) = with_server(a, |u| {
                    let url = format!("{}/{}", u, c.name);
                    let l = p.to_string_lossy().to_string();
                    let mut args = vec!["-E", "--csv-in-has-header", "yes", &url];
                    if two {
                        args.push(&l);
                    }
                    chop(&args, &[], b"")
                });
                ctx.outcome(&(o.code, o.stdout.len()));
                ctx.note(|| format!("case {} of {} with a local file: {}: {}", i, c.name, two, o.text().chars().take(300).collect::<String>()));
                ensure!(!o.crashed(), "case {} of {}: crashed: {}", i, c.name, o.text());
                if i == 0 || i == 4 {
                    let mut rows: Vec<R> = want.rows.clone();
                    if two {
                        rows.extend(sample_csv(100).1);
                        rows.sort_by_key(|r| r.0);
                    }
                    let mut s = "timestampNanos,timeSeconds,word,n\n".to_string();
                    for (t, v) in &rows {
                        s += &t.to_string();
                        for x in v {
                            s += ",";
                            if let V::S(x) = x {
                                s += x;
                            }
                        }
                        s += "\n";
                    }
                    ensure!(o.code == Some(0), "{}: {}", c.name, o.text());
                    ensure!(o.stdout == s.as_bytes(), "{}: {} instead of {:?}", c.name, o.text(), s);
                } else {
                    ensure!(o.code != Some(0), "case {} of {}: success: {}", i, c.name, o.text());
                }
                Ok(())
            },
        );
        c.scenario(
            "user-transports",
            "up to 4 transports of the embedding program, each unable, able or able but failing, for a path that is also a local file, a file in a local directory, an URL of the test server, one that nothing serves, or neither: the first able one is opened, once, and no other",
            0,
            |ctx| {
                let n = ctx.choose(5);
                let log = Rc::new(RefCell::new(Vec::new()));
                let mut ts: Vec<Box<dyn StreamingTransport>> = Vec::new();
                let mut kinds = Vec::new();
                for id in 0..n {
                    let k = ctx.choose(3);
                    kinds.push(k);
                    ts.push(Box::new(Mine { id, able: k > 0, fails: k == 2, log: log.clone() }));
                }
                let kind = ctx.choose(6);
                let with_csv = ctx.flag();
                let none = n == 0 && ctx.flag();
                ctx.step(&(&kinds, kind, with_csv, none));
                let ts = if none { None } else { Some(ts) };
                let mut f = if with_csv {
                    InputFactory::new(plain_cfg(YesNoAuto::Yes), None, ts)
                } else {
                    InputFactory::new_without_csv(None, ts)
                }
                .map_err(|e| err_text(&e))?;
                let p = ctx.dir().join(["wanted.csv", "wanted.none", "other.csv", "wanted", "unused", "plain.d"][kind]);
                let mut p = if kind == 1 { "wanted://host/wanted.csv".to_string() } else { p.to_string_lossy().to_string() };
                let csv = b"time,from\n1000000000,file\n";
                if kind == 0 || kind == 2 {
                    std::fs::write(&p, csv).expect("ENGINE: file");
                }
                if kind == 5 {
                    let _ = std::fs::create_dir(&p);
                    std::fs::write(format!("{}/wanted.csv", p), csv).expect("ENGINE: file");
                }
                let mut open = |p: &str| {
                    let input = Input {
                        input: InputType::Path(p.to_string()),
                        format: if kind == 3 { InputFormat::Extension("csv".into()) } else { InputFormat::Auto },
                    };
                    open_and_read(f.create_source_from_input(&input))
                };
                let mut requests = 0;
                let got = if kind == 4 {
                    let body = b"time,from\n1000000000,server\n";
                    let head = format!("HTTP/1.1 200 OK\r\nContent-Length: {}\r\nConnection: close\r\n\r\n", body.len());
                    let a = Answer { parts: vec![head.into_bytes(), body.to_vec()], ..Default::default() };
                    let (r, heads) = with_server(a, |base| {
                        p = format!("{}/wanted.csv", base);
                        open(&p)
                    });
                    requests = heads.len();
                    r
                } else {
                    open(&p)
                };
                if kind == 0 || kind == 2 {
                    let _ = std::fs::remove_file(&p);
                }
                if kind == 5 {
                    let _ = std::fs::remove_file(format!("{}/wanted.csv", p));
                }
                let first = if kind == 2 { None } else { kinds.iter().position(|k| *k > 0) };
                let from = match first {
                    Some(i) if kinds[i] == 1 => Some(format!("user{}", i)),
                    Some(_) => None,
                    None if kind == 0 || kind == 2 || kind == 5 => Some("file".to_string()),
                    None if kind == 4 => Some("server".to_string()),
                    None => None,
                };
                // without csv support none of these can be read
                let from = if with_csv { from } else { None };
                let opened = log.borrow().clone();
                let d = || format!("transports {:?} (1 able, 2 failing), path {:?}: opened {:?}, {} requests, {}", kinds, p, opened, requests, brief(&got));
                ctx.note(d);
                let own = first.is_none() && kind == 4;
                ensure!(requests <= own as usize, "{}, expected {} requests", d(), own as usize);
                ctx.outcome(&(&opened, got.is_ok()));
                ensure!(opened == first.into_iter().collect::<Vec<_>>(), "{}, expected {:?} to be opened", d(), first);
                match from {
                    None => ensure!(got.is_err(), "{}, expected an error", d()),
                    Some(x) => match &got {
                        Ok(g) => ensure!(
                            g.err.is_none() && g.rows.len() == 1 && g.rows[0].1.contains(&V::S(x.clone())),
                            "{}, expected the row of {}",
                            d(),
                            x
                        ),
                        Err(_) => return Err(format!("{}, expected the row of {}", d(), x)),
                    },
                }
                Ok(())
            },
        );
        c.scenario(
            "user-factories",
            "up to 3 source factories of the embedding program, each able by name, by content, both or neither, x names, compression, requested formats and contents, from a file, a directory or a transport: the first able one, asked about the name without compression suffix, creates the source, once",
            0,
            |ctx| {
                let n = ctx.choose(4);
                let log: Rc<RefCell<Vec<(usize, String)>>> = Default::default();
                let mut able = Vec::new();
                let mut fs: Vec<Box<dyn SourceFactory>> = Vec::new();
                for id in 0..n {
                    let (by_name, by_content) = (ctx.flag(), ctx.flag());
                    able.push((by_name, by_content));
                    fs.push(Box::new(MyFactory { id, by_name, by_content, log: log.clone() }));
                }
                let name = *ctx.pick(&["a.mine", "a.csv", "a.dc", "a", "a.mine.gz", "a.csv.gz", "a.txt"]);
                let format = *ctx.pick(&[None, Some("mine"), Some("csv"), Some(".mine"), Some("csv.gz"), Some("zzz")]);
                let mine = ctx.flag();
                let place = ctx.choose(3);
                let with_csv = ctx.flag();
                let plain: &[u8] = if mine { b"MINE\xff\x00data" } else { b"time,a\n1000000000,x\n" };
                let gz = format.unwrap_or(name).ends_with(".gz");
                let bytes = if gz { gzip_member(plain, 6, 0) } else { plain.to_vec() };
                ctx.step(&(&able, name, format, mine, place, with_csv));
                let path;
                let mut ts: Vec<Box<dyn StreamingTransport>> = Vec::new();
                match place {
                    0 => {
                        path = ctx.dir().join(name);
                        std::fs::write(&path, &bytes).expect("ENGINE: file");
                    }
                    1 => {
                        path = ctx.dir().join("d.csv");
                        let _ = std::fs::create_dir(&path);
                        std::fs::write(path.join(name), &bytes).expect("ENGINE: file");
                    }
                    _ => {
                        #[derive(Clone)]
                        struct T(Vec<u8>);
                        impl StreamingTransport for T {
                            fn can_open(&self, p: &Path) -> bool {
                                p.starts_with("mem://")
                            }
                            fn open(&self, _: &Path) -> std::io::Result<Box<dyn std::io::Read>> {
                                Ok(Box::new(Cursor::new(self.0.clone())))
                            }
                            fn box_clone(&self) -> Box<dyn StreamingTransport> {
                                Box::new(self.clone())
                            }
                            fn name(&self) -> &str {
                                "t"
                            }
                        }
                        ts.push(Box::new(T(bytes.clone())));
                        path = Path::new("mem://x").join(name);
                    }
                }
                let f = if with_csv {
                    InputFactory::new(plain_cfg(YesNoAuto::Yes), Some(fs), Some(ts))
                } else {
                    InputFactory::new_without_csv(Some(fs), Some(ts))
                };
                let mut f = f.map_err(|e| err_text(&e))?;
                let input = Input {
                    input: InputType::Path(path.to_string_lossy().to_string()),
                    format: format.map_or(InputFormat::Auto, |f| InputFormat::Extension(f.to_string())),
                };
                let got = open_and_read(f.create_source_from_input(&input));
                match place {
                    0 => {
                        let _ = std::fs::remove_file(&path);
                    }
                    1 => {
                        let _ = std::fs::remove_file(path.join(name));
                    }
                    _ => {}
                }
                // expected creator: Some(Ok(i)) a user's, Some(Err(csv)) csv, None an error
                let full = match format {
                    None => name.to_string(),
                    Some(f) => format!(".{}", f.trim_start_matches('.')),
                };
                let asked = full.trim_end_matches(".gz").to_string();
                let by_name = |x: &str| x.ends_with(".mine") || x.ends_with(".csv") || x.ends_with(".dc");
                let mut want: Option<Result<usize, ()>> = None;
                let mut decided = false;
                if by_name(&asked) {
                    if let Some(i) = able.iter().position(|a| a.0) {
                        (want, decided) = (Some(Ok(i)), true);
                    } else if asked.ends_with(".dc") {
                        decided = true; // none of the contents are
                    } else if asked.ends_with(".csv") && with_csv {
                        (want, decided) = (if mine { None } else { Some(Err(())) }, true);
                    }
                }
                if !decided && format.is_none() {
                    want = match able.iter().position(|a| a.1) {
                        Some(i) => Some(Ok(i)),
                        None if !mine && with_csv => Some(Err(())),
                        None => None,
                    };
                }
                let l = log.borrow().clone();
                let created: Vec<usize> = l.iter().filter(|x| x.1 == "create").map(|x| x.0).collect();
                let d = || {
                    format!(
                        "factories able by name, content {:?}, {} {:?}, requested {:?}, content {:?}, csv support {}: {}; asked {:?}",
                        able,
                        ["file", "file in a directory", "transport for"][place],
                        name,
                        format,
                        String::from_utf8_lossy(plain),
                        with_csv,
                        brief(&got),
                        l
                    )
                };
                ctx.note(d);
                ctx.outcome(&(&created, got.is_ok()));
                // the name asked about, never with its compression
                let names: HashSet<&String> = l.iter().filter(|x| x.1 != "content" && x.1 != "create").map(|x| &x.1).collect();
                ensure!(names.iter().all(|n| **n == asked), "{}, expected {:?} to be asked about", d(), asked);
                match want {
                    Some(Ok(i)) => {
                        ensure!(created == [i], "{}, expected {} to create the source", d(), i);
                        let text = String::from_utf8_lossy(plain).to_string();
                        let row: R = (5, vec![V::S(format!("factory{}", i)), V::S(text)]);
                        match &got {
                            Ok(g) => ensure!(g.err.is_none() && g.rows == [row.clone()], "{}, expected {:?}", d(), row),
                            Err(_) => return Err(format!("{}, expected {:?}", d(), row)),
                        }
                    }
                    Some(Err(())) => {
                        ensure!(created.is_empty(), "{}, expected the built-in csv", d());
                        match &got {
                            Ok(g) => ensure!(
                                g.err.is_none() && g.rows.len() == 1 && g.header.names == ["time", "a"],
                                "{}, expected the built-in csv",
                                d()
                            ),
                            Err(_) => return Err(format!("{}, expected the built-in csv", d())),
                        }
                    }
                    None => {
                        ensure!(created.is_empty(), "{}, expected an error", d());
                        let failed = match &got {
                            Ok(g) => g.err.is_some(),
                            Err(_) => true,
                        };
                        ensure!(failed, "{}, expected an error", d());
                    }
                }
                Ok(())
            },
        );
        c.scenario(
            "large",
            "csv, dc, csv.gz and dc.zst of 65535..=65537 bytes or so, 1 MB and 12 MB, framed by length, until close, in chunks of 4096, 65536 and 2 MB: the \
             same as read from memory",
            0,
            |ctx| {
                let rows = *ctx.pick(&[2600usize, 50_000, 500_000]);
                let kind = ctx.choose(4);
                let f = ctx
                    .pick(&[
                        Frame::Length { close: false, http10: false },
                        Frame::Length { close: true, http10: false },
                        Frame::UntilClose { http10: false },
                        Frame::Chunks { sizes: vec![4096], ext: false, upper: false, length_too: false, close: false },
                        Frame::Chunks { sizes: vec![65536], ext: false, upper: false, length_too: false, close: false },
                        Frame::Chunks { sizes: vec![2 << 20], ext: false, upper: false, length_too: false, close: false },
                    ])
                    .clone();
                let (bytes, want) = if kind % 2 == 0 {
                    let (b, r) = sample_csv(rows);
                    (b, r)
                } else {
                    let (b, _, r) = sample_dc(rows);
                    (b, r)
                };
                let name = ["x.csv", "x.dc", "x.csv.gz", "x.dc.zst"][kind];
                let body = match kind {
                    2 => gzip(&bytes, 0, 1, 0),
                    3 => (packers().into_iter().find(|p| p.name == "zstd").expect("ENGINE: zstd").pack)(&bytes),
                    _ => bytes,
                };
                let (h, b, _) = frame("200 OK", &f, &body);
                ctx.step(&(name, rows, format!("{:?}", f)));
                let (got, _) = with_server(Answer { parts: vec![h, b], ..Default::default() }, |u| open(&format!("{}/{}", u, name)));
                ctx.outcome(&(kind, got.as_ref().map(|g| g.rows.len()).ok()));
                let d = || format!("{} of {} bytes framed {:?}: {}", name, body.len(), f, brief(&got));
                ctx.note(d);
                match &got {
                    Ok(g) => ensure!(g.err.is_none() && g.rows == want, "{}", d()),
                    Err(_) => return Err(d()),
                }
                Ok(())
            },
        );
        c.scenario(
            "redirects",
            "an answer 301, 302, 303, 307 or 308 that names another place of the server (absolute or by path), which again does, or has the content: 1 \
             to 3 of them, 3 contents; a place that is none, or names itself: an error",
            0,
            |ctx| {
                let code = *ctx.pick(&[301, 302, 303, 307, 308]);
                let n = 1 + ctx.choose(3);
                let absolute = ctx.flag();
                let end = ctx.choose(3);
                let ci = *ctx.pick(&[0usize, 1, 4]);
                let c = &contents()[ci];
                ctx.step(&(code, n, absolute, end, c.name));
                let port = SERVER.with(|s| s.borrow_mut().get_or_insert_with(server).port);
                let base = if absolute { format!("http://127.0.0.1:{}", port) } else { String::new() };
                let place = |i: usize| format!("/p{}/{}", i, c.name);
                let mut a = Answer::default();
                for i in 0..n {
                    let to = if i + 1 == n && end == 2 { place(0) } else { place(i + 1) };
                    let h = format!("HTTP/1.1 {} Moved\r\nLocation: {}{}\r\nContent-Length: 0\r\nConnection: close\r\n\r\n", code, base, to);
                    a.by_path.push((place(i), vec![h.into_bytes()]));
                }
                let l = Frame::Length { close: true, http10: false };
                let (h, b, _) = frame(if end == 1 { "404 Not Found" } else { "200 OK" }, &l, &c.bytes);
                a.by_path.push((place(n), vec![h, b]));
                let (got, heads) = with_server(a, |u| open(&format!("{}{}", u, place(0))));
                let want = local_cached(ctx, ci);
                ctx.outcome(&(got.is_ok(), heads.len()));
                let d = || format!("{} {} times to {}, end {}: {}; the local file: {}", code, n, c.name, end, brief(&got), brief(&want));
                ctx.note(d);
                if end == 0 {
                    ensure!(alike(&got, &want), "{}", d());
                } else {
                    ensure!(got.is_err(), "{}", d());
                }
                Ok(())
            },
        );
        c.scenario(
            "several",
            "2 and 3 URLs of one server out of 5 contents opened with one factory and then read row by row in turn, or one after another, framed 3 ways: each \
             the same as its local file",
            0,
            |ctx| {
                let n = 2 + ctx.choose(2);
                let fs = [
                    Frame::Length { close: false, http10: false },
                    Frame::UntilClose { http10: false },
                    Frame::Chunks { sizes: vec![3000], ext: false, upper: false, length_too: false, close: false },
                ];
                let which: Vec<usize> = (0..n).map(|_| *ctx.pick(&[0usize, 2, 3, 4, 15])).collect();
                let f = ctx.pick(&fs).clone();
                let in_turn = ctx.flag();
                ctx.step(&(&which, format!("{:?}", f), in_turn));
                let mut a = Answer::default();
                for i in &which {
                    let c = &contents()[*i];
                    let (h, b, _) = frame("200 OK", &f, &c.bytes);
                    a.by_path.push((format!("/{}", c.name), vec![h, b]));
                }
                let (got, heads) = with_server(a, |u| -> Result<Vec<mc::kit::Read>, String> {
                    let mut f = factory().map_err(|e| err_text(&e))?;
                    let url = |i: &usize| format!("{}/{}", u, contents()[*i].name);
                    if !in_turn {
                        return which.iter().map(|i| open_and_read(f.create_source_from_path(&url(i)))).collect();
                    }
                    let mut all = Vec::new();
                    for i in &which {
                        let s = f.create_source_from_path(&url(i)).map_err(|e| err_text(&e))?;
                        all.push((mc::kit::Read { header: h(s.header()), rows: vec![], err: None }, s, false));
                    }
                    while all.iter().any(|x| !x.2) {
                        for x in all.iter_mut().filter(|x| !x.2) {
                            match x.1.next_row() {
                                Ok(Some(row)) => x.0.rows.push(r(&row)),
                                Ok(None) => x.2 = true,
                                Err(e) => {
                                    x.0.err = Some(err_text(&e));
                                    x.2 = true
                                }
                            }
                        }
                    }
                    Ok(all.into_iter().map(|x| x.0).collect())
                });
                ctx.outcome(&(got.is_ok(), heads.len()));
                let got = got.map_err(|e| format!("contents {:?}: {}", which, e))?;
                for (k, i) in which.iter().enumerate() {
                    let want = local_cached(ctx, *i);
                    let g = Ok(got[k].clone());
                    ensure!(alike(&g, &want), "contents {:?}, number {}: {}; the local file: {}", which, k, brief(&g), brief(&want));
                }
                Ok(())
            },
        );
        c.scenario(
            "urls",
            "URLs of up to 3 (thorough 4) path segments out of 13 (empty, escaped, with signs, like a suffix or a scheme) and any of 9 ends (queries, a \
             fragment): the place named is asked for and no other",
            0,
            move |ctx| {
                let segments = [
                    "a", "", "b.csv", "%20", "a%2Fb", "x+y", "~u;p=1", "a=b&c", "..x", "A.GZ", "http:", "@", "%C3%A9",
                ];
                let ends = ["", "?", "?q=1", "?q=//x/../y", "?a=b&c=d", "?x=%26%2B+", "?http://h/p.gz", "?x.csv", "#part"];
                let n = 1 + ctx.choose(if t { 4 } else { 3 });
                let mut path = String::new();
                for _ in 0..n {
                    path += "/";
                    path += ctx.pick(&segments);
                }
                let end = *ctx.pick(&ends);
                let asked = if end.starts_with('#') { path.clone() } else { format!("{}{}", path, end) };
                // one end suffices for the long ones
                if n >= 3 && ends.iter().position(|e| *e == end) != Some(path.len() % ends.len()) {
                    return Ok(());
                }
                // a name that is not that of a format: by content
                let gz = asked.ends_with(".gz") || asked.ends_with(".zip");
                if gz || end.starts_with("?x.csv") && path.len() % 2 == 0 {
                    return Ok(());
                }
                let right = b"time,a\n1000000000,right\n".to_vec();
                let wrong = b"time,a\n1000000000,wrong\n".to_vec();
                let f = Frame::Length { close: true, http10: false };
                let whole = |s: &str, b: &[u8]| {
                    let (h, b, _) = frame(s, &f, b);
                    vec![[h, b].concat()]
                };
                let a = Answer {
                    parts: whole("200 OK", &wrong),
                    by_path: vec![(asked.clone(), whole("200 OK", &right))],
                    ..Default::default()
                };
                ctx.step(&(&path, end));
                let (got, heads) = with_server(a, |base| open(&format!("{}{}{}", base, path, end)));
                ctx.outcome(&got);
                ctx.note(|| format!("{}{}: {}; asked {:?}", path, end, brief(&got), heads));
                ensure!(heads.len() == 1, "{}{}: {} requests", path, end, heads.len());
                ensure!(
                    heads[0].starts_with(&format!("GET {} HTTP/1.", asked)),
                    "{}{}: asked for with {:?}",
                    path,
                    end,
                    heads[0]
                );
                let ok = match &got {
                    Ok(r) => r.err.is_none() && r.rows.len() == 1 && r.rows[0].1.last() == Some(&V::S("right".to_string())),
                    _ => false,
                };
                ensure!(ok, "{}{}: {}", path, end, brief(&got));
                Ok(())
            },
        );
        c.scenario(
            "long-urls",
            "URLs of 1..=40, 100, 127..=129, 255..=257 and 500 parts, or with one part of 1..=3, 10, 63..=65, 127..=129, 255..=257, 1000, 2000, 4095 and 7000 characters in the path \
             or the query: the place named is asked for, and what it has is read",
            0,
            move |ctx| {
                let long = ctx.choose(3);
                let n = if long == 0 {
                    let ns: Vec<usize> = (1..=40).chain([100, 127, 128, 129, 255, 256, 257, 500]).collect();
                    *ctx.pick(&ns)
                } else {
                    *ctx.pick(&[1usize, 2, 3, 10, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 2000, 4095, 7000])
                };
                let path = match long {
                    0 => format!("{}/x.csv", "/d".repeat(n - 1)),
                    1 => format!("/{}/x.csv", "y".repeat(n)),
                    _ => format!("/x.csv?q={}", "y".repeat(n)),
                };
                let f = Frame::Length { close: true, http10: false };
                let (h, b, _) = frame("200 OK", &f, b"timeSeconds,a\n1000000000,right\n");
                let a = Answer { by_path: vec![(path.clone(), vec![[h, b].concat()])], ..Default::default() };
                ctx.step(&(long, n));
                let (got, heads) = with_server(a, |base| open(&format!("{}{}", base, path)));
                ctx.outcome(&(got.is_ok(), heads.len()));
                let what = || format!("url of kind {} with {}: {}; asked {:?}", long, n, brief(&got), heads.iter().map(|h| h.chars().take(60).collect::<String>()).collect::<Vec<_>>());
                ctx.note(what);
                ensure!(heads.len() == 1 && heads[0].starts_with(&format!("GET {} HTTP/1.", path)), "{}", what());
                let ok = match &got {
                    Ok(r) => r.err.is_none() && r.rows.len() == 1 && r.rows[0].1.last() == Some(&V::S("right".to_string())),
                    _ => false,
                };
                ensure!(ok, "{}", what());
                Ok(())
            },
        );
        c.scenario("slow", "a server that waits 1.5 s before its answer and before each of 2 parts of the body, 4 framings", 0, |ctx| {
            let fs = [
                Frame::Length { close: false, http10: false },
                Frame::Length { close: true, http10: false },
                Frame::UntilClose { http10: false },
                Frame::Chunks { sizes: vec![300], ext: false, upper: false, length_too: false, close: false },
            ];
            let f = ctx.pick(&fs).clone();
            let i = *ctx.pick(&[0usize, 1]);
            let c = &contents()[i];
            let (h, b, _) = frame("200 OK", &f, &c.bytes);
            let half = b.len() / 2;
            let parts = vec![h, b[..half].to_vec(), b[half..].to_vec()];
            ctx.step(&(format!("{:?}", f), c.name));
            let (got, _) = with_server(Answer { parts, pause_ms: 1500, ..Default::default() }, |u| open(&format!("{}/{}", u, c.name)));
            let want = local_cached(ctx, i);
            ctx.outcome(&got.is_ok());
            ensure!(alike(&got, &want), "{} slowly, framed {:?}: {}; the local file: {}", c.name, f, brief(&got), brief(&want));
            Ok(())
        });
    });
}
