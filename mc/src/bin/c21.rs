//! C21: a failed write is reported and what was written is a prefix.
use std::cell::Cell;
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::Stdio;
use std::rc::Rc;
use std::sync::OnceLock;

use chopper::chopper::chopper::{ChopperDriver, DataSink, HeaderSink, Source};
use chopper::chopper::header_graph::{HeaderChain, HeaderGraph, HeaderNode};
use chopper::chopper::types::{FieldType, Header, Row, TIMESTAMP_RANGE_ALL};
use chopper::driver::driver::Driver;
use chopper::driver::merge_join::MergeJoin;
use chopper::driver::split::Split;
use chopper::error::{CliResult, Error};
use mc::kit::*;
use mc::*;

// ---------------------------------------------------------------------------------------------
// the program with faults

/// A run of the program: its inputs and the complete output by the formats' description.
struct Job {
    name: &'static str,
    /// name, content
    inputs: Vec<(String, Vec<u8>)>,
    csv: Vec<u8>,
    dc: Vec<u8>,
}

/// Rows of n bytes of text each from k inputs one after another in time.
fn job(name: &'static str, k: usize, rows: usize, w: usize) -> Job {
    let head = H::new(&[("word", FieldType::String), ("n", FieldType::Int)]);
    let mut inputs = Vec::new();
    let mut csv = String::from("timestampNanos,word,n\n");
    let mut all = Vec::new();
    for i in 0..k {
        let mut rs: Vec<R> = Vec::new();
        for r in 0..rows {
            let t = 1_000_000_000 + (i * rows + r) as u64;
            let x = format!("{}{}", r, "abcdefghij".repeat(w / 10 + 1)).chars().take(w).collect::<String>();
            let n = if r % 4 == 3 { V::N } else { V::I(r as i32 * 1001 + i as i32) };
            let ns = if let V::I(n) = n { n.to_string() } else { String::new() };
            csv += &format!("{},{},{}\n", t, x, ns);
            rs.push((t, vec![V::S(x), n]));
        }
        inputs.push((format!("in{}.dc", i), dc_bytes(&head, &rs)));
        all.extend(rs);
    }
    Job { name, inputs, csv: csv.into_bytes(), dc: dc_bytes(&head, &all) }
}

/// Where a job's dc file may end without being cut off: after its header and after each row.
fn dc_ends(b: &[u8]) -> Vec<usize> {
    let w = |o: usize| b[o..o + 4].iter().fold(0usize, |a, x| a * 256 + *x as usize);
    let mut o = 18;
    for _ in 0..w(14) {
        o += 4 + w(o);
        o += 4 + w(o) + 4;
    }
    let mut v = vec![o];
    while o < b.len() {
        let bits = b[o + 8];
        o += 9;
        if bits & 1 == 0 {
            o += 2 + b[o] as usize * 256 + b[o + 1] as usize;
        }
        if bits & 2 == 0 {
            o += 4;
        }
        v.push(o);
    }
    v
}

#[derive(Clone, Copy, Debug, PartialEq, Hash)]
enum To {
    Csv,
    Dc,
    StdoutFile,
    StdoutPipe,
}

impl To {
    fn full<'a>(&self, j: &'a Job) -> &'a [u8] {
        match self {
            To::Dc => &j.dc,
            _ => &j.csv,
        }
    }
}

/// Writes the inputs below the directory; arguments that name them.
fn inputs(j: &Job, dir: &Path) -> Vec<String> {
    let mut v = Vec::new();
    for (n, b) in &j.inputs {
        let p = dir.join(n);
        std::fs::write(&p, b).expect("ENGINE: cannot write input");
        v.push(p.to_string_lossy().to_string());
    }
    v
}

fn command(j: &Job, to: To, dir: &Path, out: &Path, env: &[(&str, &str)]) -> std::process::Command {
    command_with(j, to, dir, out, env, "yes")
}

fn command_with(j: &Job, to: To, dir: &Path, out: &Path, env: &[(&str, &str)], time: &str) -> std::process::Command {
    let mut args = inputs(j, dir);
    args.extend(["-E", "--print-time", time].iter().map(|s| s.to_string()));
    if to == To::Csv || to == To::Dc {
        args.push("-o".into());
        args.push(out.to_string_lossy().to_string());
    }
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let mut c = chop_command(&a, env);
    c.stdin(Stdio::null()).stderr(Stdio::piped());
    match to {
        To::StdoutPipe => c.stdout(Stdio::piped()),
        To::StdoutFile => c.stdout(std::fs::File::create(out).expect("ENGINE: output file")),
        _ => c.stdout(Stdio::null()),
    };
    c
}

fn out_path(to: To, dir: &Path) -> PathBuf {
    dir.join(if to == To::Dc { "out.dc" } else { "out.csv" })
}

/// Verdict on an exit status and what was written.
fn judge(ctx: &mut Ctx, o: &std::process::Output, written: &[u8], full: &[u8], may_succeed: bool, must_succeed: bool, what: &dyn Fn() -> String) -> Res {
    let ok = o.status.success();
    ctx.outcome(&(ok, written.len()));
    let status = || {
        format!(
            "{}: {}, {} of {} bytes written, message {:?}",
            what(),
            o.status,
            written.len(),
            full.len(),
            String::from_utf8_lossy(&o.stderr)
        )
    };
    ctx.note(status);
    ensure!(full.starts_with(written), "what was written is no prefix of the output; {}", status());
    if ok {
        ensure!(written == full, "success with incomplete output; {}", status());
        ensure!(may_succeed, "success although a write failed; {}", status());
    } else {
        ensure!(!must_succeed, "failure although nothing failed; {}", status());
    }
    Ok(())
}

fn jobs() -> &'static Vec<Job> {
    static J: OnceLock<Vec<Job>> = OnceLock::new();
    J.get_or_init(|| {
        vec![
            job("no-rows", 1, 0, 0),
            job("one-row", 1, 1, 5),
            job("four-rows", 1, 4, 12),
            job("three-inputs", 3, 3, 9),
            job("two-without-rows", 2, 0, 0),
            job("21-KB", 1, 200, 90),
            job("three-inputs-42-KB", 3, 50, 260),
            job("rows-of-9000", 1, 4, 9000),
            job("8192-exactly", 1, 8, 1000),
        ]
    })
}

// ---------------------------------------------------------------------------------------------
// write calls made to fail

fn shim() -> String {
    static P: OnceLock<String> = OnceLock::new();
    P.get_or_init(|| {
        let v = std::env::var("MC_VERIF").expect("ENGINE: MC_VERIF");
        let so = format!("{}/target/shim.so", v);
        let tmp = format!("{}/target/shim-{}.so", v, std::process::id());
        let src = format!("{}/mc/fixtures/shim.c", v);
        let r = std::process::Command::new("cc").args(["-O1", "-shared", "-fPIC", "-o", &tmp, &src, "-ldl"]).status();
        match r {
            Ok(s) if s.success() && std::fs::rename(&tmp, &so).is_ok() => so,
            x => panic!("ENGINE: cannot build the shim: {:?}", x),
        }
    })
    .clone()
}

/// Number of write calls of a run without faults.
fn calls(j: &Job, to: To, dir: &Path) -> usize {
    let out = out_path(to, dir);
    let count = dir.join("count").to_string_lossy().to_string();
    let so = shim();
    let o = out.to_string_lossy().to_string();
    let mut env: Vec<(&str, &str)> = vec![("LD_PRELOAD", &so), ("MC_SHIM_COUNT", &count)];
    if to == To::Csv || to == To::Dc {
        env.push(("MC_SHIM_FILE", &o));
    }
    let _ = command(j, to, dir, &out, &env).output();
    std::fs::read_to_string(&count).ok().and_then(|s| s.trim().parse().ok()).unwrap_or(0)
}

// ---------------------------------------------------------------------------------------------
// sinks that fail inside a graph

#[derive(Clone)]
struct Fault {
    at: usize,
    n: Rc<Cell<usize>>,
    log: Log<Ev>,
}

struct Failing {
    id: usize,
    f: Fault,
}

impl Failing {
    fn due(&self) -> CliResult<()> {
        let n = self.f.n.get();
        self.f.n.set(n + 1);
        if n == self.f.at {
            return Err(Error::from("no space left".to_string()));
        }
        Ok(())
    }
}

impl HeaderSink for Failing {
    fn process_header(self: Box<Self>, header: &mut Header) -> CliResult<Box<dyn DataSink>> {
        self.due()?;
        self.f.log.borrow_mut().push(Ev::Header(self.id, h(header)));
        Ok(self.boxed())
    }
}

impl DataSink for Failing {
    fn write_row(&mut self, io: &mut Vec<Row>) -> CliResult<()> {
        self.due()?;
        for x in io.iter() {
            self.f.log.borrow_mut().push(Ev::Row(self.id, r(x)));
        }
        Ok(())
    }
    fn flush(&mut self) -> CliResult<()> {
        self.due()?;
        self.f.log.borrow_mut().push(Ev::Flush(self.id));
        Ok(())
    }
    fn boxed(self) -> Box<dyn DataSink> {
        Box::new(self)
    }
}

/// Run a graph with a fault at call `at`; whether it succeeded, the number of calls, the events.
fn run_graph(shape: usize, times: &[Vec<u64>], at: usize) -> (Result<(), String>, usize, Vec<Ev>) {
    let f = Fault { at, n: Default::default(), log: log() };
    let head = H::new(&[("a", FieldType::String)]);
    let k = times.len();
    let sink = |id| HeaderNode::HeaderSink(Box::new(Failing { id, f: f.clone() }) as Box<dyn HeaderSink>);
    let split = |ids: Vec<usize>| {
        let s = Split::new(ids);
        let t = s.get_new_header_count_tracker();
        HeaderNode::SplitHeaderSink(s, t)
    };
    let res = (|| -> CliResult<()> {
        let mut sources: Vec<Box<dyn Source>> = Vec::new();
        for (s, ts) in times.iter().enumerate() {
            let rows: Vec<R> = ts.iter().enumerate().map(|(i, t)| (*t, vec![V::S(format!("s{}r{}", s, i))])).collect();
            sources.push(VecSource::new(&head, &rows));
        }
        let mut chains = Vec::new();
        match shape {
            // a chain of two sinks for each source
            0 => (0..k).for_each(|i| chains.push(HeaderChain::new(vec![sink(2 * i), sink(2 * i + 1)]))),
            // all merged; a sink before and after
            1 => {
                (0..k).for_each(|i| chains.push(HeaderChain::new(vec![sink(i), HeaderNode::Merge(k), sink(10 + i)])));
                let m = MergeJoin::new(k)?;
                let t = m.get_new_header_count_tracker();
                chains.push(HeaderChain::new(vec![HeaderNode::MergeHeaderSink(m, t), sink(20)]));
            }
            // each split in two, with a sink of its own as well
            2 => {
                (0..k).for_each(|i| chains.push(HeaderChain::new(vec![split(vec![k + 2 * i, k + 2 * i + 1]), sink(i)])));
                (0..2 * k).for_each(|i| chains.push(HeaderChain::new(vec![sink(10 + i)])));
            }
            // merged, then split
            _ => {
                (0..k).for_each(|_| chains.push(HeaderChain::new(vec![HeaderNode::Merge(k)])));
                let m = MergeJoin::new(k)?;
                let t = m.get_new_header_count_tracker();
                chains.push(HeaderChain::new(vec![HeaderNode::MergeHeaderSink(m, t), sink(20), split(vec![k + 1, k + 2])]));
                chains.push(HeaderChain::new(vec![sink(21)]));
                chains.push(HeaderChain::new(vec![sink(22), sink(23)]));
            }
        }
        let headers = sources.iter().map(|s| s.header().clone()).collect();
        let mut d = Driver::new(sources, HeaderGraph::new(chains), TIMESTAMP_RANGE_ALL, headers)?;
        d.drive()
    })();
    let ev = f.log.borrow().clone();
    (res.map_err(|e| err_text(&e)), f.n.get(), ev)
}

fn main() {
    mc::main("C21", Level::FaultEnumeration, |c| {
        let t = c.thorough;
        c.rule = "one fault per run (or one that stays): every byte at which the file size limit can be hit, every write \
                  call of the output with each way of failing, every call to a node of a graph; a fault-free run first"
            .into();
        c.scenario(
            "complete",
            "9 jobs (no rows, 1..3 inputs, up to 42 KB, rows of 9000 bytes) x csv file, dc file, standard output a file or a pipe, each output name fresh or an existing longer file",
            0,
            move |ctx| {
                let j = ctx.pick(jobs());
                let to = *ctx.pick(&[To::Csv, To::Dc, To::StdoutFile, To::StdoutPipe]);
                let old = ctx.flag();
                let dir = ctx.fresh_dir();
                let out = out_path(to, &dir);
                if old && (to == To::Csv || to == To::Dc) {
                    std::fs::write(&out, vec![b'x'; 100_000]).expect("ENGINE: old file");
                }
                ctx.step(&(j.name, to, old));
                let o = command(j, to, &dir, &out, &[]).output().expect("ENGINE: cannot run chop");
                let w = if to == To::StdoutPipe { o.stdout.clone() } else { std::fs::read(&out).unwrap_or_default() };
                judge(ctx, &o, &w, to.full(j), true, true, &|| format!("{} to {:?}", j.name, to))
            },
        );
        c.scenario(
            "size-limit",
            "file size limit at every byte of outputs of up to 400 bytes and of the larger ones around each 1024th byte and at every 251st (thorough: every byte), the signal ignored or not",
            0,
            move |ctx| {
                let j = ctx.pick(jobs());
                let to = *ctx.pick(&[To::Csv, To::Dc, To::StdoutFile]);
                let n = to.full(j).len();
                let at: Vec<usize> = if n < 400 || t {
                    (0..n + 2).collect()
                } else {
                    (0..n + 2).filter(|i| i % 251 == 0 || (i + 2) % 1024 < 5 || i + 3 > n).collect()
                };
                let limit = *ctx.pick(&at);
                let ignore = if n < 400 { ctx.flag() } else { limit % 2 == 0 };
                let dir = ctx.fresh_dir();
                let out = out_path(to, &dir);
                let mut c = command(j, to, &dir, &out, &[]);
                unsafe {
                    c.pre_exec(move || {
                        if ignore {
                            libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
                        }
                        let l = libc::rlimit { rlim_cur: limit as u64, rlim_max: limit as u64 };
                        let c = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                        libc::setrlimit(libc::RLIMIT_CORE, &c);
                        match libc::setrlimit(libc::RLIMIT_FSIZE, &l) {
                            0 => Ok(()),
                            _ => Err(std::io::Error::last_os_error()),
                        }
                    });
                }
                ctx.step(&(j.name, to, limit, ignore));
                let o = c.output().expect("ENGINE: cannot run chop");
                let w = std::fs::read(&out).unwrap_or_default();
                ensure!(w.len() <= limit, "ENGINE: the limit does not work");
                judge(ctx, &o, &w, to.full(j), limit >= n, limit >= n, &|| {
                    format!("{} to {:?}, size limit {}, signal ignored: {}", j.name, to, limit, ignore)
                })
            },
        );
        c.scenario(
            "write-calls",
            "each write call of each job's output x 7 errors once or for good, 1 byte or half or all but one taken, interrupted once or 3 times, small writes from there on",
            0,
            move |ctx| {
                let ji = ctx.choose(jobs().len());
                let j = &jobs()[ji];
                let to = *ctx.pick(&[To::Csv, To::Dc, To::StdoutFile, To::StdoutPipe]);
                static N: OnceLock<std::sync::Mutex<std::collections::HashMap<(usize, usize), usize>>> = OnceLock::new();
                let key = (ji, to as usize);
                let known = N.get_or_init(Default::default).lock().map_or(None, |m| m.get(&key).cloned());
                let dir = ctx.fresh_dir();
                let n = match known {
                    Some(n) => n,
                    None => {
                        let n = calls(j, to, &dir);
                        if let Some(mut m) = N.get().and_then(|m| m.lock().ok()) {
                            m.insert(key, n);
                        }
                        n
                    }
                };
                if n == 0 {
                    return Ok(()); // written otherwise than by write calls: left to the other scenarios
                }
                // long runs of calls: the first and last 12 and every 7th
                let at: Vec<usize> = (0..n).filter(|i| t || n < 30 || *i < 12 || *i + 12 > n || i % 7 == 0).collect();
                let at = *ctx.pick(&at);
                let how = ctx
                    .pick(&["e28", "E28", "e5", "E5", "e32", "E32", "e11", "e27", "E122", "e22", "s1", "s0", "s100", "S1000", "S7", "i1", "i3"])
                    .to_string();
                if how == "S7" && to.full(j).len() > 30000 {
                    return Ok(());
                }
                let so = shim();
                let ats = at.to_string();
                let out = out_path(to, &dir);
                let o = out.to_string_lossy().to_string();
                let mut env: Vec<(&str, &str)> = vec![("LD_PRELOAD", &so), ("MC_SHIM_AT", &ats), ("MC_SHIM_HOW", &how)];
                if to == To::Csv || to == To::Dc {
                    env.push(("MC_SHIM_FILE", &o));
                }
                ctx.step(&(j.name, to, at, &how));
                let o = command(j, to, &dir, &out, &env).output().expect("ENGINE: cannot run chop");
                let w = if to == To::StdoutPipe { o.stdout.clone() } else { std::fs::read(&out).unwrap_or_default() };
                let error = how.starts_with('e') || how.starts_with('E');
                // taking 0 bytes is an error for a file that takes nothing
                let harmless = !error && how != "s0";
                let zero = how == "s0";
                judge(ctx, &o, &w, to.full(j), harmless || zero, harmless, &|| {
                    format!("{} to {:?}, write call {} of {}: {}", j.name, to, at, n, how)
                })
            },
        );
        c.scenario(
            "every-cell-type",
            "rows of one column of each of 8 types or null, or of two, of which the first ends anywhere in the output's buffer (60 alignments): the first \
             write call fails once, for good, takes nothing or one byte; to csv, dc, standard output, with and without time column",
            0,
            move |ctx| {
                use FieldType::*;
                let types = [Byte, Char, Double, Float, Int, Long, Short, String];
                let ti = ctx.choose(9);
                let ty = types[ti.min(7)];
                let two = ctx.flag();
                let to = *ctx.pick(&[To::Csv, To::Dc, To::StdoutPipe]);
                let time = ctx.flag();
                if to == To::Dc && !time || !t && two && to == To::StdoutPipe {
                    return Ok(());
                }
                let pad = 1 + ctx.choose(60);
                let how = *ctx.pick(if t { &["e28", "E28", "e5", "e11", "e32", "s0", "s1", "i1"][..] } else { &["e28", "e11", "s1"][..] });
                let name = "n".repeat(pad);
                let mut cols = vec![(name.as_str(), ty)];
                if two {
                    cols.push(("m", ty));
                }
                let head = H::new(&cols);
                let cell = |r: usize| match ty {
                    _ if ti == 8 => V::N,
                    Byte => V::Byte(100 + (r % 100) as u8),
                    Char => V::Char(0x4e00 + (r % 100) as u16),
                    Double => V::D((1e17 + (r as f64) * 128.0).to_bits()),
                    Float => V::F((1.5f32 + (r % 100) as f32).to_bits()),
                    Int => V::I(-1_000_000_000 - r as i32),
                    Long => V::L(-1_000_000_000_000_000_000 - r as i64),
                    Short => V::Sh(-10000 - (r % 1000) as i16),
                    _ => V::S(format!("text-{:05}", r)),
                };
                let rows: Vec<R> = (0..1200u64).map(|r| (1_000_000_000 + r, cols.iter().map(|_| cell(r as usize)).collect())).collect();
                let j = Job { name: "cells", inputs: vec![("in.dc".to_string(), dc_bytes(&head, &rows))], csv: vec![], dc: vec![] };
                let dir = ctx.fresh_dir();
                let out = out_path(to, &dir);
                let o = out.to_string_lossy().to_string();
                let run = |env: &[(&str, &str)]| {
                    let mut c = command_with(&j, to, &dir, &out, env, if time { "yes" } else { "no" });
                    let r = c.output().expect("ENGINE: cannot run chop");
                    let w = if to == To::StdoutPipe { r.stdout.clone() } else { std::fs::read(&out).unwrap_or_default() };
                    (r, w)
                };
                let (whole, full) = run(&[]);
                ensure!(whole.status.success() && full.len() > 1200, "without faults: {}, {} bytes {:?}", whole.status, full.len(), std::string::String::from_utf8_lossy(&whole.stderr));
                let so = shim();
                let mut env: Vec<(&str, &str)> = vec![("LD_PRELOAD", &so), ("MC_SHIM_AT", "0"), ("MC_SHIM_HOW", how)];
                if to != To::StdoutPipe {
                    env.push(("MC_SHIM_FILE", &o));
                }
                ctx.step(&(ti, two, to, time, pad, how));
                let (r, w) = run(&env);
                let harmless = how == "s1" || how == "i1";
                judge(ctx, &r, &w, &full, harmless || how == "s0", harmless, &|| {
                    format!("{} columns of {:?} to {:?}, names of {} letters, time {}: first write call {}", cols.len(), ty, to, pad, time, how)
                })
            },
        );
        c.scenario(
            "devices",
            "each job to /dev/full (as standard output, as a link named csv or dc), to a pipe whose reader has gone before, after 1 byte or half-way, to a missing directory, a directory, a read-only file",
            0,
            move |ctx| {
                let j = ctx.pick(jobs());
                let case = ctx.choose(8);
                let dir = ctx.fresh_dir();
                let to = match case {
                    0 | 5 | 6 | 7 => *ctx.pick(&[To::Csv, To::Dc]),
                    _ => To::StdoutPipe,
                };
                let mut out = out_path(to, &dir);
                ctx.step(&(j.name, case, to));
                let full = to.full(j);
                let what = || format!("{} in case {} to {:?}", j.name, case, to);
                match case {
                    0 => {
                        std::os::unix::fs::symlink("/dev/full", &out).expect("ENGINE: link");
                    }
                    5 => out = dir.join("missing").join(if to == To::Dc { "o.dc" } else { "o.csv" }),
                    6 => std::fs::create_dir(&out).expect("ENGINE: directory"),
                    _ => {}
                }
                let mut c = command(j, to, &dir, &out, &[]);
                match case {
                    1 => {
                        c.stdout(std::fs::OpenOptions::new().write(true).open("/dev/full").expect("ENGINE: /dev/full"));
                    }
                    7 => unsafe {
                        // a file nobody may write, as a user who may not
                        std::fs::write(&out, b"old").expect("ENGINE: file");
                        use std::os::unix::fs::PermissionsExt;
                        let _ = std::fs::set_permissions(&out, std::fs::Permissions::from_mode(0o444));
                        let _ = std::fs::set_permissions(&dir, std::fs::Permissions::from_mode(0o755));
                        c.pre_exec(|| {
                            libc::setgid(65534);
                            libc::setuid(65534);
                            Ok(())
                        });
                    },
                    _ => {}
                }
                match case {
                    2 | 3 | 4 => {
                        // reader goes after 0, 1 or half of the bytes
                        let keep = [0, 1, full.len() / 2][case - 2];
                        let mut fds = [0; 2];
                        unsafe {
                            if libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC) != 0 {
                                panic!("ENGINE: pipe");
                            }
                            libc::fcntl(fds[1], libc::F_SETPIPE_SZ, 4096);
                        }
                        use std::os::fd::FromRawFd;
                        let (mut rd, wr) = unsafe { (std::fs::File::from_raw_fd(fds[0]), std::fs::File::from_raw_fd(fds[1])) };
                        c.stdout(wr);
                        let mut rd = if keep == 0 {
                            drop(rd);
                            None
                        } else {
                            use std::io::Read;
                            let _ = rd.by_ref();
                            Some(rd)
                        };
                        let ch = c.spawn().expect("ENGINE: cannot run chop");
                        drop(c);
                        let mut w = vec![0; keep];
                        if let Some(mut rd) = rd.take() {
                            use std::io::Read;
                            let mut got = 0;
                            while got < keep {
                                match rd.read(&mut w[got..]) {
                                    Ok(0) | Err(_) => break,
                                    Ok(n) => got += n,
                                }
                            }
                            w.truncate(got);
                        }
                        let o = ch.wait_with_output().expect("ENGINE: wait");
                        // what fits into the pipe is written for all the program can know
                        let sure = full.len() > keep + 4096 + 8192 || keep == 0;
                        ctx.outcome(&o.status.success());
                        ctx.note(|| format!("{}: {} after {} bytes of {}", what(), o.status, keep, full.len()));
                        ensure!(full.starts_with(&w), "{}: what was read is no prefix of the output", what());
                        ensure!(!(sure && o.status.success()), "{}: success though the reader had gone", what());
                        Ok(())
                    }
                    7 => {
                        let o = c.output();
                        let o = match o {
                            Ok(o) => o,
                            Err(_) => return Ok(()), // the program itself is out of that user's reach
                        };
                        let _ = &o;
                        ensure!(!o.status.success(), "{}: success on a file that may not be written", what());
                        ensure!(std::fs::read(&out).unwrap_or_default() == b"old", "{}: the file was changed", what());
                        Ok(())
                    }
                    _ => {
                        let o = c.output().expect("ENGINE: cannot run chop");
                        judge(ctx, &o, b"", full, false, false, &what)
                    }
                }
            },
        );
        c.scenario(
            "cut-inputs",
            "4 jobs of 1 or 3 inputs: each input cut at every byte that is no end of a row, to csv, dc, standard output",
            0,
            move |ctx| {
                let j = &jobs()[*ctx.pick(&[1usize, 2, 3, 8])];
                let i = ctx.choose(j.inputs.len());
                let b = &j.inputs[i].1;
                // ends of rows: sizes of files of the first rows
                let cut: Vec<usize> = (0..b.len()).filter(|n| b.len() < 2000 || t || n % 61 == 0 || n + 3 > b.len()).collect();
                let cut = *ctx.pick(&cut);
                let to = *ctx.pick(&[To::Csv, To::Dc, To::StdoutPipe]);
                if dc_ends(b).contains(&cut) {
                    return Ok(());
                }
                let dir = ctx.fresh_dir();
                let out = out_path(to, &dir);
                let mut c = command(j, to, &dir, &out, &[]);
                std::fs::write(dir.join(&j.inputs[i].0), &b[..cut]).expect("ENGINE: cut input");
                ctx.step(&(j.name, i, cut, to));
                let o = c.output().expect("ENGINE: cannot run chop");
                let w = if to == To::StdoutPipe { o.stdout.clone() } else { std::fs::read(&out).unwrap_or_default() };
                judge(ctx, &o, &w, to.full(j), false, false, &|| format!("{} to {:?}, input {} cut to {} bytes", j.name, to, i, cut))
            },
        );
        c.scenario(
            "failing-nodes",
            "graphs of 4 shapes (chains, merge, split, both) over 1..=3 sources of 0..=2 rows: every single call (header, row, flush) to any node fails",
            0,
            move |ctx| {
                let shape = ctx.choose(4);
                let k = 1 + ctx.choose(3);
                let mut times = Vec::new();
                for _ in 0..k {
                    let n = ctx.choose(if t { 4 } else { 3 });
                    let mut lo = 0;
                    times.push(
                        (0..n)
                            .map(|_| {
                                lo += ctx.choose(if t && k < 3 { 3 } else { 2 });
                                lo as u64
                            })
                            .collect::<Vec<u64>>(),
                    );
                }
                let (ok, n, all) = run_graph(shape, &times, usize::MAX);
                if let Err(e) = ok {
                    return Err(format!("graph {} with times {:?} refused: {}", shape, times, e));
                }
                let at = ctx.choose(n);
                let (res, n2, ev) = run_graph(shape, &times, at);
                ctx.outcome(&ev);
                ctx.note(|| format!("graph {} with times {:?}, call {} of {} fails: {:?}, {} events", shape, times, at, n, res, ev.len()));
                for e in &ev {
                    ctx.step(&(shape, &times, at, e));
                }
                ensure!(res.is_err(), "graph {} with times {:?}: call {} of {} failed ({} calls in all), success reported", shape, times, at, n, n2);
                // each sink has a prefix of its rows
                for id in 0..24 {
                    let rows = |v: &Vec<Ev>| -> Vec<R> {
                        v.iter()
                            .filter_map(|e| match e {
                                Ev::Row(i, r) if *i == id => Some(r.clone()),
                                _ => None,
                            })
                            .collect()
                    };
                    let (a, b) = (rows(&all), rows(&ev));
                    ensure!(a.starts_with(&b), "graph {} with times {:?}, call {} failed: sink {} saw rows {:?}, without the fault {:?}", shape, times, at, id, b, a);
                }
                Ok(())
            },
        );
        c.scenario(
            "long",
            "1.2 MB from one input or three, to csv, dc, standard output a file or a pipe: nothing fails; the 1st, every 9th (thorough: every) and the last \
             3 write calls fail (no space, once or for good; i/o error) or take less or are interrupted; file size limit around every power of two and 3/2 of it",
            0,
            move |ctx| {
                static J: OnceLock<Vec<Job>> = OnceLock::new();
                let js = J.get_or_init(|| vec![job("1.2-MB", 1, 10_500, 100), job("three-inputs-1.2-MB", 3, 3_500, 100)]);
                let ji = ctx.choose(2);
                let j = &js[ji];
                let to = *ctx.pick(&[To::Csv, To::Dc, To::StdoutFile, To::StdoutPipe]);
                let full = to.full(j);
                let dir = ctx.fresh_dir();
                let out = out_path(to, &dir);
                let o = out.to_string_lossy().to_string();
                let kind = ctx.choose(3);
                let written = |o: &std::process::Output| {
                    if to == To::StdoutPipe { o.stdout.clone() } else { std::fs::read(&out).unwrap_or_default() }
                };
                match kind {
                    0 => {
                        ctx.step(&(j.name, to));
                        let o = command(j, to, &dir, &out, &[]).output().expect("ENGINE: cannot run chop");
                        judge(ctx, &o, &written(&o), full, true, true, &|| format!("{} to {:?}", j.name, to))
                    }
                    1 => {
                        static N: OnceLock<std::sync::Mutex<std::collections::HashMap<(usize, usize), usize>>> = OnceLock::new();
                        let known = N.get_or_init(Default::default).lock().map_or(None, |m| m.get(&(ji, to as usize)).cloned());
                        let n = match known {
                            Some(n) => n,
                            None => {
                                let n = calls(j, to, &dir);
                                if let Some(mut m) = N.get().and_then(|m| m.lock().ok()) {
                                    m.insert((ji, to as usize), n);
                                }
                                n
                            }
                        };
                        let at: Vec<usize> = (0..n).filter(|i| t || i % 9 == 0 || i + 3 >= n).collect();
                        if at.is_empty() {
                            return Ok(());
                        }
                        let at = *ctx.pick(&at);
                        let how = *ctx.pick(&["e28", "E28", "e5", "s1", "S1000", "i1"]);
                        let so = shim();
                        let ats = at.to_string();
                        let mut env: Vec<(&str, &str)> = vec![("LD_PRELOAD", &so), ("MC_SHIM_AT", &ats), ("MC_SHIM_HOW", how)];
                        if to == To::Csv || to == To::Dc {
                            env.push(("MC_SHIM_FILE", &o));
                        }
                        ctx.step(&(j.name, to, at, how));
                        let o = command(j, to, &dir, &out, &env).output().expect("ENGINE: cannot run chop");
                        let fine = !how.to_lowercase().starts_with('e');
                        judge(ctx, &o, &written(&o), full, fine, fine, &|| {
                            format!("{} to {:?}, write call {} of {}: {}", j.name, to, at, n, how)
                        })
                    }
                    _ => {
                        if to == To::StdoutPipe {
                            return Ok(());
                        }
                        let at: Vec<usize> = (10..21)
                            .flat_map(|k| vec![(1usize << k) - 1, 1 << k, (1 << k) + 1, 3 << (k - 1)])
                            .chain(vec![full.len() - 1, full.len()])
                            .filter(|x| *x <= full.len())
                            .collect();
                        let limit = *ctx.pick(&at);
                        let mut c = command(j, to, &dir, &out, &[]);
                        unsafe {
                            c.pre_exec(move || {
                                libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
                                let l = libc::rlimit { rlim_cur: limit as u64, rlim_max: limit as u64 };
                                match libc::setrlimit(libc::RLIMIT_FSIZE, &l) {
                                    0 => Ok(()),
                                    _ => Err(std::io::Error::last_os_error()),
                                }
                            });
                        }
                        ctx.step(&(j.name, to, limit));
                        let o = c.output().expect("ENGINE: cannot run chop");
                        let fits = limit >= full.len();
                        judge(ctx, &o, &written(&o), full, fits, fits, &|| format!("{} to {:?}, limit of {} bytes", j.name, to, limit))
                    }
                }
            },
        );
        c.scenario(
            "cut-long-inputs",
            "the same jobs, one input cut at 12 places (no end of a row) from its start to its last byte: an error, and the output is a prefix",
            0,
            move |ctx| {
                let j = if ctx.flag() { job("three-inputs-1.2-MB", 3, 3_500, 100) } else { job("1.2-MB", 1, 10_500, 100) };
                let to = *ctx.pick(&[To::Csv, To::Dc, To::StdoutPipe]);
                let which = ctx.choose(j.inputs.len());
                let ends = dc_ends(&j.inputs[which].1);
                let n = j.inputs[which].1.len();
                let k = ctx.choose(12);
                let mut at = [n / 1000, 8191, 8192, 8193, n / 7, n / 3, n / 2, 65536, n - n / 10, n - 8192, n - 2, n - 1][k];
                while ends.contains(&at) {
                    at -= 1;
                }
                let dir = ctx.fresh_dir();
                let out = out_path(to, &dir);
                let mut cut = job(j.name, 0, 0, 0);
                cut.inputs = j.inputs.clone();
                cut.inputs[which].1.truncate(at);
                ctx.step(&(j.name, to, which, at));
                let o = command(&cut, to, &dir, &out, &[]).output().expect("ENGINE: cannot run chop");
                let w = if to == To::StdoutPipe { o.stdout.clone() } else { std::fs::read(&out).unwrap_or_default() };
                judge(ctx, &o, &w, to.full(&j), false, false, &|| format!("{} to {:?}, input {} cut at byte {} of {}", j.name, to, which, at, n))
            },
        );
    });
}
