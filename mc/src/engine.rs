//! Stateless model checker for the real code: a scenario is a closure that asks `Ctx::choose` /
//! `Ctx::deviate` for every decision of its environment (operation, argument, input shape, short
//! read, injected fault, ...), runs the code under test, and compares each step with a reference
//! model. The engine enumerates the whole tree of decisions (deviations up to the scenario's
//! bound, fewest first) on all cores.
//!
//! The exploration runs in a worker process. If that process exits, aborts or stops making progress
//! the parent re-runs the cases that were in flight, each alone in a process of its own, and reports
//! the one that ends its process (or never ends) as a violation.
use std::any::Any;
use std::cell::RefCell;
use std::collections::HashSet;
use std::fs;
use std::hash::{BuildHasherDefault, Hash, Hasher};
use std::panic::{self, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicPtr, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

use serde_json::{json, Value};

pub type Res = Result<(), String>;

#[derive(Clone, Copy, PartialEq)]
pub enum Level {
    ModelChecking,
    FaultEnumeration,
}

pub struct Ctx {
    prefix: Vec<u32>,
    taken: Vec<(u32, u32, bool)>,
    devs: usize,
    bound: usize,
    states: Vec<u64>,
    transitions: u64,
    outcome: u64,
    notes: Option<Vec<String>>,
    dir: PathBuf,
    pub thorough: bool,
}

pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// At most the first 4000 bytes.
fn clip(mut s: String) -> String {
    if s.len() > 4000 {
        let mut e = 4000;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        s.truncate(e);
        s.push_str("...");
    }
    s
}

/// The beginning of what {:?} gives, without making all of it.
pub fn show<T: std::fmt::Debug + ?Sized>(t: &T) -> String {
    struct W(String);
    impl std::fmt::Write for W {
        fn write_str(&mut self, s: &str) -> std::fmt::Result {
            if self.0.len() > 1500 {
                return Err(std::fmt::Error);
            }
            self.0.push_str(s);
            Ok(())
        }
    }
    let mut w = W(String::new());
    if std::fmt::write(&mut w, format_args!("{:?}", t)).is_err() {
        w.0.push_str(" ...");
    }
    w.0
}

const DIVERGED: &str = "ENGINE: replay of a decision prefix diverged";

impl Ctx {
    fn new(prefix: Vec<u32>, bound: usize, dir: &Path, thorough: bool, notes: bool) -> Self {
        Ctx {
            prefix,
            taken: Vec::new(),
            devs: 0,
            bound,
            states: Vec::new(),
            transitions: 0,
            outcome: 0,
            notes: if notes { Some(Vec::new()) } else { None },
            dir: dir.to_path_buf(),
            thorough,
        }
    }

    fn decide(&mut self, n: usize, dev: bool) -> usize {
        assert!(n > 0, "ENGINE: choice among nothing");
        if n == 1 {
            return 0;
        }
        let i = self.taken.len();
        let v = if i < self.prefix.len() {
            self.prefix[i]
        } else {
            0
        };
        if v as usize >= n {
            panic!("{}", DIVERGED);
        }
        if dev && v != 0 {
            self.devs += 1;
        }
        self.taken.push((v, n as u32, dev));
        v as usize
    }

    /// One of n alternatives, all of them explored.
    pub fn choose(&mut self, n: usize) -> usize {
        self.decide(n, false)
    }

    /// One of the given values, all of them explored.
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.choose(xs.len());
        &xs[i]
    }

    pub fn flag(&mut self) -> bool {
        self.choose(2) == 1
    }

    /// Alternative 0 is the default answer; the others are deviations, explored up to the bound.
    pub fn deviate(&mut self, n: usize) -> usize {
        if self.devs >= self.bound {
            return 0;
        }
        self.decide(n, true)
    }

    /// A step of the execution compared with the model, which is now in the given state.
    pub fn step<T: Hash + ?Sized>(&mut self, state: &T) {
        self.transitions += 1;
        self.states.push(hash_of(state));
    }

    /// What was observed in the end (number of distinct ones is reported).
    pub fn outcome<T: Hash + ?Sized>(&mut self, o: &T) {
        self.outcome = hash_of(o);
    }

    /// Text for the trace of a replay or sample.
    pub fn note<F: FnOnce() -> String>(&mut self, f: F) {
        if let Some(n) = &mut self.notes {
            n.push(clip(f()));
        }
    }

    /// Scratch directory of this thread; the case owns and overwrites its contents.
    pub fn dir(&self) -> &Path {
        &self.dir
    }

    /// The same, emptied.
    pub fn fresh_dir(&self) -> PathBuf {
        let _ = fs::remove_dir_all(&self.dir);
        fs::create_dir_all(&self.dir).expect("ENGINE: scratch directory");
        self.dir.clone()
    }
}

type Body = Box<dyn Fn(&mut Ctx) -> Res + Sync + Send>;

struct Scenario {
    name: String,
    what: String,
    bound: usize,
    body: Body,
}

pub struct Check {
    scenarios: Vec<Scenario>,
    assumptions: Vec<String>,
    pub rule: String,
    pub thorough: bool,
}

impl Check {
    /// `bound`: maximal number of deviations (see Ctx::deviate) in one execution.
    pub fn scenario<F>(&mut self, name: &str, what: &str, bound: usize, f: F)
    where
        F: Fn(&mut Ctx) -> Res + Sync + Send + 'static,
    {
        self.scenarios.push(Scenario {
            name: name.to_string(),
            what: what.to_string(),
            bound,
            body: Box::new(f),
        });
    }

    pub fn assume(&mut self, text: &str) {
        self.assumptions.push(text.to_string());
    }
}

// ---------------------------------------------------------------------------------------------
// slots shared between worker and parent: what each thread is running right now

const SLOT: usize = 16 * 1024;
const MAX_PREFIX: usize = (SLOT - 32) / 4;
const THREADS_MAX: usize = 64;

struct Slots {
    base: AtomicPtr<u8>,
}

impl Slots {
    fn open(path: &Path, create: bool) -> Slots {
        use std::os::unix::io::AsRawFd;
        let f = fs::OpenOptions::new()
            .read(true)
            .write(true)
            .create(create)
            .open(path)
            .expect("slots file");
        f.set_len((SLOT * THREADS_MAX) as u64).expect("slots len");
        let p = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                SLOT * THREADS_MAX,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                f.as_raw_fd(),
                0,
            )
        };
        assert!(p != libc::MAP_FAILED, "mmap");
        Slots {
            base: AtomicPtr::new(p as *mut u8),
        }
    }
    fn word(&self, t: usize, w: usize) -> &AtomicU64 {
        unsafe { &*(self.base.load(Relaxed).add(t * SLOT + w * 8) as *const AtomicU64) }
    }
    fn half(&self, t: usize, i: usize) -> *mut u32 {
        unsafe { self.base.load(Relaxed).add(t * SLOT + 32 + i * 4) as *mut u32 }
    }
    // words: 0 sequence number (odd: running), 1 scenario, 2 prefix length
    fn begin(&self, t: usize, scenario: usize, prefix: &[u32]) {
        assert!(prefix.len() < MAX_PREFIX, "ENGINE: prefix too long");
        self.word(t, 1).store(scenario as u64, Relaxed);
        self.word(t, 2).store(prefix.len() as u64, Relaxed);
        for (i, v) in prefix.iter().enumerate() {
            unsafe { *self.half(t, i) = *v };
        }
        self.word(t, 0).fetch_add(1, Release);
    }
    fn end(&self, t: usize) {
        self.word(t, 0).fetch_add(1, Release);
    }
    fn running(&self, t: usize) -> Option<(u64, usize, Vec<u32>)> {
        let s = self.word(t, 0).load(Acquire);
        if s % 2 == 0 {
            return None;
        }
        let n = (self.word(t, 2).load(Relaxed) as usize).min(MAX_PREFIX);
        let p = (0..n).map(|i| unsafe { *self.half(t, i) }).collect();
        Some((s, self.word(t, 1).load(Relaxed) as usize, p))
    }
}

// ---------------------------------------------------------------------------------------------
// running one case

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

fn install_hook() {
    panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = payload_text(info.payload());
        if std::env::var_os("MC_PANICS").is_some() {
            eprintln!("panic at {}: {}", loc, msg);
        }
        PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

fn payload_text(p: &dyn Any) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".to_string()
    }
}

enum Verdict {
    Ok,
    Violation(String),
    Engine(String),
}

fn run_case(body: &Body, ctx: &mut Ctx) -> Verdict {
    PANIC.with(|p| *p.borrow_mut() = None);
    // what is counted belongs to this case, whatever this thread has freed for others before
    crate::alloc::zero();
    match panic::catch_unwind(AssertUnwindSafe(|| body(ctx))) {
        Ok(Ok(())) => {
            if ctx.taken.len() < ctx.prefix.len() {
                return Verdict::Engine(DIVERGED.to_string());
            }
            Verdict::Ok
        }
        Ok(Err(m)) => Verdict::Violation(clip(m)),
        Err(p) => {
            let (loc, msg) = PANIC
                .with(|p| p.borrow_mut().take())
                .unwrap_or_else(|| (String::new(), payload_text(&*p)));
            // files of this crate are compiled by paths relative to it, all others by absolute ones
            if let Some(m) = msg.strip_prefix("VIOLATION: ") {
                Verdict::Violation(m.to_string())
            } else if loc.starts_with("src/") || msg.starts_with("ENGINE:") {
                Verdict::Engine(format!("panic in the harness at {}: {}", loc, msg))
            } else {
                Verdict::Violation(format!("crash: panic at {}: {}", loc, msg))
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------
// exploration (in the worker)

#[derive(Default)]
struct IdHasher(u64);
impl Hasher for IdHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = v
    }
}
type Set = HashSet<u64, BuildHasherDefault<IdHasher>>;

#[derive(Default)]
struct Stats {
    executions: u64,
    transitions: u64,
    choice_points: u64,
    by_devs: Vec<u64>,
    max_depth: usize,
    deepest: Vec<u32>,
    last: Vec<u32>,
    states: Set,
    outcomes: Set,
}

struct Pool {
    stacks: Vec<Vec<Box<[u32]>>>,
    active: usize,
}

struct Found {
    prefix: Vec<u32>,
    message: String,
    engine: bool,
}

struct Known {
    key: String,
    what: String,
}

struct Shared<'a> {
    pool: Mutex<Pool>,
    cv: Condvar,
    stop: AtomicBool,
    capped: AtomicBool,
    found: Mutex<Vec<Found>>,
    known_hits: Mutex<Vec<usize>>,
    knowns: &'a [Known],
    deadline: Instant,
}

fn explore(
    idx: usize,
    sc: &Scenario,
    threads: usize,
    dir: &Path,
    slots: &Slots,
    deadline: Instant,
    thorough: bool,
    knowns: &[Known],
) -> (Stats, Vec<Found>, bool, Vec<usize>) {
    let mut stacks = vec![Vec::new(); sc.bound + 1];
    stacks[0].push(Vec::new().into_boxed_slice());
    let sh = Shared {
        pool: Mutex::new(Pool { stacks, active: 0 }),
        cv: Condvar::new(),
        stop: AtomicBool::new(false),
        capped: AtomicBool::new(false),
        found: Mutex::new(Vec::new()),
        known_hits: Mutex::new(Vec::new()),
        knowns,
        deadline,
    };
    let total = Mutex::new(Stats::default());
    let running = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for t in 0..threads {
            let (sh, total, running) = (&sh, &total, &running);
            std::thread::Builder::new()
                .stack_size(8 << 20) // what a program's main thread has
                .spawn_scoped(s, move || {
                    running.fetch_add(1, Relaxed);
                    let tdir = dir.join(format!("t{}", t));
                    let _ = fs::create_dir_all(&tdir);
                    let st = explore_thread(idx, sc, t, &tdir, slots, sh, thorough);
                    let mut tot = total.lock().unwrap();
                    tot.executions += st.executions;
                    tot.transitions += st.transitions;
                    tot.choice_points += st.choice_points;
                    for (i, n) in st.by_devs.iter().enumerate() {
                        if tot.by_devs.len() <= i {
                            tot.by_devs.resize(i + 1, 0);
                        }
                        tot.by_devs[i] += n;
                    }
                    if st.max_depth >= tot.max_depth {
                        tot.max_depth = st.max_depth;
                        tot.deepest = st.deepest;
                    }
                    if tot.last.is_empty() || st.last > tot.last {
                        tot.last = st.last;
                    }
                    if tot.states.is_empty() {
                        tot.states = st.states;
                    } else {
                        tot.states.extend(st.states);
                    }
                    tot.outcomes.extend(st.outcomes);
                })
                .expect("thread");
        }
    });
    let capped = sh.capped.load(Relaxed);
    (
        total.into_inner().unwrap(),
        sh.found.into_inner().unwrap(),
        capped,
        sh.known_hits.into_inner().unwrap(),
    )
}

fn explore_thread(
    idx: usize,
    sc: &Scenario,
    t: usize,
    dir: &Path,
    slots: &Slots,
    sh: &Shared,
    thorough: bool,
) -> Stats {
    let mut st = Stats::default();
    let mut batch: Vec<Box<[u32]>> = Vec::new();
    let mut children: Vec<(usize, Box<[u32]>)> = Vec::new();
    let mut held = false;
    loop {
        {
            let mut pool = sh.pool.lock().unwrap();
            for (c, p) in children.drain(..) {
                pool.stacks[c].push(p);
            }
            if held {
                pool.active -= 1;
                held = false;
            }
            loop {
                if sh.stop.load(Relaxed) {
                    sh.cv.notify_all();
                    return st;
                }
                // lowest number of deviations first
                if let Some(stack) = pool.stacks.iter_mut().find(|s| !s.is_empty()) {
                    let n = if stack.len() > 256 {
                        16
                    } else if stack.len() > 64 {
                        4
                    } else {
                        1
                    };
                    let at = stack.len() - n;
                    batch.extend(stack.drain(at..).rev());
                    pool.active += 1;
                    held = true;
                    if pool.stacks.iter().any(|s| !s.is_empty()) {
                        sh.cv.notify_one();
                    }
                    break;
                }
                if pool.active == 0 {
                    sh.cv.notify_all();
                    return st;
                }
                pool = sh.cv.wait_timeout(pool, Duration::from_millis(50)).unwrap().0;
            }
        }
        for prefix in batch.drain(..) {
            if sh.stop.load(Relaxed) {
                break;
            }
            let plen = prefix.len();
            slots.begin(t, idx, &prefix);
            let mut ctx = Ctx::new(prefix.into_vec(), sc.bound, dir, thorough, false);
            let v = run_case(&sc.body, &mut ctx);
            slots.end(t);
            st.executions += 1;
            st.transitions += ctx.transitions;
            st.choice_points += ctx.taken.len() as u64;
            if st.by_devs.len() <= ctx.devs {
                st.by_devs.resize(ctx.devs + 1, 0);
            }
            st.by_devs[ctx.devs] += 1;
            st.states.extend(ctx.states.iter());
            st.outcomes.insert(ctx.outcome);
            if ctx.taken.len() > st.max_depth {
                st.max_depth = ctx.taken.len();
                st.deepest = ctx.taken.iter().map(|c| c.0).collect();
            }
            if ctx.prefix > st.last {
                st.last = ctx.prefix.clone();
            }
            match v {
                Verdict::Ok => {}
                Verdict::Violation(m) => {
                    let known = sh.knowns.iter().position(|k| m.contains(&k.key));
                    if let Some(k) = known {
                        let mut kh = sh.known_hits.lock().unwrap();
                        if !kh.contains(&k) {
                            kh.push(k);
                        }
                    } else {
                        let full = ctx.taken.iter().map(|c| c.0).collect();
                        sh.found.lock().unwrap().push(Found {
                            prefix: full,
                            message: m,
                            engine: false,
                        });
                        sh.stop.store(true, Relaxed);
                    }
                }
                Verdict::Engine(m) => {
                    sh.found.lock().unwrap().push(Found {
                        prefix: ctx.prefix.clone(),
                        message: m,
                        engine: true,
                    });
                    sh.stop.store(true, Relaxed);
                }
            }
            // children: every untaken alternative at the choice points after the prefix
            let mut devs = ctx.taken[..plen].iter().filter(|c| c.2 && c.0 != 0).count();
            for i in plen..ctx.taken.len() {
                let (v, n, dev) = ctx.taken[i];
                debug_assert_eq!(v, 0);
                if dev && v != 0 {
                    devs += 1;
                }
                let cost = devs + dev as usize;
                for alt in (1..n).rev() {
                    let mut p: Vec<u32> = Vec::with_capacity(i + 1);
                    p.extend(ctx.taken[..i].iter().map(|c| c.0));
                    p.push(alt);
                    children.push((cost, p.into_boxed_slice()));
                }
            }
            if st.executions % 64 == 0 && Instant::now() > sh.deadline {
                sh.capped.store(true, Relaxed);
                sh.stop.store(true, Relaxed);
            }
        }
    }
}

fn worker(prop: &str, check: &Check, wdir: &Path) -> ! {
    unsafe {
        let lim = libc::rlimit { rlim_cur: 20 << 30, rlim_max: 20 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &core);
        // a failed write must come back as an error to the code under test, as Rust programs have it
        libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
    }
    install_hook();
    let slots = Slots::open(&wdir.join("slots"), false);
    let knowns = load_known(prop);
    let done = |v: Value| -> ! {
        fs::write(wdir.join("result.tmp"), v.to_string()).expect("result");
        fs::rename(wdir.join("result.tmp"), wdir.join("result.json")).expect("result");
        unsafe { libc::_exit(0) }
    };
    // one case alone
    if let Ok(s) = fs::read_to_string(wdir.join("case.json")) {
        let v: Value = serde_json::from_str(&s).expect("case");
        let idx = v["scenario"].as_u64().unwrap() as usize;
        let prefix: Vec<u32> = v["choices"]
            .as_array()
            .unwrap()
            .iter()
            .map(|x| x.as_u64().unwrap() as u32)
            .collect();
        let sc = &check.scenarios[idx];
        let d = wdir.join("t0");
        let _ = fs::create_dir_all(&d);
        let mut ctx = Ctx::new(prefix, sc.bound, &d, check.thorough, true);
        let r = run_case(&sc.body, &mut ctx);
        let (kind, msg) = match r {
            Verdict::Ok => ("ok", String::new()),
            Verdict::Violation(m) => ("violation", m),
            Verdict::Engine(m) => ("engine", m),
        };
        done(json!({"kind": kind, "message": msg, "trace": ctx.notes}));
    }
    let threads: usize = std::env::var("MC_THREADS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4))
        .clamp(1, THREADS_MAX);
    let cap: u64 = std::env::var("MC_CAP_S")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(if check.thorough { 3000 } else { 400 });
    let deadline = Instant::now() + Duration::from_secs(cap);
    let only = std::env::var("MC_ONLY").ok();
    let mut out = Vec::new();
    let mut samples = Vec::new();
    let mut violation = Value::Null;
    let mut hits: Vec<String> = Vec::new();
    for (i, sc) in check.scenarios.iter().enumerate() {
        if let Some(o) = &only {
            if !sc.name.contains(o.as_str()) {
                continue;
            }
        }
        let t0 = Instant::now();
        let (st, mut found, capped, kh) = explore(
            i, sc, threads, wdir, &slots, deadline, check.thorough, &knowns,
        );
        for k in kh {
            let line = knowns[k].what.clone();
            if !hits.contains(&line) {
                hits.push(line);
            }
        }
        out.push(json!({
            "name": sc.name, "enumerated": sc.what, "deviation_bound": sc.bound,
            "executions": st.executions, "executions_by_deviations": st.by_devs,
            "states": st.states.len(), "transitions": st.transitions,
            "choice_points": st.choice_points, "max_choice_depth": st.max_depth,
            "distinct_outcomes": st.outcomes.len(),
            "completed": !capped && found.is_empty(),
            "wall_s": (t0.elapsed().as_millis() as f64) / 1000.0,
        }));
        eprintln!(
            "MC {} {}: {} executions {} states {} transitions {} outcomes depth {} {:.1}s{}",
            prop, sc.name, st.executions, st.states.len(), st.transitions, st.outcomes.len(),
            st.max_depth, t0.elapsed().as_secs_f64(), if capped { " CAPPED" } else { "" }
        );
        let d = wdir.join("t0");
        if found.is_empty() {
            for p in [&st.deepest, &st.last] {
                let mut ctx = Ctx::new(p.clone(), sc.bound, &d, check.thorough, true);
                slots.begin(0, i, p);
                let r = run_case(&sc.body, &mut ctx);
                slots.end(0);
                if !matches!(r, Verdict::Ok) && knowns.is_empty() {
                    found.push(Found {
                        prefix: p.clone(),
                        message: "a case that had passed failed when it was run again".to_string(),
                        engine: true,
                    });
                }
                let mut notes = ctx.notes.unwrap_or_default();
                for n in notes.iter_mut() {
                    if n.len() > 400 {
                        let mut e = 400;
                        while !n.is_char_boundary(e) {
                            e -= 1;
                        }
                        n.truncate(e);
                        n.push_str("...");
                    }
                }
                notes.truncate(40);
                samples.push(json!({"scenario": sc.name, "choices": p, "trace": notes}));
            }
        }
        if !found.is_empty() {
            found.sort_by(|a, b| {
                (a.engine, a.prefix.len(), &a.prefix).cmp(&(b.engine, b.prefix.len(), &b.prefix))
            });
            let f = &found[0];
            let mut engine = f.engine;
            let mut message = f.message.clone();
            let mut trace = Vec::new();
            if !engine {
                // must fail the same way every time
                for _ in 0..2 {
                    let mut ctx = Ctx::new(f.prefix.clone(), sc.bound, &d, check.thorough, true);
                    slots.begin(0, i, &f.prefix);
                    let r = run_case(&sc.body, &mut ctx);
                    slots.end(0);
                    trace = ctx.notes.unwrap_or_default();
                    if !matches!(r, Verdict::Violation(_)) {
                        engine = true;
                        message = format!("not reproducible when run again: {}", f.message);
                        if let Verdict::Engine(m) = r {
                            message += &format!(" (then: {})", m);
                        }
                    }
                }
            }
            violation = json!({
                "scenario": i, "choices": f.prefix, "message": message, "engine": engine,
                "trace": trace,
            });
            break;
        }
        if capped {
            break;
        }
    }
    done(json!({"scenarios": out, "samples": samples, "violation": violation, "known": hits}));
}

fn load_known(prop: &str) -> Vec<Known> {
    let p = verif_dir().join("known_findings.txt");
    let mut r = Vec::new();
    if let Ok(s) = fs::read_to_string(p) {
        for l in s.lines() {
            // open: property=<id> key=<text in the violation message> | <what fails>
            if let Some(rest) = l.strip_prefix(&format!("open: property={} key=", prop)) {
                if let Some((k, w)) = rest.split_once(" | ") {
                    r.push(Known { key: k.to_string(), what: w.to_string() });
                }
            }
        }
    }
    r
}

fn verif_dir() -> PathBuf {
    match std::env::var_os("MC_VERIF") {
        Some(d) => PathBuf::from(d),
        None => PathBuf::from(concat!(env!("CARGO_MANIFEST_DIR"), "/..")),
    }
}

// ---------------------------------------------------------------------------------------------
// parent

fn make_dir(prop: &str, tag: &str) -> PathBuf {
    let base = ["/dev/shm", "/tmp"]
        .iter()
        .map(PathBuf::from)
        .find(|d| {
            let p = d.join(format!(".mc-probe-{}", std::process::id()));
            let ok = fs::write(&p, b"x").is_ok();
            let _ = fs::remove_file(&p);
            ok
        })
        .unwrap_or_else(std::env::temp_dir);
    let d = base.join(format!("mc-{}-{}-{}", prop, std::process::id(), tag));
    fs::create_dir_all(&d).expect("scratch");
    d
}

enum End {
    Done(Value),
    Died(String, Vec<(usize, Vec<u32>)>),
    Stalled(Vec<(usize, Vec<u32>)>),
}

fn spawn_worker(dir: &Path, tier: &str, stall_s: u64, threads: Option<usize>) -> End {
    let slots = Slots::open(&dir.join("slots"), true);
    let mut cmd = Command::new(std::env::current_exe().expect("exe"));
    cmd.arg(tier);
    cmd.env("MC_WORKER", dir).stdin(Stdio::null()).stdout(Stdio::null());
    if let Some(t) = threads {
        cmd.env("MC_THREADS", t.to_string());
    }
    let mut child = cmd.spawn().expect("worker");
    let mut seen: Vec<(u64, Instant)> = vec![(0, Instant::now()); THREADS_MAX];
    let flight = |slots: &Slots| -> Vec<(usize, Vec<u32>)> {
        (0..THREADS_MAX)
            .filter_map(|t| slots.running(t).map(|(_, s, p)| (s, p)))
            .collect()
    };
    let mut tick = 0u64;
    loop {
        match child.try_wait().expect("wait") {
            Some(st) => {
                if st.success() {
                    if let Ok(s) = fs::read_to_string(dir.join("result.json")) {
                        if let Ok(v) = serde_json::from_str(&s) {
                            return End::Done(v);
                        }
                    }
                }
                return End::Died(format!("{}", st), flight(&slots));
            }
            None => {}
        }
        std::thread::sleep(Duration::from_millis(if tick < 100 { 10 } else { 50 }));
        tick += 1;
        if tick % 10 == 0 {
            for (t, s) in seen.iter_mut().enumerate() {
                let cur = slots.word(t, 0).load(Acquire);
                if cur != s.0 || cur % 2 == 0 {
                    *s = (cur, Instant::now());
                } else if s.1.elapsed() > Duration::from_secs(stall_s) {
                    let fl = slots.running(t).map(|(_, s, p)| (s, p)).into_iter().collect();
                    let _ = child.kill();
                    let _ = child.wait();
                    return End::Stalled(fl);
                }
            }
        }
    }
}

/// Run one case alone; Some((message, trace)) if it violates, ends its process or does not end.
fn isolate(prop: &str, tier: &str, idx: usize, prefix: &[u32]) -> Result<Option<(String, Value)>, String> {
    let dir = make_dir(prop, "one");
    fs::write(
        dir.join("case.json"),
        json!({"scenario": idx, "choices": prefix}).to_string(),
    )
    .expect("case");
    let mut cmd = Command::new(std::env::current_exe().expect("exe"));
    cmd.arg(tier);
    Slots::open(&dir.join("slots"), true);
    cmd.env("MC_WORKER", &dir)
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null());
    let mut child = cmd.spawn().expect("worker");
    let t0 = Instant::now();
    let r = loop {
        if let Some(st) = child.try_wait().expect("wait") {
            let v: Option<Value> = fs::read_to_string(dir.join("result.json"))
                .ok()
                .and_then(|s| serde_json::from_str(&s).ok());
            break match (st.success(), v) {
                (true, Some(v)) => match v["kind"].as_str() {
                    Some("violation") => Ok(Some((
                        v["message"].as_str().unwrap_or("").to_string(),
                        v["trace"].clone(),
                    ))),
                    Some("engine") => Err(v["message"].as_str().unwrap_or("").to_string()),
                    _ => Ok(None),
                },
                _ => Ok(Some((
                    format!("crash: the process running the case ended: {}", st),
                    Value::Null,
                ))),
            };
        }
        if t0.elapsed() > Duration::from_secs(100) {
            let _ = child.kill();
            let _ = child.wait();
            break Ok(Some(("hang: the case did not end within 100 s".to_string(), Value::Null)));
        }
        std::thread::sleep(Duration::from_millis(10));
    };
    let _ = fs::remove_dir_all(&dir);
    r
}

pub fn main(prop: &str, level: Level, build: fn(&mut Check)) {
    let args: Vec<String> = std::env::args().collect();
    let mut tier = args
        .get(1)
        .cloned()
        .or_else(|| std::env::var("VERIF_TIER").ok())
        .unwrap_or_else(|| "quick".to_string());
    let mut replay: Option<Value> = None;
    if tier == "replay" {
        let s = fs::read_to_string(args.get(2).expect("replay FILE")).expect("replay file");
        let v: Value = serde_json::from_str(&s).expect("replay file");
        tier = v["tier"].as_str().unwrap_or("quick").to_string();
        replay = Some(v);
    }
    let mut check = Check {
        scenarios: Vec::new(),
        assumptions: Vec::new(),
        rule: String::new(),
        thorough: tier == "thorough",
    };
    build(&mut check);
    if let Some(d) = std::env::var_os("MC_WORKER") {
        worker(prop, &check, Path::new(&d));
    }
    if let Some(v) = replay {
        std::process::exit(do_replay(prop, &check, &v));
    }
    std::process::exit(parent(prop, level, &check, &tier));
}

fn do_replay(prop: &str, check: &Check, v: &Value) -> i32 {
    let name = v["scenario"].as_str().unwrap_or("");
    let idx = match check.scenarios.iter().position(|s| s.name == name) {
        Some(i) => i,
        None => {
            eprintln!("no scenario {}", name);
            return 2;
        }
    };
    let choices: Vec<u32> = v["choices"]
        .as_array()
        .map(|a| a.iter().map(|x| x.as_u64().unwrap_or(0) as u32).collect())
        .unwrap_or_default();
    match isolate(prop, v["tier"].as_str().unwrap_or("quick"), idx, &choices) {
        Ok(Some((m, t))) => {
            if let Some(a) = t.as_array() {
                for l in a {
                    println!("  {}", l.as_str().unwrap_or(""));
                }
            }
            println!("{}", m);
            println!("VIOLATION property={} replay={}", prop, std::env::args().nth(2).unwrap());
            1
        }
        Ok(None) => {
            println!("the case passes");
            0
        }
        Err(e) => {
            eprintln!("engine error: {}", e);
            2
        }
    }
}

fn parent(prop: &str, level: Level, check: &Check, tier: &str) -> i32 {
    let t0 = Instant::now();
    let dir = make_dir(prop, "w");
    let mut code = 2;
    let mut attempt = 0;
    let mut result = Value::Null;
    let mut violation: Option<(usize, Vec<u32>, String, Value)> = None;
    loop {
        attempt += 1;
        let (stall, threads) = if attempt == 1 { (40, None) } else { (120, Some(2)) };
        let fl = match spawn_worker(&dir, tier, stall, threads) {
            End::Done(v) => {
                result = v;
                break;
            }
            End::Died(st, fl) => {
                eprintln!("worker ended: {} with {} cases in flight", st, fl.len());
                fl
            }
            End::Stalled(fl) => {
                eprintln!("worker made no progress");
                fl
            }
        };
        for (idx, p) in fl {
            match isolate(prop, tier, idx, &p) {
                Ok(Some((m, t))) => {
                    violation = Some((idx, p, m, t));
                    break;
                }
                Ok(None) => {}
                Err(e) => eprintln!("engine error in isolated case: {}", e),
            }
        }
        if violation.is_some() || attempt == 2 {
            break;
        }
    }
    let _ = fs::remove_dir_all(&dir);
    let mut engine_error = result.is_null() && violation.is_none();
    let v = &result["violation"];
    if !v.is_null() {
        let choices: Vec<u32> = v["choices"]
            .as_array()
            .map(|a| a.iter().map(|x| x.as_u64().unwrap_or(0) as u32).collect())
            .unwrap_or_default();
        let m = v["message"].as_str().unwrap_or("").to_string();
        if v["engine"].as_bool() == Some(true) {
            engine_error = true;
            eprintln!(
                "engine error in scenario {} choices {:?}: {}",
                check.scenarios[v["scenario"].as_u64().unwrap_or(0) as usize].name, choices, m
            );
        } else {
            violation = Some((
                v["scenario"].as_u64().unwrap_or(0) as usize,
                choices,
                m,
                v["trace"].clone(),
            ));
        }
    }
    let vd = verif_dir();
    let ev = vd.join("evidence");
    let _ = fs::create_dir_all(&ev);
    if let Some((idx, choices, m, trace)) = &violation {
        let rd = ev.join("replay");
        let _ = fs::create_dir_all(&rd);
        let p = rd.join(format!("{}.json", prop));
        let _ = fs::write(
            &p,
            serde_json::to_string_pretty(&json!({
                "property": prop, "scenario": check.scenarios[*idx].name, "tier": tier,
                "choices": choices, "message": m, "trace": trace,
            }))
            .unwrap_or_default(),
        );
        println!("scenario {}: {}", check.scenarios[*idx].name, m);
        if let Some(a) = trace.as_array() {
            for l in a.iter().take(60) {
                println!("    {}", l.as_str().unwrap_or(""));
            }
        }
        println!("VIOLATION property={} replay={}", prop, p.display());
        code = 1;
    } else if !engine_error {
        code = 0;
    }
    if let Some(k) = result["known"].as_array() {
        for l in k {
            println!("KNOWN-FINDING: property={} {}", prop, l.as_str().unwrap_or(""));
        }
    }
    let scs = result["scenarios"].as_array().cloned().unwrap_or_default();
    let sum = |k: &str| -> u64 { scs.iter().map(|s| s[k].as_u64().unwrap_or(0)).sum() };
    let complete = scs.len() == check.scenarios.len()
        && scs.iter().all(|s| s["completed"].as_bool() == Some(true));
    let mut cov = json!({
        "exhaustive": complete,
        "scenarios": scs,
        "samples": result["samples"],
        "distinct_outcomes": sum("distinct_outcomes"),
    });
    match level {
        Level::ModelChecking => {
            cov["states"] = json!(sum("states"));
            cov["transitions"] = json!(sum("transitions"));
            cov["traces_validated_against_impl"] = json!(sum("executions"));
        }
        Level::FaultEnumeration => {
            cov["evaluations"] = json!(sum("executions"));
            cov["distinct_nontrivial"] = json!(sum("states"));
            cov["rule"] = json!(check.rule);
        }
    }
    cov["explanation"] = json!(
        "Every decision tree named under scenarios was enumerated completely (unless completed is \
         false there) by running the real code once per execution and comparing it step by step \
         with the reference model. states: distinct model states reached; transitions: steps \
         compared with the model; executions: complete runs of the real code."
    );
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let lv = match level {
        Level::ModelChecking => "model_checking",
        Level::FaultEnumeration => "fault_enumeration",
    };
    let doc = json!({
        "property": prop, "tier": if tier == "thorough" { "thorough" } else { "quick" },
        "seed": seed, "level": lv, "coverage": cov, "assumptions": check.assumptions,
        "wall_s": (t0.elapsed().as_millis() as f64) / 1000.0,
        "violations": if violation.is_some() { 1 } else { 0 },
    });
    let path = ev.join(format!("{}.json", prop));
    if let Err(e) = fs::write(&path, serde_json::to_string_pretty(&doc).unwrap_or_default()) {
        eprintln!("cannot write {}: {}", path.display(), e);
        code = if code == 1 { 1 } else { 2 };
    }
    if code == 0 {
        println!(
            "OK property={} executions={} states={} transitions={} {:.1}s{}",
            prop, sum("executions"), sum("states"), sum("transitions"),
            t0.elapsed().as_secs_f64(), if complete { "" } else { " (capped)" }
        );
    }
    code
}
