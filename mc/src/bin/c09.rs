//! C09: the previewing buffered reader is transparent.
use std::cell::RefCell;
use std::io::{self, BufRead, ErrorKind, Read};
use std::rc::Rc;

use chopper::util::reader::{ChopperBufPreviewer, ChopperBufReader};
use mc::*;

/// What the underlying reader does at each call: at most this many bytes, or an error.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Ans {
    Give(usize),
    Fail(ErrorKind),
}

/// Answers of the underlying reader are asked for just before each call by `plan`.
struct Under {
    data: Vec<u8>,
    pos: usize,
    plan: Box<dyn FnMut(usize) -> Ans>,
    log: Rc<RefCell<Vec<Result<usize, ErrorKind>>>>,
}

impl Read for Under {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let call = self.log.borrow().len();
        let a = (self.plan)(call);
        match a {
            Ans::Fail(k) => {
                self.log.borrow_mut().push(Err(k));
                Err(io::Error::new(k, "injected"))
            }
            Ans::Give(m) => {
                let n = m.max(1).min(buf.len()).min(self.data.len() - self.pos);
                buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
                // what lies behind the bytes given is not the caller's to use
                for b in buf[n..].iter_mut() {
                    *b = 0xEE;
                }
                self.pos += n;
                self.log.borrow_mut().push(Ok(n));
                Ok(n)
            }
        }
    }
}

#[derive(Clone, Copy, Debug, Hash, PartialEq)]
enum Op {
    Read(usize),
    Fill,
    Consume(usize), // of what the last peek showed: 0 one byte, 1 half, 2 all
    Line,
}

struct Model {
    data: Vec<u8>,
    pos: usize,
    peeked: usize,
}

type Log = Rc<RefCell<Vec<Result<usize, ErrorKind>>>>;

fn fault_in(log: &Log, from: usize, kind: ErrorKind) -> bool {
    log.borrow()[from..].iter().any(|x| *x == Err(kind))
}

/// Do one operation on the real reader and compare it with the model.
fn apply<T: BufRead>(r: &mut T, m: &mut Model, op: Op, log: &Log) -> Result<String, String> {
    let calls = log.borrow().len();
    let left = m.data.len() - m.pos;
    let err = |e: io::Error, m: &mut Model| -> Result<String, String> {
        if e.kind() == ErrorKind::Interrupted {
            return Err(format!("{:?}: an interrupted read was not retried", op));
        }
        if !fault_in(log, calls, e.kind()) {
            return Err(format!("{:?}: error {:?} the underlying reader did not give", op, e));
        }
        m.peeked = 0;
        Ok(format!("error {:?}", e.kind()))
    };
    match op {
        Op::Read(n) => {
            let mut buf = vec![0xAA; n];
            match r.read(&mut buf) {
                Err(e) => err(e, m),
                Ok(k) => {
                    ensure!(k <= n, "{:?} returned {}", op, k);
                    ensure!(
                        k <= left && buf[..k] == m.data[m.pos..m.pos + k],
                        "{:?} at {} of {}: returned {} other bytes than the underlying ones",
                        op,
                        m.pos,
                        m.data.len(),
                        k
                    );
                    ensure!(
                        k > 0 || n == 0 || left == 0,
                        "{:?} at {} of {}: end of input reported",
                        op,
                        m.pos,
                        m.data.len()
                    );
                    ensure!(
                        !lost_fault(log, calls),
                        "{:?}: an error of the underlying reader was not passed on",
                        op
                    );
                    m.pos += k;
                    m.peeked = 0;
                    Ok(format!("{}", k))
                }
            }
        }
        Op::Fill => match r.fill_buf() {
            Err(e) => err(e, m),
            Ok(b) => {
                ensure!(
                    b.len() <= left && *b == m.data[m.pos..m.pos + b.len()],
                    "peek at {} of {}: shows other bytes than the underlying ones",
                    m.pos,
                    m.data.len()
                );
                ensure!(
                    !b.is_empty() || left == 0,
                    "peek at {} of {}: end of input reported",
                    m.pos,
                    m.data.len()
                );
                ensure!(!lost_fault(log, calls), "peek: an error was not passed on");
                m.peeked = b.len();
                Ok(format!("peek {}", b.len()))
            }
        },
        Op::Consume(k) => {
            let k = match k {
                0 => m.peeked.min(1),
                1 => m.peeked / 2,
                _ => m.peeked,
            };
            r.consume(k);
            m.pos += k;
            m.peeked -= k;
            Ok(format!("consume {}", k))
        }
        Op::Line => {
            let mut v = Vec::new();
            match r.read_until(b'\n', &mut v) {
                Err(e) => {
                    // what was read before the error has been handed over
                    ensure!(
                        v.len() <= left && v[..] == m.data[m.pos..m.pos + v.len()],
                        "line at {}: other bytes than the underlying ones",
                        m.pos
                    );
                    m.pos += v.len();
                    err(e, m)
                }
                Ok(_) => {
                    let n = m.data[m.pos..].iter().position(|b| *b == b'\n').map_or(left, |i| i + 1);
                    ensure!(
                        v[..] == m.data[m.pos..m.pos + n],
                        "line at {} of {}: {} bytes read, expected {}",
                        m.pos,
                        m.data.len(),
                        v.len(),
                        n
                    );
                    ensure!(!lost_fault(log, calls), "line: an error was not passed on");
                    m.pos += n;
                    m.peeked = 0;
                    Ok(format!("line {}", n))
                }
            }
        }
    }
}

/// The last call of the underlying reader failed (other than for an interruption), yet the
/// operation reported success.
fn lost_fault(log: &Log, from: usize) -> bool {
    log.borrow()[from..]
        .iter()
        .any(|x| matches!(x, Err(k) if *k != ErrorKind::Interrupted))
}

/// Read the rest; errors that were injected are tolerated (the next call goes on).
fn drain<T: BufRead>(r: &mut T, m: &mut Model, log: &Log) -> Res {
    let mut n = 0;
    loop {
        let calls = log.borrow().len();
        let mut buf = vec![0u8; 3000];
        match r.read(&mut buf) {
            Ok(0) => break,
            Ok(k) => {
                let left = m.data.len() - m.pos;
                ensure!(
                    k <= left && buf[..k] == m.data[m.pos..m.pos + k],
                    "reading on at {} of {}: other bytes than the underlying ones",
                    m.pos,
                    m.data.len()
                );
                m.pos += k;
            }
            Err(e) => {
                ensure!(fault_in(log, calls, e.kind()), "reading on: error {:?}", e);
            }
        }
        n += 1;
        ensure!(n < 1_000_000, "reading on does not end");
    }
    ensure!(
        m.pos == m.data.len(),
        "end of input reported at {} of {}",
        m.pos,
        m.data.len()
    );
    Ok(())
}

/// Lines of a preview buffer, as the property states them.
fn lines(buf: &[u8], whole: bool) -> Option<Vec<String>> {
    let mut out = Vec::new();
    let mut rest = buf;
    while !rest.is_empty() {
        let (l, next) = match rest.iter().position(|b| *b == b'\n') {
            Some(i) => (&rest[..i], &rest[i + 1..]),
            None if whole => (rest, &rest[rest.len()..]),
            None => break,
        };
        let l = if l.last() == Some(&b'\r') { &l[..l.len() - 1] } else { l };
        out.push(std::str::from_utf8(l).ok()?.to_string());
        rest = next;
    }
    Some(out)
}

fn content(n: usize, line: usize) -> Vec<u8> {
    (0..n)
        .map(|i| {
            if line > 0 && i % line == line - 1 {
                b'\n'
            } else {
                b'a' + (i % 23) as u8
            }
        })
        .collect()
}

fn capacity() -> usize {
    let n = std::panic::catch_unwind(|| {
        let b: Box<dyn Read> = Box::new(io::Cursor::new(vec![b'x'; 1 << 20]));
        ChopperBufPreviewer::new(b).map_or(0, |p| p.get_buf().len())
    });
    match n {
        Ok(n) if n >= 64 => n,
        _ => 8192,
    }
}

fn preview(ctx: &mut Ctx, data: &[u8], cap: usize, chunk: usize) -> Res {
    let log: Log = Rc::new(RefCell::new(Vec::new()));
    let u = Under {
        data: data.to_vec(),
        pos: 0,
        plan: Box::new(move |_| Ans::Give(chunk)),
        log,
    };
    let p = ChopperBufPreviewer::new(u).map_err(|e| format!("preview failed: {}", e))?;
    let tail = |b: &[u8]| String::from_utf8_lossy(&b[b.len().saturating_sub(12)..]).to_string();
    let what = || format!("{} bytes ending {:?} in pieces of {}", data.len(), tail(data), chunk);
    let n = data.len().min(cap);
    ensure!(
        p.get_buf()[..] == data[..n],
        "{}: preview shows {} bytes, expected the first {}",
        what(),
        p.get_buf().len(),
        n
    );
    let want = lines(&data[..n], data.len() < cap);
    let alt = lines(&data[..n], data.len() <= cap);
    ensure!(
        *p.get_lines() == want || *p.get_lines() == alt,
        "{}: preview lines {:?}, expected {:?}",
        what(),
        short(p.get_lines()),
        short(&want)
    );
    ctx.step(&(data.len(), hash_of(data), chunk, want.as_ref().map(|l| l.len())));
    ctx.outcome(p.get_lines());
    let mut r = p.get_reader();
    let mut all = Vec::new();
    r.read_to_end(&mut all).map_err(|e| format!("reading failed: {}", e))?;
    ensure!(all == data, "{}: read back {} other bytes", what(), all.len());
    Ok(())
}

fn short(l: &Option<Vec<String>>) -> String {
    match l {
        None => "none".into(),
        Some(l) => {
            let s: Vec<String> = l
                .iter()
                .rev()
                .take(4)
                .map(|s| s.chars().rev().take(12).collect())
                .collect();
            format!("{} lines, the last (reversed): {:?}", l.len(), s)
        }
    }
}

fn word(ctx: &mut Ctx, alphabet: &[u8], max: usize) -> Vec<u8> {
    let n = ctx.choose(max + 1);
    (0..n).map(|_| *ctx.pick(alphabet)).collect()
}

fn main() {
    mc::main("C09", Level::ModelChecking, |c| {
        let t = c.thorough;
        let cap = capacity();
        c.assume("callers consume no more than a peek showed, as the reader's interface demands");
        c.scenario(
            "many-interruptions",
            "a preview with its reader, or a reader alone of capacity 1, 8 or 8192, over 0, 1, 5, 8191, 8192, 8193 or 20000 bytes, all at once or 1000 at a \
             time, where 1..=40, 63..=65, 127..=129, 255..=257, 1000 or 70000 interruptions come before the first, before the second or (up to 257) before every \
             underlying read; read by reads of 3, 8192 or 9000 bytes, by peeks or by lines: no interruption comes through and no byte is lost",
            0,
            move |ctx| {
                let mut counts: Vec<usize> = (1..=40).collect();
                counts.extend([63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 70000]);
                let k = *ctx.pick(&counts);
                let n = *ctx.pick(&[0usize, 1, 5, 8191, 8192, 8193, 20000]);
                let chunk = *ctx.pick(&[1000usize, 1 << 20]);
                let place = ctx.choose(if k <= 257 { 3 } else { 2 });
                let kind = ctx.choose(4);
                let by = ctx.choose(5);
                let data = content(n, 7);
                let (mut left, mut good) = (if place == 1 { 0 } else { k }, 0usize);
                let log: Log = Rc::new(RefCell::new(Vec::new()));
                let u = Under {
                    data: data.clone(),
                    pos: 0,
                    plan: Box::new(move |_| {
                        if left > 0 {
                            left -= 1;
                            return Ans::Fail(ErrorKind::Interrupted);
                        }
                        good += 1;
                        if place == 2 || (place == 1 && good == 1) {
                            left = k;
                        }
                        Ans::Give(chunk)
                    }),
                    log,
                };
                ctx.step(&(k, n, chunk, place, kind, by));
                let mut r: Box<dyn BufRead> = if kind == 0 {
                    let p = ChopperBufPreviewer::new(u).map_err(|e| format!("preview failed: {}", e))?;
                    ensure!(p.get_buf()[..] == data[..n.min(p.get_buf().len())], "preview shows other bytes");
                    Box::new(p.get_reader())
                } else {
                    Box::new(ChopperBufReader::with_capacity([1, 8, 8192][kind - 1], u))
                };
                let mut got = Vec::new();
                loop {
                    let x = match by {
                        0 | 1 | 2 => {
                            let mut b = vec![0; [3, 8192, 9000][by]];
                            r.read(&mut b).map(|m| {
                                got.extend_from_slice(&b[..m]);
                                m
                            })
                        }
                        3 => r.fill_buf().map(|b| {
                            got.extend_from_slice(b);
                            b.len()
                        }),
                        _ => r.read_until(b'\n', &mut got),
                    };
                    let m = x.map_err(|e| format!("{} interruptions, {} bytes, reader {}, read by {}: {:?} came through", k, n, kind, by, e.kind()))?;
                    if by == 3 {
                        r.consume(m);
                    }
                    if m == 0 {
                        break;
                    }
                    ensure!(got.len() <= n, "more bytes than there are");
                }
                ctx.outcome(&got.len());
                ensure!(got == data, "{} interruptions, {} bytes, reader {}, read by {}: {} other bytes", k, n, kind, by, got.len());
                Ok(())
            },
        );
        // (operations, faults, longest input)
        let sizes: &[(usize, usize, usize)] = if t { &[(5, 1, 8), (4, 2, 7)] } else { &[(4, 1, 7)] };
        for &(depth, faults, len) in sizes {
            c.scenario(
                &format!("operations-{}-{}", depth, faults),
                &format!(
                    "capacities 1..=4 x inputs of 0..={} bytes with a line end after every 3rd x the underlying \
                     reader gives at most 1, 2 or any number of bytes x every sequence of {} operations of {{read 0, \
                     1, 2, capacity, capacity+1 bytes; peek; consume 1, half, all of the peek; read a line}}, then \
                     read to the end; up to {} of the underlying reads are interrupted, fail, or give one byte only",
                    len, depth, faults
                ),
                faults,
                move |ctx| {
                    let cap = 1 + ctx.choose(4);
                    let n = ctx.choose(len + 1);
                    let chunk = *ctx.pick(&[1usize, 2, 100]);
                    let mut ops = vec![
                        Op::Read(0),
                        Op::Read(1),
                        Op::Read(2),
                        Op::Read(cap),
                        Op::Read(cap + 1),
                        Op::Fill,
                        Op::Consume(0),
                        Op::Consume(1),
                        Op::Consume(2),
                        Op::Line,
                    ];
                    let mut seen = Vec::new();
                    ops.retain(|o| {
                        let new = !seen.contains(o);
                        seen.push(*o);
                        new
                    });
                    // the answers of the underlying reader are decided when it is called, so that the
                    // exploration branches on calls that are really made
                    let cx: *mut Ctx = ctx;
                    let plan = move |_| {
                        let ctx = unsafe { &mut *cx };
                        match ctx.deviate(4) {
                            0 => Ans::Give(chunk),
                            1 => Ans::Fail(ErrorKind::Interrupted),
                            2 => Ans::Fail(ErrorKind::Other),
                            _ => Ans::Give(1),
                        }
                    };
                    let log: Log = Rc::new(RefCell::new(Vec::new()));
                    let data = content(n, 3);
                    let mut r = ChopperBufReader::with_capacity(
                        cap,
                        Under {
                            data: data.clone(),
                            pos: 0,
                            plan: Box::new(plan),
                            log: log.clone(),
                        },
                    );
                    let mut m = Model {
                        data,
                        pos: 0,
                        peeked: 0,
                    };
                    let mut done = Vec::new();
                    for _ in 0..depth {
                        let op = *ctx.pick(&ops);
                        if matches!(op, Op::Consume(_)) && m.peeked == 0 {
                            break; // same as a shorter sequence
                        }
                        let x = apply(&mut r, &mut m, op, &log);
                        done.push(op);
                        ctx.step(&(cap, n, chunk, m.pos, m.peeked, log.borrow().len()));
                        ctx.note(|| format!("{:?}: {:?}", op, x));
                        x.map_err(|e| {
                            format!(
                                "capacity {}, {} bytes in pieces of {}, {:?}, underlying reads {:?}: {}",
                                cap,
                                n,
                                chunk,
                                done,
                                log.borrow(),
                                e
                            )
                        })?;
                    }
                    drain(&mut r, &mut m, &log).map_err(|e| {
                        format!(
                            "capacity {}, {} bytes in pieces of {}, {:?}, underlying reads {:?}: {}",
                            cap,
                            n,
                            chunk,
                            done,
                            log.borrow(),
                            e
                        )
                    })?;
                    ctx.outcome(&(
                        cap,
                        n,
                        log.borrow().iter().map(|x| format!("{:?}", x)).collect::<Vec<_>>(),
                    ));
                    Ok(())
                },
            );
        }
        c.scenario(
            "after-preview",
            "an input of 0, 1, capacity-1..capacity+1, twice capacity-1..+1 or three times capacity bytes in pieces \
             of 1, 1000, capacity-1..capacity+1 or any size; every sequence of 2 (thorough 3) operations of {read 1, \
             100, capacity-1, capacity, capacity+1, twice capacity bytes; peek; consume; line} on the handed-over \
             reader, then to the end; one read of the underlying reader interrupted or failing: any of the first 3, \
             the one that meets the capacity or the end, and those after it",
            0,
            move |ctx| {
                let n = *ctx.pick(&[0, 1, cap - 1, cap, cap + 1, 2 * cap - 1, 2 * cap, 2 * cap + 1, 3 * cap]);
                let chunk = *ctx.pick(&[1 << 20, 1, 1000, cap - 1, cap, cap + 1]);
                let full = cap.min(n) / chunk;
                let at = *ctx.pick(&[
                    usize::MAX,
                    0,
                    1,
                    2,
                    full.max(3) - 1,
                    full.max(3),
                    full.max(3) + 1,
                    full.max(3) + 2,
                ]);
                let kind = if at == usize::MAX || ctx.flag() {
                    ErrorKind::Other
                } else {
                    ErrorKind::Interrupted
                };
                let log: Log = Rc::new(RefCell::new(Vec::new()));
                let data = content(n, 61);
                let plan = move |call| if call == at { Ans::Fail(kind) } else { Ans::Give(chunk) };
                let u = Under {
                    data: data.clone(),
                    pos: 0,
                    plan: Box::new(plan),
                    log: log.clone(),
                };
                let what = || format!("{} bytes in pieces of {}, read {} gives {:?}", n, chunk, at, kind);
                ctx.note(what);
                let p = match ChopperBufPreviewer::new(u) {
                    Ok(p) => p,
                    Err(e) => {
                        ensure!(
                            kind == ErrorKind::Other && fault_in(&log, 0, kind),
                            "{}: preview failed with {:?}",
                            what(),
                            e
                        );
                        ctx.step(&("failed", n, chunk, at));
                        return Ok(());
                    }
                };
                ensure!(!lost_fault(&log, 0), "{}: an error was not passed on", what());
                let k = n.min(cap);
                ensure!(
                    p.get_buf()[..] == data[..k],
                    "{}: preview shows {} bytes, expected the first {}",
                    what(),
                    p.get_buf().len(),
                    k
                );
                let mut r = p.get_reader();
                let mut m = Model {
                    data,
                    pos: 0,
                    peeked: 0,
                };
                let ops = [
                    Op::Read(1),
                    Op::Read(100),
                    Op::Read(cap - 1),
                    Op::Read(cap),
                    Op::Read(cap + 1),
                    Op::Read(2 * cap),
                    Op::Fill,
                    Op::Consume(0),
                    Op::Consume(1),
                    Op::Consume(2),
                    Op::Line,
                ];
                let mut done = Vec::new();
                for _ in 0..if t { 3 } else { 2 } {
                    let op = *ctx.pick(&ops);
                    if matches!(op, Op::Consume(_)) && m.peeked == 0 {
                        break;
                    }
                    done.push(op);
                    apply(&mut r, &mut m, op, &log).map_err(|e| format!("{}, {:?}: {}", what(), done, e))?;
                    ctx.step(&(n, chunk, at, m.pos, m.peeked));
                }
                drain(&mut r, &mut m, &log).map_err(|e| format!("{}, {:?}: {}", what(), done, e))
            },
        );
        c.scenario(
            "byte-values",
            "each of the 256 byte values at the start, in the middle, twice in a row and at the end of an input (a text of 5 bytes, or 8190 or 9000 more of them \
             in front), in one piece or byte by byte, previewed or not, read by reads of 1, 2, 3, 7 or 9000 bytes, by peeks consumed one byte or \
             whole, or by lines; then once more, which is the end of input",
            0,
            move |ctx| {
                let v = ctx.choose(256) as u8;
                let before = *ctx.pick(&[0usize, 8190, 9000]);
                let chunk = *ctx.pick(&[1usize, 1 << 20]);
                let previewed = ctx.flag();
                let by = ctx.choose(8);
                let mut data = vec![b'a'; before];
                data.extend([v, b'b', v, v, b'\n', b'c', v]);
                let log: Log = Rc::new(RefCell::new(Vec::new()));
                let u = Under { data: data.clone(), pos: 0, plan: Box::new(move |_| Ans::Give(chunk)), log: log.clone() };
                let mut r = if previewed {
                    ChopperBufPreviewer::new(u).map_err(|e| format!("preview failed: {}", e))?.get_reader()
                } else {
                    ChopperBufReader::new(u)
                };
                let mut m = Model { data, pos: 0, peeked: 0 };
                ctx.step(&(v, before, chunk, previewed, by));
                if before > 0 {
                    // up to just before the value, in one piece
                    let mut b = vec![0; before - 3];
                    r.read_exact(&mut b).map_err(|e| format!("reading the start: {}", e))?;
                    ensure!(b.iter().all(|x| *x == b'a'), "other bytes at the start");
                    m.pos = before - 3;
                }
                let mut n = 0;
                while m.pos < m.data.len() {
                    let ops = match by {
                        0..=4 => vec![Op::Read([1, 2, 3, 7, 9000][by])],
                        5 => vec![Op::Fill, Op::Consume(0)],
                        6 => vec![Op::Fill, Op::Consume(2)],
                        _ => vec![Op::Line],
                    };
                    for op in ops {
                        apply(&mut r, &mut m, op, &log).map_err(|e| format!("byte {:#x}, {} bytes before: {}", v, before, e))?;
                    }
                    n += 1;
                    ensure!(n < 20_000, "reading does not end");
                }
                apply(&mut r, &mut m, Op::Read(4), &log)?;
                apply(&mut r, &mut m, Op::Fill, &log)?;
                ctx.outcome(&n);
                Ok(())
            },
        );
        c.scenario(
            "lines",
            "every input of up to 6 (thorough 8) bytes of {a, CR, LF, the two bytes of a non-ASCII character}: \
             preview bytes, lines and what is read afterwards; in one piece or byte by byte",
            0,
            move |ctx| {
                let chunk = *ctx.pick(&[1usize << 20, 1]);
                let w = word(ctx, b"a\r\n\xc3\xa9", if t { 8 } else { 6 });
                ctx.note(|| format!("{:?}", w));
                preview(ctx, &w, cap, chunk)
            },
        );
        c.scenario(
            "many-lines",
            "inputs of 1..=70, 127..=129, 255..=257, 511..=513, 999..=1001, 1023..=1025, 2047..=2049, 2730, 2731, 4095..=4097, 8191..=8193 and 10000 lines of 0..=3 \
             characters each, ended by LF or CR LF, the last one ended or not",
            0,
            move |ctx| {
                let around = [
                    127usize, 128, 129, 255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 2730, 2731, 4095, 4096, 4097,
                    8191, 8192, 8193, 10000,
                ];
                let n = match ctx.choose(70 + around.len()) {
                    k if k < 70 => k + 1,
                    k => around[k - 70],
                };
                let k = ctx.choose(4);
                let end = *ctx.pick(&["\n", "\r\n"]);
                let mut s = String::new();
                for i in 0..n {
                    s.extend((0..k).map(|j| (b'a' + ((i * 7 + j) % 26) as u8) as char));
                    s += end;
                }
                if ctx.flag() {
                    s.truncate(s.len() - end.len());
                }
                ctx.note(|| format!("{} lines of {} characters, ended by {:?}, in all {} bytes", n, k, end, s.len()));
                preview(ctx, s.as_bytes(), cap, 1 << 20)
            },
        );
        c.scenario(
            "lines-at-capacity",
            "inputs in which every word of up to 4 (thorough 5) bytes of {a, CR, LF, the bytes of a non-ASCII \
             character} follows capacity-5..capacity+1 bytes of text (in lines of 61, or one line), then nothing, \
             a line end, or more text",
            0,
            move |ctx| {
                let n = cap - 5 + ctx.choose(7);
                let line = *ctx.pick(&[61, 0]);
                let mut d = content(n, line);
                let w = word(ctx, b"a\r\n\xc3\xa9", if t { 5 } else { 4 });
                d.extend(&w);
                d.extend(*ctx.pick(&[&b""[..], b"\n", b"bcdefg\nh"]));
                ctx.note(|| format!("{} bytes, then {:?}, in all {}", n, w, d.len()));
                preview(ctx, &d, cap, 1 << 20)
            },
        );
        c.scenario(
            "invalid-utf8",
            "one of 6 invalid byte sequences (or a valid 2, 3 or 4 byte one) at the start, middle or end of any \
             of 3 lines or across the capacity, the last line ended or not",
            0,
            move |ctx| {
                let bad: [&[u8]; 9] = [
                    b"\xff",
                    b"\xc3",
                    b"\xe6\xbc",
                    b"\x80",
                    b"\xed\xa0\x80",
                    b"\xc0\x80",
                    b"\xc3\xa9",
                    b"\xe6\xbc\xa2",
                    b"\xf0\x9f\xa6\x80",
                ];
                let b = *ctx.pick(&bad);
                let place = ctx.choose(9);
                let end = ctx.flag();
                let big = ctx.choose(8);
                let mut d = Vec::new();
                for l in 0..3 {
                    let mut s = b"ab".to_vec();
                    if place / 3 == l {
                        let at = place % 3;
                        s.splice(at..at, b.iter().cloned());
                    }
                    d.extend(s);
                    if l < 2 || end {
                        d.push(b'\n');
                    }
                }
                if big > 0 {
                    // a long input, the sequence somewhere around the capacity
                    let mut x = content(cap - 8 + big, if place % 2 == 0 { 0 } else { 61 });
                    x.extend(d);
                    d = x;
                }
                ctx.note(|| format!("{:?}", &d[d.len().saturating_sub(20)..]));
                preview(ctx, &d, cap, 1 << 20)
            },
        );
    });
}
