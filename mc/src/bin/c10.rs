//! C10: results do not depend on how the input arrives in pieces.
use std::io::ErrorKind;

use chopper::chopper::chopper::Source;
use chopper::cli::util::YesNoAuto;
use chopper::decompress::zip;
use chopper::error::{CliResult, Error};
use chopper::input::input_factory::InputFactory;
use mc::kit::*;
use mc::pack::*;
use mc::*;

#[path = "../sys.rs"]
mod sys;

/// An input: plain or packed CSV or DC.
struct Case {
    name: String,
    bytes: Vec<u8>,
    kind: &'static str,
    suffix: &'static str,
    zip: bool,
    whole: std::sync::OnceLock<Result<Read, String>>,
    line: std::sync::OnceLock<(Option<i32>, Vec<u8>, String)>,
}

/// CSV with line ends of both kinds, quoted cells over several lines, characters of several bytes,
/// rows that lack cells and no line end at its end.
fn odd_csv(size: usize) -> Vec<u8> {
    let mut s = "\"timeSeconds\",\"a,b\", w\u{f6}rter \r\n".to_string();
    let mut i = 0u64;
    while s.len() < size {
        let t = 1_546_300_800 + i;
        s += &match i % 5 {
            0 => format!("{},\"two\r\nlines, {}\",\u{6f22}\u{1f980}\r\n", t, i),
            1 => format!("{}\n", t),
            2 => format!("\"{}\",\"say \"\"{}\"\"\",\"\"\r\n", t, i),
            3 => format!(" {} , x ,\r\n\n", t),
            _ => format!("{},,{}\n", t, "z".repeat((i % 50) as usize)),
        };
        i += 1;
    }
    s += "1999999999,last,\"q\"";
    s.into_bytes()
}

/// DC with a user header and 19 columns of every supported type, names of characters of 1 to 4 bytes (long
/// ones in a large file), nulls in all three bytes of null bits, strings of several lengths.
fn wide_dc(size: usize) -> Vec<u8> {
    use chopper::chopper::types::FieldType::*;
    let types = [Byte, Char, Double, Float, Int, Long, Short, String, String];
    let names: Vec<std::string::String> = (0..19)
        .map(|i| {
            let name = format!("{}{}", ["c", "é", "漢", "😀"][i % 4], i);
            if i % 5 == 3 { name.repeat(1 + size / 300) } else { name }
        })
        .collect();
    let cols: Vec<_> = names.iter().enumerate().map(|(i, n)| (n.as_str(), types[i % 9])).collect();
    let head = H::new(&cols);
    let n = (size / 60).max(2) as u64;
    let rows: Vec<R> = (0..n)
        .map(|i| {
            let vs = (0..19u64)
                .map(|j| {
                    let k = i * 19 + j;
                    if k.wrapping_mul(0x9e3779b97f4a7c15) >> 62 == 0 {
                        return V::N;
                    }
                    match types[j as usize % 9] {
                        Byte => V::Byte(k as u8),
                        Char => V::Char(k as u16),
                        Double => V::D((k as f64).to_bits()),
                        Float => V::F((k as f32).to_bits()),
                        Int => V::I(-(k as i32)),
                        Long => V::L(k as i64 - 7),
                        Short => V::Sh(k as i16),
                        _ => V::S("\u{e9}".repeat((k % 5) as usize)),
                    }
                })
                .collect();
            (i + (1 << 40), vs)
        })
        .collect();
    let mut b = dc_bytes(&head, &rows);
    // the user header comes after magic number and version; it looks like data
    let user: Vec<u8> = b[14..].iter().copied().cycle().take(size / 4).collect();
    assert!(b[10..14] == [0, 0, 0, 0], "ENGINE: place of the user header");
    b.splice(10..14, (user.len() as u32).to_be_bytes().into_iter().chain(user));
    b
}

fn cases(size: usize) -> std::sync::Arc<Vec<Case>> {
    let mut r = Vec::new();
    for (what, d, kind) in [
        ("csv", sample_csv(size).0, "csv"),
        ("dc", sample_dc(size / 25).0, "dc"),
        ("odd csv", odd_csv(size), "csv"),
        ("wide dc", wide_dc(size), "dc"),
    ] {
        r.push(Case { name: what.to_string(), bytes: d.clone(), kind, suffix: "", zip: false, whole: Default::default(), line: Default::default() });
        for p in packers() {
            r.push(Case {
                name: format!("{} {}", what, p.name),
                bytes: (p.pack)(&d),
                kind,
                suffix: p.suffix,
                zip: false,
                whole: Default::default(),
                line: Default::default(),
            });
        }
        for m in [0, 8, 12] {
            let mut e = Member::new(&format!("in.{}", kind), &d, m);
            e.extra_central = vec![9, 9, 2, 0, 1, 1];
            let mut z = Zip::of(e);
            z.comment = b"some comment".to_vec();
            r.push(Case { name: format!("{} zip {}", what, m), bytes: z.bytes(), kind, suffix: "", zip: true, whole: Default::default(), line: Default::default() });
        }
    }
    std::sync::Arc::new(r)
}

fn open(c: &Case, plan: Box<dyn FnMut(usize, usize) -> Result<usize, ErrorKind>>) -> CliResult<Box<dyn Source>> {
    let cfg = plain_cfg(YesNoAuto::Yes);
    let r = Pieces { data: c.bytes.clone(), pos: 0, plan };
    if c.zip {
        let (inner, name) = zip::new_reader_for_single_file_zip_archive(r).map_err(Error::from)?;
        open_stream(inner, Some(&name), None, cfg)
    } else {
        let f = format!(".{}{}", c.kind, c.suffix);
        open_stream(Box::new(r), None, Some(&f), cfg)
    }
}

fn whole(c: &Case) -> Result<Read, String> {
    open_and_read(open(c, Box::new(|_, n| Ok(n))))
}

fn compare(ctx: &mut Ctx, c: &Case, got: Result<Read, String>, how: &dyn Fn() -> String) -> Res {
    let want = c.whole.get_or_init(|| whole(c));
    ctx.outcome(&got);
    ctx.note(|| format!("{}, {}: {}", c.name, how(), brief(&got)));
    ensure!(want.as_ref().map_or(false, |w| w.err.is_none()), "{} in one piece: {}", c.name, brief(want));
    ensure!(got == *want, "{} {}: {}; in one piece: {}", c.name, how(), brief(&got), brief(want));
    Ok(())
}

/// Wait until what was written to a pipe has been read (or nobody will read it: the writer sees that).
fn drain(fd: i32) {
    let start = std::time::Instant::now();
    let mut left: libc::c_int = 1;
    let mut spins = 0;
    loop {
        let mut p = libc::pollfd { fd, events: 0, revents: 0 };
        unsafe {
            libc::ioctl(fd, libc::FIONREAD, &mut left);
            libc::poll(&mut p, 1, 0);
        }
        if left == 0 || p.revents & libc::POLLERR != 0 || start.elapsed().as_secs() > 20 {
            return;
        }
        spins += 1;
        if spins < 100 {
            std::thread::yield_now();
        } else {
            std::thread::sleep(std::time::Duration::from_micros(50));
        }
    }
}

/// Read a named pipe to which the pieces are written, each when the one before has been read.
fn over_fifo(ctx: &Ctx, name: &str, pieces: Vec<&[u8]>) -> Result<Read, String> {
    use std::io::Write;
    use std::os::fd::AsRawFd;
    use std::os::unix::fs::OpenOptionsExt;
    let path = ctx.fresh_dir().join(name);
    let c = std::ffi::CString::new(path.to_str().unwrap()).unwrap();
    assert!(unsafe { libc::mkfifo(c.as_ptr(), 0o600) } == 0, "ENGINE: mkfifo");
    let got = std::thread::scope(|s| {
        let w = s.spawn(|| {
            let Ok(mut f) = std::fs::OpenOptions::new().write(true).open(&path) else { return };
            for p in pieces {
                if f.write_all(p).is_err() {
                    return;
                }
                drain(f.as_raw_fd());
            }
        });
        let got = open_and_read((|| {
            InputFactory::new(plain_cfg(YesNoAuto::Yes), None, None)?.create_source_from_path(path.to_str().unwrap())
        })());
        // lets a writer go that nobody opened the pipe for
        while !w.is_finished() {
            let _ = std::fs::OpenOptions::new().read(true).custom_flags(libc::O_NONBLOCK).open(&path);
            std::thread::yield_now();
        }
        let _ = w.join();
        got
    });
    got
}

fn main() {
    mc::main("C10", Level::FaultEnumeration, |c| {
        let t = c.thorough;
        c.rule = "every point at which the underlying read can return short (each byte position of the input, each \
                  pair of them at the larger tier, each constant piece size) or be interrupted (before each byte \
                  position reached, before every read)"
            .to_string();
        let small = cases(if t { 1500 } else { 400 });
        let tiny = cases(100);
        let big = cases(20_000);
        let huge = if t { cases(100_000) } else { big.clone() };
        let n = small.len();
        let big2 = big.clone();
        c.scenario(
            "one-break",
            "CSV and DC (two of each) of about 400 bytes (thorough 1500), plain, in 34 packed forms and 3 zip methods x a break in \
             the reads at every byte position, with or without an interruption there (once or 3 times)",
            0,
            move |ctx| {
                let c = &small[ctx.choose(n)];
                let at = ctx.choose(c.bytes.len() + 1);
                let ints = *ctx.pick(&[0usize, 1, 3]);
                let mut left = ints;
                let plan = move |pos: usize, want: usize| {
                    if pos == at && left > 0 {
                        left -= 1;
                        return Err(ErrorKind::Interrupted);
                    }
                    Ok(if pos < at { (at - pos).min(want) } else { want })
                };
                ctx.step(&(&c.name, at, ints));
                let got = open_and_read(open(c, Box::new(plan)));
                compare(ctx, c, got, &|| format!("broken at byte {} with {} interruptions", at, ints))
            },
        );
        if t {
            c.scenario(
                "two-breaks",
                "CSV and DC (two of each) of about 100 bytes in all forms x a break at every pair of byte positions",
                0,
                move |ctx| {
                    let c = &tiny[ctx.choose(n)];
                    let a = ctx.choose(c.bytes.len().min(260));
                    let b = a + ctx.choose(c.bytes.len() - a + 1);
                    let plan = move |pos: usize, want: usize| {
                        let mut n = want;
                        for x in [a, b] {
                            if pos < x {
                                n = n.min(x - pos);
                            }
                        }
                        Ok(n)
                    };
                    ctx.step(&(&c.name, a, b));
                    let got = open_and_read(open(c, Box::new(plan)));
                    compare(ctx, c, got, &|| format!("broken at bytes {} and {}", a, b))
                },
            );
        }
        c.scenario(
            "piece-size",
            "CSV and DC (two of each) of about 20 KB (thorough also 100 KB) in all forms x pieces of 1..=20, 100, 1000, 4095..4097, \
             8191..8193 bytes; each read first interrupted or not",
            0,
            move |ctx| {
                let sizes: Vec<usize> =
                    (1..=20).chain([100, 1000, 4095, 4096, 4097, 8191, 8192, 8193]).collect();
                let cs = if t && ctx.flag() { &huge } else { &big };
                let c = &cs[ctx.choose(n)];
                let k = *ctx.pick(&sizes);
                let ints = ctx.flag();
                let mut odd = false;
                let plan = move |_: usize, want: usize| {
                    odd = !odd;
                    if ints && odd {
                        Err(ErrorKind::Interrupted)
                    } else {
                        Ok(k.min(want))
                    }
                };
                ctx.step(&(&c.name, k, ints));
                let got = open_and_read(open(c, Box::new(plan)));
                compare(ctx, c, got, &|| format!("in pieces of {} bytes, interrupted {}", k, ints))
            },
        );
        c.scenario(
            "around-the-preview",
            "CSV and DC (two of each) of about 20 KB in all forms x a break (or an interruption) at each of the 25 byte positions \
             around 8192 and 16384 x what came before in one piece or in pieces of 1000 bytes",
            0,
            move |ctx| {
                let c = &big2[ctx.choose(n)];
                let at = *ctx.pick(&[8192usize, 16384]) + ctx.choose(25) - 12;
                if at > c.bytes.len() {
                    return Ok(());
                }
                let before = *ctx.pick(&[usize::MAX, 1000]);
                let mut left = ctx.choose(2);
                let ints = left;
                let plan = move |pos: usize, want: usize| {
                    if pos == at && left > 0 {
                        left -= 1;
                        return Err(ErrorKind::Interrupted);
                    }
                    Ok(if pos < at { (at - pos).min(want).min(before) } else { want })
                };
                ctx.step(&(&c.name, at, before, ints));
                let got = open_and_read(open(c, Box::new(plan)));
                compare(ctx, c, got, &|| format!("broken at byte {} with {} interruptions, before in {}", at, ints, before))
            },
        );
        let firsts = [10usize, 100, 1000, 4000, 4096, 5000, 8100, 8185, 8191, 8192, 8193, 9000, 20_000];
        let firsts = if t { &firsts[..] } else { &firsts[3..] };
        let lines: Vec<_> = firsts
            .iter()
            .flat_map(|&len| {
                [true, false].iter().flat_map(move |&named| {
                    // a first line of some length: names, or numbers
                    let mut s = if named { "time".to_string() } else { "1546300800".to_string() };
                    while s.len() < len {
                        s += if named { ",name" } else { ",12345" };
                    }
                    s.truncate(len);
                    if s.ends_with(',') {
                        s.replace_range(len - 1.., "7");
                    }
                    let cols = s.matches(',').count();
                    s += "\n";
                    for d in 1..4 {
                        s += &format!("154630080{}{}\n", d, ",77".repeat(cols));
                    }
                    while s.len() < 12_000 {
                        s += &format!("1546300900{}\n", ",5".repeat(cols));
                    }
                    let d = s.into_bytes();
                    let mut v = vec![("plain", "", d.clone())];
                    for (n, x) in [("gzip", ".gz"), ("zstd", ".zst"), ("bzip2", ".bz2"), ("lz4", ".lz4")] {
                        if let Some(p) = packers().iter().find(|p| p.suffix == x) {
                            v.push((n, x, (p.pack)(&d)));
                        }
                    }
                    v.into_iter().map(move |(n, x, b)| Case {
                        name: format!("{} with a first line of {} bytes of {}", n, len, if named { "names" } else { "numbers" }),
                        bytes: b,
                        kind: "csv",
                        suffix: x,
                        zip: false,
                        whole: Default::default(),
                        line: Default::default(),
                    })
                })
            })
            .collect();
        let lines = std::sync::Arc::new(lines);
        let nl = lines.len();
        c.scenario(
            "first-line",
            "CSV whose first line (names or numbers, which to tell is left to the program) has 4000 to 20000 (thorough 10 to 20000) bytes, plain \
             and in 4 packed forms: a break at every 128th (thorough: 16th) byte position, at the 5 around the end of that line, or pieces of \
             1, 7, 100, 1000, 4095, 4096, 8191 bytes",
            0,
            move |ctx| {
                let c = &lines[ctx.choose(nl)];
                let len = c.bytes.len();
                let nl = c.bytes.iter().position(|b| *b == b'\n').unwrap_or(len / 2);
                let ks = [1usize, 7, 100, 1000, 4095, 4096, 8191];
                let by = if t { 16 } else { 128 };
                let i = ctx.choose(ks.len() + 5 + len / by);
                let plan = move |pos: usize, want: usize| {
                    if i < ks.len() {
                        return Ok(ks[i].min(want));
                    }
                    let j = i - ks.len();
                    let at = if j < 5 { (nl + j).saturating_sub(2) } else { (j - 5 + 1) * by };
                    Ok(if pos < at { (at - pos).min(want) } else { want })
                };
                ctx.step(&(&c.name, i));
                let one = |plan: Box<dyn FnMut(usize, usize) -> Result<usize, ErrorKind>>| {
                    let r = Pieces { data: c.bytes.clone(), pos: 0, plan };
                    open_and_read(open_stream(Box::new(r), None, Some(&format!(".csv{}", c.suffix)), plain_cfg(YesNoAuto::Auto)))
                };
                let want = c.whole.get_or_init(|| one(Box::new(|_, n| Ok(n))));
                let got = one(Box::new(plan));
                ctx.outcome(&got);
                ctx.note(|| format!("{}, way {}: {}", c.name, i, brief(&got)));
                // names too long to be recognised are taken for a row, which is an error; then always
                let ok = want.is_ok() || c.name.ends_with("names");
                ensure!(ok && got == *want, "{} way {}: {}; in one piece: {}", c.name, i, brief(&got), brief(want));
                Ok(())
            },
        );
        let vast = cases(if t { 4_000_000 } else { 300_000 });
        c.scenario(
            "large",
            "CSV and DC (two of each) of about 300 KB (thorough 4 MB) in all forms x pieces of 4093, 8191, 65535, 65536, 65537, 100000 bytes, of 4 \
             alternating sequences of sizes, or a break at each 12th part of the length; each read first interrupted or not",
            0,
            move |ctx| {
                let c = &vast[ctx.choose(n)];
                let len = c.bytes.len();
                let i = ctx.choose(10 + 11);
                let ints = ctx.flag();
                let (mut odd, mut k) = (false, 0usize);
                let plan = move |pos: usize, want: usize| {
                    odd = !odd;
                    if ints && odd {
                        return Err(ErrorKind::Interrupted);
                    }
                    k += 1;
                    let n = match i {
                        0..=5 => [4093, 8191, 65535, 65536, 65537, 100000][i],
                        6 => [1, 8192][k % 2],
                        7 => [7, 65536, 3, 100][k % 4],
                        8 => 1 + k * 37 % 8192,
                        9 => [8191, 1, 8193, 1, 1][k % 5],
                        _ => {
                            let at = len / 12 * (i - 9);
                            if pos < at {
                                at - pos
                            } else {
                                want
                            }
                        }
                    };
                    Ok(n.max(1).min(want))
                };
                ctx.step(&(&c.name, i, ints));
                let got = open_and_read(open(c, Box::new(plan)));
                compare(ctx, c, got, &|| format!("in pieces of kind {}, interrupted {}", i, ints))
            },
        );
        let piped = cases(if t { 400 } else { 100 });
        let len_max = if t { usize::MAX } else { 400 };
        c.scenario(
            "named-pipe",
            "CSV and DC (two of each) of about 100 bytes (thorough 400) in all forms but zip, as a named pipe given by path (the name \
             tells the form; or not, for plain, gzip and zstd), written in two pieces broken at each byte position, the second one \
             not before the first has been read",
            0,
            move |ctx| {
                let c = &piped[ctx.choose(n)];
                if c.zip {
                    return Ok(());
                }
                let named = ctx.flag();
                if !named && !["", ".gz", ".zst"].contains(&c.suffix) {
                    return Ok(());
                }
                let len = c.bytes.len();
                let at = ctx.choose(len.min(len_max) + 1);
                let name = if named { format!("in.{}{}", c.kind, c.suffix) } else { "63".to_string() };
                ctx.step(&(&c.name, named, at));
                let got = over_fifo(ctx, &name, vec![&c.bytes[..at], &c.bytes[at..]]);
                compare(ctx, c, got, &|| format!("as pipe {:?} broken at {}", name, at))
            },
        );
        let piped2 = cases(20_000);
        c.scenario(
            "named-pipe-pieces",
            "CSV and DC (two of each) of about 20 KB in all forms but zip, as a named pipe written in pieces of 512, 1000, 4096, 8191, 8192, 8193 or \
             65536 bytes, each one when the one before has been read",
            0,
            move |ctx| {
                let c = &piped2[ctx.choose(n)];
                if c.zip {
                    return Ok(());
                }
                let size = *ctx.pick(&[512usize, 1000, 4096, 8191, 8192, 8193, 65536]);
                ctx.step(&(&c.name, size));
                let got = over_fifo(ctx, &format!("in.{}{}", c.kind, c.suffix), c.bytes.chunks(size).collect());
                compare(ctx, c, got, &|| format!("as pipe in pieces of {}", size))
            },
        );
        let stdin = cases(100);
        let mut one_of_each = Vec::new();
        for (i, c) in stdin.iter().enumerate() {
            let key = (c.name.split(' ').next(), c.kind, c.suffix, c.zip, c.name.starts_with("wide") || c.name.starts_with("odd"));
            if !c.zip && ["", ".gz", ".zst"].contains(&c.suffix) && !one_of_each.iter().any(|x: &(_, usize)| x.0 == key) {
                one_of_each.push((key, i));
            }
        }
        let one_of_each: Vec<usize> = one_of_each.into_iter().map(|x| x.1).collect();
        c.scenario(
            "standard-input",
            "the command line, standard input a pipe: CSV and DC of about 100 bytes, plain, gzip and zstd, written in two pieces broken at \
             each byte position (thorough; else each 5th), the second one not before the first has been read; output as with one piece",
            0,
            move |ctx| {
                let c = &stdin[*ctx.pick(&one_of_each)];
                let at = if t { ctx.choose(c.bytes.len() + 1) } else { 5 * ctx.choose(c.bytes.len() / 5 + 1) };
                let f = format!(".{}{}", c.kind, c.suffix);
                ctx.step(&(&c.name, at));
                let run = |pieces: &[&[u8]]| {
                    use std::io::Write;
                    use std::os::fd::AsRawFd;
                    use std::process::Stdio;
                    let mut ch = chop_command(&["-f", &f, "--csv-in-has-header", "yes", "--csv-in-delimiter", ",", "--epoch"], &[])
                        .stdin(Stdio::piped())
                        .stdout(Stdio::piped())
                        .stderr(Stdio::piped())
                        .spawn()
                        .expect("ENGINE: cannot start chop");
                    let mut pipe = ch.stdin.take().expect("ENGINE: stdin");
                    for p in pieces {
                        if pipe.write_all(p).is_err() {
                            break;
                        }
                        drain(pipe.as_raw_fd());
                    }
                    drop(pipe);
                    let o = ch.wait_with_output().expect("ENGINE: waiting for chop");
                    Out { code: o.status.code(), stdout: o.stdout, stderr: o.stderr }
                };
                let want = c.line.get_or_init(|| {
                    let o = run(&[&c.bytes]);
                    (o.code, o.stdout.clone(), o.text())
                });
                let o = run(&[&c.bytes[..at], &c.bytes[at..]]);
                ctx.outcome(&(&c.name, o.code));
                ctx.note(|| format!("{} broken at {}: {}", c.name, at, o.text()));
                ensure!(want.0 == Some(0), "{} in one piece: {}", c.name, want.2);
                ensure!(o.code == want.0 && o.stdout == want.1, "{} broken at {}: {}; in one piece: {}", c.name, at, o.text(), want.2);
                Ok(())
            },
        );
        let on_disk = cases(if t { 4000 } else { 400 });
        let on_disk2 = cases(20_000);
        c.scenario(
            "file-reads",
            "CSV and DC (two of each) of about 400 (thorough 4000) bytes and 20 KB in all forms, in a file given by path: each call of open or read \
             interrupted by a signal (once), or every read cut to 1..=9, 100, 1000, 4095, 8191 bytes",
            0,
            move |ctx| {
                let i = ctx.choose(2 * n);
                let c = if i < n { &on_disk[i] } else { &on_disk2[i - n] };
                let name = if c.zip { "in.zip".to_string() } else { format!("in.{}{}", c.kind, c.suffix) };
                let path = ctx.fresh_dir().join(name);
                std::fs::write(&path, &c.bytes).expect("ENGINE: cannot write");
                let read = || {
                    open_and_read((|| {
                        InputFactory::new(plain_cfg(YesNoAuto::Yes), None, None)?.create_source_from_path(path.to_str().unwrap())
                    })())
                };
                let (_, calls, _) = sys::with(sys::Fault::None, read);
                let k = ctx.choose(13 + calls);
                let fault = match k {
                    0..=12 => sys::Fault::Short([1, 2, 3, 4, 5, 6, 7, 8, 9, 100, 1000, 4095, 8191][k]),
                    _ => sys::Fault::Once(k - 13, libc::EINTR),
                };
                let (got, _, hit) = sys::with(fault, read);
                if !["read", "open", ""].contains(&hit) {
                    return Ok(());
                }
                ctx.step(&(&c.name, fault));
                compare(ctx, c, got, &|| format!("in a file, {:?} {}", fault, hit))
            },
        );
    });
}
