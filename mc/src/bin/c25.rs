//! C25: library helpers: file comparison, removal of several positions, common type.
use std::rc::Rc;

use chopper::chopper::types::FieldType;
use chopper::util::csv_util::guess_common_type;
use chopper::util::file::are_contents_same;
use chopper::util::remove_multiple::RemoveMultiple;
use mc::*;

const TYPES: [FieldType; 10] = [
    FieldType::Boolean,
    FieldType::Byte,
    FieldType::ByteBuf,
    FieldType::Char,
    FieldType::Double,
    FieldType::Float,
    FieldType::Int,
    FieldType::Long,
    FieldType::Short,
    FieldType::String,
];

fn same(ctx: &mut Ctx, a: &[u8], b: &[u8], what: &dyn Fn() -> String) -> Res {
    let (pa, pb) = (ctx.dir().join("a"), ctx.dir().join("b"));
    std::fs::write(&pa, a).expect("ENGINE: file");
    std::fs::write(&pb, b).expect("ENGINE: file");
    for (x, y) in [(&pa, &pb), (&pb, &pa), (&pa, &pa)] {
        let want = x == y || a == b;
        let got = are_contents_same(x, y);
        ctx.outcome(&(want, a.len(), b.len()));
        ctx.note(|| format!("{}: {:?}", what(), got));
        match got {
            Ok(g) => ensure!(g == want, "{}: said {}, expected {}", what(), g, want),
            Err(e) => return Err(format!("{}: {}", what(), e)),
        }
    }
    Ok(())
}

/// Wait until what was written to a pipe has been read (or nobody will read it: the writer sees that).
fn drain(fd: i32) {
    let start = std::time::Instant::now();
    let mut left: libc::c_int = 1;
    let mut spins = 0;
    loop {
        let mut p = libc::pollfd { fd, events: 0, revents: 0 };
        unsafe {
            libc::ioctl(fd, libc::FIONREAD, &mut left);
            libc::poll(&mut p, 1, 0);
        }
        if left == 0 || p.revents & libc::POLLERR != 0 || start.elapsed().as_secs() > 20 {
            return;
        }
        spins += 1;
        if spins < 100 {
            std::thread::yield_now();
        } else {
            std::thread::sleep(std::time::Duration::from_micros(50));
        }
    }
}

/// Compare two files, each a named pipe (written in pieces, each when the one before has been read) or a plain one.
fn compare_pipes(ctx: &Ctx, f: [(&[u8], Option<Vec<usize>>); 2]) -> std::io::Result<bool> {
    use std::io::Write;
    use std::os::fd::AsRawFd;
    use std::os::unix::fs::OpenOptionsExt;
    let d = ctx.fresh_dir();
    let path = [d.join("a"), d.join("b")];
    for i in 0..2 {
        if f[i].1.is_some() {
            let c = std::ffi::CString::new(path[i].to_str().unwrap()).unwrap();
            assert!(unsafe { libc::mkfifo(c.as_ptr(), 0o600) } == 0, "ENGINE: mkfifo");
        } else {
            std::fs::write(&path[i], f[i].0).expect("ENGINE: file");
        }
    }
    std::thread::scope(|s| {
        let mut writers = Vec::new();
        for i in 0..2 {
            let Some(cuts) = f[i].1.clone() else { continue };
            let (bytes, path) = (f[i].0, &path[i]);
            writers.push(s.spawn(move || {
                let Ok(mut w) = std::fs::OpenOptions::new().write(true).open(path) else { return };
                let mut at = 0;
                for end in cuts.into_iter().chain(Some(bytes.len())) {
                    if w.write_all(&bytes[at..end]).is_err() {
                        return;
                    }
                    at = end;
                    drain(w.as_raw_fd());
                }
            }));
        }
        let got = are_contents_same(&path[0], &path[1]);
        // lets writers go that nobody opened the pipe for
        while writers.iter().any(|w| !w.is_finished()) {
            for i in 0..2 {
                if f[i].1.is_some() {
                    let _ = std::fs::OpenOptions::new().read(true).custom_flags(libc::O_NONBLOCK).open(&path[i]);
                }
            }
            std::thread::yield_now();
        }
        for w in writers {
            let _ = w.join();
        }
        got
    })
}

fn fill(n: usize) -> Vec<u8> {
    (0..n).map(|i| (i * 131 + i / 8192 * 7) as u8).collect()
}

fn main() {
    mc::main("C25", Level::ModelChecking, |c| {
        let t = c.thorough;
        c.assume("the common type of no columns at all is left open; positions to remove are in ascending order, as documented");
        c.scenario("small-files", "every pair of files of up to 5 (thorough 6) bytes of 2, both ways and each with itself", 0, move |ctx| {
            let mut f = || {
                let n = ctx.choose(if t { 7 } else { 6 });
                (0..n).map(|_| *ctx.pick(b"a\0")).collect::<Vec<u8>>()
            };
            let (a, b) = (f(), f());
            ctx.step(&(&a, &b));
            same(ctx, &a, &b, &|| format!("{:?} and {:?}", a, b))
        });
        c.scenario(
            "large-files",
            "sizes of 23 around multiples of 4096 up to 32768 (thorough: and every size 8184..8200): equal, one byte different at every place near a multiple of 4096 and both ends, or one file a prefix of the other",
            0,
            move |ctx| {
                let mut sizes = vec![0, 1, 2, 4095, 4096, 4097, 8191, 8192, 8193, 12288, 16383, 16384, 16385, 20000, 24575, 24576, 24577, 32767, 32768, 32769];
                if t {
                    sizes.extend(8184..8201);
                }
                let n = *ctx.pick(&sizes);
                let a = fill(n);
                match ctx.choose(3) {
                    0 => {
                        let m = *ctx.pick(&sizes);
                        ctx.step(&(n, m));
                        same(ctx, &a, &fill(m), &|| format!("files of {} and {} bytes, one begins with the other", n, m))
                    }
                    1 => {
                        let at: Vec<usize> = (0..n).filter(|i| (i + 2) % 4096 < 4 || *i < 3 || i + 3 > n || (t && i % 61 == 0)).collect();
                        if at.is_empty() {
                            return Ok(());
                        }
                        let i = *ctx.pick(&at);
                        let mut b = a.clone();
                        b[i] ^= *ctx.pick(&[1u8, 0x80]);
                        ctx.step(&(n, i, b[i]));
                        same(ctx, &a, &b, &|| format!("files of {} bytes, byte {} different", n, i))
                    }
                    _ => {
                        // one byte more, zero
                        let mut b = a.clone();
                        b.extend(vec![0; *ctx.pick(&[1usize, 4096, 8192])]);
                        ctx.step(&(n, b.len(), "zeros"));
                        same(ctx, &a, &b, &|| format!("a file of {} bytes and the same with zeros up to {} bytes", n, b.len()))
                    }
                }
            },
        );
        c.scenario(
            "byte-values",
            "every pair of byte values at the end of files of 1 and 4 bytes, in the middle of 4 bytes, and (thorough) at byte 8191 and 8192 of 9000",
            0,
            move |ctx| {
                let (n, at) = *ctx.pick(&[(1usize, 0usize), (4, 3), (4, 1), (9000, 8191), (9000, 8192)][..if t { 5 } else { 3 }]);
                let (x, y0) = (ctx.choose(256) as u8, ctx.choose(8) as u8);
                let put = |v: u8| {
                    let mut b = fill(n);
                    b[at] = v;
                    b
                };
                let p = ctx.dir().join(format!("x{}", x));
                std::fs::write(&p, put(x)).expect("ENGINE: file");
                let r = (0..32u8).find_map(|i| {
                    let y = y0 * 32 + i;
                    let q = ctx.dir().join(format!("y{}_{}_{}", n, at, y));
                    // written by the first to compare with it
                    if std::fs::metadata(&q).map_or(true, |m| m.len() != n as u64) {
                        std::fs::write(&q, put(y)).expect("ENGINE: file");
                    }
                    let got = are_contents_same(&p, &q);
                    match &got {
                        Ok(g) if *g == (x == y) => None,
                        _ => Some(format!("{} bytes, at {} {} and {}: {:?}", n, at, x, y, got.map_err(|e| e.to_string()))),
                    }
                });
                ctx.step(&(n, at, x, y0));
                ctx.outcome(&r);
                ctx.note(|| format!("{} bytes, at {} {} and {}..{}: {:?}", n, at, x, y0 as u32 * 32, y0 as u32 * 32 + 32, r));
                match r {
                    Some(e) => Err(e),
                    None => Ok(()),
                }
            },
        );
        c.scenario("no-file", "one or both of the files missing or a directory: an error", 0, |ctx| {
            let d = ctx.fresh_dir();
            std::fs::write(d.join("f"), b"x").expect("ENGINE: file");
            let names = ["f", "missing", "."];
            let (a, b) = (ctx.choose(3), ctx.choose(3));
            if a == 0 && b == 0 {
                return Ok(());
            }
            ctx.step(&(a, b));
            let got = are_contents_same(d.join(names[a]), d.join(names[b]));
            ctx.outcome(&got.is_err());
            ensure!(got.is_err(), "comparing {} and {}: {:?}", names[a], names[b], got);
            Ok(())
        });
        c.scenario(
            "remove",
            "every set of positions of lists of up to 12 (thorough 16) elements, as numbers and as counted objects, each of which is dropped once",
            0,
            move |ctx| {
                let n = ctx.choose(if t { 17 } else { 13 });
                let gone: Vec<usize> = (0..n).filter(|_| ctx.flag()).collect();
                ctx.step(&(n, &gone));
                let want: Vec<usize> = (0..n).filter(|i| !gone.contains(i)).collect();
                let mut v: Vec<usize> = (0..n).collect();
                v.remove_multiple(&gone);
                ctx.outcome(&v);
                ctx.note(|| format!("{} elements without {:?}: {:?}", n, gone, v));
                ensure!(v == want, "{} elements without {:?}: {:?}", n, gone, v);
                let all: Vec<Rc<String>> = (0..n).map(|i| Rc::new(format!("e{}", i))).collect();
                let mut w = all.clone();
                w.remove_multiple(&gone);
                let text: Vec<String> = w.iter().map(|x| x.to_string()).collect();
                ensure!(text == want.iter().map(|i| format!("e{}", i)).collect::<Vec<_>>(), "{} objects without {:?}: {:?}", n, gone, text);
                for (i, x) in all.iter().enumerate() {
                    let k = 1 + want.contains(&i) as usize;
                    ensure!(Rc::strong_count(x) == k, "{} objects without {:?}: object {} held {} times", n, gone, i, Rc::strong_count(x));
                }
                Ok(())
            },
        );
        c.scenario("common-type", "every sequence of 1..=5 (thorough 6) of the 10 types", 0, move |ctx| {
            let n = 1 + ctx.choose(if t { 6 } else { 5 });
            let v: Vec<FieldType> = (0..n).map(|_| *ctx.pick(&TYPES)).collect();
            let float = |t: &FieldType| matches!(t, FieldType::Float | FieldType::Double);
            let text = |t: &FieldType| matches!(t, FieldType::Boolean | FieldType::ByteBuf | FieldType::String);
            let want = if v.iter().any(text) {
                FieldType::String
            } else if v.iter().any(float) {
                FieldType::Double
            } else {
                FieldType::Long
            };
            ctx.step(&v.iter().map(|t| format!("{:?}", t)).collect::<Vec<_>>());
            let got = guess_common_type(&v);
            ctx.outcome(&format!("{:?}", got));
            ctx.note(|| format!("{:?}: {:?}", v, got));
            ensure!(got == want, "common type of {:?}: {:?}, expected {:?}", v, got, want);
            Ok(())
        });
        c.scenario(
            "very-large-files",
            "sizes of 65535..=65537, 131071..=131073, 1048575..=1048577, 3000000: equal, one byte different at either end, in the middle or around \
             every power of two, or one a byte or 65536 bytes longer",
            0,
            move |ctx| {
                let n = *ctx.pick(&[65535usize, 65536, 65537, 131071, 131072, 131073, 1048575, 1048576, 1048577, 3000000]);
                let a = fill(n);
                let mut b = a.clone();
                let mut at = vec![0, 1, n / 2, n - 2, n - 1];
                for k in 10..22 {
                    for d in 0..3 {
                        at.push((1usize << k) + d - 1);
                    }
                }
                at.retain(|x| *x < n);
                match ctx.choose(at.len() + 3) {
                    0 => {}
                    1 => b.push(0),
                    2 => b.extend(fill(65536)),
                    i => b[at[i - 3]] ^= 1,
                }
                ctx.step(&hash_of(&b));
                same(ctx, &a, &b, &|| format!("files of {} and {} bytes, different from byte {:?}", n, b.len(), a.iter().zip(&b).position(|x| x.0 != x.1)))
            },
        );
        c.scenario(
            "remove-many",
            "lists of 63..=65, 127..=129, 255..=257, 1000, 5000, 70000 elements without: none, all, every 2nd, every 3rd, the first, last, first and last, \
             all but the first, last or a middle one, the first or last half",
            0,
            move |ctx| {
                let n = *ctx.pick(&[63usize, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 5000, 70000]);
                let k = ctx.choose(12);
                let gone: Vec<usize> = (0..n)
                    .filter(|&i| match k {
                        0 => false,
                        1 => true,
                        2 => i % 2 == 0,
                        3 => i % 3 == 1,
                        4 => i == 0,
                        5 => i == n - 1,
                        6 => i == 0 || i == n - 1,
                        7 => i > 0,
                        8 => i < n - 1,
                        9 => i != n / 2,
                        10 => i < n / 2,
                        _ => i >= n / 2,
                    })
                    .collect();
                ctx.step(&(n, k));
                let want: Vec<usize> = (0..n).filter(|i| gone.binary_search(i).is_err()).collect();
                let mut v: Vec<String> = (0..n).map(|i| format!("e{}", i)).collect();
                v.remove_multiple(&gone);
                ctx.outcome(&v);
                let want: Vec<String> = want.iter().map(|i| format!("e{}", i)).collect();
                ensure!(v == want, "{} elements, way {}: {} left, expected {}", n, k, v.len(), want.len());
                Ok(())
            },
        );
        c.scenario(
            "common-type-of-many",
            "7..=9, 255..=257, 999..=1001, 1023..=1025, 4097 and 70000 types, all alike but one at the first, second, middle or last place: every pair of the 10",
            0,
            move |ctx| {
                let n = *ctx.pick(&[7usize, 8, 9, 255, 256, 257, 999, 1000, 1001, 1023, 1024, 1025, 4097, 70000]);
                let a = *ctx.pick(&TYPES);
                let b = *ctx.pick(&TYPES);
                let at = [0, 1, n / 2, n - 1][ctx.choose(4)];
                let mut v = vec![a; n];
                v[at] = b;
                let float = |t: &FieldType| matches!(t, FieldType::Float | FieldType::Double);
                let text = |t: &FieldType| matches!(t, FieldType::Boolean | FieldType::ByteBuf | FieldType::String);
                let want = if v.iter().any(text) {
                    FieldType::String
                } else if v.iter().any(float) {
                    FieldType::Double
                } else {
                    FieldType::Long
                };
                ctx.step(&(n, format!("{:?} {:?}", a, b), at));
                let got = guess_common_type(&v);
                ctx.outcome(&format!("{:?}", got));
                ensure!(got == want, "common type of {} {:?} and a {:?}: {:?}, expected {:?}", n - 1, a, b, got, want);
                Ok(())
            },
        );
        c.scenario(
            "pipes",
            "two named pipes, or one and a plain file, that deliver 0..=3, 10, 8191..=8193, 16385 or 20000 bytes in 1 to 3 pieces (2 pieces: \
             cut at 5 places; 3: at every pair of them): equal, one byte different at 5 places, or one longer by 1, 5 or 8192 bytes",
            0,
            move |ctx| {
                let n = *ctx.pick(&[0usize, 1, 2, 3, 10, 8191, 8192, 8193, 16385, 20000]);
                let how = ctx.choose(3);
                let a = fill(n);
                let mut b = a.clone();
                let places: Vec<usize> = {
                    let mut p = vec![0, 1, n / 2, 8191, 8192, n.saturating_sub(1)];
                    p.retain(|x| *x < n);
                    p.sort();
                    p.dedup();
                    p
                };
                match ctx.choose(4 + places.len()) {
                    0 => {}
                    1 => b.push(a.last().copied().unwrap_or(0)),
                    2 => b.extend(fill(5)),
                    3 => b.extend(fill(8192)),
                    i => b[places[i - 4]] ^= 1,
                }
                let swap = ctx.flag();
                let mut cuts = |n: usize| -> Vec<usize> {
                    let mut p = vec![1, 5, n / 2, 8192, n.saturating_sub(1)];
                    p.retain(|x| *x > 0 && *x < n);
                    p.sort();
                    p.dedup();
                    let mut v = Vec::new();
                    let i = ctx.choose(p.len() + 1);
                    if i > 0 {
                        v.push(p[i - 1]);
                        let j = ctx.choose(p.len() - i + 1);
                        if j > 0 && (t || how > 0) {
                            v.push(p[i + j - 1]);
                        }
                    }
                    v
                };
                let (x, y) = if swap { (&b, &a) } else { (&a, &b) };
                let cx = if how != 2 { Some(cuts(x.len())) } else { None };
                let cy = if how != 1 { Some(if how == 0 && !t { vec![] } else { cuts(y.len()) }) } else { None };
                let want = a == b;
                ctx.step(&(hash_of(x), hash_of(y), &cx, &cy));
                let d = format!("{} bytes cut at {:?} and {} bytes cut at {:?} (None: a plain file)", x.len(), cx, y.len(), cy);
                let got = compare_pipes(ctx, [(x, cx), (y, cy)]);
                ctx.note(|| format!("{}: {:?}", d, got));
                ctx.outcome(&format!("{:?}", got));
                match got {
                    Ok(g) => ensure!(g == want, "{}, first different byte {:?}: said {}", d, x.iter().zip(y.iter()).position(|z| z.0 != z.1), g),
                    Err(e) => return Err(format!("{}: {}", d, e)),
                }
                Ok(())
            },
        );
    });
}
