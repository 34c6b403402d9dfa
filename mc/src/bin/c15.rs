//! C15: any valid single-file zip is read; anything else is refused.
use std::io::{Cursor, Read};

use chopper::cli::util::YesNoAuto;
use chopper::decompress::zip;
use chopper::input::input::{Input, InputFormat, InputType};
use chopper::input::input_factory::InputFactory;
use mc::kit::*;
use mc::pack::*;
use mc::*;

/// Name and content as read, in pieces of `step` bytes; the content may come with an error.
fn unzip(z: &[u8], step: usize) -> Result<(String, Vec<u8>, Option<String>), String> {
    let (mut r, name) = zip::new_reader_for_single_file_zip_archive(Cursor::new(z.to_vec())).map_err(|e| e.to_string())?;
    let mut all = Vec::new();
    let mut buf = vec![0; step];
    loop {
        match r.read(&mut buf) {
            Ok(0) => return Ok((name, all, None)),
            Ok(n) => all.extend(&buf[..n]),
            Err(e) => return Ok((name, all, Some(e.to_string()))),
        }
    }
}

fn content(n: usize, kind: usize) -> Vec<u8> {
    let mut x = 88172645463325252u64;
    (0..n)
        .map(|i| {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            match kind {
                0 => b"2019-01-01,abc,1.5\n"[i % 19],
                1 => (x >> 20) as u8,
                // looks like zip records itself
                _ => b"PK\x05\x06PK\x01\x02PK\x03\x04PK\x06\x07PK\x06\x06"[i % 20],
            }
        })
        .collect()
}

fn good(ctx: &mut Ctx, z: &Zip, name: Option<&str>, step: usize, what: &dyn Fn() -> String) -> Res {
    let b = z.bytes();
    ctx.step(&(&b, step));
    let got = unzip(&b, step);
    ctx.outcome(&got);
    ctx.note(|| {
        let g = got.as_ref().map(|(n, d, e)| (n.clone(), d.len(), e.clone()));
        format!("{}: archive of {} bytes: {:?}", what(), b.len(), g)
    });
    let want = &z.members[0].data;
    match got {
        Err(e) => Err(format!("valid archive of {} bytes refused ({}): {}", b.len(), what(), e)),
        Ok((n, d, e)) => {
            ensure!(
                e.is_none() && d == *want,
                "valid archive ({}): {} of {} bytes read, same content: {}, error {:?}",
                what(),
                d.len(),
                want.len(),
                d == *want,
                e
            );
            if let Some(name) = name {
                ensure!(n == name, "name of the file {:?}, expected {:?} ({})", n, name, what());
            }
            Ok(())
        }
    }
}

/// Must not be read as if it were complete and valid.
fn refused(ctx: &mut Ctx, b: &[u8], what: &dyn Fn() -> String) -> Res {
    ctx.step(&b);
    let got = unzip(b, 4096);
    ctx.outcome(&got.as_ref().map(|x| (x.1.len(), x.2.clone())));
    ctx.note(|| format!("{}: {:?}", what(), got.as_ref().map(|x| (x.1.len(), x.2.clone()))));
    if let Ok((_, d, None)) = &got {
        return Err(format!("{}: accepted, {} bytes read to a proper end", what(), d.len()));
    }
    Ok(())
}

const EXTRAS: [&[u8]; 6] = [
    b"",
    b"UT\x05\x00\x01\x02\x03\x04\x05",
    b"\x09\x09\x00\x00",
    b"\x09\x09\x02\x00\x01\x00\x55\x54\x01\x00\x07",
    b"\x00\xff\x08\x00\x01\x00\x04\x00\xff\xff\xff\xff",
    b"\x07\x00\x10\x00PK\x05\x06PK\x01\x02PK\x03\x04PK\x06\x07",
];

fn main() {
    mc::main("C15", Level::ModelChecking, |c| {
        let t = c.thorough;
        c.scenario(
            "records",
            "3 methods x data of 0, 1, 300, 70000 bytes x data descriptor x 6 extra fields in the local and 6 in the central header x 32 ways of zip64 fields x 4 of zip64 end records (quick: pairs of these only)",
            0,
            move |ctx| {
                let method = *ctx.pick(&[0u16, 8, 12]);
                let n = *ctx.pick(&[0usize, 1, 300, 70000]);
                // indices off their first value, at most two at the small tier
                let dims = [2usize, 6, 6, 32, 4, 3, 3, 3];
                let mut x = [0usize; 8];
                let mut off = 0;
                for i in 0..dims.len() {
                    if !t && off == 2 {
                        break;
                    }
                    if t && (n == 0 || n == 70000) && off == 3 {
                        break;
                    }
                    x[i] = ctx.choose(dims[i]);
                    off += (x[i] > 0) as usize;
                }
                let data = content(n, ctx.choose(if n == 300 { 3 } else { 1 }));
                let mut m = Member::new("in.csv", &data, method);
                m.flags = [0, 8][x[0]];
                m.extra_local = EXTRAS[x[1]].to_vec();
                m.extra_central = EXTRAS[x[2]].to_vec();
                m.zip64 = x[3] as u8;
                m.comment = [&b""[..], b"c", b"PK\x05\x06 member comment"][x[5]].to_vec();
                let mut z = Zip::of(m);
                z.zip64 = x[4] as u8;
                z.comment = [&b""[..], b"archive", b"PK\x06\x07 PK\x06\x06 PK\x01\x02"][x[6]].to_vec();
                z.zip64_extra = if x[4] > 0 && x[7] == 1 { vec![1, 2, 3] } else { vec![] };
                z.gap = if x[7] == 2 { b"PK\x01\x02 gap".to_vec() } else { vec![] };
                let what = || format!("method {}, {} bytes, variants {:?}", method, n, x);
                good(ctx, &z, Some("in.csv"), 4096, &what)
            },
        );
        c.scenario(
            "idle-fields",
            "each of 14 header fields that have no bearing on the content (versions, times, dates, attributes, 6 flag bits, the local header's crc and sizes with a data \
             descriptor, versions of the zip64 end record) with any of 19 values, alone and with any other (quick: of 6 values), 3 methods, zip64 records or not",
            0,
            move |ctx| {
                let method = *ctx.pick(&[0u16, 8, 12]);
                let z64 = ctx.flag();
                let vals = [
                    0u32, 1, 2, 3, 10, 20, 21, 46, 51, 62, 63, 127, 128, 255, 256, 0x31f, 0x7fff, 0x8000, 0xffff,
                ];
                let mut m = Member::new("in.csv", &content(300, 0), method);
                let mut what = Vec::new();
                for k in 0..2 {
                    let field = ctx.choose(if k == 0 { 14 } else { 15 });
                    let few = [0u32, 1, 46, 255, 0x8000, 0xffff];
                    let v = if k == 0 || t { *ctx.pick(&vals) } else { *ctx.pick(&few) };
                    let w = v as u16;
                    let i = &mut m.idle;
                    match field {
                        0 => i.made_by = w,
                        1 => i.needed[0] = w,
                        2 => i.needed[1] = w,
                        3 => i.needed = [w; 2],
                        4 => i.time = [w, 0x4a21],
                        5 => i.time = [0x4a21, w],
                        6 => i.date = [w, 0],
                        7 => i.date = [0, w],
                        8 => i.internal = w,
                        9 => i.external = v << 16 | v,
                        10 => i.external = v,
                        // flags: compression options (1, 2), reserved ones and the data descriptor
                        11 => m.flags |= w & 0x96,
                        12 => {
                            m.flags |= 8;
                            i.local_crc = Some(v);
                            i.local_size = Some(v);
                            i.local_packed = Some(v);
                        }
                        13 => i.needed_end = [w; 2],
                        _ => {}
                    }
                    what.push((field, v));
                }
                let mut z = Zip::of(m);
                z.zip64 = if z64 { 2 } else { 0 };
                let what = || format!("method {}, zip64 {}, fields and values {:?}", method, z64, what);
                good(ctx, &z, Some("in.csv"), 4096, &what)
            },
        );
        c.scenario(
            "comment-lengths",
            "archive comments and member comments of every length 0..=600 and around 2^k up to 65535 (thorough: every 1st length to 4000, then every 61st) x 4 fillings, with and without zip64 records",
            0,
            move |ctx| {
                let mut lens: Vec<usize> = (0..=if t { 4000 } else { 600 }).collect();
                if t {
                    lens.extend((4000..65536).step_by(61));
                }
                for p in [1024usize, 4096, 16384, 32768, 65535] {
                    lens.extend((p - 3)..=(p + 3).min(65535));
                }
                let n = *ctx.pick(&lens);
                let fill = *ctx.pick(&[&b" "[..], b"\0", b"PK\x05\x06", b"PK\x05\x06\xff"]);
                if fill.len() > 1 && n > 19300 {
                    return Ok(()); // would make a complete end record with a comment of 'PK' = 19280 bytes
                }
                let text: Vec<u8> = fill.iter().cycle().take(n).cloned().collect();
                let mut m = Member::new("in.csv", &content(100, 0), 8);
                let on_member = ctx.flag();
                let mut z = Zip::default();
                if on_member {
                    m.comment = text;
                } else {
                    z.comment = text;
                }
                z.members = vec![m];
                z.zip64 = if ctx.flag() { 3 } else { 0 };
                let what = || format!("comment of {} bytes {:?} (of the member: {}), zip64 {}", n, fill, on_member, z.zip64);
                good(ctx, &z, Some("in.csv"), 4096, &what)
            },
        );
        c.scenario(
            "extra-field-lengths",
            "extra fields of every length 4..=600 and around 2^k up to 65535 (thorough: every length to 4000, then every 61st) as one field or as many of 4 \
             to 8 bytes, in the local header, the central one or both x 3 methods x zip64 sizes and offset or not",
            0,
            move |ctx| {
                let mut lens: Vec<usize> = (4..=if t { 4000 } else { 600 }).collect();
                if t {
                    lens.extend((4001..65500).step_by(61));
                }
                for p in [1024usize, 4096, 8192, 16384, 32768, 65535] {
                    lens.extend((p - 3)..=(p + 3).min(65535));
                }
                let n = *ctx.pick(&lens);
                let mut x: Vec<u8> = Vec::with_capacity(n);
                if ctx.flag() {
                    x.extend([9, 9]);
                    x.extend(((n - 4) as u16).to_le_bytes());
                    x.extend(b"PK\x05\x06\xff".iter().cycle().take(n - 4));
                } else {
                    while n - x.len() >= 8 {
                        x.extend([9, 9, 0, 0]);
                    }
                    let rest = (n - x.len() - 4) as u16;
                    x.extend([8, 9]);
                    x.extend(rest.to_le_bytes());
                    x.extend(vec![0xff; rest as usize]);
                }
                let place = ctx.choose(3);
                let mut m = Member::new("in.csv", &content(100, 0), *ctx.pick(&[0, 8, 12]));
                if place != 1 {
                    m.extra_local = x.clone();
                }
                // zip64 fields take up to 32 bytes of the 65535
                m.zip64 = if place == 0 || n < 65500 { *ctx.pick(&[0, 7]) } else { 0 };
                if place != 0 {
                    m.extra_central = x;
                }
                let z = Zip::of(m);
                let what = || format!("extra fields of {} bytes, place {}", n, place);
                good(ctx, &z, Some("in.csv"), 4096, &what)
            },
        );
        c.scenario(
            "extra-field-ids",
            "an extra field of every id but the one of zip64 fields, with 0, 4 or 16 bytes of data, before or after the zip64 fields of the central header (all sizes and the offset, only the sizes, none) \
             or in the local one",
            0,
            move |ctx| {
                let id = ctx.choose(65536) as u16;
                if id == 1 {
                    return Ok(());
                }
                let place = ctx.choose(3);
                let n = *ctx.pick(&[0u16, 4, 16]);
                let zip64 = if place == 2 { 0 } else { *ctx.pick(&[0u8, 3, 7]) };
                let mut x = id.to_le_bytes().to_vec();
                x.extend(n.to_le_bytes());
                x.extend((1..=n as u8).collect::<Vec<u8>>());
                let mut m = Member::new("in.csv", &content(100, 0), if t { *ctx.pick(&[0, 8, 12]) } else { 8 });
                m.zip64 = if zip64 == 0 { 0 } else { zip64 | [16, 0][place] };
                if place == 2 {
                    m.extra_local = x;
                } else {
                    m.extra_central = x;
                }
                let z = Zip::of(m);
                let what = || format!("extra field {:04x} of {} bytes, place {}, zip64 {}", id, n, place, zip64);
                good(ctx, &z, Some("in.csv"), 4096, &what)
            },
        );
        c.scenario(
            "records-inside-the-comment",
            "an end record (of another archive, or empty) inside of the archive comment at every distance 22..=90 from the end, with every comment length in it but the one that makes it the real one",
            0,
            move |ctx| {
                let back = 22 + ctx.choose(69);
                let front = *ctx.pick(&[0usize, 1, 3, 22]);
                let claimed = ctx.choose(100);
                if claimed + 22 == back {
                    return Ok(());
                }
                let mut fake = b"PK\x05\x06\0\0\0\0".to_vec();
                let count = *ctx.pick(&[0u8, 1]);
                fake.extend([count, 0, count, 0]);
                fake.extend([0; 8]);
                fake.extend([claimed as u8, 0]);
                let mut z = Zip::of(Member::new("in.csv", &content(50, 0), 0));
                z.comment = vec![b'.'; front];
                z.comment.extend(&fake);
                z.comment.extend(vec![b'.'; back - 22]);
                z.zip64 = if ctx.flag() { 2 } else { 0 };
                let what = || format!("end record in the comment, {} bytes from the end, claiming a comment of {}", back, claimed);
                good(ctx, &z, Some("in.csv"), 4096, &what)
            },
        );
        c.scenario(
            "member-names",
            "names of 1, 2, 255, 4000, 65535 bytes, in directories, with blanks, non-ASCII with and without the UTF-8 flag, not valid UTF-8 x 3 methods",
            0,
            move |ctx| {
                let long = "n".repeat(4000);
                let longest = "n".repeat(65535);
                let mid = "d/".repeat(127) + "x";
                let names: Vec<(&[u8], u16, Option<&str>)> = vec![
                    (b"a", 0, Some("a")),
                    (b"x.csv", 0, Some("x.csv")),
                    (b"x.csv", 0x800, Some("x.csv")),
                    (b"dir/sub dir/x.dc", 0, Some("dir/sub dir/x.dc")),
                    ("däta.csv".as_bytes(), 0x800, Some("däta.csv")),
                    ("日本語/ファイル.dc".as_bytes(), 0x800, Some("日本語/ファイル.dc")),
                    ("däta.csv".as_bytes(), 0, None),
                    (b"\xff\xfe.csv", 0, None),
                    (b"\xff\xfe.csv", 0x800, None),
                    (b"\x84\x81.csv", 0, None),
                    (b"PK\x05\x06.csv", 0, Some("PK\x05\x06.csv")),
                    (b"", 0, Some("")),
                    (mid.as_bytes(), 0, Some(&mid)),
                    (long.as_bytes(), 0, Some(&long)),
                    (longest.as_bytes(), 0x800, Some(&longest)),
                ];
                let (raw, flag, want) = names[ctx.choose(names.len())];
                let mut m = Member::new("", &content(80, 0), *ctx.pick(&[0, 8, 12]));
                m.name = raw.to_vec();
                m.flags = flag | if ctx.flag() { 8 } else { 0 };
                m.extra_local = ctx.pick(&EXTRAS).to_vec();
                m.zip64 = *ctx.pick(&[0, 7, 23]);
                let z = Zip::of(m);
                let what = || format!("name of {} bytes {:?}, flag {:x}", raw.len(), String::from_utf8_lossy(&raw[..raw.len().min(40)]), flag);
                good(ctx, &z, want, 4096, &what)?;
                if want.is_none() {
                    // the suffix is what matters
                    let (n, _, _) = unzip(&z.bytes(), 4096)?;
                    ensure!(n.ends_with(".csv"), "name {:?} lost its suffix: {:?}", raw, n);
                }
                Ok(())
            },
        );
        c.scenario(
            "sizes-and-reads",
            "content of every size 0..=600 and around 2^k up to 2^18 (thorough 2^21), 3 kinds x 3 methods x reads of 1, 3, 4096, 100000 bytes",
            0,
            move |ctx| {
                let mut sizes: Vec<usize> = (0..=if t { 600 } else { 130 }).collect();
                for p in 10..=(if t { 21 } else { 17 }) {
                    sizes.extend((1usize << p) - 2..=(1 << p) + 2);
                }
                let n = *ctx.pick(&sizes);
                let kind = ctx.choose(3);
                let method = *ctx.pick(&[0, 8, 12]);
                let step = *ctx.pick(&[4096usize, 1, 3, 100_000]);
                if !t && n > 5000 && (step < 4096 || kind == 2) {
                    return Ok(());
                }
                let z = Zip::of(Member::new("in.csv", &content(n, kind), method));
                let what = || format!("{} bytes of kind {}, method {}, reads of {}", n, kind, method, step);
                good(ctx, &z, None, step, &what)
            },
        );
        c.scenario(
            "as-input",
            "the same archives by path, holding CSV or DC, with all kinds of records: header and rows",
            0,
            move |ctx| {
                let kind = *ctx.pick(&["csv", "dc"]);
                let (d, rows) = if kind == "csv" {
                    let (d, r) = sample_csv(3000);
                    (d, r)
                } else {
                    let (d, _, r) = sample_dc(60);
                    (d, r)
                };
                let mut m = Member::new(&format!("dir/in.{}", kind), &d, *ctx.pick(&[0, 8, 12]));
                m.flags = *ctx.pick(&[0, 8, 0x808]);
                m.zip64 = *ctx.pick(&[0, 7, 23]);
                m.extra_local = ctx.pick(&EXTRAS).to_vec();
                m.extra_central = ctx.pick(&EXTRAS).to_vec();
                let mut z = Zip::of(m);
                z.zip64 = ctx.choose(4) as u8;
                z.comment = ctx.pick(&[&b""[..], b"PK\x05\x06 a comment"]).to_vec();
                let b = z.bytes();
                ctx.step(&b);
                let dir = ctx.fresh_dir();
                let p = dir.join(*ctx.pick(&["x.zip", "plain"]));
                std::fs::write(&p, &b).map_err(|e| format!("ENGINE: {}", e))?;
                let mut f = InputFactory::new(plain_cfg(YesNoAuto::Yes), None, None).map_err(|e| err_text(&e))?;
                let got = open_and_read(f.create_source_from_input(&Input {
                    input: InputType::Path(p.to_string_lossy().to_string()),
                    format: InputFormat::Auto,
                }));
                ctx.outcome(&got);
                ctx.note(|| brief(&got));
                let ok = got.as_ref().map_or(false, |g| g.err.is_none() && g.rows == rows);
                ensure!(ok, "{} in a zip by path: {}", kind, brief(&got));
                Ok(())
            },
        );

        // ---------------------------------------------------------------------------------------
        c.scenario(
            "several-or-no-members",
            "0, 2, 3 members x methods x empty or not x zip64 end records; counts of the end records off by -1, 1, 2, 255, 256, 65533",
            0,
            move |ctx| {
                let n = *ctx.pick(&[0usize, 2, 3, 1]);
                let mut z = Zip::default();
                for i in 0..n {
                    let size = *ctx.pick(&[0usize, 40]);
                    z.members.push(Member::new(&format!("{}.csv", i), &content(size, 0), *ctx.pick(&[0, 8, 12])));
                }
                z.zip64 = ctx.choose(4) as u8;
                z.count_add = if n == 1 { *ctx.pick(&[-1i64, 1, 2, 255, 256, 65533]) } else { 0 };
                z.comment = ctx.pick(&[&b""[..], b"comment"]).to_vec();
                let b = z.bytes();
                refused(ctx, &b, &|| format!("archive of {} members ({:+} in its count), zip64 {}", n, z.count_add, z.zip64))
            },
        );
        c.scenario(
            "zip64-count",
            "zip64 counts of 2, 2^16+1, 2^32+1, 2^64-1, on this disk or in total",
            0,
            move |ctx| {
                let mut z = Zip::of(Member::new("in.csv", &content(40, 0), 8));
                z.zip64 = 2 + ctx.choose(2) as u8;
                let mut b = z.bytes();
                let p = b.windows(4).rposition(|w| w == b"PK\x06\x06").ok_or("ENGINE: no zip64 record")?;
                let v = *ctx.pick(&[0u64, 2, (1 << 16) + 1, (1 << 32) + 1, u64::MAX]);
                let both = ctx.choose(3);
                if both != 1 {
                    b[p + 24..p + 32].copy_from_slice(&v.to_le_bytes());
                }
                if both != 0 {
                    b[p + 32..p + 40].copy_from_slice(&v.to_le_bytes());
                }
                refused(ctx, &b, &|| format!("zip64 record with {} members (fields {})", v, both))
            },
        );
        c.scenario(
            "several-disks",
            "archives of 2, 3, 256, 65535 disks by the end records or zip64 records, or whose member starts on another disk",
            0,
            move |ctx| {
                let mut m = Member::new("in.csv", &content(40, 0), *ctx.pick(&[0, 8, 12]));
                let mut z = Zip::default();
                let where_ = ctx.choose(2);
                let n = *ctx.pick(&[1u16, 2, 255, 256, 65534]);
                z.zip64 = ctx.choose(4) as u8;
                if where_ == 0 {
                    z.disks = n as u32;
                } else {
                    m.disk = n;
                }
                z.members = vec![m];
                let b = z.bytes();
                refused(ctx, &b, &|| format!("{} {}, zip64 {}", ["additional disks", "member on disk"][where_], n, z.zip64))
            },
        );
        c.scenario(
            "encrypted",
            "encryption flag, alone and with others x methods",
            0,
            move |ctx| {
                let mut m = Member::new("in.csv", &content(40, 0), *ctx.pick(&[0, 8, 12]));
                m.flags = 1 | *ctx.pick(&[0, 8, 0x40, 0x800, 0x808, 0xfffe]);
                let f = m.flags;
                let b = Zip::of(m).bytes();
                refused(ctx, &b, &|| format!("encrypted, flags {:x}", f))
            },
        );
        c.scenario(
            "other-methods",
            "every compression method 0..=65535 but 0, 8, 12, on stored, deflated and bzip2 data",
            0,
            move |ctx| {
                let data = *ctx.pick(&[0u16, 8, 12]);
                let hi = ctx.choose(if t { 256 } else { 3 });
                let method = if t || hi == 0 { hi << 8 | ctx.choose(256) } else { [0xff00, 0xc00][hi - 1] | ctx.choose(256) } as u16;
                if [0, 8, 12].contains(&method) {
                    return Ok(());
                }
                let mut b = Zip::of(Member::new("in.csv", &content(40, 0), data)).bytes();
                let p = b.windows(4).rposition(|w| w == b"PK\x01\x02").ok_or("ENGINE: no central header")?;
                b[8..10].copy_from_slice(&method.to_le_bytes());
                b[p + 10..p + 12].copy_from_slice(&method.to_le_bytes());
                refused(ctx, &b, &|| format!("compression method {} (data of method {})", method, data))
            },
        );
        c.scenario(
            "wrong-crc",
            "every single-bit change of the stored CRC and of each byte of the content x methods x descriptor x zip64; content of 0, 1, 40 and 20000 bytes; a stored CRC of each byte repeated, each byte alone in each place, the complement of the right one, with its bytes or bits in any wrong order",
            0,
            move |ctx| {
                let n = *ctx.pick(&[0usize, 1, 40, 20000]);
                let mut m = Member::new("in.csv", &content(n, 0), *ctx.pick(&[0, 8, 12]));
                m.flags = *ctx.pick(&[0, 8]);
                let k = ctx.choose(32 + 256 * 5 + 6);
                let right = crc(&m.data);
                m.crc_xor = if k < 32 {
                    1 << k
                } else if k < 32 + 256 * 5 {
                    let (i, v) = ((k - 32) % 5, ((k - 32) / 5) as u32);
                    right ^ if i < 4 { v << (8 * i) } else { v * 0x0101_0101 }
                } else {
                    let b = right.to_le_bytes();
                    right
                        ^ match k - 32 - 256 * 5 {
                            0 => !right,
                            1 => right.swap_bytes(),
                            2 => right.reverse_bits(),
                            3 => right.rotate_left(16),
                            4 => u32::from_le_bytes([b[1], b[0], b[3], b[2]]),
                            _ => right.wrapping_neg(),
                        }
                };
                if m.crc_xor == 0 {
                    return Ok(());
                }
                let mut z = Zip::of(m);
                z.zip64 = *ctx.pick(&[0, 3]);
                let b = z.bytes();
                refused(ctx, &b, &|| format!("{} bytes with a wrong CRC ({})", n, k))
            },
        );
        c.scenario(
            "wrong-content",
            "stored content of 60 bytes with each single bit changed, each byte left out (sizes adjusted or not), a byte added, empty content with the CRC of something",
            0,
            move |ctx| {
                let d = content(60, 1);
                let mut e = d.clone();
                let k = ctx.choose(3);
                let at = ctx.choose(60);
                match k {
                    0 => e[at] ^= 1 << ctx.choose(8),
                    1 => {
                        e.remove(at);
                    }
                    _ => e.insert(at, ctx.choose(2) as u8 * 0x55),
                }
                if ctx.flag() {
                    e.truncate(at);
                }
                let mut m = Member::new("in.csv", &e, *ctx.pick(&[0, 8, 12]));
                m.crc_xor = crc(&e) ^ crc(&d);
                if e == d {
                    return Ok(());
                }
                let b = Zip::of(m).bytes();
                refused(ctx, &b, &|| format!("content changed ({} at {}), CRC of the original", k, at))
            },
        );
        c.scenario(
            "wrong-size",
            "stored and compressed content of 60 bytes with a compressed size that is too small by every amount",
            0,
            move |ctx| {
                let mut m = Member::new("in.csv", &content(60, 1), *ctx.pick(&[0, 8, 12]));
                m.zip64 = *ctx.pick(&[0, 2]);
                let big = m.zip64 == 2;
                let mut b = Zip::of(m).bytes();
                let p = b.windows(4).rposition(|w| w == b"PK\x01\x02").ok_or("ENGINE: no central header")?;
                let at = if big { p + 46 + 6 + 4 } else { p + 20 };
                let size = u32::from_le_bytes([b[at], b[at + 1], b[at + 2], b[at + 3]]);
                let less = ctx.choose(size as usize) as u32;
                b[at..at + 4].copy_from_slice(&less.to_le_bytes());
                refused(ctx, &b, &|| format!("compressed size {} instead of {}", less, size))
            },
        );
        c.scenario(
            "cut-off",
            "archives of each method with and without all kinds of records, cut after every byte, or with every number of bytes missing at the start",
            0,
            move |ctx| {
                let mut m = Member::new("in.csv", &content(120, 0), *ctx.pick(&[0, 8, 12]));
                let mut z = Zip::default();
                if ctx.flag() {
                    m.zip64 = 7;
                    m.flags = 8;
                    m.extra_local = EXTRAS[3].to_vec();
                    m.extra_central = EXTRAS[1].to_vec();
                    z.zip64 = 3;
                    z.comment = b"this is a comment".to_vec();
                }
                z.members = vec![m];
                let b = z.bytes();
                let at = ctx.choose(b.len());
                let start = ctx.flag();
                if start {
                    return if at == 0 { Ok(()) } else { refused(ctx, &b[at..], &|| format!("first {} bytes missing", at)) };
                }
                // a comment that is cut is not seen by every reader
                if at >= b.len() - z.comment.len() {
                    let got = unzip(&b[..at], 4096);
                    if let Ok((_, d, None)) = got {
                        ensure!(d == z.members[0].data, "comment cut: wrong content");
                    }
                    return Ok(());
                }
                refused(ctx, &b[..at], &|| format!("cut after {} of {} bytes", at, b.len()))
            },
        );
    });
}
