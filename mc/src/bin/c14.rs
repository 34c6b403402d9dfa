//! C14: decompression is transparent.
use std::io::{Cursor, Read};

use chopper::chopper::chopper::Source;
use chopper::cli::util::YesNoAuto;
use chopper::decompress::decompress::*;
use chopper::decompress::zip;
use chopper::error::{CliResult, Error};
use chopper::input::input::{Input, InputFormat, InputType};
use chopper::input::input_factory::*;
use chopper::input::single_file::SingleFileInputFactory;
use chopper::source::csv_configs::*;
use chopper::transport::seekable::seekable_factory::SeekableTransportFactory;
use chopper::transport::streaming::previewer_factory::PreviewerTransportFactory;
use chopper::util::reader::ChopperBufPreviewer;
use chopper::util::tz::ChopperTz;
use mc::kit::*;
use mc::pack::*;
use mc::*;

fn data(kind: usize, n: usize) -> Vec<u8> {
    let mut x = 88172645463325252u64;
    (0..n)
        .map(|i| {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            match kind {
                0 => b"2019-01-01,abc,1.5,"[i % 19] ^ (i / 1000) as u8 & 1,
                1 => 0x5a,
                2 => (x >> 20) as u8,
                // stretches that do not compress among ones that do
                5 if (i / 1700 + i / 150_000) % 2 == 0 => (x >> 20) as u8,
                5 => b"the same again, "[i % 16],
                4 => b"LZ4Block\x1f\x8b\x08\0ZV\x01\0ZV\0PK\x03\x04\x28\xb5\x2f\xfd\x04\x22\x4d\x18PK\x05\x06\0\0\0\0DCAT\0\x02"
                    [(i + i / 45 * 7) % 45],
                _ => {
                    if (x >> 30) % 4 == 0 {
                        (x >> 40) as u8
                    } else {
                        b'q'
                    }
                }
            }
        })
        .collect()
}

fn previewer(b: &[u8]) -> Result<ChopperBufPreviewer<Box<dyn Read>>, String> {
    let r: Box<dyn Read> = Box::new(Cursor::new(b.to_vec()));
    ChopperBufPreviewer::new(r).map_err(|e| format!("preview: {}", e))
}

fn read_by(mut r: Box<dyn Read>, step: usize) -> Result<Vec<u8>, String> {
    let mut all = Vec::new();
    let mut buf = vec![0; step];
    loop {
        match r.read(&mut buf) {
            Ok(0) => return Ok(all),
            Ok(n) => all.extend(&buf[..n]),
            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
            Err(e) => return Err(format!("error after {} bytes: {}", all.len(), e)),
        }
    }
}

fn same(got: &[u8], want: &[u8]) -> Res {
    if got != want {
        let i = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
        return Err(format!("{} bytes read, expected {}; they differ from byte {}", got.len(), want.len(), i));
    }
    Ok(())
}

fn csv_text(n: usize) -> Vec<u8> {
    let mut s = "timeSeconds,word,n\n".to_string();
    let mut i = 0u64;
    while s.len() < n {
        let w = (i * 2654435761) % 4096;
        s += &format!("{},w{},{}\n", 1_546_300_800 + i, w, i % 7);
        i += 1;
    }
    s.into_bytes()
}

fn dc_bytes(n: usize, dir: &std::path::Path) -> Result<Vec<u8>, String> {
    use chopper::chopper::types::FieldType;
    let p = dir.join("source.dc");
    let head = H::new(&[("word", FieldType::String), ("n", FieldType::Int), ("d", FieldType::Double)]);
    let rows: Vec<R> = (0..n as u64)
        .map(|i| {
            let w = V::S(format!("w{}", (i * 2654435761) % 4096));
            (i, vec![w, if i % 5 == 0 { V::N } else { V::I(i as i32) }, V::D((i as f64).to_bits())])
        })
        .collect();
    feed(chopper::write::factory::new_header_sink(Some(&p.to_string_lossy()), None), &head, &rows)?;
    std::fs::read(&p).map_err(|e| e.to_string())
}

fn cfg() -> Result<CSVInputConfig, String> {
    CSVInputConfig::new(
        Some(","),
        YesNoAuto::Yes,
        TimestampConfig::new(
            TimestampColConfig::Auto,
            TimestampFmtConfig::Auto,
            ChopperTz::new_always_fails(),
        ),
    )
    .map_err(|e| err_text(&e))
}

#[derive(Clone, Copy, Debug, Hash, PartialEq)]
enum How {
    Name,
    Format,
    FormatNoDot,
    ContentOnly,
    ContentWithName,
    DataNameOnly,
}

fn open(dir: &std::path::Path, bytes: &[u8], how: How, kind: &str, suffix: &str) -> CliResult<Box<dyn Source>> {
    let cf = cfg().map_err(Error::from)?;
    let mut f = InputFactory::new(cf.clone(), None, None)?;
    let (name, format) = match how {
        How::Name => (format!("x.{}{}", kind, suffix), InputFormat::Auto),
        How::Format => ("plain".to_string(), InputFormat::Extension(format!(".{}{}", kind, suffix))),
        How::FormatNoDot => ("x.other".to_string(), InputFormat::Extension(format!("{}{}", kind, suffix))),
        How::ContentWithName => ("plain".to_string(), InputFormat::Auto),
        How::DataNameOnly => (format!("x{}", suffix), InputFormat::Auto),
        How::ContentOnly => {
            let r: Box<dyn Read> = Box::new(Cursor::new(bytes.to_vec()));
            let p = ChopperBufPreviewer::new(r).map_err(Error::from)?;
            let mut s = SingleFileInputFactory::new(
                SeekableTransportFactory::new(create_default_seekable_transports()),
                PreviewerTransportFactory::new(create_default_streaming_transports()),
                create_default_source_factories(Some(cf)),
            );
            return s.create_source_from_previewer(p, None, &InputFormat::Auto);
        }
    };
    let path = dir.join(name);
    std::fs::write(&path, bytes).map_err(Error::from)?;
    f.create_source_from_input(&Input { input: InputType::Path(path.to_string_lossy().to_string()), format })
}

fn brief(r: &Result<Read_, String>) -> String {
    match r {
        Ok(r) => format!(
            "columns {:?}, {} rows, the last {:?}, error {:?}",
            r.header.names,
            r.rows.len(),
            r.rows.last(),
            r.err
        ),
        Err(e) => format!("error {}", e),
    }
}
type Read_ = mc::kit::Read;

fn main() {
    mc::main("C14", Level::ModelChecking, |c| {
        let t = c.thorough;
        c.assume("compressed inputs come from writers built from the format specifications, from flate2 and bzip2, and from the zstd, gzip and zip programs");
        c.scenario(
            "bytes",
            "34 ways to write gzip, lz4 frames, lz4-java blocks, lzf and zstd x 6 kinds of data (one made of signatures, one that compresses in parts only) x 25 sizes from 0 \
             to 300001 around every block and buffer length (thorough: and every size to 700) x read in steps of 1, \
             100, 8192 or 100000 bytes: recognised by signature, decompressed bytes equal the original",
            0,
            move |ctx| {
                let sizes = [
                    0usize, 1, 2, 3, 11, 12, 13, 20, 63, 64, 65, 255, 256, 999, 4097, 8191, 8192, 8193, 16385, 65535, 65536,
                    65537, 131071, 131073, 300001,
                ];
                let ps = packers();
                let p = ctx.pick(&ps);
                let kind = ctx.choose(6);
                let i = ctx.choose(sizes.len() + if t { 700 } else { 0 });
                let n = if i < sizes.len() { sizes[i] } else { i - sizes.len() };
                let step = *ctx.pick(&[8192usize, 1, 100, 100000]);
                if step == 1 && n > 20000 {
                    return Ok(());
                }
                let d = data(kind, n);
                let z = (p.pack)(&d);
                let what = || format!("{}: {} bytes of kind {} read in steps of {}", p.name, n, kind, step);
                ctx.note(what);
                ctx.step(&(p.name, kind, n, step));
                let pv = previewer(&z)?;
                let seen = is_compressed_using_previewer(&pv);
                let by_name = is_compressed_using_format(&format!("a.b{}", p.suffix));
                let f = match by_name {
                    Some((f, rest)) => {
                        ensure!(rest == "a.b", "suffix {}: name left is {:?}", p.suffix, rest);
                        f
                    }
                    None => return Err(format!("suffix {} not recognised", p.suffix)),
                };
                if !z.is_empty() {
                    ensure!(
                        seen.as_ref().map(std::mem::discriminant) == Some(std::mem::discriminant(&f)),
                        "{}: signature not recognised",
                        what()
                    );
                }
                let r = decompress(f, pv).map_err(|e| format!("{}: {}", what(), err_text(&e)))?;
                let got = read_by(r, step).map_err(|e| format!("{}: {}", what(), e))?;
                ctx.outcome(&got);
                same(&got, &d).map_err(|e| format!("{}: {}", what(), e))
            },
        );
        c.scenario(
            "rows",
            "CSV of 10 sizes and DC of 8 x the 34 writers and zip (stored, deflate, bzip2) x recognised by name \
             (x.csv.gz), by suffix and content (x.gz), by requested format with and without dot, by content alone \
             (no name, or a name that says nothing): same header, rows and result as uncompressed",
            0,
            move |ctx| {
                let ps = packers();
                let i = ctx.choose(ps.len() + 3);
                let dc = ctx.flag();
                let d = if dc {
                    let n = *ctx.pick(&[0usize, 1, 2, 300, 5000, 9000, 1000, 4000]);
                    dc_bytes(n, ctx.dir())?
                } else {
                    csv_text(*ctx.pick(&[0usize, 1, 60, 1000, 8192, 8200, 16384, 65536, 131072, 300000]))
                };
                let how = *ctx.pick(&[
                    How::Name,
                    How::Format,
                    How::FormatNoDot,
                    How::ContentOnly,
                    How::ContentWithName,
                    How::DataNameOnly,
                ]);
                let kind = if dc { "dc" } else { "csv" };
                let dir = ctx.dir().to_path_buf();
                let plain = open_and_read(open(&dir, &d, How::Name, kind, ""));
                let (name, z, suffix, how2) = if i < ps.len() {
                    (ps[i].name, (ps[i].pack)(&d), ps[i].suffix, how)
                } else {
                    let m = [0, 8, 12][i - ps.len()];
                    if how == How::ContentOnly {
                        return Ok(()); // zip needs a file
                    }
                    let inner = match how {
                        How::Name => format!("in.{}", kind),
                        _ => "inner".to_string(),
                    };
                    let z = Zip::of(Member::new(&inner, &d, m)).bytes();
                    // the name inside the archive counts, and a requested format is that of the content
                    (["zip-stored", "zip-deflate", "zip-bzip2"][i - ps.len()], z, if how == How::Format || how == How::FormatNoDot { "" } else { ".zip" }, how)
                };
                if z.is_empty() && (how == How::ContentOnly || how == How::ContentWithName) {
                    return Ok(());
                }
                let got = open_and_read(open(&dir, &z, how2, kind, suffix));
                ctx.note(|| format!("{} {} bytes of {} by {:?}: {}", name, d.len(), kind, how, brief(&got)));
                ctx.step(&(name, d.len(), dc, how));
                ctx.outcome(&got);
                ensure!(
                    plain.as_ref().map_or(false, |p| p.err.is_none()),
                    "uncompressed {} of {} bytes: {}",
                    kind,
                    d.len(),
                    brief(&plain)
                );
                ensure!(
                    got == plain,
                    "{} of {} bytes of {} recognised by {:?}: {}; uncompressed: {}",
                    name,
                    d.len(),
                    kind,
                    how,
                    brief(&got),
                    brief(&plain)
                );
                Ok(())
            },
        );
        c.scenario(
            "frames",
            "every sequence of 1 to 4 (thorough 6) frames of zstd and lz4 made of data (0, 1, 9, 3000 and 140000 bytes), of one to be skipped (empty; with the \
             signatures of other frames in it; 70000 bytes long) and data without a checksum, the first one any of them, read in 3 step sizes: the data of all frames in \
             order; cut within the last frame: an error",
            0,
            move |ctx| {
                let lz4 = ctx.flag();
                let n = 1 + ctx.choose(if t { 6 } else { 4 });
                let mut z = Vec::new();
                let mut d = Vec::new();
                let mut any = false;
                let mut ends = Vec::new();
                let mut what = String::new();
                for i in 0..n {
                    let k = ctx.choose(8);
                    what += &format!(" {}", k);
                    ends.push(z.len());
                    match k {
                        0..=4 => {
                            let mut x = data(0, [0, 1, 9, 3000, 140_000][k]);
                            x.iter_mut().for_each(|b| *b ^= (i as u8) << 1);
                            z.extend(if lz4 { lz4_frame(&x, LZ) } else { zst(&x, ZS) });
                            d.extend(x);
                            any = true;
                        }
                        5 => z.extend(zst_skip(0x50 + i as u8, b"")),
                        6 => z.extend(zst_skip(0x5f, b"\x28\xb5\x2f\xfd\x24\x00\x04\x22\x4d\x18\x60\x40\x50\x2a\x4d\x18\x05")),
                        _ => {
                            z.extend(zst_skip(0x57, &data(2, 70_000)));
                        }
                    }
                    if z.len() > 150_000 && i + 1 < n && !t {
                        return Ok(());
                    }
                }
                if !any {
                    return Ok(());
                }
                let step = *ctx.pick(&[8192usize, 100, 1_000_000]);
                let cut = ctx.flag();
                if cut {
                    let last = *ends.last().unwrap();
                    z.truncate(last + 1 + (z.len() - last - 1) / 2);
                }
                let what = format!("{} frames{} in steps of {}{}", if lz4 { "lz4" } else { "zstd" }, what, step, if cut { " cut" } else { "" });
                ctx.note(|| what.clone());
                ctx.step(&what);
                let f = if lz4 { DecompressionFormat::LZ4 } else { DecompressionFormat::ZST };
                let got = match decompress(f, previewer(&z)?) {
                    Ok(r) => read_by(r, step),
                    Err(e) => Err(err_text(&e)),
                };
                ctx.outcome(&got.as_ref().map(|g| g.len()));
                if cut {
                    ensure!(got.is_err(), "{}: {} bytes read without an error", what, got.unwrap().len());
                    return Ok(());
                }
                let got = got.map_err(|e| format!("{}: {}", what, e))?;
                same(&got, &d).map_err(|e| format!("{}: {}", what, e))
            },
        );
        c.scenario(
            "frame-headers",
            "zstd frames of 0, 1, 200 and 300 bytes with every header there is (content size of 0, 1, 2, 4 or 8 bytes, window or not, checksum or not), 3 kinds of block, an empty one at the end or not; lz4 frames of 0, 1 and 300 \
             bytes with every header (blocks linked or not, their checksums, content size, checksum); gzip members of 0, 1 and 300 bytes with every \
             set of header fields: alone, before, after and between other frames",
            0,
            |ctx| {
                let what = ctx.choose(3);
                let d = vec![b'u'; *ctx.pick(&[0usize, 1, 200, 300])];
                let (f, z, plain): (_, Vec<u8>, fn(&[u8]) -> Vec<u8>) = match what {
                    0 => {
                        let size = *ctx.pick(&[0usize, 1, 2, 4, 8]);
                        let window = ctx.flag();
                        let kind = ctx.choose(3);
                        match zst_frame_as(&d, size, window, kind, ctx.flag(), ctx.flag()) {
                            Some(z) => (DecompressionFormat::ZST, z, |d| zst(d, ZS)),
                            None => return Ok(()),
                        }
                    }
                    1 => {
                        let mut flag = || ctx.flag();
                        let c = Lz4 { linked: flag(), block_sum: flag(), size: flag(), sum: flag(), raw: flag(), ..LZ };
                        (DecompressionFormat::LZ4, lz4_frame(&d, c), |d| lz4_frame(d, LZ))
                    }
                    _ => {
                        let level = *ctx.pick(&[0u32, 6]);
                        (DecompressionFormat::GZ, gzip_member(&d, level, ctx.choose(32) as u8), |d| gzip(d, 0, 6, 0))
                    }
                };
                let at = ctx.choose(4);
                let (a, b) = (b"first,1\n", b"last,2\n");
                let mut bytes = Vec::new();
                let mut want = Vec::new();
                if at & 1 != 0 {
                    bytes.extend(plain(a));
                    want.extend(a);
                }
                bytes.extend(&z);
                want.extend(&d);
                if at & 2 != 0 {
                    bytes.extend(plain(b));
                    want.extend(b);
                }
                let text = || format!("{} frame {:02x?}.. of {} bytes, position {}", ["zstd", "lz4", "gzip"][what], &z[..z.len().min(20)], d.len(), at);
                ctx.note(text);
                ctx.step(&(what, &z, at));
                let step = *ctx.pick(&[8192usize, 1]);
                let r = decompress(f, previewer(&bytes)?).map_err(|e| format!("{}: {}", text(), err_text(&e)))?;
                let got = read_by(r, step).map_err(|e| format!("{}: {}", text(), e))?;
                ctx.outcome(&got);
                same(&got, &want).map_err(|e| format!("{}: {}", text(), e))
            },
        );
        c.scenario(
            "real-files",
            "400000 (60000) bytes of text compressed by the zstd (levels 1, 3, 12, 19), gzip and zip programs, read in \
             4 step sizes or as rows by name",
            0,
            |ctx| {
                const F: &[u8] = include_bytes!("../../fixtures/f.csv");
                let files: [(&str, &[u8], &[u8]); 7] = [
                    ("f.csv.zst", include_bytes!("../../fixtures/f1.zst"), F),
                    ("f3.csv.zst", include_bytes!("../../fixtures/f3.zst"), F),
                    ("f19.csv.zst", include_bytes!("../../fixtures/f19.zst"), F),
                    ("g.csv.zst", include_bytes!("../../fixtures/g.zst"), &F[..60000]),
                    ("f.csv.gz", include_bytes!("../../fixtures/f.gz"), F),
                    ("f.zip", include_bytes!("../../fixtures/f.zip"), F),
                    ("stream.zip", include_bytes!("../../fixtures/stream.zip"), &F[..60000]),
                ];
                let (name, z, d) = *ctx.pick(&files);
                let step = *ctx.pick(&[8192usize, 100, 100000, 1000000]);
                ctx.note(|| format!("{} steps {}", name, step));
                ctx.step(&(name, step));
                if let Some((f, _)) = is_compressed_using_format(name) {
                    if !name.ends_with("zip") {
                        let r = decompress(f, previewer(z)?).map_err(|e| format!("{}: {}", name, err_text(&e)))?;
                        let got = read_by(r, step).map_err(|e| format!("{}: {}", name, e))?;
                        same(&got, d).map_err(|e| format!("{}: {}", name, e))?;
                    }
                }
                let dir = ctx.dir().to_path_buf();
                let cf = cfg()?;
                let read = |n: &str, b: &[u8]| -> Result<Read_, String> {
                    let p = dir.join(n);
                    std::fs::write(&p, b).map_err(|e| e.to_string())?;
                    let mut f = InputFactory::new(cf.clone(), None, None).map_err(|e| err_text(&e))?;
                    open_and_read(f.create_source_from_path(&p.to_string_lossy()))
                };
                let plain = read("p.csv", d);
                let got = read(name, z);
                ctx.outcome(&got);
                ensure!(plain.is_ok() && got == plain, "{}: {}; uncompressed: {}", name, brief(&got), brief(&plain));
                Ok(())
            },
        );
        c.scenario(
            "large",
            "the 34 writers x 5 kinds of data x 1 MB and 4 MB less one, exact and more one, and 9000001 bytes (thorough: and 17 MB) \
             read in steps of 65536 bytes: decompressed bytes equal the original",
            0,
            move |ctx| {
                const M: usize = 1 << 20;
                let mut sizes = vec![M - 1, M, M + 1, 4 * M - 1, 4 * M, 4 * M + 1, 9_000_001];
                if t {
                    sizes.push(17_000_000);
                }
                let ps = packers();
                let n = *ctx.pick(&sizes);
                let kind = *ctx.pick(&[0usize, 1, 2, 4, 5]);
                let p = ctx.pick(&ps);
                let d = data(kind, n);
                let z = (p.pack)(&d);
                let what = || format!("{}: {} bytes of kind {}", p.name, n, kind);
                ctx.note(what);
                ctx.step(&(p.name, kind, n));
                let (f, _) = is_compressed_using_format(&format!("a.b{}", p.suffix)).ok_or("suffix not recognised")?;
                let r = decompress(f, previewer(&z)?).map_err(|e| format!("{}: {}", what(), err_text(&e)))?;
                let got = read_by(r, 65536).map_err(|e| format!("{}: {}", what(), e))?;
                ctx.outcome(&got.len());
                same(&got, &d).map_err(|e| format!("{}: {}", what(), e))
            },
        );
        c.scenario(
            "many-empty-parts",
            "0, 1, 100 and 20000 (thorough 200000) empty frames, skippable frames or members before, between and after ones with data, for zstd, lz4 and gzip, read \
             with a stack of 256 KB: decompressed bytes equal the original",
            0,
            move |ctx| {
                let skip = |n: u8| [&[0x50 + n, 0x2a, 0x4d, 0x18, n, 0, 0, 0][..], &vec![7u8; n as usize]].concat();
                let (suffix, parts): (&str, Vec<Vec<u8>>) = match ctx.choose(3) {
                    0 => (".zst", vec![b"\x28\xb5\x2f\xfd\x24\0\x01\0\0\x99\xe9\xd8\x51".to_vec(), b"\x28\xb5\x2f\xfd\x20\0\x01\0\0".to_vec(), skip(0), skip(5)]),
                    1 => (".lz4", vec![b"\x04\x22\x4d\x18\x60\x40\x82\0\0\0\0".to_vec(), skip(0), skip(3)]),
                    _ => (".gz", vec![gzip(b"", 0, 6, 0), gzip(b"", 0, 0, 0)]),
                };
                let part = ctx.choose(parts.len());
                let n = *ctx.pick(&[0usize, 1, 100, if t { 200_000 } else { 20_000 }]);
                let place = ctx.choose(4);
                let name = match suffix { ".zst" => "zstd", ".lz4" => "lz4", _ => "gzip" };
                let ps = packers();
                let p = ps.iter().find(|p| p.name == name).ok_or("ENGINE: no such packer")?;
                let one = data(0, 1000);
                let z = (p.pack)(&one);
                let empty = parts[part].repeat(n);
                let (b, want) = match place {
                    0 => ([&empty[..], &z].concat(), one.clone()),
                    1 => ([&z[..], &empty, &z].concat(), one.repeat(2)),
                    2 => ([&z[..], &empty].concat(), one.clone()),
                    _ => (empty.clone(), vec![]),
                };
                ctx.step(&(suffix, part, n, place));
                let what = format!("{} empty parts of kind {} in {} at place {}", n, part, suffix, place);
                ctx.note(|| what.clone());
                // lz4 without any frame of data is left open
                if b.is_empty() || suffix == ".lz4" && part > 0 && place == 3 {
                    return Ok(());
                }
                let at = what.clone();
                let got = std::thread::Builder::new()
                    .stack_size(256 << 10)
                    .spawn(move || -> Result<Vec<u8>, String> {
                        let (f, _) = is_compressed_using_format(&format!("a.b{}", suffix)).ok_or("suffix not recognised")?;
                        let r = decompress(f, previewer(&b)?).map_err(|e| format!("{}: {}", at, err_text(&e)))?;
                        read_by(r, 4096).map_err(|e| format!("{}: {}", at, e))
                    })
                    .expect("ENGINE: thread")
                    .join()
                    .unwrap_or_else(|_| Err(format!("{}: panic", what)))?;
                ctx.outcome(&got.len());
                same(&got, &want).map_err(|e| format!("{}: {}", what, e))
            },
        );
        c.scenario(
            "programs",
            "the zstd program (levels 1 to 19 and fast, with and without checksum, long distance matching, several threads, small or \
             announced sizes), gzip (levels 1, 6, 9), zip (levels 0, 1, 9, bzip2) x 6 kinds of data and CSV x 13 sizes from 0 to 1500000: \
             decompressed bytes equal the original",
            0,
            move |ctx| {
                let cmds: [&[&str]; 22] = [
                    &["zstd", "-1"],
                    &["zstd", "-2", "--no-check"],
                    &["zstd", "-4"],
                    &["zstd", "-5"],
                    &["zstd", "-6"],
                    &["zstd", "-7", "-T3", "-B1MiB"],
                    &["zstd", "-9", "--long=22"],
                    &["zstd", "-10"],
                    &["zstd", "-13"],
                    &["zstd", "-15", "--rsyncable", "-T2"],
                    &["zstd", "-16"],
                    &["zstd", "-18"],
                    &["zstd", "-19"],
                    &["zstd", "--fast"],
                    &["zstd", "--fast=9", "--no-compress-literals"],
                    &["gzip", "-1"],
                    &["gzip", "-6"],
                    &["gzip", "-9"],
                    &["zip", "-0"],
                    &["zip", "-1"],
                    &["zip", "-9"],
                    &["zip", "-Z", "bzip2"],
                ];
                let sizes = [0usize, 1, 5, 30, 255, 256, 1000, 16000, 65537, 131072, 131073, 400_000, 1_500_000];
                let cmd = *ctx.pick(&cmds);
                let n = *ctx.pick(&sizes);
                let kind = ctx.choose(7);
                let d = if kind == 6 { csv_text(n) } else { data(kind, n) };
                let what = || format!("{} of {} bytes of kind {}", cmd.join(" "), d.len(), kind);
                ctx.note(what);
                ctx.step(&(cmd, n, kind));
                let dir = ctx.dir().to_path_buf();
                let (from, zip) = (dir.join("from"), dir.join("to.zip"));
                std::fs::write(&from, &d).map_err(|e| format!("ENGINE: {}", e))?;
                let _ = std::fs::remove_file(&zip);
                let mut p = std::process::Command::new(cmd[0]);
                p.args(&cmd[1..]);
                match cmd[0] {
                    "zip" => p.args(["-j", "-q"]).arg(&zip).arg(&from),
                    _ => p.arg("-c").arg(&from),
                };
                let o = p.output().map_err(|e| format!("ENGINE: {}: {}", cmd[0], e))?;
                if !o.status.success() {
                    return Err(format!("ENGINE: {}: {}", what(), String::from_utf8_lossy(&o.stderr)));
                }
                let r = if cmd[0] == "zip" {
                    let f = std::fs::File::open(&zip).map_err(|e| format!("ENGINE: {}", e))?;
                    zip::new_reader_for_single_file_zip_archive(f).map_err(|e| format!("{}: {}", what(), e))?.0
                } else {
                    let pv = previewer(&o.stdout)?;
                    let f = is_compressed_using_previewer(&pv).ok_or_else(|| format!("{}: not recognised", what()))?;
                    decompress(f, pv).map_err(|e| format!("{}: {}", what(), err_text(&e)))?
                };
                let got = read_by(r, 30000).map_err(|e| format!("{}: {}", what(), e))?;
                ctx.outcome(&got.len());
                same(&got, &d).map_err(|e| format!("{}: {}", what(), e))
            },
        );
    });
}
