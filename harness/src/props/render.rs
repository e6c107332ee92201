//! C18, C19: the image decoder and the command line
use super::stream::alter;
use crate::cardgen::*;
use crate::ctx::{Ctx, Res, WithInput};
use crate::gen::*;
use crate::mon::*;
use crate::obs::*;
use crate::rng::{hash_bytes, Rng};
use crate::tile::*;
use crate::{bail, ensure, Prop};
use image::metadata::Orientation;
use image::{ColorType, ImageDecoder, ImageReader};
use std::io::{BufRead, BufReader, Cursor, Seek};
use std::process::{Command, Stdio};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C18",
            level: "exploration",
            cases: [80_000, 4_800_000],
            run: c18,
            rule: "a generated file decoded through the image crate, judged on size, colour type, orientation and every sample, or on its refusal; non trivial: an image with several samples, distinct by file",
            floors: &[("samples", 1_000_000), ("L8", 300), ("L16", 300), ("Rgb8", 100), ("Rgb16", 100), ("Rgb32F", 1_000), ("scaled", 1_000), ("nearly cancelled", 500), ("tile-compressed", 500), ("tile-compressed RGB", 300), ("sizes above 32 bits", 200), ("refused after a fault", 500), ("after other HDUs", 1_000), ("refused shapes", 300), ("refused cuts", 300), ("saturated samples", 1_000), ("opened by path", 500), ("interrupted or short reads", 1_000)],
            assumptions: &["tile-compressed images are compressed row by row, the convention's default"],
        },
        Prop {
            id: "C19",
            level: "exploration",
            cases: [12_000, 720_000],
            run: c19,
            rule: "one execution of `fits struct` on a generated, cut, altered or missing file, its listing compared with the file; non trivial: several HDUs, distinct by file",
            floors: &[("files above 256 HDUs", 1), ("HDUs listed", 4_000), ("PRIMARY", 1_000), ("IMAGE", 500), ("BINTABLE", 500), ("ASCIITABLE", 500), ("malformed files", 300), ("missing files", 50)],
            assumptions: &["the program is built from the tree with the versions of its dependencies at hand"],
        },
    ]
}

// ---------------------------------------------------------------- C18

struct Picture {
    w: u64,
    h: u64,
    color: ColorType,
    /// Bytes per sample, samples with the error allowed
    samples: Vec<(f64, f64)>,
}

/// Numbers that few bits hold, so that no rounding is at stake
fn scale_of(rng: &mut Rng) -> (f64, f64) {
    match rng.below(6) {
        0 => (1.0, 32768.0),
        1 => (1.0, -128.0),
        2 => (rng.range(-64, 64) as f64 / 16.0, rng.range(-70_000, 70_000) as f64 / 4.0),
        3 => (rng.range(1, 1000) as f64, 0.0),
        4 => (1.0, rng.range(-300, 300) as f64),
        _ => (rng.range(1, 64) as f64 / 64.0, rng.range(-100, 100) as f64),
    }
}
fn number(rng: &mut Rng, x: f64) -> String {
    if x.fract() == 0.0 && rng.bool() {
        format!("{}", x as i64)
    } else if rng.bool() {
        format!("{x:?}")
    } else {
        let s = format!("{x:E}");
        if rng.bool() {
            s
        } else {
            s.replace('E', "D")
        }
    }
}

/// Value of a sample: exact for integers and floats kept as such
fn sample(bitpix: i64, v: f64, s: Option<(f64, f64)>) -> (f64, f64) {
    let (bs, bz) = s.unwrap_or((1.0, 0.0));
    let sat = |max: f64| {
        let x = v * bs + bz;
        // ties are not specified
        let tie = if x.fract().abs() == 0.5 && x > 0.0 && x < max { 0.5 } else { 0.0 };
        if tie > 0.0 {
            (x, 0.5)
        } else {
            (x.round().clamp(0.0, max), 0.0)
        }
    };
    // computed in double precision, given in single
    let norm = |max: f64| {
        let x = (v * bs + bz) / max;
        (x, f64::powi(2.0, -48) * ((v * bs).abs() + bz.abs()) / max + f64::powi(2.0, -22) * x.abs())
    };
    match bitpix {
        8 => sat(255.0),
        16 => sat(65535.0),
        32 => norm(i32::MAX as f64),
        64 => norm(i64::MAX as f64),
        -32 => (v, 0.0),
        _ => (v as f32 as f64, 0.0),
    }
}
fn as_number(bitpix: i64, bits: u64) -> f64 {
    match bitpix {
        8 => bits as f64,
        16 => bits as u16 as i16 as f64,
        32 => bits as u32 as i32 as f64,
        64 => bits as i64 as f64,
        -32 => f32::from_bits(bits as u32) as f64,
        _ => f64::from_bits(bits),
    }
}
fn color(bitpix: i64, rgb: bool) -> ColorType {
    match (bitpix, rgb) {
        (8, false) => ColorType::L8,
        (8, true) => ColorType::Rgb8,
        (16, false) => ColorType::L16,
        (16, true) => ColorType::Rgb16,
        _ => ColorType::Rgb32F,
    }
}
fn picture(bitpix: i64, axes: &[u64], vals: &[(f64, f64)]) -> Picture {
    let rgb = axes.get(2) == Some(&3);
    let n = (axes[0] * axes[1]) as usize;
    let color = color(bitpix, rgb);
    let mut samples = vec![];
    for i in 0..n {
        if rgb {
            for c in 0..3 {
                samples.push(vals[c * n + i]);
            }
        } else if color == ColorType::Rgb32F {
            samples.extend([vals[i]; 3]);
        } else {
            samples.push(vals[i]);
        }
    }
    Picture { w: axes[0], h: axes[1], color, samples }
}

fn tile_scale_noise(cards: &mut Vec<Buf>) {
    cards.retain(|c| !c.starts_with(b"BSCALE  ") && !c.starts_with(b"BZERO   "));
}

fn c18(ctx: &mut Ctx) -> Res {
    let rng = &mut ctx.rng.clone();
    let mut hdus = vec![];
    let mut good = true;
    let tile = rng.one_in(4);
    // what comes before: HDUs without image
    let primary = !tile && rng.bool();
    if !primary {
        let axes = if rng.bool() { vec![] } else { vec![rng.below(20), 0, rng.below(9)] };
        let bitpix = *rng.pick(&BITPIX);
        hdus.push(image_with(rng, Kind::Primary, bitpix, axes));
        for _ in 0..rng.us(3) {
            let h = match rng.below(3) {
                0 => ascii(rng, 900),
                1 => bintable(rng, 900, Vla::Maybe),
                _ => image_with(rng, Kind::Image, 16, vec![7, 0]),
            };
            hdus.push(h);
        }
    }
    let mut scale = if rng.bool() { Some(scale_of(rng)) } else { None };
    let (mut h, pic) = if tile {
        let float = rng.bool();
        let odd = *rng.pick(&[2, 4, 7]);
        let planes = *rng.pick(&[None, None, None, Some(3), Some(3), Some(1), Some(odd)]);
        good = planes != Some(odd);
        let npix = if planes.is_some() { 300 } else { 900 };
        let mut h = tile_image(rng, &Want { float, npix, row_tiles: true, dims2: true, planes, many: false }, &mut [0; 3]);
        let Spec::Tile(t, _) = &h.spec else { unreachable!() };
        let vals: Vec<(f64, f64)> = if float {
            t.float_pixels(super::tiles::rand_seq())
        } else {
            t.int_pixels().iter().map(|&b| sample(t.zbitpix, as_number(t.zbitpix, b), scale)).collect()
        };
        let p = if good { picture(t.zbitpix, &t.naxis, &vals) } else { Picture { w: 0, h: 0, color: ColorType::L8, samples: vec![] } };
        tile_scale_noise(&mut h.cards);
        (h, p)
    } else {
        let kind = if primary { Kind::Primary } else { Kind::Image };
        let bitpix = *rng.pick(&BITPIX);
        let (w, hh) = match rng.below(6) {
            0 => (1, 1 + rng.below(300)),
            1 => (1 + rng.below(300), 1),
            2 => (1 + rng.below(90), 1 + rng.below(90)),
            3 if rng.one_in(60) => *rng.pick(&[(66_000, 1), (2, 33_000), (300, 300), (256, 256), (1, 65_537)]),
            _ => (1 + rng.below(25), 1 + rng.below(25)),
        };
        let axes = match rng.below(8) {
            0 | 1 => vec![w, hh, 3],
            2 => vec![w, hh, 1],
            3 if rng.bool() => {
                good = false;
                let odd = *rng.pick(&[2, 4, 5, 30]);
                match rng.below(4) {
                    0 => vec![w * hh],
                    1 => vec![w, hh, odd],
                    2 => vec![w, hh, 1, odd],
                    _ => vec![w, hh, 3, odd],
                }
            }
            _ => vec![w, hh],
        };
        let mut h = image_with(rng, kind, bitpix, axes.clone());
        tile_scale_noise(&mut h.cards);
        if rng.bool() {
            // values around those that saturate
            let near = rng.below(400) as u8;
            for (i, b) in h.data.iter_mut().enumerate() {
                if i as u64 % (bitpix.unsigned_abs() / 8) + 1 != bitpix.unsigned_abs() / 8 && bitpix > 0 {
                    *b = 0;
                } else if bitpix > 0 {
                    *b = b.wrapping_add(near);
                }
            }
        }
        if bitpix >= 32 && rng.one_in(4) {
            // values that BZERO nearly cancels
            let base = if bitpix == 32 { rng.range(1 << 27, 1 << 30) } else { rng.range(1 << 30, 1 << 50) };
            let n = bitpix as usize / 8;
            for px in h.data.chunks_mut(n) {
                let v = base + rng.range(-1000, 1000);
                px.copy_from_slice(&v.to_be_bytes()[8 - n..]);
            }
            scale = Some(if rng.bool() { (1.0, -base as f64) } else { (-1.0, base as f64) });
            ctx.count("nearly cancelled", 1);
        }
        if good && rng.one_in(50) {
            // announced larger than the image crate can tell, what is in the file would do for a smaller one
            good = false;
            let axis = if rng.bool() { "NAXIS1" } else { "NAXIS2" };
            let n = if axis == "NAXIS1" { w } else { hh };
            for c in &mut h.cards {
                if c.starts_with(format!("{axis:<8}=").as_bytes()) {
                    *c = card_int(axis, (1 << 32) + n as i128);
                }
            }
            ctx.count("sizes above 32 bits", 1);
        }
        let vals: Vec<(f64, f64)> = h.pixels().iter().map(|&b| sample(bitpix, as_number(bitpix, b), scale)).collect();
        let p = if good { picture(bitpix, &axes, &vals) } else { Picture { w: 0, h: 0, color: ColorType::L8, samples: vec![] } };
        (h, p)
    };
    if let Some((bs, bz)) = scale {
        if bs != 1.0 || rng.bool() {
            let s = number(rng, bs);
            h.cards.push(card_raw("BSCALE", &s));
        }
        if bz != 0.0 || rng.bool() {
            let s = number(rng, bz);
            h.cards.push(card_raw("BZERO", &s));
        }
    }
    let at = hdus.len();
    hdus.push(h);
    for _ in 0..rng.us(2) {
        let e = extension(rng, 500);
        hdus.push(e);
    }
    let mut f = File::new(hdus);
    let h = &f.hdus[at];
    let mut cut = None;
    if good && rng.one_in(8) {
        // within the image
        let need = if let Spec::Tile(_, b) = &h.spec { (b.nrows * b.rowlen as u64) as usize } else { h.data.len() };
        cut = Some(h.data_off as usize + rng.us(need));
    } else if rng.one_in(5) && at + 1 == f.hdus.len() {
        f.cut_padding(rng);
    }
    let bytes = f.bytes[..cut.unwrap_or(f.bytes.len())].to_vec();
    c18_file(ctx, rng, &f, at, &bytes, good, cut.is_some(), scale.is_some(), &pic).input(&bytes)
}

/// Size, colour type, orientation, samples; or the refusal
type Decoded = Result<(u32, u32, ColorType, Orientation, Vec<u8>), String>;

fn decode_from<R: BufRead + Seek>(r: ImageReader<R>) -> Decoded {
    let mut d = r.into_decoder().map_err(|e| e.to_string())?;
    let (w, h) = d.dimensions();
    let c = d.color_type();
    let o = d.orientation().map_err(|e| e.to_string())?;
    let mut buf = vec![0xa5; d.total_bytes() as usize];
    d.read_image(&mut buf).map_err(|e| e.to_string())?;
    Ok((w, h, c, o, buf))
}

#[allow(clippy::too_many_arguments)]
fn c18_file(ctx: &mut Ctx, rng: &mut Rng, f: &File, at: usize, bytes: &[u8], good: bool, cut: bool, scaled: bool, pic: &Picture) -> Res {
    fitsrs::image_integration::register_fits_decoding_hook();
    let what = || format!("HDU {at} of {} ({} bytes)", f.describe(), bytes.len());
    let guessed = |e: std::io::Error| format!("{e}");
    let mut faulty = false;
    let got = match rng.below(4) {
        0 => {
            let name = *rng.pick(&["c18.fits", "c18.fit", "c18.fts", "c18.fz", "c18.FITS"]);
            let path = ctx.dir.join(name);
            std::fs::write(&path, bytes).unwrap();
            ctx.count("opened by path", 1);
            let r = ImageReader::open(&path).map_err(guessed).and_then(decode_from);
            let _ = std::fs::remove_file(&path);
            r
        }
        1 => {
            let mut plan = Plan::random(rng);
            if rng.one_in(3) {
                // the reader fails at some point
                let k = match rng.below(3) {
                    0 => rng.below(20),
                    1 => rng.below(200),
                    _ => rng.below(1 + bytes.len() as u64),
                };
                plan.fault = Some((k, *rng.pick(&[Fault::Once, Fault::Sticky, Fault::Eof])));
                faulty = true;
            }
            let r = MonReader::mem(bytes, plan);
            let log = r.log.clone();
            let cap = 1 + rng.us(5000);
            // guessing the format needs one read of a whole signature; the plan starts after it
            let d = ImageReader::new(BufReader::with_capacity(cap.max(64), r));
            let r = match d.with_guessed_format() {
                Ok(d) => {
                    let r = decode_from(d);
                    ctx.count("interrupted or short reads", (log.borrow().short_reads + log.borrow().interrupts > 0) as u64);
                    r
                }
                Err(e) => Err(guessed(e)),
            };
            // the image crate may not recognize a format from short reads: not the library's doing
            match &r {
                Err(e) if e.contains("format") => return Ok(()),
                _ => r,
            }
        }
        _ => ImageReader::new(Cursor::new(bytes)).with_guessed_format().map_err(guessed).and_then(decode_from),
    };
    if faulty && got.is_err() {
        // what is decoded in spite of it has to be right
        ctx.count("refused after a fault", 1);
        return Ok(());
    }
    if !good {
        ctx.count("refused shapes", 1);
        ctx.seen(hash_bytes(bytes), true);
        ensure!(got.is_err(), "shape", "an image of another shape is not refused: {}", what());
        return Ok(());
    }
    if cut {
        ctx.count("refused cuts", 1);
        ctx.seen(hash_bytes(bytes), true);
        if let Ok(g) = got {
            bail!("cut", "a truncated image of {}x{} is decoded: {}", g.0, g.1, what());
        }
        return Ok(());
    }
    let (w, h, c, o, buf) = match got {
        Ok(g) => g,
        Err(e) => bail!("refused", "{e}: {}", what()),
    };
    ensure!(w as u64 == pic.w && h as u64 == pic.h, "size", "{w}x{h} instead of {}x{}: {}", pic.w, pic.h, what());
    ensure!(c == pic.color, "colour", "{c:?} instead of {:?}: {}", pic.color, what());
    ensure!(o == Orientation::FlipVertical, "orientation", "{o:?}: {}", what());
    let n = match c {
        ColorType::L8 | ColorType::Rgb8 => 1,
        ColorType::L16 | ColorType::Rgb16 => 2,
        _ => 4,
    };
    ensure!(buf.len() == n * pic.samples.len(), "size", "{} bytes for {} samples: {}", buf.len(), pic.samples.len(), what());
    let mut saturated = 0;
    for (i, (b, (want, tol))) in buf.chunks(n).zip(&pic.samples).enumerate() {
        let g = match n {
            1 => b[0] as f64,
            2 => u16::from_ne_bytes([b[0], b[1]]) as f64,
            _ => f32::from_ne_bytes([b[0], b[1], b[2], b[3]]) as f64,
        };
        let fine = if want.is_nan() { g.is_nan() } else { g == *want || (g - want).abs() <= *tol };
        ensure!(fine, "sample", "sample {i} is {g:?} instead of {want:?}: {}", what());
        saturated += (n < 4 && (g == 0.0 || g == (256_f64.powi(n as i32) - 1.0))) as u64;
    }
    ctx.count("samples", pic.samples.len() as u64);
    ctx.count("saturated samples", saturated);
    ctx.count(&format!("{c:?}"), 1);
    ctx.count("scaled", scaled as u64);
    ctx.count("after other HDUs", (at > 0) as u64);
    ctx.count("tile-compressed RGB", (matches!(f.hdus[at].spec, Spec::Tile(..)) && matches!(c, ColorType::Rgb8 | ColorType::Rgb16)) as u64);
    ctx.count("tile-compressed", matches!(f.hdus[at].spec, Spec::Tile(..)) as u64);
    ctx.seen(hash_bytes(bytes), pic.samples.len() > 3);
    ctx.sample(what);
    Ok(())
}

// ---------------------------------------------------------------- C19

fn ints(s: &str) -> Vec<u64> {
    s.split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty()).filter_map(|x| x.parse().ok()).collect()
}

fn c19(ctx: &mut Ctx) -> Res {
    let rng = &mut ctx.rng.clone();
    let Ok(cli) = std::env::var("VERIF_CLI") else { panic!("VERIF_CLI is not set") };
    let run = |path: &std::path::Path| {
        // 20 s of processor time are its limit: ended by a signal then
        let o = Command::new("/bin/sh")
            .args(["-c", "ulimit -t 20; exec \"$0\" struct \"$1\"", &cli])
            .arg(path)
            .env_remove("RUST_LOG")
            .env_remove("RUST_BACKTRACE")
            .stdin(Stdio::null())
            .output()
            .unwrap_or_else(|e| panic!("{cli}: {e}"));
        let out = String::from_utf8_lossy(&o.stdout).to_string();
        let err = String::from_utf8_lossy(&o.stderr).to_string();
        (o.status.code(), out, err)
    };
    if rng.one_in(40) {
        ctx.count("missing files", 1);
        let path = ctx.dir.join("does-not-exist.fits");
        let (code, out, err) = run(&path);
        ensure!(!matches!(code, Some(0) | Some(101) | None), "missing", "missing file: exit {code:?}, {err}");
        ensure!(!err.trim().is_empty() && !out.contains("HDU["), "missing", "missing file: nothing reported");
        ctx.seen(0, false);
        return Ok(());
    }
    let f = match ctx.idx % 30 {
        7 if rng.one_in(8) => {
            // numbered with more than 8 bits
            let n = 250 + rng.us(80);
            ctx.count("files above 256 HDUs", (n > 256) as u64);
            let mut hdus = vec![image_with(rng, Kind::Primary, 8, vec![])];
            for _ in 0..n {
                hdus.push(extension(rng, 60));
            }
            File::new(hdus)
        }
        7 => file(rng, 40, 300),
        _ => file(rng, 6, 6_000),
    };
    let bytes = match rng.below(6) {
        0 => alter(ctx, rng, &f),
        1 if rng.one_in(4) => {
            let n = rng.us(6000);
            rng.bytes(n)
        }
        _ => f.bytes.clone(),
    };
    let whole = bytes == f.bytes;
    let path = ctx.dir.join(*rng.pick(&["c19.fits", "c 19", "é.fits"]));
    std::fs::write(&path, &bytes).unwrap();
    let r = run(&path);
    let _ = std::fs::remove_file(&path);
    c19_judge(ctx, &f, &bytes, whole, r).input(&bytes)
}
fn c19_judge(ctx: &mut Ctx, f: &File, bytes: &[u8], whole: bool, r: (Option<i32>, String, String)) -> Res {
    let (code, out, err) = r;
    ensure!(!matches!(code, Some(101) | None), "crash", "exit {code:?}: {err}: {}", f.describe());
    let t = trace(Cursor::new(bytes), Mode::Skip);
    let entries: Vec<&str> = out.split("HDU[").skip(1).collect();
    if whole {
        ensure!(code == Some(0), "exit", "exit {code:?}: {err}: {}", f.describe());
        ensure!(entries.len() == f.hdus.len(), "entries", "{} entries instead of {}: {out}", entries.len(), f.hdus.len());
    } else {
        ctx.count("malformed files", (t.end != End::Clean) as u64);
        ensure!(entries.len() == t.hdus.len(), "entries", "{} entries instead of {}: {out}", entries.len(), t.hdus.len());
        if t.end != End::Clean {
            ensure!(code != Some(0) && !err.trim().is_empty(), "unreported", "exit {code:?} {err}: the reader ends with {:?}", t.end);
        }
        ctx.seen(hash_bytes(bytes), true);
        return Ok(());
    }
    for (i, (e, h)) in entries.iter().zip(&f.hdus).enumerate() {
        let lines: Vec<&str> = e.lines().collect();
        let line = |k: &str| lines.iter().find(|l| l.contains(k)).copied().unwrap_or("");
        let after = |l: &'static str, k: &'static str| {
            let s = line(l);
            s.find(k).map(|i| &s[i + k.len()..]).unwrap_or("").split(';').next().unwrap_or("").trim().trim_end_matches('.').to_string()
        };
        let fail = |what: &str| format!("entry {i}: {what} of {}: HDU[{e}", h.describe());
        ensure!(ints(lines[0]).first() == Some(&(i as u64)), "number", "{}", fail("number"));
        let kind = match h.kind {
            Kind::Primary => "PRIMARY",
            Kind::Image => "IMAGE",
            Kind::Bin => "BINTABLE",
            Kind::Ascii => "ASCIITABLE",
        };
        ensure!(after("HDU type", "type:") == kind, "kind", "{}", fail("kind"));
        ensure!(ints(&after("DATA", "byte:")) == [h.data_off], "offset", "{}", fail("data offset"));
        ensure!(ints(&after("DATA", "size:")) == [h.data.len() as u64], "size", "{}", fail("data size"));
        match &h.spec {
            Spec::Image { bitpix, naxisn } => {
                ensure!(ints(&after("HEAD", "naxis:")) == *naxisn, "axes", "{}", fail("axes"));
                let dims = ints(&after("HEAD", "dimensions:"));
                ensure!(dims == *naxisn || (naxisn.is_empty() && dims == [0]), "dimensions", "{}", fail("dimensions"));
                let b = match bitpix {
                    8 => "U8",
                    16 => "I16",
                    32 => "I32",
                    64 => "I64",
                    -32 => "F32",
                    _ => "F64",
                };
                ensure!(after("HEAD", "bitpix :") == b || after("HEAD", "bitpix:") == b, "bitpix", "{}", fail("BITPIX"));
            }
            Spec::Ascii { cols, naxis2, .. } => {
                ensure!(ints(&after("HEAD", "n_cols:")) == [cols.len() as u64], "columns", "{}", fail("columns"));
                ensure!(ints(&after("HEAD", "n_rows:")) == [*naxis2], "rows", "{}", fail("rows"));
            }
            Spec::Bin(b) | Spec::Tile(_, b) => {
                ensure!(ints(&after("HEAD", "n_cols:")) == [b.cols.len() as u64], "columns", "{}", fail("columns"));
                ensure!(ints(&after("HEAD", "n_rows:")) == [b.nrows], "rows", "{}", fail("rows"));
            }
        }
        ctx.count(kind, 1);
        ctx.count("HDUs listed", 1);
    }
    ctx.seen(hash_bytes(bytes), f.hdus.len() > 1);
    ctx.sample(|| out.clone());
    Ok(())
}
