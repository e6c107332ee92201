//! C06, C07: image data units
use crate::ctx::{Ctx, Fail, Res, WithInput};
use crate::gen::*;
use crate::mon::*;
use crate::obs::*;
use crate::rng::{hash_bytes, Rng};
use crate::{bail, ensure, Prop};
use fitsrs::{Fits, It, Pixels, HDU};
use std::fmt::Debug;
use std::io::{BufReader, Cursor, Read, Seek};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C06",
            level: "exploration",
            cases: [80_000, 4_800_000],
            run: c06,
            rule: "an image HDU of any type, shape and contents read to the end and compared bit for bit with the array written; non trivial: at least one pixel, distinct by shape and contents",
            floors: &[("large files", 50), ("pixels", 3_000_000), ("type 8", 1_000), ("type 16", 1_000), ("type 32", 1_000), ("type 64", 1_000), ("type -32", 1_000), ("type -64", 1_000), ("raw bytes", 2_000), ("empty images", 500), ("NaN", 1_000)],
            assumptions: &["signalling NaNs pass unchanged through the processor's loads and stores (x86-64)"],
        },
        Prop {
            id: "C07",
            level: "exploration",
            cases: [80_000, 4_800_000],
            run: c07,
            rule: "a history of random accesses and sequential reads on one image, every answer compared with a model; non trivial: at least one access going backwards and one sequential read after an access, distinct by the history",
            floors: &[("large files", 50), ("random accesses", 50_000), ("refused accesses", 5_000), ("sequential reads", 50_000), ("backward accesses", 10_000), ("reads at the end", 2_000)],
            assumptions: &["no read error happens (C17 covers them)"],
        },
    ]
}

/// Calls f with the HDUs of the file, through one kind of reader or another
fn with_reader(rng: &mut Rng, f: &File, go: &mut dyn FnMut(&mut Rng, usize, &mut dyn Access) -> Res) -> Res {
    fn run<R: Read + Seek + Debug>(
        rng: &mut Rng,
        f: &File,
        mut fits: Fits<R>,
        go: &mut dyn FnMut(&mut Rng, usize, &mut dyn Access) -> Res,
    ) -> Res {
        for i in 0..f.hdus.len() {
            let h = match fits.next() {
                Some(Ok(h)) => h,
                x => bail!("walk", "HDU {i} is {:?}: {}", x.map(|r| r.map(|h| kind(&h))), f.describe()),
            };
            if let HDU::Primary(h) | HDU::XImage(h) = &h {
                match fits.get_data(h).pixels() {
                    Pixels::U8(it) => go(rng, i, &mut Acc(8, it, |x| x as u64)),
                    Pixels::I16(it) => go(rng, i, &mut Acc(16, it, |x| x as u16 as u64)),
                    Pixels::I32(it) => go(rng, i, &mut Acc(32, it, |x| x as u32 as u64)),
                    Pixels::I64(it) => go(rng, i, &mut Acc(64, it, |x| x as u64)),
                    Pixels::F32(it) => go(rng, i, &mut Acc(-32, it, |x: f32| x.to_bits() as u64)),
                    Pixels::F64(it) => go(rng, i, &mut Acc(-64, it, |x: f64| x.to_bits())),
                }?
            }
        }
        Ok(())
    }
    match rng.below(4) {
        0 => run(rng, f, Fits::from_reader(Cursor::new(&f.bytes[..])), go),
        1 => {
            let cap = *rng.pick(&[1, 7, 64, 2880, 8192, 65536]);
            run(rng, f, Fits::from_reader(BufReader::with_capacity(cap, Cursor::new(&f.bytes[..]))), go)
        }
        2 => {
            let plan = Plan::random(rng);
            let cap = *rng.pick(&[1, 7, 64, 2880, 8192]);
            run(rng, f, Fits::from_reader(BufReader::with_capacity(cap, MonReader::mem(&f.bytes, plan))), go)
        }
        _ => {
            let plan = Plan::random(rng);
            run(rng, f, Fits::from_reader(MonReader::mem(&f.bytes, plan)), go)
        }
    }
}

pub trait Access {
    fn ty(&self) -> i64;
    fn next(&mut self) -> Option<u64>;
    fn at(&mut self, i: usize) -> Result<u64, String>;
}
struct Acc<R, T>(i64, It<R, T>, fn(T) -> u64);
impl<R, T> Access for Acc<R, T>
where
    R: Read + Seek,
    T: fitsrs::hdu::data::iter::Value,
{
    fn ty(&self) -> i64 {
        self.0
    }
    fn next(&mut self) -> Option<u64> {
        self.1.next().map(self.2)
    }
    fn at(&mut self, i: usize) -> Result<u64, String> {
        self.1.read_value(i).map(self.2).map_err(|e| format!("{e}"))
    }
}

fn images(rng: &mut Rng, max: usize) -> File {
    let mut hdus = vec![];
    for i in 0..1 + rng.us(3) {
        let kind = if i == 0 { Kind::Primary } else { Kind::Image };
        hdus.push(if max > 5_000 && rng.one_in(250) { large_image(rng, kind) } else { image(rng, kind, max) });
        if rng.one_in(4) {
            hdus.push(extension(rng, 1000));
        }
    }
    let mut f = File::new(hdus);
    if rng.one_in(3) {
        f.cut_padding(rng);
    }
    f
}

/// The iterator over an array by itself
fn c06_it(ctx: &mut Ctx, rng: &mut Rng) -> Res {
    let n = rng.us(400);
    let b = rng.bytes(n);
    let limit = rng.us(n + 1);
    macro_rules! t {
        ($t:ty) => {{
            const S: usize = std::mem::size_of::<$t>();
            let want: Vec<Vec<u8>> = b[..limit].chunks_exact(S).map(|c| c.to_vec()).collect();
            let mut c = Cursor::new(&b[..]);
            let it = fitsrs::It::<_, $t>::new(&mut c, limit as u64);
            ensure!(it.bytes() == b, "bytes", "{} bytes instead of {n}", it.bytes().len());
            let got: Vec<Vec<u8>> = it.map(|v| v.to_be_bytes().to_vec()).collect();
            ensure!(got == want, "iterator", "{limit} of {n} bytes as {}: {got:x?} instead of {want:x?}", stringify!($t));
            let it = fitsrs::It::<_, $t>::new(Cursor::new(b.clone()), limit as u64);
            ensure!(it.bytes() == b, "bytes", "{} bytes instead of {n}", it.bytes().len());
            let got: Vec<Vec<u8>> = it.map(|v| v.to_be_bytes().to_vec()).collect();
            ensure!(got == want, "iterator", "{limit} of {n} bytes as {}: {got:x?} instead of {want:x?}", stringify!($t));
        }};
    }
    match rng.below(6) {
        0 => t!(u8),
        1 => t!(i16),
        2 => t!(i32),
        3 => t!(i64),
        4 => t!(f32),
        _ => t!(f64),
    }
    ctx.count("iterators by themselves", 1);
    Ok(())
}

fn c06(ctx: &mut Ctx) -> Res {
    let rng = &mut ctx.rng.clone();
    if ctx.idx % 200 == 133 {
        return super::walk::large_file(ctx, rng, Some(Kind::Image));
    }
    c06_it(ctx, rng)?;
    let max = if ctx.idx % 40 == 9 { 300_000 } else { 14_000 };
    let f = images(rng, max);
    c06_file(ctx, rng, &f).input(&f.bytes)
}
fn c06_file(ctx: &mut Ctx, rng: &mut Rng, f: &File) -> Res {
    with_reader(rng, f, &mut |_, i, acc| {
        let h = &f.hdus[i];
        let want = h.pixels();
        ensure!(acc.ty() == h.bitpix(), "type", "pixels of type {} instead of {}", acc.ty(), h.bitpix());
        for (k, w) in want.iter().enumerate() {
            let g = acc.next();
            ensure!(g == Some(*w), "pixel", "pixel {k} of HDU {i} is {g:x?} instead of {w:x}: {}", h.describe());
        }
        for _ in 0..3 {
            let g = acc.next();
            ensure!(g.is_none(), "end", "HDU {i} gives {g:x?} after its last pixel: {}", h.describe());
        }
        ctx.count("pixels", want.len() as u64);
        ctx.count(&format!("type {}", h.bitpix()), 1);
        if h.bitpix() == -32 {
            ctx.count("NaN", want.iter().filter(|&&w| f32::from_bits(w as u32).is_nan()).count() as u64);
        }
        ctx.count("empty images", want.is_empty() as u64);
        ctx.seen(hash_bytes(&h.data) ^ hash_bytes(h.describe().as_bytes()), !want.is_empty());
        ctx.sample(|| h.describe());
        Ok(())
    })?;
    // raw bytes, before and after other uses of the handle
    let mut fits = Fits::from_reader(Cursor::new(&f.bytes[..]));
    for (i, want) in f.hdus.iter().enumerate() {
        let h = match fits.next() {
            Some(Ok(h)) => h,
            x => bail!("walk", "HDU {i} is {:?}: {}", x.map(|r| r.map(|h| kind(&h))), f.describe()),
        };
        if let HDU::Primary(h) | HDU::XImage(h) = &h {
            if rng.one_in(3) {
                let n = rng.us(50);
                let _ = pixels(fits.get_data(h).pixels(), n);
            }
            let raw = fits.get_data(h).raw_bytes();
            ensure!(raw == want.data, "raw", "{} raw bytes of HDU {i}, or other ones: {}", raw.len(), want.describe());
            ctx.count("raw bytes", 1);
        }
    }
    Ok(())
}

fn c07(ctx: &mut Ctx) -> Res {
    let rng = &mut ctx.rng.clone();
    if ctx.idx % 200 == 133 {
        return super::walk::large_file(ctx, rng, Some(Kind::Image));
    }
    let max = if ctx.idx % 40 == 9 { 200_000 } else { 12_000 };
    let f = images(rng, max);
    with_reader(rng, &f, &mut |rng, i, acc| c07_image(ctx, rng, acc, i, &f)).input(&f.bytes)
}
fn c07_image(ctx: &mut Ctx, rng: &mut Rng, acc: &mut dyn Access, i: usize, f: &File) -> Result<(), Fail> {
    let h = &f.hdus[i];
    let want = h.pixels();
    let n = want.len();
    let mut cur = 0_usize;
    let mut last = 0_usize;
    let mut hist: Vec<String> = vec![];
    let (mut back, mut after) = (false, false);
    let len = if rng.one_in(20) { 200 } else { 4 + rng.us(30) };
    for _ in 0..len {
        match rng.below(5) {
            0..=2 => {
                let k = match rng.below(10) {
                    0 => 0,
                    1 => n.saturating_sub(1),
                    2 => n,
                    3 => n + 1 + rng.us(3000),
                    4 => *rng.pick(&[usize::MAX, usize::MAX / 2, i64::MAX as usize, 1 << 32]),
                    5 => cur,
                    6 => last,
                    _ => rng.us(n.max(1)),
                };
                let g = acc.at(k);
                hist.push(format!("[{k}]"));
                if k < n {
                    ctx.count("random accesses", 1);
                    if k < cur {
                        ctx.count("backward accesses", 1);
                        back = true;
                    }
                    ensure!(
                        g == Ok(want[k]),
                        "access",
                        "pixel {k} of HDU {i} is {g:x?} instead of {:x} after {hist:?}: {}",
                        want[k],
                        h.describe()
                    );
                    cur = k + 1;
                    last = k;
                } else {
                    ctx.count("refused accesses", 1);
                    ensure!(g.is_err(), "out of bounds", "pixel {k} of HDU {i} is {g:x?} though there are {n}: {}", h.describe());
                }
            }
            _ => {
                let m = match rng.below(6) {
                    0 => n + 2,
                    1 => n - cur,
                    2 => rng.us(2000),
                    _ => 1 + rng.us(4),
                };
                for _ in 0..m {
                    let g = acc.next();
                    let w = want.get(cur).copied();
                    ensure!(g == w, "sequence", "pixel {cur} of HDU {i} is {g:x?} instead of {w:x?} after {hist:?}: {}", h.describe());
                    if w.is_some() {
                        cur += 1;
                        ctx.count("sequential reads", 1);
                        after |= !hist.is_empty();
                    } else {
                        ctx.count("reads at the end", 1);
                    }
                }
                hist.push(format!("next*{m}"));
            }
        }
    }
    ctx.seen_dbg(&(&hist, n, h.bitpix()), back && after);
    ctx.sample(|| format!("{}: {}", h.describe(), hist.join(" ")));
    Ok(())
}
