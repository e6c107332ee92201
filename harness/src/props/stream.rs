//! C13, C14, C15, C17: the same stream through other readers, compressed, cut or failing
use crate::cardgen::Buf;
use crate::ctx::{Ctx, Fail, Res, WithInput};
use crate::exec::*;
use crate::gen::*;
use crate::mon::*;
use crate::obs::*;
use crate::rng::{hash_bytes, Rng};
use crate::{bail, ensure, Prop};
use fitsrs::async_fits::AsyncFits;
use fitsrs::gz::GzReader;
use fitsrs::hdu::data::bintable::ColumnId;
use fitsrs::hdu::data::DataStream;
use fitsrs::hdu::AsyncHDU;
use fitsrs::{FITSFile, Fits, Pixels, HDU};
use flate2::{Compression, GzBuilder};
use futures::StreamExt;
use std::cell::RefCell;
use std::fmt::Debug;
use std::io::{BufReader, Cursor, Read, Seek, Write};
use std::pin::Pin;
use std::rc::Rc;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C13",
            level: "exploration",
            cases: [40_000, 2_400_000],
            run: c13,
            rule: "a generated file compressed in 1 to 6 gzip members and read through FITSFile::open or GzReader, every delivery compared with that of the plain file; non trivial: at least 2 HDUs, distinct by compressed bytes and reading mode",
            floors: &[("compressed with several members", 1_000), ("empty members", 100), ("gzip header fields", 1_000), ("plain contents", 500), ("opened by path", 1_000), ("damaged files refused", 2_000), ("compressed files above 16 MiB", 3), ("values compared", 1_000_000)],
            assumptions: &["nothing follows the last gzip member"],
        },
        Prop {
            id: "C14",
            level: "exploration",
            cases: [40_000, 2_400_000],
            run: c14,
            rule: "a stream (well-formed, cut, or with altered headers) read through several readers with different read sizes and interruptions, every delivery compared with that of the in-memory reader; non trivial: more than one HDU or a failing stream, distinct by stream, reader and mode",
            floors: &[("readers compared", 10_000), ("short reads", 1_000_000), ("interrupted reads", 100_000), ("cut streams", 500), ("altered streams", 500), ("files on disk", 500), ("compressed", 500)],
            assumptions: &[],
        },
        Prop {
            id: "C15",
            level: "exploration",
            cases: [40_000, 2_400_000],
            run: c15,
            rule: "a stream read by the asynchronous reader under a random schedule (chunks, answers 'not ready', futures dropped after one poll), every delivery compared with the synchronous one; non trivial: some answer 'not ready' or short read was given, distinct by stream and schedule",
            floors: &[("skips", 500), ("asynchronous walks", 50), ("HDUs", 5_000), ("answers 'not ready'", 100_000), ("late wake-ups", 20_000), ("futures dropped while pending", 1_000), ("data units left in the middle", 1_000), ("values", 1_000_000), ("cut streams", 500)],
            assumptions: &["readers wake the last task that polled them, as futures require"],
        },
        Prop {
            id: "C17",
            level: "fault_enumeration",
            cases: [800, 40_000],
            run: c17,
            rule: "one run of a file with the stream cut at one byte, or the reader failing at one operation (once, for good, or as a premature end), judged against the run without fault; all bytes and all operations of each file are taken in turn, up to 3000; non trivial: the fault was hit, distinct by file, mode and fault point",
            floors: &[("cut points", 50_000), ("failed operations", 50_000), ("faults hit", 40_000), ("deliveries cut short", 10_000), ("asynchronous faults", 5_000), ("compressed faults", 2_000), ("random reads under faults", 2_000), ("selections under faults", 1_000), ("headers cut short", 5_000), ("walks over a passing fault", 500)],
            assumptions: &[],
        },
    ]
}

const MODES: [Mode; 4] = [Mode::Values, Mode::Rows, Mode::RawTable, Mode::Skip];

fn count_values(t: &Trace) -> u64 {
    t.hdus.iter().map(|h| h.data.len() as u64).sum()
}

// ---------------------------------------------------------------- C13

/// Returns the compressed file and the number of members, empty ones included
fn gz_file(ctx: &mut Ctx, rng: &mut Rng, plain: &[u8]) -> Vec<u8> {
    let n = if rng.bool() { 1 } else { 2 + rng.us(5) };
    let mut cuts: Vec<usize> = (1..n)
        .map(|_| match rng.below(4) {
            0 => (rng.us(plain.len() / 2880 + 1) * 2880).min(plain.len()),
            1 => plain.len(),
            _ => rng.us(plain.len() + 1),
        })
        .collect();
    cuts.push(0);
    cuts.push(plain.len());
    cuts.sort();
    let mut out = vec![];
    ctx.count("compressed with several members", (n > 1) as u64);
    for w in cuts.windows(2) {
        let mut b = GzBuilder::new();
        if rng.bool() {
            ctx.count("gzip header fields", 1);
            if rng.bool() {
                let n = rng.us(300);
                b = b.extra(rng.bytes(n));
            }
            if rng.bool() {
                b = b.filename("image with a long name.fits");
            }
            if rng.bool() {
                b = b.comment("made by hand");
            }
            b = b.mtime(rng.u64() as u32).operating_system(rng.u64() as u8);
        }
        let mut e = b.write(vec![], Compression::new(rng.below(10) as u32));
        let part = &plain[w[0]..w[1]];
        ctx.count("empty members", part.is_empty() as u64);
        for c in part.chunks(1 + rng.us(20_000)) {
            e.write_all(c).unwrap();
            if rng.one_in(10) {
                e.flush().unwrap();
            }
        }
        out.extend(e.finish().unwrap());
    }
    out
}

/// Files of tens of megabytes: every value and what follows
fn c13_large(ctx: &mut Ctx, rng: &mut Rng) -> Res {
    let n = (17 << 20) + rng.us(24 << 20);
    let block: Vec<u8> = { let k = 1000 + rng.us(5000); rng.bytes(k) };
    let mut img = image_with(rng, Kind::Primary, 8, vec![n as u64]);
    img.data = block.iter().copied().cycle().take(n).collect();
    let after = extension(rng, 800);
    let f = File::new(vec![img, after]);
    let cut = if rng.bool() { 0 } else { rng.us(f.bytes.len()) };
    let mut gz = vec![];
    for part in [&f.bytes[..cut], &f.bytes[cut..]] {
        let mut e = GzBuilder::new().write(vec![], Compression::fast());
        e.write_all(part).unwrap();
        gz.extend(e.finish().unwrap());
    }
    let path = ctx.dir.join("large.fits");
    std::fs::write(&path, &gz).unwrap();
    let r = (|| {
        let mut fits = match FITSFile::open(&path) {
            Ok(r) => r,
            Err(e) => bail!("open", "a file of {} bytes once decompressed is refused: {e}", f.bytes.len()),
        };
        let Some(Ok(HDU::Primary(h))) = fits.next() else { bail!("differs", "no primary HDU in a large file") };
        {
            let Pixels::U8(it) = fits.get_data(&h).pixels() else { bail!("differs", "BITPIX 8 image of another type") };
            let mut k = 0;
            for (a, b) in it.zip(block.iter().cycle()) {
                ensure!(a == *b, "differs", "pixel {k} of a large file is {a} instead of {b}");
                k += 1;
            }
            ensure!(k == n, "differs", "{k} pixels instead of {n} in a large file");
        }
        let x = fits.next();
        let at = x.as_ref().and_then(|x| x.as_ref().ok()).map(|x| x.get_data_unit_byte_offset());
        ensure!(at == Some(f.hdus[1].data_off), "differs", "the HDU after {n} bytes of data has its data at {at:?} instead of {}", f.hdus[1].data_off);
        ensure!(fits.next().is_none(), "differs", "more than two HDUs in a large file");
        Ok(())
    })();
    let _ = std::fs::remove_file(&path);
    ctx.count("compressed files above 16 MiB", 1);
    ctx.seen(hash_bytes(&block), true);
    r
}

fn c13(ctx: &mut Ctx) -> Res {
    let rng = &mut ctx.rng.clone();
    if ctx.idx % 8_000 == 4_001 {
        return c13_large(ctx, rng);
    }
    let mut f = match ctx.idx % 40 {
        9 => file(rng, 3, 60_000),
        _ => file(rng, 4, 6_000),
    };
    if rng.one_in(4) {
        f.cut_padding(rng);
    }
    let plain = rng.one_in(6);
    let bytes = if plain {
        ctx.count("plain contents", 1);
        f.bytes.clone()
    } else {
        gz_file(ctx, rng, &f.bytes)
    };
    if !plain && rng.one_in(4) {
        let (bad, what, sure) = damage(rng, &bytes);
        return c13_damaged(ctx, rng, &f, &bad, &what, sure).input(&bad);
    }
    c13_file(ctx, rng, &f, &bytes).input(&bytes)
}

/// Where each member starts, where its compressed bytes start, where its trailer starts
fn members(gz: &[u8]) -> Vec<[usize; 3]> {
    let mut out = vec![];
    let mut at = 0;
    while at < gz.len() {
        let flags = gz[at + 3];
        let mut p = at + 10;
        if flags & 4 != 0 {
            p += 2 + u16::from_le_bytes([gz[p], gz[p + 1]]) as usize;
        }
        for bit in [8, 16] {
            if flags & bit != 0 {
                while gz[p] != 0 {
                    p += 1;
                }
                p += 1;
            }
        }
        if flags & 2 != 0 {
            p += 2;
        }
        let mut d = flate2::Decompress::new(false);
        let mut sink = vec![0; 1 << 16];
        loop {
            let from = p + d.total_in() as usize;
            let r = d.decompress(&gz[from..], &mut sink, flate2::FlushDecompress::None).unwrap();
            if r == flate2::Status::StreamEnd {
                break;
            }
        }
        let body = p;
        p += d.total_in() as usize;
        out.push([at, body, p]);
        at = p + 8;
    }
    out
}
/// A compressed file with a damage, what it is, and whether it cannot go unnoticed
fn damage(rng: &mut Rng, gz: &[u8]) -> (Vec<u8>, String, bool) {
    let m = members(gz);
    let [_, body, trailer] = *rng.pick(&m);
    let mut b = gz.to_vec();
    match rng.below(4) {
        0 => {
            let at = body + 1 + rng.us(trailer - body);
            b.truncate(at);
            (b, format!("cut at {at}, in the compressed bytes {body}..{trailer}"), true)
        }
        1 => {
            let at = trailer + rng.us(8);
            b.truncate(at);
            (b, format!("cut at {at}, in the trailer at {trailer}"), true)
        }
        2 => {
            let at = trailer + rng.us(8);
            b[at] ^= 1 << rng.below(8);
            (b, format!("byte {at} altered, in the trailer at {trailer}"), true)
        }
        _ => {
            let at = body + rng.us(trailer - body);
            b[at] ^= 1 << rng.below(8);
            (b, format!("byte {at} altered, in the compressed bytes {body}..{trailer}"), false)
        }
    }
}
/// Refused, or as if there was no damage
fn c13_damaged(ctx: &mut Ctx, rng: &mut Rng, f: &File, bytes: &[u8], what: &str, sure: bool) -> Res {
    ctx.count("damaged files", 1);
    let got = match rng.below(3) {
        0 => GzReader::new(Cursor::new(bytes)).map(|r| trace(r, Mode::Values)),
        1 => GzReader::new(MonReader::mem(bytes, Plan::random(rng))).map(|r| trace(r, Mode::Values)),
        _ => {
            let path = ctx.dir.join("damaged.fits.gz");
            std::fs::write(&path, bytes).unwrap();
            let r = FITSFile::open(&path).map(|mut x| trace_with(&mut x, |_| Mode::Values));
            let _ = std::fs::remove_file(&path);
            r
        }
    };
    match got {
        Err(_) => ctx.count("damaged files refused", 1),
        Ok(t) => {
            ensure!(!sure, "damage", "a damaged file is accepted and gives {} HDUs ({:?}): {what}: {}", t.hdus.len(), t.end, f.describe());
            let want = trace(Cursor::new(&f.bytes[..]), Mode::Values);
            ensure!(t.same(&want), "damage", "a damaged file is accepted and gives something else: {}: {what}: {}", t.diff(&want), f.describe());
        }
    }
    ctx.seen(hash_bytes(bytes), true);
    Ok(())
}
fn c13_file(ctx: &mut Ctx, rng: &mut Rng, f: &File, bytes: &[u8]) -> Res {
    let seed = rng.u64();
    let mode = |i: usize| {
        let mut r = Rng::new(seed ^ i as u64);
        let n = r.us(500);
        *r.pick(&[Mode::Values, Mode::Values, Mode::Rows, Mode::RawTable, Mode::Skip, Mode::Some(n)])
    };
    let want = trace_with(&mut Fits::from_reader(Cursor::new(&f.bytes[..])), mode);
    ensure!(want.end == End::Clean && want.hdus.len() == f.hdus.len(), "plain", "the plain file: {:?}: {}", want.end, f.describe());
    let what;
    let got = match rng.below(4) {
        0 => {
            what = "Cursor";
            let r = match GzReader::new(Cursor::new(bytes)) {
                Ok(r) => r,
                Err(e) => bail!("open", "refused in memory: {e}: {}", f.describe()),
            };
            trace_with(&mut Fits::from_reader(r), mode)
        }
        1 => {
            what = "short reads";
            let r = match GzReader::new(MonReader::mem(bytes, Plan::random(rng))) {
                Ok(r) => r,
                Err(e) => bail!("open", "refused with short reads: {e}: {}", f.describe()),
            };
            trace_with(&mut Fits::from_reader(r), mode)
        }
        _ => {
            what = "path";
            ctx.count("opened by path", 1);
            let name = *rng.pick(&["a.fits", "a.fits.gz", "a.gz", "image", "b.fz", "x.fits.tar", "é ü.fits"]);
            let path = ctx.dir.join(name);
            std::fs::write(&path, bytes).unwrap();
            let r = FITSFile::open(&path).map(|mut x| trace_with(&mut x, mode));
            let _ = std::fs::remove_file(&path);
            match r {
                Ok(t) => t,
                Err(e) => bail!("open", "{name} refused: {e}: {}", f.describe()),
            }
        }
    };
    ensure!(got.same(&want), "differs", "through {what}: {}: {}", got.diff(&want), f.describe());
    ctx.count("values compared", count_values(&got));
    ctx.seen(hash_bytes(bytes) ^ seed, f.hdus.len() > 1);
    ctx.sample(|| format!("{} bytes for {} through {what}: {}", bytes.len(), f.bytes.len(), f.describe()));
    Ok(())
}

// ---------------------------------------------------------------- C14

/// Alters a stream: cut anywhere, or bytes changed, mostly in headers
pub fn alter(ctx: &mut Ctx, rng: &mut Rng, f: &File) -> Vec<u8> {
    let mut b = f.bytes.clone();
    if rng.bool() {
        let at = match rng.below(4) {
            0 => {
                let h = rng.pick(&f.hdus);
                h.data_off as usize + rng.us(h.data.len() + 1)
            }
            1 => {
                let h = rng.pick(&f.hdus);
                h.hdr_off as usize + rng.us((h.data_off - h.hdr_off) as usize)
            }
            2 => (rng.us(b.len() / 2880 + 1) * 2880).min(b.len()),
            _ => rng.us(b.len() + 1),
        };
        b.truncate(at);
        ctx.count("cut streams", 1);
    } else {
        for _ in 0..1 + rng.us(3) {
            let h = rng.pick(&f.hdus);
            let n = (h.data_off - h.hdr_off) as usize;
            let at = h.hdr_off as usize + if rng.bool() { rng.us(n) } else { rng.us(8) * 80 + rng.us(80) };
            let at = at.min(b.len() - 1);
            b[at] = *rng.pick(&[b'0', b'1', b'9', b' ', b'-', b'\'', b'/', b'=', b'A', b'&', 0, 0xff, b'E', b'.']);
        }
        ctx.count("altered streams", 1);
    }
    b
}

fn c14(ctx: &mut Ctx) -> Res {
    let rng = &mut ctx.rng.clone();
    let f = file(rng, 4, 5_000);
    let whole = rng.bool();
    let bytes = if whole { f.bytes.clone() } else { alter(ctx, rng, &f) };
    c14_file(ctx, rng, &f, &bytes, whole).input(&bytes)
}
fn c14_file(ctx: &mut Ctx, rng: &mut Rng, f: &File, bytes: &[u8], whole: bool) -> Res {
    let seed = rng.u64();
    let mode = |i: usize| {
        let mut r = Rng::new(seed ^ i as u64);
        let n = r.us(700);
        *r.pick(&[Mode::Values, Mode::Values, Mode::Rows, Mode::RawTable, Mode::Skip, Mode::Some(n)])
    };
    let want = trace_with(&mut Fits::from_reader(Cursor::new(bytes)), mode);
    if whole {
        ensure!(want.end == End::Clean && want.hdus.len() == f.hdus.len(), "plain", "in memory: {:?}: {}", want.end, f.describe());
    }
    for _ in 0..3 {
        let what;
        let got = match rng.below(7) {
            6 => {
                // compressed
                let gz = crate::tile::gzip(bytes, rng.below(10) as u32);
                let plan = Plan::random(rng);
                what = format!("gzip, {plan:?}");
                let r = MonReader::mem(&gz, plan);
                let log = r.log.clone();
                let t = match GzReader::new(r) {
                    Ok(r) => trace_with(&mut Fits::from_reader(r), mode),
                    Err(e) => bail!("gzip", "{what}: {e}: {}", f.describe()),
                };
                ctx.count("compressed", 1);
                ctx.count("short reads", log.borrow().short_reads);
                ctx.count("interrupted reads", log.borrow().interrupts);
                t
            }
            0 => {
                what = "an owned buffer".to_string();
                trace_with(&mut Fits::from_reader(Cursor::new(bytes.to_vec())), mode)
            }
            1 => {
                let cap = match rng.below(4) {
                    0 => 1 + rng.us(100),
                    1 => *rng.pick(&[80, 2880, 8192, 65536]),
                    _ => 1 + rng.us(9000),
                };
                what = format!("a buffer of {cap}");
                trace_with(&mut Fits::from_reader(BufReader::with_capacity(cap, Cursor::new(bytes))), mode)
            }
            2 => {
                ctx.count("files on disk", 1);
                what = "a file".to_string();
                let path = ctx.dir.join("c14.fits");
                std::fs::write(&path, bytes).unwrap();
                let fd = std::fs::File::open(&path).unwrap();
                let t = if rng.bool() {
                    trace_with(&mut Fits::from_reader(fd), mode)
                } else {
                    trace_with(&mut Fits::from_reader(BufReader::new(fd)), mode)
                };
                let _ = std::fs::remove_file(&path);
                t
            }
            k => {
                let plan = Plan::random(rng);
                what = format!("{plan:?}");
                let r = MonReader::mem(bytes, plan);
                let log = r.log.clone();
                let t = if k == 3 {
                    let cap = 1 + rng.us(5000);
                    trace_with(&mut Fits::from_reader(BufReader::with_capacity(cap, r)), mode)
                } else {
                    trace_with(&mut Fits::from_reader(r), mode)
                };
                ctx.count("short reads", log.borrow().short_reads);
                ctx.count("interrupted reads", log.borrow().interrupts);
                t
            }
        };
        ensure!(got.same(&want), "differs", "through {what}: {}: {}", got.diff(&want), f.describe());
        ctx.count("readers compared", 1);
        ctx.seen(hash_bytes(bytes) ^ hash_bytes(what.as_bytes()) ^ seed, want.hdus.len() > 1 || want.end != End::Clean);
        ctx.sample(|| format!("through {what}: {}", f.describe()));
    }
    Ok(())
}

// ---------------------------------------------------------------- C15

type AFits = AsyncFits<futures::io::BufReader<AReader>>;

#[derive(Debug)]
pub struct AHdu {
    pub kind: Kind,
    pub header: String,
    pub data: Data,
    /// Error at the end of the data
    pub err: Option<String>,
}
#[derive(Debug)]
pub struct ATrace {
    pub hdus: Vec<AHdu>,
    pub end: End,
}

/// How an asynchronous stream is read
#[derive(Clone, Copy, Debug)]
pub struct Drive {
    pub seed: u64,
    /// Futures are sometimes dropped while pending and asked for again
    pub drops: bool,
    /// Data units are sometimes left in the middle
    pub partial: bool,
}

const POLLS: u64 = 3_000_000;

macro_rules! next {
    ($s:expr, $st:expr, $rng:expr, $d:expr, $ctx:expr) => {{
        loop {
            if $d.drops && $rng.one_in(3) {
                let mut f = $s.next();
                match poll_once(Pin::new(&mut f)) {
                    Some(v) => break Ok(v),
                    None => {
                        $ctx.count("futures dropped while pending", 1);
                        continue;
                    }
                }
            }
            let mut f = $s.next();
            break block_on(Pin::new(&mut f), $st, POLLS);
        }
    }};
}

fn items<S, T, E: Debug>(
    ctx: &mut Ctx,
    rng: &mut Rng,
    mut s: S,
    n: usize,
    d: Drive,
    st: &Rc<RefCell<AState>>,
    f: impl Fn(T) -> u64,
) -> Result<(Vec<u64>, Option<String>), Stuck>
where
    S: futures::Stream<Item = Result<[T; 1], E>> + Unpin,
    T: Copy,
{
    let mut out = vec![];
    while out.len() < n.min(ENDLESS) {
        match next!(s, st, rng, d, ctx)? {
            None => {
                // the end stays the end
                if next!(s, st, rng, d, ctx)?.is_some() {
                    return Err(Stuck::Endless);
                }
                return Ok((out, None));
            }
            Some(Ok(v)) => out.push(f(v[0])),
            Some(Err(e)) => {
                let e = format!("{e:?}");
                for _ in 0..5 {
                    match next!(s, st, rng, d, ctx)? {
                        None => return Ok((out, Some(e))),
                        // a value after a failure is one that is not in its place
                        Some(Ok(v)) => {
                            out.push(f(v[0]));
                            return Ok((out, Some("value after a failure".into())));
                        }
                        Some(Err(_)) => (),
                    }
                }
                return Err(Stuck::Endless);
            }
        }
    }
    Ok((out, None))
}

pub fn atrace(ctx: &mut Ctx, fits: &mut AFits, st: &Rc<RefCell<AState>>, d: Drive) -> Result<ATrace, Stuck> {
    let rng = &mut Rng::new(d.seed);
    let mut hdus = vec![];
    loop {
        if hdus.len() > 20_000 {
            return Ok(ATrace { hdus, end: End::Never });
        }
        match next!(fits, st, rng, d, ctx)? {
            None => return Ok(ATrace { hdus, end: End::Clean }),
            Some(Err(e)) => {
                for _ in 0..8 {
                    match next!(fits, st, rng, d, ctx)? {
                        None => return Ok(ATrace { hdus, end: End::Error(format!("{e}")) }),
                        Some(Err(_)) => (),
                        Some(Ok(_)) => break,
                    }
                }
                return Ok(ATrace { hdus, end: End::Never });
            }
            Some(Ok(h)) => {
                let (kind, header) = match &h {
                    AsyncHDU::Primary(h) => (Kind::Primary, header_text(h.get_header())),
                    AsyncHDU::XImage(h) => (Kind::Image, header_text(h.get_header())),
                    AsyncHDU::XBinaryTable(h) => (Kind::Bin, header_text(h.get_header())),
                    AsyncHDU::XASCIITable(h) => (Kind::Ascii, header_text(h.get_header())),
                };
                let n = if d.partial {
                    match rng.below(4) {
                        0 => 0,
                        1 => rng.us(10),
                        2 => rng.us(3000),
                        _ => ENDLESS,
                    }
                } else {
                    ENDLESS
                };
                let unread = n == 0 && rng.bool();
                let mut err = None;
                let data = if unread {
                    Data::Unread
                } else {
                    match &h {
                        AsyncHDU::Primary(h) | AsyncHDU::XImage(h) => {
                            let (ty, (vals, e)) = match fits.get_data(h) {
                                DataStream::U8(s) => (8, items(ctx, rng, s, n, d, st, |x: u8| x as u64)?),
                                DataStream::I16(s) => (16, items(ctx, rng, s, n, d, st, |x: i16| x as u16 as u64)?),
                                DataStream::I32(s) => (32, items(ctx, rng, s, n, d, st, |x: i32| x as u32 as u64)?),
                                DataStream::I64(s) => (64, items(ctx, rng, s, n, d, st, |x: i64| x as u64)?),
                                DataStream::F32(s) => (-32, items(ctx, rng, s, n, d, st, |x: f32| x.to_bits() as u64)?),
                                DataStream::F64(s) => (-64, items(ctx, rng, s, n, d, st, |x: f64| x.to_bits())?),
                            };
                            err = e;
                            Data::Pix { ty, vals }
                        }
                        AsyncHDU::XBinaryTable(h) => {
                            let s = fits.get_data(h);
                            let (v, e) = items(ctx, rng, s, n, d, st, |x: u8| x as u64)?;
                            err = e;
                            Data::Bytes(v.iter().map(|&x| x as u8).collect(), None)
                        }
                        AsyncHDU::XASCIITable(h) => {
                            let s = fits.get_data(h);
                            let (v, e) = items(ctx, rng, s, n, d, st, |x: u8| x as u64)?;
                            err = e;
                            Data::Bytes(v.iter().map(|&x| x as u8).collect(), None)
                        }
                    }
                };
                let whole = n == ENDLESS;
                ctx.count("data units left in the middle", !whole as u64);
                ctx.count("values", data.len() as u64);
                ctx.count("HDUs", 1);
                hdus.push(AHdu { kind, header, data, err });
            }
        }
    }
}

/// The data a stream gives for an HDU of a generated file
fn adata(h: &Hdu) -> Data {
    match h.spec {
        Spec::Image { .. } => Data::Pix { ty: h.bitpix(), vals: h.pixels() },
        _ => Data::Bytes(h.data.clone(), None),
    }
}

/// Skipping bytes of an asynchronous stream: exactly that many, or an error if it ends before
fn c15_skip(ctx: &mut Ctx, rng: &mut Rng) -> Res {
    use fitsrs::hdu::data::AsyncDataBufRead;
    use fitsrs::hdu::header::extension::image::Image;
    use futures::AsyncReadExt;
    let large = rng.one_in(4);
    let b = { let n = if large { 200_000 } else { 9000 }; let n = rng.us(n); rng.bytes(n) };
    let mut plan = APlan::random(rng);
    let mut cap = *rng.pick(&[1, 7, 80, 100, 2880, 8192, 150_000]);
    if large {
        // buffers of more than 64 KiB
        plan.chunk = Chunk::Full;
        cap = *rng.pick(&[70_000, 150_000, 200_000]);
    }
    let text = format!("{plan:?} buffer of {cap}, {} bytes", b.len());
    let r = AReader::new(&b, plan);
    let st = r.st.clone();
    let mut r = futures::io::BufReader::with_capacity(cap, r);
    let mut left = b.len() as u64;
    for _ in 0..1 + rng.us(4) {
        let n = match rng.below(5) {
            0 => 0,
            1 => left,
            2 => left + 1 + rng.below(5000),
            _ => rng.below(left + 1),
        };
        let got = {
            let f = AsyncDataBufRead::<Image>::read_n_bytes_exact(&mut r, n);
            let mut f = std::pin::pin!(f);
            block_on(f.as_mut(), &st, 1_000_000).map_err(|e| stuck(e, &text))?
        };
        ensure!(got.is_ok() == (n <= left), "skip", "skipping {n} of {left} bytes: {got:?}: {text}");
        ctx.count("skips", 1);
        if n > left {
            return Ok(());
        }
        left -= n;
    }
    let mut rest = vec![];
    {
        let f = r.read_to_end(&mut rest);
        let mut f = std::pin::pin!(f);
        let _ = block_on(f.as_mut(), &st, 1_000_000).map_err(|e| stuck(e, &text))?;
    }
    ensure!(rest == b[b.len() - left as usize..], "skip", "{} bytes left instead of {left}: {text}", rest.len());
    Ok(())
}

/// A data unit that 32 bits do not count, and what follows it. `headers`: of the huge HDU (`kind`, `size`)
pub fn async_huge(ctx: &mut Ctx, rng: &mut Rng, kind: Kind, cards: &[Buf], size: u64) -> Res {
    let mut b = vec![];
    if kind != Kind::Primary {
        b.extend(File::new(vec![image_with(rng, Kind::Primary, 8, vec![])]).bytes);
    }
    let before = (kind != Kind::Primary) as usize;
    b.extend(cards.concat());
    b.extend_from_slice(&crate::cardgen::pad80("END"));
    b.resize(b.len().next_multiple_of(2880), b' ');
    let start = rng.bytes(100);
    b.extend_from_slice(&start);
    let at = b.len();
    let last = {
        let e = extension(rng, 2000);
        let f = File::new(vec![e]);
        b.extend_from_slice(&f.bytes);
        f.hdus.into_iter().next().unwrap()
    };
    let mut plan = APlan::random(rng);
    plan.chunk = Chunk::Full;
    let text = format!("asynchronous, {kind:?} of {size} bytes, {plan:?}, then {}", last.describe());
    let r = AReader::with_gap(&b, plan, at, size.next_multiple_of(2880) - 100);
    let st = r.st.clone();
    let mut fits: AFits = AsyncFits::from_reader(futures::io::BufReader::with_capacity(1 << 24, r));
    let d = Drive { seed: 0, drops: rng.one_in(4), partial: false };
    let err = |e| stuck(e, &text);
    for i in 0..before + 2 {
        let h = match next!(fits, &st, rng, d, ctx).map_err(err)? {
            Some(Ok(h)) => h,
            x => bail!("asynchronous", "HDU {i} is {:?}: {text}", x.map(|r| r.map(|_| ()))),
        };
        let n = if i == before { rng.us(100 / 8) } else { ENDLESS };
        let (k, got) = match &h {
            AsyncHDU::Primary(x) | AsyncHDU::XImage(x) => {
                let (ty, (vals, e)) = match fits.get_data(x) {
                    DataStream::U8(s) => (8, items(ctx, rng, s, n, d, &st, |x: u8| x as u64).map_err(err)?),
                    DataStream::I16(s) => (16, items(ctx, rng, s, n, d, &st, |x: i16| x as u16 as u64).map_err(err)?),
                    DataStream::I32(s) => (32, items(ctx, rng, s, n, d, &st, |x: i32| x as u32 as u64).map_err(err)?),
                    DataStream::I64(s) => (64, items(ctx, rng, s, n, d, &st, |x: i64| x as u64).map_err(err)?),
                    DataStream::F32(s) => (-32, items(ctx, rng, s, n, d, &st, |x: f32| x.to_bits() as u64).map_err(err)?),
                    DataStream::F64(s) => (-64, items(ctx, rng, s, n, d, &st, |x: f64| x.to_bits()).map_err(err)?),
                };
                ensure!(e.is_none(), "asynchronous", "HDU {i}: {e:?}: {text}");
                (if matches!(h, AsyncHDU::Primary(_)) { Kind::Primary } else { Kind::Image }, Data::Pix { ty, vals })
            }
            AsyncHDU::XBinaryTable(x) => {
                let s = fits.get_data(x);
                let (v, _) = items(ctx, rng, s, n, d, &st, |x: u8| x as u64).map_err(err)?;
                (Kind::Bin, Data::Bytes(v.iter().map(|&x| x as u8).collect(), None))
            }
            AsyncHDU::XASCIITable(x) => {
                let s = fits.get_data(x);
                let (v, _) = items(ctx, rng, s, n, d, &st, |x: u8| x as u64).map_err(err)?;
                (Kind::Ascii, Data::Bytes(v.iter().map(|&x| x as u8).collect(), None))
            }
        };
        if i == before {
            ensure!(k == kind, "asynchronous", "HDU {i} is {k:?}: {text}");
            let good = match &got {
                Data::Pix { ty, vals } => {
                    let sz = ty.unsigned_abs() as usize / 8;
                    vals.len() == n && vals.iter().zip(start.chunks(sz)).all(|(v, c)| *v == c.iter().fold(0, |a, &x| a << 8 | x as u64))
                }
                Data::Bytes(v, _) => v.len() == n && start.starts_with(v),
                _ => false,
            };
            ensure!(good, "asynchronous", "first {n} values of HDU {i}: {got:?}: {text}");
        } else if i > before {
            let want = adata(&last);
            ensure!(k == last.kind && got == want, "asynchronous", "HDU {i} is {k:?}: {}: {text}", data_diff(&got, &want));
        }
    }
    match next!(fits, &st, rng, d, ctx).map_err(err)? {
        None => (),
        x => bail!("asynchronous", "one more: {:?}: {text}", x.map(|r| r.map(|_| ()))),
    }
    ctx.count("asynchronous walks", 1);
    ctx.seen(size ^ hash_bytes(&b), size > 1 << 32);
    Ok(())
}

fn c15(ctx: &mut Ctx) -> Res {
    let rng = &mut ctx.rng.clone();
    if ctx.idx % 25 == 3 {
        return c15_skip(ctx, rng);
    }
    if ctx.idx % 400 == 207 {
        return super::walk::async_walk(ctx, rng);
    }
    let mut f = match ctx.idx % 40 {
        9 => file(rng, 3, 40_000),
        _ => file(rng, 4, 5_000),
    };
    let mut whole = true;
    match rng.below(6) {
        0 => f.cut_padding(rng),
        1 => whole = false,
        2 => {
            // headers altered: the same HDUs as the synchronous reader, or an error
            let b = alter(ctx, rng, &f);
            return c15_altered(ctx, rng, &b).input(&b);
        }
        _ => (),
    }
    let cut = if whole { f.bytes.len() } else { rng.us(f.bytes.len()) };
    ctx.count("cut streams", !whole as u64);
    let b = f.bytes[..cut].to_vec();
    c15_file(ctx, rng, &f, &b, whole).input(&b)
}

fn open(rng: &mut Rng, b: &[u8], fault: Option<(u64, Fault)>) -> (AFits, Rc<RefCell<AState>>, String) {
    let mut plan = APlan::random(rng);
    plan.fault = fault;
    let cap = match rng.below(4) {
        0 => 1 + rng.us(20),
        1 => *rng.pick(&[8, 80, 2880, 8192]),
        _ => 1 + rng.us(9000),
    };
    let text = format!("{plan:?} buffer of {cap}");
    let r = AReader::new(b, plan);
    let st = r.st.clone();
    (AsyncFits::from_reader(futures::io::BufReader::with_capacity(cap, r)), st, text)
}
fn stuck(e: Stuck, what: &str) -> Fail {
    let (sig, msg) = match e {
        Stuck::LostWakeup => ("lost wake-up", "the task is not ready and nothing will wake it up"),
        Stuck::Endless => ("endless", "the stream does not end"),
    };
    Fail { sig: sig.into(), msg: format!("{msg}: {what}"), input: None }
}

fn c15_file(ctx: &mut Ctx, rng: &mut Rng, f: &File, b: &[u8], whole: bool) -> Res {
    let sync = trace(Cursor::new(&f.bytes[..]), Mode::Skip);
    ensure!(sync.end == End::Clean && sync.hdus.len() == f.hdus.len(), "plain", "synchronous: {:?}: {}", sync.end, f.describe());
    for _ in 0..2 {
        let d = Drive { seed: rng.u64(), drops: rng.bool(), partial: rng.bool() };
        let (mut fits, st, text) = open(rng, b, None);
        let what = format!("{text} {d:?} {} of {} bytes: {}", b.len(), f.bytes.len(), f.describe());
        let t = atrace(ctx, &mut fits, &st, d).map_err(|e| stuck(e, &what))?;
        c15_judge(&t, f, &sync, d, whole, &what)?;
        if !whole && b.len() > 2880 {
            // what is complete in the stream is delivered
            let n = f.hdus.iter().filter(|h| h.data_off <= b.len() as u64).count();
            ensure!(t.hdus.len() == n, "missing", "{} HDUs instead of {n}: {what}", t.hdus.len());
        }
        if !whole && in_header(f, b.len() as u64) {
            ensure!(matches!(t.end, End::Error(_)), "cut unreported", "a header cut short is taken for the end of the file: {what}");
        }
        let s = st.borrow();
        ctx.count("answers 'not ready'", s.pendings);
        ctx.count("late wake-ups", s.late_wakes);
        ctx.max("polls of the reader", s.reads + s.pendings);
        ctx.seen(hash_bytes(b) ^ hash_bytes(text.as_bytes()) ^ d.seed, s.pendings > 0 || s.reads > 2);
        ctx.sample(|| what.clone());
    }
    Ok(())
}
fn c15_judge(t: &ATrace, f: &File, sync: &Trace, d: Drive, whole: bool, what: &str) -> Res {
    ensure!(t.end != End::Never, "endless", "the stream of HDUs does not end: {what}");
    ensure!(t.hdus.len() <= f.hdus.len(), "extra", "{} HDUs: {what}", t.hdus.len());
    for (i, h) in t.hdus.iter().enumerate() {
        let w = &sync.hdus[i];
        ensure!(h.kind == w.kind, "kind", "HDU {i} is {:?} instead of {:?}: {what}", h.kind, w.kind);
        ensure!(h.header == w.header, "header", "the header of HDU {i} differs: {what}");
        let full = adata(&f.hdus[i]);
        ensure!(h.data.is_prefix_of(&full), "data", "HDU {i}: {} (not a prefix): {what}", data_diff(&h.data, &full));
        if whole {
            ensure!(h.err.is_none(), "error", "HDU {i}: error {:?}: {what}", h.err);
        }
        // all of it, or an error
        if !d.partial && h.err.is_none() {
            ensure!(h.data == full, "data", "HDU {i}: {}: {what}", data_diff(&h.data, &full));
        }
    }
    if whole {
        ensure!(t.end == End::Clean, "end", "{:?}: {what}", t.end);
        ensure!(t.hdus.len() == f.hdus.len(), "missing", "{} HDUs instead of {}: {what}", t.hdus.len(), f.hdus.len());
    }
    Ok(())
}
/// On any stream, both readers deliver the same HDUs with the same headers, up to where either of them stops
fn c15_altered(ctx: &mut Ctx, rng: &mut Rng, b: &[u8]) -> Res {
    let sync = trace(Cursor::new(b), Mode::Skip);
    let d = Drive { seed: rng.u64(), drops: rng.bool(), partial: true };
    let (mut fits, st, text) = open(rng, b, None);
    let t = atrace(ctx, &mut fits, &st, d).map_err(|e| stuck(e, &text))?;
    ensure!(t.end != End::Never, "endless", "the stream of HDUs does not end: {text}");
    for (i, (a, s)) in t.hdus.iter().zip(&sync.hdus).enumerate() {
        ensure!(a.kind == s.kind && a.header == s.header, "header", "HDU {i} differs: {text}");
    }
    // an HDU whose header is complete is given by both or by none
    let sizes: u64 = sync.hdus.iter().map(|h| h.size).max().unwrap_or(0);
    if sizes <= b.len() as u64 {
        ensure!(t.hdus.len() == sync.hdus.len(), "HDUs", "{} HDUs instead of {}: {text}", t.hdus.len(), sync.hdus.len());
    }
    ctx.seen(hash_bytes(b) ^ d.seed, true);
    Ok(())
}

// ---------------------------------------------------------------- C17

/// HDUs in order, each with the start of its data
fn judge(t: &Trace, want: &Trace, sig: &str, what: &dyn Fn() -> String) -> Res {
    ensure!(t.end != End::Never, format!("{sig} endless"), "the walk does not end: {}", what());
    ensure!(t.hdus.len() <= want.hdus.len(), format!("{sig} extra"), "{} HDUs instead of {}: {}", t.hdus.len(), want.hdus.len(), what());
    for (i, (a, b)) in t.hdus.iter().zip(&want.hdus).enumerate() {
        ensure!(
            a.kind == b.kind && a.off == b.off && a.size == b.size,
            format!("{sig} HDU"),
            "HDU {i} is {:?} at {} of {} bytes instead of {:?} at {} of {}: {}",
            a.kind,
            a.off,
            a.size,
            b.kind,
            b.off,
            b.size,
            what()
        );
        ensure!(a.header == b.header, format!("{sig} header"), "the header of HDU {i} changes: {}", what());
        ensure!(a.data.is_prefix_of(&b.data), format!("{sig} data"), "HDU {i} ({:?}): {}: {}", a.kind, data_diff(&a.data, &b.data), what());
    }
    Ok(())
}

/// A stream of n bytes ends in a header, after its first card for that of an extension
fn in_header(f: &File, n: u64) -> bool {
    f.hdus.iter().enumerate().any(|(i, h)| n < h.data_off && n >= h.hdr_off + if i == 0 { 0 } else { 80 })
}

fn points(rng: &mut Rng, n: u64, max: u64) -> Vec<u64> {
    if n <= max {
        (0..n).collect()
    } else {
        (0..max).map(|_| rng.below(n)).collect()
    }
}

fn c17(ctx: &mut Ctx) -> Res {
    let rng = &mut ctx.rng.clone();
    let mut f = match ctx.idx % 8 {
        0 => file(rng, 3, 12_000),
        1..=4 if ctx.idx % 6 == 5 => {
            let mut hdus = vec![image_with(rng, Kind::Primary, 8, vec![])];
            for _ in 0..2 {
                hdus.push(bintable(rng, 900, Vla::Maybe));
            }
            File::new(hdus)
        }
        _ => file(rng, 3, 700),
    };
    if f.bytes.len() > 200_000 {
        f = file(rng, 3, 700); // every byte is a point to cut at
    }
    c17_file(ctx, rng, &f).input(&f.bytes)
}
fn c17_file(ctx: &mut Ctx, rng: &mut Rng, f: &File) -> Res {
    let mode = *rng.pick(&MODES[..3]);
    let all = trace(Cursor::new(&f.bytes[..]), mode);
    ensure!(all.end == End::Clean && all.hdus.len() == f.hdus.len(), "plain", "without fault: {:?}: {}", all.end, f.describe());
    let max = 3000;
    let fhash = hash_bytes(&f.bytes);
    match ctx.idx % 6 {
        // the stream ends early
        0 | 1 => {
            let kind = rng.below(3);
            let cap = 1 + rng.us(4000);
            for n in points(rng, f.bytes.len() as u64, max) {
                let b = &f.bytes[..n as usize];
                let what = || format!("cut at {n} of {}, {mode:?}: {}", f.bytes.len(), f.describe());
                let t = match kind {
                    0 => trace(Cursor::new(b), mode),
                    1 => trace(BufReader::with_capacity(cap, Cursor::new(b)), mode),
                    _ => trace(MonReader::mem(b, Plan { budget: 400_000, ..Plan::plain() }), mode),
                };
                judge(&t, &all, "cut", &what)?;
                // what is complete is delivered
                let hdus = f.hdus.iter().filter(|h| h.data_off <= n).count();
                ensure!(t.hdus.len() == hdus, "cut missing", "{} HDUs instead of {hdus}: {}", t.hdus.len(), what());
                if in_header(f, n) {
                    ensure!(matches!(t.end, End::Error(_)), "cut unreported", "a header cut short is taken for the end of the file: {}", what());
                    ctx.count("headers cut short", 1);
                }
                for (i, h) in t.hdus.iter().enumerate() {
                    if f.hdus[i].data_off + f.hdus[i].data.len() as u64 <= n {
                        ensure!(h.data == all.hdus[i].data, "cut missing", "HDU {i}: {}: {}", data_diff(&h.data, &all.hdus[i].data), what());
                    }
                }
                ctx.count("cut points", 1);
                ctx.count("deliveries cut short", (count_values(&t) < count_values(&all)) as u64);
                ctx.seen(fhash ^ n << 32 ^ kind, true);
            }
        }
        // the reader fails
        2 | 3 => {
            let mut plan = Plan { budget: 2_000_000, ..if rng.bool() { Plan::plain() } else { Plan::random(rng) } };
            let buffered = if rng.bool() { Some(1 + rng.us(4000)) } else { None };
            let run = |plan: &Plan| {
                let r = MonReader::mem(&f.bytes, plan.clone());
                let log = r.log.clone();
                let t = match buffered {
                    Some(c) => trace(BufReader::with_capacity(c, r), mode),
                    None => trace(r, mode),
                };
                let l = log.borrow().clone();
                (t, l)
            };
            let (t, l) = run(&plan);
            ensure!(t.same(&all), "plain", "through {plan:?}: {}: {}", t.diff(&all), f.describe());
            for fault in [Fault::Once, Fault::Sticky, Fault::Eof] {
                for k in points(rng, l.ops(), max / 3) {
                    plan.fault = Some((k, fault));
                    let (t, l) = run(&plan);
                    judge(&t, &all, "fault", &|| format!("{plan:?} {buffered:?} {mode:?}: {}", f.describe()))?;
                    if fault != Fault::Eof && t.end == End::Clean {
                        // an error of the reader is not the end of the file
                        ensure!(
                            t.hdus.len() == all.hdus.len(),
                            "fault unreported",
                            "the walk ends without error after {} HDUs of {}: {plan:?} {buffered:?} {mode:?}: {}",
                            t.hdus.len(),
                            all.hdus.len(),
                            f.describe()
                        );
                        ctx.count("walks over a passing fault", 1);
                    }
                    ctx.count("failed operations", 1);
                    ctx.count("faults hit", (l.faults > 0) as u64);
                    ctx.count("deliveries cut short", (count_values(&t) < count_values(&all)) as u64);
                    ctx.seen(fhash ^ k << 32 ^ fault as u64, l.faults > 0);
                }
            }
        }
        // compressed, asynchronous
        4 => {
            let gz = crate::tile::gzip(&f.bytes, rng.below(10) as u32);
            for n in points(rng, gz.len() as u64, 300) {
                ctx.count("compressed faults", 1);
                let what = || format!("compressed, cut at {n} of {}, {mode:?}: {}", gz.len(), f.describe());
                if let Ok(r) = GzReader::new(Cursor::new(&gz[..n as usize])) {
                    judge(&trace(r, mode), &all, "gz cut", &what)?;
                }
                ctx.seen(fhash ^ n, true);
            }
            let ops = {
                let r = MonReader::mem(&gz, Plan { chunk: Chunk::Fixed(97), ..Plan::plain() });
                let log = r.log.clone();
                let _ = GzReader::new(r);
                let n = log.borrow().ops();
                n
            };
            for fault in [Fault::Once, Fault::Sticky, Fault::Eof] {
                for k in points(rng, ops, 300) {
                    let plan = Plan { chunk: Chunk::Fixed(97), fault: Some((k, fault)), budget: 1_000_000, ..Plan::plain() };
                    ctx.count("compressed faults", 1);
                    if let Ok(r) = GzReader::new(MonReader::mem(&gz, plan.clone())) {
                        judge(&trace(r, mode), &all, "gz fault", &|| format!("compressed, {plan:?}, {mode:?}: {}", f.describe()))?;
                    }
                    ctx.seen(fhash ^ k << 20 ^ fault as u64, true);
                }
            }
            let sync = trace(Cursor::new(&f.bytes[..]), Mode::Skip);
            for fault in [Fault::Once, Fault::Sticky, Fault::Eof] {
                for _ in 0..100 {
                    let d = Drive { seed: rng.u64(), drops: rng.one_in(4), partial: rng.bool() };
                    let k = rng.below(60);
                    let (mut fits, st, text) = open(rng, &f.bytes, Some((k, fault)));
                    let what = format!("{text} {d:?}: {}", f.describe());
                    let t = atrace(ctx, &mut fits, &st, d).map_err(|e| stuck(e, &what))?;
                    c15_judge(&t, f, &sync, d, false, &what)?;
                    if fault != Fault::Eof && t.end == End::Clean {
                        ensure!(t.hdus.len() == f.hdus.len(), "async fault unreported", "the stream ends without error after {} HDUs: {what}", t.hdus.len());
                    }
                    ctx.count("asynchronous faults", 1);
                    ctx.count("faults hit", (st.borrow().faults > 0) as u64);
                    ctx.seen(fhash ^ d.seed, st.borrow().faults > 0);
                }
            }
        }
        // random reads
        _ => {
            let rows: Vec<Vec<Vec<Cell>>> =
                f.hdus.iter().map(|h| h.bin().map(|b| b.rows(&h.data, &b.all_cols(), true)).unwrap_or_default()).collect();
            for fault in [Fault::Once, Fault::Sticky, Fault::Eof, Fault::Once] {
                for _ in 0..60 {
                    let mut plan = Plan { budget: 1_000_000, seed: rng.u64(), ..Plan::plain() };
                    let seed = rng.u64();
                    // without fault first, then at one of the operations
                    let n = c17_random(ctx, &mut Rng::new(seed), f, &rows, &plan)?;
                    for _ in 0..4 {
                        plan.fault = Some((rng.below(n + 1), fault));
                        c17_random(ctx, &mut Rng::new(seed), f, &rows, &plan)?;
                    }
                    ctx.seen(fhash ^ seed, true);
                }
            }
        }
    }
    ctx.sample(|| f.describe());
    Ok(())
}

fn c17_random(ctx: &mut Ctx, rng: &mut Rng, f: &File, rows: &[Vec<Vec<Cell>>], plan: &Plan) -> Result<u64, Fail> {
    let r = MonReader::mem(&f.bytes, plan.clone());
    let log = r.log.clone();
    let mut fits = Fits::from_reader(r);
    let mut i = 0;
    while let Some(Ok(h)) = fits.next() {
        ensure!(i < f.hdus.len() && kind(&h) == f.hdus[i].kind && h.get_data_unit_byte_offset() == f.hdus[i].data_off, "fault HDU", "HDU {i}: {plan:?}: {}", f.describe());
        random_reads(ctx, rng, &mut fits, &h, &f.hdus[i], &rows[i], &|| format!("{plan:?}: {}", f.describe()))?;
        i += 1;
    }
    ctx.count("faults hit", (log.borrow().faults > 0) as u64);
    let n = log.borrow().ops();
    Ok(n)
}
/// Every value given is the stored one
fn random_reads<R: Read + Seek + Debug>(
    ctx: &mut Ctx,
    rng: &mut Rng,
    fits: &mut Fits<R>,
    h: &HDU,
    f: &Hdu,
    rows: &[Vec<Cell>],
    what: &dyn Fn() -> String,
) -> Res {
    match h {
        HDU::Primary(h) | HDU::XImage(h) => {
            let want = f.pixels();
            let n = want.len();
            macro_rules! go {
                ($it:expr, $f:expr) => {{
                    let mut it = $it;
                    let mut cur = 0;
                    let mut failed = false;
                    for _ in 0..rng.us(12) {
                        if n > 0 && rng.bool() {
                            let k = rng.us(n);
                            ctx.count("random reads under faults", 1);
                            match it.read_value(k).map($f) {
                                Ok(v) => {
                                    ensure!(v == want[k], "fault pixel", "pixel {k} is {v:x} instead of {:x}: {}", want[k], what());
                                    cur = k + 1;
                                    failed = false;
                                }
                                Err(_) => failed = true,
                            }
                        } else {
                            match it.next().map($f) {
                                // after a failure the place of the value is not known
                                Some(v) if failed => ensure!(want.contains(&v), "fault pixel", "{v:x} is not a pixel: {}", what()),
                                Some(v) => {
                                    ensure!(cur < n && v == want[cur], "fault pixel", "pixel {cur} is {v:x}: {}", what());
                                    cur += 1;
                                }
                                None => failed = failed || cur < n,
                            }
                        }
                    }
                }};
            }
            match fits.get_data(h).pixels() {
                Pixels::U8(it) => go!(it, |x| x as u64),
                Pixels::I16(it) => go!(it, |x| x as u16 as u64),
                Pixels::I32(it) => go!(it, |x| x as u32 as u64),
                Pixels::I64(it) => go!(it, |x| x as u64),
                Pixels::F32(it) => go!(it, |x| x.to_bits() as u64),
                Pixels::F64(it) => go!(it, |x| x.to_bits()),
            }
        }
        HDU::XBinaryTable(h) => {
            let n = rows.len();
            if n == 0 {
                return Ok(());
            }
            let mut t = fits.get_data(h).table_data();
            let mut selected = vec![];
            if let (true, Some(b)) = (rng.bool(), f.bin().filter(|b| !b.cols.is_empty())) {
                // some columns only
                let mut cols: Vec<usize> = (0..1 + rng.us(3)).map(|_| rng.us(b.cols.len())).collect();
                cols.sort();
                cols.dedup();
                let ids: Vec<ColumnId> = cols.iter().map(|&c| ColumnId::Index(c)).collect();
                t.select_fields(&ids);
                selected = b.rows(&f.data, &cols, true);
                ctx.count("selections under faults", 1);
            }
            let rows = if selected.is_empty() { rows } else { &selected };
            // values expected from the current row on
            let mut left: Option<std::iter::Flatten<std::slice::Iter<'_, Vec<Cell>>>> = Some(rows.iter().flatten());
            for _ in 0..rng.us(8) {
                if rng.bool() {
                    let k = rng.us(n);
                    ctx.count("random reads under faults", 1);
                    match t.seek_to_row(k) {
                        Ok(_) => left = Some(rows[k..].iter().flatten()),
                        Err(_) => left = None,
                    }
                }
                for _ in 0..rng.us(40) {
                    let Some(v) = t.next().map(|v| cell(&v)) else {
                        // at the end or failed: nothing more until a seek
                        left = None;
                        continue;
                    };
                    match &mut left {
                        Some(it) => {
                            let w = it.next().copied();
                            ensure!(w == Some(v), "fault cell", "{v:?} instead of {w:?}: {}", what());
                        }
                        None => {
                            ensure!(rows.iter().flatten().any(|c| *c == v), "fault cell", "{v:?} is in no cell: {}", what());
                        }
                    }
                }
            }
        }
        _ => (),
    }
    Ok(())
}
