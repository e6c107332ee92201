//! C01, C02, C20: walking over the HDUs
use crate::ctx::{Ctx, Res, WithInput};
use crate::gen::*;
use crate::mon::*;
use crate::obs::*;
use crate::rng::{hash_bytes, Rng};
use crate::{alloc, bail, ensure, Prop};
use fitsrs::hdu::data::bintable::data::BinaryTableData;
use fitsrs::hdu::data::bintable::ColumnId;
use fitsrs::{Fits, Pixels, HDU};
use std::fmt::Debug;
use std::io::{BufReader, Cursor, Read, Seek};
use std::rc::Rc;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            level: "exploration",
            cases: [40_000, 2_400_000],
            run: c01,
            rule: "a generated file of 1 to 310 HDUs walked to the end, judged on kind, offset, size of each HDU and on the end; non trivial: at least 2 HDUs, distinct by the sequence of (kind, offset, size)",
            floors: &[("large files", 50), ("HDUs", 5_000), ("Primary", 500), ("Image", 300), ("IUEIMAGE", 100), ("Ascii", 300), ("Bin", 300), ("without final padding", 200), ("data units of 0 byte", 300), ("heap in PCOUNT", 200)],
            assumptions: &["well-formed means as the writer in harness/src/gen.rs makes them: mandatory keywords first, the other cards in any order"],
        },
        Prop {
            id: "C02",
            level: "exploration",
            cases: [50_000, 3_000_000],
            run: c02,
            rule: "a generated file walked while a random history of reads is done on each data unit, against the walk that reads nothing; non trivial: some data operation was done before the last HDU, distinct by operations and file",
            floors: &[("large files", 50), ("HDUs reached after data operations", 4_000), ("clones", 300), ("row seeks", 300), ("read_value", 300), ("raw reads past the data unit", 50), ("next after the end", 3_000)],
            assumptions: &["the data of an HDU is asked for while it is the current one"],
        },
        Prop {
            id: "C20",
            level: "exploration",
            cases: [20_000, 600_000],
            run: c20,
            rule: "a virtual file with data units from 2 GiB to 2^62 bytes walked and read at random places, with bounds on bytes read and memory; non trivial: some data unit is above 4 GiB, distinct by layout and places read",
            floors: &[("data units above 4 GiB", 500), ("random pixels", 2_000), ("row seeks", 300), ("heap arrays", 100), ("HDUs after a huge data unit", 300), ("ASCII tables", 200), ("tile-compressed images", 200), ("asynchronous walks", 100), ("rows above 4 GiB", 200)],
            assumptions: &["the reader is seekable; usize has 64 bits"],
        },
    ]
}

fn c01(ctx: &mut Ctx) -> Res {
    let rng = &mut ctx.rng.clone();
    if ctx.idx % 200 == 133 {
        return large_file(ctx, rng, Some(Kind::Primary));
    }
    let mut f = match ctx.idx % 50 {
        7 if ctx.idx % 1000 == 7 => many_hdus(rng),
        7 => file(rng, 70, 400),
        13 => file(rng, 4, 40_000),
        _ => file(rng, 8, 9_000),
    };
    if rng.one_in(3) {
        f.cut_padding(rng);
    }
    // the other name of the image extension
    if rng.one_in(8) {
        for h in &mut f.hdus {
            let at = h.hdr_off as usize;
            if f.bytes[at..].starts_with(b"XTENSION= 'IMAGE   '") {
                f.bytes[at + 11..at + 19].copy_from_slice(b"IUEIMAGE");
                ctx.count("IUEIMAGE", 1);
            }
        }
    }
    c01_file(ctx, rng, &f).input(&f.bytes)
}
/// More HDUs than 8 bits count
fn many_hdus(rng: &mut Rng) -> File {
    let mut hdus = vec![image_with(rng, Kind::Primary, 8, vec![])];
    for _ in 0..250 + rng.us(60) {
        hdus.push(extension(rng, 30));
    }
    File::new(hdus)
}
fn c01_file(ctx: &mut Ctx, rng: &mut Rng, f: &File) -> Res {
    if f.bytes.len() % 2880 != 0 {
        ctx.count("without final padding", 1);
    }
    for h in &f.hdus {
        ctx.count(&format!("{:?}", h.kind), 1);
        ctx.count("data units of 0 byte", h.data.is_empty() as u64);
        ctx.count("HDUs", 1);
        if let Spec::Bin(b) | Spec::Tile(_, b) = &h.spec {
            ctx.count("heap in PCOUNT", (b.pcount > 0) as u64);
        }
    }
    match rng.below(4) {
        0 => c01_walk(&mut Fits::from_reader(Cursor::new(&f.bytes[..])), f)?,
        1 => {
            let cap = 1 + rng.us(9000);
            c01_walk(&mut Fits::from_reader(BufReader::with_capacity(cap, Cursor::new(&f.bytes[..]))), f)?
        }
        _ => c01_walk(&mut Fits::from_reader(MonReader::mem(&f.bytes, Plan::random(rng))), f)?,
    }
    let key: Vec<_> = f.hdus.iter().map(|h| (h.kind, h.data_off, h.data.len())).collect();
    ctx.seen_dbg(&key, f.hdus.len() > 1);
    ctx.sample(|| f.describe());
    Ok(())
}
fn c01_walk<R: Read + Seek + Debug>(fits: &mut Fits<R>, f: &File) -> Res {
    for (i, h) in f.hdus.iter().enumerate() {
        match fits.next() {
            Some(Ok(x)) => {
                ensure!(kind(&x) == h.kind, "kind", "HDU {i} is {:?} instead of {:?}: {}", kind(&x), h.kind, f.describe());
                let (o, s) = (x.get_data_unit_byte_offset(), x.get_data_unit_byte_size());
                ensure!(o == h.data_off, "offset", "data unit {i} at {o} instead of {}: {}", h.data_off, f.describe());
                let want = h.data.len() as u64;
                ensure!(s == want, "size", "data unit {i} of {s} bytes instead of {want}: {}", f.describe());
                let p = fits.get_position_data_unit() as u64;
                ensure!(p == h.data_off, "position", "position {p} instead of {}", h.data_off);
            }
            Some(Err(e)) => bail!("error", "HDU {i} is refused: {e}: {}", f.describe()),
            None => bail!("missing", "the walk ends before HDU {i}: {}", f.describe()),
        }
    }
    for _ in 0..3 {
        match fits.next() {
            None => (),
            Some(Ok(_)) => bail!("extra", "one HDU too many: {}", f.describe()),
            Some(Err(e)) => bail!("end", "the walk ends with an error: {e}: {}", f.describe()),
        }
    }
    Ok(())
}

/// Does something with the data of the current HDU. Returns what.
pub fn disturb<R: Read + Seek + Debug>(ctx: &mut Ctx, rng: &mut Rng, fits: &mut Fits<R>, h: &HDU, size: u64) -> String {
    let some = |rng: &mut Rng| match rng.below(4) {
        0 => rng.us(4),
        1 => rng.us(100),
        2 => rng.us(5000),
        _ => ENDLESS,
    };
    if rng.one_in(8) {
        // raw bytes through the handle
        let n = match rng.below(5) {
            0 => size as usize,
            1 => size as usize + rng.us(6000),
            2 => (size as usize).next_multiple_of(2880),
            _ => rng.us(size as usize + 1),
        };
        let n = n.min(300_000);
        let (got, _) = bytes(&mut *fits, n);
        ctx.count("raw reads", 1);
        if got.len() as u64 > size {
            ctx.count("raw reads past the data unit", 1);
        }
        return format!("read {n} bytes");
    }
    match h {
        HDU::Primary(h) | HDU::XImage(h) => {
            let npix = h.get_header().get_xtension().get_num_pixels() as usize;
            let mut s = String::from("image");
            macro_rules! go {
                ($it:expr) => {{
                    let mut it = $it;
                    for _ in 0..rng.us(5) {
                        if rng.bool() {
                            let i = if rng.one_in(5) { npix + rng.us(3) } else { rng.us(npix.max(1)) };
                            let _ = it.read_value(i);
                            ctx.count("read_value", 1);
                            s.push_str(&format!(" [{i}]"));
                        } else {
                            let n = some(rng);
                            let k = it.by_ref().take(n.min(400_000)).count();
                            s.push_str(&format!(" next*{k}"));
                        }
                    }
                }};
            }
            match fits.get_data(h).pixels() {
                Pixels::U8(it) => go!(it),
                Pixels::I16(it) => go!(it),
                Pixels::I32(it) => go!(it),
                Pixels::I64(it) => go!(it),
                Pixels::F32(it) => go!(it),
                Pixels::F64(it) => go!(it),
            }
            s
        }
        HDU::XASCIITable(h) => {
            let n = some(rng).min(400_000);
            let (b, _) = bytes(fits.get_data(h), n);
            format!("ascii {} bytes", b.len())
        }
        HDU::XBinaryTable(h) => {
            let nrows = h.get_header().get_xtension().get_num_rows();
            let ncols = h.get_header().get_xtension().get_num_cols();
            let d = fits.get_data(h);
            let d = match d {
                BinaryTableData::TileCompressed(p) if rng.below(3) > 0 => {
                    let n = some(rng).min(400_000);
                    let (_, v) = tiles(p, n);
                    return format!("tiles {} pixels", v.len());
                }
                d => d,
            };
            let mut s = String::from("table");
            if rng.one_in(3) {
                let n = some(rng).min(50_000);
                let mut values = 0;
                let mut k = 0;
                for r in d.row_iter().take(n) {
                    k += 1;
                    values += r.len();
                    if values > 400_000 {
                        break;
                    }
                }
                return format!("table {k} rows");
            }
            let mut t = d.table_data();
            for _ in 0..rng.us(5) {
                match rng.below(4) {
                    0 => {
                        let more = 1 + rng.us(2);
                        let r = rng.us(nrows.saturating_add(more));
                        let _ = t.seek_to_row(r);
                        ctx.count("row seeks", 1);
                        s.push_str(&format!(" row {r}"));
                    }
                    1 => {
                        let c: Vec<ColumnId> = (0..rng.us(4)).map(|_| ColumnId::Index(rng.us(ncols + 1))).collect();
                        t.select_fields(&c);
                        s.push_str(" select");
                    }
                    _ => {
                        let n = some(rng).min(400_000);
                        let k = t.by_ref().take(n).count();
                        s.push_str(&format!(" next*{k}"));
                    }
                }
            }
            if rng.one_in(6) {
                let n = some(rng).min(50_000);
                let (b, _) = bytes(t.bytes(), n);
                s.push_str(&format!(" bytes {}", b.len()));
            }
            s
        }
    }
}

fn c02(ctx: &mut Ctx) -> Res {
    let rng = &mut ctx.rng.clone();
    if ctx.idx % 200 == 133 {
        return large_file(ctx, rng, Some(Kind::Bin));
    }
    let mut f = file(rng, 6, 7_000);
    if rng.one_in(4) {
        f.cut_padding(rng);
    }
    let quiet = trace(Cursor::new(&f.bytes[..]), Mode::Skip);
    c02_file(ctx, rng, &f, &quiet).input(&f.bytes)
}
fn c02_file(ctx: &mut Ctx, rng: &mut Rng, f: &File, quiet: &Trace) -> Res {
    ensure!(quiet.end == End::Clean, "walk", "the plain walk ends with {:?}: {}", quiet.end, f.describe());
    ensure!(quiet.hdus.len() == f.hdus.len(), "walk", "the plain walk gives {} HDUs: {}", quiet.hdus.len(), f.describe());
    if rng.bool() {
        let cap = *rng.pick(&[1, 80, 2880, 8192, 100_000]);
        let r = BufReader::with_capacity(cap, Cursor::new(&f.bytes[..]));
        // not Clone
        let mut ops = vec![];
        let mut fits = Fits::from_reader(r);
        for i in 0..=f.hdus.len() + 1 {
            let Some(h) = c02_next(ctx, &mut fits, i, f, quiet, &ops)? else { continue };
            for _ in 0..rng.us(3) {
                ops.push(format!("{i}: {}", disturb(ctx, rng, &mut fits, &h, f.hdus[i].data.len() as u64)));
            }
        }
        finish(ctx, f, ops);
        return Ok(());
    }
    let mem = Rc::new(f.bytes.clone());
    let plan = if rng.bool() { Plan::plain() } else { Plan::random(rng) };
    let fits = Fits::from_reader(MonReader::new(Src::Mem(mem), plan));
    // handles walking on their own, interleaved
    let mut handles = vec![(fits, 0_usize)];
    let mut ops: Vec<String> = vec![];
    let mut steps = 0;
    while handles.iter().any(|h| h.1 <= f.hdus.len() + 1) && steps < 60 {
        steps += 1;
        let k = rng.us(handles.len());
        let (fits, i) = &mut handles[k];
        if *i > f.hdus.len() + 1 {
            continue;
        }
        let h = c02_next(ctx, fits, *i, f, quiet, &ops)?;
        let at = *i;
        *i += 1;
        if let Some(h) = h {
            for _ in 0..rng.us(3) {
                let d = disturb(ctx, rng, fits, &h, f.hdus[at].data.len() as u64);
                ops.push(format!("handle {k}, HDU {at}: {d}"));
            }
        }
        if handles.len() < 3 && rng.one_in(6) {
            let c = handles[k].0.clone();
            let i = handles[k].1;
            handles.push((c, i));
            ops.push(format!("clone handle {k}"));
            ctx.count("clones", 1);
        }
    }
    finish(ctx, f, ops);
    Ok(())
}
fn finish(ctx: &mut Ctx, f: &File, ops: Vec<String>) {
    let key = hash_bytes(format!("{ops:?}").as_bytes()) ^ hash_bytes(&f.bytes);
    ctx.seen(key, !ops.is_empty() && f.hdus.len() > 1);
    ctx.sample(|| format!("{} // {}", f.describe(), ops.join("; ")));
}
fn c02_next<R: Read + Seek + Debug>(
    ctx: &mut Ctx,
    fits: &mut Fits<R>,
    i: usize,
    f: &File,
    quiet: &Trace,
    ops: &[String],
) -> Result<Option<HDU>, crate::ctx::Fail> {
    let n = fits.next();
    let want = quiet.hdus.get(i);
    match (n, want) {
        (None, None) => {
            ctx.count("next after the end", 1);
            Ok(None)
        }
        (Some(Ok(h)), Some(w)) => {
            let (o, s) = (h.get_data_unit_byte_offset(), h.get_data_unit_byte_size());
            ensure!(
                kind(&h) == w.kind && o == w.off && s == w.size,
                "wrong HDU",
                "HDU {i} is {:?} at {o} of {s} bytes instead of {:?} at {} of {}, after {ops:?}: {}",
                kind(&h),
                w.kind,
                w.off,
                w.size,
                f.describe()
            );
            ensure!(o == f.hdus[i].data_off, "wrong HDU", "HDU {i} at {o}: {}", f.describe());
            ensure!(hdu_text(&h) == w.header, "header", "the header of HDU {i} changes after {ops:?}: {}", f.describe());
            if !ops.is_empty() {
                ctx.count("HDUs reached after data operations", 1);
            }
            Ok(Some(h))
        }
        (Some(Err(e)), _) => bail!("error", "HDU {i}: error {e} after {ops:?}: {}", f.describe()),
        (None, Some(_)) => bail!("missing", "the walk ends before HDU {i} after {ops:?}: {}", f.describe()),
        (Some(Ok(_)), None) => bail!("extra", "one HDU too many after {ops:?}: {}", f.describe()),
    }
}

// ---------------------------------------------------------------- C20

struct Big {
    kind: Kind,
    cards: Vec<crate::cardgen::Buf>,
    size: u64,
    bin: Option<BinSpec>,
    bitpix: i64,
    npix: u64,
    data_off: u64,
    /// A tile-compressed image, and its bytes in the data unit
    tile: Option<crate::tile::TileSpec>,
    parts: Vec<(u64, Vec<u8>)>,
}

/// A size above 32 bits, near the limits where arithmetic goes wrong
fn huge(rng: &mut Rng) -> u64 {
    match rng.below(6) {
        0 => (1 << 31) + rng.below(9000) - 4500,
        1 => (1 << 32) + rng.below(9000) - 4500,
        2 => (1 << 33) + rng.below(1 << 20),
        3 => (1 << 40) + rng.below(1 << 30),
        4 => 1 << rng.range(33, 58),
        _ => rng.range(1 << 32, 1 << 36) as u64,
    }
}

/// A large ASCII table
fn big_ascii(rng: &mut Rng) -> Big {
    let mut h = ascii(rng, 0);
    while matches!(h.spec, Spec::Ascii { naxis1: 0, .. }) {
        h = ascii(rng, 0);
    }
    let Spec::Ascii { naxis1, .. } = h.spec else { unreachable!() };
    let naxis2 = huge(rng) / naxis1;
    let at = h.cards.iter().position(|c| c.starts_with(b"NAXIS2 ")).unwrap();
    h.cards[at] = crate::cardgen::card_int("NAXIS2", naxis2 as i128);
    Big { kind: Kind::Ascii, cards: h.cards, size: naxis1 * naxis2, bin: None, bitpix: 8, npix: 0, data_off: 0, tile: None, parts: vec![] }
}
/// A tile-compressed image far in its data unit
fn big_tile(rng: &mut Rng) -> Big {
    let w = crate::tile::Want { float: false, npix: 200, row_tiles: false, dims2: false, planes: None, many: false };
    let mut h = crate::tile::tile_image(rng, &w, &mut [0; 3]);
    let Spec::Tile(t, b) = h.spec else { unreachable!() };
    let main = b.rowlen * b.nrows as usize;
    let mut rows = h.data[..main].to_vec();
    let heap = h.data[b.theap as usize..].to_vec();
    let col = b.cols.iter().find(|c| c.vla.is_some()).unwrap();
    let gap = if rng.bool() { huge(rng) } else { 0 };
    let shift = if col.vla == Some('P') { rng.below((1 << 32) - 1_000_000) } else { huge(rng) };
    for r in 0..b.nrows as usize {
        let at = r * b.rowlen + col.off;
        if col.vla == Some('P') {
            let o = u32::from_be_bytes(rows[at + 4..at + 8].try_into().unwrap()) + shift as u32;
            rows[at + 4..at + 8].copy_from_slice(&o.to_be_bytes());
        } else {
            let o = u64::from_be_bytes(rows[at + 8..at + 16].try_into().unwrap()) + shift;
            rows[at + 8..at + 16].copy_from_slice(&o.to_be_bytes());
        }
    }
    let theap = main as u64 + gap;
    let pcount = gap + shift + heap.len() as u64;
    h.cards.retain(|c| !c.starts_with(b"THEAP   "));
    h.cards.push(crate::cardgen::card_int("THEAP", theap as i128));
    let at = h.cards.iter().position(|c| c.starts_with(b"PCOUNT  ")).unwrap();
    h.cards[at] = crate::cardgen::card_int("PCOUNT", pcount as i128);
    Big {
        kind: Kind::Bin,
        cards: h.cards,
        size: main as u64 + pcount,
        bin: None,
        bitpix: 8,
        npix: 0,
        data_off: 0,
        tile: Some(t),
        parts: vec![(0, rows), (theap + shift, heap)],
    }
}
fn big_hdu(rng: &mut Rng, first: bool) -> Big {
    if !first && rng.one_in(3) {
        return if rng.bool() { big_ascii(rng) } else { big_tile(rng) };
    }
    if first || rng.bool() {
        let kind = if first { Kind::Primary } else { Kind::Image };
        let bitpix = *rng.pick(&BITPIX);
        let sz = bitpix.unsigned_abs() / 8;
        let want = huge(rng) / sz;
        let naxisn = match rng.below(3) {
            0 => vec![want],
            1 => {
                let a = 1 + rng.below(70_000);
                vec![a, want / a]
            }
            _ => {
                let a = 1 + rng.below(50_000);
                let b = 1 + rng.below(50);
                vec![a, want / (a * b), b]
            }
        };
        let npix: u64 = naxisn.iter().product();
        let mut cards = image_cards(rng, kind, bitpix, &naxisn);
        noise(rng, &mut cards);
        Big { kind, cards, size: npix * sz, bin: None, bitpix, npix, data_off: 0, tile: None, parts: vec![] }
    } else {
        let mut cols: Vec<Col> = vec![];
        for _ in 0..1 + rng.us(4) {
            let mut c = if rng.bool() { fixed_col(rng) } else { vla_col(rng) };
            while c.width == 0 {
                c = fixed_col(rng);
            }
            cols.push(c);
        }
        if cols.iter().all(|c| c.vla.is_none()) {
            let mut c = vla_col(rng);
            while c.width == 0 {
                c = vla_col(rng);
            }
            cols.push(c);
        }
        // sometimes a row of more than 4 GiB
        let wide = rng.one_in(6);
        if wide {
            let n = (1 << 32) + rng.us(1 << 33);
            let at = rng.us(cols.len() + 1);
            cols.insert(at, col_of(*rng.pick(&['B', 'A', 'L']), n));
        }
        let rowlen = finish_cols(rng, &mut cols);
        let nrows = if wide {
            1 + rng.below(30)
        } else if rng.bool() {
            huge(rng) / rowlen as u64
        } else {
            1 + rng.below(1000)
        };
        let gap = if rng.one_in(3) { huge(rng) } else { 0 };
        let heap = huge(rng);
        let main = nrows * rowlen as u64;
        let bin = BinSpec { cols, nrows, rowlen, theap: main + gap, pcount: gap + heap };
        let explicit = gap > 0 || rng.bool();
        let mut cards = bin_cards(rng, &bin, explicit, &[]);
        noise(rng, &mut cards);
        let size = main + gap + heap;
        Big { kind: Kind::Bin, cards, size, bin: Some(bin), bitpix: 8, npix: 0, data_off: 0, tile: None, parts: vec![] }
    }
}

/// An asynchronous walk over a large data unit
pub fn async_walk(ctx: &mut Ctx, rng: &mut Rng) -> Res {
    let first = rng.bool();
    let b = loop {
        let b = big_hdu(rng, first);
        if b.size < 1 << 36 {
            break b;
        }
    };
    super::stream::async_huge(ctx, rng, b.kind, &b.cards, b.size)
}

fn c20(ctx: &mut Ctx) -> Res {
    let rng = &mut ctx.rng.clone();
    if ctx.idx % 100 == 50 {
        return async_walk(ctx, rng);
    }
    large_file(ctx, rng, None)
}

/// Reads here and there in a file with data units above 4 GiB; `focus`: one of them is of this kind
pub fn large_file(ctx: &mut Ctx, rng: &mut Rng, focus: Option<Kind>) -> Res {
    let strict = focus.is_none();
    if !strict {
        ctx.count("large files", 1);
    }
    let mut virt = Virt { len: 0, seed: rng.u64(), ..Default::default() };
    let mut hdus = vec![];
    for i in 0..if strict { 1 + rng.us(5) } else { 2 + rng.us(3) } {
        let mut b = big_hdu(rng, i == 0);
        while i == 1 && focus.is_some_and(|k| k != b.kind && k != Kind::Primary) {
            b = big_hdu(rng, false);
        }
        let mut h = b.cards.concat();
        h.extend_from_slice(&crate::cardgen::pad80("END"));
        h.resize(h.len().next_multiple_of(2880), b' ');
        let at = virt.len;
        virt.len += h.len() as u64;
        virt.patches.insert(at, h);
        b.data_off = virt.len;
        for (at, bytes) in b.parts.drain(..) {
            virt.patches.insert(virt.len + at, bytes);
        }
        virt.len += b.size.next_multiple_of(2880);
        hdus.push(b);
    }
    let end = hdus.last().unwrap();
    if rng.one_in(3) {
        virt.len = end.data_off + end.size;
    }
    // rows that will be looked at, with descriptors of arrays deep in the heap
    let mut rows: Vec<Vec<u64>> = vec![];
    for b in &hdus {
        let mut mine = vec![];
        if let Some(s) = &b.bin {
            for _ in 0..4 {
                let r = match rng.below(4) {
                    0 => 0,
                    1 => s.nrows - 1,
                    _ => rng.below(s.nrows),
                };
                mine.push(r);
                for c in s.cols.iter() {
                    let at = b.data_off + r * s.rowlen as u64 + c.off as u64;
                    if let Some(pq) = c.vla {
                        let n = rng.below(6);
                        let room = s.pcount - (s.theap - s.nrows * s.rowlen as u64) - 6 * 16;
                        let off = if pq == 'P' { rng.below(room.min(1 << 32)) } else { rng.below(room) };
                        let d = if pq == 'P' {
                            [(n as u32).to_be_bytes(), (off as u32).to_be_bytes()].concat()
                        } else {
                            [n.to_be_bytes(), off.to_be_bytes()].concat()
                        };
                        virt.patches.insert(at, d);
                    }
                }
            }
        }
        rows.push(mine);
    }
    let virt = Rc::new(virt);
    let mon = MonReader::new(Src::Virt(virt.clone()), Plan { budget: 3_000_000, ..Plan::plain() });
    let log = mon.log.clone();
    let text: Vec<String> = hdus.iter().map(|b| format!("{:?} of {} bytes at {}", b.kind, b.size, b.data_off)).collect();
    let base = alloc::reset_peak();
    let mut places = vec![];
    let buffered = rng.one_in(3);
    let work = if buffered {
        let mut fits = Fits::from_reader(BufReader::with_capacity(*rng.pick(&[64, 8192]), mon));
        c20_walk(ctx, rng, &mut fits, &hdus, &virt, &rows, &mut places, &text)?
    } else {
        c20_walk(ctx, rng, &mut Fits::from_reader(mon), &hdus, &virt, &rows, &mut places, &text)?
    };
    // bounds: what was looked at, not what was skipped
    let headers: u64 = hdus.iter().map(|b| b.cards.len() as u64 * 80 + 2 * 2880).sum();
    let bytes = log.borrow().bytes;
    let limit = 4 * headers + work * 20_000 + 100_000;
    ensure!(!strict || bytes <= limit, "bytes read", "{bytes} bytes read for {headers} bytes of headers and {work} values: {text:?}");
    let mem = alloc::peak() - base;
    ensure!(!strict || mem <= (16 << 20) + 60 * headers + work * 10_000, "memory", "{mem} bytes of memory taken: {text:?}");
    ctx.max("bytes read in a case", bytes);
    ctx.max("bytes of memory in a case", mem);
    let big = hdus.iter().filter(|b| b.size > 1 << 32).count() as u64;
    ctx.count("data units above 4 GiB", big);
    ctx.seen_dbg(&(&text, &places), big > 0);
    ctx.sample(|| format!("{} // {}", text.join(", "), places.join(" ")));
    Ok(())
}

#[allow(clippy::too_many_arguments)]
fn c20_walk<R: Read + Seek + Debug>(
    ctx: &mut Ctx,
    rng: &mut Rng,
    fits: &mut Fits<R>,
    hdus: &[Big],
    virt: &Virt,
    rows: &[Vec<u64>],
    places: &mut Vec<String>,
    text: &[String],
) -> Result<u64, crate::ctx::Fail> {
    let mut work = 0;
    for (i, b) in hdus.iter().enumerate() {
        let h = match fits.next() {
            Some(Ok(h)) => h,
            Some(Err(e)) => bail!("error", "HDU {i} refused: {e}: {text:?}"),
            None => bail!("missing", "the walk ends before HDU {i}: {text:?}"),
        };
        let (o, s) = (h.get_data_unit_byte_offset(), h.get_data_unit_byte_size());
        ensure!(
            kind(&h) == b.kind && o == b.data_off && s == b.size,
            "location",
            "HDU {i} is {:?} at {o} of {s} bytes: {text:?}",
            kind(&h)
        );
        if i > 0 {
            ctx.count("HDUs after a huge data unit", 1);
        }
        if rng.one_in(4) {
            continue; // skipped
        }
        match &h {
            HDU::Primary(h) | HDU::XImage(h) => {
                let n = b.npix;
                ensure!(h.get_header().get_xtension().get_num_pixels() == n, "pixels", "HDU {i}: number of pixels: {text:?}");
                let sz = b.bitpix.unsigned_abs() as usize / 8;
                let want = |k: u64| virt.get(b.data_off + k * sz as u64, sz).iter().fold(0_u64, |a, &x| a << 8 | x as u64);
                macro_rules! go {
                    ($it:expr, $f:expr) => {{
                        let mut it = $it;
                        let mut cur = 0_u64;
                        for _ in 0..1 + rng.us(8) {
                            let k = match rng.below(5) {
                                0 => n - 1,
                                1 => rng.below(n.min(10)),
                                2 => n + rng.below(3),
                                _ => rng.below(n),
                            };
                            let got = it.read_value(k as usize).ok().map($f);
                            work += 1;
                            let w = if k < n { Some(want(k)) } else { None };
                            ensure!(got == w, "pixel", "pixel {k} of HDU {i} is {got:?} instead of {w:?}: {text:?}");
                            ctx.count("random pixels", 1);
                            places.push(format!("{i}[{k}]"));
                            if k < n {
                                cur = k + 1;
                            }
                            for _ in 0..rng.us(3) {
                                let got = it.next().map($f);
                                let w = if cur < n { Some(want(cur)) } else { None };
                                ensure!(got == w, "pixel", "pixel {cur} of HDU {i} after {k}: {got:?} instead of {w:?}: {text:?}");
                                cur = (cur + 1).min(n);
                                work += 1;
                            }
                        }
                    }};
                }
                match fits.get_data(h).pixels() {
                    Pixels::U8(it) => go!(it, |x| x as u64),
                    Pixels::I16(it) => go!(it, |x| x as u16 as u64),
                    Pixels::I32(it) => go!(it, |x| x as u32 as u64),
                    Pixels::I64(it) => go!(it, |x| x as u64),
                    Pixels::F32(it) => go!(it, |x| x.to_bits() as u64),
                    Pixels::F64(it) => go!(it, |x| x.to_bits()),
                }
            }
            HDU::XASCIITable(h) => {
                let n = rng.us(400).min(b.size as usize);
                let (got, e) = bytes(fits.get_data(h), n);
                ensure!(e.is_none() && got == virt.get(b.data_off, n), "ascii", "the first {n} bytes of HDU {i}: {text:?}");
                work += 1;
                ctx.count("ASCII tables", 1);
                places.push(format!("{i}..{n}"));
            }
            HDU::XBinaryTable(h) if b.tile.is_some() => {
                let t = b.tile.as_ref().unwrap();
                let BinaryTableData::TileCompressed(p) = fits.get_data(h) else { bail!("tile", "HDU {i} is not taken for an image: {text:?}") };
                let want = t.int_pixels();
                let (_, got) = tiles(p, want.len() + 1);
                work += 2 * t.q.len() as u64 + 4;
                ensure!(got == want, "tile", "pixels of HDU {i}, {}: {} instead of {}, or other ones: {text:?}", t.describe(), got.len(), want.len());
                ctx.count("tile-compressed images", 1);
                places.push(format!("{i} tiles"));
            }
            HDU::XBinaryTable(h) => {
                let s = b.bin.as_ref().unwrap();
                let mut t = fits.get_data(h).table_data();
                let mut cols = s.all_cols();
                let wide = s.cols.iter().any(|c| c.width > 1 << 31);
                if rng.bool() || wide {
                    cols = (0..1 + rng.us(3)).map(|_| rng.us(s.cols.len())).collect();
                    if wide {
                        // all that is read, and not the column of 4 GiB
                        cols.extend(0..s.cols.len());
                        cols.retain(|&c| s.cols[c].width <= 1 << 31);
                        ctx.count("rows above 4 GiB", 1);
                    }
                    cols.sort();
                    cols.dedup();
                    t.select_fields(&cols.iter().map(|&c| ColumnId::Index(c)).collect::<Vec<_>>());
                }
                let get = |o: u64, n: usize| virt.get(b.data_off + o, n);
                for &r in &rows[i] {
                    let want = s.row_cells(&get, r, &cols, true);
                    if let Err(e) = t.seek_to_row(r as usize) {
                        bail!("seek", "row {r} of HDU {i} refused: {e}: {text:?}");
                    }
                    let got: Vec<Cell> = t.by_ref().take(want.len()).map(|v| cell(&v)).collect();
                    work += 2 + got.len() as u64 / 10 + cols.len() as u64 * 3;
                    ctx.count("row seeks", 1);
                    ctx.count("heap arrays", cols.iter().filter(|&&c| s.cols[c].vla.is_some()).count() as u64);
                    ensure!(got == want, "cells", "row {r} of HDU {i}: {}: {text:?}", data_diff(&Data::Cells(got), &Data::Cells(want)));
                    places.push(format!("{i}.row{r}"));
                }
                ensure!(t.seek_to_row(s.nrows as usize).is_err(), "seek", "row past the end of HDU {i} accepted: {text:?}");
            }
            _ => (),
        }
    }
    for _ in 0..2 {
        ensure!(fits.next().is_none(), "end", "the walk does not end: {text:?}");
    }
    Ok(work)
}
