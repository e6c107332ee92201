//! C08, C09, C10: binary tables
use crate::cardgen::{card_int, card_str};
use crate::ctx::{Ctx, Fail, Res, WithInput};
use crate::gen::*;
use crate::mon::*;
use crate::obs::*;
use crate::rng::{hash_bytes, Rng};
use crate::{bail, ensure, Prop};
use fitsrs::hdu::data::bintable::data::BinaryTableData;
use fitsrs::hdu::data::bintable::ColumnId;
use fitsrs::{Fits, TableData, HDU};
use std::fmt::Debug;
use std::io::{BufReader, Cursor, Read, Seek};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C08",
            level: "exploration",
            cases: [60_000, 3_600_000],
            run: c08,
            rule: "a binary table of fixed-width columns read value by value, row by row and as raw bytes, against the cells written; non trivial: at least one value, distinct by columns and contents",
            floors: &[("large files", 50), ("values", 1_000_000), ("rows", 50_000), ("L", 5_000), ("X", 5_000), ("B", 5_000), ("I", 5_000), ("J", 5_000), ("K", 5_000), ("A", 5_000), ("E", 5_000), ("D", 5_000), ("C", 5_000), ("M", 5_000), ("columns without width", 500), ("tables above 90 columns", 50)],
            assumptions: &["a table whose columns have no width at all delivers nothing"],
        },
        Prop {
            id: "C09",
            level: "exploration",
            cases: [60_000, 3_600_000],
            run: c09,
            rule: "a binary table with variable-length arrays anywhere in the heap read value by value and row by row, against the elements written; non trivial: at least one array with elements, distinct by columns and contents",
            floors: &[("large files", 50), ("images with other compressions", 300), ("values", 500_000), ("arrays", 50_000), ("empty arrays", 10_000), ("rows with empty arrays only", 500), ("gap before the heap", 500), ("32-bit descriptors", 10_000), ("64-bit descriptors", 10_000), ("L", 500), ("X", 500), ("B", 500), ("I", 500), ("J", 500), ("K", 500), ("A", 500), ("E", 500), ("D", 500), ("C", 500), ("M", 500)],
            assumptions: &["descriptors stay inside the heap"],
        },
        Prop {
            id: "C10",
            level: "exploration",
            cases: [80_000, 4_800_000],
            run: c10,
            rule: "a history of column selections, row seeks, value and row reads on one table, every value compared with the model; non trivial: at least one seek or selection followed by values, distinct by history and table",
            floors: &[("large files", 50), ("selections inside a row", 300), ("values", 300_000), ("selections", 10_000), ("row seeks", 20_000), ("refused seeks", 3_000), ("seeks inside an array", 300), ("selections by name", 3_000), ("unknown columns", 3_000), ("rows after a seek", 3_000), ("back from rows", 500)],
            assumptions: &["columns are selected before reading or right after a seek; rows are iterated from a row boundary"],
        },
    ]
}

fn tables(rng: &mut Rng, vla: Vla, max: usize) -> File {
    let mut hdus = vec![image_with(rng, Kind::Primary, 8, vec![])];
    if rng.one_in(4) {
        hdus.push(extension(rng, 500));
    }
    let large = if vla == Vla::Always { 150 } else { 250 };
    hdus.push(if rng.one_in(large) { large_bintable(rng, vla) } else { bintable(rng, max, vla) });
    if rng.one_in(3) {
        hdus.push(bintable(rng, 500, vla));
    }
    if rng.one_in(5) {
        hdus.push(extension(rng, 300));
    }
    let mut f = File::new(hdus);
    if rng.one_in(3) {
        f.cut_padding(rng);
    }
    f
}

fn one_type(rng: &mut Rng) -> File {
    // one type only, in every repeat count around the sizes of bytes and words
    let t = *rng.pick(&TYPES);
    let mut cols = vec![];
    for _ in 0..1 + rng.us(3) {
        let repeat = rng.us(20);
        let width = if t == 'X' { repeat.div_ceil(8) } else { repeat * elem_size(t) };
        cols.push(Col { t, repeat, vla: None, name: None, tform: format!("{repeat}{t}"), width, off: 0 });
    }
    let h = bintable_with(rng, cols, 2000);
    File::new(vec![image_with(rng, Kind::Primary, 8, vec![]), h])
}

fn c08(ctx: &mut Ctx) -> Res {
    let rng = &mut ctx.rng.clone();
    if ctx.idx % 200 == 133 {
        return super::walk::large_file(ctx, rng, Some(Kind::Bin));
    }
    let f = match ctx.idx % 8 {
        3 => one_type(rng),
        _ => tables(rng, Vla::Never, if ctx.idx % 40 == 9 { 100_000 } else { 9_000 }),
    };
    tables_file(ctx, rng, &f).input(&f.bytes)
}
/// A compressed image of a kind the library does not decompress is a table like any other
fn other_compression(ctx: &mut Ctx, rng: &mut Rng) -> File {
    let (npix, float) = (1 + rng.us(600), rng.bool());
    let mut h = crate::tile::tile_image(rng, &crate::tile::Want { float, npix, row_tiles: false, dims2: false, planes: None, many: false }, &mut [0; 3]);
    let (kw, new) = match rng.below(3) {
        0 => ("ZCMPTYPE", card_str("ZCMPTYPE", "HCOMPRESS_1")),
        1 => ("ZCMPTYPE", card_str("ZCMPTYPE", "PLIO_1")),
        _ => ("ZBITPIX", card_int("ZBITPIX", 64)),
    };
    let at = h.cards.iter().position(|c| &c[..8] == format!("{kw:<8}").as_bytes()).unwrap();
    h.cards[at] = new;
    if let Spec::Tile(_, b) = h.spec {
        h.spec = Spec::Bin(b);
    }
    ctx.count("images with other compressions", 1);
    File::new(vec![image_with(rng, Kind::Primary, 8, vec![]), h, extension(rng, 500)])
}
fn c09(ctx: &mut Ctx) -> Res {
    let rng = &mut ctx.rng.clone();
    if ctx.idx % 200 == 133 {
        return super::walk::large_file(ctx, rng, Some(Kind::Bin));
    }
    if ctx.idx % 60 == 31 {
        let f = other_compression(ctx, rng);
        return tables_file(ctx, rng, &f).input(&f.bytes);
    }
    let f = tables(rng, Vla::Always, if ctx.idx % 40 == 9 { 30_000 } else { 4_000 });
    tables_file(ctx, rng, &f).input(&f.bytes)
}

/// Tables are read twice: value by value then row by row
fn tables_file(ctx: &mut Ctx, rng: &mut Rng, f: &File) -> Res {
    for rows in [false, true] {
        match rng.below(4) {
            0 => tables_read(ctx, Fits::from_reader(Cursor::new(&f.bytes[..])), f, rows)?,
            1 => {
                let cap = *rng.pick(&[1, 7, 64, 2880, 8192, 65536]);
                tables_read(ctx, Fits::from_reader(BufReader::with_capacity(cap, Cursor::new(&f.bytes[..]))), f, rows)?
            }
            _ => {
                let plan = Plan::random(rng);
                tables_read(ctx, Fits::from_reader(MonReader::mem(&f.bytes, plan)), f, rows)?
            }
        }
    }
    // raw bytes
    let mut fits = Fits::from_reader(Cursor::new(&f.bytes[..]));
    for (i, want) in f.hdus.iter().enumerate() {
        let h = next(&mut fits, i, f)?;
        if let (HDU::XBinaryTable(h), Some(b)) = (&h, want.bin()) {
            let mut t = fits.get_data(h).table_data();
            ensure!(t.raw_bytes() == want.data, "raw", "raw bytes of HDU {i}: {}", want.describe());
            ensure!(t.get_ref()[..] == f.bytes[..], "get_ref", "HDU {i}");
            let k = rng.us(20);
            t.by_ref().take(k).count();
            ensure!(t.raw_bytes() == want.data, "raw", "raw bytes of HDU {i} after {k} values: {}", want.describe());
            let t = fits.get_data(h).table_data();
            if k == 0 {
                let main = b.rowlen * b.nrows as usize;
                let (got, e) = bytes(t.bytes(), ENDLESS);
                ensure!(e.is_none() && got == want.data[..main], "bytes", "bytes() of HDU {i}: {}", want.describe());
            }
        }
    }
    Ok(())
}
fn next<R: Read + Seek + Debug>(fits: &mut Fits<R>, i: usize, f: &File) -> Result<HDU, Fail> {
    match fits.next() {
        Some(Ok(h)) => Ok(h),
        x => bail!("walk", "HDU {i} is {:?}: {}", x.map(|r| r.map(|h| kind(&h))), f.describe()),
    }
}
fn tables_read<R: Read + Seek + Debug>(ctx: &mut Ctx, mut fits: Fits<R>, f: &File, rows: bool) -> Res {
    for (i, want) in f.hdus.iter().enumerate() {
        let h = next(&mut fits, i, f)?;
        let (HDU::XBinaryTable(h), Some(b)) = (&h, want.bin()) else { continue };
        let d = fits.get_data(h);
        ensure!(matches!(d, BinaryTableData::Table(_)), "kind", "a plain table is taken for an image: {}", want.describe());
        let w = b.rows(&want.data, &b.all_cols(), true);
        if rows {
            let mut it = d.row_iter();
            let mut got: Vec<Vec<Cell>> = vec![];
            let n = if b.rowlen == 0 { 0 } else { w.len() };
            for r in 0..=n {
                ensure!(r == n || it.get_row_idx() == r, "row index", "row {r} called {}", it.get_row_idx());
                match it.next() {
                    Some(v) => got.push(cells(&v)),
                    None => break,
                }
            }
            if b.rowlen > 0 {
                let (g, w) = (Data::Rows(got), Data::Rows(w.clone()));
                ensure!(g == w, "rows", "HDU {i} row by row: {}: {}", data_diff(&g, &w), want.describe());
            } else {
                ensure!(got.concat().is_empty(), "rows", "values from nowhere: {}", want.describe());
            }
            if n > 0 {
                ensure!(it.next().is_none(), "end", "a row after the last one: {}", want.describe());
            }
            ctx.count("rows", n as u64);
        } else {
            let mut it = d.table_data();
            let w: Vec<Cell> = w.concat();
            let g: Vec<Cell> = it.by_ref().take(w.len() + 10).map(|v| cell(&v)).collect();
            let n = g.len();
            let (g, w) = (Data::Cells(g), Data::Cells(w));
            ensure!(g == w, "values", "HDU {i} value by value: {}: {}", data_diff(&g, &w), want.describe());
            for _ in 0..2 {
                ensure!(it.next().is_none(), "end", "a value after the last one: {}", want.describe());
            }
            // what was seen
            ctx.count("values", n as u64);
            if let Data::Cells(g) = &g {
                let mut seen = [0_u64; 128];
                for c in g {
                    if !b.has_vla() || b.cols[c.col as usize].vla.is_some() {
                        seen[c.t as usize & 127] += 1;
                    }
                }
                for t in TYPES {
                    ctx.count(&t.to_string(), seen[t as usize]);
                }
            }
            ctx.count("columns without width", b.cols.iter().filter(|c| c.width == 0).count() as u64);
            ctx.count("tables above 90 columns", (b.cols.len() > 90) as u64);
            let mut arrays = 0;
            if b.has_vla() {
                for r in b.rows(&want.data, &b.all_cols(), false) {
                    let (mut some, mut none) = (false, false);
                    for c in r {
                        match c.t {
                            'P' | 'Q' => {
                                ctx.count(if c.t == 'P' { "32-bit descriptors" } else { "64-bit descriptors" }, 1);
                                if c.a == 0 {
                                    none = true;
                                    ctx.count("empty arrays", 1);
                                } else {
                                    some = true;
                                    arrays += 1;
                                }
                            }
                            _ => (),
                        }
                    }
                    if none && !some {
                        ctx.count("rows with empty arrays only", 1);
                    }
                }
                ctx.count("gap before the heap", (b.theap as usize != b.rowlen * b.nrows as usize) as u64);
                ctx.count("arrays", arrays);
            }
            ctx.seen(hash_bytes(&want.data) ^ hash_bytes(want.describe().as_bytes()), if b.has_vla() { arrays > 0 } else { n > 0 });
            ctx.sample(|| want.describe());
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C10

fn c10(ctx: &mut Ctx) -> Res {
    let rng = &mut ctx.rng.clone();
    if ctx.idx % 200 == 133 {
        return super::walk::large_file(ctx, rng, Some(Kind::Bin));
    }
    let vla = if rng.bool() { Vla::Always } else { Vla::Never };
    let f = tables(rng, vla, if ctx.idx % 40 == 9 { 20_000 } else { 3_000 });
    let r = match rng.below(4) {
        0 => c10_file(ctx, rng, Fits::from_reader(Cursor::new(&f.bytes[..])), &f),
        1 => {
            let cap = *rng.pick(&[1, 7, 64, 2880, 8192]);
            c10_file(ctx, rng, Fits::from_reader(BufReader::with_capacity(cap, Cursor::new(&f.bytes[..]))), &f)
        }
        _ => {
            let plan = Plan::random(rng);
            c10_file(ctx, rng, Fits::from_reader(MonReader::mem(&f.bytes, plan)), &f)
        }
    };
    r.input(&f.bytes)
}
fn c10_file<R: Read + Seek + Debug>(ctx: &mut Ctx, rng: &mut Rng, mut fits: Fits<R>, f: &File) -> Res {
    for (i, want) in f.hdus.iter().enumerate() {
        let h = next(&mut fits, i, f)?;
        if let (HDU::XBinaryTable(h), Some(b)) = (&h, want.bin()) {
            c10_table(ctx, rng, fits.get_data(h).table_data(), b, want)?;
        }
    }
    Ok(())
}
fn select(ctx: &mut Ctx, rng: &mut Rng, b: &BinSpec, hist: &mut Vec<String>) -> (Vec<ColumnId>, Vec<usize>) {
    let mut ids = vec![];
    let mut cols = vec![];
    for _ in 0..rng.us(6) {
        if !b.cols.is_empty() && rng.below(5) > 0 {
            let c = rng.us(b.cols.len());
            match b.cols[c].name {
                Some(n) if rng.bool() => {
                    ids.push(ColumnId::Name(n));
                    ctx.count("selections by name", 1);
                    hist.push(format!("select {n}"));
                }
                _ => {
                    ids.push(ColumnId::Index(c));
                    hist.push(format!("select {c}"));
                }
            }
            cols.push(c);
        } else {
            ctx.count("unknown columns", 1);
            if rng.bool() {
                ids.push(ColumnId::Name("NO SUCH COLUMN"));
            } else {
                let more = *rng.pick(&[0, 1, 500, usize::MAX - 2000]);
                ids.push(ColumnId::Index(b.cols.len() + more));
            }
        }
    }
    cols.sort();
    cols.dedup();
    hist.push(format!("-> {cols:?}"));
    ctx.count("selections", 1);
    (ids, cols)
}
fn c10_table<R: Read + Seek + Debug>(ctx: &mut Ctx, rng: &mut Rng, mut t: TableData<R>, b: &BinSpec, want: &Hdu) -> Res {
    let mut hist: Vec<String> = vec![];
    let mut cols = b.all_cols();
    let nrows = b.nrows as usize;
    let mut rows = b.rows(&want.data, &cols, true);
    // model: the next value is number k of row r
    let (mut r, mut k) = (0, 0);
    let mut fresh = true; // nothing read since the start or a seek
    let mut useful = false;
    let mut moved = false;
    let mut last = 0; // row of the last value delivered
    for _ in 0..3 + rng.us(12) {
        match rng.below(8) {
            // (with nothing to read, the current row is undefined)
            0 if !fresh && rng.one_in(3) && cols.iter().any(|&c| b.stored(c)) => {
                // the current row starts again; at its end, it may also be the next one
                while r < nrows && k >= rows[r].len() {
                    r += 1;
                    k = 0;
                }
                let (ids, c) = select(ctx, rng, b, &mut hist);
                cols = c;
                t.select_fields(&ids);
                let inside = r == last && k > 0;
                rows = b.rows(&want.data, &cols, true);
                let mut got: Vec<Cell> = vec![];
                let total: usize = rows.iter().map(|r| r.len()).sum();
                for v in t.by_ref().take(total + 2) {
                    got.push(cell(&v));
                }
                let fits = (last..=r).any(|s| rows[s.min(nrows)..].iter().flatten().eq(got.iter()));
                ensure!(fits, "selection", "{} values from rows {last} to {r} after {hist:?}: {}", got.len(), want.describe());
                ctx.count("selections inside a row", inside as u64);
                (r, k) = (nrows, 0);
                last = nrows.saturating_sub(1);
                hist.push("rest".into());
            }
            0 | 1 if fresh => {
                let (ids, c) = select(ctx, rng, b, &mut hist);
                cols = c;
                t.select_fields(&ids);
                rows = b.rows(&want.data, &cols, true);
                moved = true;
            }
            0..=3 => {
                let to = match rng.below(6) {
                    0 => nrows,
                    1 => nrows + 1 + rng.us(1000),
                    2 => 0,
                    3 => nrows.saturating_sub(1),
                    _ => rng.us(nrows.max(1)),
                };
                if k > 0 && rows.get(r).is_some_and(|row| k < row.len() && row[k].idx > 0 && b.cols[row[k].col as usize].vla.is_some()) {
                    ctx.count("seeks inside an array", 1);
                }
                let res = t.seek_to_row(to);
                hist.push(format!("row {to}"));
                if to < nrows {
                    ensure!(res.is_ok(), "seek", "row {to} of {nrows} refused after {hist:?}: {}", want.describe());
                    (r, k) = (to, 0);
                    fresh = true;
                    moved = true;
                    ctx.count("row seeks", 1);
                } else {
                    ensure!(res.is_err(), "seek", "row {to} of {nrows} accepted after {hist:?}: {}", want.describe());
                    ctx.count("refused seeks", 1);
                }
            }
            4 if fresh && b.rowlen > 0 && cols.iter().any(|&c| b.stored(c)) => {
                // row by row from here
                let n = rng.us(4) * rng.us(4);
                let mut it = if rng.bool() { t.row_iter() } else { BinaryTableData::Table(t).row_iter() };
                for _ in 0..n {
                    let i = it.get_row_idx();
                    let g = it.next().map(|v| cells(&v));
                    let w = rows.get(r).cloned();
                    if w.is_some() {
                        ensure!(i == r, "row index", "row {r} called {i} after {hist:?}: {}", want.describe());
                    }
                    ensure!(g == w, "row", "row {r} is {g:?} instead of {w:?} after {hist:?}: {}", want.describe());
                    if w.is_some() {
                        r += 1;
                        ctx.count("rows after a seek", moved as u64);
                    }
                    useful |= moved;
                }
                hist.push(format!("{n} rows"));
                t = it.table_data();
                ctx.count("back from rows", 1);
            }
            _ => {
                let n = match rng.below(5) {
                    0 => ENDLESS,
                    1 => rng.us(200),
                    2 => rows.get(r).map_or(1, |row| row.len() - k.min(row.len())),
                    _ => 1 + rng.us(6),
                };
                let mut done = 0;
                for _ in 0..n {
                    while r < nrows && k >= rows[r].len() {
                        r += 1;
                        k = 0;
                    }
                    let w = if r < nrows { Some(rows[r][k]) } else { None };
                    let g = t.next().map(|v| cell(&v));
                    ensure!(
                        g == w,
                        "value",
                        "value {k} of row {r} is {g:?} instead of {w:?} after {hist:?} and {done} values: {}",
                        want.describe()
                    );
                    fresh = false;
                    done += 1;
                    if w.is_none() {
                        break;
                    }
                    k += 1;
                    last = r;
                    ctx.count("values", 1);
                    useful |= moved;
                }
                hist.push(format!("next*{done}"));
            }
        }
    }
    ctx.seen_dbg(&(&hist, want.describe()), useful);
    ctx.sample(|| format!("{}: {}", want.describe(), hist.join(", ")));
    Ok(())
}
