//! C11, C12: tile-compressed images
use crate::ctx::{Ctx, Res, WithInput};
use crate::gen::*;
use crate::mon::*;
use crate::obs::*;
use crate::rng::{hash_bytes, Rng};
use crate::tile::*;
use crate::{bail, ensure, Prop};
use fitsrs::hdu::data::bintable::data::BinaryTableData;
use fitsrs::{Fits, HDU};
use std::io::Cursor;
use std::sync::OnceLock;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C11",
            level: "exploration",
            cases: [30_000, 1_800_000],
            run: c11,
            rule: "an integer image compressed tile by tile by an independent encoder, decompressed and compared; non trivial: several tiles, distinct by parameters and pixels",
            floors: &[("large files", 50), ("pixels", 1_000_000), ("tiles", 20_000), ("GZIP_1", 500), ("GZIP_2", 500), ("RICE_1", 500), ("Rice constant blocks", 1_000), ("Rice coded blocks", 5_000), ("Rice raw blocks", 1_000), ("ZBITPIX 8", 500), ("ZBITPIX 16", 500), ("ZBITPIX 32", 500), ("border tiles", 500), ("Rice tiles above 16384 pixels", 200), ("tiles above 65535 pixels", 20), ("64-bit descriptors", 500)],
            assumptions: &["compressed streams hold 4-byte integers in a COMPRESSED_DATA or GZIP_COMPRESSED_DATA column"],
        },
        Prop {
            id: "C12",
            level: "exploration",
            cases: [30_000, 1_800_000],
            run: c12,
            rule: "a floating-point image quantized, dithered, blanked and compressed by an independent encoder, decompressed and compared to single precision; non trivial: several tiles, distinct by parameters and pixels",
            floors: &[("pixels", 500_000), ("tiles", 20_000), ("Absent", 200), ("No", 200), ("One", 500), ("Two", 500), ("blank pixels", 5_000), ("zero codes", 2_000), ("dithering wraps around 10000", 100), ("images above 10000 tiles", 2), ("dithered tiles above 10000 pixels", 20), ("tiles above 65535 pixels", 20), ("keyword parameters", 300)],
            assumptions: &["the dithering offsets of a tile start at the random number selected by (row + ZDITHER0) modulo 10000, row and table counted from 0, as the library defines it", "after the last random number comes the first"],
        },
    ]
}

pub fn rand_seq() -> &'static [f64] {
    static S: OnceLock<Vec<f64>> = OnceLock::new();
    S.get_or_init(random_sequence)
}

fn with_file(ctx: &mut Ctx, rng: &mut Rng, h: Hdu, go: &mut dyn FnMut(&mut Ctx, &Hdu, Data) -> Res) -> Res {
    let mut hdus = vec![image_with(rng, Kind::Primary, 8, vec![])];
    if rng.one_in(4) {
        hdus.push(extension(rng, 800));
    }
    let at = hdus.len();
    hdus.push(h);
    let f = File::new(hdus);
    let r = (|| {
        let mode = |i: usize| if i == at { Mode::Values } else { Mode::Skip };
        let t = match rng.below(3) {
            0 => trace_with(&mut Fits::from_reader(Cursor::new(&f.bytes[..])), mode),
            1 => {
                let cap = *rng.pick(&[1, 64, 2880, 8192]);
                let r = std::io::BufReader::with_capacity(cap, Cursor::new(&f.bytes[..]));
                trace_with(&mut Fits::from_reader(r), mode)
            }
            _ => {
                let plan = Plan::random(rng);
                trace_with(&mut Fits::from_reader(MonReader::mem(&f.bytes, plan)), mode)
            }
        };
        ensure!(t.end == End::Clean && t.hdus.len() == f.hdus.len(), "walk", "{:?} after {} HDUs: {}", t.end, t.hdus.len(), f.describe());
        go(ctx, &f.hdus[at], t.hdus[at].data.clone())?;
        // the image is also a table, which is left as it is on demand
        let mut fits = Fits::from_reader(Cursor::new(&f.bytes[..]));
        let mut h = None;
        for _ in 0..=at {
            h = fits.next();
        }
        if let (Some(Ok(HDU::XBinaryTable(h))), Spec::Tile(_, b)) = (h, &f.hdus[at].spec) {
            let want = b.rows(&f.hdus[at].data, &b.all_cols(), false);
            let d = fits.get_data(&h);
            ensure!(matches!(d, BinaryTableData::TileCompressed(_)), "kind", "not taken for an image: {}", f.describe());
            let got: Vec<Vec<Cell>> = d.row_iter().take(want.len() + 2).map(|r| cells(&r)).collect();
            let (g, w) = (Data::Rows(got), Data::Rows(want));
            ensure!(g == w, "table", "as a table: {}: {}", data_diff(&g, &w), f.describe());
            let t = fits.get_data(&h).table_data();
            ensure!(t.raw_bytes() == f.hdus[at].data, "raw", "raw bytes: {}", f.describe());
        }
        Ok(())
    })();
    r.input(&f.bytes)
}

fn c11(ctx: &mut Ctx) -> Res {
    let rng = &mut ctx.rng.clone();
    if ctx.idx % 200 == 133 {
        return super::walk::large_file(ctx, rng, Some(Kind::Bin));
    }
    let mut modes = [0; 3];
    let npix = match ctx.idx % 20 {
        3 => 20_000,
        13 if ctx.idx % 400 == 13 => 180_000,
        7 => 40,
        _ => 2_000,
    };
    let h = tile_image(rng, &Want { float: false, npix, row_tiles: false, dims2: false, planes: None, many: ctx.idx % 200 == 11 }, &mut modes);
    for (i, m) in ["constant", "coded", "raw"].iter().enumerate() {
        ctx.count(&format!("Rice {m} blocks"), modes[i]);
    }
    with_file(ctx, rng, h, &mut |ctx, h, data| {
        let Spec::Tile(t, b) = &h.spec else { return Ok(()) };
        let Data::Tile { ty, vals } = data else { bail!("kind", "not taken for an image: {}", h.describe()) };
        let want = t.int_pixels();
        ensure!(ty == t.zbitpix, "type", "pixels of type {ty}: {}", h.describe());
        let bad = vals.iter().zip(&want).position(|(a, b)| a != b);
        ensure!(
            bad.is_none() && vals.len() == want.len(),
            "pixels",
            "{} pixels instead of {}; first wrong {bad:?}: {:x?} instead of {:x?}: {}",
            vals.len(),
            want.len(),
            bad.map(|i| vals[i]),
            bad.map(|i| want[i]),
            h.describe()
        );
        seen(ctx, h, t, b);
        ctx.seen(hash_bytes(&h.data) ^ hash_bytes(t.describe().as_bytes()), t.q.len() > 1);
        Ok(())
    })
}
fn seen(ctx: &mut Ctx, h: &Hdu, t: &TileSpec, b: &BinSpec) {
    ctx.count("pixels", t.q.iter().map(|q| q.len() as u64).sum());
    ctx.count("tiles", t.q.len() as u64);
    ctx.count("Rice tiles above 16384 pixels", if t.algo.starts_with("RICE") { t.q.iter().filter(|q| q.len() > 16_384).count() as u64 } else { 0 });
    ctx.count("tiles above 65535 pixels", t.q.iter().filter(|q| q.len() > 65_535).count() as u64);
    ctx.count(if t.algo == "RICE_ONE" { "RICE_1" } else { t.algo }, 1);
    ctx.count(&format!("ZBITPIX {}", t.zbitpix), 1);
    ctx.count("border tiles", t.naxis.iter().zip(&t.tile).any(|(n, t)| n % t != 0) as u64);
    ctx.count("64-bit descriptors", b.cols.iter().any(|c| c.vla == Some('Q')) as u64);
    ctx.sample(|| h.describe());
}

fn c12(ctx: &mut Ctx) -> Res {
    let rng = &mut ctx.rng.clone();
    let many = ctx.idx % 500 == 17;
    let npix = if many {
        24_000 + rng.us(20_000)
    } else if ctx.idx % 400 == 13 {
        180_000
    } else if ctx.idx % 100 == 57 {
        // tiles that use the random numbers several times
        30_000
    } else if ctx.idx % 20 == 3 {
        9_000
    } else {
        1_500
    };
    let h = tile_image(rng, &Want { float: true, npix, row_tiles: false, dims2: false, planes: None, many }, &mut [0; 3]);
    if many {
        // as many tiles as there are random numbers and more
        ctx.count("images above 10000 tiles", 1);
    }
    with_file(ctx, rng, h, &mut |ctx, h, data| {
        let Spec::Tile(t, b) = &h.spec else { return Ok(()) };
        let Data::Tile { ty, vals } = data else { bail!("kind", "not taken for an image: {}", h.describe()) };
        ensure!(ty == t.zbitpix, "type", "pixels of type {ty}: {}", h.describe());
        let want = t.float_pixels(rand_seq());
        ensure!(vals.len() == want.len(), "pixels", "{} pixels instead of {}: {}", vals.len(), want.len(), h.describe());
        for (i, (g, (w, tol))) in vals.iter().zip(&want).enumerate() {
            let g = f32::from_bits(*g as u32) as f64;
            let fine = if w.is_nan() { g.is_nan() } else { (g - w).abs() <= *tol };
            if !fine {
                let sig = if w.is_nan() {
                    "blank"
                } else if *tol == 0.0 {
                    "zero"
                } else {
                    "value"
                };
                bail!(sig, "pixel {i} is {g:?} instead of {w:?} (tolerance {tol:?}): {}", h.describe());
            }
        }
        seen(ctx, h, t, b);
        ctx.count(&format!("{:?}", t.dither), 1);
        ctx.count("blank pixels", want.iter().filter(|w| w.0.is_nan()).count() as u64);
        ctx.count("zero codes", want.iter().filter(|w| w.0 == 0.0 && w.1 == 0.0).count() as u64);
        if let Some(d) = t.zdither0 {
            ctx.count("dithering wraps around 10000", (d + t.q.len() as i64 > 10000) as u64);
        }
        let dithered = matches!(t.dither, Dither::One | Dither::Two);
        ctx.count("dithered tiles above 10000 pixels", if dithered { t.q.iter().filter(|q| q.len() > 10_000).count() as u64 } else { 0 });
        let names: Vec<_> = b.cols.iter().filter_map(|c| c.name).collect();
        ctx.count("keyword parameters", (!names.contains(&"ZSCALE") || !names.contains(&"ZZERO")) as u64);
        ctx.seen(hash_bytes(&h.data) ^ hash_bytes(t.describe().as_bytes()), t.q.len() > 1);
        Ok(())
    })
}
