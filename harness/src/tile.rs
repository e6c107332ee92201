//! Writes tile-compressed images (GZIP_1, GZIP_2, RICE_1) and knows their pixels.
use crate::cardgen::*;
use crate::gen::*;
use crate::rng::Rng;
use flate2::write::GzEncoder;
use flate2::Compression;
use std::io::Write;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Dither {
    Absent,
    No,
    One,
    Two,
}

#[derive(Clone, Debug)]
pub struct TileSpec {
    pub naxis: Vec<u64>,
    pub tile: Vec<u64>,
    pub zbitpix: i64,
    pub algo: &'static str,
    pub blocksize: u32,
    pub dither: Dither,
    pub zdither0: Option<i64>,
    /// Quantized values of each tile
    pub q: Vec<Vec<i32>>,
    /// Scale, zero, blank of each tile (floating point images)
    pub par: Vec<(f64, f64, Option<i32>)>,
}

impl TileSpec {
    pub fn describe(&self) -> String {
        format!(
            "tile-compressed {} ZBITPIX={} axes {:?} tiles {:?} ({}) block {} dither {:?} {:?}",
            self.algo,
            self.zbitpix,
            self.naxis,
            self.tile,
            self.q.len(),
            self.blocksize,
            self.dither,
            self.zdither0
        )
    }
    /// Bits of the pixels of an integer image, tile after tile
    pub fn int_pixels(&self) -> Vec<u64> {
        let m = match self.zbitpix {
            8 => 0xff,
            16 => 0xffff,
            _ => 0xffff_ffff,
        };
        self.q.iter().flatten().map(|&v| v as u32 as u64 & m).collect()
    }
    /// Pixels of a floating point image with the error allowed for each: NaN for blanks
    pub fn float_pixels(&self, rand: &[f64]) -> Vec<(f64, f64)> {
        let mut out = vec![];
        for (row, (q, &(scale, zero, blank))) in self.q.iter().zip(&self.par).enumerate() {
            let i0 = (row as i64 + self.zdither0.unwrap_or(0)).rem_euclid(10000) as usize;
            let mut i1 = (rand[i0] * 500.0).floor() as usize;
            for &v in q {
                let r = rand[i1 % 10000];
                i1 += 1;
                let eps = f64::powi(2.0, -21);
                let p = if Some(v) == blank {
                    (f64::NAN, 0.0)
                } else {
                    match self.dither {
                        Dither::Absent | Dither::No => {
                            let x = v as f64 * scale;
                            (x + zero, eps * (x.abs() + zero.abs()))
                        }
                        Dither::Two if v == -2147483647 => (0.0, 0.0),
                        _ => {
                            let x = (v as f64 - r + 0.5) * scale;
                            (x + zero, eps * (v as f64 * scale).abs().max(scale.abs()) + eps * zero.abs())
                        }
                    }
                };
                out.push(p);
            }
        }
        out
    }
}

/// Random sequence of the FITS standard (Park and Miller), in integers
pub fn random_sequence() -> Vec<f64> {
    let mut seed: u64 = 1;
    (0..10000)
        .map(|_| {
            seed = seed * 16807 % 2147483647;
            // the standard stores the table in single precision
            (seed as f64 / 2147483647.0) as f32 as f64
        })
        .collect()
}

struct Bits {
    out: Vec<u8>,
    acc: u64,
    n: u32,
}
impl Bits {
    fn put(&mut self, v: u64, n: u32) {
        for i in (0..n).rev() {
            self.acc = self.acc << 1 | (v >> i & 1);
            self.n += 1;
            if self.n == 8 {
                self.out.push(self.acc as u8);
                self.acc = 0;
                self.n = 0;
            }
        }
    }
}

/// Rice compression of 32-bit integers. `modes` counts the blocks: constant, coded, raw
pub fn rice(rng: &mut Rng, pix: &[i32], block: usize, modes: &mut [u64; 3]) -> Vec<u8> {
    let mut b = Bits { out: vec![], acc: 0, n: 0 };
    b.put(pix[0] as u32 as u64, 32);
    let mut last = pix[0];
    let force = rng.below(8);
    for blk in pix.chunks(block) {
        let d: Vec<u32> = blk
            .iter()
            .map(|&p| {
                let d = p.wrapping_sub(last);
                last = p;
                ((d as u32) << 1) ^ ((d >> 31) as u32)
            })
            .collect();
        let max = *d.iter().max().unwrap();
        if max == 0 && force != 0 {
            b.put(0, 5);
            modes[0] += 1;
            continue;
        }
        // smallest parameter with short enough unary parts
        let cost = |fs: u32| d.iter().map(|&x| (x >> fs) as u64 + 1 + fs as u64).sum::<u64>();
        let mut fs = (0..25).min_by_key(|&fs| cost(fs)).unwrap();
        if rng.one_in(10) {
            let alt = rng.below(25) as u32;
            if cost(alt) < 4000 {
                fs = alt;
            }
        }
        if cost(fs) >= 32 * d.len() as u64 || force == 1 {
            b.put(26, 5);
            for x in d {
                b.put(x as u64, 32);
            }
            modes[2] += 1;
        } else {
            b.put(fs as u64 + 1, 5);
            for x in d {
                for _ in 0..x >> fs {
                    b.put(0, 1);
                }
                b.put(1, 1);
                b.put(x as u64 & ((1 << fs) - 1), fs);
            }
            modes[1] += 1;
        }
    }
    if b.n > 0 {
        let k = 8 - b.n;
        b.put(0, k);
    }
    b.out
}

pub fn gzip(data: &[u8], level: u32) -> Vec<u8> {
    let mut e = GzEncoder::new(vec![], Compression::new(level));
    e.write_all(data).unwrap();
    e.finish().unwrap()
}

fn pixel_values(rng: &mut Rng, zbitpix: i64, n: usize) -> Vec<i32> {
    let (lo, hi) = match zbitpix {
        8 => (0, 255),
        16 => (-32768, 32767),
        _ => (i32::MIN as i64, i32::MAX as i64),
    };
    let style = rng.below(7);
    let base = match rng.below(3) {
        0 => rng.range(lo, hi),
        _ => rng.range(lo.max(-1000), hi.min(1000)),
    };
    let mut cur = base;
    (0..n)
        .map(|i| {
            let v = match style {
                0 => base,
                1 => base + rng.range(-3, 3),
                2 => rng.range(lo, hi),
                3 => *rng.pick(&[lo, hi, 0, -1, 1]),
                4 => {
                    cur += rng.range(-40, 40);
                    cur
                }
                5 => {
                    if rng.one_in(15) {
                        rng.range(lo, hi)
                    } else {
                        base
                    }
                }
                _ => base + i as i64 * rng.range(0, 2),
            };
            v.clamp(lo, hi) as i32
        })
        .collect()
}

#[derive(Clone, Debug)]
pub struct Want {
    pub float: bool,
    pub npix: usize,
    pub row_tiles: bool,
    pub dims2: bool,
    /// Third axis
    pub planes: Option<u64>,
    /// Many tiny tiles
    pub many: bool,
}

/// Number of pixels of each tile, in the order of the standard
fn tile_sizes(naxis: &[u64], tile: &[u64]) -> Vec<u64> {
    let nt: Vec<u64> = naxis.iter().zip(tile).map(|(n, t)| n.div_ceil(*t)).collect();
    let total: u64 = nt.iter().product();
    (0..total)
        .map(|mut k| {
            let mut p = 1;
            for i in 0..naxis.len() {
                let u = k % nt[i];
                k /= nt[i];
                p *= tile[i].min(naxis[i] - u * tile[i]);
            }
            p
        })
        .collect()
}

pub fn tile_image(rng: &mut Rng, w: &Want, modes: &mut [u64; 3]) -> Hdu {
    let zbitpix = if w.float { *rng.pick(&[-32, -64]) } else { *rng.pick(&[8, 16, 32]) };
    let mut naxis: Vec<u64> = if w.many {
        vec![1 + rng.below(3), (w.npix as u64 / 2).max(1)]
    } else if w.npix >= 150_000 && !rng.one_in(4) {
        // tiles above 65535 pixels
        let a = 66_000 + rng.below(w.npix as u64 - 100_000);
        if rng.bool() { vec![a] } else { vec![a, 1 + rng.below(2)] }
    } else if (20_000..40_000).contains(&w.npix) && rng.one_in(3) {
        // tiles above the 16384 pixels of a buffer of 64 KiB
        vec![16_300 + rng.below(w.npix as u64 - 16_300)]
    } else if w.dims2 {
        let a = 1 + rng.below((w.npix as u64).clamp(1, 80));
        vec![a, 1 + rng.below((w.npix as u64 / a).max(1))]
    } else {
        match rng.below(7) {
            0 => vec![1 + rng.below(w.npix as u64)],
            2 => {
                // more axes
                let mut room = w.npix as u64;
                let mut v = vec![];
                for _ in 0..4 + rng.us(4) {
                    let a = 1 + rng.below(room.min(4));
                    room /= a;
                    v.push(a);
                }
                v
            }
            1 => {
                let a = 1 + rng.below(12);
                let b = 1 + rng.below(12);
                vec![a, b, 1 + rng.below((w.npix as u64 / (a * b)).clamp(1, 12))]
            }
            _ => {
                let a = 1 + rng.below((w.npix as u64).clamp(1, 80));
                vec![a, 1 + rng.below((w.npix as u64 / a).max(1))]
            }
        }
    };
    naxis.extend(w.planes);
    let row = w.row_tiles || w.many || naxis[0] > 16_000 || rng.one_in(3);
    let tile: Vec<u64> = naxis
        .iter()
        .enumerate()
        .map(|(i, &n)| match (row, i) {
            (true, 0) => n,
            (true, _) => 1,
            _ => match rng.below(4) {
                0 => n,
                1 => 1 + rng.below(n),
                2 => 1 + rng.below(n.min(5)),
                _ => n.div_ceil(2),
            },
        })
        .collect();
    let algo = *rng.pick(&["GZIP_1", "GZIP_2", "RICE_1", "RICE_1", "RICE_ONE"]);
    let odd = 1 + rng.below(64) as u32;
    let mut blocksize = if algo.starts_with("RICE") { *rng.pick(&[32, 32, 16, odd, 255]) } else { 32 };
    if algo.starts_with("RICE") && naxis[0] > 16_000 && rng.bool() {
        // a block ends at, or one pixel from, 16384
        blocksize = *rng.pick(&[1, 3, 43, 127, 2, 8, 64, 128, 5, 29, 113, 145]);
    }
    let dither = if w.float {
        *rng.pick(&[Dither::Absent, Dither::No, Dither::One, Dither::Two, Dither::One, Dither::Two])
    } else {
        Dither::Absent
    };
    let zdither0 = if matches!(dither, Dither::One | Dither::Two) {
        match rng.below(4) {
            0 => Some(10000 - rng.range(0, 20)),
            1 => Some(1),
            _ => Some(rng.range(1, 10000)),
        }
    } else {
        None
    };
    let sizes = tile_sizes(&naxis, &tile);

    // parameters of the quantization: columns or keywords
    let scale_kw = w.float && rng.one_in(4);
    let zero_kw = w.float && rng.one_in(4);
    let blank_mode = if w.float { rng.below(3) } else { 0 }; // none, keyword, column
    let blank_col = *rng.pick(&['J', 'J', 'K', 'I', 'I', 'B']);
    let blank_ty = if blank_mode == 2 { blank_col } else { 'J' };
    let blank_of = |rng: &mut Rng| match blank_ty {
        'B' => *rng.pick(&[0, 7, 127, 128, 200, 255]),
        'I' => *rng.pick(&[-32768, 32767, -1, 0, 7, -1000, 256, -300]),
        _ => *rng.pick(&[i32::MIN, -2147483646, i32::MAX, 0, 7, -1000, -1, 65535, 40000]),
    };
    let (s0, z0, b0) = (rng.range(1, 4000) as f64 / 256.0, rng.range(-90000, 90000) as f64 / 64.0, blank_of(rng));
    let mut q = vec![];
    let mut par = vec![];
    for &n in &sizes {
        let ty = if w.float { *rng.pick(&[16, 32]) } else { zbitpix };
        let mut v = pixel_values(rng, ty, n as usize);
        if n > 16_384 && rng.bool() {
            // constant around the multiples of it
            for m in (16_384..v.len()).step_by(16_384) {
                let (a, b) = (m - 1 - rng.us(300), (m + rng.us(300)).min(v.len()));
                let x = v[a];
                v[a..b].fill(x);
            }
        }
        if w.float {
            // quantized values keep some room in practice
            for x in &mut v {
                *x /= *rng.pick(&[1, 64, 4096]);
            }
            let s = if scale_kw {
                s0
            } else {
                let m = rng.range(1, 1 << 16) as f64;
                let s = m * f64::powi(2.0, rng.range(-20, 4) as i32);
                if rng.one_in(8) {
                    -s
                } else {
                    s
                }
            };
            let z = if zero_kw { z0 } else { rng.range(-1_000_000, 1_000_000) as f64 / 128.0 };
            let b = match blank_mode {
                0 => None,
                1 => Some(b0),
                _ => Some(blank_of(rng)),
            };
            if let Some(b) = b {
                let p = *rng.pick(&[2, 5, 30]);
                for x in &mut v {
                    if rng.one_in(p) {
                        *x = b;
                    }
                }
            }
            if dither == Dither::Two || rng.one_in(6) {
                for x in &mut v {
                    if rng.one_in(6) {
                        *x = -2147483647;
                    }
                }
            }
            par.push((s, z, b));
        }
        q.push(v);
    }
    // compressed tiles
    let streams: Vec<Vec<u8>> = q
        .iter()
        .map(|v| match algo {
            "GZIP_1" => gzip(&v.iter().flat_map(|x| x.to_be_bytes()).collect::<Vec<_>>(), rng.below(10) as u32),
            "GZIP_2" => {
                let mut s = vec![];
                for k in 0..4 {
                    s.extend(v.iter().map(|x| x.to_be_bytes()[k]));
                }
                gzip(&s, rng.below(10) as u32)
            }
            _ => rice(rng, v, blocksize as usize, modes),
        })
        .collect();

    // columns of the table
    let pq = *rng.pick(&['P', 'P', 'Q']);
    let gz_name = algo.starts_with("GZIP") && rng.one_in(6);
    let mut cols = vec![Col {
        t: 'B',
        repeat: 1,
        vla: Some(pq),
        name: Some(if gz_name { "GZIP_COMPRESSED_DATA" } else { "COMPRESSED_DATA" }),
        tform: format!("1{pq}B({})", streams.iter().map(|s| s.len()).max().unwrap_or(0)),
        width: if pq == 'P' { 8 } else { 16 },
        off: 0,
    }];
    let fcol = |rng: &mut Rng, name: &'static str| {
        let t = *rng.pick(&['D', 'E']);
        Col { t, repeat: 1, vla: None, name: Some(name), tform: format!("1{t}"), width: elem_size(t), off: 0 }
    };
    if w.float && !scale_kw {
        cols.push(fcol(rng, "ZSCALE"));
    }
    if w.float && !zero_kw {
        cols.push(fcol(rng, "ZZERO"));
    }
    if blank_mode == 2 {
        let t = blank_col;
        let tform = format!("{t}");
        cols.push(Col { t, repeat: 1, vla: None, name: Some("ZBLANK"), tform, width: elem_size(t), off: 0 });
    }
    for _ in 0..rng.us(3) {
        let mut c = fixed_col(rng);
        if c.width > 100 {
            c = Col { t: 'I', repeat: 3, vla: None, name: None, tform: "3I".into(), width: 6, off: 0 };
        }
        c.name = *rng.pick(&[None, Some("EXTRA"), Some("UNUSED")]);
        cols.push(c);
    }
    if rng.bool() {
        rng.shuffle(&mut cols);
    }
    let mut rowlen = 0;
    for c in &mut cols {
        c.off = rowlen;
        rowlen += c.width;
    }
    let main = rowlen * sizes.len();
    let mut data = rng.bytes(main);
    // heap
    let gap = if rng.one_in(4) { rng.us(500) } else { 0 };
    let mut order: Vec<usize> = (0..sizes.len()).collect();
    match rng.below(4) {
        0 => order.reverse(),
        1 => rng.shuffle(&mut order),
        _ => (),
    }
    let mut heap = vec![];
    let mut offs = vec![0; sizes.len()];
    for &k in &order {
        if rng.one_in(8) {
            let n = rng.us(9);
            heap.extend(rng.bytes(n));
        }
        offs[k] = heap.len();
        heap.extend_from_slice(&streams[k]);
    }
    if rng.bool() {
        let n = rng.us(40);
        heap.extend(rng.bytes(n));
    }
    for k in 0..sizes.len() {
        for c in &cols {
            let at = k * rowlen + c.off;
            let put = |data: &mut Vec<u8>, b: &[u8]| data[at..at + b.len()].copy_from_slice(b);
            if let Some(pq) = c.vla {
                let (n, o) = (streams[k].len(), offs[k]);
                if pq == 'P' {
                    put(&mut data, &[(n as u32).to_be_bytes(), (o as u32).to_be_bytes()].concat());
                } else {
                    put(&mut data, &[(n as u64).to_be_bytes(), (o as u64).to_be_bytes()].concat());
                }
            }
            let f = match c.name {
                Some("ZSCALE") => Some(par[k].0),
                Some("ZZERO") => Some(par[k].1),
                _ => None,
            };
            if let Some(f) = f {
                if c.t == 'E' {
                    put(&mut data, &(f as f32).to_be_bytes());
                } else {
                    put(&mut data, &f.to_be_bytes());
                }
            }
            if c.name == Some("ZBLANK") {
                let b = par[k].2.unwrap();
                match c.t {
                    'B' => put(&mut data, &[b as u8]),
                    'I' => put(&mut data, &(b as i16).to_be_bytes()),
                    'J' => put(&mut data, &b.to_be_bytes()),
                    _ => put(&mut data, &(b as i64).to_be_bytes()),
                }
            }
        }
    }
    data.extend(rng.bytes(gap));
    let pcount = (gap + heap.len()) as u64;
    data.extend(heap);
    let bin = BinSpec { cols, nrows: sizes.len() as u64, rowlen, theap: (main + gap) as u64, pcount };

    // keywords
    let mut z = vec![card_log("ZIMAGE", true), card_str("ZCMPTYPE", algo), card_int("ZBITPIX", zbitpix as i128)];
    z.push(card_int("ZNAXIS", naxis.len() as i128));
    for (i, n) in naxis.iter().enumerate() {
        z.push(card_int(&format!("ZNAXIS{}", i + 1), *n as i128));
    }
    // a keyword that has its default value may be absent, alone or with the others
    let omit = rng.below(3);
    for (i, &n) in tile.iter().enumerate() {
        let default = n == if i == 0 { naxis[0] } else { 1 };
        if !default || omit == 0 || (omit == 1 && rng.bool()) {
            z.push(card_int(&format!("ZTILE{}", i + 1), n as i128));
        }
    }
    if algo.starts_with("RICE") && (blocksize != 32 || rng.bool()) {
        let (i, j) = if rng.bool() { (1, 2) } else { (2, 1) };
        z.push(card_str(&format!("ZNAME{i}"), "BLOCKSIZE"));
        z.push(card_int(&format!("ZVAL{i}"), blocksize as i128));
        z.push(card_str(&format!("ZNAME{j}"), "BYTEPIX"));
        z.push(card_int(&format!("ZVAL{j}"), 4));
    }
    match dither {
        Dither::Absent => (),
        Dither::No => z.push(card_str("ZQUANTIZ", "NO_DITHER")),
        Dither::One => z.push(card_str("ZQUANTIZ", "SUBTRACTIVE_DITHER_1")),
        Dither::Two => z.push(card_str("ZQUANTIZ", "SUBTRACTIVE_DITHER_2")),
    }
    if let Some(d) = zdither0 {
        z.push(card_int("ZDITHER0", d as i128));
    }
    if scale_kw {
        z.push(card_raw("ZSCALE", &format!("{s0:?}")));
    }
    if zero_kw {
        z.push(card_raw("ZZERO", &format!("{z0:?}")));
    }
    if blank_mode == 1 {
        z.push(card_int("ZBLANK", b0 as i128));
    }
    let explicit = gap > 0 || rng.bool();
    let mut cards = bin_cards(rng, &bin, explicit, &z);
    noise(rng, &mut cards);
    let spec = TileSpec { naxis, tile, zbitpix, algo, blocksize, dither, zdither0, q, par };
    Hdu { kind: Kind::Bin, cards, data, spec: Spec::Tile(spec, bin), hdr_off: 0, data_off: 0 }
}

pub fn tile_hdu(rng: &mut Rng, npix: usize) -> Hdu {
    let float = rng.bool();
    tile_image(rng, &Want { float, npix: npix.max(1), row_tiles: false, dims2: false, planes: None, many: false }, &mut [0; 3])
}
