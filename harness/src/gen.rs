//! Writes FITS files from a description and knows what reading them must give. Independent of the library.
use crate::cardgen::*;
use crate::rng::Rng;
use fitsrs::hdu::header::extension::XtensionType;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    Primary,
    Image,
    Ascii,
    Bin,
}

/// One value of a table: column, position in the cell, type, contents
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Cell {
    pub col: u32,
    pub idx: u64,
    pub t: char,
    pub a: u64,
    pub b: u64,
}

#[derive(Clone, Debug)]
pub struct Col {
    /// Element type; for variable-length columns that of the array
    pub t: char,
    pub repeat: usize,
    /// 'P' or 'Q' for variable-length arrays
    pub vla: Option<char>,
    pub name: Option<&'static str>,
    pub tform: String,
    pub width: usize,
    pub off: usize,
}

#[derive(Clone, Debug)]
pub struct BinSpec {
    pub cols: Vec<Col>,
    pub nrows: u64,
    pub rowlen: usize,
    pub theap: u64,
    pub pcount: u64,
}

#[derive(Clone, Debug)]
pub struct AscCol {
    pub tbcol: u64,
    pub t: char,
    pub w: usize,
    pub d: usize,
}

#[derive(Clone, Debug)]
pub enum Spec {
    Image { bitpix: i64, naxisn: Vec<u64> },
    Ascii { cols: Vec<AscCol>, naxis1: u64, naxis2: u64 },
    Bin(BinSpec),
    Tile(crate::tile::TileSpec, BinSpec),
}

#[derive(Clone, Debug)]
pub struct Hdu {
    pub kind: Kind,
    /// Cards, END excluded
    pub cards: Vec<Buf>,
    pub data: Vec<u8>,
    pub spec: Spec,
    // set when laid out in a file
    pub hdr_off: u64,
    pub data_off: u64,
}

#[derive(Clone, Debug)]
pub struct File {
    pub bytes: Vec<u8>,
    pub hdus: Vec<Hdu>,
}

pub fn elem_size(t: char) -> usize {
    match t {
        'L' | 'X' | 'B' | 'A' => 1,
        'I' => 2,
        'J' | 'E' => 4,
        'K' | 'D' | 'C' => 8,
        'M' => 16,
        _ => unreachable!(),
    }
}
fn be(b: &[u8]) -> u64 {
    b.iter().fold(0, |a, &x| a << 8 | x as u64)
}
/// Contents of one element: numbers as their bits
pub fn elem(t: char, b: &[u8]) -> (u64, u64) {
    match t {
        'L' => ((b[0] == b'T') as u64, 0),
        'C' => (be(&b[..4]), be(&b[4..8])),
        'M' => (be(&b[..8]), be(&b[8..16])),
        _ => (be(&b[..elem_size(t)]), 0),
    }
}

impl BinSpec {
    /// Elements of one row as full iteration must give them, for the given columns (in increasing order).
    /// `heap`: variable-length arrays are followed, otherwise their descriptors are given
    pub fn row_cells(&self, get: &dyn Fn(u64, usize) -> Vec<u8>, row: u64, cols: &[usize], heap: bool) -> Vec<Cell> {
        let mut out = vec![];
        for &c in cols {
            let col = &self.cols[c];
            let at = row * self.rowlen as u64 + col.off as u64;
            if let Some(pq) = col.vla {
                if col.width == 0 {
                    continue;
                }
                let d = get(at, col.width);
                let h = col.width / 2;
                let (n, o) = (be(&d[..h]), be(&d[h..]));
                if !heap {
                    out.push(Cell { col: u32::MAX, idx: 0, t: pq, a: n, b: o });
                    continue;
                }
                let sz = elem_size(col.t);
                let n = if col.t == 'X' { n.div_ceil(8) } else { n };
                for i in 0..n {
                    let (a, b) = elem(col.t, &get(self.theap + o + i * sz as u64, sz));
                    out.push(Cell { col: c as u32, idx: i, t: col.t, a, b });
                }
            } else {
                let sz = elem_size(col.t);
                let d = get(at, col.width);
                for (i, e) in d.chunks_exact(sz).enumerate() {
                    let (a, b) = elem(col.t, e);
                    out.push(Cell { col: c as u32, idx: i as u64, t: col.t, a, b });
                }
            }
        }
        out
    }
    pub fn rows(&self, data: &[u8], cols: &[usize], heap: bool) -> Vec<Vec<Cell>> {
        let get = |o: u64, n: usize| data[o as usize..o as usize + n].to_vec();
        (0..self.nrows).map(|r| self.row_cells(&get, r, cols, heap)).collect()
    }
    pub fn all_cols(&self) -> Vec<usize> {
        (0..self.cols.len()).collect()
    }
    /// Columns that store something
    pub fn stored(&self, c: usize) -> bool {
        self.cols[c].width > 0
    }
    pub fn cells(&self, data: &[u8]) -> Vec<Cell> {
        self.rows(data, &self.all_cols(), true).concat()
    }
    pub fn has_vla(&self) -> bool {
        self.cols.iter().any(|c| c.vla.is_some() && c.width > 0)
    }
}

impl Hdu {
    /// Pixels of an image as bits
    pub fn pixels(&self) -> Vec<u64> {
        match &self.spec {
            Spec::Image { bitpix, .. } => {
                self.data.chunks_exact(bitpix.unsigned_abs() as usize / 8).map(be).collect()
            }
            _ => vec![],
        }
    }
    pub fn bitpix(&self) -> i64 {
        match &self.spec {
            Spec::Image { bitpix, .. } => *bitpix,
            _ => 8,
        }
    }
    pub fn bin(&self) -> Option<&BinSpec> {
        match &self.spec {
            Spec::Bin(b) => Some(b),
            _ => None,
        }
    }
    fn header_bytes(&self) -> Vec<u8> {
        let mut v = self.cards.concat();
        v.extend_from_slice(&pad80("END"));
        while v.len() % 2880 != 0 {
            v.push(b' ');
        }
        v
    }
    pub fn fill(&self) -> u8 {
        if self.kind == Kind::Ascii {
            b' '
        } else {
            0
        }
    }
    pub fn describe(&self) -> String {
        let s = match &self.spec {
            Spec::Image { bitpix, naxisn } => format!("BITPIX={bitpix} NAXISn={naxisn:?}"),
            Spec::Ascii { cols, naxis1, naxis2 } => format!("{naxis1}x{naxis2} {} fields", cols.len()),
            Spec::Bin(b) => format!(
                "{} rows of [{}] THEAP={} PCOUNT={}",
                b.nrows,
                b.cols.iter().take(12).map(|c| c.tform.as_str()).collect::<Vec<_>>().join(" "),
                b.theap,
                b.pcount
            ),
            Spec::Tile(t, _) => t.describe(),
        };
        format!("{:?}: {s}; {} cards, {} data bytes", self.kind, self.cards.len() + 1, self.data.len())
    }
}

impl File {
    pub fn new(mut hdus: Vec<Hdu>) -> Self {
        let mut bytes = vec![];
        for h in &mut hdus {
            h.hdr_off = bytes.len() as u64;
            bytes.extend(h.header_bytes());
            h.data_off = bytes.len() as u64;
            bytes.extend_from_slice(&h.data);
            while bytes.len() % 2880 != 0 {
                bytes.push(h.fill());
            }
        }
        File { bytes, hdus }
    }
    /// Remove part of the padding of the last data unit
    pub fn cut_padding(&mut self, rng: &mut Rng) {
        let h = self.hdus.last().unwrap();
        let min = h.data_off as usize + h.data.len();
        if min < self.bytes.len() {
            let n = match rng.below(3) {
                0 => min,
                1 => (min + 1).min(self.bytes.len() - 1),
                _ => min + rng.us(self.bytes.len() - min),
            };
            self.bytes.truncate(n);
        }
    }
    pub fn describe(&self) -> String {
        self.hdus.iter().map(|h| h.describe()).collect::<Vec<_>>().join(" | ")
    }
}

/// Sizes at which mistakes show: around blocks and buffers
pub fn size_near(rng: &mut Rng, max: usize) -> usize {
    let n = match rng.below(8) {
        0 => 0,
        1 => 1,
        2 => 2880 * (1 + rng.us(3)),
        3 => (2880 * (1 + rng.us(3)) as i64 + rng.range(-9, 9)) as usize,
        4 => (8192 * (1 + rng.us(2)) as i64 + rng.range(-9, 9)) as usize,
        5 => rng.us(64),
        6 => rng.us(1000),
        _ => rng.us(12000),
    };
    n.min(max)
}

/// Number of cards (END included) at which mistakes show
fn target_cards(rng: &mut Rng, min: usize) -> usize {
    if rng.one_in(600) {
        // more than 64 KiB
        return min + 820 + rng.us(1500);
    }
    let t = match rng.below(6) {
        0 => 36 * (1 + rng.us(3)),
        1 => 36 * (1 + rng.us(3)) - 1,
        2 => 36 * (1 + rng.us(3)) + 1,
        3 => min + rng.us(80),
        _ => min + rng.us(8),
    };
    t.max(min)
}

/// Adds cards without effect on the structure until the header has a chosen length
pub fn noise(rng: &mut Rng, cards: &mut Vec<Buf>) {
    let n = target_cards(rng, cards.len() + 1) - 1;
    while cards.len() < n {
        let (b, _, _) = any_card(rng);
        cards.push(b);
    }
}

/// Axes whose product is n
pub fn axes(rng: &mut Rng, n: u64) -> Vec<u64> {
    if n == 0 {
        let k = rng.us(4);
        if k == 0 {
            return vec![];
        }
        let mut v: Vec<u64> = (0..k + 1).map(|_| rng.below(100)).collect();
        if rng.one_in(6) {
            // no pixel, though the product of the others overflows
            for x in &mut v {
                *x = 1 << (20 + rng.below(43));
            }
        }
        let i = rng.us(v.len());
        v[i] = 0;
        return v;
    }
    let mut v = vec![];
    let mut n = n;
    while n > 1 && v.len() < 6 && rng.below(4) > 0 {
        let mut d = 2 + rng.below(n.min(60));
        while n % d != 0 {
            d += 1;
            if d > n {
                d = n;
            }
        }
        v.push(d);
        n /= d;
    }
    if n > 1 || v.is_empty() {
        v.push(n);
    }
    let ones = match rng.below(8) {
        0 => rng.us(9),
        1 => 5 + rng.us(12),
        _ => rng.us(2),
    };
    let ones = if rng.one_in(300) { rng.us(999 - v.len()) } else { ones };
    v.extend(std::iter::repeat(1).take(ones));
    rng.shuffle(&mut v);
    v
}

/// Numbers of things above 16 bits, and sizes above the usual buffers
pub fn above_16_bits(rng: &mut Rng) -> usize {
    match rng.below(4) {
        0 => 65_530 + rng.us(12),
        1 => 65_536 * 2 - 6 + rng.us(12),
        2 => 65_536 + rng.us(6_000),
        _ => 70_000 + rng.us(130_000),
    }
}

/// An image of more pixels than 16 bits count
pub fn large_image(rng: &mut Rng, kind: Kind) -> Hdu {
    let bitpix = *rng.pick(&BITPIX);
    let n = above_16_bits(rng);
    let naxisn = match rng.below(3) {
        0 => vec![n as u64],
        1 => vec![n as u64 / 256, 256],
        _ => axes(rng, n as u64),
    };
    image_with(rng, kind, bitpix, naxisn)
}

pub fn col_of(t: char, repeat: usize) -> Col {
    let width = if t == 'X' { repeat.div_ceil(8) } else { repeat * elem_size(t) };
    Col { t, repeat, vla: None, name: None, tform: format!("{repeat}{t}"), width, off: 0 }
}

/// A binary table with more rows, elements or columns than 8 or 16 bits count
pub fn large_bintable(rng: &mut Rng, vla: Vla) -> Hdu {
    let t = *rng.pick(&TYPES);
    let mut cols = vec![];
    let nrows;
    match rng.below(if vla == Vla::Never { 3 } else { 5 }) {
        0 => {
            // rows
            cols.push(col_of(*rng.pick(&['B', 'I', 'L', 'A', 'J', 'X']), 1));
            if rng.bool() {
                cols.push(col_of(*rng.pick(&['B', 'E', 'I']), 1 + rng.us(2)));
            }
            nrows = above_16_bits(rng);
        }
        1 => {
            // elements of a cell
            let n = if t == 'X' { 8 * above_16_bits(rng) - rng.us(8) } else { above_16_bits(rng) };
            cols.push(col_of(t, n));
            if rng.bool() {
                cols.push(fixed_col(rng));
            }
            if rng.bool() {
                cols.insert(0, fixed_col(rng));
            }
            nrows = 1 + rng.us(2);
        }
        2 => {
            // columns
            let n = if rng.bool() { 999 } else { 250 + rng.us(700) };
            for _ in 0..n {
                let c = fixed_col(rng);
                cols.push(if c.width > 40 { col_of(c.t, 1) } else { c });
            }
            nrows = 1 + rng.us(4);
        }
        3 => {
            // elements of an array
            let t = *rng.pick(&['B', 'I', 'L', 'A', 'J', 'X', 'E', 'K', 'D', 'C', 'M']);
            let pq = *rng.pick(&['P', 'Q']);
            cols.push(Col { t, repeat: 1, vla: Some(pq), name: None, tform: format!("1{pq}{t}"), width: if pq == 'P' { 8 } else { 16 }, off: 0 });
            if rng.bool() {
                cols.push(fixed_col(rng));
            }
            let room = (65_600 + rng.us(4_000)) * elem_size(t);
            let rows = 1 + rng.us(2);
            return bintable_sized(rng, cols, rows, room, true);
        }
        _ => {
            // place in the heap, rows
            let t = *rng.pick(&['B', 'I', 'L', 'A', 'J', 'X', 'E', 'K', 'D', 'C', 'M']);
            let pq = *rng.pick(&['P', 'Q']);
            cols.push(Col { t, repeat: 1, vla: Some(pq), name: None, tform: format!("1{pq}{t}"), width: if pq == 'P' { 8 } else { 16 }, off: 0 });
            if rng.bool() {
                cols.insert(0, col_of('B', 1));
            }
            let rows = if rng.one_in(4) { 65_500 + rng.us(100) } else { 1 + rng.us(600) };
            return bintable_sized(rng, cols, rows, 300_000, false);
        }
    }
    bintable_sized(rng, cols, nrows, 100_000, false)
}

/// An ASCII table with more rows, fields or bytes in a row than 8 or 16 bits count
pub fn large_ascii(rng: &mut Rng) -> Hdu {
    match rng.below(3) {
        0 => {
            let rows = above_16_bits(rng) as u64;
            ascii_sized(rng, 1, 3, Some(rows))
        }
        1 => {
            let n = if rng.bool() { 999 } else { 250 + rng.us(700) };
            ascii_sized(rng, n, 12, Some(3))
        }
        _ => ascii_sized(rng, 3, 70_000, Some(2)),
    }
}

pub const BITPIX: [i64; 6] = [8, 16, 32, 64, -32, -64];

/// Numbers with extremes, NaNs with payloads, signed zeros among random ones
pub fn fill_values(rng: &mut Rng, bitpix: i64, n: usize) -> Vec<u8> {
    let sz = bitpix.unsigned_abs() as usize / 8;
    let mut v = rng.bytes(n * sz);
    if bitpix < 0 && rng.bool() {
        // mostly ordinary numbers
        for c in v.chunks_exact_mut(sz) {
            let x = (rng.range(-1_000_000, 1_000_000) as f64) / 64.0;
            if sz == 4 {
                c.copy_from_slice(&(x as f32).to_be_bytes());
            } else {
                c.copy_from_slice(&x.to_be_bytes());
            }
        }
    }
    let special: &[u64] = match bitpix {
        8 => &[0, 0xff, 0x80, 0x7f],
        16 => &[0, 0xffff, 0x8000, 0x7fff, 0x00ff, 0xff00],
        32 => &[0, 0xffff_ffff, 0x8000_0000, 0x7fff_ffff],
        64 => &[0, u64::MAX, 1 << 63, u64::MAX >> 1],
        -32 => &[0, 0x8000_0000, 0x7f80_0000, 0xff80_0000, 0x7fc0_0000, 0x7fa0_1234, 0xffc0_0001, 1, 0x7f7f_ffff],
        _ => &[0, 1 << 63, 0x7ff0 << 48, 0xfff0 << 48, 0x7ff8 << 48, 0x7ff4_0000_0000_1234, 0xfff8_0000_0000_0001, 1],
    };
    if n > 0 {
        for _ in 0..(n / 10).clamp(1, 200) {
            let i = rng.us(n);
            let s = rng.pick(special).to_be_bytes();
            v[i * sz..(i + 1) * sz].copy_from_slice(&s[8 - sz..]);
        }
    }
    v
}

pub fn image_cards(rng: &mut Rng, kind: Kind, bitpix: i64, naxisn: &[u64]) -> Vec<Buf> {
    let mut cards = vec![];
    if kind == Kind::Primary {
        cards.push(card_log("SIMPLE", true));
    } else {
        cards.push(xtension(rng, XtensionType::Image).0);
    }
    cards.push(card_int_c(rng, "BITPIX", bitpix as i128));
    cards.push(card_int_c(rng, "NAXIS", naxisn.len() as i128));
    for (i, n) in naxisn.iter().enumerate() {
        cards.push(card_int_c(rng, &format!("NAXIS{}", i + 1), *n as i128));
    }
    if kind == Kind::Primary {
        if rng.bool() {
            cards.push(card_log("EXTEND", true));
        }
    } else {
        cards.push(card_int("PCOUNT", 0));
        cards.push(card_int("GCOUNT", 1));
    }
    cards
}

pub fn image_with(rng: &mut Rng, kind: Kind, bitpix: i64, naxisn: Vec<u64>) -> Hdu {
    let n = if naxisn.is_empty() || naxisn.contains(&0) { 0 } else { naxisn.iter().product::<u64>() };
    let mut cards = image_cards(rng, kind, bitpix, &naxisn);
    noise(rng, &mut cards);
    let data = fill_values(rng, bitpix, n as usize);
    Hdu { kind, cards, data, spec: Spec::Image { bitpix, naxisn }, hdr_off: 0, data_off: 0 }
}

pub fn image(rng: &mut Rng, kind: Kind, max: usize) -> Hdu {
    let bitpix = *rng.pick(&BITPIX);
    let sz = bitpix.unsigned_abs() as usize / 8;
    let n = size_near(rng, max) / sz;
    let naxisn = axes(rng, n as u64);
    image_with(rng, kind, bitpix, naxisn)
}

pub fn ascii(rng: &mut Rng, max: usize) -> Hdu {
    ascii_of(rng, max, None, 25, None)
}
fn ascii_sized(rng: &mut Rng, nf: usize, w: usize, rows: Option<u64>) -> Hdu {
    ascii_of(rng, 0, Some(nf), w, rows)
}
fn ascii_of(rng: &mut Rng, max: usize, nf: Option<usize>, wmax: usize, rows: Option<u64>) -> Hdu {
    let nf = nf.unwrap_or_else(|| match rng.below(10) {
        0 => 0,
        1 => 9 + rng.us(5),
        2 => 98 + rng.us(5),
        _ => 1 + rng.us(6),
    });
    let mut cols: Vec<AscCol> = vec![];
    let mut at = 1;
    for _ in 0..nf {
        let t = *rng.pick(&['A', 'I', 'F', 'E', 'D']);
        let w = match rng.below(6) {
            0 if wmax > 20 => 1 + rng.us(120),
            _ => 1 + rng.us(wmax),
        };
        let d = rng.us(w + 1);
        at += rng.us(4) as u64;
        cols.push(AscCol { tbcol: at, t, w, d });
        at += w as u64;
    }
    if rng.one_in(4) {
        rng.shuffle(&mut cols); // fields may be in any order
    }
    let naxis1 = if nf == 0 { rng.below(30) } else { at - 1 + rng.below(4) };
    let naxis2 = if naxis1 == 0 {
        rng.below(5)
    } else {
        match rng.below(5) {
            0 => 0,
            1 => 1,
            _ => size_near(rng, max) as u64 / naxis1,
        }
    };
    let naxis2 = rows.unwrap_or(naxis2);
    let mut cards = vec![
        xtension(rng, XtensionType::AsciiTable).0,
        card_int_c(rng, "BITPIX", 8),
        card_int_c(rng, "NAXIS", 2),
        card_int_c(rng, "NAXIS1", naxis1 as i128),
        card_int_c(rng, "NAXIS2", naxis2 as i128),
        card_int_c(rng, "PCOUNT", 0),
        card_int_c(rng, "GCOUNT", 1),
        card_int_c(rng, "TFIELDS", nf as i128),
    ];
    for (i, c) in cols.iter().enumerate() {
        let f = match c.t {
            'A' | 'I' => format!("{}{}", c.t, c.w),
            t => format!("{t}{}.{}", c.w, c.d),
        };
        let mut pair = vec![
            card_int_c(rng, &format!("TBCOL{}", i + 1), c.tbcol as i128),
            card_str(&format!("TFORM{}", i + 1), &f),
        ];
        if rng.bool() {
            pair.push(card_str(&format!("TTYPE{}", i + 1), "NAME"));
        }
        if rng.one_in(3) {
            pair.push(card_str(&format!("TUNIT{}", i + 1), "s"));
        }
        if rng.one_in(4) {
            pair.push(card_str(&format!("TNULL{}", i + 1), "-"));
        }
        rng.shuffle(&mut pair);
        cards.extend(pair);
    }
    noise(rng, &mut cards);
    let n = (naxis1 * naxis2) as usize;
    let data = (0..n).map(|_| rng.range(0x20, 0x7e) as u8).collect();
    Hdu { kind: Kind::Ascii, cards, data, spec: Spec::Ascii { cols, naxis1, naxis2 }, hdr_off: 0, data_off: 0 }
}

pub const NAMES: &[&str] = &[
    "RA", "DEC", "FLUX", "NAME", "ID", "mag", "Mag", "COUNTS", "SPECTRUM", "x", "y", "COL_1", "TIME", "ERR", "flag", "RA2000",
    "E_RA", "source_id", "QUALITY", "W1", "W2", "W3", "KEY", "VALUE", "A", "B", "C", "D",
    "with blanks", "it's", "flux [Jy/beam]", "a name of nearly sixty characters, as long as a card lets it be", "W", "RA20", "-", "0", "T=1",
];
pub const TYPES: [char; 11] = ['L', 'X', 'B', 'I', 'J', 'K', 'A', 'E', 'D', 'C', 'M'];

pub fn fixed_col(rng: &mut Rng) -> Col {
    let t = *rng.pick(&TYPES);
    let repeat = match rng.below(12) {
        0 => 0,
        1 => 2 + rng.us(30),
        2 => 30 + rng.us(400),
        3 | 4 => 2 + rng.us(4),
        _ => 1,
    };
    let mut tform = match repeat {
        1 if rng.bool() => format!("{t}"),
        _ if rng.one_in(20) => format!("0{repeat}{t}"),
        _ => format!("{repeat}{t}"),
    };
    if t == 'A' && rng.one_in(6) {
        tform.push_str(&format!("{}", 1 + rng.us(9)));
    }
    let width = if t == 'X' { repeat.div_ceil(8) } else { repeat * elem_size(t) };
    Col { t, repeat, vla: None, name: None, tform, width, off: 0 }
}
pub fn vla_col(rng: &mut Rng) -> Col {
    let t = *rng.pick(&TYPES);
    let pq = *rng.pick(&['P', 'Q']);
    let repeat = if rng.one_in(12) { 0 } else { 1 };
    let pre = if repeat == 0 { "0" } else { *rng.pick(&["1", "", "1"]) };
    let suf = match rng.below(3) {
        0 => String::new(),
        1 => format!("({})", rng.us(3000)),
        _ => "(10)".to_string(),
    };
    let width = if repeat == 0 { 0 } else if pq == 'P' { 8 } else { 16 };
    Col { t, repeat, vla: Some(pq), name: None, tform: format!("{pre}{pq}{t}{suf}"), width, off: 0 }
}

/// Give names and places to the columns
pub fn finish_cols(rng: &mut Rng, cols: &mut [Col]) -> usize {
    let mut names: Vec<&'static str> = NAMES.to_vec();
    rng.shuffle(&mut names);
    let mut off = 0;
    for c in cols.iter_mut() {
        c.off = off;
        off += c.width;
        c.name = if rng.one_in(5) { None } else { names.pop() };
    }
    off
}

pub fn bin_cards(rng: &mut Rng, s: &BinSpec, explicit_theap: bool, extra: &[Buf]) -> Vec<Buf> {
    let mut cards = vec![
        xtension(rng, XtensionType::BinTable).0,
        card_int_c(rng, "BITPIX", 8),
        card_int_c(rng, "NAXIS", 2),
        card_int_c(rng, "NAXIS1", s.rowlen as i128),
        card_int_c(rng, "NAXIS2", s.nrows as i128),
        card_int_c(rng, "PCOUNT", s.pcount as i128),
        card_int_c(rng, "GCOUNT", 1),
        card_int_c(rng, "TFIELDS", s.cols.len() as i128),
    ];
    let mut more = vec![];
    for (i, c) in s.cols.iter().enumerate() {
        more.push(card_str(&format!("TFORM{}", i + 1), &c.tform));
        if let Some(n) = c.name {
            more.push(card_str(&format!("TTYPE{}", i + 1), n));
        }
        if rng.one_in(4) {
            more.push(card_str(&format!("TUNIT{}", i + 1), rng.pick(&["deg", "mag", "Jy"])));
        }
        if rng.one_in(8) {
            more.push(card_raw(&format!("TSCAL{}", i + 1), "2.5"));
            more.push(card_raw(&format!("TZERO{}", i + 1), "32768"));
        }
        if rng.one_in(8) {
            more.push(card_int(&format!("TNULL{}", i + 1), -99));
        }
        if rng.one_in(8) {
            more.push(card_str(&format!("TDIM{}", i + 1), "(1,1)"));
        }
    }
    if explicit_theap {
        more.push(card_int_c(rng, "THEAP", s.theap as i128));
    }
    more.extend_from_slice(extra);
    if rng.one_in(3) {
        rng.shuffle(&mut more);
    }
    cards.extend(more);
    cards
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Vla {
    Never,
    Maybe,
    Always,
}

pub fn bintable(rng: &mut Rng, max: usize, vla: Vla) -> Hdu {
    let ncols = match rng.below(14) {
        0 => 0,
        1 => 9 + rng.us(5),
        2 if max > 3000 => 98 + rng.us(5),
        _ => 1 + rng.us(7),
    };
    let ncols = if vla == Vla::Always { ncols.max(1) } else { ncols };
    let with_vla = vla == Vla::Always || (vla == Vla::Maybe && rng.one_in(3));
    let mut cols: Vec<Col> = (0..ncols)
        .map(|_| if with_vla && rng.bool() { vla_col(rng) } else { fixed_col(rng) })
        .collect();
    if vla == Vla::Always && !cols.iter().any(|c| c.vla.is_some() && c.width > 0) {
        let mut c = vla_col(rng);
        while c.width == 0 {
            c = vla_col(rng);
        }
        let i = rng.us(cols.len());
        cols[i] = c;
    }
    bintable_with(rng, cols, max)
}

pub fn bintable_with(rng: &mut Rng, mut cols: Vec<Col>, max: usize) -> Hdu {
    let rowlen = finish_cols(rng, &mut cols);
    let nrows = if rowlen == 0 {
        rng.below(4)
    } else {
        match rng.below(8) {
            0 => 0,
            1 => 1,
            2 => 2 + rng.below(3),
            _ => (size_near(rng, max) / rowlen) as u64,
        }
    };
    bintable_rows(rng, cols, rowlen, nrows, max, None)
}
/// So many rows, and bytes in the heap
fn bintable_sized(rng: &mut Rng, mut cols: Vec<Col>, nrows: usize, heap: usize, long: bool) -> Hdu {
    let rowlen = finish_cols(rng, &mut cols);
    bintable_rows(rng, cols, rowlen, nrows as u64, 100, Some((heap, long)))
}
fn bintable_rows(rng: &mut Rng, cols: Vec<Col>, rowlen: usize, nrows: u64, max: usize, big: Option<(usize, bool)>) -> Hdu {
    let has_vla = cols.iter().any(|c| c.vla.is_some() && c.width > 0);
    let main = nrows as usize * rowlen;
    let mut data = rng.bytes(main);
    // logical cells
    for r in 0..nrows as usize {
        for c in &cols {
            if c.vla.is_none() && c.t == 'L' {
                for b in &mut data[r * rowlen + c.off..r * rowlen + c.off + c.width] {
                    *b = *rng.pick(&[b'T', b'F', 0, b'T', b'F']);
                }
            }
            if c.vla.is_none() && c.t == 'A' && rng.bool() {
                for b in &mut data[r * rowlen + c.off..r * rowlen + c.off + c.width] {
                    *b = rng.range(0x20, 0x7e) as u8;
                }
            }
        }
    }
    // the heap, after a gap or not. Without arrays there may be one all the same
    let gap = if (has_vla && rng.one_in(3)) || rng.one_in(12) { 1 + rng.us(3000) } else { 0 };
    let heap_len = if has_vla && big.is_some() {
        big.map_or(0, |b| b.0)
    } else if has_vla {
        match rng.below(5) {
            0 => 16 + rng.us(50),
            1 => 2880 * (1 + rng.us(2)),
            _ => 64 + rng.us(max.max(64)),
        }
    } else if gap > 0 || rng.one_in(12) {
        rng.us(300)
    } else {
        0
    };
    let theap = main + gap;
    let mut heap = rng.bytes(heap_len);
    for b in &mut heap {
        if rng.one_in(4) {
            *b = *rng.pick(&[b'T', b'F']);
        }
    }
    if has_vla {
        // where arrays go: one after the other, backwards, anywhere (overlapping)
        let layout = rng.below(3);
        let empty = *rng.pick(&[2, 3, 10, 1_000]);
        let long = rng.one_in(4) && nrows as usize * heap_len < 2_000_000;
        let mut next = 0_usize;
        let mut back = heap_len;
        for r in 0..nrows as usize {
            let row_empty = rng.one_in(6);
            for c in cols.iter().filter(|c| c.vla.is_some() && c.width > 0) {
                let sz = elem_size(c.t);
                let cap = heap_len / sz;
                let want = if let Some((_, true)) = big {
                    // more elements than 16 bits count, if there is room
                    let n = 65_530 + rng.us(12);
                    if n <= cap && rng.bool() { n } else { cap - rng.us(cap / 2 + 1) }
                } else if row_empty || rng.one_in(empty) {
                    0
                } else if long && rng.one_in(3) {
                    rng.us(cap + 1)
                } else {
                    rng.us(cap.min(9) + 1)
                };
                let bytes = want * sz;
                let off = match layout {
                    0 => {
                        if next + bytes > heap_len {
                            next = 0;
                        }
                        let o = next;
                        next += bytes;
                        o
                    }
                    1 => {
                        if bytes > back {
                            back = heap_len;
                        }
                        back -= bytes;
                        back
                    }
                    _ => rng.us(heap_len - bytes + 1),
                };
                let n = if c.t == 'X' && want > 0 { want * 8 - rng.us(8) } else { want };
                let at = r * rowlen + c.off;
                // an empty array may point anywhere in the heap
                if c.vla == Some('P') {
                    data[at..at + 4].copy_from_slice(&(n as u32).to_be_bytes());
                    data[at + 4..at + 8].copy_from_slice(&(off as u32).to_be_bytes());
                } else {
                    data[at..at + 8].copy_from_slice(&(n as u64).to_be_bytes());
                    data[at + 8..at + 16].copy_from_slice(&(off as u64).to_be_bytes());
                }
            }
        }
    }
    data.extend(rng.bytes(gap));
    data.extend(heap);
    let pcount = (gap + heap_len) as u64;
    let spec = BinSpec { cols, nrows, rowlen, theap: theap as u64, pcount };
    let explicit = gap > 0 || (pcount > 0 && rng.one_in(3));
    let mut cards = bin_cards(rng, &spec, explicit, &[]);
    noise(rng, &mut cards);
    Hdu { kind: Kind::Bin, cards, data, spec: Spec::Bin(spec), hdr_off: 0, data_off: 0 }
}

/// Any extension HDU
pub fn extension(rng: &mut Rng, max: usize) -> Hdu {
    match rng.below(8) {
        0..=2 => image(rng, Kind::Image, max),
        3 | 4 => ascii(rng, max),
        5 | 6 => bintable(rng, max, Vla::Maybe),
        _ => crate::tile::tile_hdu(rng, max / 16 + 4),
    }
}

/// A file of 1 to n HDUs
pub fn file(rng: &mut Rng, n: usize, max: usize) -> File {
    let k = 1 + rng.us(n);
    let mut hdus = vec![];
    if max >= 5_000 && rng.one_in(300) {
        // something large, then something else
        let kind = if rng.bool() { Kind::Primary } else { Kind::Image };
        if kind == Kind::Image {
            hdus.push(image_with(rng, Kind::Primary, 8, vec![]));
        }
        hdus.push(match rng.below(3) {
            0 if kind == Kind::Image => large_bintable(rng, Vla::Maybe),
            1 if kind == Kind::Image => large_ascii(rng),
            _ => large_image(rng, kind),
        });
        hdus.push(extension(rng, 1000));
        return File::new(hdus);
    }
    hdus.push(if rng.bool() { image(rng, Kind::Primary, max) } else { image_with(rng, Kind::Primary, 8, vec![]) });
    for _ in 1..k {
        hdus.push(extension(rng, max));
    }
    File::new(hdus)
}
