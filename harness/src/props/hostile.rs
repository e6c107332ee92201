//! C16: whatever the input
use super::stream::{atrace, Drive};
use super::walk::disturb;
use crate::cardgen::*;
use crate::ctx::{Ctx, Res, WithInput};
use crate::exec::*;
use crate::gen::*;
use crate::mon::*;
use crate::obs::*;
use crate::rng::{hash_bytes, Rng};
use crate::{alloc, ensure, Prop};
use fitsrs::async_fits::AsyncFits;
use fitsrs::card::Card;
use fitsrs::gz::GzReader;
use fitsrs::hdu::data::bintable::data::BinaryTableData;
use fitsrs::hdu::header::{Header, Xtension};
use fitsrs::{Fits, HDU};
use image::{ImageDecoder, ImageReader};
use std::convert::TryFrom;
use std::fmt::Debug;
use std::io::{BufReader, Cursor, Read, Seek};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C16",
        level: "exploration",
        cases: [200_000, 12_000_000],
        run: c16,
        rule: "one hostile input (altered structure, altered bytes, hostile compressed data, random cards or random bytes) put through the whole interface in a random order of calls, watching panics, arithmetic overflow, aborts, reader operations, time and memory; non trivial: at least one HDU was given or the header got past its first card, distinct by input and calls",
        floors: &[("HDUs given", 20_000), ("inputs refused", 10_000), ("hostile keywords", 20_000), ("hostile descriptors", 2_000), ("hostile tiles", 1_500), ("large announced sizes", 10_000), ("large announced tiles", 1_000), ("random cards", 20_000), ("random bytes", 1_000), ("decoder runs", 5_000), ("asynchronous runs", 5_000), ("compressed runs", 2_000), ("data operations", 20_000)],
        assumptions: &["a case is hung after 40 s of processor time or 5 million reader operations; memory is out of proportion beyond 24 MiB plus 1100 times the input"],
    }]
}

const KEYS: &[&str] = &[
    "BITPIX", "NAXIS", "NAXIS1", "NAXIS2", "NAXIS3", "NAXIS1", "NAXIS2", "PCOUNT", "GCOUNT", "TFIELDS", "THEAP", "ZIMAGE", "ZCMPTYPE",
    "ZBITPIX", "ZNAXIS", "ZNAXIS1", "ZNAXIS2", "ZTILE1", "ZTILE2", "ZVAL1", "ZVAL2", "ZNAME1", "ZNAME2", "ZQUANTIZ", "ZDITHER0",
    "ZSCALE", "ZZERO", "ZBLANK", "BSCALE", "BZERO", "SIMPLE", "XTENSION", "TFORM1", "TFORM2", "TFORM3", "TTYPE1", "TTYPE2", "TBCOL1",
    "TBCOL2", "TUNIT1", "EXTEND", "END", "CONTINUE", "NAXIS999", "NAXIS4", "BLANK", "DATE", "CTYPE1",
];
const TFORMS: &[&str] = &[
    "0A", "1P", "1PB", "1PB(", "1PB(5", "PB(0)", "1PX(3)", "1QM(1)", "Q", "1QZ(5)", "-1J", "", " ", "1J2", "J", "999999999999A",
    "99999999999999999999D", "18446744073709551615X", "4294967296B", "2147483648K", "9223372036854775807M", "2305843009213693952K", "1PB(99999999999999999999)",
    "2PE(3)", "0PJ(3)", "1PP(3)", "1PQ(3)", "1J(5)", "a", "1Z", "X", "7X", "8X", "9X", "1.5E", "I5", "F5.9", "F.", "E99999999999.3", "D3.", "A0", "I-1",
    "A99999999999999999999", "é", "1é", "1Pé", "1QÉ(5)", "18446744073709551608X", "I9223372036854775807",
];

fn hostile_value(rng: &mut Rng) -> String {
    match rng.below(14) {
        0 => format!("{}", rng.range(-3, 5)),
        1 => rng.pick(&["0", "-1", "1", "2", "3", "4", "8", "16", "64", "-32", "-64", "999", "1000", "100", "10"]).to_string(),
        2 => {
            let s = rng.range(0, 64) as u32;
            let d = rng.range(-3, 3) as i128;
            format!("{}", (1_i128 << s) + d)
        }
        3 => {
            let s = rng.range(20, 64) as u32;
            format!("{}", -(1_i128 << s))
        }
        4 => rng.pick(&["18446744073709551616", "99999999999999999999999999", "-9223372036854775809", "1E400", "-1E400", "NaN", "1e18", "4.0", "0.5", "1D3", "3.0E0"]).to_string(),
        5 => rng.pick(&["T", "F", "'T'", "''", "'    '", "", "/", "'", "&", "'&'", "= 4", "'abc", "(1, 2)", "TRUE", "X"]).to_string(),
        6 => format!("'{}'", rng.pick(TFORMS)),
        7 => rng
            .pick(&[
                "'GZIP_1'", "'GZIP_2'", "'RICE_1'", "'RICE_ONE'", "'PLIO_1'", "'HCOMPRESS_1'", "'NOCOMPRESS'", "'SUBTRACTIVE_DITHER_1'",
                "'SUBTRACTIVE_DITHER_2'", "'NO_DITHER'", "'BLOCKSIZE'", "'BYTEPIX'", "'COMPRESSED_DATA'", "'ZSCALE'", "'ZZERO'", "'ZBLANK'",
                "'IMAGE'", "'TABLE'", "'BINTABLE'", "'UNCOMPRESSED_DATA'", "'GZIP_COMPRESSED_DATA'",
            ])
            .to_string(),
        8 => format!("{}", rng.range(-40000, 40000)),
        9 => format!("{}", rng.u64() as i64),
        10 => {
            let n = rng.us(70);
            text(rng, n)
        }
        _ => format!("{}", rng.below(300)),
    }
}
fn hostile_card(rng: &mut Rng, kw: &str) -> Buf {
    let v = hostile_value(rng);
    let mut b = if rng.one_in(12) { pad80_lossy(&format!("{kw:<8}{v}")) } else { pad80_lossy(&format!("{kw:<8}= {v}")) };
    if rng.one_in(10) {
        let at = rng.us(80);
        b[at] = rng.u64() as u8;
    }
    b
}
fn pad80_lossy(s: &str) -> Buf {
    let mut b = [b' '; 80];
    for (d, s) in b.iter_mut().zip(s.bytes()) {
        *d = s;
    }
    b
}

/// Changes of the header
fn hostile_header(ctx: &mut Ctx, rng: &mut Rng, h: &mut Hdu) {
    for _ in 0..1 + rng.us(3) {
        ctx.count("hostile keywords", 1);
        let n = h.cards.len();
        if n == 0 {
            return;
        }
        match rng.below(10) {
            // a card of the structure with another value
            0..=4 => {
                let i = if rng.bool() { rng.us(n.min(10)) } else { rng.us(n) };
                let kw = String::from_utf8_lossy(&h.cards[i][..8]).trim().to_string();
                h.cards[i] = hostile_card(rng, &kw);
            }
            5 | 6 => {
                let kw = *rng.pick(KEYS);
                let i = h.cards.iter().position(|c| String::from_utf8_lossy(&c[..8]).trim() == kw);
                let c = hostile_card(rng, kw);
                match i {
                    Some(i) if rng.below(3) > 0 => h.cards[i] = c,
                    _ => {
                        let at = rng.us(n + 1);
                        h.cards.insert(at, c);
                    }
                }
            }
            7 => {
                let i = if rng.bool() { rng.us(n.min(10)) } else { rng.us(n) };
                h.cards.remove(i);
            }
            8 => {
                let (i, j) = (rng.us(n), rng.us(n));
                h.cards.swap(i, j);
            }
            _ => {
                let i = rng.us(n);
                let at = rng.us(80);
                h.cards[i][at] = rng.u64() as u8;
            }
        }
    }
}

fn set(h: &mut Hdu, kw: &str, c: Buf) {
    match h.cards.iter().position(|c| String::from_utf8_lossy(&c[..8]).trim() == kw) {
        Some(i) => h.cards[i] = c,
        None => h.cards.push(c),
    }
}

/// Sizes which agree with each other, far above what the file holds
fn announced(ctx: &mut Ctx, rng: &mut Rng, h: &mut Hdu) {
    ctx.count("large announced sizes", 1);
    let n = (1_i128 << rng.range(20, 31)) + rng.range(-2, 2) as i128;
    match h.spec.clone() {
        Spec::Tile(..) => {
            ctx.count("large announced tiles", 1);
            let naxis = h.cards.iter().filter(|c| c.starts_with(b"ZNAXIS") && c[6] != b' ').count();
            let k = 1 + rng.us(naxis.max(1));
            set(h, &format!("ZNAXIS{k}"), card_int(&format!("ZNAXIS{k}"), n));
            set(h, &format!("ZTILE{k}"), card_int(&format!("ZTILE{k}"), n));
        }
        Spec::Bin(b) if b.nrows > 0 && !b.cols.is_empty() => {
            let k = rng.us(b.cols.len());
            let c = &b.cols[k];
            if c.vla.is_some() {
                // the heap is said to be large, and an array fills it
                set(h, "PCOUNT", card_int("PCOUNT", n));
                let e = (n as u64 / 32) << rng.below(6);
                let w = c.width / 2;
                let at = rng.us(b.nrows as usize) * b.rowlen + c.off;
                if at + 2 * w <= h.data.len() {
                    h.data[at..at + w].copy_from_slice(&e.to_be_bytes()[8 - w..]);
                    h.data[at + w..at + 2 * w].fill(0);
                }
            } else {
                let t = rng.pick(&["A", "B", "L", "X"]);
                set(h, &format!("TFORM{}", k + 1), card_str(&format!("TFORM{}", k + 1), &format!("{n}{t}")));
                let w = if *t == "X" { (n + 7) / 8 } else { n };
                set(h, "NAXIS1", card_int("NAXIS1", b.rowlen as i128 - c.width as i128 + w));
            }
        }
        _ => {
            let k = 1 + rng.us(2);
            set(h, &format!("NAXIS{k}"), card_int(&format!("NAXIS{k}"), n));
        }
    }
}

/// Changes of the descriptors and of the streams they point to
fn hostile_data(ctx: &mut Ctx, rng: &mut Rng, h: &mut Hdu) {
    let (Spec::Bin(b) | Spec::Tile(_, b)) = &h.spec else { return };
    let b = b.clone();
    if b.nrows == 0 || h.data.is_empty() {
        return;
    }
    let vla: Vec<&Col> = b.cols.iter().filter(|c| c.vla.is_some()).collect();
    let tile = matches!(h.spec, Spec::Tile(..));
    for _ in 0..1 + rng.us(3) {
        if !vla.is_empty() && rng.bool() {
            ctx.count("hostile descriptors", 1);
            let c = rng.pick(&vla);
            let at = rng.us(b.nrows as usize) * b.rowlen + c.off;
            let v = |rng: &mut Rng| match rng.below(5) {
                0 => rng.below(4),
                1 => rng.below(h.data.len() as u64 * 2 + 1),
                2 => u64::MAX >> rng.below(40),
                3 => 1 << rng.below(64),
                _ => rng.u64(),
            };
            let (n, o) = (v(rng), v(rng));
            let w = c.width / 2;
            if rng.bool() {
                h.data[at..at + w].copy_from_slice(&n.to_be_bytes()[8 - w..]);
            }
            if rng.bool() {
                h.data[at + w..at + 2 * w].copy_from_slice(&o.to_be_bytes()[8 - w..]);
            }
        } else {
            ctx.count(if tile { "hostile tiles" } else { "hostile cells" }, 1);
            let start = (b.theap as usize).min(h.data.len() - 1);
            let n = h.data.len();
            let at = if tile && rng.below(4) > 0 { start + rng.us(n - start) } else { rng.us(n) };
            match rng.below(4) {
                0 => h.data[at] = rng.u64() as u8,
                1 => h.data[at] ^= 1 << rng.below(8),
                2 => {
                    let k = rng.us((n - at).min(40) + 1);
                    let v = rng.bytes(k);
                    h.data[at..at + k].copy_from_slice(&v);
                }
                _ => {
                    let k = rng.us((n - at).min(200) + 1);
                    let fill = *rng.pick(&[0, 0xff, 0x80]);
                    h.data[at..at + k].fill(fill);
                }
            }
        }
    }
}

fn hostile_input(ctx: &mut Ctx, rng: &mut Rng) -> Vec<u8> {
    match rng.below(20) {
        0 => {
            ctx.count("random bytes", 1);
            let n = rng.us(9000);
            let mut b = rng.bytes(n);
            if rng.bool() {
                let s = card_log("SIMPLE", true);
                let k = n.min(80);
                b[..k].copy_from_slice(&s[..k]);
            }
            return b;
        }
        // headers made of any cards
        1 | 2 => {
            let mut b = vec![];
            for i in 0..1 + rng.us(3) {
                b.extend(if i == 0 { card_log("SIMPLE", true) } else { card_str("XTENSION", *rng.pick(&["IMAGE", "TABLE", "BINTABLE"])) });
                b.extend(card_int("BITPIX", *rng.pick(&[8, 16, 32, 64, -32, -64])));
                let nax = rng.below(4);
                b.extend(card_int("NAXIS", nax as i128));
                for k in 1..=nax {
                    b.extend(card_int(&format!("NAXIS{k}"), rng.below(30) as i128));
                }
                for _ in 0..rng.us(60) {
                    ctx.count("random cards", 1);
                    let c = match rng.below(5) {
                        0 => bad_card(rng).0,
                        1 => any_card(rng).0,
                        2 => {
                            let cont = rng.bool();
                            continuation(rng, Some(cont)).0
                        }
                        _ => {
                            let k = *rng.pick(KEYS);
                            hostile_card(rng, k)
                        }
                    };
                    b.extend(c);
                }
                if rng.below(8) > 0 {
                    b.extend(pad80_lossy("END"));
                }
                while b.len() % 2880 != 0 {
                    b.push(b' ');
                }
                let n = rng.us(4000);
                b.extend(rng.bytes(n));
                if rng.bool() {
                    b.resize(b.len().next_multiple_of(2880), 0);
                }
            }
            return b;
        }
        _ => (),
    }
    let mut hdus = vec![];
    let small = if rng.one_in(30) { 20_000 } else { 1_500 };
    hdus.push(if rng.bool() { image(rng, Kind::Primary, small) } else { image_with(rng, Kind::Primary, 8, vec![]) });
    for _ in 0..rng.us(3) {
        let e = match rng.below(6) {
            0 | 1 => crate::tile::tile_hdu(rng, small / 8),
            2 => bintable(rng, small, Vla::Maybe),
            _ => extension(rng, small),
        };
        hdus.push(e);
    }
    let mode = rng.below(4);
    for h in &mut hdus {
        if rng.one_in(6) {
            announced(ctx, rng, h);
        } else if mode != 1 && rng.below(3) > 0 {
            hostile_header(ctx, rng, h);
        }
        if mode != 0 && rng.below(3) > 0 {
            hostile_data(ctx, rng, h);
        }
    }
    let f = File::new(hdus);
    let mut b = f.bytes;
    if rng.one_in(5) {
        for _ in 0..1 + rng.us(8) {
            let at = rng.us(b.len());
            b[at] = rng.u64() as u8;
        }
    }
    if rng.one_in(5) {
        let n = rng.us(b.len() + 1);
        b.truncate(n);
    }
    b
}

/// Asks a header for everything
fn header_ops<X: Xtension + Debug>(rng: &mut Rng, h: &Header<X>) {
    let _ = header_text(h).len();
    let keys: Vec<String> = h.keywords().cloned().collect();
    for _ in 0..rng.us(6) {
        let k = if rng.bool() && !keys.is_empty() { rng.pick(&keys).clone() } else { rng.pick(KEYS).to_string() };
        let _ = h.get_parsed::<i64>(&k);
        let _ = h.get_parsed::<u8>(&k);
        let _ = h.get_parsed::<f64>(&k);
        let _ = h.get_parsed::<String>(&k);
        let _ = h.get_parsed::<bool>(&k);
        let _ = h.get_parsed::<Option<i32>>(&k);
        let _ = h.get_parsed::<Option<char>>(&k);
        if let Some(v) = h.get(&k) {
            let _ = h.get_keyword(v);
        }
    }
    for c in h.cards().take(200) {
        let _ = c.continued();
    }
}

fn use_it<R: Read + Seek + Debug>(ctx: &mut Ctx, rng: &mut Rng, fits: &mut Fits<R>, calls: &mut Vec<String>) -> bool {
    let mut any = false;
    for i in 0..40 {
        let h = match fits.next() {
            None => break,
            Some(Err(_)) => {
                ctx.count("inputs refused", 1);
                for _ in 0..3 {
                    let _ = fits.next();
                }
                break;
            }
            Some(Ok(h)) => h,
        };
        any = true;
        ctx.count("HDUs given", 1);
        match &h {
            HDU::Primary(h) | HDU::XImage(h) => {
                header_ops(rng, h.get_header());
                let x = h.get_header().get_xtension();
                let _ = (x.get_num_pixels(), x.get_naxis().len(), x.get_bitpix());
            }
            HDU::XBinaryTable(h) => {
                header_ops(rng, h.get_header());
                let x = h.get_header().get_xtension();
                let _ = (x.get_num_cols(), x.get_num_rows(), x.get_num_bytes_data_block(), x.get_z_image().is_some());
            }
            HDU::XASCIITable(h) => {
                header_ops(rng, h.get_header());
                let x = h.get_header().get_xtension();
                let _ = (x.get_num_cols(), x.get_num_rows(), x.get_num_bytes_data_block());
            }
        }
        for _ in 0..rng.us(3) {
            let size = h.get_data_unit_byte_size().min(300_000);
            let d = disturb(ctx, rng, fits, &h, size);
            ctx.count("data operations", 1);
            calls.push(format!("{i}: {d}"));
        }
        if rng.one_in(4) {
            // rows of a tile-compressed image, or raw bytes
            if let HDU::XBinaryTable(b) = &h {
                let d = fits.get_data(b);
                if let BinaryTableData::TileCompressed(p) = d {
                    let _ = tiles(p, 100_000);
                }
            }
        }
    }
    any
}

/// In memory the raw bytes are slices
fn raw(fits: &mut Fits<Cursor<&[u8]>>) {
    for _ in 0..20 {
        let Some(Ok(h)) = fits.next() else { return };
        match &h {
            HDU::Primary(h) | HDU::XImage(h) => {
                let _ = fits.get_data(h).raw_bytes().len();
            }
            HDU::XBinaryTable(h) => {
                let _ = fits.get_data(h).table_data().raw_bytes().len();
            }
            HDU::XASCIITable(_) => (),
        }
    }
}

fn c16(ctx: &mut Ctx) -> Res {
    let rng = &mut ctx.rng.clone();
    let base = alloc::reset_peak();
    let b = hostile_input(ctx, rng);
    let own = alloc::peak() - base;
    c16_input(ctx, rng, &b, own).input(&b)
}
fn c16_input(ctx: &mut Ctx, rng: &mut Rng, b: &[u8], _own: u64) -> Res {
    let mut calls = vec![];
    let mut any = false;
    let base = alloc::reset_peak();
    // what the workload itself may hold: values of a data unit
    let limit = (24 << 20) + 1100 * b.len() as u64;
    // cards one by one
    for c in b.chunks_exact(80).take(60) {
        if let Ok(c) = Card::try_from(<&[u8; 80]>::try_from(c).unwrap()) {
            let _ = c.continued();
            if let Card::Value { value, .. } | Card::Hierarch { value, .. } = &c {
                let _ = value.unit();
            }
        }
        let n = rng.us(81);
        let _ = fitsrs::card::split_value_and_comment(&c[n.min(8)..n.max(8)]);
    }
    let ops = b.len() as u64 * 20 + 5_000_000;
    match rng.below(8) {
        0 | 1 => any |= use_it(ctx, rng, &mut Fits::from_reader(Cursor::new(b)), &mut calls),
        2 => {
            raw(&mut Fits::from_reader(Cursor::new(b)));
            calls.push("raw".into());
        }
        3 => {
            let cap = 1 + rng.us(5000);
            any |= use_it(ctx, rng, &mut Fits::from_reader(BufReader::with_capacity(cap, Cursor::new(b))), &mut calls)
        }
        _ => {
            let r = MonReader::mem(b, Plan { budget: ops, ..if rng.bool() { Plan::plain() } else { Plan::random(rng) } });
            let log = r.log.clone();
            any |= use_it(ctx, rng, &mut Fits::from_reader(r), &mut calls);
            ctx.max("reader operations", log.borrow().ops());
        }
    }
    match rng.below(6) {
        0 => {
            ctx.count("decoder runs", 1);
            calls.push("decode".into());
            fitsrs::image_integration::register_fits_decoding_hook();
            // as the image crate does: the size of the buffer is checked first
            if let Ok(d) = ImageReader::new(Cursor::new(b)).with_guessed_format().unwrap().into_decoder() {
                let n = d.total_bytes();
                if n <= 16 << 20 {
                    let mut buf = vec![0; n as usize];
                    let _ = d.read_image(&mut buf);
                }
            }
        }
        1 => {
            ctx.count("asynchronous runs", 1);
            calls.push("async".into());
            let plan = APlan::random(rng);
            let r = AReader::new(b, plan);
            let st = r.st.clone();
            let cap = 1 + rng.us(4000);
            let mut fits = AsyncFits::from_reader(futures::io::BufReader::with_capacity(cap, r));
            let d = Drive { seed: rng.u64(), drops: rng.bool(), partial: rng.bool() };
            let t = atrace(ctx, &mut fits, &st, d);
            ensure!(!matches!(t, Err(Stuck::Endless)), "endless", "the asynchronous stream does not end");
            ensure!(t.is_ok(), "lost wake-up", "the asynchronous stream is stuck");
        }
        2 if rng.bool() => {
            ctx.count("compressed runs", 1);
            calls.push("gz".into());
            let mut z = crate::tile::gzip(b, 1);
            for _ in 0..rng.us(4) {
                let at = rng.us(z.len());
                z[at] = rng.u64() as u8;
            }
            if rng.one_in(3) {
                let n = rng.us(z.len() + 1);
                z.truncate(n);
            }
            if let Ok(r) = GzReader::new(Cursor::new(&z)) {
                any |= use_it(ctx, rng, &mut Fits::from_reader(r), &mut calls);
            }
        }
        _ => (),
    }
    let mem = alloc::peak() - base;
    ensure!(mem <= limit, "memory", "{mem} bytes of memory for an input of {} bytes: {calls:?}", b.len());
    ctx.max("bytes of memory", mem);
    ctx.seen(hash_bytes(b) ^ hash_bytes(format!("{calls:?}").as_bytes()), any);
    ctx.sample(|| format!("{} bytes: {:?} // {}", b.len(), String::from_utf8_lossy(&b[..b.len().min(400)]), calls.join("; ")));
    Ok(())
}
