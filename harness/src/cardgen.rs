//! Writes header cards from values, together with what reading them back must give. Shares no code with the library:
//! the expectation comes from what is written, not from parsing it.
use crate::rng::Rng;
use fitsrs::card::{Card, Value};
use fitsrs::hdu::header::extension::XtensionType;

pub type Buf = [u8; 80];

pub fn pad80(s: &str) -> Buf {
    assert!(s.len() <= 80 && s.is_ascii(), "card too long: {s:?}");
    let mut b = [b' '; 80];
    b[..s.len()].copy_from_slice(s.as_bytes());
    b
}

/// Fixed-format card
pub fn card_int(kw: &str, v: i128) -> Buf {
    pad80(&format!("{kw:<8}= {v:>20}"))
}
pub fn card_int_c(rng: &mut Rng, kw: &str, v: i128) -> Buf {
    match rng.below(4) {
        0 => pad80(&format!("{kw:<8}= {v:>20} / {}", text(rng, 30))),
        1 => pad80(&format!("{kw:<8}= {v}")),
        2 => pad80(&format!("{kw:<8}= {v:>30} /{}", text(rng, 20))),
        _ => card_int(kw, v),
    }
}
pub fn card_log(kw: &str, v: bool) -> Buf {
    pad80(&format!("{kw:<8}= {:>20}", if v { "T" } else { "F" }))
}
pub fn card_str(kw: &str, v: &str) -> Buf {
    pad80(&format!("{kw:<8}= '{:<8}'", v.replace('\'', "''")))
}
pub fn card_raw(kw: &str, v: &str) -> Buf {
    pad80(&format!("{kw:<8}= {v}"))
}

/// Printable text, no trailing blank, at most n bytes
pub fn text(rng: &mut Rng, n: usize) -> String {
    let len = rng.us(n + 1);
    let mut s: String = (0..len)
        .map(|_| match rng.below(12) {
            0 => ' ',
            1 => *rng.pick(&['\'', '/', '=', '&', '[', ']', '"', '\\', '(', ',']),
            _ => rng.range(0x21, 0x7e) as u8 as char,
        })
        .collect();
    while s.ends_with(' ') {
        s.pop();
    }
    s
}

const KW: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_";
/// Names that resemble those the library looks for
pub const NEAR: &[&str] = &[
    "NAXISS", "BITPIXX", "TFIELDX", "PCOUNT2", "GCOUNT1", "THEAP1", "TFORMX", "TTYPEX", "TFORM0", "TTYPE0", "ZNAMEX",
    "NAXIS00", "EXTNAME", "EXTEND", "TELESCOP", "OBJECT", "DATE-OBS", "CRPIX1", "CRVAL1", "CTYPE1", "EQUINOX", "TBCOL0",
    "ENDING", "CONTINU", "COMMENTS", "HIST", "SIMPLEX", "XTENS",
];
/// A keyword no structure depends on
pub fn free_keyword(rng: &mut Rng) -> String {
    match rng.below(6) {
        0 => rng.pick(NEAR).to_string(),
        1 => rng.pick(&["A", "QA", "KEY", "QKEY1", "QKEY2", "Q", "W-_9"]).to_string(),
        _ => {
            let n = 1 + rng.us(7);
            let mut s = String::from(*rng.pick(&["Q", "V", "U"]));
            for _ in 0..n {
                s.push(*rng.pick(KW) as char);
            }
            s
        }
    }
}

/// A FITS string: (text between the quotes once unescaped, value it denotes). At most n bytes once quoted.
pub fn fits_string(rng: &mut Rng, n: usize) -> (String, String) {
    let mut raw = match rng.below(10) {
        0 => String::new(),
        1 => " ".repeat(1 + rng.us(10)),
        2 => format!("{}{}", " ".repeat(rng.us(6)), text(rng, 30)),
        3 => format!("{}{}", text(rng, 20), " ".repeat(rng.us(12))),
        4 => "'".repeat(1 + rng.us(4)),
        5 => format!("{}/{}", text(rng, 10), text(rng, 10)),
        6 => format!("{}''{}'", text(rng, 10), text(rng, 10)),
        7 => "x".repeat(n),
        _ => text(rng, 66),
    };
    while raw.replace('\'', "''").len() + 2 > n {
        raw.pop();
    }
    let v = raw.trim_end_matches(' ');
    let v = if raw.is_empty() {
        String::new()
    } else if v.is_empty() {
        " ".to_string()
    } else {
        v.to_string()
    };
    (raw, v)
}
pub fn quote(raw: &str) -> String {
    format!("'{}'", raw.replace('\'', "''"))
}

/// Spelling of an integer and its value
pub fn int_spelling(rng: &mut Rng) -> (String, i64) {
    let v = match rng.below(8) {
        0 => *rng.pick(&[
            0, 1, -1, 8, 16, 32, 64, -32, -64, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536,
            2147483647, 2147483648, -2147483648, -2147483649, 4294967295, 4294967296, i64::MAX, i64::MIN,
            i64::MAX - 1, 9007199254740992, 9007199254740993, -9007199254740993, 16777217,
        ]),
        1 => rng.u64() as i64,
        2 => rng.u64() as i32 as i64,
        3 => rng.u64() as i16 as i64,
        _ => rng.range(-1000, 1000),
    };
    let s = match rng.below(5) {
        0 if v >= 0 => format!("+{v}"),
        1 => {
            let w = if rng.one_in(8) { rng.us(45) } else { rng.us(19) };
            format!("{}{:0>w$}", if v < 0 { "-" } else { "" }, v.unsigned_abs())
        }
        _ => format!("{v}"),
    };
    (s, v)
}

/// Spelling of a real number and its value
pub fn float_spelling(rng: &mut Rng) -> (String, f64) {
    let neg = rng.bool();
    // digits on both sides of the point, one of them possibly empty
    let a = match rng.below(4) {
        0 => String::new(),
        1 => "0".to_string(),
        _ => format!("{}", rng.u64() >> rng.range(8, 63)),
    };
    let mut b = match rng.below(3) {
        0 if !a.is_empty() => String::new(),
        _ => format!("{:0>w$}", rng.u64() >> rng.range(16, 63), w = rng.us(8)),
    };
    if rng.one_in(12) {
        // more digits than a double holds
        for _ in 0..rng.us(30) {
            b.push(rng.range(0x30, 0x39) as u8 as char);
        }
    }
    let mut point = rng.below(5) > 0;
    if a.is_empty() || !b.is_empty() {
        point = true;
    }
    if a.is_empty() && b.is_empty() {
        b.push('0');
    }
    let exp = match rng.below(4) {
        0 => None,
        1 => Some(rng.range(-310, 305)),
        _ => Some(rng.range(-30, 30)),
    };
    if exp.is_none() {
        point = true; // otherwise it is an integer
    }
    let sign = if neg { "-" } else { *rng.pick(&["", "", "+"]) };
    let mant = format!("{a}{}{b}", if point { "." } else { "" });
    let (e_txt, e_val) = match exp {
        None => (String::new(), String::new()),
        Some(e) => {
            let s = if e >= 0 { rng.pick(&["", "+"]).to_string() } else { "-".to_string() };
            let d = format!("{:0>w$}", e.abs(), w = 1 + rng.us(3));
            (format!("{}{s}{d}", rng.pick(&['E', 'D'])), format!("e{e}"))
        }
    };
    // reference: the same number in the plainest decimal notation
    let v: f64 = format!("{}0{a}.{b}0{e_val}", if neg { "-" } else { "" }).parse().unwrap();
    (format!("{sign}{mant}{e_txt}"), v)
}

/// Lays a value and an optional comment out in `width` bytes; returns the comment as it must be read
pub fn layout(rng: &mut Rng, val: &str, width: usize, is_str: bool) -> (String, Option<String>) {
    let room = width.saturating_sub(val.len());
    let mut s = match rng.below(5) {
        // fixed format
        0 | 1 if !is_str && val.len() <= 20 && width >= 20 => format!("{val:>20}"),
        2 => format!("{}{val}", " ".repeat(rng.us(room.min(40) + 1))),
        // to the last byte
        3 if rng.one_in(3) => format!("{}{val}", " ".repeat(room)),
        _ => val.to_string(),
    };
    let left = width - s.len();
    if left >= 1 && rng.below(3) > 0 {
        let sep = " ".repeat(rng.us(left.min(12)));
        s.push_str(&sep);
        let left = width - s.len();
        if left >= 1 {
            s.push('/');
            let mut c = match rng.below(8) {
                0 => String::new(),
                1 => format!("[{}] {}", rng.pick(&["s", "m s-1", "deg", "", "Jy/beam"]), text(rng, 20)),
                2 => format!(" [{}] {}", rng.pick(&["s", "m s-1", "deg", "Jy/beam"]), text(rng, 20)),
                3 => format!("  {}", text(rng, 20)),
                4 => text(rng, 70),
                _ => format!(" {}", text(rng, 40)),
            };
            c.truncate(width - s.len());
            s.push_str(&c);
            let c = c.trim_end_matches(' ').to_string();
            return (s, Some(c));
        }
    }
    (s, None)
}

/// The unit a comment gives between brackets, if it starts with them
pub fn unit_of(comment: &Option<String>) -> Option<String> {
    let c = comment.as_ref()?.trim_start();
    let c = c.strip_prefix('[')?;
    Some(c[..c.find(']')?].to_string())
}

/// A value written in `width` bytes, what must be read, and a name for the statistics
pub fn value_field(rng: &mut Rng, width: usize) -> (String, Value, &'static str) {
    match rng.below(11) {
        0..=2 => {
            let (s, value) = loop {
                let r = int_spelling(rng);
                if r.0.len() <= width {
                    break r;
                }
            };
            let (s, comment) = layout(rng, &s, width, false);
            (s, Value::Integer { value, comment }, "integer")
        }
        3..=5 => {
            let (s, value) = loop {
                let r = float_spelling(rng);
                if r.0.len() <= width {
                    break r;
                }
            };
            let (s, comment) = layout(rng, &s, width, false);
            (s, Value::Float { value, comment }, "float")
        }
        6 => {
            let value = rng.bool();
            let (s, comment) = layout(rng, if value { "T" } else { "F" }, width, false);
            (s, Value::Logical { value, comment }, "logical")
        }
        7 => {
            let (s, _) = layout(rng, "", width, false);
            (s, Value::Undefined, "undefined")
        }
        _ => {
            let (raw, value) = fits_string(rng, width);
            let (s, comment) = layout(rng, &quote(&raw), width, true);
            (s, Value::String { value, comment }, "string")
        }
    }
}

/// Any legal card which may stand inside a header, with its expected decoding
pub fn any_card(rng: &mut Rng) -> (Buf, Card, &'static str) {
    match rng.below(20) {
        0 | 1 => {
            let t = text(rng, 72);
            (pad80(&format!("COMMENT {t}")), Card::Comment(t), "comment")
        }
        2 => {
            let t = text(rng, 72);
            (pad80(&format!("HISTORY {t}")), Card::History(t), "history")
        }
        3 => {
            let t = text(rng, 72);
            let c = if t.is_empty() { Card::Space } else { Card::Comment(t.clone()) };
            (pad80(&format!("        {t}")), c, "blank keyword")
        }
        4 => (pad80(""), Card::Space, "blank"),
        5 => continuation(rng, None),
        6 | 7 => hierarch(rng),
        8 => {
            // no value indicator: commentary
            let kw = free_keyword(rng);
            let t = text(rng, 60);
            let s = format!("{kw:<8} {}{t}", rng.pick(&["", " ", "x"]));
            let mut b = pad80(&s);
            if &b[8..10] == b"= " {
                b[9] = b'x';
            }
            let s = String::from_utf8(b.to_vec()).unwrap();
            (b, Card::Undefined(s), "no value indicator")
        }
        _ => {
            let name = free_keyword(rng);
            let (s, value, what) = value_field(rng, 70);
            (pad80(&format!("{name:<8}= {s}")), Card::Value { name, value }, what)
        }
    }
}

pub fn hierarch(rng: &mut Rng) -> (Buf, Card, &'static str) {
    let n = 1 + rng.us(5);
    let parts: Vec<String> = (0..n)
        .map(|_| (0..1 + rng.us(8)).map(|_| *rng.pick(KW) as char).collect())
        .collect();
    let mut head = String::from("HIERARCH");
    for p in &parts {
        head.push_str(&" ".repeat(1 + rng.one_in(6) as usize));
        head.push_str(p);
    }
    head.push_str(rng.pick(&[" =", " = ", "= ", "="]));
    let (s, value, _) = loop {
        let f = value_field(rng, 80 - head.len());
        if f.0.len() + head.len() <= 80 {
            break f;
        }
    };
    let name = parts.join(".");
    (pad80(&format!("{head}{s}")), Card::Hierarch { name, value }, "hierarch")
}

/// A CONTINUE card. `cont`: whether its string ends with an ampersand, if it matters
pub fn continuation(rng: &mut Rng, cont: Option<bool>) -> (Buf, Card, &'static str) {
    let (mut raw, mut v) = fits_string(rng, 66);
    if let Some(c) = cont {
        while v.ends_with('&') {
            raw = raw.trim_end_matches([' ', '&']).to_string();
            v = raw.trim_end_matches(' ').to_string();
        }
        if c {
            while raw.replace('\'', "''").len() + 3 > 66 {
                raw.pop();
            }
            raw.push('&');
            v = raw.clone();
        }
    }
    let (s, comment) = layout(rng, &quote(&raw), 70, true);
    let s = format!("CONTINUE  {s}");
    (pad80(&s), Card::Continuation { string: Some(v), comment }, "continue")
}

pub fn xtension(rng: &mut Rng, x: XtensionType) -> (Buf, Card) {
    let name = match x {
        XtensionType::Image => "IMAGE",
        XtensionType::BinTable => "BINTABLE",
        XtensionType::AsciiTable => "TABLE",
    };
    let val = if rng.bool() { format!("'{name:<8}'") } else { format!("'{name}'") };
    let (s, comment) = layout(rng, &val, 70, true);
    (pad80(&format!("XTENSION= {s}")), Card::Xtension { x, comment })
}

/// A card that spells no legal value. Returns what kind of mistake it makes.
pub fn bad_card(rng: &mut Rng) -> (Buf, &'static str) {
    let kw = free_keyword(rng);
    let (v, what) = match rng.below(4) {
        0 => (format!("'{}", text(rng, 60).replace('\'', "")), "open string"),
        1 => {
            let a = text(rng, 20).replace('\'', "");
            let b = text(rng, 20).replace('\'', "");
            (format!("'{a}''{b}"), "open string after a quote")
        }
        _ => {
            let n = format!("{}", rng.range(0, 99999));
            let s = match rng.below(12) {
                0 => format!("{n}{}", rng.pick(&['A', 'x', '_', ':', 'T', '\'', '"', '%'])),
                1 => format!("{n}.{n}.{n}"),
                2 => format!("--{n}"),
                3 => format!("{n}E"),
                4 => format!("{n}-"),
                5 => format!("{n},{n}"),
                6 => "0x10".to_string(),
                7 => format!("{n} {n}"),
                8 => format!("{n}.0D"),
                9 => format!("+-{n}"),
                10 => format!("{n}E5E5"),
                _ => rng.pick(&["+", "-", ".", "-.", "1E+", ".E5"]).to_string(),
            };
            let mut s = format!("{}{s}", " ".repeat(rng.us(15)));
            // a quote outside of a string is never closed either
            if !s.contains('\'') && rng.bool() {
                s.push_str(" / comment");
            }
            (s, "bad number")
        }
    };
    (pad80(&format!("{kw:<8}= {v}")), what)
}
