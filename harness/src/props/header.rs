//! C03, C04, C05, C21, C22: headers
use crate::cardgen::*;
use crate::ctx::{Ctx, Fail, Res, WithInput};
use crate::gen::*;
use crate::mon::*;
use crate::obs::*;
use crate::rng::{hash_bytes, Rng};
use crate::{bail, ensure, Prop};
use fitsrs::card::{Card, Value};
use fitsrs::hdu::header::extension::asciitable::TFormAsciiTable;
use fitsrs::hdu::header::extension::XtensionType;
use fitsrs::hdu::header::{Bitpix, Header, ValueMap};
use fitsrs::{Fits, HDU};
use serde::de::IntoDeserializer;
use serde::Deserialize;
use std::collections::BTreeMap;
use std::convert::TryFrom;
use std::fmt::Debug;
use std::io::{BufReader, Cursor};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C03",
            level: "exploration",
            cases: [200_000, 12_000_000],
            run: c03,
            rule: "a card written from a keyword, value and comment, decoded and compared with them, or a card that spells no value, which must be refused; every card is non trivial, distinct by its 80 bytes",
            floors: &[("integer", 5_000), ("float", 5_000), ("string", 5_000), ("logical", 1_000), ("undefined", 1_000), ("comment", 1_000), ("history", 500), ("hierarch", 1_000), ("continue", 500), ("open string", 1_000), ("bad number", 1_000), ("xtension", 500), ("units", 300)],
            assumptions: &["complex values, non-ASCII bytes and keywords outside of the standard alphabet are not part of the legal cards written"],
        },
        Prop {
            id: "C04",
            level: "exploration",
            cases: [120_000, 7_200_000],
            run: c04,
            rule: "a header of up to 200 cards with repeated keywords, long strings, orphaned CONTINUE cards and commentary, compared with a model map; non trivial: a repeated keyword or a long string, distinct by the bytes of the header",
            floors: &[("cards spliced", 10_000), ("cards", 100_000), ("repeated keywords", 5_000), ("long strings", 5_000), ("long strings never ended", 300), ("values of several keywords", 500), ("orphaned CONTINUE", 1_000), ("history cards", 2_000), ("joined comments", 1_000)],
            assumptions: &["values ending in several ampersands are not continued by the workload (the standard leaves room for interpretation)"],
        },
        Prop {
            id: "C05",
            level: "exploration",
            cases: [100_000, 6_000_000],
            run: c05,
            rule: "a header read with every type of value under every scalar type, and into structures; non trivial: all, distinct by the bytes of the header",
            floors: &[("text that is no value", 3_000), ("typed reads", 300_000), ("accepted", 50_000), ("refused", 50_000), ("structures filled", 3_000), ("structures refused", 3_000), ("out of range", 5_000)],
            assumptions: &["numbers beyond the range of f32 may be refused or become infinite"],
        },
        Prop {
            id: "C21",
            level: "exploration",
            cases: [60_000, 3_600_000],
            run: c21,
            rule: "a file with ASCII tables of 0 to 102 fields, judged on layout and bytes; non trivial: a table with fields and rows, distinct by its layout",
            floors: &[("large files", 50), ("tables", 5_000), ("fields", 20_000), ("bytes delivered", 1_000_000), ("tables without a row", 300), ("fields left out", 2_000)],
            assumptions: &["widths and positions are those of the FITS standard, decimals at most the width"],
        },
        Prop {
            id: "C22",
            level: "exploration",
            cases: [96_000, 5_760_000],
            run: c22,
            rule: "every mandatory keyword of every kind of HDU, missing or with each kind of illegal value, must make the header refused; and legal headers are compared with the metadata exposed; non trivial: all, distinct by defect, kind and place, or by header",
            floors: &[("large files", 50), ("headers of huge data units", 1_000), ("defects refused", 8_000), ("legal headers", 3_000), ("distinct defects", 60)],
            assumptions: &["mandatory keywords: SIMPLE or XTENSION, BITPIX, NAXIS, NAXISn; for tables PCOUNT, GCOUNT, TFIELDS, and for binary tables TFORMn agreeing with NAXIS1"],
        },
    ]
}

// ---------------------------------------------------------------- C03

fn show(b: &Buf) -> String {
    String::from_utf8_lossy(b).to_string()
}

fn c03(ctx: &mut Ctx) -> Res {
    let rng = &mut ctx.rng.clone();
    for _ in 0..10 {
        let (buf, want, what) = match rng.below(14) {
            0 => {
                let x = *rng.pick(&[0, 1, 2]);
                let x = match x {
                    0 => XtensionType::Image,
                    1 => XtensionType::BinTable,
                    _ => XtensionType::AsciiTable,
                };
                let (b, c) = xtension(rng, x);
                (b, Some(c), "xtension")
            }
            1 if rng.one_in(4) => (pad80("END"), Some(Card::End), "end"),
            2 | 3 => {
                let (b, what) = bad_card(rng);
                (b, None, what)
            }
            _ => {
                let (b, c, what) = any_card(rng);
                (b, Some(c), what)
            }
        };
        ctx.count(what, 1);
        c03_card(ctx, &buf, want, what).input(&buf)?;
        ctx.seen(hash_bytes(&buf), true);
        ctx.sample(|| show(&buf));
    }
    Ok(())
}
fn c03_card(ctx: &mut Ctx, buf: &Buf, want: Option<Card>, what: &str) -> Res {
    let got = Card::try_from(buf);
    match want {
        Some(want) => {
            // the same, asked for by keyword
            let mut kw: [u8; 8] = buf[..8].try_into().unwrap();
            let v = fitsrs::hdu::header::check_card_keyword(buf, &kw);
            match (&want, v) {
                (Card::Value { value, .. }, Ok(v)) => ensure!(v == *value, what, "{:?} gives {v:?} by its keyword instead of {value:?}", show(buf)),
                (Card::Value { .. }, Err(e)) => bail!(what, "{:?} refused by its keyword: {e}", show(buf)),
                (_, Ok(v)) => bail!(what, "{:?} gives the value {v:?}", show(buf)),
                _ => (),
            }
            let i = (hash_bytes(buf) % 8) as usize;
            kw[i] = if kw[i] == b'Q' { b'R' } else { b'Q' };
            if let Ok(v) = fitsrs::hdu::header::check_card_keyword(buf, &kw) {
                bail!(what, "{:?} gives {v:?} by another keyword", show(buf));
            }
            match &got {
                Ok(g) => ensure!(*g == want, what, "{:?} read as {g:?} instead of {want:?}", show(buf)),
                Err(e) => bail!(what, "{:?} refused ({e}) instead of {want:?}", show(buf)),
            }
            // the type of zero: -0.0 == 0.0, integers are not floats (checked by the variant)
            if let Card::Value { value, .. } | Card::Hierarch { value, .. } = &want {
                let comment = match value {
                    Value::Integer { comment, .. }
                    | Value::Float { comment, .. }
                    | Value::Logical { comment, .. }
                    | Value::String { comment, .. } => comment.clone(),
                    _ => None,
                };
                let u = unit_of(&comment);
                if u.is_some() {
                    ctx.count("units", 1);
                }
                ensure!(value.unit() == u.as_deref(), "unit", "unit of {:?} is {:?} instead of {u:?}", show(buf), value.unit());
                if let (Value::Float { value: v, .. }, Ok(Card::Value { value: Value::Float { value: g, .. }, .. })) = (value, &got) {
                    ensure!(v.to_bits() == g.to_bits(), "float", "{:?} read as {g:?} instead of {v:?}", show(buf));
                }
            }
        }
        None => match got {
            Err(_) | Ok(Card::Undefined(_)) => (),
            Ok(Card::Value { value: Value::Invalid(_) | Value::Undefined, .. }) => (),
            Ok(c) => bail!(what, "{:?} ({what}) read as {c:?}", show(buf)),
        },
    }
    Ok(())
}

// ---------------------------------------------------------------- C04

#[derive(Default)]
struct Model {
    cards: Vec<Card>,
    map: BTreeMap<String, Value>,
    history: Vec<String>,
    pending: Option<String>,
    joined: u64,
    orphans: u64,
    repeats: u64,
    unfinished: u64,
}
impl Model {
    fn add(&mut self, c: Card) {
        let is_cont = matches!(c, Card::Continuation { .. });
        if !is_cont && self.pending.take().is_some() {
            self.unfinished += 1;
        }
        match &c {
            Card::Value { name, value } | Card::Hierarch { name, value } => {
                if self.map.insert(name.clone(), value.clone()).is_some() {
                    self.repeats += 1;
                }
                if matches!(value, Value::String { value, .. } if value.ends_with('&')) {
                    self.pending = Some(name.clone());
                }
            }
            Card::Xtension { x, .. } => {
                let value = match x {
                    XtensionType::Image => "IMAGE",
                    XtensionType::BinTable => "BINTABLE",
                    XtensionType::AsciiTable => "TABLE",
                };
                self.map.insert("XTENSION".into(), Value::String { value: value.into(), comment: None });
            }
            Card::Continuation { string, comment: c } => match self.pending.clone() {
                None => self.orphans += 1,
                Some(name) => {
                    let s = string.clone().unwrap_or_default();
                    if let Some(Value::String { value, comment }) = self.map.get_mut(&name) {
                        value.pop();
                        if s.trim().is_empty() {
                            *value = value.trim_end_matches(' ').to_string();
                        } else {
                            value.push_str(&s);
                        }
                        *comment = match (comment.take(), c) {
                            (Some(a), Some(b)) => {
                                self.joined += 1;
                                Some(format!("{a}\n{b}"))
                            }
                            (a, b) => a.or(b.clone()),
                        };
                    }
                    if !s.ends_with('&') {
                        self.pending = None;
                    }
                }
            },
            Card::History(t) => self.history.push(t.clone()),
            _ => (),
        }
        self.cards.push(c);
    }
}

fn log_card(name: &str, value: bool) -> (Buf, Card) {
    (card_log(name, value), Card::Value { name: name.into(), value: Value::Logical { value, comment: None } })
}
fn int_card(name: &str, value: i64) -> (Buf, Card) {
    (card_int(name, value as i128), Card::Value { name: name.into(), value: Value::Integer { value, comment: None } })
}

/// A string over several cards: the cards and their decoding
fn long_string(rng: &mut Rng, name: &str, hier: bool, ended: bool) -> Vec<(Buf, Card)> {
    // sometimes more than 255 cards
    let (total, max) = if rng.one_in(400) { (12_000 + rng.us(12_000), 700) } else { (30 + rng.us(400), 12) };
    let mut s = String::new();
    while s.len() < total {
        s.push_str(&text(rng, 40).replace('&', "+"));
        if rng.bool() {
            s.push_str(&" ".repeat(rng.us(4)));
        }
    }
    let mut out = vec![];
    let mut rest = &s[..];
    let mut first = true;
    loop {
        let head = if first && hier {
            format!("HIERARCH {name} = ")
        } else if first {
            format!("{name:<8}= ")
        } else {
            "CONTINUE  ".to_string()
        };
        let width = 80 - head.len();
        // as much as fits, or less
        let mut k = rest.len().min(1 + rng.us(width));
        while k > 0 && quote(&rest[..k]).len() + 1 > width {
            k -= 1;
        }
        // a piece may be empty
        let none = rng.one_in(12);
        if none {
            k = 0;
        }
        let mut piece = rest[..k].to_string();
        rest = &rest[k..];
        let last = rest.is_empty() || (k == 0 && !none) || out.len() > max;
        if !last || !ended {
            piece.push('&');
        }
        let (f, comment) = layout(rng, &quote(&piece), width, true);
        let v = if piece.is_empty() {
            String::new()
        } else {
            let t = piece.trim_end_matches(' ');
            if t.is_empty() {
                " ".into()
            } else {
                t.to_string()
            }
        };
        let card = if first && hier {
            Card::Hierarch { name: name.into(), value: Value::String { value: v, comment } }
        } else if first {
            Card::Value { name: name.into(), value: Value::String { value: v, comment } }
        } else {
            Card::Continuation { string: Some(v), comment }
        };
        out.push((pad80(&format!("{head}{f}")), card));
        first = false;
        if last {
            return out;
        }
    }
}

/// Whether a decoded card may be followed by a CONTINUE without leaving room for interpretation
fn plain_end(c: &Card) -> bool {
    let s = match c {
        Card::Value { value: Value::String { value, .. }, .. } | Card::Hierarch { value: Value::String { value, .. }, .. } => value,
        Card::Continuation { string: Some(s), .. } => s,
        _ => return true,
    };
    match s.strip_suffix('&') {
        None => true,
        Some(t) => !t.trim_end().ends_with('&'),
    }
}

fn c04(ctx: &mut Ctx) -> Res {
    let rng = &mut ctx.rng.clone();
    let mut m = Model {
        cards: vec![],
        map: Default::default(),
        history: vec![],
        pending: None,
        joined: 0,
        orphans: 0,
        repeats: 0,
        unfinished: 0,
    };
    let mut bytes: Vec<u8> = vec![];
    let push = |m: &mut Model, bytes: &mut Vec<u8>, bc: (Buf, Card)| {
        bytes.extend_from_slice(&bc.0);
        m.add(bc.1);
    };
    let ext = rng.bool();
    let mut prefix = vec![];
    if ext {
        // an empty primary HDU comes first
        let f = File::new(vec![image_with(rng, Kind::Primary, 8, vec![])]);
        prefix = f.bytes;
        push(&mut m, &mut bytes, xtension(rng, XtensionType::Image));
    } else {
        push(&mut m, &mut bytes, log_card("SIMPLE", true));
    }
    push(&mut m, &mut bytes, int_card("BITPIX", 8));
    push(&mut m, &mut bytes, int_card("NAXIS", 0));
    if ext {
        push(&mut m, &mut bytes, int_card("PCOUNT", 0));
        push(&mut m, &mut bytes, int_card("GCOUNT", 1));
    }
    let n = match rng.below(4) {
        0 => rng.us(12),
        1 => 36 * (1 + rng.us(3)) - 1,
        2 => rng.us(200),
        _ if rng.one_in(200) => 800 + rng.us(1500),
        _ => rng.us(45),
    };
    let mut long = 0;
    let mut twice = false;
    let pool: Vec<String> = (0..4).map(|_| free_keyword(rng)).collect();
    while m.cards.len() < n {
        match rng.below(8) {
            0 => {
                let ended = rng.below(5) > 0;
                let hier = rng.one_in(4);
                let name = if rng.bool() { rng.pick(&pool).clone() } else { free_keyword(rng) };
                for bc in long_string(rng, &name, hier, ended) {
                    push(&mut m, &mut bytes, bc);
                }
                long += 1;
                if ext && !ended && rng.one_in(6) {
                    // a string left open before another XTENSION, then a CONTINUE
                    twice = true;
                    push(&mut m, &mut bytes, xtension(rng, XtensionType::Image));
                    let (b, c, _) = continuation(rng, Some(true));
                    if plain_end(&c) {
                        push(&mut m, &mut bytes, (b, c));
                    }
                }
            }
            1 | 2 => {
                // a keyword that was there already
                let name = rng.pick(&pool).clone();
                let (s, value, _) = value_field(rng, 70);
                let card = Card::Value { name: name.clone(), value };
                if plain_end(&card) {
                    push(&mut m, &mut bytes, (pad80(&format!("{name:<8}= {s}")), card));
                }
            }
            _ => {
                let (b, c, _) = any_card(rng);
                if plain_end(&c) {
                    push(&mut m, &mut bytes, (b, c));
                }
            }
        }
    }
    m.cards.push(Card::End);
    bytes.extend_from_slice(&pad80("END"));
    bytes.resize(bytes.len().next_multiple_of(2880), b' ');
    let all = [prefix, bytes].concat();
    let mut fits = Fits::from_reader(Cursor::new(&all[..]));
    if ext {
        fits.next();
    }
    let h = match fits.next() {
        Some(Ok(HDU::Primary(h) | HDU::XImage(h))) => h,
        // XTENSION is given only once in a legal header
        Some(Err(_)) if twice => return Ok(()),
        x => return Err(fail("refused", format!("legal header refused: {x:?}"))).input(&all),
    };
    c04_header(ctx, rng, h.get_header(), &m).input(&all)?;
    ctx.count("cards", m.cards.len() as u64);
    ctx.count("long strings", long);
    ctx.count("long strings never ended", m.unfinished);
    ctx.count("repeated keywords", m.repeats);
    ctx.count("orphaned CONTINUE", m.orphans);
    ctx.count("history cards", m.history.len() as u64);
    ctx.count("joined comments", m.joined);
    ctx.seen(hash_bytes(&all), m.repeats > 0 || long > 0);
    ctx.sample(|| m.cards.iter().skip(3).take(4).map(|c| format!("{c:?}")).collect::<Vec<_>>().join(" "));
    Ok(())
}
fn fail(sig: &str, msg: String) -> Fail {
    Fail { sig: sig.into(), msg, input: None }
}
fn c04_header<X: fitsrs::hdu::header::Xtension + Debug>(ctx: &mut Ctx, rng: &mut Rng, h: &Header<X>, m: &Model) -> Res {
    let got: Vec<&Card> = h.cards().collect();
    for i in 0..got.len().max(m.cards.len()) {
        let (g, w) = (got.get(i).copied(), m.cards.get(i));
        ensure!(g == w, "cards", "card {i} is {g:?} instead of {w:?}");
    }
    for (k, v) in &m.map {
        let g = h.get(k);
        ensure!(g == Some(v), "lookup", "{k} is {g:?} instead of {v:?}");
    }
    let mut kws: Vec<&str> = h.keywords().map(|s| s.as_str()).collect();
    kws.sort();
    let want: Vec<&str> = m.map.keys().map(|s| s.as_str()).collect();
    ensure!(kws == want, "keywords", "keywords {kws:?} instead of {want:?}");
    let mut kv: Vec<(&str, &Value)> = h.iter().collect();
    kv.sort_by_key(|x| x.0);
    let want: Vec<(&str, &Value)> = m.map.iter().map(|(k, v)| (k.as_str(), v)).collect();
    ensure!(kv == want, "pairs", "pairs {kv:?} instead of {want:?}");
    for _ in 0..3 {
        let k = free_keyword(rng);
        if !m.map.contains_key(&k) {
            ensure!(h.get(&k).is_none(), "absent", "{k} is {:?} though absent", h.get(&k));
            ctx.count("absent keywords", 1);
        }
    }
    // strings put together by hand
    let mut i = 0;
    while i < m.cards.len() {
        let mut card = m.cards[i].clone();
        i += 1;
        let (Card::Value { name, value: Value::String { .. } } | Card::Hierarch { name, value: Value::String { .. } }) = card.clone() else { continue };
        let mut one = Model::default();
        one.add(card.clone());
        let mut val = one.map[&name].clone();
        while let (Some(Card::Continuation { string, comment }), true) = (m.cards.get(i), one.pending.is_some()) {
            ensure!(card.continued(), "splice", "{card:?} is not continued");
            if rng.bool() {
                card.append(&m.cards[i]);
            } else {
                card = card.splice(m.cards[i].clone());
            }
            val = val.splice(string.clone(), comment.clone());
            one.add(m.cards[i].clone());
            i += 1;
            let (Card::Value { value, .. } | Card::Hierarch { value, .. }) = &card else { unreachable!() };
            ensure!(*value == one.map[&name] && val == *value, "splice", "{value:?} or {val:?} instead of {:?}", one.map[&name]);
            ctx.count("cards spliced", 1);
        }
        ensure!(card.continued() == one.pending.is_some(), "continued", "continued {}: {card:?}", card.continued());
    }
    let hist: Vec<&String> = h.history().collect();
    ensure!(hist.iter().copied().eq(m.history.iter()), "history", "history {hist:?} instead of {:?}", m.history);
    for v in m.map.values().take(5) {
        let k = h.get_keyword(v);
        let good = k.and_then(|k| m.map.get(k)) == Some(v);
        ensure!(good, "get_keyword", "keyword of {v:?} is {k:?}");
        // the first one, where each keyword that has this value is there only once
        let name = |c: &Card| match c {
            Card::Value { name, .. } | Card::Hierarch { name, .. } => Some(name.clone()),
            Card::Xtension { .. } => Some("XTENSION".to_string()),
            _ => None,
        };
        let names: Vec<String> = m.cards.iter().filter_map(name).filter(|k| m.map.get(k) == Some(v)).collect();
        let once = names.iter().all(|k| names.iter().filter(|x| *x == k).count() == 1);
        if once && names.len() > 1 {
            ctx.count("values of several keywords", 1);
            ensure!(k == Some(&names[0]), "get_keyword", "keyword of {v:?} is {k:?} instead of the first of {names:?}");
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C05

/// What a typed read must give
#[derive(Debug, PartialEq, Clone)]
enum Want {
    Is(String),
    Refused,
    /// Either
    Loose(String),
}
fn want_int(v: &Value, lo: i128, hi: i128) -> Want {
    match v {
        Value::Integer { value, .. } if (*value as i128) >= lo && *value as i128 <= hi => Want::Is(format!("{value:?}")),
        _ => Want::Refused,
    }
}
fn want(v: Option<&Value>, ty: &str) -> Want {
    let Some(v) = v else {
        return if ty.starts_with("Option") { Want::Is("None".into()) } else { Want::Refused };
    };
    if let Some(t) = ty.strip_prefix("Option ") {
        return match v {
            Value::Undefined => Want::Is("None".into()),
            v => match want(Some(v), t) {
                Want::Is(s) => Want::Is(format!("Some({s})")),
                Want::Loose(s) => Want::Loose(format!("Some({s})")),
                Want::Refused => Want::Refused,
            },
        };
    }
    match ty {
        "i8" => want_int(v, i8::MIN as i128, i8::MAX as i128),
        "u8" => want_int(v, 0, u8::MAX as i128),
        "i16" => want_int(v, i16::MIN as i128, i16::MAX as i128),
        "u16" => want_int(v, 0, u16::MAX as i128),
        "i32" => want_int(v, i32::MIN as i128, i32::MAX as i128),
        "u32" => want_int(v, 0, u32::MAX as i128),
        "i64" => want_int(v, i64::MIN as i128, i64::MAX as i128),
        "u64" => want_int(v, 0, u64::MAX as i128),
        "usize" => want_int(v, 0, u64::MAX as i128),
        "f64" => match v {
            Value::Integer { value, .. } => Want::Is(format!("{:?}", *value as f64)),
            Value::Float { value, .. } => Want::Is(format!("{value:?}")),
            _ => Want::Refused,
        },
        "f32" => match v {
            Value::Integer { value, .. } => Want::Is(format!("{:?}", *value as f32)),
            Value::Float { value, .. } if (*value as f32).is_infinite() => Want::Loose(format!("{:?}", *value as f32)),
            Value::Float { value, .. } => Want::Is(format!("{:?}", *value as f32)),
            _ => Want::Refused,
        },
        "bool" => match v {
            Value::Logical { value, .. } => Want::Is(format!("{value:?}")),
            _ => Want::Refused,
        },
        "String" | "&str" => match v {
            Value::String { value, .. } => Want::Is(format!("{value:?}")),
            Value::Invalid(s) => Want::Loose(format!("{s:?}")),
            _ => Want::Refused,
        },
        "Mode" => match v {
            Value::String { value, .. } => match MODES.iter().find(|m| m.0 == value) {
                Some(m) => Want::Is(m.1.into()),
                None => Want::Refused,
            },
            _ => Want::Refused,
        },
        _ => unreachable!(),
    }
}
/// What the enumerated type of the workload reads
const MODES: [(&str, &str); 4] = [("NO_DITHER", "No"), ("SUBTRACTIVE_2", "Two"), ("x y", "Other"), ("Plain", "Plain")];
#[derive(Deserialize, Debug)]
enum UserMode {
    #[serde(rename = "NO_DITHER")]
    No,
    #[serde(rename = "SUBTRACTIVE_2")]
    Two,
    #[serde(rename = "x y")]
    Other,
    Plain,
}
fn judge<T: Debug, E: Debug>(ctx: &mut Ctx, got: Result<T, E>, want: &Want, kw: &str, v: Option<&Value>, ty: &str) -> Res {
    ctx.count("typed reads", 1);
    let got = got.map(|x| format!("{x:?}"));
    match (&got, want) {
        (Ok(g), Want::Is(w) | Want::Loose(w)) if g == w => ctx.count("accepted", 1),
        (Err(_), Want::Refused | Want::Loose(_)) => {
            ctx.count("refused", 1);
            if ty.contains(['i', 'u']) && matches!(v, Some(Value::Integer { .. })) {
                ctx.count("out of range", 1);
            }
        }
        _ => bail!(format!("as {ty}"), "{kw} = {v:?} read as {ty}: {got:?} instead of {want:?}"),
    }
    Ok(())
}
fn typed(ctx: &mut Ctx, map: &ValueMap, kw: &str, v: Option<&Value>) -> Res {
    macro_rules! t {
        ($($t:ty = $n:expr),*) => { $(
            judge(ctx, map.get_parsed::<$t>(kw), &want(v, $n), kw, v, $n)?;
            let n = concat!("Option ", $n);
            judge(ctx, map.get_parsed::<Option<$t>>(kw), &want(v, n), kw, v, n)?;
        )* };
    }
    t!(i8 = "i8", u8 = "u8", i16 = "i16", u16 = "u16", i32 = "i32", u32 = "u32", i64 = "i64", u64 = "u64");
    t!(usize = "usize", f32 = "f32", f64 = "f64", bool = "bool", String = "String", &str = "&str", UserMode = "Mode");
    Ok(())
}

#[derive(Deserialize, Debug)]
#[allow(dead_code)]
struct S1 {
    #[serde(rename = "QA")]
    a: i64,
    #[serde(rename = "QB")]
    b: Option<f64>,
    #[serde(rename = "QC")]
    c: String,
    #[serde(rename = "QD")]
    d: Option<bool>,
}
#[derive(Deserialize, Debug)]
#[serde(rename_all = "UPPERCASE")]
#[allow(dead_code)]
struct S2 {
    qa: Option<u8>,
    qb: f32,
    qc: Option<String>,
    qd: bool,
    bitpix: i32,
}
#[derive(Deserialize, Debug)]
#[serde(rename_all = "UPPERCASE")]
#[allow(dead_code)]
struct S3 {
    qa: Option<i16>,
    qb: Option<f32>,
    qc: Option<String>,
    qd: Option<bool>,
    qe: Option<u64>,
    naxis: usize,
}

#[derive(Deserialize, Debug)]
#[serde(rename_all = "UPPERCASE")]
#[allow(dead_code)]
struct S4 {
    qm: UserMode,
    #[serde(rename = "BITPIX")]
    depth: i8,
    qe: Option<u16>,
}

fn c05(ctx: &mut Ctx) -> Res {
    let rng = &mut ctx.rng.clone();
    let mut bytes: Vec<u8> = vec![];
    bytes.extend_from_slice(&card_log("SIMPLE", true));
    bytes.extend_from_slice(&card_int("BITPIX", 8));
    bytes.extend_from_slice(&card_int("NAXIS", 0));
    let mut map: BTreeMap<String, Value> = Default::default();
    map.insert("BITPIX".into(), Value::Integer { value: 8, comment: None });
    map.insert("NAXIS".into(), Value::Integer { value: 0, comment: None });
    let mut order: Vec<(String, Option<&str>)> = vec![];
    for k in ["QA", "QB", "QC", "QD", "QE"] {
        if rng.one_in(5) {
            continue;
        }
        // mostly of the type the structures want
        let t = match k {
            "QA" | "QE" => "integer",
            "QB" => *rng.pick(&["float", "float", "integer"]),
            "QC" => "string",
            _ => "logical",
        };
        order.push((k.to_string(), if rng.below(8) > 0 { Some(t) } else { None }));
    }
    for _ in 0..2 + rng.us(5) {
        order.push((format!("V{}", rng.below(1000)), None));
    }
    rng.shuffle(&mut order);
    let mut wrong = vec![];
    for (name, t) in order {
        if rng.one_in(9) {
            let s = *rng.pick(&["12x4", "abc", "1.2.3", "T1", "--5", "1e", "0x10", "TRUE", "#", "1_000", "NaN", "+-2", "F.", "1,5", "e5", "12 34"]);
            let pad = " ".repeat(rng.us(20));
            bytes.extend_from_slice(&pad80(&format!("{name:<8}= {pad}{s}")));
            map.remove(&name);
            wrong.retain(|w| *w != name);
            wrong.push(name);
            continue;
        }
        wrong.retain(|w| *w != name);
        let (s, value) = loop {
            let (s, v, what) = value_field(rng, 70);
            if t.is_none() || t == Some(what) {
                break (s, v);
            }
        };
        bytes.extend_from_slice(&pad80(&format!("{name:<8}= {s}")));
        // a continued string is another matter (C04)
        map.insert(name, value);
        if rng.one_in(4) {
            bytes.extend_from_slice(&pad80("COMMENT between"));
        }
    }
    if rng.below(4) > 0 {
        let s = match rng.below(6) {
            0 => *rng.pick(&["plain", "PLAIN", "NO", "NO_DITHE", "NO_DITHER2", "3", "T"]),
            _ => rng.pick(&MODES).0,
        };
        bytes.extend_from_slice(&pad80(&format!("QM      = '{s:<8}' / mode")));
        map.insert("QM".into(), Value::String { value: s.to_string(), comment: Some("mode".into()) });
        ctx.count("enumerated values", 1);
    }
    bytes.extend_from_slice(&pad80("END"));
    bytes.resize(bytes.len().next_multiple_of(2880), b' ');
    let mut fits = Fits::from_reader(Cursor::new(&bytes[..]));
    let h = match fits.next() {
        Some(Ok(HDU::Primary(h))) => h,
        x => return Err(fail("refused", format!("legal header refused: {x:?}"))).input(&bytes),
    };
    // text that is no value has no type either
    let mut judged = true;
    for w in wrong {
        match h.get_header().get(&w) {
            Some(v @ Value::Invalid(_)) => {
                ctx.count("text that is no value", 1);
                map.insert(w, v.clone());
            }
            // read in some lenient way: not judged here
            _ => judged = false,
        }
    }
    if judged {
        c05_header(ctx, h.get_header(), &map).input(&bytes)?;
    }
    ctx.seen(hash_bytes(&bytes), true);
    ctx.sample(|| format!("{map:?}"));
    Ok(())
}

fn c05_struct<'a, T: Deserialize<'a> + Debug>(
    ctx: &mut Ctx,
    h: &'a ValueMap,
    map: &BTreeMap<String, Value>,
    name: &str,
    fields: &[(&str, &str, &str)],
) -> Res {
    let mut want_text = vec![];
    let mut refused = None;
    let mut loose = false;
    for (field, kw, ty) in fields {
        match want(map.get(*kw), ty) {
            Want::Is(s) => want_text.push(format!("{field}: {s}")),
            Want::Loose(s) => {
                loose = true;
                want_text.push(format!("{field}: {s}"))
            }
            Want::Refused => refused = Some(format!("{kw} = {:?} as {ty}", map.get(*kw))),
        }
    }
    let w = format!("{name} {{ {} }}", want_text.join(", "));
    let got = T::deserialize(h.into_deserializer());
    match (got, refused) {
        (Ok(g), None) => {
            let g = format!("{g:?}");
            ensure!(g == w, "structure", "{g} instead of {w}");
            ctx.count("structures filled", 1);
        }
        (Err(_), Some(_)) => ctx.count("structures refused", 1),
        (Err(_), None) if loose => (),
        (Err(e), None) => bail!("structure", "refused ({e}) instead of {w}"),
        (Ok(g), Some(why)) => bail!("structure", "{g:?} though {why}"),
    }
    Ok(())
}
fn c05_header(ctx: &mut Ctx, h: &ValueMap, map: &BTreeMap<String, Value>) -> Res {
    for (k, v) in map {
        typed(ctx, h, k, Some(v))?;
    }
    typed(ctx, h, "NOTTHERE", None)?;
    c05_struct::<S1>(ctx, h, map, "S1", &[("a", "QA", "i64"), ("b", "QB", "Option f64"), ("c", "QC", "String"), ("d", "QD", "Option bool")])?;
    c05_struct::<S4>(ctx, h, map, "S4", &[("qm", "QM", "Mode"), ("depth", "BITPIX", "i8"), ("qe", "QE", "Option u16")])?;
    c05_struct::<S2>(
        ctx,
        h,
        map,
        "S2",
        &[("qa", "QA", "Option u8"), ("qb", "QB", "f32"), ("qc", "QC", "Option String"), ("qd", "QD", "bool"), ("bitpix", "BITPIX", "i32")],
    )?;
    c05_struct::<S3>(
        ctx,
        h,
        map,
        "S3",
        &[
            ("qa", "QA", "Option i16"),
            ("qb", "QB", "Option f32"),
            ("qc", "QC", "Option String"),
            ("qd", "QD", "Option bool"),
            ("qe", "QE", "Option u64"),
            ("naxis", "NAXIS", "usize"),
        ],
    )
}

// ---------------------------------------------------------------- C21

fn c21(ctx: &mut Ctx) -> Res {
    let rng = &mut ctx.rng.clone();
    if ctx.idx % 200 == 133 {
        return super::walk::large_file(ctx, rng, Some(Kind::Ascii));
    }
    let mut hdus = vec![image_with(rng, Kind::Primary, 8, vec![])];
    for _ in 0..1 + rng.us(3) {
        hdus.push(if rng.one_in(200) { large_ascii(rng) } else { ascii(rng, 12_000) });
        if rng.one_in(4) {
            hdus.push(image(rng, Kind::Image, 3000));
        }
    }
    // fields that cannot be placed or read
    let mut lost: Vec<Vec<usize>> = vec![vec![]; hdus.len()];
    for (h, lost) in hdus.iter_mut().zip(&mut lost) {
        let Spec::Ascii { cols, .. } = &h.spec else { continue };
        if cols.is_empty() || rng.below(5) > 0 {
            continue;
        }
        for i in 0..cols.len() {
            if rng.below(cols.len().min(6) as u64 + 1) > 0 {
                continue;
            }
            let key = format!("{}{}", rng.pick(&["TBCOL", "TFORM"]), i + 1);
            let at = h.cards.iter().position(|c| &c[..10] == format!("{key:<8}= ").as_bytes()).unwrap();
            h.cards[at] = match rng.below(4) {
                0 => pad80("COMMENT no such card"),
                1 => card_raw(&key, ""),
                2 => card_log(&key, true),
                _ if key.starts_with("TF") => card_str(&key, rng.pick(&["X9", "9A", "", "Q4.2", "AA"])),
                _ => card_str(&key, rng.pick(&["ten", "", "A"])),
            };
            lost.push(i);
        }
    }
    let mut f = File::new(hdus);
    if rng.one_in(3) {
        f.cut_padding(rng);
    }
    let r = match rng.below(3) {
        0 => c21_file(ctx, rng, &mut Fits::from_reader(Cursor::new(&f.bytes[..])), &f, &lost),
        1 => {
            let cap = 1 + rng.us(500);
            c21_file(ctx, rng, &mut Fits::from_reader(BufReader::with_capacity(cap, Cursor::new(&f.bytes[..]))), &f, &lost)
        }
        _ => {
            let plan = Plan::random(rng);
            c21_file(ctx, rng, &mut Fits::from_reader(MonReader::mem(&f.bytes, plan)), &f, &lost)
        }
    };
    r.input(&f.bytes)
}
fn form(c: &AscCol) -> TFormAsciiTable {
    let (w, d) = (c.w, c.d);
    match c.t {
        'A' => TFormAsciiTable::Character { w },
        'I' => TFormAsciiTable::DecimalInteger { w },
        'F' => TFormAsciiTable::FloatingPointFixed { w, d },
        'E' => TFormAsciiTable::EFloatingPointExp { w, d },
        _ => TFormAsciiTable::DFloatingPointExp { w, d },
    }
}
fn c21_file<R: std::io::Read + std::io::Seek + Debug>(
    ctx: &mut Ctx,
    rng: &mut Rng,
    fits: &mut Fits<R>,
    f: &File,
    lost: &[Vec<usize>],
) -> Res {
    for (i, want) in f.hdus.iter().enumerate() {
        let h = match fits.next() {
            Some(Ok(h)) => h,
            x => bail!("walk", "HDU {i} is {:?}: {}", x.map(|r| r.map(|h| kind(&h))), f.describe()),
        };
        let (HDU::XASCIITable(h), Spec::Ascii { cols, naxis1, naxis2 }) = (h, &want.spec) else { continue };
        let x = h.get_header().get_xtension();
        let text = || format!("{naxis1}x{naxis2} {cols:?}");
        ensure!(x.get_naxis1() == *naxis1, "layout", "NAXIS1 is {}: {}", x.get_naxis1(), text());
        ensure!(x.get_naxis2() == *naxis2 && x.get_num_rows() as u64 == *naxis2, "layout", "NAXIS2 is {}: {}", x.get_naxis2(), text());
        ensure!(x.get_tfields() == cols.len() && x.get_num_cols() == cols.len(), "layout", "TFIELDS is {}: {}", x.get_tfields(), text());
        ensure!(x.get_bitpix() == Bitpix::U8 && x.get_pcount() == 0 && x.get_gcount() == 1, "layout", "counts: {}", text());
        ctx.count("fields left out", lost[i].len() as u64);
        let kept = || cols.iter().enumerate().filter(|(k, _)| !lost[i].contains(k)).map(|(_, c)| c);
        let tb: Vec<u64> = kept().map(|c| c.tbcol).collect();
        ensure!(x.get_tbcols() == tb, "tbcol", "TBCOL {:?} instead of {tb:?}", x.get_tbcols());
        let tf: Vec<TFormAsciiTable> = kept().map(form).collect();
        ensure!(x.get_tforms() == tf, "tform", "TFORM {:?} instead of {tf:?}", x.get_tforms());
        // bytes: all at once, or in pieces, or part of them
        let limit = if rng.one_in(5) { rng.us(want.data.len() + 1) } else { ENDLESS };
        let (b, e) = bytes(fits.get_data(&h), limit);
        ensure!(e.is_none(), "bytes", "error {e:?}");
        let n = limit.min(want.data.len());
        ensure!(b == want.data[..n], "bytes", "{} bytes delivered instead of {n}, or other ones: {}", b.len(), text());
        ctx.count("tables", 1);
        ctx.count("fields", cols.len() as u64);
        ctx.count("bytes delivered", b.len() as u64);
        ctx.count("tables without a row", (*naxis2 == 0) as u64);
        ctx.seen_dbg(&want.spec, !cols.is_empty() && *naxis2 > 0);
        ctx.sample(text);
    }
    Ok(())
}

// ---------------------------------------------------------------- C22

/// No extensions, or no standard ones
const UNKNOWN: [&str; 17] = [
    "'NOSUCHTHING'", "'IMAGESET'", "'IMAGE2  '", "'IMAG    '", "'BINTABLES'", "'BINTABL '", "'TABLES  '", "'TABL    '", "'XTABLE  '",
    "'XIMAGE  '", "'image   '", "'BinTable'", "'FOREIGN '", "'DUMP    '", "'        '", "'BIN TABLE'", "'T'",
];
/// Makes one mandatory keyword illegal. None if it does not apply.
fn damage(rng: &mut Rng, h: &mut Hdu, k: u64) -> Option<String> {
    let table = matches!(h.kind, Kind::Ascii | Kind::Bin);
    let naxis = match &h.spec {
        Spec::Image { naxisn, .. } => naxisn.len(),
        _ => 2,
    };
    let mut keys: Vec<String> = vec!["BITPIX".into(), "NAXIS".into()];
    for i in 1..=naxis {
        keys.push(format!("NAXIS{i}"));
    }
    if table {
        keys.extend(["PCOUNT", "GCOUNT", "TFIELDS"].map(String::from));
    }
    if let (Kind::Bin, Spec::Bin(b)) = (h.kind, &h.spec) {
        // the columns have to fill the rows
        let wide: Vec<usize> = (0..b.cols.len()).filter(|&i| b.cols[i].width > 0).collect();
        if !wide.is_empty() {
            keys.push(format!("TFORM{}", rng.pick(&wide) + 1));
        }
    }
    keys.push(if h.kind == Kind::Primary { "SIMPLE".into() } else { "XTENSION".into() });
    let kw = keys[(k % keys.len() as u64) as usize].clone();
    let at = h.cards.iter().position(|c| &c[..8] == format!("{kw:<8}").as_bytes())?;
    let first = at == 0;
    let what = rng.below(9);
    if kw.starts_with("TFORM") && matches!(what, 1 | 7 | 8) {
        // legal, but of another width
        let Spec::Bin(b) = &h.spec else { return None };
        let w = b.cols[kw[5..].parse::<usize>().unwrap() - 1].width;
        let size = *rng.pick(&[('I', 2_u128), ('J', 4), ('K', 8), ('E', 4), ('D', 8), ('C', 8), ('M', 16)]);
        let form = match what {
            1 => format!("{}B", w - 1),
            7 if w as u128 % size.1 == 0 => {
                // the same width, modulo what an integer can hold
                let bits = *rng.pick(&[16, 32, 64]);
                format!("{}{}", ((1_u128 << bits) + w as u128) / size.1, size.0)
            }
            _ => format!("{}B", w + 1 + rng.us(3000)),
        };
        h.cards[at] = card_str(&kw, &form);
        return Some("Bin TFORM of another width".into());
    }
    let (new, name): (Option<Buf>, &str) = match what {
        0 => (None, "missing"),
        1 if first => (Some(pad80(&format!("{kw:<8}= {:>20}", "F"))), "F"),
        1 => (Some(card_int(&kw, -1 - rng.below(if kw == "BITPIX" { 31 } else { 1000 }) as i128)), "negative"),
        2 => (Some(card_str(&kw, rng.pick(&["2", if kw.starts_with("TFORM") { "YES" } else { "ABC" }, "", "8"]))), "string"),
        3 => (Some(card_raw(&kw, rng.pick(&["2.0", "8.5", "1E1", "-.5"]))), "float"),
        4 if first => (Some(card_int(&kw, 1)), "integer"),
        4 => (Some(card_log(&kw, true)), "logical"),
        5 => (Some(card_raw(&kw, "")), "undefined"),
        6 if first => (Some(card_raw(&kw, rng.pick(&UNKNOWN))), "unknown"),
        6 if kw.starts_with("TFORM") => (Some(card_str(&kw, rng.pick(&["Y", "9Z", "-3J", "", "4", "*", "1.5E"]))), "garbage"),
        6 => (Some(card_raw(&kw, rng.pick(&["8X", "0x8", "--8", "'8"]))), "garbage"),
        7 => {
            // legal integers that are out of range for this keyword
            if rng.one_in(3) && !first {
                // equal to the right one modulo what a smaller integer can hold
                let text = String::from_utf8_lossy(&h.cards[at][10..]).to_string();
                let now: i128 = text.split('/').next()?.trim().parse().ok()?;
                let bits = match kw.as_str() {
                    "NAXIS" | "GCOUNT" | "BITPIX" => *rng.pick(&[8, 16, 32]),
                    "PCOUNT" if h.kind == Kind::Ascii => *rng.pick(&[16, 32]),
                    "TFIELDS" => *rng.pick(&[16, 32]),
                    "NAXIS1" if h.kind == Kind::Bin => *rng.pick(&[16, 32]),
                    _ => return None,
                };
                h.cards[at] = card_int(&kw, now + (1_i128 << bits));
                if kw == "NAXIS" && h.cards.len() > 230 {
                    return None;
                }
                return Some(format!("{:?} {kw} modulo", h.kind));
            }
            let v: i128 = match kw.as_str() {
                "BITPIX" => *rng.pick(&[0, 1, 7, 9, 24, 128, -8, -16, -31, 33, 63, 264, 65544, -224]),
                "NAXIS" if table => *rng.pick(&[0, 1, 3, 999]),
                "NAXIS" => h.cards.len() as i128 + 40,
                "GCOUNT" => *rng.pick(&[0, 2, 100]),
                "PCOUNT" if h.kind == Kind::Ascii => *rng.pick(&[1, 2880]),
                "TFIELDS" => *rng.pick(&[1000, 1001, 100_000, i64::MAX as i128]),
                "NAXIS1" if h.kind == Kind::Bin => {
                    let Spec::Bin(b) = &h.spec else { return None };
                    b.rowlen as i128 + rng.range(1, 9) as i128
                }
                _ => return None,
            };
            (Some(card_int(&kw, v)), "out of range")
        }
        _ => {
            // more than any file can hold
            if !kw.starts_with("NAXIS") || kw == "NAXIS" {
                return None;
            }
            (Some(card_raw(&kw, "99999999999999999999999")), "too large")
        }
    };
    match new {
        None => {
            h.cards.remove(at);
            // nothing else may give the keyword
            if h.cards.iter().any(|c| &c[..8] == format!("{kw:<8}").as_bytes()) {
                return None;
            }
        }
        Some(c) => h.cards[at] = c,
    }
    Some(format!("{:?} {} {name}", h.kind, kw.trim_end_matches(|c: char| c.is_ascii_digit() && kw.len() > 6)))
}

fn c22(ctx: &mut Ctx) -> Res {
    let rng = &mut ctx.rng.clone();
    if ctx.idx % 200 == 133 {
        return super::walk::large_file(ctx, rng, Some(Kind::Primary));
    }
    let n = rng.us(3);
    let mut hdus = vec![];
    for i in 0..n {
        hdus.push(if i == 0 { image(rng, Kind::Primary, 2000) } else { extension(rng, 2000) });
    }
    let h = if n == 0 {
        image(rng, Kind::Primary, 2000)
    } else {
        match rng.below(4) {
            0 => image(rng, Kind::Image, 2000),
            1 => ascii(rng, 2000),
            2 => bintable(rng, 2000, Vla::Maybe),
            _ => crate::tile::tile_hdu(rng, 300),
        }
    };
    if ctx.idx % 4 == 3 {
        let h = if n > 0 && rng.one_in(3) {
            ctx.count("headers of huge data units", 1);
            huge_header(rng)
        } else {
            h
        };
        hdus.push(h);
        let f = File::new(hdus);
        return c22_legal(ctx, &f).input(&f.bytes);
    }
    let mut h = h;
    let Some(what) = damage(rng, &mut h, ctx.idx) else { return Ok(()) };
    hdus.push(h);
    let after = rng.bool();
    if after {
        hdus.push(image(rng, Kind::Image, 100));
    }
    let f = File::new(hdus);
    let t = trace(Cursor::new(&f.bytes[..]), Mode::Skip);
    let r = (|| {
        ensure!(
            t.hdus.len() == n && matches!(t.end, End::Error(_)),
            what.replace(' ', "_"),
            "{what}: {} HDUs delivered instead of {n}, then {:?}; last {:?}",
            t.hdus.len(),
            t.end,
            t.hdus.last().map(|h| (h.kind, h.off, h.size))
        );
        Ok(())
    })();
    r.input(&f.bytes)?;
    ctx.count("defects refused", 1);
    let key = format!("defect {what}");
    if !ctx.stats.counters.contains_key(&key) {
        ctx.count("distinct defects", 1);
    }
    ctx.count(&key, 1);
    ctx.seen_dbg(&(&what, n, ctx.idx % 1000), true);
    ctx.sample(|| what.clone());
    Ok(())
}
fn bitpix_of(b: Bitpix) -> i64 {
    match b {
        Bitpix::U8 => 8,
        Bitpix::I16 => 16,
        Bitpix::I32 => 32,
        Bitpix::I64 => 64,
        Bitpix::F32 => -32,
        Bitpix::F64 => -64,
    }
}
/// The header of a data unit too large to be there
fn huge_header(rng: &mut Rng) -> Hdu {
    let (cards, spec, kind) = match rng.below(3) {
        0 => {
            let bitpix = *rng.pick(&BITPIX);
            let mut room = i64::MAX as u64 / (bitpix.unsigned_abs() / 8);
            let mut naxisn = vec![];
            for _ in 0..1 + rng.us(5) {
                let a = 1 + rng.u64() % room.min(1 << rng.range(1, 62));
                naxisn.push(a);
                room /= a;
            }
            if rng.one_in(6) {
                naxisn = vec![i64::MAX as u64 / (bitpix.unsigned_abs() / 8)];
            }
            rng.shuffle(&mut naxisn);
            (image_cards(rng, Kind::Image, bitpix, &naxisn), Spec::Image { bitpix, naxisn }, Kind::Image)
        }
        1 => {
            let mut h = ascii(rng, 0);
            let Spec::Ascii { cols, naxis1, .. } = &h.spec else { unreachable!() };
            let naxis2 = rng.u64() % (1 << rng.range(32, 62)) / (*naxis1).max(1);
            let at = h.cards.iter().position(|c| c.starts_with(b"NAXIS2 ")).unwrap();
            h.cards[at] = card_int("NAXIS2", naxis2 as i128);
            let spec = Spec::Ascii { cols: cols.clone(), naxis1: *naxis1, naxis2 };
            (h.cards, spec, Kind::Ascii)
        }
        _ => {
            let mut cols: Vec<Col> = (0..1 + rng.us(6)).map(|_| if rng.one_in(3) { vla_col(rng) } else { fixed_col(rng) }).collect();
            let rowlen = finish_cols(rng, &mut cols);
            let nrows = rng.u64() % (1 << rng.range(32, 61)) / (rowlen as u64).max(1);
            let pcount = rng.u64() % (1 << rng.range(1, 62));
            let b = BinSpec { cols, nrows, rowlen, theap: nrows * rowlen as u64, pcount };
            let cards = bin_cards(rng, &b, false, &[]);
            (cards, Spec::Bin(b), Kind::Bin)
        }
    };
    Hdu { kind, cards, data: vec![], spec, hdr_off: 0, data_off: 0 }
}
/// Legal headers: metadata as on the cards
fn c22_legal(ctx: &mut Ctx, f: &File) -> Res {
    let mut fits = Fits::from_reader(Cursor::new(&f.bytes[..]));
    for (i, want) in f.hdus.iter().enumerate() {
        let h = match fits.next() {
            Some(Ok(h)) => h,
            x => bail!("walk", "HDU {i} is {:?}: {}", x.map(|r| r.map(|h| kind(&h))), f.describe()),
        };
        let size = match &want.spec {
            Spec::Image { naxisn, .. } if naxisn.is_empty() => 0,
            Spec::Image { bitpix, naxisn } => bitpix.unsigned_abs() / 8 * if naxisn.contains(&0) { 0 } else { naxisn.iter().product() },
            Spec::Ascii { naxis1, naxis2, .. } => naxis1 * naxis2,
            Spec::Bin(b) | Spec::Tile(_, b) => b.rowlen as u64 * b.nrows + b.pcount,
        };
        let got = h.get_data_unit_byte_size();
        ensure!(got == size, "size", "a data unit of {got} bytes instead of {size}: {}", want.describe());
        match (&h, &want.spec) {
            (HDU::Primary(h) | HDU::XImage(h), Spec::Image { bitpix, naxisn }) => {
                let x = h.get_header().get_xtension();
                ensure!(x.get_naxis() == &naxisn[..], "naxis", "axes {:?} instead of {naxisn:?}", x.get_naxis());
                ensure!(bitpix_of(x.get_bitpix()) == *bitpix, "bitpix", "{:?} instead of {bitpix}", x.get_bitpix());
                let n = if naxisn.is_empty() || naxisn.contains(&0) { 0 } else { naxisn.iter().product() };
                ensure!(x.get_num_pixels() == n, "pixels", "{} pixels for {naxisn:?}", x.get_num_pixels());
            }
            (HDU::XBinaryTable(h), Spec::Bin(b) | Spec::Tile(_, b)) => {
                let x = h.get_header().get_xtension();
                ensure!(x.get_num_cols() == b.cols.len(), "columns", "{} columns instead of {}", x.get_num_cols(), b.cols.len());
                ensure!(x.get_num_rows() as u64 == b.nrows, "rows", "{} rows instead of {}", x.get_num_rows(), b.nrows);
                for (k, c) in b.cols.iter().enumerate() {
                    if let Some(n) = c.name {
                        let first = b.cols.iter().position(|c| c.name == Some(n));
                        let g = x.find_field_by_ttype(n);
                        ensure!(g == first, "column name", "{n} is column {g:?} instead of {k}: {}", want.describe());
                    }
                    let t: Result<String, _> = h.get_header().get_parsed(&format!("TFORM{}", k + 1));
                    ensure!(t.as_ref().ok() == Some(&c.tform), "tform", "{t:?} instead of {}", c.tform);
                }
                ensure!(x.find_field_by_ttype("NO SUCH").is_none(), "column name", "an unknown name is found");
                match (x.get_z_image(), &want.spec) {
                    (None, Spec::Bin(_)) => (),
                    (Some(z), Spec::Tile(t, _)) => {
                        ensure!(z.z_naxisn[..] == t.naxis[..], "znaxis", "{:?} instead of {:?}", z.z_naxisn, t.naxis);
                        ensure!(bitpix_of(z.z_bitpix) == t.zbitpix, "zbitpix", "{:?} instead of {}", z.z_bitpix, t.zbitpix);
                    }
                    (z, _) => bail!("zimage", "tile compression {:?}: {}", z.is_some(), want.describe()),
                }
            }
            (HDU::XASCIITable(h), Spec::Ascii { cols, naxis1, naxis2 }) => {
                let x = h.get_header().get_xtension();
                ensure!(x.get_naxis1() == *naxis1 && x.get_naxis2() == *naxis2, "ascii", "{}", want.describe());
                ensure!(x.get_tfields() == cols.len(), "ascii", "{}", want.describe());
            }
            _ => bail!("kind", "HDU {i} is {:?}: {}", kind(&h), f.describe()),
        }
        ctx.count("legal headers", 1);
        ctx.seen_dbg(&want.describe(), true);
    }
    Ok(())
}
