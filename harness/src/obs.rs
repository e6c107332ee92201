//! Reads a stream through the public interface and records everything that is delivered.
use crate::gen::{Cell, Kind};
use fitsrs::hdu::data::bintable::data::BinaryTableData;
use fitsrs::hdu::data::bintable::tile_compressed::pixels::Pixels as Tiles;
use fitsrs::hdu::data::bintable::ColumnId;
use fitsrs::hdu::header::Header;
use fitsrs::{DataValue, Fits, Pixels, HDU};
use std::fmt::Debug;
use std::io::{Read, Seek};

/// No data unit of the workloads has that many values: beyond, the reading does not end
pub const ENDLESS: usize = 30_000_000;

#[derive(Clone, Debug, PartialEq)]
pub enum Data {
    Unread,
    Pix { ty: i64, vals: Vec<u64> },
    Tile { ty: i64, vals: Vec<u64> },
    Bytes(Vec<u8>, Option<String>),
    Cells(Vec<Cell>),
    Rows(Vec<Vec<Cell>>),
}
impl Data {
    pub fn len(&self) -> usize {
        match self {
            Data::Unread => 0,
            Data::Pix { vals, .. } | Data::Tile { vals, .. } => vals.len(),
            Data::Bytes(b, _) => b.len(),
            Data::Cells(c) => c.len(),
            Data::Rows(r) => r.iter().map(|r| r.len()).sum(),
        }
    }
    /// Whether `self` is what reading `full` gives, stopped early
    pub fn is_prefix_of(&self, full: &Data) -> bool {
        match (self, full) {
            (Data::Unread, _) => true,
            (Data::Pix { ty: a, vals: v }, Data::Pix { ty: b, vals: w }) => a == b && w.starts_with(v),
            (Data::Tile { ty: a, vals: v }, Data::Tile { ty: b, vals: w }) => a == b && w.starts_with(v),
            (Data::Bytes(a, _), Data::Bytes(b, _)) => b.starts_with(a),
            (Data::Cells(a), Data::Cells(b)) => b.starts_with(a),
            (Data::Rows(a), Data::Rows(b)) => b.starts_with(a),
            _ => false,
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct HduTrace {
    pub kind: Kind,
    pub off: u64,
    pub size: u64,
    pub header: String,
    pub data: Data,
}

#[derive(Clone, Debug, PartialEq)]
pub enum End {
    Clean,
    Error(String),
    /// Did not end
    Never,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Trace {
    pub hdus: Vec<HduTrace>,
    pub end: End,
}
impl Trace {
    /// Same deliveries and same success, whatever the wording of the error
    pub fn same(&self, o: &Trace) -> bool {
        self.hdus == o.hdus && std::mem::discriminant(&self.end) == std::mem::discriminant(&o.end)
    }
    /// Where they part
    pub fn diff(&self, o: &Trace) -> String {
        for (i, (a, b)) in self.hdus.iter().zip(&o.hdus).enumerate() {
            if a.kind != b.kind || a.off != b.off || a.size != b.size {
                return format!(
                    "HDU {i}: {:?} at {} of {} bytes instead of {:?} at {} of {} bytes",
                    a.kind, a.off, a.size, b.kind, b.off, b.size
                );
            }
            if a.header != b.header {
                return format!("HDU {i}: headers differ: {}", first_diff(&a.header, &b.header));
            }
            if a.data != b.data {
                return format!("HDU {i} ({:?}): {}", a.kind, data_diff(&a.data, &b.data));
            }
        }
        if self.hdus.len() != o.hdus.len() {
            return format!("{} HDUs instead of {}, end {:?} / {:?}", self.hdus.len(), o.hdus.len(), self.end, o.end);
        }
        format!("end {:?} instead of {:?}", self.end, o.end)
    }
}

fn first_diff(a: &str, b: &str) -> String {
    let i = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
    let cut = |s: &str| String::from_utf8_lossy(&s.as_bytes()[i.saturating_sub(30)..(i + 80).min(s.len())]).to_string();
    format!("{:?} instead of {:?}", cut(a), cut(b))
}
fn seq_diff<T: PartialEq + Debug>(a: &[T], b: &[T]) -> String {
    let i = a.iter().zip(b).take_while(|(x, y)| x == y).count();
    format!("{} values instead of {}; value {i} is {:?} instead of {:?}", a.len(), b.len(), a.get(i), b.get(i))
}
pub fn data_diff(a: &Data, b: &Data) -> String {
    match (a, b) {
        (Data::Pix { ty: t, vals: v }, Data::Pix { ty: u, vals: w })
        | (Data::Tile { ty: t, vals: v }, Data::Tile { ty: u, vals: w }) => format!("type {t}/{u}: {}", seq_diff(v, w)),
        (Data::Bytes(v, e), Data::Bytes(w, f)) => format!("{} (end {e:?}/{f:?})", seq_diff(v, w)),
        (Data::Cells(v), Data::Cells(w)) => seq_diff(v, w),
        (Data::Rows(v), Data::Rows(w)) => seq_diff(v, w),
        _ => {
            let (a, b) = (format!("{a:?}"), format!("{b:?}"));
            format!("{:.60} instead of {:.60}", a, b)
        }
    }
}

fn col(c: &ColumnId) -> u32 {
    match c {
        ColumnId::Index(i) => *i as u32,
        ColumnId::Name(_) => u32::MAX - 1,
    }
}
pub fn cell(v: &DataValue) -> Cell {
    let c = |column: &ColumnId, idx: usize, t: char, a: u64, b: u64| Cell { col: col(column), idx: idx as u64, t, a, b };
    match v {
        DataValue::Logical { value, column, idx } => c(column, *idx, 'L', *value as u64, 0),
        DataValue::Bit { byte, column, idx, .. } => c(column, *idx, 'X', *byte as u64, 0),
        DataValue::UnsignedByte { value, column, idx } => c(column, *idx, 'B', *value as u64, 0),
        DataValue::Short { value, column, idx } => c(column, *idx, 'I', *value as u16 as u64, 0),
        DataValue::Integer { value, column, idx } => c(column, *idx, 'J', *value as u32 as u64, 0),
        DataValue::Long { value, column, idx } => c(column, *idx, 'K', *value as u64, 0),
        DataValue::Character { value, column, idx } => c(column, *idx, 'A', *value as u64, 0),
        DataValue::Float { value, column, idx } => c(column, *idx, 'E', value.to_bits() as u64, 0),
        DataValue::Double { value, column, idx } => c(column, *idx, 'D', value.to_bits(), 0),
        DataValue::ComplexFloat { real, imag, column, idx } => {
            c(column, *idx, 'C', real.to_bits() as u64, imag.to_bits() as u64)
        }
        DataValue::ComplexDouble { real, imag, column, idx } => c(column, *idx, 'M', real.to_bits(), imag.to_bits()),
        DataValue::VariableLengthArray32 { num_elems, offset_byte } => {
            Cell { col: u32::MAX, idx: 0, t: 'P', a: *num_elems as u64, b: *offset_byte as u64 }
        }
        DataValue::VariableLengthArray64 { num_elems, offset_byte } => {
            Cell { col: u32::MAX, idx: 0, t: 'Q', a: *num_elems, b: *offset_byte }
        }
    }
}
pub fn cells(v: &[DataValue]) -> Vec<Cell> {
    v.iter().map(cell).collect()
}

pub fn kind(h: &HDU) -> Kind {
    match h {
        HDU::Primary(_) => Kind::Primary,
        HDU::XImage(_) => Kind::Image,
        HDU::XBinaryTable(_) => Kind::Bin,
        HDU::XASCIITable(_) => Kind::Ascii,
    }
}
/// Everything a header tells
pub fn header_text<X>(h: &Header<X>) -> String
where
    X: fitsrs::hdu::header::Xtension + Debug,
{
    let cards: Vec<_> = h.cards().collect();
    let mut kv: Vec<_> = h.iter().collect();
    kv.sort_by_key(|x| x.0);
    let hist: Vec<_> = h.history().collect();
    format!("{cards:?} {kv:?} {hist:?} {:?}", h.get_xtension())
}
pub fn hdu_text(h: &HDU) -> String {
    match h {
        HDU::Primary(h) | HDU::XImage(h) => header_text(h.get_header()),
        HDU::XBinaryTable(h) => header_text(h.get_header()),
        HDU::XASCIITable(h) => header_text(h.get_header()),
    }
}

fn cap(n: usize) -> usize {
    n.min(ENDLESS)
}
pub fn pixels<R: Read>(p: Pixels<R>, n: usize) -> (i64, Vec<u64>) {
    let n = cap(n);
    match p {
        Pixels::U8(it) => (8, it.take(n).map(|x| x as u64).collect()),
        Pixels::I16(it) => (16, it.take(n).map(|x| x as u16 as u64).collect()),
        Pixels::I32(it) => (32, it.take(n).map(|x| x as u32 as u64).collect()),
        Pixels::I64(it) => (64, it.take(n).map(|x| x as u64).collect()),
        Pixels::F32(it) => (-32, it.take(n).map(|x| x.to_bits() as u64).collect()),
        Pixels::F64(it) => (-64, it.take(n).map(|x| x.to_bits()).collect()),
    }
}
/// Floating point pixels come as single precision, whatever ZBITPIX. All NaN are the same here.
pub fn tiles<R: Read + Seek + Debug>(p: Tiles<R>, n: usize) -> (i64, Vec<u64>) {
    let n = cap(n);
    let f = |x: f32| if x.is_nan() { 0x7fc0_0000 } else { x.to_bits() as u64 };
    match p {
        Tiles::U8(it) => (8, it.take(n).map(|x| x as u64).collect()),
        Tiles::I16(it) => (16, it.take(n).map(|x| x as u16 as u64).collect()),
        Tiles::I32(it) => (32, it.take(n).map(|x| x as u32 as u64).collect()),
        Tiles::F32(it) => (-32, it.take(n).map(|x| f(x as f32)).collect()),
        Tiles::F64(it) => (-64, it.take(n).map(|x| f(x as f32)).collect()),
    }
}
/// Reads until the end, an error, or n bytes
pub fn bytes<R: Read>(mut r: R, n: usize) -> (Vec<u8>, Option<String>) {
    let mut out = vec![];
    let mut buf = [0; 700];
    let n = cap(n);
    while out.len() < n {
        let k = buf.len().min(n - out.len());
        match r.read(&mut buf[..k]) {
            Ok(0) => return (out, None),
            Ok(k) => out.extend_from_slice(&buf[..k]),
            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => continue,
            Err(e) => return (out, Some(format!("{e}"))),
        }
    }
    (out, None)
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Mode {
    /// Data not looked at
    Skip,
    /// Everything; tables as a flat sequence of values
    Values,
    /// Tables row by row
    Rows,
    /// Tile-compressed images as the tables they are stored in
    RawTable,
    /// At most that many values
    Some(usize),
}

pub fn data<R: Read + Seek + Debug>(fits: &mut Fits<R>, h: &HDU, mode: Mode) -> Data {
    let n = match mode {
        Mode::Skip => return Data::Unread,
        Mode::Some(n) => n,
        _ => ENDLESS,
    };
    match h {
        HDU::Primary(h) | HDU::XImage(h) => {
            let (ty, vals) = pixels(fits.get_data(h).pixels(), n);
            Data::Pix { ty, vals }
        }
        HDU::XASCIITable(h) => {
            let (b, e) = bytes(fits.get_data(h), n);
            Data::Bytes(b, e)
        }
        HDU::XBinaryTable(h) => match (fits.get_data(h), mode) {
            (BinaryTableData::TileCompressed(p), Mode::Values | Mode::Rows | Mode::Some(_)) => {
                let (ty, vals) = tiles(p, n);
                Data::Tile { ty, vals }
            }
            (d, Mode::Rows) => Data::Rows(d.row_iter().take(cap(n)).map(|r| cells(&r)).collect()),
            (d, _) => Data::Cells(d.table_data().take(cap(n)).map(|v| cell(&v)).collect()),
        },
    }
}

/// Walks over the stream, reading each data unit according to `mode(index)`
pub fn trace_with<R: Read + Seek + Debug>(fits: &mut Fits<R>, mut mode: impl FnMut(usize) -> Mode) -> Trace {
    let mut hdus = vec![];
    loop {
        match fits.next() {
            None => return Trace { hdus, end: End::Clean },
            Some(Err(e)) => {
                // after an error the reading ends, soon
                for _ in 0..8 {
                    match fits.next() {
                        None => return Trace { hdus, end: End::Error(format!("{e}")) },
                        Some(Err(_)) => (),
                        Some(Ok(_)) => break,
                    }
                }
                return Trace { hdus, end: End::Never };
            }
            Some(Ok(h)) => {
                let data = data(fits, &h, mode(hdus.len()));
                hdus.push(HduTrace {
                    kind: kind(&h),
                    off: h.get_data_unit_byte_offset(),
                    size: h.get_data_unit_byte_size(),
                    header: hdu_text(&h),
                    data,
                });
            }
        }
        if hdus.len() > 20_000 {
            return Trace { hdus, end: End::Never };
        }
    }
}
pub fn trace<R: Read + Seek + Debug>(r: R, mode: Mode) -> Trace {
    trace_with(&mut Fits::from_reader(r), |_| mode)
}
