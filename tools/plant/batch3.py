import os
exec(open(os.path.join(os.path.dirname(os.path.abspath(sys.argv[1] if 'sys' in globals() else __import__('sys').argv[1])), 'batch1.py')).read().split("bug(id=")[0])
TC = "use fitsrs::hdu::data::bintable::data::BinaryTableData; use fitsrs::hdu::data::bintable::tile_compressed::pixels::Pixels; use std::io::Write;\n" + r'''
fn gz(raw:&[u8])->Vec<u8>{ let mut e=flate2::write::GzEncoder::new(vec![],flate2::Compression::default()); e.write_all(raw).unwrap(); e.finish().unwrap() }
'''

S = r"""
#[derive(Debug)] struct S{parts:Vec<(u64,Vec<u8>)>,pos:u64,len:u64}
impl Read for S{fn read(&mut self,b:&mut[u8])->std::io::Result<usize>{ let n=(b.len() as u64).min(self.len.saturating_sub(self.pos)) as usize; b[..n].fill(0);
 for (at,v) in &self.parts { let (s,e)=((*at).max(self.pos),(*at+v.len() as u64).min(self.pos+n as u64)); if s<e { b[(s-self.pos) as usize..(e-self.pos) as usize].copy_from_slice(&v[(s-at) as usize..(e-at) as usize]); } } self.pos+=n as u64; Ok(n)}}
impl Seek for S{fn seek(&mut self,p:SeekFrom)->std::io::Result<u64>{ self.pos=match p{SeekFrom::Start(x)=>x,SeekFrom::Current(x)=>(self.pos as i64+x) as u64,SeekFrom::End(x)=>(self.len as i64+x) as u64}; Ok(self.pos)}}
"""
bug(id="s01_tile_offset_32_bits", property="C20",
  needs="a tile compressed 16-bit image whose heap is over 4 GiB, with 64-bit descriptors",
  what_it_breaks="the offset of a tile is truncated to 32 bits: another place of the heap is decoded",
  edits=[("src/hdu/data/bintable/tile_compressed/pixels.rs", "                } => (num_elems, offset_byte),", "                } => (num_elems, u64::from(offset_byte as u32)),", 1)],
  demo=PRE + TC + S + r"""
fn main(){ let a=gz(&[0,0,0,5u8,0,0,0,6]); let b=gz(&[0,0,0,7u8,0,0,0,8]); let off=(1u64<<32)+0; 
 let mut h=primary(8,&[],&[]); h.extend(bintable(16,2,(off+1000) as usize,&["1QB(99)"],&["TTYPE1  = 'COMPRESSED_DATA'".into(),l("ZIMAGE","T"),"ZCMPTYPE= 'GZIP_1  '".into(),l("ZBITPIX",16),l("ZNAXIS",2),l("ZNAXIS1",2),l("ZNAXIS2",2)]));
 let start=h.len() as u64; let mut d=vec![]; for (o,t) in [(0u64,&a),(off,&b)] { d.extend((t.len() as u64).to_be_bytes()); d.extend(o.to_be_bytes()); }
 let s=S{parts:vec![(0,h),(start,d),(start+32,a),(start+32+off,b)],pos:0,len:start+32+off+1000};
 let mut f=Fits::from_reader(s); f.next(); let Some(Ok(HDU::XBinaryTable(h)))=f.next() else {panic!()};
 let BinaryTableData::TileCompressed(Pixels::I16(it))=f.get_data(&h) else {panic!()}; assert_eq!(it.collect::<Vec<_>>(),[5,6,7,8]); }
""")
bug(id="s02_hierarch_spaces", property="C03",
  needs="a HIERARCH card with several spaces between the words of its keyword",
  what_it_breaks="the keyword gets empty words",
  edits=[("src/card.rs", "            .split(|b| b.is_ascii_whitespace())\n            .filter(|s| !s.is_empty())\n", "            .trim_ascii()\n            .split(|b| b.is_ascii_whitespace())\n")],
  demo=PRE + r"""
use fitsrs::card::{Card, Value}; use std::convert::TryFrom;
fn main(){ let c=Card::try_from(&card("HIERARCH ESO  DET WIN = 12")).unwrap(); let Card::Hierarch{name,value:Value::Integer{value:12,..}}=c else {panic!()}; assert_eq!(name,"ESO.DET.WIN"); }
""")
bug(id="s03_empty_history", property="C04",
  needs="a HISTORY card with no text",
  what_it_breaks="the card is left out of the history",
  edits=[("src/hdu/header/mod.rs", "            if let Card::History(string) = c {\n                Some(string)\n", "            if let Card::History(string) = c {\n                // a blank line\n                Some(string).filter(|s| !s.is_empty())\n")],
  demo=PRE + r"""
fn main(){ let v=primary(8,&[],&["HISTORY a".into(),"HISTORY".into(),"HISTORY b".into()]); let Some(Ok(HDU::Primary(h)))=Fits::from_reader(Cursor::new(v)).next() else {panic!()}; assert_eq!(h.get_header().history().count(),3); }
""")
bug(id="s04_continue_of_continue", property="C04",
  needs="a CONTINUE card after a string continued by an empty string",
  what_it_breaks="the rest of the string is lost",
  edits=[("src/hdu/header/mod.rs", "                        if !v.continued() {\n", "                        if !v.continued() || string.as_deref().is_none_or(|s| s == \"&\") {\n")],
  demo=PRE + r"""
fn main(){ let v=primary(8,&[],&["A       = 'one&'".into(),"CONTINUE  '&'".into(),"CONTINUE  'two'".into()]); let Some(Ok(HDU::Primary(h)))=Fits::from_reader(Cursor::new(v)).next() else {panic!()}; assert_eq!(h.get_header().get_parsed::<String>("A").unwrap(),"onetwo"); }
""")
bug(id="s05_whole_float_is_integer", property="C05",
  needs="an untyped read of a floating point keyword whose value is a whole number",
  what_it_breaks="it comes out as an integer",
  edits=[("src/card.rs", "            Value::Float { value, comment: _ } => visitor.visit_f64(*value),\n", "            Value::Float { value, comment: _ } if value.fract() != 0.0 || value.abs() > 9e15 => {\n                visitor.visit_f64(*value)\n            }\n            Value::Float { value, comment: _ } => visitor.visit_i64(*value as i64),\n")],
  demo=PRE + r"""
fn main(){ let v=primary(8,&[],&["A       = 2.0".into()]); let Some(Ok(HDU::Primary(h)))=Fits::from_reader(Cursor::new(v)).next() else {panic!()}; assert!(h.get_header().get_parsed::<i64>("A").is_err()); assert_eq!(h.get_header().get_parsed::<f64>("A").unwrap(),2.0); }
""")
bug(id="s06_gcount", property="C22",
  needs="an ASCII table extension with GCOUNT other than 1",
  what_it_breaks="the header is accepted",
  edits=[("src/hdu/header/extension/asciitable.rs", "        if gcount != 1 {\n", "        if gcount == 0 {\n")],
  demo=PRE + r"""
fn main(){ let mut v=primary(8,&[],&[]); v.extend(header(&["XTENSION= 'TABLE   '".into(),l("BITPIX",8),l("NAXIS",2),l("NAXIS1",9),l("NAXIS2",1),l("PCOUNT",0),l("GCOUNT",2),l("TFIELDS",1),l("TBCOL1",1),"TFORM1  = 'I4      '".into()])); v.extend(data(b"123456789")); let mut f=Fits::from_reader(Cursor::new(v)); f.next(); assert!(f.next().unwrap().is_err()); }
""", also=["C21"])
bug(id="s07_heap_without_rows", property="C01",
  needs="a binary table without rows but with a heap, followed by another HDU",
  what_it_breaks="the heap is not skipped: the next HDU is lost",
  edits=[("src/hdu/header/extension/bintable.rs", "        self.naxis1 * self.naxis2 + self.pcount\n", "        self.naxis1 * self.naxis2 + if self.naxis2 == 0 { 0 } else { self.pcount }\n")],
  demo=PRE + r"""
fn main(){ let mut v=primary(8,&[],&[]); v.extend(bintable(4,0,3000,&["1J"],&[])); v.extend(data(&[1;3000])); v.extend(bintable(1,1,0,&["1B"],&[])); v.extend(data(&[1])); assert_eq!(Fits::from_reader(Cursor::new(v)).map(|h|h.unwrap()).count(),3); }
""", also=["C02","C22"])
bug(id="s08_gz_whole_blocks", property="C13",
  needs="a gzip file whose content is not a whole number of blocks (the padding of the last HDU is missing)",
  what_it_breaks="the last bytes of the data are lost",
  edits=[("src/gz.rs", "                Ok(GzReader::GzReader(Cursor::new(buf.into_boxed_slice())))", "                // only whole blocks\n                let len = buf.len() / 2880 * 2880;\n                Ok(GzReader::GzReader(Cursor::new(buf[..len].into())))")],
  demo=PRE + r"""
use std::io::Write;
fn main(){ let mut v=primary(8,&[5],&[]); v.extend(&[1,2,3,4,5]); let mut e=flate2::write::GzEncoder::new(vec![],flate2::Compression::default()); e.write_all(&v).unwrap(); let z=e.finish().unwrap();
 let mut f=Fits::from_reader(fitsrs::gz::GzReader::new(Cursor::new(z)).unwrap()); let Some(Ok(HDU::Primary(h)))=f.next() else {panic!()}; let fitsrs::Pixels::U8(it)=f.get_data(&h).pixels() else {panic!()}; assert_eq!(it.collect::<Vec<_>>(),[1,2,3,4,5]); }
""", also=["C17"])
bug(id="s09_async_error_is_end", property="C15",
  needs="an asynchronous reader that fails (or ends) in the middle of a 64-bit integer image",
  what_it_breaks="the stream ends as if the data were complete",
  edits=[("src/hdu/data/stream.rs", "                Poll::Ready(Err(e)) => Poll::Ready(Some(Err(e))),", "                // nothing more to read\n                Poll::Ready(Err(_)) => Poll::Ready(None),", 3)],
  demo=PRE + r"""
use futures::{StreamExt,executor::block_on}; use fitsrs::{AsyncFits,AsyncHDU}; use fitsrs::hdu::data::DataStream;
fn main(){ let mut v=primary(64,&[5],&[]); v.extend([0u8;12]); let mut f=AsyncFits::from_reader(futures::io::BufReader::new(futures::io::Cursor::new(v))); let Some(Ok(AsyncHDU::Primary(h)))=block_on(f.next()) else {panic!()};
 let DataStream::I64(st)=f.get_data(&h) else {panic!()}; let r:Vec<_>=block_on(st.collect()); assert_eq!(r.len(),2); assert!(r[0].is_ok() && r[1].is_err()); }
""", also=["C17"])
bug(id="s10_i16_wraps", property="C18",
  needs="a 16-bit image whose physical values are above 65535 or below 0",
  what_it_breaks="the values wrap around instead of saturating",
  edits=[("src/image_integration.rs", "            scale.apply(f64::from(src)).round() as u16\n", "            scale.apply(f64::from(src)).round() as i32 as u16\n")],
  demo=PRE + r"""
fn main(){ let mut v=primary(16,&[2,1],&[l("BSCALE","3.0")]); let mut d=30000i16.to_be_bytes().to_vec(); d.extend((-5i16).to_be_bytes()); v.extend(data(&d)); fitsrs::image_integration::register_fits_decoding_hook(); let im=image::ImageReader::new(Cursor::new(v)).with_guessed_format().unwrap().decode().unwrap(); assert_eq!(im.to_luma16().into_raw(),[65535,0]); }
""")
bug(id="s11_wide_ascii_field", property="C21",
  needs="an ASCII table with a field wider than 65535 characters",
  what_it_breaks="the field is discarded",
  edits=[("src/hdu/header/extension/asciitable.rs", "                    s.parse().map_err(|err| {", "                    s.parse::<u16>().map(usize::from).map_err(|err| {")],
  demo=PRE + r"""
fn main(){ let mut v=primary(8,&[],&[]); v.extend(header(&["XTENSION= 'TABLE   '".into(),l("BITPIX",8),l("NAXIS",2),l("NAXIS1",70000),l("NAXIS2",1),l("PCOUNT",0),l("GCOUNT",1),l("TFIELDS",1),l("TBCOL1",1),"TFORM1  = 'A70000  '".into()])); v.extend(data(&[b'a';70000])); let mut f=Fits::from_reader(Cursor::new(v)); f.next(); let Some(Ok(HDU::XASCIITable(h)))=f.next() else {panic!()}; assert!(format!("{:?}",h.get_header().get_xtension()).contains("70000 }")); }
""")
bug(id="s12_tform_digits_only", property="C16",
  needs="a binary table whose TFORM is a number without a type",
  what_it_breaks="panic",
  edits=[("src/hdu/header/extension/bintable.rs", "                let Some(field_ty) = tform.chars().nth(num_count_digits) else {\n                    warn!(\"Cannot extract the field type of {tform_kw}\");\n                    return None;\n                };", "                let field_ty = char::from(tform.as_bytes()[num_count_digits]);")],
  demo=PRE + r"""
fn main(){ let mut v=primary(8,&[],&[]); v.extend(bintable(4,1,0,&["4"],&[])); v.extend(data(&[1;4])); let mut f=Fits::from_reader(Cursor::new(v)); f.next(); let _=f.next(); }
""")
bug(id="s13_default_tile", property="C11",
  needs="a compressed image with ZTILE2 and without ZTILE1",
  what_it_breaks="the tiles are taken one pixel wide",
  edits=[("src/hdu/header/extension/bintable.rs", "                } else if i == 1 {\n", "                } else if i == 1 && values.get(\"ZTILE2\").is_none() {\n")],
  demo=PRE + TC + r"""
fn main(){ let t=gz(&[0,0,0,5u8,0,0,0,6,0,0,0,7,0,0,0,8]); let mut d=vec![]; d.extend((t.len() as u32).to_be_bytes()); d.extend([0;4]); d.extend(&t);
 let mut v=primary(8,&[],&[]); v.extend(bintable(8,1,t.len(),&["1PB(99)"],&["TTYPE1  = 'COMPRESSED_DATA'".into(),l("ZIMAGE","T"),"ZCMPTYPE= 'GZIP_1  '".into(),l("ZBITPIX",32),l("ZNAXIS",2),l("ZNAXIS1",2),l("ZNAXIS2",2),l("ZTILE2",2)])); v.extend(data(&d));
 let mut f=Fits::from_reader(Cursor::new(v)); f.next(); let Some(Ok(HDU::XBinaryTable(h)))=f.next() else {panic!()};
 let BinaryTableData::TileCompressed(Pixels::I32(it))=f.get_data(&h) else {panic!()}; assert_eq!(it.collect::<Vec<_>>(),[5,6,7,8]); }
""")
bug(id="s14_half_complex", property="C17",
  needs="a table cut between the real and the imaginary part of a complex value",
  what_it_breaks="an imaginary part of 0 is invented",
  edits=[("src/hdu/data/bintable/data.rs", "                            let imag = self.reader.read_f32::<BigEndian>().ok()?;", "                            let imag = self.reader.read_f32::<BigEndian>().unwrap_or_default();")],
  demo=PRE + r"""
fn main(){ let mut v=primary(8,&[],&[]); v.extend(bintable(8,2,0,&["1C"],&[])); v.extend([1u8;12]); let mut f=Fits::from_reader(BufReader::new(Cursor::new(v))); f.next(); let Some(Ok(HDU::XBinaryTable(h)))=f.next() else {panic!()}; assert_eq!(f.get_data(&h).table_data().count(),1); }
""")
bug(id="s15_reserved_zero_random", property="C12",
  needs="a double precision SUBTRACTIVE_DITHER_2 image with an exact zero before other pixels",
  what_it_breaks="the zero does not use up its random value: the pixels after it are dithered with the wrong value",
  edits=[("src/hdu/data/bintable/tile_compressed/mod.rs", "                if value == -2147483647 {\n                    *i1 = (*i1 + 1) % N_RANDOM;\n\n                    0.0\n", "                if value == -2147483647 {\n                    0.0\n", 0)],
  demo=PRE + TC + r"""
fn img(first:[u8;4])->Vec<f32>{ let mut raw=first.to_vec(); raw.extend([0,0,0,5,0,0,0,6]); let t=gz(&raw); let mut d=vec![]; d.extend((t.len() as u32).to_be_bytes()); d.extend([0;4]); d.extend(&t);
 let mut v=primary(8,&[],&[]); v.extend(bintable(8,1,t.len(),&["1PB(99)"],&["TTYPE1  = 'COMPRESSED_DATA'".into(),l("ZIMAGE","T"),"ZCMPTYPE= 'GZIP_1  '".into(),l("ZBITPIX",-64),l("ZNAXIS",2),l("ZNAXIS1",3),l("ZNAXIS2",1),
  "ZQUANTIZ= 'SUBTRACTIVE_DITHER_2'".into(),l("ZDITHER0",1),l("ZSCALE","1.0"),l("ZZERO","0.0")])); v.extend(data(&d));
 let mut f=Fits::from_reader(Cursor::new(v)); f.next(); let Some(Ok(HDU::XBinaryTable(h)))=f.next() else {panic!()};
 let BinaryTableData::TileCompressed(Pixels::F64(it))=f.get_data(&h) else {panic!()}; it.collect() }
fn main(){ let a=img([0,0,0,4]); let b=img((-2147483647i32).to_be_bytes()); assert_eq!(a.len(),3); assert_eq!(b[0],0.0); assert_eq!(a[1..],b[1..]); }
""")
bug(id="s16_cli_degenerate_axes", property="C19",
  needs="an image with an axis of length 1",
  what_it_breaks="the listing leaves the axis out of the dimensions",
  edits=[("crates/cli/src/struct.rs", "            .iter()\n            .map(|d| d.to_string())\n", "            .iter()\n            .filter_map(|d| (*d != 1).then(|| d.to_string()))\n")],
  demo_sh="cli", demo=r"""
import subprocess,sys
def card(s): return s.ljust(80).encode()
def kv(k,v): return card("%-8s= %20s"%(k,v))
def hdr(cs): b=b"".join(cs)+card("END"); return b+b" "*(-len(b)%2880)
v=hdr([kv("SIMPLE","T"),kv("BITPIX",8),kv("NAXIS",3),kv("NAXIS1",5),kv("NAXIS2",7),kv("NAXIS3",1)])+bytes(2880)
open(sys.argv[2]+"/x.fits","wb").write(v)
r=subprocess.run([sys.argv[1],"struct",sys.argv[2]+"/x.fits"],capture_output=True,text=True)
sys.exit(0 if r.returncode==0 and "dimensions: 5x7x1." in r.stdout else 1)
""")
bug(id="s17_selection_order", property="C10",
  needs="a selection of columns given in another order than that of the table",
  what_it_breaks="the fields come in the order of the selection and with wrong values",
  edits=[("src/hdu/data/bintable/data.rs", "        self.cols_idx.sort_unstable();\n", "")],
  demo=PRE + r"""
use fitsrs::hdu::data::bintable::ColumnId; use fitsrs::hdu::data::bintable::DataValue;
fn main(){ let mut v=primary(8,&[],&[]); v.extend(bintable(3,2,0,&["1B","1B","1B"],&[])); v.extend(data(&[1,2,3,4,5,6])); let mut f=Fits::from_reader(Cursor::new(v)); f.next(); let Some(Ok(HDU::XBinaryTable(h)))=f.next() else {panic!()};
 let r:Vec<u8>=f.get_data(&h).table_data().select_fields(&[ColumnId::Index(2),ColumnId::Index(0)]).map(|x| match x {DataValue::UnsignedByte{value,..}=>value,_=>panic!()}).collect(); assert_eq!(r,[1,3,4,6]); }
""")
bug(id="s18_negative_zero_column", property="C08",
  needs="a double precision column with a negative zero",
  what_it_breaks="the sign of the zero is lost",
  edits=[("src/hdu/data/bintable/data.rs", "                            let double = self.reader.read_f64::<BigEndian>().ok()?;", "                            let double = self.reader.read_f64::<BigEndian>().ok()? + 0.0;")],
  demo=PRE + r"""
use fitsrs::hdu::data::bintable::DataValue;
fn main(){ let mut v=primary(8,&[],&[]); v.extend(bintable(16,1,0,&["2D"],&[])); let mut d=(-0.0f64).to_be_bytes().to_vec(); d.extend(1.5f64.to_be_bytes()); v.extend(data(&d)); let mut f=Fits::from_reader(Cursor::new(v)); f.next(); let Some(Ok(HDU::XBinaryTable(h)))=f.next() else {panic!()};
 let r:Vec<u64>=f.get_data(&h).table_data().map(|x| match x {DataValue::Double{value,..}=>value.to_bits(),_=>panic!()}).collect(); assert_eq!(r,[(-0.0f64).to_bits(),1.5f64.to_bits()]); }
""")
