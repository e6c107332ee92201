BUGS = []
def bug(**k): BUGS.append(k)
PRE = "mod common; use common::*; #[allow(unused_imports)] use fitsrs::{Fits,HDU}; #[allow(unused_imports)] use std::io::{Cursor,Read,Seek,SeekFrom,BufReader};\n"

bug(id="p01_tilde_in_string", property="C03",
  needs="a quoted string (or value) that contains a tilde, the last printable ASCII character",
  what_it_breaks="the tilde of a string value is replaced by U+FFFD, or the card becomes undefined outside a string",
  edits=[("src/card.rs", "            ' '..='~' => {\n                // 0x20..=0x7E, FITSv4", "            ' '..'~' => {\n                // 0x20..=0x7E, FITSv4")],
  demo=PRE + r'''
use fitsrs::card::{Card, Value}; use std::convert::TryFrom;
fn main(){ let c=Card::try_from(&card("URL     = 'http://a.b/~user/x'  / home")).unwrap();
 assert_eq!(c, Card::Value{name:"URL".into(), value: Value::String{value:"http://a.b/~user/x".into(), comment:Some(" home".into())}}); }
''')
bug(id="p02_hierarch_last_equal", property="C03",
  needs="a HIERARCH card whose value or comment contains an equal sign",
  what_it_breaks="the key and the value of the HIERARCH card are split at the wrong equal sign",
  edits=[("src/card.rs", "&buf[9..].iter().position(|&b| b == b'=')", "&buf[9..].iter().rposition(|&b| b == b'=')")],
  demo=PRE + r'''
use fitsrs::card::{Card, Value}; use std::convert::TryFrom;
fn main(){ let c=Card::try_from(&card("HIERARCH ESO DET WIN = 12 / n = 12")).unwrap();
 assert_eq!(c, Card::Hierarch{name:"ESO.DET.WIN".into(), value: Value::Integer{value:12, comment:Some(" n = 12".into())}}); }
''')
bug(id="p03_hierarch_not_continued", property="C04",
  needs="a long string given by a HIERARCH card and its CONTINUE cards",
  what_it_breaks="the continuation of the string of a HIERARCH card is lost",
  edits=[("src/hdu/header/mod.rs", "                if value.continued() {\n", "                if value.continued() && !matches!(card, Card::Hierarch { .. }) {\n")],
  demo=PRE + r'''
fn main(){ let v=primary(8,&[],&["HIERARCH ESO OBS NAME = 'abc&'".into(), "CONTINUE  'def' / x".into()]);
 let mut f=Fits::from_reader(Cursor::new(v)); if let Some(Ok(HDU::Primary(h)))=f.next(){
  let s:String=h.get_header().get_parsed("ESO.OBS.NAME").unwrap(); assert_eq!(s,"abcdef"); } else {panic!()} }
''')
bug(id="p04_integral_float_saturates", property="C05",
  needs="a real keyword value between 2^63 and 1e19 with no fractional part",
  what_it_breaks="the value read with a type is i64::MAX instead of the stored value or an error",
  edits=[("src/card.rs", "            Value::Float { value, comment: _ } => visitor.visit_f64(*value),", "            // an integral value can be read as an integer as well\n            Value::Float { value, comment: _ } if value.fract() == 0.0 && value.abs() < 1e19 => {\n                visitor.visit_i64(*value as i64)\n            }\n            Value::Float { value, comment: _ } => visitor.visit_f64(*value),")],
  demo=PRE + r'''
fn main(){ let v=primary(8,&[],&[l("X","9.5E18"), l("Y","-9.9E18")]);
 let mut f=Fits::from_reader(Cursor::new(v)); if let Some(Ok(HDU::Primary(h)))=f.next(){
  assert_eq!(h.get_header().get_parsed::<f64>("X").unwrap(),9.5e18); assert_eq!(h.get_header().get_parsed::<f64>("Y").unwrap(),-9.9e18); } else {panic!()} }
''')
bug(id="p05_gap_before_heap", property="C01",
  needs="a binary table with a THEAP larger than NAXIS1*NAXIS2 followed by another HDU",
  what_it_breaks="the gap between the main table and the heap is counted twice, the next HDU is looked for too far",
  edits=[("src/hdu/header/extension/bintable.rs", "        self.naxis1 * self.naxis2 + self.pcount\n", "        // the heap follows the main table and the gap\n        (self.naxis1 * self.naxis2).max(self.theap as u64) + self.pcount\n")],
  demo=PRE + r'''
fn main(){ let mut v=primary(8,&[],&[]); v.extend(bintable(1,4,2000,&["1B"],&[l("THEAP",1500)])); v.extend(data(&vec![1;2004]));
 v.extend(bintable(1,4,0,&["1B"],&[])); v.extend(data(&vec![1;4]));
 let n=Fits::from_reader(Cursor::new(v)).map(|h|h.unwrap()).collect::<Vec<_>>(); assert_eq!(n.len(),3); assert_eq!(n[1].get_data_unit_byte_size(),2004); }
''', also=["C02","C20","C09"])
bug(id="p06_pixel_distance_32_bits", property="C20",
  needs="a random access that jumps over more than 2^31 pixels of a huge image",
  what_it_breaks="the distance between two pixels is truncated to 32 bits: another pixel is returned",
  edits=[("src/hdu/data/iter.rs", "            let off = (idx as i64 - self.cur_idx as i64) * t_bytes;", "            let off = i64::from((idx as i64 - self.cur_idx as i64) as i32) * t_bytes;")],
  demo=PRE + r'''
#[derive(Debug)] struct S{h:Vec<u8>,pos:u64,len:u64}
impl Read for S{fn read(&mut self,b:&mut[u8])->std::io::Result<usize>{ let n=(b.len() as u64).min(self.len.saturating_sub(self.pos)) as usize;
 for (i,x) in b[..n].iter_mut().enumerate(){ let p=self.pos+i as u64; *x= if p<self.h.len() as u64 {self.h[p as usize]} else {((p>>31) as u8).wrapping_mul(7)}; } self.pos+=n as u64; Ok(n)}}
impl Seek for S{fn seek(&mut self,p:SeekFrom)->std::io::Result<u64>{ self.pos=match p{SeekFrom::Start(x)=>x,SeekFrom::Current(x)=>(self.pos as i64+x) as u64,SeekFrom::End(x)=>(self.len as i64+x) as u64}; Ok(self.pos)}}
fn main(){ let n=5_000_000_000u64; let h=primary(8,&[100_000,50_000],&[]); let len=h.len() as u64+n; let mut f=Fits::from_reader(S{h,pos:0,len});
 if let Some(Ok(HDU::Primary(h)))=f.next(){ let fitsrs::Pixels::U8(mut it)=f.get_data(&h).pixels() else {panic!()};
  assert_eq!(it.read_value(4_900_000_000).unwrap(), (((2880u64+4_900_000_000)>>31) as u8).wrapping_mul(7)); assert_eq!(it.read_value(3).unwrap(),0);} else {panic!()} }
''', also=["C07"])
bug(id="p07_seven_bit_characters", property="C08",
  needs="a character column that contains a byte above 0x7F",
  what_it_breaks="the character is delivered without its high bit",
  edits=[("src/hdu/data/bintable/data.rs", "                                value: c as char,", "                                value: (c & 0x7f) as char,")],
  demo=PRE + r'''
use fitsrs::hdu::data::bintable::DataValue;
fn main(){ let mut v=primary(8,&[],&[]); v.extend(bintable(3,1,0,&["3A"],&[])); v.extend(data(&[b'a',0xe9,b'b']));
 let mut f=Fits::from_reader(Cursor::new(v)); f.next(); let Some(Ok(HDU::XBinaryTable(h)))=f.next() else {panic!()};
 let s:String=f.get_data(&h).table_data().map(|d| match d {DataValue::Character{value,..}=>value,_=>panic!()}).collect(); assert_eq!(s,"aéb"); }
''')
bug(id="p08_array_index_16_bits", property="C09",
  needs="a variable-length array of more than 65536 elements",
  what_it_breaks="the index of the elements starts again from 0 after 65536 of them",
  edits=[("src/hdu/data/bintable/data.rs", "                let idx = (*n_elems - (*num_bytes_to_read) / (*t_byte_size)) as usize;", "                let idx = (*n_elems - (*num_bytes_to_read) / (*t_byte_size)) as u16 as usize;")],
  demo=PRE + r'''
use fitsrs::hdu::data::bintable::DataValue;
fn main(){ let n=70000usize; let mut v=primary(8,&[],&[]); v.extend(bintable(8,1,n,&["1PB(70000)"],&[]));
 let mut d=vec![]; d.extend((n as u32).to_be_bytes()); d.extend([0;4]); d.extend((0..n).map(|i|i as u8)); v.extend(data(&d));
 let mut f=Fits::from_reader(Cursor::new(v)); f.next(); let Some(Ok(HDU::XBinaryTable(h)))=f.next() else {panic!()};
 let mut k=0; for (i,d) in f.get_data(&h).table_data().enumerate() { let DataValue::UnsignedByte{value,idx,..}=d else {panic!()}; assert_eq!((value,idx),(i as u8,i)); k+=1;} assert_eq!(k,n); }
''')
bug(id="p09_heap_complex_size", property="C09",
  needs="a variable-length array of double precision complex numbers",
  what_it_breaks="half of the elements are delivered, or the reading panics",
  edits=[("src/hdu/header/extension/bintable.rs", "'M' => (M::BYTES_SIZE, VariableArrayTy::M)", "'M' => (C::BYTES_SIZE, VariableArrayTy::M)")],
  demo=PRE + r'''
fn main(){ let n=4usize; let mut v=primary(8,&[],&[]); v.extend(bintable(8,1,n*16,&["1PM(4)"],&[]));
 let mut d=vec![]; d.extend((n as u32).to_be_bytes()); d.extend([0;4]); d.extend((0..n*16).map(|i|i as u8)); v.extend(data(&d));
 let mut f=Fits::from_reader(Cursor::new(v)); f.next(); let Some(Ok(HDU::XBinaryTable(h)))=f.next() else {panic!()};
 assert_eq!(f.get_data(&h).table_data().count(),n); }
''', also=["C10"])
bug(id="p10_select_one_past_the_end", property="C10",
  needs="a selection by the index that equals the number of columns",
  what_it_breaks="the selection panics instead of ignoring the column that does not exist",
  edits=[("src/hdu/data/bintable/data.rs", "if *index >= self.ctx.tforms.len() {", "if *index > self.ctx.tforms.len() {")],
  demo=PRE + r'''
use fitsrs::hdu::data::bintable::ColumnId;
fn main(){ let mut v=primary(8,&[],&[]); v.extend(bintable(2,1,0,&["1B","1B"],&[])); v.extend(data(&[1,2]));
 let mut f=Fits::from_reader(Cursor::new(v)); f.next(); let Some(Ok(HDU::XBinaryTable(h)))=f.next() else {panic!()};
 let mut t=f.get_data(&h).table_data(); t.select_fields(&[ColumnId::Index(2),ColumnId::Index(0)]); assert_eq!(t.count(),1); }
''', also=["C16"])
bug(id="p11_blocksize_is_zval1", property="C11",
  needs="a RICE image whose BLOCKSIZE is not the first ZNAMEn and is not the value of ZVAL1",
  what_it_breaks="the block size of RICE is read from ZVAL1 whatever its name: wrong pixels",
  edits=[("src/hdu/header/extension/bintable.rs", "                                    let zval = zname.replace(\"NAME\", \"VAL\");\n", "                                    let zval = zname[..5].replace(\"NAME\", \"VAL\") + \"1\";\n")],
  demo=PRE + r'''
use fitsrs::hdu::data::bintable::data::BinaryTableData; use fitsrs::hdu::data::bintable::tile_compressed::pixels::Pixels;
fn main(){ // 40 pixels of value 7: 7 as i32, then two blocks of 32 pixels with fs = 0 (5 bits each)
 let mut t=vec![0,0,0,7]; t.extend([0u8;2]); let mut d=vec![]; d.extend((t.len() as u32).to_be_bytes()); d.extend([0;4]); d.extend(&t);
 // with blocks of 4 pixels, 10 blocks of 5 bits are expected: make it show with a second block of other values
 let mut v=primary(8,&[],&[]); v.extend(bintable(8,1,t.len(),&["1PB(6)"],&["TTYPE1  = 'COMPRESSED_DATA'".into(),l("ZIMAGE","T"),"ZCMPTYPE= 'RICE_1  '".into(),l("ZBITPIX",32),l("ZNAXIS",2),l("ZNAXIS1",40),l("ZNAXIS2",1),
  "ZNAME1  = 'BYTEPIX '".into(),l("ZVAL1",4),"ZNAME2  = 'BLOCKSIZE'".into(),l("ZVAL2",32)])); v.extend(&d); 
 let mut f=Fits::from_reader(Cursor::new(v)); f.next(); let Some(Ok(HDU::XBinaryTable(h)))=f.next() else {panic!()};
 let BinaryTableData::TileCompressed(Pixels::I32(it))=f.get_data(&h) else {panic!()}; let p:Vec<i32>=it.collect(); assert_eq!(p,vec![7;40]); }
''', also=["C12"])
bug(id="p12_f64_zero_marker", property="C12",
  needs="a ZBITPIX=-64 image with SUBTRACTIVE_DITHER_2 that contains exact zeros",
  what_it_breaks="the pixels that are exactly zero are unquantized as ordinary ones",
  edits=[("src/hdu/data/bintable/tile_compressed/mod.rs", "                if value == -2147483647 {", "                if value == i32::MIN {", 0)],
  demo=PRE + r'''
use fitsrs::hdu::data::bintable::data::BinaryTableData; use fitsrs::hdu::data::bintable::tile_compressed::pixels::Pixels; use std::io::Write;
fn main(){ let mut raw=vec![]; for v in [5i32,-2147483647,9] { raw.extend(v.to_be_bytes()); }
 let mut e=flate2::write::GzEncoder::new(vec![],flate2::Compression::default()); e.write_all(&raw).unwrap(); let t=e.finish().unwrap();
 let mut d=vec![]; d.extend((t.len() as u32).to_be_bytes()); d.extend([0;4]); d.extend(&t);
 let mut v=primary(8,&[],&[]); v.extend(bintable(8,1,t.len(),&["1PB(99)"],&["TTYPE1  = 'COMPRESSED_DATA'".into(),l("ZIMAGE","T"),"ZCMPTYPE= 'GZIP_1  '".into(),l("ZBITPIX",-64),l("ZNAXIS",2),l("ZNAXIS1",3),l("ZNAXIS2",1),
  "ZQUANTIZ= 'SUBTRACTIVE_DITHER_2'".into(),l("ZDITHER0",1),l("ZSCALE","0.5"),l("ZZERO","100.0")])); v.extend(data(&d));
 let mut f=Fits::from_reader(Cursor::new(v)); f.next(); let Some(Ok(HDU::XBinaryTable(h)))=f.next() else {panic!()};
 let BinaryTableData::TileCompressed(Pixels::F64(it))=f.get_data(&h) else {panic!()}; let p:Vec<f32>=it.collect(); assert_eq!(p.len(),3); assert_eq!(p[1],0.0); assert!(p[0]>90.0 && p[2]>90.0); }
''')
bug(id="p13_gzip_errors_ignored", property="C13",
  needs="a gzip file that is truncated or whose checksum is wrong",
  what_it_breaks="a damaged gzip file is opened as if it were whole",
  edits=[("src/gz.rs", "                let mut buf = vec![];\n                gz.read_to_end(&mut buf)?;\n", "                let mut buf = vec![];\n                let _ = gz.read_to_end(&mut buf);\n")],
  demo=PRE + r'''
use std::io::Write;
fn main(){ let mut v=primary(8,&[5000],&[]); v.extend(data(&(0..5000).map(|i|(i*i) as u8).collect::<Vec<_>>()));
 let mut e=flate2::write::GzEncoder::new(vec![],flate2::Compression::default()); e.write_all(&v).unwrap(); let mut z=e.finish().unwrap(); let n=z.len(); z[n-6]^=1;
 assert!(fitsrs::gz::GzReader::new(Cursor::new(z)).is_err()); }
''', also=["C17"])
bug(id="p14_short_read_of_padding", property="C14",
  needs="a reader that gives fewer bytes than asked for within the padding of a header",
  what_it_breaks="the data unit starts wherever the short read ended",
  edits=[("src/fits.rs", "            reader\n                .read_exact(&mut block_mem_buf[..num_off_bytes])\n                .map_err(|_| Error::StaticError(\"EOF reached\"))?;\n", "            reader\n                .read(&mut block_mem_buf[..num_off_bytes])\n                .map_err(|_| Error::StaticError(\"EOF reached\"))?;\n")],
  demo=PRE + r'''
#[derive(Debug)] struct S(Cursor<Vec<u8>>);
impl Read for S{fn read(&mut self,b:&mut[u8])->std::io::Result<usize>{let n=b.len().min(80); self.0.read(&mut b[..n])}}
impl Seek for S{fn seek(&mut self,p:SeekFrom)->std::io::Result<u64>{self.0.seek(p)}}
fn main(){ let mut v=primary(8,&[3],&[]); v.extend(data(&[1,2,3])); let mut f=Fits::from_reader(S(Cursor::new(v)));
 let Some(Ok(HDU::Primary(h)))=f.next() else {panic!()}; assert_eq!(h.get_data_unit_byte_offset(),2880); let fitsrs::Pixels::U8(it)=f.get_data(&h).pixels() else {panic!()}; assert_eq!(it.collect::<Vec<_>>(),[1,2,3]); }
''', also=["C17"])
bug(id="p15_async_drops_bad_cards", property="C15",
  needs="a header with a card that cannot be parsed, read asynchronously",
  what_it_breaks="the asynchronous reader leaves such cards out, the synchronous one keeps them",
  edits=[("src/hdu/mod.rs", "            let card = Card::Undefined(String::from_utf8_lossy(&card_80_bytes_buf).into_owned());\n            cards.push(card);\n", "            error!(\n                \"Skipping the card {}\",\n                String::from_utf8_lossy(&card_80_bytes_buf)\n            );\n", 1)],
  demo=PRE + r'''
use futures::{StreamExt,executor::block_on}; use fitsrs::{AsyncFits,AsyncHDU};
fn main(){ let v=primary(8,&[],&["BAD     = (1.0, 2.0)".into()]); 
 let Some(Ok(HDU::Primary(h)))=Fits::from_reader(Cursor::new(v.clone())).next() else {panic!()}; let a:Vec<_>=h.get_header().cards().cloned().collect();
 let mut f=AsyncFits::from_reader(futures::io::BufReader::new(futures::io::Cursor::new(v))); let Some(Ok(AsyncHDU::Primary(h)))=block_on(f.next()) else {panic!()};
 let b:Vec<_>=h.get_header().cards().cloned().collect(); assert_eq!(a,b); }
''')
bug(id="p16_unit_brackets_reversed", property="C16",
  needs="a comment with a closing bracket before an opening one",
  what_it_breaks="asking for the unit of the card panics",
  edits=[("src/card.rs", "            if let Some(i) = c.find(\"]\") {\n                Some(&c[1..i])\n", "            if let Some(i) = c.rfind(\"]\") {\n                Some(&c[1 + c.rfind(\"[\").unwrap_or(0)..i])\n")],
  demo=PRE + r'''
use fitsrs::card::Card; use std::convert::TryFrom;
fn main(){ let Card::Value{value,..}=Card::try_from(&card("A       = 1 / [m] and [ open")).unwrap() else {panic!()}; assert_eq!(value.unit(),Some("m")); }
''', also=["C03"])
bug(id="p17_truncated_header_is_the_end", property="C17",
  needs="a file cut in the middle of the header of an extension",
  what_it_breaks="the walk ends as if the file were complete, no error tells that an HDU is missing",
  edits=[("src/fits.rs", "                                    if kind == std::io::ErrorKind::UnexpectedEof && num_bytes_read == 0 => {", "                                    if kind == std::io::ErrorKind::UnexpectedEof => {")],
  demo=PRE + r'''
fn main(){ let mut v=primary(8,&[],&[]); v.extend(&bintable(1,1,0,&["1B"],&[])[..400]); let r:Vec<_>=Fits::from_reader(Cursor::new(v)).collect(); assert!(r.len()==2 && r[1].is_err()); }
''', also=["C01"])
bug(id="p18_u8_bscale_ignored", property="C18",
  needs="an 8-bit image with BSCALE and no BZERO",
  what_it_breaks="the decoded image is not scaled",
  edits=[("src/image_integration.rs", "fn write_u8(buf: &mut [u8], iter: impl Iterator<Item = u8>, scale: Scale, is_rgb: bool) {\n    let needs_scale = scale != Scale::default();", "fn write_u8(buf: &mut [u8], iter: impl Iterator<Item = u8>, scale: Scale, is_rgb: bool) {\n    let needs_scale = scale.bzero != 0.0;")],
  demo=PRE + r'''
use image::ImageDecoder;
fn main(){ let mut v=primary(8,&[2,2],&[l("BSCALE","2.0")]); v.extend(data(&[1,2,3,4]));
 let d=fitsrs::FitsDecoder::new(Box::new(Cursor::new(v))).unwrap(); let mut b=[0;4]; d.read_image(&mut b).unwrap(); assert_eq!(b,[2,4,6,8]); }
''')
bug(id="p20_axis_32_bits", property="C20",
  needs="an image axis of more than 2^32 pixels",
  what_it_breaks="the size of the data unit is that of the axis modulo 2^32",
  edits=[("src/hdu/header/extension/image.rs", "        self.naxisn.iter().product()", "        self.naxisn.iter().map(|&n| u64::from(n as u32)).product()")],
  demo=PRE + r'''
fn main(){ let v=primary(8,&[(1<<32)+7],&[]); let Some(Ok(h))=Fits::from_reader(Cursor::new(v)).next() else {panic!()}; assert_eq!(h.get_data_unit_byte_size(),(1<<32)+7); }
''', also=["C22"])
bug(id="p21_ascii_columns_misaligned", property="C21",
  needs="an ASCII table with a field whose TFORM is invalid before other fields",
  what_it_breaks="the start columns and the formats of the fields no longer go together",
  edits=[("src/hdu/header/extension/asciitable.rs", "            tbcols.push(tbcol);\n            tforms.push(tform);\n", "            tforms.push(tform);\n"),
         ("src/hdu/header/extension/asciitable.rs", "            let tform = match values.get_parsed(&format!(\"TFORM{idx_field}\")) {\n", "            tbcols.push(tbcol);\n\n            let tform = match values.get_parsed(&format!(\"TFORM{idx_field}\")) {\n")],
  demo=PRE + r'''
fn main(){ let mut v=primary(8,&[],&[]); v.extend(header(&["XTENSION= 'TABLE   '".into(),l("BITPIX",8),l("NAXIS",2),l("NAXIS1",9),l("NAXIS2",1),l("PCOUNT",0),l("GCOUNT",1),l("TFIELDS",2),
 l("TBCOL1",1),"TFORM1  = 'Z9      '".into(),l("TBCOL2",5),"TFORM2  = 'I4      '".into()])); v.extend(data(b"123456789"));
 let mut f=Fits::from_reader(Cursor::new(v)); f.next(); let Some(Ok(HDU::XASCIITable(h)))=f.next() else {panic!()}; let x=h.get_header().get_xtension(); assert_eq!(x.get_tbcols(),[5]); assert_eq!(x.get_tforms().len(),1); }
''')
bug(id="p22_short_rows_accepted", property="C22",
  needs="a binary table whose fields are shorter than NAXIS1",
  what_it_breaks="a table whose row width does not agree with its fields is accepted",
  edits=[("src/hdu/header/extension/bintable.rs", "        if num_bytes_per_row != naxis1 {", "        if num_bytes_per_row > naxis1 {")],
  demo=PRE + r'''
fn main(){ let mut v=primary(8,&[],&[]); v.extend(bintable(5,1,0,&["1J"],&[])); v.extend(data(&[0;5])); let mut f=Fits::from_reader(Cursor::new(v)); f.next(); assert!(f.next().unwrap().is_err()); }
''')
