import os
exec(open(os.path.join(os.path.dirname(os.path.abspath(sys.argv[1] if 'sys' in globals() else __import__('sys').argv[1])), 'batch1.py')).read().split("bug(id=")[0])
TC = "use fitsrs::hdu::data::bintable::data::BinaryTableData; use fitsrs::hdu::data::bintable::tile_compressed::pixels::Pixels; use std::io::Write;\n" + r'''
fn gz(raw:&[u8])->Vec<u8>{ let mut e=flate2::write::GzEncoder::new(vec![],flate2::Compression::default()); e.write_all(raw).unwrap(); e.finish().unwrap() }
'''

S = r"""
#[derive(Debug)] struct S{parts:Vec<(u64,Vec<u8>)>,pos:u64,len:u64}
impl Read for S{fn read(&mut self,b:&mut[u8])->std::io::Result<usize>{ let n=(b.len() as u64).min(self.len.saturating_sub(self.pos)) as usize; b[..n].fill(0);
 for (at,v) in &self.parts { let (s,e)=((*at).max(self.pos),(*at+v.len() as u64).min(self.pos+n as u64)); if s<e { b[(s-self.pos) as usize..(e-self.pos) as usize].copy_from_slice(&v[(s-at) as usize..(e-at) as usize]); } } self.pos+=n as u64; Ok(n)}}
impl Seek for S{fn seek(&mut self,p:SeekFrom)->std::io::Result<u64>{ self.pos=match p{SeekFrom::Start(x)=>x,SeekFrom::Current(x)=>(self.pos as i64+x) as u64,SeekFrom::End(x)=>(self.len as i64+x) as u64}; Ok(self.pos)}}
"""

bug(id="t01_long_header", property="C01",
  needs="a header of more than 64 KiB (about 820 cards)",
  what_it_breaks="the padding after the header is mistaken: the data unit and the next HDUs are misplaced",
  edits=[("src/fits.rs", "            let num_off_bytes = 2880 - ((*num_bytes_read) % 2880);", "            let num_off_bytes = 2880 - usize::from(*num_bytes_read as u16) % 2880;")],
  demo=PRE + r"""
fn main(){ let c:Vec<String>=(0..900).map(|i|l(&format!("K{i}"),i)).collect(); let mut v=primary(8,&[],&c); let n=v.len() as u64; v.extend(bintable(1,1,0,&["1B"],&[])); v.extend(data(&[1])); let h:Vec<_>=Fits::from_reader(Cursor::new(v)).map(|h|h.unwrap()).collect(); assert_eq!(h.len(),2); assert_eq!(h[0].get_data_unit_byte_offset(),n); }
""", also=["C02","C04"])
bug(id="t02_wide_columns", property="C10",
  needs="a selection of a column that starts more than 65535 bytes after the start of the row",
  what_it_breaks="other bytes of the row are delivered for that column",
  edits=[("src/hdu/data/bintable/data.rs", "                let col_byte_offset = cumul_num_bytes;\n", "                let col_byte_offset = usize::from(cumul_num_bytes as u16);\n")],
  demo=PRE + r"""
use fitsrs::hdu::data::bintable::{ColumnId,DataValue};
fn main(){ let mut v=primary(8,&[],&[]); v.extend(bintable(70001,2,0,&["70000B","1B"],&[])); let mut d=vec![0u8;140002]; d[70000]=1; d[140001]=2; v.extend(data(&d)); let mut f=Fits::from_reader(Cursor::new(v)); f.next(); let Some(Ok(HDU::XBinaryTable(h)))=f.next() else {panic!()};
 let r:Vec<u8>=f.get_data(&h).table_data().select_fields(&[ColumnId::Index(1)]).map(|x| match x {DataValue::UnsignedByte{value,..}=>value,_=>panic!()}).collect(); assert_eq!(r,[1,2]); }
""", also=["C08"])
bug(id="t03_long_array", property="C09",
  needs="a variable-length array of more than 65535 elements",
  what_it_breaks="the elements after it are tagged with positions that start again from 0",
  edits=[("src/hdu/data/bintable/data.rs", "                let idx = (*n_elems - (*num_bytes_to_read) / (*t_byte_size)) as usize;", "                let idx = usize::from((*n_elems - (*num_bytes_to_read) / (*t_byte_size)) as u16);")],
  demo=PRE + r"""
use fitsrs::hdu::data::bintable::DataValue;
fn main(){ let n=70000u32; let mut v=primary(8,&[],&[]); v.extend(bintable(8,1,n as usize,&["1PB(70000)"],&[])); let mut d=n.to_be_bytes().to_vec(); d.extend([0;4]); d.extend(vec![7u8;n as usize]); v.extend(data(&d)); let mut f=Fits::from_reader(Cursor::new(v)); f.next(); let Some(Ok(HDU::XBinaryTable(h)))=f.next() else {panic!()};
 for (i,x) in f.get_data(&h).table_data().enumerate() { let DataValue::UnsignedByte{idx,..}=x else {panic!()}; assert_eq!(idx,i); } }
""")
bug(id="t04_gz_limit", property="C13",
  needs="a compressed file of more than 16 MiB once decompressed",
  what_it_breaks="what comes after 16 MiB is lost",
  edits=[("src/gz.rs", "                gz.read_to_end(&mut buf)?;\n\n", "                gz.by_ref().take(1 << 24).read_to_end(&mut buf)?;\n\n")],
  demo=PRE + r"""
use std::io::Write;
fn main(){ let n=(1u64<<24)+100; let mut v=primary(8,&[n],&[]); v.extend(data(&vec![3u8;n as usize])); let mut e=flate2::write::GzEncoder::new(vec![],flate2::Compression::fast()); e.write_all(&v).unwrap(); let z=e.finish().unwrap();
 let Ok(r)=fitsrs::gz::GzReader::new(Cursor::new(z)) else {panic!()}; let mut f=Fits::from_reader(r); let Some(Ok(HDU::Primary(h)))=f.next() else {panic!()}; let fitsrs::Pixels::U8(it)=f.get_data(&h).pixels() else {panic!()}; assert_eq!(it.count() as u64,n); }
""")
bug(id="t05_out_of_range_ends", property="C07",
  needs="an access outside the array in the middle of a sequential reading",
  what_it_breaks="the sequential reading ends there",
  edits=[("src/hdu/data/iter.rs", "            Err(Error::StaticError(\"Value to retrieve is out of bounds\"))\n        } else {", "            self.cur_idx = self.num_items;\n            Err(Error::StaticError(\n                \"Value to retrieve is out of bounds\",\n            ))\n        } else {")],
  demo=PRE + r"""
fn main(){ let mut v=primary(8,&[5],&[]); v.extend(data(&[1,2,3,4,5])); let mut f=Fits::from_reader(Cursor::new(v)); let Some(Ok(HDU::Primary(h)))=f.next() else {panic!()}; let fitsrs::Pixels::U8(mut it)=f.get_data(&h).pixels() else {panic!()}; assert_eq!(it.next(),Some(1)); assert!(it.read_value(5).is_err()); assert_eq!(it.collect::<Vec<_>>(),[2,3,4,5]); }
""")
bug(id="t06_seek_failure_is_end", property="C17",
  needs="a reader whose seek fails while the data unit is skipped",
  what_it_breaks="the failure is taken for the end of the file",
  edits=[("src/fits.rs", "                    Err(e) => Some(Err(e)),\n                }\n            } else {", "                    // the data unit is the last one\n                    Err(_) => None,\n                }\n            } else {")],
  demo=PRE + r"""
#[derive(Debug)] struct S(Cursor<Vec<u8>>,bool);
impl Read for S{fn read(&mut self,b:&mut[u8])->std::io::Result<usize>{self.0.read(b)}}
impl Seek for S{fn seek(&mut self,p:SeekFrom)->std::io::Result<u64>{ if let SeekFrom::Current(0)=p {return self.0.seek(p)} if self.1 {Err(std::io::Error::other("no"))} else {self.0.seek(p)} }}
fn main(){ let mut v=primary(8,&[5],&[]); v.extend(data(&[1,2,3,4,5])); v.extend(bintable(1,1,0,&["1B"],&[])); v.extend(data(&[1])); let mut f=Fits::from_reader(S(Cursor::new(v),true)); assert!(f.next().unwrap().is_ok()); assert!(f.next().unwrap().is_err()); }
""", also=["C16"])
bug(id="t07_first_two_axes", property="C18",
  needs="a file whose first image has one axis and that has another image",
  what_it_breaks="the second image is decoded instead of an error",
  edits=[("src/image_integration.rs", "                    if hdu.get_data_unit_byte_size() != 0 =>\n", "                    if hdu.get_data_unit_byte_size() != 0\n                        && hdu.get_header().get_xtension().get_naxis().len() > 1 =>\n")],
  demo=PRE + r"""
fn main(){ let mut v=primary(8,&[5],&[]); v.extend(data(&[1;5])); v.extend(header(&["XTENSION= 'IMAGE   '".into(),l("BITPIX",8),l("NAXIS",2),l("NAXIS1",2),l("NAXIS2",2),l("PCOUNT",0),l("GCOUNT",1)])); v.extend(data(&[1;4])); fitsrs::image_integration::register_fits_decoding_hook(); assert!(image::ImageReader::new(Cursor::new(v)).with_guessed_format().unwrap().into_decoder().is_err()); }
""")
bug(id="t08_name_prefix", property="C10",
  needs="a column selected by a name that is the beginning of the name of an earlier column",
  what_it_breaks="the other column is selected",
  edits=[("src/hdu/header/extension/bintable.rs", "            tt == ttype\n", "            // the names may be padded\n            tt.starts_with(ttype)\n")],
  demo=PRE + r"""
use fitsrs::hdu::data::bintable::{ColumnId,DataValue};
fn main(){ let mut v=primary(8,&[],&[]); v.extend(bintable(2,1,0,&["1B","1B"],&["TTYPE1  = 'RA_ERR  '".into(),"TTYPE2  = 'RA      '".into()])); v.extend(data(&[1,2])); let mut f=Fits::from_reader(Cursor::new(v)); f.next(); let Some(Ok(HDU::XBinaryTable(h)))=f.next() else {panic!()};
 let r:Vec<u8>=f.get_data(&h).table_data().select_fields(&[ColumnId::Name("RA".into())]).map(|x| match x {DataValue::UnsignedByte{value,..}=>value,_=>panic!()}).collect(); assert_eq!(r,[2]); }
""", also=["C22"])
bug(id="t09_rice_large_tile", property="C11",
  needs="a RICE tile of more than 65535 pixels",
  what_it_breaks="the tile is decoded with the wrong number of pixels and is refused",
  edits=[("src/hdu/data/bintable/tile_compressed/pixels.rs", "                                num_pixels as i32,\n", "                                i32::from(num_pixels as u16),\n", 2)],
  demo=PRE + TC + r"""
// a constant image: a first pixel then blocks of 5 zero bits
fn main(){ let n=70000usize; let nb=n.div_ceil(32); let mut t=9i32.to_be_bytes().to_vec(); t.extend(vec![0u8;(nb*5).div_ceil(8)+8]); let mut d=vec![]; d.extend((t.len() as u32).to_be_bytes()); d.extend([0;4]); d.extend(&t);
 let mut v=primary(8,&[],&[]); v.extend(bintable(8,1,t.len(),&["1PB(99)"],&["TTYPE1  = 'COMPRESSED_DATA'".into(),l("ZIMAGE","T"),"ZCMPTYPE= 'RICE_1  '".into(),l("ZBITPIX",32),l("ZNAXIS",2),l("ZNAXIS1",n),l("ZNAXIS2",1)])); v.extend(data(&d));
 let mut f=Fits::from_reader(Cursor::new(v)); f.next(); let Some(Ok(HDU::XBinaryTable(h)))=f.next() else {panic!()};
 let BinaryTableData::TileCompressed(Pixels::I32(it))=f.get_data(&h) else {panic!()}; let p:Vec<i32>=it.collect(); assert_eq!(p.len(),n); assert!(p.iter().all(|x|*x==9)); }
""")
bug(id="t10_table_of_three_axes", property="C22",
  needs="a binary table header with NAXIS = 3",
  what_it_breaks="the header is accepted",
  edits=[("src/hdu/header/extension/bintable.rs", "        if naxis != 2 {\n", "        if naxis < 2 {\n")],
  demo=PRE + r"""
fn main(){ let mut v=primary(8,&[],&[]); v.extend(header(&["XTENSION= 'BINTABLE'".into(),l("BITPIX",8),l("NAXIS",3),l("NAXIS1",1),l("NAXIS2",1),l("NAXIS3",1),l("PCOUNT",0),l("GCOUNT",1),l("TFIELDS",1),"TFORM1  = '1B      '".into()])); v.extend(data(&[1])); let mut f=Fits::from_reader(Cursor::new(v)); f.next(); assert!(f.next().unwrap().is_err()); }
""")
bug(id="t11_undefined_last", property="C04",
  needs="a keyword given twice, the second time without a value",
  what_it_breaks="the lookup gives the first value",
  edits=[("src/hdu/header/mod.rs", "                values.insert(name.to_owned(), value.to_owned());\n                if value.continued() {", "                if *value != Value::Undefined || !values.contains_key(name) {\n                    values.insert(name.to_owned(), value.to_owned());\n                }\n                if value.continued() {")],
  demo=PRE + r"""
fn main(){ let v=primary(8,&[],&["A       = 5".into(),"A       =".into()]); let Some(Ok(HDU::Primary(h)))=Fits::from_reader(Cursor::new(v)).next() else {panic!()}; assert_eq!(h.get_header().get("A"),Some(&fitsrs::card::Value::Undefined)); }
""")
bug(id="t12_start_32_bits", property="C20",
  needs="a table whose data unit starts after 4 GiB, read with a selection or a row seek",
  what_it_breaks="the rows are read from another place of the file",
  edits=[("src/fits.rs", "            .read_data_unit(header, self.pos_start_cur_du as u64)", "            .read_data_unit(header, u64::from(self.pos_start_cur_du as u32))")],
  demo=PRE + S + r"""
use fitsrs::hdu::data::bintable::DataValue;
fn main(){ let n=5_000_000_000u64; let h=primary(8,&[n],&[]); let at=(2880+n).div_ceil(2880)*2880; let mut t=bintable(1,3,0,&["1B"],&[]); t.extend([1,2,3]); let len=at+t.len() as u64; let mut f=Fits::from_reader(S{parts:vec![(0,h),(at,t)],pos:0,len}); f.next(); let Some(Ok(HDU::XBinaryTable(h)))=f.next() else {panic!()};
 let mut t=f.get_data(&h).table_data(); t.seek_to_row(1).unwrap(); let r:Vec<u8>=t.map(|x| match x {DataValue::UnsignedByte{value,..}=>value,_=>panic!()}).collect(); assert_eq!(r,[2,3]); }
""", also=["C10"])
bug(id="t13_async_ascii_64k", property="C15",
  needs="an ASCII table of more than 64 KiB read asynchronously",
  what_it_breaks="the data end early and the next HDU is lost",
  edits=[("src/async_fits.rs", "                            xtension.get_num_bytes_data_block() as usize\n", "                            usize::from(xtension.get_num_bytes_data_block() as u16)\n", 1)],
  demo=PRE + r"""
use futures::{StreamExt,executor::block_on}; use fitsrs::AsyncFits;
fn main(){ let mut v=primary(8,&[],&[]); v.extend(header(&["XTENSION= 'TABLE   '".into(),l("BITPIX",8),l("NAXIS",2),l("NAXIS1",70000),l("NAXIS2",1),l("PCOUNT",0),l("GCOUNT",1),l("TFIELDS",1),l("TBCOL1",1),"TFORM1  = 'A70000  '".into()])); v.extend(data(&[b'a';70000])); v.extend(bintable(1,1,0,&["1B"],&[])); v.extend(data(&[1]));
 let f=AsyncFits::from_reader(futures::io::BufReader::new(futures::io::Cursor::new(v))); let r:Vec<_>=block_on(f.collect()); assert_eq!(r.len(),3); assert!(r.iter().all(|h|h.is_ok())); }
""")
bug(id="t14_tform_prefix", property="C16",
  needs="an ASCII table whose TFORM starts with a character that is not ASCII",
  what_it_breaks="panic",
  edits=[("src/hdu/header/extension/asciitable.rs", "                let rest = chars.as_str();\n", "                let rest = &v.trim_end()[1..];\n")],
  demo=PRE + r"""
fn main(){ let mut h=header(&["XTENSION= 'TABLE   '".into(),l("BITPIX",8),l("NAXIS",2),l("NAXIS1",9),l("NAXIS2",1),l("PCOUNT",0),l("GCOUNT",1),l("TFIELDS",1),l("TBCOL1",1),"TFORM1  = '#4      '".into()]); let p=h.iter().position(|&c|c==b'#').unwrap(); h[p]=0xc3; h[p+1]=0xa9; let mut v=primary(8,&[],&[]); v.extend(h); v.extend(data(b"123456789")); let mut f=Fits::from_reader(Cursor::new(v)); f.next(); let _=f.next(); }
""", also=["C21"])
bug(id="t15_bits_invented", property="C17",
  needs="a file cut in the heap, in a variable-length array of bits",
  what_it_breaks="the missing bits are delivered as zeros",
  edits=[("src/hdu/data/bintable/data.rs", "                        let byte = self.reader.read_u8().ok()?;\n                        *num_bytes_to_read -= X::BYTES_SIZE as u64;", "                        let byte = self.reader.read_u8().unwrap_or_default();\n                        *num_bytes_to_read -= X::BYTES_SIZE as u64;")],
  demo=PRE + r"""
fn main(){ let mut v=primary(8,&[],&[]); v.extend(bintable(8,1,4,&["1PX(32)"],&[])); v.extend([0,0,0,32,0,0,0,0,1,2]); let mut f=Fits::from_reader(BufReader::new(Cursor::new(v))); f.next(); let Some(Ok(HDU::XBinaryTable(h)))=f.next() else {panic!()}; assert_eq!(f.get_data(&h).table_data().count(),2); }
""")
bug(id="t16_second_dither_offset", property="C12",
  needs="a single precision SUBTRACTIVE_DITHER_2 image and a tile whose first random value rounds up",
  what_it_breaks="the random sequence of the tile starts one value too late",
  edits=[("src/hdu/data/bintable/tile_compressed/pixels.rs", "                    let i1 = (RAND_VALUES[i0] * 500.0).floor() as usize;\n                    Quantiz::SubtractiveDither2 { i1 }", "                    let i1 = (RAND_VALUES[i0] * 500.0).round() as usize;\n                    Quantiz::SubtractiveDither2 { i1 }", 0)],
  demo=PRE + TC + r"""
fn img(q:&str)->Vec<f32>{ let mut d=vec![]; let t=gz(&[0,0,0,5,0,0,0,6]); for _ in 0..20 { d.extend((t.len() as u32).to_be_bytes()); d.extend([0;4]); } d.extend(&t);
 let mut v=primary(8,&[],&[]); v.extend(bintable(8,20,t.len(),&["1PB(99)"],&["TTYPE1  = 'COMPRESSED_DATA'".into(),l("ZIMAGE","T"),"ZCMPTYPE= 'GZIP_1  '".into(),l("ZBITPIX",-32),l("ZNAXIS",2),l("ZNAXIS1",2),l("ZNAXIS2",20),
  format!("ZQUANTIZ= '{q}'"),l("ZDITHER0",1),l("ZSCALE","1.0"),l("ZZERO","0.0")])); v.extend(data(&d));
 let mut f=Fits::from_reader(Cursor::new(v)); f.next(); let Some(Ok(HDU::XBinaryTable(h)))=f.next() else {panic!()};
 let BinaryTableData::TileCompressed(Pixels::F32(it))=f.get_data(&h) else {panic!()}; it.collect() }
fn main(){ assert_eq!(img("SUBTRACTIVE_DITHER_1"),img("SUBTRACTIVE_DITHER_2")); }
""")
bug(id="t17_named_columns", property="C22",
  needs="a binary table with a column that has no name",
  what_it_breaks="only the columns that have a name are counted",
  edits=[("src/hdu/header/extension/bintable.rs", "    pub fn get_num_cols(&self) -> usize {\n        self.tfields\n", "    pub fn get_num_cols(&self) -> usize {\n        self.ttypes.iter().flatten().count()\n")],
  demo=PRE + r"""
fn main(){ let mut v=primary(8,&[],&[]); v.extend(bintable(2,1,0,&["1B","1B"],&["TTYPE2  = 'RA      '".into()])); v.extend(data(&[1,2])); let mut f=Fits::from_reader(Cursor::new(v)); f.next(); let Some(Ok(HDU::XBinaryTable(h)))=f.next() else {panic!()}; assert_eq!(h.get_header().get_xtension().get_num_cols(),2); }
""", also=["C19"])
bug(id="t18_tile_16_bits", property="C11",
  needs="a tile compressed image with tiles longer than 65535 pixels",
  what_it_breaks="the size of the tiles is taken modulo 65536",
  edits=[("src/hdu/header/extension/bintable.rs", "                z_tilen.push(tilen as usize)\n", "                z_tilen.push(usize::from(tilen as u16))\n")],
  demo=PRE + TC + r"""
fn main(){ let n=70000usize; let t=gz(&vec![0u8;4*n]); let mut d=vec![]; d.extend((t.len() as u32).to_be_bytes()); d.extend([0;4]); d.extend(&t);
 let mut v=primary(8,&[],&[]); v.extend(bintable(8,1,t.len(),&["1PB(99)"],&["TTYPE1  = 'COMPRESSED_DATA'".into(),l("ZIMAGE","T"),"ZCMPTYPE= 'GZIP_1  '".into(),l("ZBITPIX",32),l("ZNAXIS",2),l("ZNAXIS1",n),l("ZNAXIS2",1)])); v.extend(data(&d));
 let mut f=Fits::from_reader(Cursor::new(v)); f.next(); let Some(Ok(HDU::XBinaryTable(h)))=f.next() else {panic!()};
 let BinaryTableData::TileCompressed(Pixels::I32(it))=f.get_data(&h) else {panic!()}; assert_eq!(it.count(),n); }
""")
