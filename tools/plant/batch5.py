import os
exec(open(os.path.join(os.path.dirname(os.path.abspath(__import__('sys').argv[1])), 'batch1.py')).read().split("bug(id=")[0])
TC = "use fitsrs::hdu::data::bintable::data::BinaryTableData; use fitsrs::hdu::data::bintable::tile_compressed::pixels::Pixels; use std::io::Write;\n" + r'''
fn gz(raw:&[u8])->Vec<u8>{ let mut e=flate2::write::GzEncoder::new(vec![],flate2::Compression::default()); e.write_all(raw).unwrap(); e.finish().unwrap() }
'''
CARD = "use fitsrs::card::{Card,Value}; fn card(s:&str)->Card{ let mut b=[b' ';80]; b[..s.len()].copy_from_slice(s.as_bytes()); Card::try_from(&b).unwrap() }\n"

bug(id="u01_blank_in_number", property="C03",
  needs="a number with a blank inside",
  what_it_breaks="two numbers written one after the other are read as one",
  edits=[("src/card.rs", "    } else if let Ok(val) = v.parse::<i64>() {\n", "    } else if let Ok(val) = v.replace(' ', \"\").parse::<i64>() {\n")],
  demo=PRE + CARD + r"""
fn main(){ if let Card::Value{value:Value::Integer{..}|Value::Float{..}|Value::Logical{..}|Value::String{..},..}=card("A       = 12 345") {panic!()} }
""")
bug(id="u02_empty_history", property="C04",
  needs="a HISTORY card without text",
  what_it_breaks="it is missing from the history",
  edits=[("src/hdu/header/mod.rs", "            if let Card::History(string) = c {\n                Some(string)\n            } else {\n                None\n            }\n", "            if let Card::History(string) = c {\n                Some(string).filter(|string| !string.is_empty())\n            } else {\n                None\n            }\n")],
  demo=PRE + r"""
fn main(){ let v=primary(8,&[],&["HISTORY a".into(),"HISTORY".into(),"HISTORY b".into()]); let Some(Ok(HDU::Primary(h)))=Fits::from_reader(Cursor::new(v)).next() else {panic!()}; assert_eq!(h.get_header().history().collect::<Vec<_>>(),[" a",""," b"].map(|s|s.trim_start()).iter().collect::<Vec<_>>()); }
""")
bug(id="u03_znaxis_loop", property="C16",
  needs="a table with ZNAXIS of 10^15 and no ZNAXISn",
  what_it_breaks="the reading of the header does not end",
  edits=[("src/hdu/header/extension/bintable.rs", "                    warn!(\"ZNAXISN is mandatory. Tile compressed image discarded\");\n                    break;\n", "                    warn!(\"ZNAXISN is mandatory. Tile compressed image discarded\");\n                    continue;\n")],
  demo=PRE + r"""
fn main(){ std::thread::spawn(||{ std::thread::sleep(std::time::Duration::from_secs(20)); std::process::exit(9) }); let mut v=primary(8,&[],&[]); v.extend(bintable(8,1,0,&["1PB(99)"],&["TTYPE1  = 'COMPRESSED_DATA'".into(),l("ZIMAGE","T"),"ZCMPTYPE= 'GZIP_1  '".into(),l("ZBITPIX",32),l("ZNAXIS",1_000_000_000_000_000i64)])); v.extend(data(&[0;8])); let mut f=Fits::from_reader(Cursor::new(v)); f.next(); let _=f.next(); }
""")
bug(id="u05_first_zname", property="C11",
  needs="a RICE image whose BLOCKSIZE is not the first compression parameter",
  what_it_breaks="the block size is not taken into account",
  edits=[("src/hdu/header/extension/bintable.rs", "                                if value == \"BLOCKSIZE\" && zname.starts_with(\"ZNAME\") {\n", "                                if value == \"BLOCKSIZE\" && zname == \"ZNAME1\" {\n")],
  demo=PRE + TC + r"""
// constant blocks of 5 zero bits
fn img(p:&[String])->Option<Vec<i32>>{ let n=64usize; let mut t=9i32.to_be_bytes().to_vec(); let mut bits=vec![]; for _ in 0..4 {bits.extend([0u8;5])}
 // second block of 16: high entropy, differences of 32 bits all 2 (i.e. +1)
 bits.clear(); bits.extend([0u8;5]); bits.extend([1,1,0,1,0]); for _ in 0..16 { for i in (0..32).rev() { bits.push((2u32>>i &1) as u8) } } bits.extend([0u8;10]); while bits.len()%8!=0 {bits.push(0)} for c in bits.chunks(8) { t.push(c.iter().fold(0,|a,b|a<<1|b)) } t.extend([0;64]);
 let mut d=vec![]; d.extend((t.len() as u32).to_be_bytes()); d.extend([0;4]); d.extend(&t); let mut k=vec!["TTYPE1  = 'COMPRESSED_DATA'".into(),l("ZIMAGE","T"),"ZCMPTYPE= 'RICE_1  '".into(),l("ZBITPIX",32),l("ZNAXIS",2),l("ZNAXIS1",n),l("ZNAXIS2",1)]; k.extend(p.iter().cloned());
 let mut v=primary(8,&[],&[]); v.extend(bintable(8,1,t.len(),&["1PB(99)"],&k)); v.extend(data(&d));
 let mut f=Fits::from_reader(Cursor::new(v)); f.next(); let Some(Ok(HDU::XBinaryTable(h)))=f.next() else {panic!()}; let BinaryTableData::TileCompressed(Pixels::I32(it))=f.get_data(&h) else {panic!()}; Some(it.collect()) }
fn main(){ let a=img(&["ZNAME1  = 'BLOCKSIZE'".into(),l("ZVAL1",16)]); let b=img(&["ZNAME1  = 'BYTEPIX '".into(),l("ZVAL1",4),"ZNAME2  = 'BLOCKSIZE'".into(),l("ZVAL2",16)]); assert_eq!(a,b); }
""")
bug(id="u06_double_complex_seek", property="C17",
  needs="a selection that leaves out what follows a double complex column, and a seek that fails there",
  what_it_breaks="the reading goes on from the wrong place",
  edits=[("src/hdu/data/bintable/data.rs", "                            self.byte_offset += M::BYTES_SIZE;\n\n                            self.item_idx += 1;\n                            if self.item_idx == *repeat_count {\n                                self.seek_to_next_col().ok()?;\n                            }\n", "                            self.byte_offset += M::BYTES_SIZE;\n\n                            self.item_idx += 1;\n                            if self.item_idx == *repeat_count {\n                                // a failure shows up at the next read\n                                self.seek_to_next_col().unwrap_or_default();\n                            }\n")],
  demo=PRE + r"""
use fitsrs::hdu::data::bintable::{ColumnId,DataValue}; use std::{cell::Cell,rc::Rc};
#[derive(Debug)] struct S(Cursor<Vec<u8>>,Rc<Cell<bool>>);
impl Read for S{fn read(&mut self,b:&mut[u8])->std::io::Result<usize>{self.0.read(b)}}
impl Seek for S{fn seek(&mut self,p:SeekFrom)->std::io::Result<u64>{ if self.1.get() {self.1.set(false); Err(std::io::Error::other("no"))} else {self.0.seek(p)} }}
fn main(){ let mut v=primary(8,&[],&[]); v.extend(bintable(32,2,0,&["1M","16B"],&[])); let mut d=vec![]; for r in 0..2u8 { d.extend([r+1;16]); d.extend([77;16]); } v.extend(data(&d)); let k=Rc::new(Cell::new(false)); let mut f=Fits::from_reader(S(Cursor::new(v),k.clone())); f.next(); let Some(Ok(HDU::XBinaryTable(h)))=f.next() else {panic!()};
 let mut t=f.get_data(&h).table_data(); t.seek_to_row(0).unwrap(); t.select_fields(&[ColumnId::Index(0)]); t.seek_to_row(0).unwrap(); k.set(true); for x in t { let DataValue::ComplexDouble{real,..}=x else {panic!()}; assert!(real.to_be_bytes()==[1;8]||real.to_be_bytes()==[2;8]); } }
""")
bug(id="u07_refused_seek_moves", property="C10",
  needs="a seek past the last row in the middle of the reading",
  what_it_breaks="the reading goes on in another row",
  edits=[("src/hdu/data/bintable/data.rs", "        if idx >= self.ctx.naxis2 as usize {\n            Err(Error::StaticError(", "        if idx >= self.ctx.naxis2 as usize {\n            self.row_idx = (self.ctx.naxis2 as usize).saturating_sub(1);\n            Err(Error::StaticError("), ("src/hdu/data/bintable/data.rs", "                \"The row index specified is > than the number of rows of the table\",\n", "                \"The row index specified is greater than the number of rows of the table\",\n")],
  demo=PRE + r"""
fn main(){ let mut v=primary(8,&[],&[]); v.extend(bintable(2,4,0,&["1B","1B"],&[])); v.extend(data(&[1,2,3,4,5,6,7,8])); let mut f=Fits::from_reader(Cursor::new(v)); f.next(); let Some(Ok(HDU::XBinaryTable(h)))=f.next() else {panic!()}; let mut t=f.get_data(&h).table_data(); t.next(); t.next(); t.next(); assert!(t.seek_to_row(4).is_err()); assert_eq!(t.count(),5); }
""")
bug(id="u08_gz_interrupted", property="C14",
  needs="a compressed file read through a reader that interrupts a read",
  what_it_breaks="the file is refused",
  edits=[("src/gz.rs", "                let mut buf = vec![];\n                gz.read_to_end(&mut buf)?;\n\n", "                let mut buf = vec![];\n                let mut block = vec![0; 0x8000];\n                loop {\n                    match gz.read(&mut block)? {\n                        0 => break,\n                        n => buf.extend_from_slice(&block[..n]),\n                    }\n                }\n\n")],
  demo=PRE + r"""
use std::io::Write;
#[derive(Debug)] struct S(Cursor<Vec<u8>>,u32);
impl Read for S{fn read(&mut self,b:&mut[u8])->std::io::Result<usize>{ self.1+=1; if self.1%2==0 {return Err(std::io::ErrorKind::Interrupted.into())} let n=b.len().min(300); self.0.read(&mut b[..n])}}
impl Seek for S{fn seek(&mut self,p:SeekFrom)->std::io::Result<u64>{ self.0.seek(p) }}
fn main(){ let mut x=1u32; let d:Vec<u8>=(0..5000).map(|_|{x=x.wrapping_mul(1664525).wrapping_add(1013904223); (x>>24) as u8}).collect(); let mut v=primary(8,&[5000],&[]); v.extend(data(&d)); let mut e=flate2::write::GzEncoder::new(vec![],flate2::Compression::fast()); e.write_all(&v).unwrap(); let z=e.finish().unwrap(); assert!(fitsrs::gz::GzReader::new(S(Cursor::new(z),0)).is_ok()); }
""", also=["C13"])
bug(id="u09_i64_single", property="C18",
  needs="a 64-bit image with a BZERO that nearly cancels its values",
  what_it_breaks="the samples are wrong",
  edits=[("src/image_integration.rs", "    let mapped = iter.map(|src| (scale.apply(src as f64) as f32).to_le_bytes());\n", "    let mapped = iter.map(|src| (scale.apply(f64::from(src as f32)) as f32).to_le_bytes());\n")],
  demo=PRE + r"""
fn main(){ let mut v=primary(64,&[1,1],&[l("BZERO","1000000000000.0"),l("BSCALE","-1.0")]); v.extend(data(&999_999_000_000i64.to_be_bytes())); fitsrs::image_integration::register_fits_decoding_hook(); let i=image::ImageReader::new(Cursor::new(v)).with_guessed_format().unwrap().decode().unwrap().into_rgb32f(); let want=(1e6/i64::MAX as f64) as f32; assert!((i.get_pixel(0,0).0[0]/want-1.0).abs()<1e-5); }
""")
bug(id="u10_ascii_pcount", property="C22",
  needs="an ASCII table with a PCOUNT that is not 0",
  what_it_breaks="the header is accepted",
  edits=[("src/hdu/header/extension/asciitable.rs", "        if pcount != 0 {\n", "        if pcount > naxis1 * naxis2 {\n")],
  demo=PRE + r"""
fn main(){ let mut v=primary(8,&[],&[]); v.extend(header(&["XTENSION= 'TABLE   '".into(),l("BITPIX",8),l("NAXIS",2),l("NAXIS1",9),l("NAXIS2",1),l("PCOUNT",3),l("GCOUNT",1),l("TFIELDS",1),l("TBCOL1",1),"TFORM1  = 'A9      '".into()])); v.extend(data(b"123456789")); let mut f=Fits::from_reader(Cursor::new(v)); f.next(); assert!(f.next().unwrap().is_err()); }
""")
bug(id="u11_theap_32_bits", property="C20",
  needs="a heap that starts more than 4 GiB after the table",
  what_it_breaks="the arrays are read from the wrong place",
  edits=[("src/hdu/header/extension/bintable.rs", "        let theap = if let Ok(value) = values.get_parsed::<usize>(\"THEAP\") {\n            value\n", "        let theap = if let Ok(value) = values.get_parsed::<u32>(\"THEAP\") {\n            value as usize\n")],
  demo=PRE + r"""
use fitsrs::hdu::data::bintable::DataValue;
#[derive(Debug)] struct S{parts:Vec<(u64,Vec<u8>)>,pos:u64,len:u64}
impl Read for S{fn read(&mut self,b:&mut[u8])->std::io::Result<usize>{ let n=(b.len() as u64).min(self.len.saturating_sub(self.pos)) as usize; b[..n].fill(0);
 for (at,v) in &self.parts { let (s,e)=((*at).max(self.pos),(*at+v.len() as u64).min(self.pos+n as u64)); if s<e { b[(s-self.pos) as usize..(e-self.pos) as usize].copy_from_slice(&v[(s-at) as usize..(e-at) as usize]); } } self.pos+=n as u64; Ok(n)}}
impl Seek for S{fn seek(&mut self,p:SeekFrom)->std::io::Result<u64>{ self.pos=match p{SeekFrom::Start(x)=>x,SeekFrom::Current(x)=>(self.pos as i64+x) as u64,SeekFrom::End(x)=>(self.len as i64+x) as u64}; Ok(self.pos)}}
fn main(){ let th=5_000_000_000u64; let mut h=primary(8,&[],&[]); h.extend(bintable(8,1,th as usize,&["1PB(3)"],&[l("THEAP",th)])); let at=h.len() as u64; h.extend([0,0,0,3,0,0,0,0]); let mut f=Fits::from_reader(S{parts:vec![(0,h),(at+th,vec![7,8,9])],pos:0,len:at+th+2880}); f.next(); let Some(Ok(HDU::XBinaryTable(h)))=f.next() else {panic!()};
 let r:Vec<u8>=f.get_data(&h).table_data().map(|x| match x {DataValue::UnsignedByte{value,..}=>value,_=>panic!()}).collect(); assert_eq!(r,[7,8,9]); }
""", also=["C09"])
bug(id="u12_whole_float", property="C05",
  needs="a keyword with a float value without fractional part read as an integer",
  what_it_breaks="the value is converted instead of an error",
  edits=[("src/card.rs", "            Value::Float { value, comment: _ } => visitor.visit_f64(*value),\n", "            Value::Float { value, comment: _ } if value.fract() == 0.0 && value.abs() < 1e9 => {\n                visitor.visit_i64(*value as i64)\n            }\n            Value::Float { value, .. } => visitor.visit_f64(*value),\n")],
  demo=PRE + r"""
fn main(){ let v=primary(8,&[],&["A       = 5.0".into()]); let Some(Ok(HDU::Primary(h)))=Fits::from_reader(Cursor::new(v)).next() else {panic!()}; assert!(h.get_header().get_parsed::<i32>("A").is_err()); }
""")
bug(id="u13_rice_end", property="C17",
  needs="a file cut in the bits of a RICE tile",
  what_it_breaks="the pixels of the missing bytes are made up",
  edits=[("src/hdu/data/bintable/tile_compressed/rice.rs", "                        b = (b << 8) | (self.reader.read_u8()? as u32);\n                        nbits += 8;\n                    }\n                    let fs", "                        b = (b << 8) | (self.reader.read_u8().unwrap_or(0) as u32);\n                        nbits += 8;\n                    }\n                    let fs")],
  demo=PRE + TC + r"""
fn main(){ let n=640usize; let mut t=9i32.to_be_bytes().to_vec(); t.extend([0u8;2]); let mut d=vec![]; d.extend(((t.len()+20) as u32).to_be_bytes()); d.extend([0;4]); d.extend(&t);
 let mut v=primary(8,&[],&[]); v.extend(bintable(8,1,t.len()+20,&["1PB(99)"],&["TTYPE1  = 'COMPRESSED_DATA'".into(),l("ZIMAGE","T"),"ZCMPTYPE= 'RICE_1  '".into(),l("ZBITPIX",32),l("ZNAXIS",2),l("ZNAXIS1",n),l("ZNAXIS2",1)])); v.extend(d);
 let mut f=Fits::from_reader(std::io::BufReader::new(Cursor::new(v))); f.next(); let Some(Ok(HDU::XBinaryTable(h)))=f.next() else {panic!()}; let BinaryTableData::TileCompressed(Pixels::I32(it))=f.get_data(&h) else {panic!()}; assert!(it.count()<n); }
""")
bug(id="u14_four_axes", property="C18",
  needs="an image of four axes, the third being 3",
  what_it_breaks="it is decoded instead of refused",
  edits=[("src/image_integration.rs", "        [3] => Ok(true),\n", "        [3, ..] => Ok(true),\n")],
  demo=PRE + r"""
fn main(){ let mut v=primary(8,&[2,2,3,2],&[]); v.extend(data(&[1;24])); fitsrs::image_integration::register_fits_decoding_hook(); assert!(image::ImageReader::new(Cursor::new(v)).with_guessed_format().unwrap().into_decoder().is_err()); }
""")
bug(id="u15_rice_low_entropy_boundary", property="C11",
  needs="a RICE tile of more than 16384 pixels with a block of equal pixels across the 64 KiB of the buffer",
  what_it_breaks="the rest of that block is skipped",
  edits=[("src/hdu/data/bintable/tile_compressed/rice.rs", "                    if i == imax {\n                        // We processed all the block, we need to recompute a FS\n                        self.state = RICEState::FS {\n                            nbits,\n                            b,\n                            i,\n                            lastpix,\n                        }\n                    } else {\n                        // The buf has been filled in the middle of the block\n                        self.state = RICEState::LowEntropyDecoding {", "                    if i == imax || b == 0 && i + 1 == imax {\n                        // We processed all the block, we need to recompute a FS\n                        self.state = RICEState::FS {\n                            nbits,\n                            b,\n                            i,\n                            lastpix,\n                        }\n                    } else {\n                        // The buf has been filled in the middle of the block\n                        self.state = RICEState::LowEntropyDecoding {")],
  demo=PRE + TC + r"""
// blocks of 29 equal pixels, 16385 = 565*29 exactly
fn main(){ let (bs,n)=(29usize,17400usize); let nb=n/bs; let mut bits:Vec<u8>=vec![]; for k in 0..nb { if k==nb-1 { bits.extend([1,1,0,1,0]); for _ in 0..bs { for i in (0..32).rev() { bits.push((2u32>>i &1) as u8) } } } else { bits.extend([0u8;5]) } } while bits.len()%8!=0 {bits.push(0)}
 let mut t=9i32.to_be_bytes().to_vec(); for c in bits.chunks(8) { t.push(c.iter().fold(0,|a,b|a<<1|b)) } t.extend([0;16]); let mut d=vec![]; d.extend((t.len() as u32).to_be_bytes()); d.extend([0;4]); d.extend(&t);
 let mut v=primary(8,&[],&[]); v.extend(bintable(8,1,t.len(),&["1PB(99)"],&["TTYPE1  = 'COMPRESSED_DATA'".into(),l("ZIMAGE","T"),"ZCMPTYPE= 'RICE_1  '".into(),l("ZBITPIX",32),l("ZNAXIS",2),l("ZNAXIS1",n),l("ZNAXIS2",1),"ZNAME1  = 'BLOCKSIZE'".into(),l("ZVAL1",bs)])); v.extend(data(&d));
 let mut f=Fits::from_reader(Cursor::new(v)); f.next(); let Some(Ok(HDU::XBinaryTable(h)))=f.next() else {panic!()}; let BinaryTableData::TileCompressed(Pixels::I32(it))=f.get_data(&h) else {panic!()}; let p:Vec<i32>=it.collect(); assert_eq!(p.len(),n); for (i,x) in p.iter().enumerate() { let w=if i<n-bs {9} else {9+(i-(n-bs)) as i32+1}; assert_eq!(*x,w,"{i}"); } }
""")
bug(id="u17_iueimage_rank", property="C01",
  needs="an extension of type IUEIMAGE",
  what_it_breaks="the walk ends with an error",
  edits=[("src/hdu/header/extension/mod.rs", "            \"IMAGE\" | \"IUEIMAGE\" => Ok(XtensionType::Image),\n", "            \"IMAGE\" => Ok(XtensionType::Image),\n")],
  demo=PRE + r"""
fn main(){ let mut v=primary(8,&[],&[]); v.extend(header(&["XTENSION= 'IUEIMAGE'".into(),l("BITPIX",8),l("NAXIS",1),l("NAXIS1",5),l("PCOUNT",0),l("GCOUNT",1)])); v.extend(data(&[1;5])); assert!(Fits::from_reader(Cursor::new(v)).all(|h|h.is_ok())); }
""")
bug(id="u18_unit_extension_comment", property="C03",
  needs="an XTENSION card with a comment holding a quote",
  what_it_breaks="the comment is lost",
  edits=[("src/card.rs", "        let x = value[1..end].trim_ascii().parse()?;\n        Ok(Card::Xtension { x, comment })\n", "        let x = value[1..end].trim_ascii().parse()?;\n        Ok(Card::Xtension { x, comment: comment.filter(|comment| !comment.contains('\\'')) })\n")],
  demo=PRE + CARD + r"""
fn main(){ let Card::Xtension{comment,..}=card("XTENSION= 'IMAGE   ' / it's an image") else {panic!()}; assert!(comment.is_some()); }
""")
