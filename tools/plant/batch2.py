import os
exec(open(os.path.join(os.path.dirname(os.path.abspath(sys.argv[1] if 'sys' in globals() else __import__('sys').argv[1])), 'batch1.py')).read().split("bug(id=")[0])
TC = "use fitsrs::hdu::data::bintable::data::BinaryTableData; use fitsrs::hdu::data::bintable::tile_compressed::pixels::Pixels; use std::io::Write;\n" + r'''
fn gz(raw:&[u8])->Vec<u8>{ let mut e=flate2::write::GzEncoder::new(vec![],flate2::Compression::default()); e.write_all(raw).unwrap(); e.finish().unwrap() }
'''
bug(id="q01_walk_restarts_after_end", property="C02",
  needs="asking for the next HDU again after the end, in a file whose last HDU has data",
  what_it_breaks="the second call after the end reads the data of the last HDU as a header and gives an error (or invented HDUs)",
  edits=[("src/fits.rs", "                None => None,\n", "                None => {\n                    // the last data unit has been consumed\n                    self.num_bytes_in_cur_du = 0;\n                    None\n                }\n")],
  demo=PRE + r'''
fn main(){ let mut v=primary(8,&[100],&[]); v.extend(data(&[1;100])); let mut f=Fits::from_reader(Cursor::new(v)); assert!(f.next().unwrap().is_ok()); assert!(f.next().is_none()); assert!(f.next().is_none()); assert!(f.next().is_none()); }
''', also=["C01"])
bug(id="q02_negative_zero", property="C06",
  needs="a double precision pixel that is -0.0 or a signalling NaN",
  what_it_breaks="the pixel comes back with other bits",
  edits=[("src/hdu/data/iter.rs", "        Ok(reader.read_f64::<BigEndian>()?)", "        // no negative zero\n        Ok(reader.read_f64::<BigEndian>()? + 0.0)")],
  demo=PRE + r'''
fn main(){ let mut v=primary(-64,&[2],&[]); let mut d=(-0.0f64).to_be_bytes().to_vec(); d.extend(1.5f64.to_be_bytes()); v.extend(data(&d)); let mut f=Fits::from_reader(Cursor::new(v));
 let Some(Ok(HDU::Primary(h)))=f.next() else {panic!()}; let fitsrs::Pixels::F64(it)=f.get_data(&h).pixels() else {panic!()}; assert_eq!(it.map(|x|x.to_bits()).collect::<Vec<_>>(),[(-0.0f64).to_bits(),1.5f64.to_bits()]); }
''', also=["C07","C14"])
bug(id="q03_invalid_is_absent", property="C05",
  needs="an optional field whose keyword has a value that is not legal",
  what_it_breaks="the malformed value is taken for an absent keyword instead of an error",
  edits=[("src/card.rs", "        if self == &Value::Undefined {\n", "        if matches!(self, Value::Undefined | Value::Invalid(_)) {\n")],
  demo=PRE + r'''
fn main(){ let v=primary(8,&[],&["A       = 12x4".into()]); let Some(Ok(HDU::Primary(h)))=Fits::from_reader(Cursor::new(v)).next() else {panic!()}; assert!(h.get_header().get_parsed::<Option<i64>>("A").is_err()); }
''')
bug(id="q04_zblank_column_f64", property="C12",
  needs="a double precision compressed image with a ZBLANK column",
  what_it_breaks="the blank pixels come out as numbers instead of NaN",
  edits=[("src/hdu/data/bintable/tile_compressed/pixels.rs", "                    DataValue::Short { value, .. } => Some(value as i32),", "                    DataValue::Short { value, .. } => Some(i32::from(value as u16)),", 1)],
  demo=PRE + TC + r'''
fn main(){ let t=gz(&[0,0,0,5u8,0xff,0xff,0xff,0x9c]); let mut d=vec![]; d.extend((t.len() as u32).to_be_bytes()); d.extend([0;4]); d.extend((-100i16).to_be_bytes()); d.extend(&t);
 let mut v=primary(8,&[],&[]); v.extend(bintable(10,1,t.len(),&["1PB(99)","1I"],&["TTYPE1  = 'COMPRESSED_DATA'".into(),"TTYPE2  = 'ZBLANK  '".into(),l("ZIMAGE","T"),"ZCMPTYPE= 'GZIP_1  '".into(),l("ZBITPIX",-64),l("ZNAXIS",2),l("ZNAXIS1",2),l("ZNAXIS2",1),
  "ZQUANTIZ= 'NO_DITHER'".into(),l("ZSCALE","1.0"),l("ZZERO","0.0")])); v.extend(data(&d));
 let mut f=Fits::from_reader(Cursor::new(v)); f.next(); let Some(Ok(HDU::XBinaryTable(h)))=f.next() else {panic!()};
 let BinaryTableData::TileCompressed(Pixels::F64(it))=f.get_data(&h) else {panic!()}; let p:Vec<f32>=it.collect(); assert_eq!(p.len(),2); assert_eq!(p[0],5.0); assert!(p[1].is_nan()); }
''')
bug(id="q05_second_dither_wraps_early", property="C12",
  needs="a SUBTRACTIVE_DITHER_1 tile whose random sequence reaches the end of the table",
  what_it_breaks="one random value is never used: the pixels after it are dithered with the wrong value",
  edits=[("src/hdu/data/bintable/tile_compressed/mod.rs", "                *i1 = (*i1 + 1) % N_RANDOM;\n\n                ((value as f32) - ri + 0.5) * self.scale + self.zero\n            }\n            Quantiz::SubtractiveDither2 { i1 } => {", "                *i1 = (*i1 + 1) % (N_RANDOM - 1);\n\n                ((value as f32) - ri + 0.5) * self.scale + self.zero\n            }\n            Quantiz::SubtractiveDither2 { i1 } => {", 1)],
  demo=PRE + TC + r'''
// the dithered value of pixel k of two tiles that differ by their length only must be the same, and the values must not have a period below 10000
fn main(){ let n=9990usize; let t=gz(&vec![0u8;4*n]); let mut d=vec![]; d.extend((t.len() as u32).to_be_bytes()); d.extend([0;4]); d.extend(&t);
 let mut v=primary(8,&[],&[]); v.extend(bintable(8,1,t.len(),&["1PB(99)"],&["TTYPE1  = 'COMPRESSED_DATA'".into(),l("ZIMAGE","T"),"ZCMPTYPE= 'GZIP_1  '".into(),l("ZBITPIX",-32),l("ZNAXIS",2),l("ZNAXIS1",n),l("ZNAXIS2",1),
  "ZQUANTIZ= 'SUBTRACTIVE_DITHER_1'".into(),l("ZDITHER0",1),l("ZSCALE","1.0"),l("ZZERO","0.0")])); v.extend(data(&d));
 let mut f=Fits::from_reader(Cursor::new(v)); f.next(); let Some(Ok(HDU::XBinaryTable(h)))=f.next() else {panic!()};
 let BinaryTableData::TileCompressed(Pixels::F32(it))=f.get_data(&h) else {panic!()}; let p:Vec<f32>=it.collect(); assert_eq!(p.len(),n);
 // the documented generator of the random values
 let mut r=vec![]; let mut s=1.0f64; for _ in 0..10000 { let t=16807.0*s; s=t-2147483647.0*((t/2147483647.0) as i64 as f64); r.push((s/2147483647.0) as f32); }
 let i0=(0..10000).filter(|&i|{ let i1=(r[i]*500.0) as usize; (0..200).all(|k| (p[k]-(0.5-r[i1+k])).abs()<1e-5) }).next().unwrap(); let i1=(r[i0]*500.0) as usize;
 for k in 0..n { assert!((p[k]-(0.5-r[(i1+k)%10000])).abs()<1e-5,"{k}"); } }
''')
bug(id="q06_rice_extreme_difference", property="C11",
  needs="a RICE image with two neighbouring pixels that differ by exactly -2^31, in a block stored uncompressed",
  what_it_breaks="the second pixel (and those after it) are off by 2^32-1",
  edits=[("src/hdu/data/bintable/tile_compressed/rice.rs", "                        if (diff & 1) == 0 {\n", "                        if (diff & 1) == 0 || diff == u32::MAX {\n", 0)],
  demo=PRE + TC + r"""
fn main(){ // first pixel 0 (kept), then one block of 5 bits 26 = stored uncompressed: 0 and -2^31 (mapped to 0 and 2^32-1)
 let mut bits=String::new(); bits+="11010"; bits+=&"0".repeat(32); bits+=&"1".repeat(32); while bits.len()%8!=0 {bits.push('0')}
 let mut t=vec![0u8;4]; for c in bits.as_bytes().chunks(8) { t.push(u8::from_str_radix(std::str::from_utf8(c).unwrap(),2).unwrap()); } t.extend([0;4]);
 let mut d=vec![]; d.extend((t.len() as u32).to_be_bytes()); d.extend([0;4]); d.extend(&t); let _=gz(&[]);
 let mut v=primary(8,&[],&[]); v.extend(bintable(8,1,t.len(),&["1PB(99)"],&["TTYPE1  = 'COMPRESSED_DATA'".into(),l("ZIMAGE","T"),"ZCMPTYPE= 'RICE_1  '".into(),l("ZBITPIX",32),l("ZNAXIS",2),l("ZNAXIS1",2),l("ZNAXIS2",1)])); v.extend(data(&d));
 let mut f=Fits::from_reader(Cursor::new(v)); f.next(); let Some(Ok(HDU::XBinaryTable(h)))=f.next() else {panic!()};
 let BinaryTableData::TileCompressed(Pixels::I32(it))=f.get_data(&h) else {panic!()}; assert_eq!(it.collect::<Vec<_>>(),[0,i32::MIN]); }
""")
bug(id="q07_rgb_of_four_planes", property="C18",
  needs="a cube of more than three planes",
  what_it_breaks="an unsupported shape is decoded as RGB instead of being refused",
  edits=[("src/image_integration.rs", "        [3] => Ok(true),", "        [n] if *n >= 3 => Ok(true),")],
  demo=PRE + r'''
fn main(){ let mut v=primary(8,&[2,2,4],&[]); v.extend(data(&[7;16])); fitsrs::image_integration::register_fits_decoding_hook(); assert!(image::ImageReader::new(Cursor::new(v)).with_guessed_format().unwrap().into_decoder().is_err()); }
''')
bug(id="q08_u8_bscale_ignored", property="C18",
  needs="an 8-bit image with BSCALE and no BZERO",
  what_it_breaks="the decoded image is not scaled",
  edits=[("src/image_integration.rs", "fn write_u8(buf: &mut [u8], iter: impl Iterator<Item = u8>, scale: Scale, is_rgb: bool) {\n    let needs_scale = scale != Scale::default();", "fn write_u8(buf: &mut [u8], iter: impl Iterator<Item = u8>, scale: Scale, is_rgb: bool) {\n    let needs_scale = scale.bzero != 0.0;")],
  demo=PRE + r'''
use image::ImageDecoder;
fn main(){ let mut v=primary(8,&[2,2],&[l("BSCALE","2.0")]); v.extend(data(&[1,2,3,4]));
 fitsrs::image_integration::register_fits_decoding_hook(); let d=image::ImageReader::new(Cursor::new(v)).with_guessed_format().unwrap().into_decoder().unwrap(); let mut b=[0;4]; d.read_image(&mut b).unwrap(); assert_eq!(b,[2,4,6,8]); }
''')
bug(id="q09_cli_index_8_bits", property="C19",
  needs="a file of more than 256 HDUs",
  what_it_breaks="the numbers of the HDUs in the listing start again from 0",
  edits=[("crates/cli/src/struct.rs", "    println!(\"HDU[{}]:\", i);", "    println!(\"HDU[{}]:\", i as u8);")],
  demo_sh="cli", demo=r'''
import subprocess,sys
def card(s): return s.ljust(80).encode()
def kv(k,v): return card("%-8s= %20s"%(k,v))
def hdr(cs): b=b"".join(cs)+card("END"); return b+b" "*(-len(b)%2880)
v=hdr([kv("SIMPLE","T"),kv("BITPIX",8),kv("NAXIS",0)])
for i in range(259): v+=hdr([card("XTENSION= 'IMAGE   '"),kv("BITPIX",8),kv("NAXIS",0),kv("PCOUNT",0),kv("GCOUNT",1)])
open(sys.argv[2]+"/x.fits","wb").write(v)
r=subprocess.run([sys.argv[1],"struct",sys.argv[2]+"/x.fits"],capture_output=True,text=True)
sys.exit(0 if r.returncode==0 and [l for l in r.stdout.split("\n") if l.startswith("HDU[")]==["HDU[%d]:"%i for i in range(260)] else 1)
''')
bug(id="q10_cli_stops_quietly", property="C19",
  needs="a file whose second or later header is malformed",
  what_it_breaks="the listing stops there and the command succeeds",
  edits=[("crates/cli/src/struct.rs", "            hdu.map_err(|e| e.into())\n                .and_then(|hdu| print_hdu_struct(i, hdu))?;", "            // what follows the last HDU is not printed\n            match hdu {\n                Ok(hdu) => print_hdu_struct(i, hdu)?,\n                Err(_) if i > 0 => break,\n                Err(e) => return Err(e.into()),\n            }")],
  demo_sh="cli", demo=r'''
import subprocess,sys
def card(s): return s.ljust(80).encode()
def kv(k,v): return card("%-8s= %20s"%(k,v))
def hdr(cs): b=b"".join(cs)+card("END"); return b+b" "*(-len(b)%2880)
v=hdr([kv("SIMPLE","T"),kv("BITPIX",8),kv("NAXIS",0)])+hdr([card("XTENSION= 'IMAGE   '"),kv("BITPIX",7),kv("NAXIS",0),kv("PCOUNT",0),kv("GCOUNT",1)])
open(sys.argv[2]+"/x.fits","wb").write(v)
r=subprocess.run([sys.argv[1],"struct",sys.argv[2]+"/x.fits"],capture_output=True,text=True)
sys.exit(0 if r.returncode==1 else 1)
''')
bug(id="q11_plus_sign", property="C03",
  needs="a number written with an explicit plus sign",
  what_it_breaks="the value is reported as invalid",
  edits=[("src/card.rs", "            '0'..='9' | '-' | '+' | '.' => parse_number(v, c),", "            '0'..='9' | '-' | '.' => parse_number(v, c),")],
  demo=PRE + r'''
use fitsrs::card::{Card, Value}; use std::convert::TryFrom;
fn main(){ assert_eq!(Card::try_from(&card("A       = +12")).unwrap(), Card::Value{name:"A".into(),value:Value::Integer{value:12,comment:None}}); }
''', also=["C05","C22"])
bug(id="q12_axes_allocated_up_front", property="C16",
  needs="a header that announces a huge number of axes",
  what_it_breaks="memory is reserved for all of them before the missing NAXISn are noticed: the process aborts",
  edits=[("src/hdu/header/extension/image.rs", "            .map(|naxis_i| values.check_for_naxisi(naxis_i))\n", "            .map({\n                // no axis may be given twice\n                let mut seen = vec![0_u64; naxis];\n                move |naxis_i| {\n                    seen[naxis_i - 1] += 1;\n                    values.check_for_naxisi(naxis_i)\n                }\n            })\n")],
  demo=PRE + r'''
use std::alloc::{GlobalAlloc,Layout,System}; struct A; unsafe impl GlobalAlloc for A{ unsafe fn alloc(&self,l:Layout)->*mut u8{ if l.size()>1<<28 {std::process::exit(9)} System.alloc(l)} unsafe fn alloc_zeroed(&self,l:Layout)->*mut u8{ if l.size()>1<<28 {std::process::exit(9)} System.alloc_zeroed(l)} unsafe fn dealloc(&self,p:*mut u8,l:Layout){System.dealloc(p,l)} }
#[global_allocator] static G:A=A;
fn main(){ let v=header(&[l("SIMPLE","T"),l("BITPIX",8),l("NAXIS",900_000_000)]); assert!(Fits::from_reader(Cursor::new(v)).next().unwrap().is_err()); }
''')
bug(id="q13_xtension_prefix", property="C22",
  needs="an extension of an unknown type whose name starts as a known one",
  what_it_breaks="an unsupported XTENSION is accepted as an image",
  edits=[("src/hdu/header/extension/mod.rs", "            \"IMAGE\" | \"IUEIMAGE\" => Ok(XtensionType::Image),", "            // some writers add a version number\n            v if v.starts_with(\"IMAGE\") || v == \"IUEIMAGE\" => Ok(XtensionType::Image),")],
  demo=PRE + r'''
fn main(){ let mut v=primary(8,&[],&[]); v.extend(header(&["XTENSION= 'IMAGESET'".into(),l("BITPIX",8),l("NAXIS",0),l("PCOUNT",0),l("GCOUNT",1)])); let mut f=Fits::from_reader(Cursor::new(v)); f.next(); assert!(f.next().unwrap().is_err()); }
''')
bug(id="q14_first_value_kept", property="C04",
  needs="a keyword given twice with different values",
  what_it_breaks="the first value is looked up instead of the last one",
  edits=[("src/hdu/header/mod.rs", "                values.insert(name.to_owned(), value.to_owned());\n", "                values\n                    .entry(name.to_owned())\n                    .or_insert_with(|| value.to_owned());\n")],
  demo=PRE + r'''
fn main(){ let v=primary(8,&[],&[l("A",1),l("A",2)]); let Some(Ok(HDU::Primary(h)))=Fits::from_reader(Cursor::new(v)).next() else {panic!()}; assert_eq!(h.get_header().get_parsed::<i64>("A").unwrap(),2); }
''')
bug(id="q17_seek_one_past_the_end", property="C10",
  needs="a seek to the row number that equals the number of rows",
  what_it_breaks="the seek is accepted",
  edits=[("src/hdu/data/bintable/data.rs", "        if idx >= self.ctx.naxis2 as usize {", "        if idx > self.ctx.naxis2 as usize {")],
  demo=PRE + r'''
fn main(){ let mut v=primary(8,&[],&[]); v.extend(bintable(1,3,0,&["1B"],&[])); v.extend(data(&[1,2,3])); let mut f=Fits::from_reader(Cursor::new(v)); f.next(); let Some(Ok(HDU::XBinaryTable(h)))=f.next() else {panic!()};
 let mut t=f.get_data(&h).table_data(); assert!(t.seek_to_row(3).is_err()); assert!(t.seek_to_row(2).is_ok()); }
''')
bug(id="q18_names_start_with", property="C10",
  needs="two columns of which one's name starts with the other's",
  what_it_breaks="the selection by name takes another column",
  edits=[("src/hdu/header/extension/bintable.rs", "            tt == ttype\n", "            tt.trim_end().starts_with(ttype.trim_end())\n")],
  demo=PRE + r'''
fn main(){ let mut v=primary(8,&[],&[]); v.extend(bintable(2,1,0,&["1B","1B"],&["TTYPE1  = 'FLUX_ERR'".into(),"TTYPE2  = 'FLUX    '".into()])); v.extend(data(&[1,2])); let mut f=Fits::from_reader(Cursor::new(v)); f.next(); let Some(Ok(HDU::XBinaryTable(h)))=f.next() else {panic!()};
 assert_eq!(h.get_header().get_xtension().find_field_by_ttype("FLUX"),Some(1)); }
''', also=["C22"])
bug(id="q19_theap_only_if_gap", property="C09",
  needs="a table with THEAP whose main table is larger than 2^16 bytes",
  what_it_breaks="the heap is looked for at the wrong place",
  edits=[("src/hdu/header/extension/bintable.rs", "        let theap = if let Ok(value) = values.get_parsed::<usize>(\"THEAP\") {\n            value\n", "        let theap = if let Ok(value) = values.get_parsed::<u16>(\"THEAP\") {\n            usize::from(value)\n")],
  demo=PRE + r'''
use fitsrs::hdu::data::bintable::DataValue;
fn main(){ let mut v=primary(8,&[],&[]); let n=9000usize; let heap=n*8+100; v.extend(bintable(8,n,101,&["1PB(1)"],&[l("THEAP",heap)])); let mut d=vec![0u8;n*8+101]; d[3]=1; d[heap]=77; v.extend(data(&d));
 let mut f=Fits::from_reader(Cursor::new(v)); f.next(); let Some(Ok(HDU::XBinaryTable(h)))=f.next() else {panic!()}; let x:Vec<_>=f.get_data(&h).table_data().collect(); assert_eq!(x.len(),1); assert!(matches!(x[0],DataValue::UnsignedByte{value:77,..})); }
''', also=["C20"])
bug(id="q22_gz_with_comment", property="C13",
  needs="a gzip file with a comment in its header",
  what_it_breaks="the file is taken for a plain one",
  edits=[("src/gz.rs", "            Some(_) => {\n", "            Some(header) if header.comment().is_none() => {\n"),("src/gz.rs", "            None => {\n", "            _ => {\n")],
  demo=PRE + r"""
use std::io::Write;
fn main(){ let mut v=primary(8,&[5],&[]); v.extend(data(&[1;5])); let mut e=flate2::GzBuilder::new().comment("x").write(vec![],flate2::Compression::default()); e.write_all(&v).unwrap(); let z=e.finish().unwrap();
 let mut f=Fits::from_reader(fitsrs::gz::GzReader::new(Cursor::new(z)).unwrap()); assert!(f.next().unwrap().is_ok()); }
""")
bug(id="q23_end_on_block_boundary", property="C01",
  needs="a header whose END card is the last of its block",
  what_it_breaks="a whole block too many is skipped before the data unit",
  edits=[("src/fits.rs", "        let is_remaining_bytes = !(*num_bytes_read).is_multiple_of(2880);", "        let is_remaining_bytes = *num_bytes_read > 0;")],
  demo=PRE + r"""
fn main(){ let mut c=vec![l("SIMPLE","T"),l("BITPIX",8),l("NAXIS",0)]; for i in 0..32 {c.push(l(&format!("K{i}"),i));} let mut v=header(&c); assert_eq!(v.len(),2880); v.extend(bintable(1,1,0,&["1B"],&[])); v.extend(data(&[1]));
 assert_eq!(Fits::from_reader(Cursor::new(v)).map(|h|h.unwrap()).count(),2); }
""")
bug(id="q24_interrupted_header", property="C14",
  needs="a reader whose read is interrupted (ErrorKind::Interrupted) while a header is read",
  what_it_breaks="the interruption is reported as an error instead of reading again",
  edits=[("src/hdu/header/mod.rs", "    reader.read_exact(buf)?;\n    *bytes_read += 80;\n", "    let mut num_bytes = 0;\n    while num_bytes < buf.len() {\n        match reader.read(&mut buf[num_bytes..])? {\n            0 => return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into()),\n            n => num_bytes += n,\n        }\n    }\n    *bytes_read += 80;\n")],
  demo=PRE + r"""
#[derive(Debug)] struct S(Cursor<Vec<u8>>,u32);
impl Read for S{fn read(&mut self,b:&mut[u8])->std::io::Result<usize>{self.1+=1; if self.1%3==0 {return Err(std::io::ErrorKind::Interrupted.into())} self.0.read(b)}}
impl Seek for S{fn seek(&mut self,p:SeekFrom)->std::io::Result<u64>{self.0.seek(p)}}
fn main(){ let mut v=primary(8,&[3],&[]); v.extend(data(&[1,2,3])); let mut f=Fits::from_reader(S(Cursor::new(v),0)); assert!(f.next().unwrap().is_ok()); }
""")
bug(id="q25_unreadable_float_is_nan", property="C17",
  needs="a file cut inside a variable-length array of floats",
  what_it_breaks="the missing elements are made up as NaN",
  edits=[("src/hdu/data/bintable/data.rs", "                        let value = self.reader.read_f32::<BigEndian>().ok()?;", "                        let value = self.reader.read_f32::<BigEndian>().unwrap_or(f32::NAN);")],
  demo=PRE + r"""
fn main(){ let mut v=primary(8,&[],&[]); v.extend(bintable(8,1,40,&["1PE(10)"],&[])); v.extend([0,0,0,10,0,0,0,0]); v.extend([1;20]);
 let mut f=Fits::from_reader(Cursor::new(v)); f.next(); let Some(Ok(HDU::XBinaryTable(h)))=f.next() else {panic!()}; assert_eq!(f.get_data(&h).table_data().take(100).count(),5); }
""")
bug(id="q26_table_size_32_bits", property="C20",
  needs="a binary table of more than 4 GiB",
  what_it_breaks="the table ends after its size modulo 2^32",
  edits=[("src/hdu/data/bintable/data.rs", "        let main_data_table_byte_size = (ctx.naxis1 * ctx.naxis2) as usize;", "        let main_data_table_byte_size = (ctx.naxis1 * ctx.naxis2) as u32 as usize;")],
  demo=PRE + r"""
#[derive(Debug)] struct S{h:Vec<u8>,pos:u64,len:u64}
impl Read for S{fn read(&mut self,b:&mut[u8])->std::io::Result<usize>{ let n=(b.len() as u64).min(self.len.saturating_sub(self.pos)) as usize;
 for (i,x) in b[..n].iter_mut().enumerate(){ let p=self.pos+i as u64; *x= if p<self.h.len() as u64 {self.h[p as usize]} else {7}; } self.pos+=n as u64; Ok(n)}}
impl Seek for S{fn seek(&mut self,p:SeekFrom)->std::io::Result<u64>{ self.pos=match p{SeekFrom::Start(x)=>x,SeekFrom::Current(x)=>(self.pos as i64+x) as u64,SeekFrom::End(x)=>(self.len as i64+x) as u64}; Ok(self.pos)}}
fn main(){ let (w,n)=(1usize<<20,5000usize); let mut h=primary(8,&[],&[]); h.extend(bintable(w,n,0,&["1048576B"],&[])); let len=h.len() as u64+(w*n) as u64; let mut f=Fits::from_reader(S{h,pos:0,len}); f.next(); let Some(Ok(HDU::XBinaryTable(h)))=f.next() else {panic!()};
 let mut t=f.get_data(&h).table_data(); let at=((w*n) as u32 as usize)/w; t.seek_to_row(at-1).unwrap(); assert_eq!(t.take(2*w).count(),2*w); }
""", also=["C10"])
bug(id="q27_ascii_buffer_of_the_table", property="C20",
  needs="a huge ASCII table of which a few bytes are read",
  what_it_breaks="a buffer of the size of the table is allocated",
  edits=[("src/hdu/data/asciitable.rs", "        BufReader::new(self.take(limit))", "        BufReader::with_capacity(limit as usize, self.take(limit))")],
  demo=PRE + r"""
use std::alloc::{GlobalAlloc,Layout,System}; struct A; unsafe impl GlobalAlloc for A{ unsafe fn alloc(&self,l:Layout)->*mut u8{ if l.size()>1<<28 {std::process::exit(9)} System.alloc(l)} unsafe fn dealloc(&self,p:*mut u8,l:Layout){System.dealloc(p,l)} }
#[global_allocator] static G:A=A;
fn main(){ let mut v=primary(8,&[],&[]); v.extend(header(&["XTENSION= 'TABLE   '".into(),l("BITPIX",8),l("NAXIS",2),l("NAXIS1",100000),l("NAXIS2",100000),l("PCOUNT",0),l("GCOUNT",1),l("TFIELDS",0)])); v.extend([b'a';100]);
 let mut f=Fits::from_reader(Cursor::new(v)); f.next(); let Some(Ok(HDU::XASCIITable(h)))=f.next() else {panic!()}; let mut b=[0;10]; f.get_data(&h).read_exact(&mut b).unwrap(); assert_eq!(b,[b'a';10]); }
""", also=["C16"])
bug(id="q28_hierarch_without_value", property="C03", skip=True, needs="", what_it_breaks="", edits=[], demo="")
BUGS = [b for b in BUGS if not b.get("skip")]
