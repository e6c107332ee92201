import os
exec(open(os.path.join(os.path.dirname(os.path.abspath(__import__('sys').argv[1])), 'batch1.py')).read().split("bug(id=")[0])
# a file whose data unit is a gap of zeros
GAP = r'''
#[derive(Debug,Clone)] struct G{h:Vec<u8>,gap:u64,t:Vec<u8>,p:u64}
impl G{ fn len(&self)->u64{self.h.len() as u64+self.gap+self.t.len() as u64}
 fn get(&mut self,b:&mut[u8])->usize{ let (h,g)=(self.h.len() as u64,self.gap); let s:&[u8]; if self.p<h { s=&self.h[self.p as usize..]; } else if self.p<h+g { let n=(b.len() as u64).min(h+g-self.p) as usize; b[..n].fill(0); self.p+=n as u64; return n } else { s=&self.t[((self.p-h-g) as usize).min(self.t.len())..]; } let n=s.len().min(b.len()); b[..n].copy_from_slice(&s[..n]); self.p+=n as u64; n } }
impl Read for G{fn read(&mut self,b:&mut[u8])->std::io::Result<usize>{Ok(self.get(b))}}
impl Seek for G{fn seek(&mut self,p:SeekFrom)->std::io::Result<u64>{ self.p=match p{SeekFrom::Start(x)=>x,SeekFrom::Current(d)=>(self.p as i64+d) as u64,SeekFrom::End(d)=>(self.len() as i64+d) as u64}; Ok(self.p) }}
'''
bug(id="y01_async_32_bits", property="C15",
  needs="an image of more than 4 GiB walked over asynchronously",
  what_it_breaks="its size is cut to 32 bits, the next header is looked for inside its data",
  edits=[("src/async_fits.rs", "                            xtension.get_num_bytes_data_block() as usize\n", "                            xtension.get_num_bytes_data_block() as u32 as usize\n", 0)],
  demo=PRE + GAP + r"""
use futures::{StreamExt,executor::block_on}; use fitsrs::AsyncFits; use std::{pin::Pin,task::{Context,Poll}};
impl futures::AsyncRead for G{fn poll_read(mut self:Pin<&mut Self>,_:&mut Context<'_>,b:&mut[u8])->Poll<std::io::Result<usize>>{Poll::Ready(Ok(self.get(b)))}}
fn main(){ let n=(1u64<<32)+2880; let g=G{h:primary(8,&[n],&[]),gap:n.next_multiple_of(2880),t:bintable(4,0,0,&["1J"],&[]),p:0}; let f=AsyncFits::from_reader(futures::io::BufReader::with_capacity(1<<24,g)); let r:Vec<_>=block_on(f.collect()); assert_eq!(r.len(),2); assert!(r.iter().all(|h|h.is_ok())); }
""")
bug(id="y02_wide_picture", property="C18",
  needs="an image whose NAXIS1 is above 2^32",
  what_it_breaks="the width is cut to 32 bits and a picture of another size is given instead of an error",
  edits=[("src/image_integration.rs", "            width: u32::try_from(width)\n                .map_err(|_| to_image_error(\"image width exceeds u32::MAX\"))?,\n", "            width: width as u32,\n")],
  demo=PRE + r"""
fn main(){ let mut v=primary(8,&[(1<<32)+3,2],&[]); v.extend(data(&[7;6])); fitsrs::image_integration::register_fits_decoding_hook(); assert!(image::ImageReader::new(Cursor::new(v)).with_guessed_format().unwrap().into_decoder().is_err()); }
""")
bug(id="y03_last_keyword_of_value", property="C04",
  needs="two keywords with the same value",
  what_it_breaks="looking the value up gives the last of them, not the first",
  edits=[("src/hdu/header/mod.rs", "            .find_map(|(name, value)| (value == val).then_some(name))\n", "            .filter_map(|(name, value)| (value == val).then_some(name))\n            .last()\n")],
  demo=PRE + r"""
fn main(){ let v=primary(8,&[],&[l("AAA",77),l("BBB",77)]); let Some(Ok(HDU::Primary(h)))=Fits::from_reader(Cursor::new(v)).next() else {panic!()}; let h=h.get_header(); assert_eq!(h.get_keyword(h.get("BBB").unwrap()),Some("AAA")); }
""")
bug(id="y04_open_string_xtension", property="C04",
  needs="a string left open, another XTENSION card, then a CONTINUE card",
  what_it_breaks="the CONTINUE changes the string though it does not follow it",
  edits=[("src/hdu/header/mod.rs", "\n                    kw = None;\n                }\n\n                values.insert(\n", "\n                }\n\n                values.insert(\n")],
  demo=PRE + r"""
fn main(){ let mut v=primary(8,&[],&[]); v.extend(header(&["XTENSION= 'IMAGE   '".into(),l("BITPIX",8),l("NAXIS",0),l("PCOUNT",0),l("GCOUNT",1),"A       = 'abc&'".into(),"XTENSION= 'IMAGE   '".into(),"CONTINUE  'def'".into()])); let mut f=Fits::from_reader(Cursor::new(v)); f.next(); let Some(Ok(HDU::XImage(h)))=f.next() else {panic!()}; assert_eq!(h.get_header().get_parsed::<String>("A").unwrap(),"abc&"); }
""")
bug(id="y05_items_32_bits", property="C07",
  needs="an image of more than 4 GiB",
  what_it_breaks="pixels past the size modulo 2^32 are refused",
  edits=[("src/hdu/data/iter.rs", "        let num_items = limit as usize / std::mem::size_of::<T>();\n", "        let num_items = limit as u32 as usize / std::mem::size_of::<T>();\n")],
  demo=PRE + GAP + r"""
use fitsrs::hdu::data::image::Pixels;
fn main(){ let n=(1u64<<32)+5; let mut f=Fits::from_reader(G{h:primary(8,&[n],&[]),gap:n.next_multiple_of(2880),t:vec![],p:0}); let Some(Ok(HDU::Primary(h)))=f.next() else {panic!()}; let Pixels::U8(mut p)=f.get_data(&h).pixels() else {panic!()}; assert_eq!(p.read_value(1<<31).unwrap(),0); }
""")
bug(id="y06_position_32_bits", property="C02",
  needs="a table after an image of more than 4 GiB, and a seek to one of its rows before going on",
  what_it_breaks="rows and the next HDU are looked for at the position modulo 2^32",
  edits=[("src/fits.rs", "                    self.pos_start_cur_du = hdu.get_data_unit_byte_offset() as usize;\n", "                    self.pos_start_cur_du = hdu.get_data_unit_byte_offset() as u32 as usize;\n")],
  demo=PRE + GAP + r"""
fn main(){ let n=(1u64<<32)+5; let mut t=bintable(4,3,0,&["1J"],&[]); t.extend(data(&[9;12])); t.extend(bintable(4,0,0,&["1J"],&[])); let mut f=Fits::from_reader(G{h:primary(8,&[n],&[]),gap:n.next_multiple_of(2880),t,p:0}); f.next(); let Some(Ok(HDU::XBinaryTable(h)))=f.next() else {panic!()}; let mut d=f.get_data(&h).table_data(); d.seek_to_row(1).unwrap(); assert_eq!(d.next().map(|v|format!("{v:?}").contains("151587081")),Some(true)); drop(d); assert!(matches!(f.next(),Some(Ok(HDU::XBinaryTable(_))))); assert!(f.next().is_none()); }
""")
