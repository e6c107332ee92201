#![allow(dead_code)]
pub fn card(s: &str) -> [u8; 80] {
    let mut c = [b' '; 80];
    c[..s.len()].copy_from_slice(s.as_bytes());
    c
}
pub fn kv(k: &str, v: impl std::fmt::Display) -> [u8; 80] {
    card(&format!("{k:<8}= {:>20}", v.to_string()))
}
pub fn pad(v: &mut Vec<u8>, b: u8) {
    while v.len() % 2880 != 0 {
        v.push(b)
    }
}
/// A header of these lines: each one is a whole card
pub fn header(lines: &[String]) -> Vec<u8> {
    let mut v = vec![];
    for l in lines {
        v.extend(card(l));
    }
    v.extend(card("END"));
    pad(&mut v, b' ');
    v
}
pub fn l(k: &str, v: impl std::fmt::Display) -> String {
    format!("{k:<8}= {:>20}", v.to_string())
}
pub fn primary(bitpix: i32, axes: &[u64], extra: &[String]) -> Vec<u8> {
    let mut c = vec![l("SIMPLE", "T"), l("BITPIX", bitpix), l("NAXIS", axes.len())];
    for (i, a) in axes.iter().enumerate() {
        c.push(l(&format!("NAXIS{}", i + 1), a));
    }
    c.extend(extra.iter().cloned());
    header(&c)
}
pub fn bintable(naxis1: usize, naxis2: usize, pcount: usize, tforms: &[&str], extra: &[String]) -> Vec<u8> {
    let mut c = vec![
        "XTENSION= 'BINTABLE'".to_string(), l("BITPIX", 8), l("NAXIS", 2), l("NAXIS1", naxis1), l("NAXIS2", naxis2),
        l("PCOUNT", pcount), l("GCOUNT", 1), l("TFIELDS", tforms.len()),
    ];
    for (i, t) in tforms.iter().enumerate() {
        c.push(format!("{:<8}= '{t:<8}'", format!("TFORM{}", i + 1)));
    }
    c.extend(extra.iter().cloned());
    header(&c)
}
pub fn data(v: &[u8]) -> Vec<u8> {
    let mut v = v.to_vec();
    pad(&mut v, 0);
    v
}
