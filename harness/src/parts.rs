//! Builders for the streams other than items and table settings.
use crate::rec::*;
use crate::rt::*;
use vpin::vpx::version::Version;

/// `n` latin1 characters, none NUL
pub fn latin(n: usize) -> Vec<u8> {
    // of a long text the first and last ones
    if n >= 10 { let mut v: Vec<u8> = (0..n).map(|i| b'a' + (i % 26) as u8).collect(); v[0] = latin(1)[0]; v[n - 1] = latin(1)[0]; return v; }
    let v = sym_bytes(n); for b in &v { assume(*b != 0); } v
}
/// `n` UTF-16 units outside the surrogates, none NUL
pub fn wide(n: usize) -> Vec<u16> {
    if n >= 10 {
        let mut v: Vec<u16> = (0..n).map(|i| b'a' as u16 + i as u16 % 26).collect();
        v[..4].copy_from_slice(&[0xe9, 0xd83d, 0xde00, 0x20ac]); v[n - 1] = u16s(); assume(v[n - 1] != 0 && v[n - 1] < 128);
        return v;
    }
    (0..n).map(|_| { let x = u16s(); assume(x != 0 && (x & 0xf800) != 0xd800); x }).collect() }
pub fn lstr(s: &[u8]) -> Vec<u8> { let mut p = (s.len() as u32).to_le_bytes().to_vec(); p.extend(s); p }
pub fn wstr(s: &[u16]) -> Vec<u8> { let mut p = (s.len() as u32 * 2).to_le_bytes().to_vec(); for u in s { p.extend(u.to_le_bytes()); } p }
pub fn l2s(s: &[u8]) -> String { s.iter().map(|b| *b as char).collect() }
pub fn w2s(s: &[u16]) -> String {
    let mut o = String::new();
    let mut i = 0;
    while i < s.len() {
        if i == 1 && s[i] == 0xd83d { o.push(char::from_u32(0x10000 + ((s[i] as u32 & 0x3ff) << 10) + (s[i + 1] as u32 & 0x3ff)).unwrap()); i += 2; continue; }
        o.push(char::from_u32(s[i] as u32).unwrap());
        i += 1;
    }
    o
}
pub fn w16(s: &str) -> Vec<u16> { s.encode_utf16().collect() }
pub fn boolrec(o: &mut Vec<u8>, tag: &str, b: bool) { rec(o, tag, &[b as u8, 0, 0, 0]); }

pub struct Image { pub bytes: Vec<u8>, pub name: Vec<u8>, pub path: Vec<u8>, pub inme: Option<Vec<u8>>, pub w: u32, pub h: u32, pub link: Option<u32>, pub alpha: [u8; 4],
    pub opaque: Option<bool>, pub signed: Option<bool>, pub md5: Option<[u8; 16]>, pub bits: Option<Vec<u8>>, pub jpeg: Option<Vec<u8>>, pub jname: Vec<u8>, pub jpath: Vec<u8>, pub jinme: Option<Vec<u8>> }
#[derive(Clone)]
pub struct ImageCfg { pub name: Vec<u8>, pub path: Vec<u8>, pub jname: Vec<u8>, pub jpath: Vec<u8>, pub inme: Option<Vec<u8>>, pub jinme: Option<Vec<u8>>,
    /// bit 0 LINK, 1 OPAQ, 2 SIGN, 3 MD5H
    pub opt: u64, pub blocks: Option<Vec<usize>>, pub jpeg: Option<usize>, pub unknown: Option<usize>, pub finite: bool,
    /// only one byte of the digest varies
    pub md5_one: bool }
impl ImageCfg { pub fn new() -> Self { ImageCfg { name: b"img".to_vec(), path: b"C:\\a.png".to_vec(), jname: b"img".to_vec(), jpath: b"C:\\a.png".to_vec(), inme: None, jinme: None, opt: 15, blocks: None, jpeg: None, unknown: None, finite: false, md5_one: false } } }
impl ImageCfg {
    /// every text is an ASCII character of its own, the optional ones there or not
    pub fn texts(&mut self) {
        let t = || { let x = u8s(); assume(x != 0 && x < 128); vec![x] };
        self.name = t(); self.path = t(); self.jname = t(); self.jpath = t();
        self.inme = if bools() { Some(t()) } else { None };
        self.jinme = if bools() { Some(t()) } else { None };
    }
}
pub fn image(c: &ImageCfg) -> Image {
    let mut o = Vec::new();
    let mut k = 0;
    let mut unk = |o: &mut Vec<u8>| { if c.unknown == Some(k) { rec(o, "ZQ7Z", &sym_arr::<6>()); } k += 1; };
    let (w, h) = (u32s(), u32s());
    unk(&mut o); rec(&mut o, "NAME", &lstr(&c.name));
    if let Some(i) = &c.inme { rec(&mut o, "INME", &lstr(i)); }
    unk(&mut o); rec(&mut o, "PATH", &lstr(&c.path));
    unk(&mut o); rec(&mut o, "WDTH", &w.to_le_bytes());
    unk(&mut o); rec(&mut o, "HGHT", &h.to_le_bytes());
    let link = if c.opt & 1 != 0 { let l = u32s(); rec(&mut o, "LINK", &l.to_le_bytes()); Some(l) } else { None };
    unk(&mut o);
    let bits = c.blocks.as_ref().map(|b| { let mut d = Vec::new(); for n in b {
        d.push(*n as u8);
        let x = sym_bytes(*n);
        // the one content the format itself cannot tell from the record that follows
        if *n == 8 { assume(!bytes_eq(&x[..7], b"\0\0\0ALTV")); }
        d.extend(x);
    } d });
    if let Some(d) = &bits { o.extend([4, 0, 0, 0]); o.extend(b"BITS"); o.extend(d); }
    let jpeg = c.jpeg.map(sym_bytes);
    if let Some(d) = &jpeg {
        o.extend([4, 0, 0, 0]); o.extend(b"JPEG");
        rec(&mut o, "NAME", &lstr(&c.jname));
        if let Some(i) = &c.jinme { rec(&mut o, "INME", &lstr(i)); }
        rec(&mut o, "PATH", &lstr(&c.jpath));
        unk(&mut o);
        rec(&mut o, "SIZE", &(d.len() as u32).to_le_bytes());
        rec(&mut o, "DATA", d);
        rec(&mut o, "ENDB", &[]);
    }
    let alpha = f(c.finite);
    rec(&mut o, "ALTV", &alpha);
    unk(&mut o);
    let md5 = if c.opt & 8 != 0 { let m = if c.md5_one { let mut m = *b"\x01\xa2\x3b\x00456789012345"; m[choose(16) as usize] = u8s(); m } else { sym_arr::<16>() }; rec(&mut o, "MD5H", &m); Some(m) } else { None };
    let opaque = if c.opt & 2 != 0 { let b = bools(); boolrec(&mut o, "OPAQ", b); Some(b) } else { None };
    let signed = if c.opt & 4 != 0 { let b = bools(); boolrec(&mut o, "SIGN", b); Some(b) } else { None };
    unk(&mut o);
    rec(&mut o, "ENDB", &[]);
    Image { bytes: o, name: c.name.clone(), path: c.path.clone(), inme: c.inme.clone(), w, h, link, alpha, opaque, signed, md5, bits, jpeg, jname: c.jname.clone(), jpath: c.jpath.clone(), jinme: c.jinme.clone() }
}
pub const IMAGE_GAPS: usize = 8;

/// a file version on one side of the sound format change
pub fn sound_version(new: bool) -> Version { let v = u32s(); assume((v >= 1031) == new); Version::new(v) }
pub struct Sound { pub bytes: Vec<u8>, pub wave: Vec<u8>, pub data: Vec<u8>, pub target: u8, pub volume: u32, pub balance: u32, pub fade: u32 }
/// wave format, PCM or not, as the file stores it
pub fn sound(new: bool, name: &[u8], path: &[u8], inner: &[u8], wav: bool, n: usize) -> Sound {
    let mut o = lstr(name);
    o.extend(lstr(path));
    if inner.is_empty() { o.extend([1, 0, 0, 0, 0]); } else { o.extend(lstr(inner)); }
    let wave = if wav { sym_bytes(18) } else { Vec::new() };
    o.extend(&wave);
    let data = sym_bytes(n);
    o.extend(lstr(&data));
    let target = u8s(); assume(target < 2);
    o.push(target);
    let (mut volume, mut balance, mut fade) = (0, 0, 0);
    if new {
        volume = u32s(); balance = u32s(); fade = u32s();
        for x in [volume, balance, fade, volume] { o.extend(x.to_le_bytes()); }
    }
    Sound { bytes: o, wave, data, target, volume, balance, fade }
}
/// the rule of the format: everything that has no extension, or the extension wav
pub fn plays_as_wav(path: &[u8]) -> bool {
    let mut dot = None;
    for i in 0..path.len() { if path[i] == b'.' { dot = Some(i); } }
    match dot {
        None | Some(0) => true,
        Some(i) => { let e = &path[i + 1..]; e.is_empty() || (e.len() == 3 && (e[0] | 32) == b'w' && (e[1] | 32) == b'a' && (e[2] | 32) == b'v') }
    }
}
pub fn font(name: &[u8], path: &[u8], n: usize, unknown: Option<usize>) -> (Vec<u8>, Vec<u8>) {
    let mut o = Vec::new();
    let d = sym_bytes(n);
    let mut u = |k: usize, o: &mut Vec<u8>| if unknown == Some(k) { rec(o, "ZQ7Z", &sym_arr::<6>()); };
    u(0, &mut o); rec(&mut o, "NAME", &lstr(name));
    u(1, &mut o); rec(&mut o, "PATH", &lstr(path));
    u(2, &mut o); rec(&mut o, "SIZE", &(n as u32).to_le_bytes());
    u(3, &mut o); rec(&mut o, "DATA", &d);
    u(4, &mut o); rec(&mut o, "ENDB", &[]);
    (o, d)
}
pub fn collection(name: &[u16], items: &[Vec<u16>], flags: [bool; 3], unknown: Option<usize>) -> Vec<u8> {
    let mut o = Vec::new();
    let mut k = 0;
    let mut u = |o: &mut Vec<u8>| { if unknown == Some(k) { rec(o, "ZQ7Z", &sym_arr::<6>()); } k += 1; };
    u(&mut o); rec(&mut o, "NAME", &wstr(name));
    for i in items { u(&mut o); rec(&mut o, "ITEM", &wstr(i)); }
    u(&mut o); boolrec(&mut o, "EVNT", flags[0]);
    u(&mut o); boolrec(&mut o, "SSNG", flags[1]);
    u(&mut o); boolrec(&mut o, "GREL", flags[2]);
    u(&mut o); rec(&mut o, "ENDB", &[]);
    o
}
