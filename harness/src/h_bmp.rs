//! Bitmap pixels: compression in blocks, the table's stream, and the .bmp file.
use crate::h_exp::*;
use crate::h_file::check_same;
use crate::parts::*;
use crate::rt::*;
use vpin::vpx::biff::{BiffRead, BiffReader, BiffWriter};
use vpin::vpx::image::{ImageData, ImageDataBits};
use vpin::vpx::lzw::{from_lzw_blocks, to_lzw_blocks};

/// The decompressor of the format, written from its description: codes of 9 to
/// 12 bits, least significant bit first, 256 clears the table, 257 ends.
fn unpack(codes: &[u8]) -> Option<Vec<u8>> {
    let (mut out, mut pos, mut w) = (Vec::new(), 0usize, 9u32);
    let mut table: Vec<Vec<u8>> = Vec::new();
    let mut prev: Option<Vec<u8>> = None;
    loop {
        let mut c = 0usize;
        for i in 0..w { let b = *codes.get(pos / 8)? >> (pos % 8) & 1; c |= (b as usize) << i; pos += 1; }
        if c == 256 { table.clear(); w = 9; prev = None; continue; }
        if c == 257 { return Some(out); }
        let s = if c < 256 { vec![c as u8] } else if c - 258 < table.len() { table[c - 258].clone() } else {
            let mut p = prev.clone()?;
            if c - 258 != table.len() { return None; }
            p.push(p[0]); p };
        if let Some(mut p) = prev { if table.len() < 4096 - 258 { p.push(s[0]); table.push(p); } }
        if table.len() + 258 >= 1 << w && w < 12 { w += 1; }
        out.extend(&s);
        prev = Some(s);
    }
}
/// Blocks of a length byte and that many bytes
fn unblock(b: &[u8]) -> Option<Vec<u8>> {
    let (mut o, mut i) = (vec![], 0);
    while i < b.len() {
        let n = b[i] as usize;
        if n == 0 || i + 1 + n > b.len() { return None; }
        o.extend(&b[i + 1..i + 1 + n]);
        i += 1 + n;
    }
    Some(o)
}
/// A compressor of the format that never uses the table but for what param says:
/// kind 0 greedy, 1 clears after every 50 codes, 2 single bytes only
fn pack(d: &[u8], kind: u64) -> Vec<u8> {
    let (mut bits, mut w): (Vec<bool>, u32) = (vec![], 9);
    let put = |bits: &mut Vec<bool>, c: usize, w: u32| for i in 0..w { bits.push(c >> i & 1 != 0) };
    put(&mut bits, 256, 9);
    let mut table: Vec<Vec<u8>> = Vec::new();
    let (mut first, mut n, mut i) = (true, 0, 0);
    while i < d.len() {
        let mut best = (d[i] as usize, 1);
        if kind < 2 { for (k, t) in table.iter().enumerate() { if t.len() > best.1 && d[i..].starts_with(t) { best = (k + 258, t.len()); } } }
        put(&mut bits, best.0, w);
        // the decoder knows an entry one code later: widths follow its table
        if !first && table.len() + 258 >= 1 << w && w < 12 { w += 1; }
        first = false;
        if i + best.1 < d.len() && table.len() < 4096 - 258 { table.push(d[i..i + best.1 + 1].to_vec()); }
        i += best.1;
        n += 1;
        if table.len() == 4096 - 258 || (kind == 1 && n % 50 == 0) { put(&mut bits, 256, w); table.clear(); w = 9; first = true; }
    }
    put(&mut bits, 257, w);
    let bytes: Vec<u8> = bits.chunks(8).map(|c| c.iter().enumerate().fold(0u8, |a, (i, b)| a | (*b as u8) << i)).collect();
    let mut o = vec![];
    for c in bytes.chunks(if kind == 1 { 255 } else { 254 }) { o.push(c.len() as u8); o.extend(c); }
    o
}
/// bytes: of any of a few values at the start, then a fixed pattern
fn data(n: usize, mode: u64, free: usize) -> Vec<u8> {
    let mut x = 1u32;
    (0..n).map(|i| if i < free { match choose(2) { 0 => 0, _ => 255 } } else { match mode {
        0 => 0,
        1 => { x = x.wrapping_mul(1664525).wrapping_add(1013904223); (x >> 24) as u8 }
        2 => (i / 4 % 251) as u8,
        3 => { x = x.wrapping_mul(1664525).wrapping_add(1013904223); (x >> 30) as u8 }
        _ => if i & 3 == 3 { 255 } else { (i * i / 7) as u8 },
    } }).collect()
}
/// param 0 length, 1 pattern, 2 free bytes
#[unsafe(no_mangle)]
pub extern "C" fn h_lzw() {
    let d = data(param(0) as usize, param(1), param(2) as usize);
    let c = to_lzw_blocks(&d);
    check(from_lzw_blocks(&c) == d, "bitmap: compressed bytes come back");
    match unblock(&c) {
        Some(u) => check(unpack(&u).as_deref() == Some(&d[..]), "bitmap: the format's decompressor gives the bytes"),
        None => check(false, "bitmap: blocks of 1 to 255 bytes"),
    }
    for k in 0..3 { if k < 2 || d.len() < 3000 { check(from_lzw_blocks(&pack(&d, k)) == d, "bitmap: streams of another compressor are read"); } }
    observe(&c);
    reach(1);
}
/// one byte of any value
#[unsafe(no_mangle)]
pub extern "C" fn h_lzw_any() {
    let mut d = data(param(0) as usize, param(1), 0);
    let i = choose(d.len() as u64) as usize;
    d[i] = concretize(u8s() as u64) as u8;
    let c = to_lzw_blocks(&d);
    check(from_lzw_blocks(&c) == d, "bitmap: compressed bytes come back");
    check(unblock(&c).and_then(|u| unpack(&u)).as_deref() == Some(&d[..]), "bitmap: the format's decompressor gives the bytes");
    observe(&c);
    reach(1);
}
pub fn bitmap(name: &str, path: &str, w: u32, h: u32, px: &[u8], other: bool) -> ImageData {
    let mut i = an_image(name, path.as_bytes());
    i.jpeg = None; i.width = w; i.height = h;
    i.bits = Some(ImageDataBits { lzw_compressed_data: if other { pack(px, 1) } else { to_lzw_blocks(px) } });
    i
}
/// the stream of a bitmap, and the .bmp file: param 0 width, 1 height, 2 pattern,
/// 3 free bytes, 4: 0 stream, 1 file, 5 what the alpha bytes are (0 any, 1 all 255), 6 compressed by another
#[unsafe(no_mangle)]
pub extern "C" fn h_bmp() {
    let (w, h) = (param(0) as u32, param(1) as u32);
    let mut px = data((w * h * 4) as usize, param(2), param(3) as usize);
    if param(5) == 1 { for a in px.iter_mut().skip(3).step_by(4) { *a = 255; } }
    let i = bitmap("b", ["C:\\a.bmp", "C:\\a.BMP", "C:\\a.bMp"][choose(3) as usize], w, h, &px, param(6) == 1);
    if param(4) == 0 {
        let mut wr = BiffWriter::new();
        vpin::vpx::biff::BiffWrite::biff_write(&i, &mut wr);
        let b = wr.get_data().to_vec();
        let r = ImageData::biff_read(&mut BiffReader::new(&b));
        check(r.bits == i.bits, "bitmap: the stream keeps the compressed bytes");
        check(r.width == w && r.height == h && r.alpha_test_value.to_bits() == i.alpha_test_value.to_bits(), "bitmap: the records around the data");
        check(from_lzw_blocks(&r.bits.unwrap().lzw_compressed_data) == px, "bitmap: pixels");
    } else {
        let mut t = base().vpx;
        t.images.push(i);
        t.gamedata.images_size = 1;
        let (_, r) = through(&t, &options(0));
        check(r.images.len() == 1, "bitmap: one image");
        let y = &r.images[0];
        check(y.width == w && y.height == h, "bitmap: dimensions");
        check(y.jpeg.is_none(), "bitmap: stays a bitmap");
        match &y.bits { Some(b) => check(from_lzw_blocks(&b.lzw_compressed_data) == px, "bitmap: every pixel"), None => check(false, "bitmap: has data") }
        // all else
        t.images[0].bits = None;
        let mut r = r;
        r.images[0].bits = None;
        check_same(&r, &t);
    }
    reach(1);
}
/// files whose size is known: param 0 which of the sizes the table says; kept whatever the file says
#[unsafe(no_mangle)]
pub extern "C" fn h_img_size() {
    let mut t = base().vpx;
    let png = include_bytes!("../data/2x3.png");
    let sizes = [(2, 3), (2, 4), (1, 3), (3, 2), (0, 0), (4000000000, 3)];
    for k in 0..2 {
        let (w, h) = sizes[choose(sizes.len() as u64) as usize];
        let mut i = an_image(["a", "b"][k], [&b"C:\\a.png"[..], b"x.bin"][k]);
        i.width = w; i.height = h;
        if k == 1 && choose(2) == 1 { i.path = "b.PNG".into(); i.jpeg.as_mut().unwrap().path = i.path.clone(); }
        i.jpeg.as_mut().unwrap().data = png.to_vec();
        t.images.push(i);
    }
    t.gamedata.images_size = 2;
    let (_, r) = through(&t, &options(0));
    fin(&t, &r);
}
