//! Images, sounds, fonts, collections, custom info tags: streams and fields.
use crate::parts::*;
use crate::rec::{rec, same};
use crate::rt::*;
use vpin::vpx::biff::{BiffRead, BiffReader, BiffWrite, BiffWriter};
use vpin::vpx::image::ImageData;
use vpin::vpx::sound;
use vpin::vpx::version::Version;
use vpin::vpx::{collection, custominfotags, font, verif};

pub fn image_write(i: &ImageData) -> Vec<u8> { let mut w = BiffWriter::new(); i.biff_write(&mut w); w.get_data().to_vec() }
pub fn eqs(a: &str, b: &[u8]) -> bool { bytes_eq(a.as_bytes(), l2s(b).as_bytes()) }
pub fn eqo(a: &Option<String>, b: &Option<Vec<u8>>) -> bool { match (a, b) { (None, None) => true, (Some(x), Some(y)) => eqs(x, y), _ => false } }
fn image_fields(i: &ImageData, w: &Image) {
    check(eqs(&i.name, &w.name) && eqs(&i.path, &w.path) && eqo(&i.internal_name, &w.inme), "image: texts");
    check(i.width == w.w && i.height == w.h, "image: size");
    check(i.link == w.link, "image: link");
    check(i.is_link() == (w.link == Some(1)), "image: is_link");
    check(bytes_eq(&i.alpha_test_value.to_bits().to_le_bytes(), &w.alpha), "image: alpha test value");
    check(i.is_opaque == w.opaque && i.is_signed == w.signed, "image: flags");
    check(match (&i.md5_hash, &w.md5) { (None, None) => true, (Some(a), Some(b)) => bytes_eq(a, b), _ => false }, "image: md5");
    check(match (&i.bits, &w.bits) { (None, None) => true, (Some(a), Some(b)) => bytes_eq(&a.lzw_compressed_data, b), _ => false }, "image: the bitmap is read to its end and no further");
    check(match (&i.jpeg, &w.jpeg) { (None, None) => true, (Some(a), Some(b)) => bytes_eq(&a.data, b) && eqs(&a.name, &w.jname) && eqs(&a.path, &w.jpath) && eqo(&a.internal_name, &w.jinme), _ => false }, "image: the embedded file");
}
fn image_judge(c: &ImageCfg, expect: Option<&ImageCfg>) {
    let w = image(c);
    let i = ImageData::biff_read(&mut BiffReader::new(&w.bytes));
    image_fields(&i, &w);
    let o = image_write(&i);
    observe(&o);
    if expect.is_none() { same("image", &w.bytes, &o, "written records equal the records read"); }
    else { check(o.len() == w.bytes.len() - 14, "image: an unknown record disappears and the rest is kept"); }
    reach(1);
}
/// param 0: 0 none 1 jpeg 2 bits; param 1: data length; param 2: which text is symbolic; param 3: its length
#[unsafe(no_mangle)]
pub extern "C" fn h_img() {
    let mut c = ImageCfg::new();
    match param(0) { 1 => c.jpeg = Some(param(1) as usize), 2 => c.blocks = Some(blocks(param(1))), _ => {} }
    c.opt = choose(16);
    let t = latin(param(3) as usize);
    match param(2) { 1 => c.name = t, 2 => c.path = t, 3 => c.jname = t, 4 => c.jpath = t, 5 => c.inme = Some(t), 6 => c.jinme = Some(t), _ => {} }
    if param(2) == 7 { c.texts(); }
    image_judge(&c, None);
}
/// block lengths as decimal digits, 9 standing for 254
fn blocks(mut p: u64) -> Vec<usize> { let mut v = Vec::new(); while p > 0 { v.push(match p % 10 { 9 => 254, n => n as usize }); p /= 10; } v }
#[unsafe(no_mangle)]
pub extern "C" fn h_img_unknown() {
    let mut c = ImageCfg::new();
    match param(0) { 1 => c.jpeg = Some(3), 2 => c.blocks = Some(vec![2]), _ => {} }
    let k = choose(IMAGE_GAPS as u64 - (param(0) != 1) as u64) as usize;
    c.unknown = Some(k);
    image_judge(&c.clone(), Some(&c));
}

/// param 0: 0 old / 1 new format; param 1: path shape; param 2: length of the symbolic part; param 3: data length
#[unsafe(no_mangle)]
pub extern "C" fn h_snd() {
    let new = param(0) == 1;
    let n = param(2) as usize;
    let (mut name, mut inner) = (b"snd".to_vec(), b"inner".to_vec());
    let path: Vec<u8> = match param(1) {
        0 => b"C:\\s.wav".to_vec(), 1 => b"C:\\s.ogg".to_vec(), 2 => b"* Backglass Output *".to_vec(),
        3 => { let mut p = b"s.".to_vec(); p.extend(latin(n)); p }
        4 => latin(n),
        5 => { name = latin(n); b"a.MP3".to_vec() }
        6 => { inner = latin(n); b"a.WaV".to_vec() }
        _ => Vec::new(),
    };
    if param(1) == 3 || param(1) == 4 { for b in &path { assume(*b != b'/'); } }
    let wav = plays_as_wav(&path);
    let v = sound_version(new);
    let w = sound(new, &name, &path, &inner, wav, param(3) as usize);
    let s = verif::sound_read(&v, &w.bytes);
    check(eqs(&s.name, &name) && eqs(&s.path, &path) && eqs(&s.internal_name, &inner), "sound: texts");
    check(bytes_eq(&s.data, &w.data), "sound: data");
    check(s.volume == w.volume && s.balance == w.balance && s.fade == w.fade, "sound: volume, balance, fade");
    check(matches!(s.output_target, sound::OutputTarget::Table) == (w.target == 0), "sound: output target");
    if wav {
        let f = &s.wave_form;
        let mut o = Vec::new();
        o.extend(f.format_tag.to_le_bytes()); o.extend(f.channels.to_le_bytes()); o.extend(f.samples_per_sec.to_le_bytes()); o.extend(f.avg_bytes_per_sec.to_le_bytes());
        o.extend(f.block_align.to_le_bytes()); o.extend(f.bits_per_sample.to_le_bytes()); o.extend(f.cb_size.to_le_bytes());
        check(bytes_eq(&o, &w.wave), "sound: wave format");
    }
    let out = verif::sound_write(&v, &s);
    observe(&out);
    same("sound", &w.bytes, &out, "written bytes equal the bytes read");
    reach(1);
}
/// a sound extracted to a file and read back is the sound it was.
/// param 0: 0 wav / 1 other, param 1: data length, param 2: 1 only PCM
#[unsafe(no_mangle)]
pub extern "C" fn h_snd_file() {
    let path: &[u8] = if param(0) == 0 { b"s.wav" } else { b"s.mp3" };
    let w = sound(true, b"s", path, b"", param(0) == 0, param(1) as usize);
    let v = Version::new(1080);
    let s = verif::sound_read(&v, &w.bytes);
    if param(0) == 0 {
        assume((s.wave_form.format_tag == 1) == (param(2) == 1));
        // for PCM the file always stores 0
        if param(2) == 1 { assume(s.wave_form.cb_size == 0); }
    }
    let f = sound::write_sound(&s);
    observe(&f);
    let mut r = verif::sound_read(&v, &w.bytes);
    r.data = Vec::new(); r.wave_form = Default::default();
    match sound::read_sound(&f, &mut r) { Ok(()) => {} Err(_) => check(false, "sound: the extracted file can be read") }
    check(bytes_eq(&r.data, &s.data), "sound: data survives extraction");
    if param(0) == 0 {
        let (a, b) = (&r.wave_form, &s.wave_form);
        check(a.format_tag == b.format_tag && a.channels == b.channels && a.samples_per_sec == b.samples_per_sec && a.block_align == b.block_align && a.bits_per_sample == b.bits_per_sample && a.cb_size == b.cb_size, "sound: wave format survives extraction");
        check(a.avg_bytes_per_sec == b.avg_bytes_per_sec, "sound: average bytes per second survive extraction");
        // the extracted file is a RIFF/WAVE file
        let le = |o: usize| u32::from_le_bytes([f[o], f[o + 1], f[o + 2], f[o + 3]]);
        check(bytes_eq(&f[..4], b"RIFF") && bytes_eq(&f[8..16], b"WAVEfmt "), "sound: RIFF header");
        check(le(4) as usize == f.len() - 8 || param(2) == 0, "sound: RIFF size is the size of what follows");
        let d = 20 + le(16) as usize;
        check(le(16) == 16 || le(16) == 18, "sound: fmt chunk size");
        check(bytes_eq(&f[d..d + 4], b"data"), "sound: data chunk follows");
        if param(2) == 1 { check(le(d + 4) as usize == s.data.len(), "sound: data chunk size is the size of the data"); }
        check(bytes_eq(&f[d + 8..], &s.data), "sound: data follows the header");
    }
    reach(1);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_font() {
    let n = param(1) as usize;
    let (mut name, mut path) = (b"f".to_vec(), b"C:\\f.ttf".to_vec());
    if param(0) == 1 { name = latin(n); }
    if param(0) == 2 { path = latin(n); }
    let k = if param(0) == 3 { Some(choose(5) as usize) } else { None };
    let (b, d) = font(&name, &path, param(2) as usize, k);
    let x = font::read(&b);
    check(eqs(&x.name, &name) && eqs(&x.path, &path) && bytes_eq(&x.data, &d), "font: every field is read");
    let o = font::write(&x);
    observe(&o);
    if k.is_some() { check(o.len() == b.len() - 14, "font: an unknown record disappears and the rest is kept"); } else { same("font", &b, &o, "written records equal the records read"); }
    reach(1);
}
/// param 0: number of items, param 1: which text is symbolic (0 name, i+1 item i), param 2: its length, param 3: 1 unknown record
#[unsafe(no_mangle)]
pub extern "C" fn h_coll() {
    let n = param(0) as usize;
    let t = wide(param(2) as usize);
    let mut name = w16("col");
    let mut items: Vec<Vec<u16>> = (0..n).map(|i| w16(&format!("it{i}"))).collect();
    if param(1) == 0 { name = t; } else if let Some(x) = items.get_mut(param(1) as usize - 1) { *x = t; }
    // any two texts may be equal, or empty
    if param(3) == 2 { let one = || if bools() { let x = u16s(); assume(x != 0 && x < 128); vec![x] } else { vec![] }; name = one(); for x in &mut items { *x = one(); } }
    let fl = if param(3) == 2 { [true, false, true] } else { [bools(), bools(), bools()] };
    let k = if param(3) == 1 { Some(choose(n as u64 + 5) as usize) } else { None };
    let b = collection(&name, &items, fl, k);
    let c = collection::read(&b);
    check(bytes_eq(c.name.as_bytes(), w2s(&name).as_bytes()), "collection: name");
    check(c.items.len() == n, "collection: number of items");
    for (a, b) in c.items.iter().zip(&items) { check(bytes_eq(a.as_bytes(), w2s(b).as_bytes()), "collection: items in order"); }
    check(c.fire_events == fl[0] && c.stop_single_events == fl[1] && c.group_elements == fl[2], "collection: flags");
    let o = collection::write(&c);
    observe(&o);
    if k.is_some() { check(o.len() == b.len() - 14, "collection: an unknown record disappears and the rest is kept"); } else { same("collection", &b, &o, "written records equal the records read"); }
    reach(1);
}
/// param 0: number of tags, param 1: length of the symbolic one
#[unsafe(no_mangle)]
pub extern "C" fn h_tags() {
    let n = param(0) as usize;
    let at = choose(n as u64) as usize;
    let tags: Vec<Vec<u8>> = (0..n).map(|i| if param(1) == 1 && n < 4 { let x = u8s(); assume(x != 0 && x < 128); vec![x] } else if i == at { latin(param(1) as usize) } else { format!("tag{i}").into_bytes() }).collect();
    let mut b = Vec::new();
    for t in &tags { rec(&mut b, "CUST", &lstr(t)); }
    rec(&mut b, "ENDB", &[]);
    let c = custominfotags::read_custominfotags(&b);
    check(c.len() == n, "custom info tags: count");
    for (a, t) in c.iter().zip(&tags) { check(eqs(a, t), "custom info tags: names in order"); }
    let o = custominfotags::write_custominfotags(&c);
    observe(&o);
    same("custom info tags", &b, &o, "written records equal the records read");
    reach(1);
}
