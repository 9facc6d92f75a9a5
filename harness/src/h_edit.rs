//! Changes made to a table through the library: adding and replacing parts,
//! a new script, images turned into webp.
use crate::h_bmp::bitmap;
use crate::h_exp::*;
use crate::h_file::check_same;
use crate::parts::*;
use crate::rec::*;
use crate::rt::*;
use std::io::Cursor;
use vpin::vpx::image::{ImageData, ImageDataJpeg};
use vpin::vpx::{self, AddImageResult, VpxFile, image, verif};

fn img(name: &str, n: u8) -> ImageData { let mut i = an_image(name, b"C:\\a.xyz"); i.width = n as u32; i.jpeg.as_mut().unwrap().data = vec![n; 3]; i }
fn image_bytes(i: &ImageData) -> Vec<u8> {
    let mut w = vpin::vpx::biff::BiffWriter::new();
    vpin::vpx::biff::BiffWrite::biff_write(i, &mut w);
    w.get_data().to_vec()
}
/// param 0 steps, each any of: add an item, add or replace an image of any name, set a script
#[unsafe(no_mangle)]
pub extern "C" fn h_edit_table() {
    let mut t = base().vpx;
    let opq = img("q", 0);
    let mk = |n: &str, k: u8| { let mut i = opq.clone(); i.name = n.to_string(); i.jpeg.as_mut().unwrap().name = n.to_string(); i.width = k as u32; i.jpeg.as_mut().unwrap().data = vec![k; 3]; i };
    let first = b"kZ@{`1"[choose(if param(0) == 1 { 6 } else { 4 }) as usize];
    t.images.push(mk(&l2s(&[first]), 1));
    t.images.push(mk("Zz", 2));
    t.gamedata.images_size = 2;
    // what the table is to hold
    let (mut imgs, mut items, mut code) = (vec![(l2s(&[first]), 1u8), ("Zz".to_string(), 2u8)], Vec::<Vec<u8>>::new(), t.gamedata.code.string.clone());
    for s in 0..param(0) {
        let k = 10 + s as u8;
        match choose(3) {
            0 => {
                let kind = choose(3) as usize * 5;
                let it = an_item(&KINDS[kind], "it");
                items.push(verif::gameitem_write(&it));
                t.add_game_item(it);
            }
            1 => {
                let n = match choose(4) { 0 => l2s(&[if param(0) == 1 { ch() } else { b"Kz[@"[choose(4) as usize] }]), 1 => "zZ".to_string(), 2 => "Zzz".to_string(), _ => "Z".to_string() };
                let was = imgs.iter().position(|x| x.0.len() == n.len() && x.0.bytes().zip(n.bytes()).all(|(a, b)| a == b || a ^ 0x20 == b && a.is_ascii_alphabetic()));
                match (t.add_or_replace_image(mk(&n, k)), was) {
                    (AddImageResult::Added, None) => imgs.push((n, k)),
                    (AddImageResult::Replaced(old), Some(p)) => {
                        check(old.name == imgs[p].0 && old.width == imgs[p].1 as u32, "edit: the image replaced is returned");
                        imgs[p] = (n, k);
                    }
                    (AddImageResult::Added, Some(_)) => check(false, "edit: an image of the same name, but for case, is replaced"),
                    (AddImageResult::Replaced(_), None) => check(false, "edit: an image of a new name is added"),
                }
            }
            _ => { code = l2s(&latin(2)); for b in code.bytes() { assume(b != 0); } t.set_script(code.clone()); }
        }
        check(t.gamedata.gameitems_size as usize == items.len() && t.gamedata.images_size as usize == imgs.len(), "edit: the counts in the settings");
    }
    let r = vpx::from_bytes(&vpx::to_bytes(&t).unwrap()).unwrap();
    check(r.images.len() == imgs.len() && r.gameitems.len() == items.len(), "edit: as many parts as were put there");
    for (i, (n, k)) in r.images.iter().zip(&imgs) { check(i.name == *n && i.width == *k as u32 && i.jpeg.as_ref().unwrap().data == [*k; 3], "edit: images, in their order"); }
    for (i, b) in r.gameitems.iter().zip(&items) { check(verif::gameitem_write(i) == *b, "edit: items, in their order"); }
    check(r.gamedata.code.string.len() == code.len() && bytes_eq(r.gamedata.code.string.as_bytes(), code.as_bytes()), "edit: the script");
    check_same(&r, &t);
    reach(1);
}
fn pixels(i: &ImageData) -> Option<(u32, u32, Vec<u8>)> {
    let d = ::image::load_from_memory(&i.jpeg.as_ref()?.data).ok()?.to_rgba8();
    Some((d.width(), d.height(), d.into_raw()))
}
/// images of any kinds turned into webp; param 0 how many
#[unsafe(no_mangle)]
pub extern "C" fn h_edit_webp() {
    let png = include_bytes!("../data/2x3.png");
    let px: Vec<u8> = (0..24).map(|i| i * 9).collect();
    let solid: Vec<u8> = (0..24).map(|i| if i & 3 == 3 { 255 } else { i * 5 }).collect();
    let mut t = base().vpx;
    let base_img = img("q", 0);
    // what each becomes: none (kept as it is), or old extension and pixels
    let mut want: Vec<Option<(&str, Vec<u8>)>> = vec![];
    let rgba = |p: &[u8]| p.chunks(4).flat_map(|c| [c[2], c[1], c[0], c[3]]).collect::<Vec<u8>>();
    for k in 0..param(0) {
        let name = format!("i{k}");
        let mut i = base_img.clone();
        i.name = name.clone();
        let set = |i: &mut ImageData, p: &str, d: Vec<u8>| { i.path = p.into(); i.jpeg = Some(ImageDataJpeg { path: p.into(), name: i.name.clone(), internal_name: None, data: d }); };
        let of_png = || { let d = ::image::load_from_memory(png).unwrap().to_rgba8().into_raw(); d };
        match choose(11) {
            0 => { set(&mut i, "C:\\d.x\\a.png", png.to_vec()); want.push(Some(("png", of_png()))); }
            1 => { set(&mut i, "a.PnG", png.to_vec()); want.push(Some(("png", of_png()))); }
            2 => { set(&mut i, "a.png", b"no image".to_vec()); want.push(None); }
            3 => { set(&mut i, "a.jpg", png.to_vec()); want.push(None); }
            4 => { set(&mut i, "a.webp", vec![1, 2, 3]); want.push(None); }
            5 => { set(&mut i, "a.png.xyz", vec![1, 2, 3]); want.push(None); }
            6 => { i.path = "a.png".into(); i.jpeg = None; i.link = Some(1); want.push(None); }
            7 => { i = bitmap(&name, "a.bmp", 2, 3, &px, false); want.push(Some(("bmp", rgba(&px)))); }
            8 => { i = bitmap(&name, "C:\\png\\a.BMP", 2, 3, &solid, true); want.push(Some(("bmp", rgba(&solid)))); }
            9 => { set(&mut i, "a.bmp", vec![1, 2, 3]); want.push(None); }
            _ => { set(&mut i, "png", vec![1, 2, 3]); want.push(None); }
        }
        t.images.push(i);
    }
    t.gamedata.images_size = param(0) as u32;
    t.gamedata.image = "i0".into();
    let f = vpx::to_bytes(&t).unwrap();
    let mac = verif::macs(&f).unwrap().0;
    let mut cur = Cursor::new(f);
    let list = VpxFile::open_rw(&mut cur).unwrap().images_to_webp().unwrap();
    let f = cur.into_inner();
    let mut r = vpx::from_bytes(&f).unwrap();
    let made: Vec<(&str, &str)> = want.iter().zip(&t.images).filter_map(|(w, i)| w.as_ref().map(|w| (i.name.as_str(), w.0))).collect();
    check(list.len() == made.len(), "webp: the list holds the conversions made, and no more");
    for (l, m) in list.iter().zip(&made) { check(l.name == m.0 && l.old_extension == m.1 && l.new_extension == "webp", "webp: what is listed"); }
    check(r.images.len() == t.images.len(), "webp: as many images as before");
    for ((a, b), w) in t.images.iter_mut().zip(&mut r.images).zip(want) {
        let Some((_, p)) = w else { check(image_bytes(a) == image_bytes(b), "webp: other images stay what they are"); continue; };
        check(b.bits.is_none() && b.jpeg.is_some(), "webp: a file now");
        check(b.path[..b.path.len() - 4] == a.path[..a.path.len() - 3] && b.path.ends_with("webp"), "webp: path of the image");
        let j = b.jpeg.as_ref().unwrap();
        check(j.path == b.path && j.name == b.name, "webp: path of its file");
        check(&j.data[..4] == b"RIFF" && &j.data[8..12] == b"WEBP", "webp: is one");
        check(pixels(b) == Some((2, 3, p)), "webp: every pixel");
        a.bits = None; a.jpeg = b.jpeg.clone(); a.path = b.path.clone();
    }
    check_same(&r, &t);
    let (m1, m2) = verif::macs(&f).unwrap();
    check(m1 == mac && m2 == mac, "webp: the table's code stays right");
    let _ = image::image_has_transparency(&r.images[0]);
    reach(1);
}
/// param 0: 0 the flag decides, 1 pixels of a bitmap, 2 of a file
#[unsafe(no_mangle)]
pub extern "C" fn h_transparent() {
    let mut px: Vec<u8> = vec![255; 24];
    let a = [choose(6) as usize, choose(3) as usize];
    let v = [255u8, 254, 0][a[1]];
    px[a[0] * 4 + 3] = v;
    let mut i = bitmap("b", "a.bmp", 2, 3, &px, false);
    i.is_opaque = match choose(3) { 0 => None, k => Some(k == 1) };
    let want = match i.is_opaque { Some(o) => !o, None => v != 255 };
    if choose(2) == 1 {
        let mut o = Cursor::new(vec![]);
        ::image::RgbaImage::from_raw(2, 3, px).unwrap().write_to(&mut o, ::image::ImageFormat::WebP).unwrap();
        i.bits = None;
        i.jpeg = Some(ImageDataJpeg { path: "a.webp".into(), name: "b".into(), internal_name: None, data: o.into_inner() });
    }
    check(image::image_has_transparency(&i) == want, "image: transparent when the flag says so, or, without one, some pixel is");
    reach(1);
}
