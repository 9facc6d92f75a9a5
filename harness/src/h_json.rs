//! The json form of items, settings and the rest (values, not their text).
use crate::h_gd;
use crate::h_media::{image_write};
use crate::parts::*;
use crate::rec::*;
use crate::rt::*;
use vpin::vpx::biff::{BiffRead, BiffReader, BiffWrite, BiffWriter};
use vpin::vpx::gamedata::{GameData, read_all_gamedata_records, write_all_gamedata_records};
use vpin::vpx::gameitem::{self, GameItemEnum};
use vpin::vpx::image::ImageData;
use vpin::vpx::jsonmodel;
use vpin::vpx::material::Material;
use vpin::vpx::{collection, verif};

/// which records stay out: those the json form keeps in other files
fn cfg_for(k: &Kind, c: &mut Cfg) {
    if k.name == "Primitive" { c.without = &["M3VN", "M3CY", "M3CX", "M3FN", "M3CJ", "M3CI"]; c.pairs = 0; }
}
fn judge(k: &Kind, input: &[u8]) {
    let item = gameitem::read(input);
    let v = match serde_json::to_value(&item) { Ok(v) => v, Err(e) => { check(false, &format!("{}: json can be written ({e})", k.name)); return; } };
    let mut back: GameItemEnum = match serde_json::from_value(v) { Ok(x) => x, Err(e) => { check(false, &format!("{}: the json written can be read ({e})", k.name)); return; } };
    verif::restore_index_fields(&mut back, &item);
    let out = verif::gameitem_write(&back);
    observe(&out);
    same(k.name, input, &out, "json keeps every field");
    reach(1);
}
/// param 0 kind, 1 drag points, 2: 0 numbers, 1 one colour, 2 absent, 3 text (param 3 characters), 4 enum
#[unsafe(no_mangle)]
pub extern "C" fn h_json_item() {
    let k = &KINDS[param(0) as usize];
    let mut c = Cfg::new();
    cfg_for(k, &mut c);
    c.finite = true;
    c.drag_points = param(1) as usize;
    let without = c.without;
    let pick = |t: fn(&Ty) -> bool, opt: bool| -> Option<usize> {
        let v: Vec<usize> = k.recs.iter().enumerate().filter(|(_, r)| (!opt || r.opt) && t(&r.ty) && !without.contains(&r.tag)).map(|(i, _)| i).collect();
        if v.is_empty() { None } else { Some(v[choose(v.len() as u64) as usize]) }
    };
    match param(2) {
        0 => c.sym_color = Some(None),
        1 => { c.symbolic = false; let x = pick(|t| *t == Ty::Color, false); if x.is_none() { reach(1); return; } c.sym_color = Some(x); }
        2 => { c.symbolic = false; if bools() { c.all_absent = true; } else { c.absent = pick(|_| true, true); } }
        5 => { c.symbolic = false; c.all_text = true; }
        3 => { c.symbolic = false; let x = pick(|t| matches!(t, Ty::Str | Ty::WStr), false); c.sym_text = x.map(|x| (x, param(3) as usize)); }
        _ => { c.symbolic = false; let x = pick(|t| matches!(t, Ty::Enum | Ty::Dili | Ty::Font), false); if x.is_none() { reach(1); return; } c.sym_enum = x; }
    }
    let (b, _) = build(k, &c);
    judge(k, &b);
}
/// table settings. param 0 materials/probes, 1 EFSS place, 2 as above
#[unsafe(no_mangle)]
pub extern "C" fn h_json_gd() {
    let v = h_gd::version();
    let mut c = h_gd::cfg();
    c.finite = true;
    let pick = |t: fn(&Ty) -> bool, opt: bool| -> usize {
        let v: Vec<usize> = GAMEDATA.iter().enumerate().filter(|(_, r)| (!opt || r.opt) && t(&r.ty)).map(|(i, _)| i).collect();
        v[choose(v.len() as u64) as usize]
    };
    match param(2) {
        0 => { c.symbolic = false; c.sym_color = Some(None); c.sym_rec = Some(pick(|t| !matches!(t, Ty::Color), false)); }
        1 => { c.symbolic = false; c.sym_color = Some(Some(pick(|t| *t == Ty::Color, false))); }
        2 => { c.symbolic = false; if bools() { c.all_absent = true; } else { c.absent = Some(pick(|_| true, true)); } }
        5 => { c.symbolic = false; c.all_text = true; }
        3 => { c.symbolic = false; c.sym_text = Some((pick(|t| matches!(t, Ty::Str | Ty::WStr), false), param(5) as usize)); }
        _ => { c.symbolic = false; c.sym_enum = Some(pick(|t| matches!(t, Ty::Enum | Ty::Dili), false)); }
    }
    h_gd::clmo(&mut c, &v);
    let mut b = Vec::new();
    build_recs(GAMEDATA, &c, &mut b);
    let g = read_all_gamedata_records(&b, &v);
    let mut r: GameData = match verif::gamedata_from_json(jsonmodel::game_data_to_json(&g)) { Ok(g) => g, Err(e) => { check(false, &format!("settings: the json written can be read ({e})")); return; } };
    // these have files of their own, or follow from what is there
    r.code = g.code.clone();
    r.gameitems_size = g.gameitems_size; r.sounds_size = g.sounds_size; r.images_size = g.images_size; r.fonts_size = g.fonts_size; r.collections_size = g.collections_size;
    r.materials_size = g.materials_size;
    r.materials_old = g.materials_old.iter().map(|m| verif::save_material_via_json(m).unwrap()).collect();
    r.materials_physics_old = g.materials_physics_old.as_ref().map(|v| v.iter().map(|m| verif::physics_material_via_json(m).unwrap()).collect());
    r.render_probes = g.render_probes.as_ref().map(|v| v.iter().map(|m| verif::render_probe_via_json(m).unwrap()).collect());
    r.materials = g.materials.as_ref().map(|v| v.iter().map(|m| serde_json::from_value(serde_json::to_value(m).unwrap()).unwrap()).collect());
    let out = write_all_gamedata_records(&r, &v);
    observe(&out);
    same("settings", &b, &out, "json keeps every field");
    reach(1);
}
/// a material: param 0: 0 numbers, 1 colours, 2 text
#[unsafe(no_mangle)]
pub extern "C" fn h_json_material() {
    let mut c = Cfg::new();
    c.finite = true;
    match param(0) {
        0 => c.sym_color = Some(None),
        1 => { c.symbolic = false; let v: Vec<usize> = MATERIAL.iter().enumerate().filter(|(_, r)| r.ty == Ty::Color).map(|(i, _)| i).collect(); c.sym_color = Some(Some(v[choose(v.len() as u64) as usize])); }
        2 => { c.symbolic = false; c.sym_text = Some((1, param(1) as usize)); }
        _ => { c.symbolic = false; c.sym_enum = Some(0); }
    }
    let mut b = Vec::new();
    build_recs(MATERIAL, &c, &mut b);
    let m = Material::biff_read(&mut BiffReader::new(&b));
    let r: Material = match serde_json::to_value(&m).and_then(serde_json::from_value) { Ok(r) => r, Err(e) => { check(false, &format!("material: the json written can be read ({e})")); return; } };
    let mut o = BiffWriter::new();
    r.biff_write(&mut o);
    observe(o.get_data());
    same("material", &b, o.get_data(), "json keeps every field");
    reach(1);
}
/// param 0: 0 any finite float, 1 the infinities, 2 NaNs
#[unsafe(no_mangle)]
pub extern "C" fn h_json_float() {
    let x = match param(0) {
        0 => f32fin(),
        1 => if bools() { f32::INFINITY } else { f32::NEG_INFINITY },
        // a NaN with one byte, in turn, of any value
        _ => { let mut b = [[0, 0, 0xc0, 0x7f], [0x1a, 0xb2, 0xff, 0xff]][choose(2) as usize]; b[choose(4) as usize] = u8s(); let x = f32::from_le_bytes(b); assume(x.is_nan()); x }
    };
    let v = verif::f32_to_json(x);
    let y = match verif::f32_from_json(v) { Ok(y) => y, Err(_) => { check(false, "float: the json written can be read"); return; } };
    observe(&y.to_bits().to_le_bytes());
    check(x.to_bits() == y.to_bits(), "float: json keeps every bit");
    reach(1);
}
/// the text forms a user may write: param 0 hex digits after "NaN|"
#[unsafe(no_mangle)]
pub extern "C" fn h_json_float_text() {
    let mut s = String::from("NaN|");
    for _ in 0..param(0) { let d = choose(3); s.push(['0', 'f', 'x'][d as usize]); }
    let r = verif::f32_from_json(serde_json::Value::String(s.clone()));
    if s.len() != 12 || s.contains('x') { check(r.is_err(), "float: malformed text is refused"); }
    observe(&[r.is_ok() as u8]);
    reach(1);
}
/// image without its pixels. param as h_img
#[unsafe(no_mangle)]
pub extern "C" fn h_json_image() {
    let mut c = ImageCfg::new();
    c.finite = true;
    c.md5_one = true;
    c.opt = if param(1) == 7 { 8 } else { (choose(8) * 2) & 6 };
    match param(0) { 1 => c.jpeg = Some(0), 2 => { c.blocks = Some(vec![2]); c.path = b"C:\\a.bmp".to_vec(); }, _ => c.opt |= 1 }
    let t = latin(param(2) as usize);
    match param(1) { 1 => c.name = t, 2 => { c.path = t; if param(0) == 2 { c.path.extend(b".bmp"); } if param(0) == 1 { for w in 0..c.path.len() { assume(c.path[w] != b'.'); } } }, 3 => c.jname = t, 4 => c.jpath = t, 5 => c.inme = Some(t), 6 => c.jinme = Some(t), _ => {} }
    // all texts together: any two may be equal
    if param(1) == 8 { c.texts(); if param(0) == 1 { assume(c.path[0] != b'.'); } if param(0) == 2 { c.path.extend(b".bmp"); } }
    let w = image(&c);
    let i = ImageData::biff_read(&mut BiffReader::new(&w.bytes));
    if param(0) == 0 { assume(i.link == Some(1)); }
    let r = match verif::image_via_json(&i, i.bits.clone()) { Ok(r) => r, Err(e) => { check(false, &format!("image: the json written can be read ({e})")); return; } };
    let o = image_write(&r);
    observe(&o);
    same("image", &w.bytes, &o, "json keeps every field");
    reach(1);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_json_sound() {
    let n = param(1) as usize;
    let t = latin(n);
    let (name, path, inner): (&[u8], &[u8], &[u8]) = match param(0) { 0 => (&t, b"a.ogg", b""), 1 => (b"a", b"a.ogg", &t), _ => (b"a", b"b.mp3", b"c") };
    let v = sound_version(true);
    let w = sound(true, name, path, inner, false, 0);
    let s = verif::sound_read(&v, &w.bytes);
    let r = verif::sound_via_json(&s).unwrap();
    let o = verif::sound_write(&v, &r);
    observe(&o);
    same("sound", &w.bytes, &o, "json keeps every field");
    reach(1);
}
/// collections and table info. param 0: number, 1: text length
#[unsafe(no_mangle)]
pub extern "C" fn h_json_coll() {
    let n = param(0) as usize;
    let at = choose(n.max(1) as u64) as usize;
    let mut bytes = Vec::new();
    let mut cs = Vec::new();
    for i in 0..n {
        let name = if i == at { wide(param(1) as usize) } else { w16("c") };
        let b = collection(&name, &[w16("x"), if i == at { wide(1) } else { w16("y") }][..(2 - i % 2)], [bools(), bools(), bools()], None);
        cs.push(collection::read(&b));
        bytes.push(b);
    }
    let r = jsonmodel::json_to_collections(jsonmodel::collections_json(&cs)).unwrap();
    check(r.len() == n, "collections: number");
    for (a, b) in r.iter().zip(&bytes) { let o = collection::write(a); observe(&o); same("collection", b, &o, "json keeps every field, in order"); }
    reach(1);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_json_info() {
    let mut c = crate::h_file::TableCfg::new();
    c.info = 0xfff;
    match param(0) { 0 => { let i = choose(13); c.info = if i == 12 { 0 } else { 0xfff ^ (1 << i) }; } _ => { let i = choose(11); c.info_sym = Some((if i >= 2 { i + 1 } else { i } as usize, param(1) as usize)); } }
    c.tags = param(2) as usize;
    let t = crate::h_file::table(&c).vpx;
    let (i, tags) = jsonmodel::json_to_info(jsonmodel::info_to_json(&t.info, &t.custominfotags), t.info.screenshot.clone()).unwrap();
    crate::h_file::check_info(&i, &t.info);
    check(tags == t.custominfotags, "info: order of the custom values");
    observe(tags.join(",").as_bytes());
    reach(1);
}

/// a colour of its own, each byte in turn of every value
#[unsafe(no_mangle)]
pub extern "C" fn h_json_color() {
    let mut p = [1, 0xa2, 0x3b, if bools() { 0x80 } else { 0 }];
    p[choose(4) as usize] = u8s();
    let c = vpin::vpx::color::Color::from_win_color(u32::from_le_bytes(p));
    let r: vpin::vpx::color::Color = match serde_json::to_value(&c).and_then(serde_json::from_value) { Ok(r) => r, Err(e) => { check(false, &format!("color: the json written can be read ({e})")); return; } };
    observe(&r.to_win_color().to_le_bytes());
    check(r.to_win_color() == u32::from_le_bytes(p), "color: json keeps every byte");
    reach(1);
}
/// colour texts a user may write; param 0 characters, each of '#', a digit, a stranger or one of two bytes
#[unsafe(no_mangle)]
pub extern "C" fn h_json_color_text() {
    let mut s = String::new();
    for _ in 0..param(0) { s.push(['#', 'a', 'x', 'é'][choose(4) as usize]); }
    let r: Result<vpin::vpx::color::Color, _> = serde_json::from_value(serde_json::Value::String(s.clone()));
    if s.contains('x') || s.contains('é') || !s.contains('#') { check(r.is_err(), "color: malformed text is refused"); }
    observe(&[r.is_ok() as u8]);
    reach(1);
}
