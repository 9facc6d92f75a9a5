//! Whole files: what to_bytes writes, what from_bytes reads back, the MAC,
//! and edits in place (lock, unlock, write_gamedata).
use crate::h_media::{eqs, image_write};
use crate::parts::*;
use crate::rec::*;
use crate::rt::*;
use md2::{Digest, Md2};
use std::collections::HashMap;
use std::io::{Cursor, Read};
use vpin::vpx::biff::{BiffRead, BiffReader};
use vpin::vpx::gamedata::{GameData, read_all_gamedata_records, write_all_gamedata_records};
use vpin::vpx::image::ImageData;
use vpin::vpx::tableinfo::TableInfo;
use vpin::vpx::version::Version;
use vpin::vpx::{self, VPX, VpxFile, collection, custominfotags, font, gameitem, verif};

pub const INFO: [&str; 12] = ["TableName", "AuthorName", "Screenshot", "TableBlurb", "TableRules", "AuthorEmail", "ReleaseDate", "TableSaveRev", "TableVersion", "AuthorWebSite", "TableSaveDate", "TableDescription"];
/// streams of the file as the format lays them out
pub struct Table { pub vpx: VPX, pub streams: Vec<(String, Vec<u8>)> }
#[derive(Clone)]
pub struct TableCfg {
    /// kinds of the items
    pub items: Vec<usize>, pub images: Vec<u64>, pub sounds: usize, pub fonts: usize, pub colls: usize,
    /// info fields present, bits as in INFO
    pub info: u32, pub info_sym: Option<(usize, usize)>, pub tags: usize, /* those declared without a value */ pub missing: u64, pub sym: bool, pub sound_new: bool, pub script: Vec<u8>, pub big: usize,
    pub efss: u64,
    /// texts: 0 of their own, 1 all equal, 2 empty
    pub alike: u64,
}
impl TableCfg { pub fn new() -> Self { TableCfg { alike: 0, items: vec![], images: vec![], sounds: 0, fonts: 0, colls: 0, info: 0, info_sym: None, tags: 0, missing: 0, sym: true, sound_new: true, script: b"Option Explicit".to_vec(), big: 0, efss: 2 } } }

fn label(c: &TableCfg, s: &str, i: usize) -> String { match c.alike { 0 => format!("{s}{i}"), 1 => "x".into(), _ => String::new() } }
fn info(c: &TableCfg, i: usize) -> Option<(Vec<u8>, String)> {
    if c.info >> i & 1 == 0 { return None; }
    if i == 2 { let d = if c.sym { sym_bytes(5) } else { vec![1, 2, 3, 4, 5] }; return Some((d, String::new())); }
    let u = match c.info_sym { Some((j, n)) if i == j => wide(n), _ => w16(&label(c, "t", i)) };
    let mut b = Vec::new();
    for x in &u { b.extend(x.to_le_bytes()); }
    Some((b, w2s(&u)))
}
pub fn gamedata(c: &TableCfg, v: &Version) -> GameData {
    let mut k = Cfg::new();
    k.drag_points = 0;
    k.symbolic = false;
    k.all_absent = true;
    k.raw = |tag, _, o| match tag {
        "MASI" => rec(o, "MASI", &[0; 4]), "MATE" => rec(o, "MATE", &[]), "CCUS" => rec(o, "CCUS", &[7; 64]),
        "CODE" => { o.extend([4, 0, 0, 0]); o.extend(b"CODE"); o.extend([0; 4]); }
        _ => {}
    };
    let mut b = Vec::new();
    build_recs(GAMEDATA, &k, &mut b);
    let mut g = read_all_gamedata_records(&b, v);
    if c.sym { g.left = f32::from_bits(u32s()); g.dbg(); }
    g.code.string = String::from_utf8(c.script.clone()).unwrap();
    g.gameitems_size = c.items.len() as u32;
    g.images_size = c.images.len() as u32;
    g.sounds_size = c.sounds as u32;
    g.fonts_size = c.fonts as u32;
    g.collections_size = c.colls as u32;
    g
}
trait Dbg { fn dbg(&mut self); }
impl Dbg for GameData { fn dbg(&mut self) { self.locked = if bools() { Some(u32s()) } else { None }; } }
pub fn table(c: &TableCfg) -> Table {
    let v = sound_version(c.sound_new);
    let g = gamedata(c, &v);
    let mut st: Vec<(String, Vec<u8>)> = vec![("GameStg/Version".into(), v.u32().to_le_bytes().to_vec())];
    let gb = write_all_gamedata_records(&g, &v);
    st.push(("GameStg/GameData".into(), gb));
    let mut k = Cfg::new();
    k.symbolic = c.sym;
    let mut gameitems = Vec::new();
    for (i, n) in c.items.iter().enumerate() {
        let (b, _) = build(&KINDS[*n], &k);
        gameitems.push(gameitem::read(&b));
        st.push((format!("GameStg/GameItem{i}"), b));
    }
    let mut images = Vec::new();
    for (i, n) in c.images.iter().enumerate() {
        let mut ic = ImageCfg::new();
        ic.name = label(c, "img", i).into_bytes();
        if c.alike == 1 { ic.jname = ic.name.clone(); }
        match n { 1 => ic.jpeg = Some(if c.alike == 2 { 0 } else { 3 + c.big }), 2 => ic.blocks = Some(vec![3]), _ => {} }
        let im = image(&ic);
        images.push(ImageData::biff_read(&mut BiffReader::new(&im.bytes)));
        st.push((format!("GameStg/Image{i}"), im.bytes));
    }
    let mut sounds = Vec::new();
    for i in 0..c.sounds {
        let wav = i % 2 == 0;
        let s = sound(c.sound_new, label(c, "snd", i).as_bytes(), if wav { b"a.wav" } else { b"a.ogg" }, b"", wav, if c.alike == 2 { 0 } else { 3 });
        sounds.push(verif::sound_read(&v, &s.bytes));
        st.push((format!("GameStg/Sound{i}"), s.bytes));
    }
    let mut fonts = Vec::new();
    for i in 0..c.fonts { let (b, _) = font(label(c, "f", i).as_bytes(), b"f.ttf", if c.alike == 2 { 0 } else { 4 }, None); fonts.push(font::read(&b)); st.push((format!("GameStg/Font{i}"), b)); }
    let mut collections = Vec::new();
    for i in 0..c.colls {
        let b = collection(&w16(&label(c, "c", i)), &(if c.alike == 0 { vec![w16("a"), w16("b")] } else { vec![w16(&label(c, "", 0)); 2] }), [bools(), bools(), bools()], None);
        collections.push(collection::read(&b));
        st.push((format!("GameStg/Collection{i}"), b));
    }
    let mut f: Vec<Option<(Vec<u8>, String)>> = (0..12).map(|i| info(c, i)).collect();
    for i in 0..12 { if let Some((b, _)) = &f[i] { st.push((format!("TableInfo/{}", INFO[i]), b.clone())); } }
    let mut s = |i: usize| f[i].take().map(|x| x.1);
    let mut ti = TableInfo { table_name: s(0), author_name: s(1), screenshot: None, table_blurb: s(3), table_rules: s(4), author_email: s(5), release_date: s(6), table_save_rev: s(7), table_version: s(8), author_website: s(9), table_save_date: s(10), table_description: s(11), properties: HashMap::new() };
    ti.screenshot = f[2].take().map(|x| x.0);
    let mut tags = Vec::new();
    let mut cb = Vec::new();
    for i in 0..c.tags {
        let t = format!("tag{}", (i * 7 + 3) % 10);
        rec(&mut cb, "CUST", &lstr(t.as_bytes()));
        let u = if c.sym && i == 0 { wide(1) } else { w16(if c.alike == 2 { "" } else { "val" }) };
        let mut b = Vec::new(); for x in &u { b.extend(x.to_le_bytes()); }
        // a declared tag without a value is allowed
        if c.missing >> i & 1 == 0 { ti.properties.insert(t.clone(), w2s(&u)); st.push((format!("TableInfo/{t}"), b)); }
        tags.push(t);
    }
    rec(&mut cb, "ENDB", &[]);
    st.push(("GameStg/CustomInfoTags".into(), cb));
    Table { vpx: VPX { custominfotags: tags, info: ti, version: v, gamedata: g, gameitems, images, sounds, fonts, collections }, streams: st }
}
pub fn read_stream(c: &mut cfb::CompoundFile<Cursor<Vec<u8>>>, p: &str) -> Option<Vec<u8>> {
    if !c.is_stream(p) { return None; }
    let mut d = Vec::new();
    c.open_stream(p).unwrap().read_to_end(&mut d).unwrap();
    Some(d)
}
/// the signature of the format over the given streams
pub fn reference_mac(st: &[(String, Vec<u8>)]) -> md2::Output {
    let get = |p: &str| st.iter().find(|x| x.0 == p).map(|x| &x.1);
    let mut m = Md2::new();
    let mut put = |d: &[u8]| m.update(d);
    put(b"Visual Pinball");
    let mut raw = |p: &str| if let Some(d) = get(p) { put(d) };
    raw("GameStg/Version");
    for n in ["TableName", "AuthorName", "TableVersion", "ReleaseDate", "AuthorEmail", "AuthorWebSite", "TableBlurb", "TableDescription", "TableRules", "Screenshot"] { raw(&format!("TableInfo/{n}")); }
    let mut biff: Vec<&Vec<u8>> = Vec::new();
    let mut tail: Vec<String> = Vec::new();
    let le = |d: &[u8], o: usize| concretize(u32::from_le_bytes([d[o], d[o + 1], d[o + 2], d[o + 3]]) as u64) as usize;
    if let Some(d) = get("GameStg/CustomInfoTags") {
        let mut o = 0;
        while o < d.len() { let n = le(d, o); put(&d[o + 4..o + 4 + n]); if n > 8 { tail.push(String::from_utf8(d[o + 12..o + 4 + n].to_vec()).unwrap()); } o += 4 + n; }
    }
    for t in tail { if let Some(d) = get(&format!("TableInfo/{t}")) { put(d); } }
    if let Some(d) = get("GameStg/GameData") { biff.push(d); }
    for i in 0.. { match get(&format!("GameStg/Collection{i}")) { Some(d) => biff.push(d), None => break } }
    for d in biff {
        let mut o = 0;
        while o < d.len() {
            let n = le(d, o);
            if &d[o + 4..o + 8] == b"CODE" { let k = le(d, o + 8); put(b"CODE"); put(&d[o + 12..o + 12 + k]); o += 12 + k; }
            else { put(&d[o + 4..o + 4 + n]); o += 4 + n; }
        }
    }
    m.finalize()
}
/// the stand-in keeps the signed bytes themselves (16 bytes only where the code insists)
fn mac_eq(stored: &[u8], st: &[(String, Vec<u8>)]) -> bool {
    let r = reference_mac(st);
    if stored.len() == 16 && r.len() != 16 { return bytes_eq(stored, &r.fold()); }
    bytes_eq(stored, &r)
}
/// every stream of the file, and nothing else
pub fn check_streams(file: &[u8], st: &[(String, Vec<u8>)], mac: bool) {
    let mut c = cfb::CompoundFile::open_strict(Cursor::new(file.to_vec())).unwrap();
    let names: Vec<String> = c.walk().filter(|e| e.is_stream()).map(|e| e.path().to_string_lossy().trim_start_matches('/').to_string()).collect();
    for (p, d) in st {
        match read_stream(&mut c, p) { None => check(false, &format!("file: stream {p} is missing")), Some(x) => same(&format!("file: stream {p}"), d, &x, "holds the encoding of its part") }
    }
    for n in &names { if n != "GameStg/MAC" && !st.iter().any(|x| x.0 == *n) { check(false, &format!("file: unexpected stream {n}")); } }
    if mac {
        let m = read_stream(&mut c, "GameStg/MAC");
        check(m.is_some(), "file: MAC is there");
        check(mac_eq(&m.unwrap(), st), "file: MAC is the signature of what the file holds");
    }
}
fn eqo(a: &Option<String>, b: &Option<String>) -> bool { match (a, b) { (None, None) => true, (Some(a), Some(b)) => bytes_eq(a.as_bytes(), b.as_bytes()), _ => false } }
pub fn check_info(a: &TableInfo, b: &TableInfo) {
    check(eqo(&a.table_name, &b.table_name), "info: table name"); check(eqo(&a.author_name, &b.author_name), "info: author name");
    check(eqo(&a.table_blurb, &b.table_blurb), "info: blurb"); check(eqo(&a.table_rules, &b.table_rules), "info: rules");
    check(eqo(&a.author_email, &b.author_email), "info: email"); check(eqo(&a.release_date, &b.release_date), "info: release date");
    check(eqo(&a.table_save_rev, &b.table_save_rev), "info: save revision"); check(eqo(&a.table_version, &b.table_version), "info: version");
    check(eqo(&a.author_website, &b.author_website), "info: website"); check(eqo(&a.table_save_date, &b.table_save_date), "info: save date");
    check(eqo(&a.table_description, &b.table_description), "info: description");
    check(match (&a.screenshot, &b.screenshot) { (None, None) => true, (Some(a), Some(b)) => bytes_eq(a, b), _ => false }, "info: screenshot");
    check(a.properties.len() == b.properties.len(), "info: number of custom values");
    for (k, v) in &b.properties { check(a.properties.get(k).is_some_and(|x| bytes_eq(x.as_bytes(), v.as_bytes())), "info: custom values"); }
}
/// `a` holds exactly what `b` holds (both encoded to bytes, part by part)
pub fn check_same(a: &VPX, b: &VPX) {
    check(a.version.u32() == b.version.u32(), "table: version");
    same("table: settings", &write_all_gamedata_records(&b.gamedata, &b.version), &write_all_gamedata_records(&a.gamedata, &a.version), "are the same");
    check(a.gameitems.len() == b.gameitems.len() && a.images.len() == b.images.len() && a.sounds.len() == b.sounds.len() && a.fonts.len() == b.fonts.len() && a.collections.len() == b.collections.len(), "table: number of parts");
    for (x, y) in a.gameitems.iter().zip(&b.gameitems) { same("table: item", &verif::gameitem_write(y), &verif::gameitem_write(x), "is the same, in the same place"); }
    for (x, y) in a.images.iter().zip(&b.images) { same("table: image", &image_write(y), &image_write(x), "is the same, in the same place"); }
    for (x, y) in a.sounds.iter().zip(&b.sounds) { same("table: sound", &verif::sound_write(&b.version, y), &verif::sound_write(&a.version, x), "is the same, in the same place"); }
    for (x, y) in a.fonts.iter().zip(&b.fonts) { same("table: font", &font::write(y), &font::write(x), "is the same, in the same place"); }
    for (x, y) in a.collections.iter().zip(&b.collections) { same("table: collection", &collection::write(y), &collection::write(x), "is the same, in the same place"); }
    same("table: custom info tags", &custominfotags::write_custominfotags(&b.custominfotags), &custominfotags::write_custominfotags(&a.custominfotags), "are the same");
    check_info(&a.info, &b.info);
}
fn scenario() -> TableCfg {
    let mut c = TableCfg::new();
    let n = param(1) as usize;
    match param(0) {
        // n items of successive kinds
        0 => c.items = (0..n).map(|i| (i + param(2) as usize) % KINDS.len()).collect(),
        1 => c.images = (0..n).map(|i| [1, 2, 0][(i + param(2) as usize) % 3]).collect(),
        2 => { c.sounds = n; c.sound_new = param(2) == 1; }
        3 => { c.fonts = n; c.colls = param(2) as usize; }
        4 => { c.info = 0xfff; c.info_sym = Some((choose(12) as usize, n)); }
        5 => { let i = choose(13); c.info = if i == 12 { 0 } else { 0xfff ^ (1 << i) }; c.tags = n; if n > 2 { c.missing = 4; } }
        // custom values of which any are missing
        8 => { c.tags = n; c.missing = choose(1 << n); }
        6 => { let mut s = if n > 1000 { (0..n).map(|i| b'a' + (i % 26) as u8).collect() } else { sym_bytes(n) }; for b in s.iter_mut() { assume(*b != 0 && *b < 128); } c.script = s; c.colls = 1; c.tags = param(2) as usize; }
        // parts that are alike, or empty
        9 => { c.alike = param(2); c.items = vec![0, 0, 5, 5, 0]; c.images = vec![1, 1, 2, 2, 0, 0]; c.sounds = 4; c.fonts = 3; c.colls = 3; c.info = 0xfff; c.tags = 3; c.missing = 2; c.sym = false; if param(2) == 2 { c.script = vec![]; } }
        // something of everything, streams beyond the mini stream cutoff
        _ => { c.items = vec![0, 2, 5]; c.images = vec![1, 2]; c.sounds = 2; c.fonts = 1; c.colls = 2; c.info = 0xfff; c.tags = 3; c.missing = 2; c.big = n; c.sym = param(2) == 0; }
    }
    c
}
/// what is written: streams and signature
#[unsafe(no_mangle)]
pub extern "C" fn h_file_write() {
    let t = table(&scenario());
    let f = vpx::to_bytes(&t.vpx).unwrap();
    check_streams(&f, &t.streams, false);
    let mut c = cfb::CompoundFile::open_strict(Cursor::new(f.clone())).unwrap();
    observe(&read_stream(&mut c, "GameStg/MAC").unwrap());
    reach(1);
}
/// what is read back
#[unsafe(no_mangle)]
pub extern "C" fn h_file_read() {
    let t = table(&scenario());
    let f = vpx::to_bytes(&t.vpx).unwrap();
    let r = vpx::from_bytes(&f).unwrap();
    check_same(&r, &t.vpx);
    let (a, b) = verif::macs(&f).unwrap();
    observe(&a); observe(&b);
    reach(1);
}
/// the parts one by one through an open file
#[unsafe(no_mangle)]
pub extern "C" fn h_file_parts() {
    let t = table(&scenario());
    let f = vpx::to_bytes(&t.vpx).unwrap();
    let mut o = VpxFile::open(Cursor::new(f)).unwrap();
    let r = VPX { version: o.read_version().unwrap(), gamedata: o.read_gamedata().unwrap(), info: o.read_tableinfo().unwrap(), gameitems: o.read_gameitems().unwrap(), images: o.read_images().unwrap(),
        sounds: o.read_sounds().unwrap(), fonts: o.read_fonts().unwrap(), collections: o.read_collections().unwrap(), custominfotags: o.read_custominfotags().unwrap() };
    check_same(&r, &t.vpx);
    observe(&r.version.u32().to_le_bytes());
    reach(1);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_file_mac() {
    let t = table(&scenario());
    let f = vpx::to_bytes(&t.vpx).unwrap();
    let (a, b) = verif::macs(&f).unwrap();
    check(bytes_eq(&a, &b), "file: the stored MAC is the one computed from the file");
    check(mac_eq(&a, &t.streams), "file: MAC is the signature of what the file holds");
    observe(&a);
    reach(1);
}
/// any sequence of param 3 lock/unlock/rewrite/read steps
#[unsafe(no_mangle)]
pub extern "C" fn h_file_edit() {
    let mut t = table(&scenario());
    let f = vpx::to_bytes(&t.vpx).unwrap();
    let mut cur = Cursor::new(f);
    let mut lock = t.vpx.gamedata.locked;
    for _ in 0..param(3) {
        let mut o = VpxFile::open_rw(&mut cur).unwrap();
        let odd = lock.unwrap_or(0) & 1 != 0;
        match choose(4) {
            0 => { let r = o.lock().unwrap(); check(r == !odd, "lock: reports whether it changed the file"); if !odd { lock = Some(lock.unwrap_or(0).wrapping_add(1)); } }
            1 => { let r = o.unlock().unwrap(); check(r == odd, "unlock: reports whether it changed the file"); if odd { lock = Some(lock.unwrap_or(0).wrapping_add(1)); } }
            2 => { check(o.is_locked().unwrap() == odd, "is_locked: the parity of the counter"); }
            _ => { let mut g = o.read_gamedata().unwrap(); let x = u32s(); g.right = f32::from_bits(x); t.vpx.gamedata.right = g.right; g.set_code("x".repeat(3)); t.vpx.gamedata.set_code("xxx".into()); o.write_gamedata(&g).unwrap(); }
        }
        drop(o);
    }
    t.vpx.gamedata.locked = lock;
    let i = t.streams.iter().position(|x| x.0 == "GameStg/GameData").unwrap();
    t.streams[i].1 = write_all_gamedata_records(&t.vpx.gamedata, &t.vpx.version);
    let f = cur.into_inner();
    check_streams(&f, &t.streams, true);
    let (a, b) = verif::macs(&f).unwrap();
    check(bytes_eq(&a, &b), "file: the stored MAC is the one computed from the file");
    observe(&a);
    reach(1);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_file_minimal() {
    let f = verif::minimal().unwrap();
    let (a, b) = verif::macs(&f).unwrap();
    check(bytes_eq(&a, &b), "minimal file: MAC");
    let r = vpx::from_bytes(&f).unwrap();
    check(r.version.u32() == 1072 && r.gameitems.is_empty() && r.images.is_empty() && r.sounds.is_empty() && r.fonts.is_empty() && r.collections.is_empty(), "minimal file: an empty 10.7.2 table");
    let g = vpx::to_bytes(&r).unwrap();
    let r2 = vpx::from_bytes(&g).unwrap();
    check_same(&r2, &r);
    check(eqs(&r.gamedata.name, r2.gamedata.name.as_bytes()), "minimal file: name");
    observe(&a);
    reach(1);
}
