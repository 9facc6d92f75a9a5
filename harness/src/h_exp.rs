//! The expanded directory form: which files are written, and that reading them
//! back gives the table that was written.
use crate::h_file::{Table, TableCfg, check_same, table};
use crate::h_media::eqs;
use crate::parts::*;
use crate::rec::*;
use crate::rt::*;
use std::cell::UnsafeCell;
use std::io::{self, Cursor, Read, Write};
use std::path::Path;
use vpin::filesystem::FileSystem;
use vpin::vpx::VPX;
use vpin::vpx::biff::{BiffRead, BiffReader};
use vpin::vpx::expanded::{ExpandOptions, PrimitiveMeshFormat, read_fs, write_fs};
use vpin::vpx::gamedata::read_all_gamedata_records;
use vpin::vpx::image::ImageData;
use vpin::vpx::material::{SaveMaterial, SavePhysicsMaterial};
use vpin::vpx::{collection, font, gameitem, verif};

/// A disk: directories have to be made before files are put there, a path is
/// followed component by component, names that differ only in case are one file.
pub struct Disk { pub files: UnsafeCell<Vec<(String, Vec<u8>)>>, pub dirs: UnsafeCell<Vec<String>> }
unsafe impl Sync for Disk {}
const ROOT: &str = "out";
impl Disk {
    pub fn new() -> &'static Disk { Box::leak(Box::new(Disk { files: UnsafeCell::new(vec![]), dirs: UnsafeCell::new(vec![ROOT.to_string()]) })) }
    #[allow(clippy::mut_from_ref)]
    fn f(&self) -> &mut Vec<(String, Vec<u8>)> { unsafe { &mut *self.files.get() } }
    #[allow(clippy::mut_from_ref)]
    fn d(&self) -> &mut Vec<String> { unsafe { &mut *self.dirs.get() } }
    pub fn get(&self, n: &str) -> Option<&Vec<u8>> { self.f().iter().find(|x| x.0 == n).map(|x| &x.1) }
    /// index of the file or directory a path leads to
    fn resolve(p: &Path) -> (String, String) {
        let s = p.to_str().unwrap();
        check(!s.starts_with('/'), "expanded: every file stays inside the directory");
        let mut c: Vec<&str> = Vec::new();
        for x in s.split('/') { match x { "" | "." => {}, ".." => { c.pop(); } x => c.push(x) } }
        let n = c.pop().unwrap_or("").to_string();
        (c.join("/"), n)
    }
    fn put(&self, p: &Path, d: &[u8]) -> io::Result<()> {
        let (dir, n) = Self::resolve(p);
        check(dir == ROOT || dir.starts_with("out/"), "expanded: every file stays inside the directory");
        check(!n.contains('\\') && !n.contains(':'), "expanded: file names are names, on every system");
        if !self.d().contains(&dir) { return Err(io::Error::from(io::ErrorKind::NotFound)); }
        let full = format!("{dir}/{n}");
        for x in self.f().iter() { check(!x.0.eq_ignore_ascii_case(&full), "expanded: every part has a file of its own"); }
        self.f().push((full, d.to_vec()));
        Ok(())
    }
    fn at(&self, p: &Path) -> Option<&Vec<u8>> { let (dir, n) = Self::resolve(p); let full = format!("{dir}/{n}"); self.f().iter().find(|x| x.0 == full).map(|x| &x.1) }
}
struct Writer { disk: &'static Disk, path: std::path::PathBuf, data: Vec<u8> }
impl Write for Writer {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { self.data.extend_from_slice(b); Ok(b.len()) }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
impl Drop for Writer { fn drop(&mut self) { let _ = self.disk.put(&self.path, &self.data); } }
impl FileSystem for &'static Disk {
    fn create_file(&self, path: &Path) -> io::Result<Box<dyn Write>> {
        let (dir, _) = Disk::resolve(path);
        if !self.d().contains(&dir) { return Err(io::Error::from(io::ErrorKind::NotFound)); }
        Ok(Box::new(Writer { disk: self, path: path.to_path_buf(), data: Vec::new() }))
    }
    fn open_file(&self, path: &Path) -> io::Result<Box<dyn Read>> { match self.at(path) { Some(d) => Ok(Box::new(Cursor::new(d.clone()))), None => Err(io::Error::from(io::ErrorKind::NotFound)) } }
    fn read_file(&self, path: &Path) -> io::Result<Vec<u8>> { match self.at(path) { Some(d) => Ok(d.clone()), None => Err(io::Error::from(io::ErrorKind::NotFound)) } }
    fn write_file(&self, path: &Path, data: &[u8]) -> io::Result<()> { self.put(path, data) }
    fn create_dir_all(&self, path: &Path) -> io::Result<()> {
        let (dir, n) = Disk::resolve(path);
        check(dir == ROOT || dir.starts_with("out/"), "expanded: every file stays inside the directory");
        self.d().push(format!("{dir}/{n}"));
        Ok(())
    }
    fn exists(&self, path: &Path) -> bool { self.at(path).is_some() }
}

pub fn options(k: u64) -> ExpandOptions {
    ExpandOptions::new().mesh_format(match k { 1 => PrimitiveMeshFormat::Glb, 2 => PrimitiveMeshFormat::Gltf, _ => PrimitiveMeshFormat::Obj })
}
/// write to a directory, read it back
pub fn through(v: &VPX, o: &ExpandOptions) -> (&'static Disk, VPX) {
    let disk = Disk::new();
    if let Err(e) = write_fs(v, &Path::new(ROOT), o, &disk) { check(false, &format!("expanded: the table can be written ({e})")); }
    let r = match read_fs(&Path::new(ROOT), &disk) { Ok(r) => r, Err(e) => { check(false, &format!("expanded: what was written can be read ({e})")); unreachable!() } };
    let mut names: Vec<String> = disk.f().iter().map(|x| x.0.clone()).collect();
    names.sort();
    observe(names.join("\n").as_bytes());
    (disk, r)
}
/// a character of any value below 128 but NUL
pub fn ch() -> u8 { let x = u8s(); assume(x != 0 && x < 128); concretize(x as u64) as u8 }
/// any characters of latin1 (param 7: below 128)
pub fn any(n: usize) -> Vec<u8> { if param(7) == 1 { return (0..n).map(|_| ch()).collect(); } latin(n).iter().map(|b| concretize(*b as u64) as u8).collect() }
/// names of three parts, any two of which may meet in one file name
fn names(mode: u64) -> Vec<String> {
    let s = |v: &[u8]| l2s(v);
    match mode {
        // one character each: the second the same, its other case, or one that is dropped
        0 => { let c = ch(); let d = match choose(4) { 0 => c, 1 => c ^ 0x20, 2 => b'/', _ => b'.' }; assume(d != 0 && d < 128); vec![s(&[c]), s(&[d])] }
        // leading out of the directory, twice
        1 => { let c = ch(); let n = s(&[b'.', b'.', b'/', c]); vec![n.clone(), n] }
        // meeting the name made up for the second
        2 => { let c = ch(); let n = s(&[c]); vec![n.clone(), n.clone(), format!("{n}_dedup1"), n] }
        3 => { let c = ch(); let n = s(&[c]); vec![format!("{n}_dedup1"), n.clone(), n, format!("x__1")] }
        // any character of latin1, alone
        4 => vec![s(&any(1))],
        5 => vec![String::new(), String::new()],
        // other letters, and long names
        7 => { let l = "Long name ".repeat(12); vec!["\u{e9}".into(), "\u{c9}".into(), "\u{df}".into(), "SS".into(), "\u{ff}\u{b5}".into(), l.clone(), format!("{l}2"), l] }
        8 => vec!["\u{65e5}\u{672c}".into(), "\u{65e5}\u{6728}".into(), "\u{1f600}".into(), "\u{1f601}".into(), "\u{fb00}".into(), "a".repeat(100), format!("{}b", "a".repeat(100))],
        _ => { let c = ch(); let n = s(&[b'a', c, b'b']); vec![n.clone(), n.to_uppercase(), format!("{n}__1"), n] }
    }
}
pub fn base() -> Table { let mut c = TableCfg::new(); c.sym = false; let mut t = table(&c); t.vpx.version = vpin::vpx::version::Version::new(1080); t }
pub fn fin(t: &VPX, r: &VPX) { check_same(r, t); reach(1); }
/// extension of the name the part came from; param 1: length of the symbolic part, where
fn path_of(shape: u64, n: usize) -> Vec<u8> {
    let t = any(n);
    match shape { 0 => { let mut p = b"C:\\a.".to_vec(); p.extend(t); p } 1 => t, 2 => { let mut p = b"/d.x/".to_vec(); p.extend(t); p } _ => { let mut p = b"C:\\d.x\\".to_vec(); p.extend(t); p } }
}
pub fn an_image(name: &str, path: &[u8]) -> ImageData {
    let mut c = ImageCfg::new();
    c.jpeg = Some(3); c.finite = true; c.opt = 14; c.md5_one = false;
    let w = image(&c);
    let mut i = ImageData::biff_read(&mut BiffReader::new(&w.bytes));
    // the numbers and the digest are decided by the json checks
    i.width = 17; i.height = 300; i.alpha_test_value = 0.5; i.md5_hash = None; i.is_opaque = Some(true); i.is_signed = None;
    i.name = name.to_string(); i.path = l2s(path);
    if let Some(j) = &mut i.jpeg { j.name = i.name.clone(); j.path = i.path.clone(); }
    i
}
/// param 0: which names, as above
#[unsafe(no_mangle)]
pub extern "C" fn h_exp_images() {
    let mut t = base().vpx;
    for n in names(param(0)) { t.images.push(an_image(&n, b"C:\\a.xyz")); }
    t.gamedata.images_size = t.images.len() as u32;
    let (_, r) = through(&t, &options(0));
    fin(&t, &r);
}
/// param 0 shape, 1 length
#[unsafe(no_mangle)]
pub extern "C" fn h_exp_image_path() {
    let mut t = base().vpx;
    let p = path_of(param(0), param(1) as usize);
    t.images.push(an_image("a", &p));
    assume(!t.images[0].ext().eq_ignore_ascii_case("bmp"));
    t.gamedata.images_size = 1;
    let (_, r) = through(&t, &options(0));
    fin(&t, &r);
}
/// links: no data, no file. param 0: 0 missing data and no link, 1 link
#[unsafe(no_mangle)]
pub extern "C" fn h_exp_link() {
    let mut t = base().vpx;
    let mut l = an_image("a", b"a.png");
    l.jpeg = None; l.link = Some(1);
    let mut k = an_image("A", b"a.png");
    k.link = if bools() { Some(0) } else { None };
    if bools() { t.images = vec![l, k]; } else { t.images = vec![k, l]; }
    t.gamedata.images_size = 2;
    let (_, r) = through(&t, &options(0));
    fin(&t, &r);
}
pub fn a_sound(name: &str, path: &[u8]) -> vpin::vpx::sound::SoundData {
    let v = vpin::vpx::version::Version::new(1080);
    let wav = plays_as_wav(path);
    let w = sound(true, b"s", if wav { b"s.wav" } else { b"s.ogg" }, b"", wav, 3);
    let mut s = verif::sound_read(&v, &w.bytes);
    s.volume = 3; s.balance = 4; s.fade = 5;
    s.output_target = if name.len() & 1 == 1 { vpin::vpx::sound::OutputTarget::Backglass } else { vpin::vpx::sound::OutputTarget::Table };
    if wav { let mut f = vpin::vpx::sound::WaveForm::default(); f.samples_per_sec = s.wave_form.samples_per_sec; s.wave_form = f; }
    s.name = name.to_string(); s.path = l2s(path);
    s
}
#[unsafe(no_mangle)]
pub extern "C" fn h_exp_sounds() {
    let mut t = base().vpx;
    for (i, n) in names(param(0)).iter().enumerate() { t.sounds.push(a_sound(n, if param(1) == 1 && i & 1 == 1 { b"C:\\a.wav" } else { b"C:\\a.ogg" })); }
    t.gamedata.sounds_size = t.sounds.len() as u32;
    t.version = vpin::vpx::version::Version::new(1080);
    let (_, r) = through(&t, &options(0));
    fin(&t, &r);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_exp_sound_path() {
    let mut t = base().vpx;
    let p = path_of(param(0), param(1) as usize);
    for b in &p { assume(*b != b'/' || param(0) == 2); }
    t.sounds.push(a_sound("a", &p));
    t.gamedata.sounds_size = 1;
    t.version = vpin::vpx::version::Version::new(1080);
    let (_, r) = through(&t, &options(0));
    fin(&t, &r);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_exp_fonts() {
    let mut t = base().vpx;
    for n in names(param(0)) { let (b, _) = font(b"f", b"C:\\f.ttf", 4, None); let mut f = font::read(&b); f.name = n; t.fonts.push(f); }
    t.gamedata.fonts_size = t.fonts.len() as u32;
    let (_, r) = through(&t, &options(0));
    fin(&t, &r);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_exp_font_path() {
    let mut t = base().vpx;
    let (b, _) = font(b"f", &path_of(param(0), param(1) as usize), 4, None);
    t.fonts.push(font::read(&b));
    t.gamedata.fonts_size = 1;
    let (_, r) = through(&t, &options(0));
    fin(&t, &r);
}
fn flag(_i: usize) -> bool { if param(2) == 1 { choose(2) == 1 } else { _i == 1 } }
pub fn kind_at(i: usize) -> &'static Kind { &KINDS[i] }
pub fn kind_no(n: &str) -> usize { KINDS.iter().position(|k| k.name == n).unwrap() }
pub fn an_item(k: &Kind, name: &str) -> gameitem::GameItemEnum {
    let mut c = Cfg::new();
    c.symbolic = false;
    if k.name == "Primitive" { c.without = &["M3VN", "M3CY", "M3CX", "M3FN", "M3CJ", "M3CI"]; c.pairs = 0; }
    let i = k.recs.iter().position(|r| r.tag == "NAME").unwrap();
    c.texts = vec![(i, name.to_string())];
    let (b, _) = build(k, &c);
    gameitem::read(&b)
}
/// items of one kind (param 1) whose names meet
#[unsafe(no_mangle)]
pub extern "C" fn h_exp_items() {
    let mut t = base().vpx;
    for n in names(param(0)) { t.gameitems.push(an_item(kind_at(param(1) as usize), &n)); }
    t.gamedata.gameitems_size = t.gameitems.len() as u32;
    let (_, r) = through(&t, &options(0));
    fin(&t, &r);
}
/// every kind once, in its place; what the index keeps: lock, layer, layer name, visibility.
/// param 0: kind, param 1: 0 all absent, 1 all there
#[unsafe(no_mangle)]
pub extern "C" fn h_exp_item() {
    let mut t = base().vpx;
    let k = kind_at(param(0) as usize);
    let mut c = Cfg::new();
    c.symbolic = false;
    if k.name == "Primitive" { c.without = &["M3VN", "M3CY", "M3CX", "M3FN", "M3CJ", "M3CI"]; c.pairs = 0; }
    match param(1) {
        0 => c.all_absent = true,
        1 => { let v: Vec<usize> = k.recs.iter().enumerate().filter(|(_, r)| matches!(r.tag, "LOCK" | "LVIS")).map(|(i, _)| i).collect(); if !v.is_empty() { c.sym_rec = Some(v[choose(v.len() as u64) as usize]); } }
        2 => if let Some(i) = k.recs.iter().position(|r| r.tag == "LANR") { c.texts = vec![(i, l2s(&any(1)))]; },
        _ => { let v: Vec<usize> = k.recs.iter().enumerate().filter(|(_, r)| matches!(r.tag, "LAYR" | "LANR" | "LVIS")).map(|(i, _)| i).collect(); if !v.is_empty() { c.absent = Some(v[choose(v.len() as u64) as usize]); } }
    }
    let (b, _) = build(k, &c);
    t.gameitems.push(an_item(&KINDS[kind_no("Timer")], "first"));
    t.gameitems.push(gameitem::read(&b));
    t.gameitems.push(an_item(&KINDS[kind_no("Timer")], "last"));
    t.gamedata.gameitems_size = 3;
    let (_, r) = through(&t, &options(0));
    fin(&t, &r);
}
/// the rest of the table. param 0: 0 info, 1 script, 2 screenshot, 3 materials, 4 probes, 5 collections, 6 version, 7 custom values
#[unsafe(no_mangle)]
pub extern "C" fn h_exp_rest() {
    let mut c = TableCfg::new();
    c.sym = false;
    let n = param(1) as usize;
    match param(0) {
        0 => { let i = choose(13); c.info = if i == 12 { 0 } else { 0xfff ^ (1 << i) }; }
        1 if param(2) > 0 => {}
        1 => { let mut s = sym_bytes(n); for b in s.iter_mut() { assume(*b != 0 && *b < 128); } c.script = s; }
        7 => { c.tags = n; c.missing = choose(1 << n); }
        8 => c.info = 0xfff,
        _ => {}
    }
    let mut t = table(&c).vpx;
    t.version = vpin::vpx::version::Version::new(1080);
    match param(0) {
        8 => {
            let x = Some(l2s(&any(n)));
            let i = &mut t.info;
            *match param(2) { 0 => &mut i.table_name, 1 => &mut i.author_name, 2 => &mut i.table_blurb, 3 => &mut i.table_rules, 4 => &mut i.author_email, 5 => &mut i.release_date, 6 => &mut i.table_save_rev, 7 => &mut i.table_version, 8 => &mut i.author_website, 9 => &mut i.table_save_date, _ => &mut i.table_description } = x;
        }
        // a script of any bytes, in either encoding; a long one
        1 if param(2) == 1 => { let s = sym_bytes(n); for b in &s { assume(*b != 0); } t.gamedata.code = s.into(); }
        1 if param(2) == 2 => { let mut s = "' h\u{e9} \u{20ac}\u{1f600}\r\n\tx = \"1\"\n".repeat(n / 20).into_bytes(); s.push(latin(1)[0] & 0x7f); assume(s[s.len() - 1] != 0); t.gamedata.code = s.into(); }
        2 => t.info.screenshot = if bools() { Some(sym_bytes(n)) } else { None },
        6 => { let x = u32s(); assume(x < 10u32.pow(n as u32)); t.version = vpin::vpx::version::Version::new(x); }
        5 => { for i in 0..n { let b = collection(&if i == 0 && param(2) == 0 { w16(&l2s(&any(1))) } else { w16("c") }, &[w16("x"), w16("\u{20ac}/..")][..i % 3], [flag(i), flag(i), flag(i)], None); t.collections.push(collection::read(&b)); } t.gamedata.collections_size = n as u32; }
        _ => {}
    }
    if param(0) == 3 {
        // n materials, in the new form (the legacy one follows from it) or only in the legacy one
        let (new, phys, probes) = (n > 0 && choose(2) == 1, choose(2) == 1, choose(2) == 1);
        let mut c = Cfg::new();
        c.symbolic = false; c.drag_points = n; c.raw = crate::h_gd::raw;
        let mut b = Vec::new();
        build_recs(GAMEDATA, &c, &mut b);
        let mut g = read_all_gamedata_records(&b, &t.version);
        if new { let m = g.materials.as_ref().unwrap(); g.materials_old = m.iter().map(SaveMaterial::from).collect(); g.materials_physics_old = Some(m.iter().map(SavePhysicsMaterial::from).collect()); }
        else { g.materials = None; if !phys { g.materials_physics_old = None; } }
        if !probes { g.render_probes = None; }
        g.gameitems_size = 0; g.sounds_size = 0; g.images_size = 0; g.fonts_size = 0; g.collections_size = 0; g.materials_size = n as u32;
        t.gamedata = g;
    }
    let (d, r) = through(&t, &options(0));
    if param(0) == 1 && param(2) == 0 { check(d.get("out/script.vbs").is_some_and(|s| bytes_eq(s, t.gamedata.code.string.as_bytes())), "expanded: script.vbs is the script"); }
    if param(0) == 2 { check(match (&t.info.screenshot, d.get("out/screenshot.png")) { (None, None) => true, (Some(a), Some(b)) => bytes_eq(a, b), _ => false }, "expanded: screenshot.png is the screenshot"); }
    check(d.get("out/version.txt").is_some_and(|s| eqs(&t.version.u32().to_string(), s)), "expanded: version.txt is the version");
    fin(&t, &r);
}
/// many parts of every sort, in an order other than that of their names; param 0: how many of each
#[unsafe(no_mangle)]
pub extern "C" fn h_exp_many() {
    let mut t = base().vpx;
    let n = param(0) as usize;
    let img = an_image("x", b"C:\\a.png");
    for i in 0..n {
        let s = format!("x{}", (i * 7) % n);
        let mut im = img.clone();
        im.name = s.clone();
        if let Some(j) = &mut im.jpeg { j.name = s.clone(); }
        t.images.push(im);
        t.sounds.push(a_sound(&s, b"C:\\a.ogg"));
        let (b, _) = font(b"f", b"C:\\f.ttf", 4, None);
        let mut f = font::read(&b); f.name = s.clone(); t.fonts.push(f);
        t.gameitems.push(an_item(&KINDS[(i * 5) % KINDS.len()], &s));
        t.collections.push(collection::read(&collection(&w16(&s), &[w16(&s), w16("x")], [i & 1 == 0, true, false], None)));
        t.custominfotags.push(s.clone());
        t.info.properties.insert(s.clone(), format!("v{i}"));
    }
    let g = &mut t.gamedata;
    (g.images_size, g.sounds_size, g.fonts_size, g.gameitems_size, g.collections_size) = (n as u32, n as u32, n as u32, n as u32, n as u32);
    let (_, r) = through(&t, &options(0));
    fin(&t, &r);
}
