//! Tables on a disk: the file calls the crate makes go to a disk in memory that
//! can fail, or stop, at any of them. The same code serves the native replay.
use crate::h_file::*;
use crate::rt::*;
use std::cell::UnsafeCell;
use std::ffi::{CStr, c_char, c_int, c_uint, c_void};
use std::io::Cursor;
use std::path::Path;
use vpin::vpx::gamedata::write_all_gamedata_records;
use vpin::vpx::{self, VPX, verif};

unsafe extern "C" {
    fn __errno_location() -> *mut c_int;
    fn vh_raw_open(p: *const c_char, f: c_int, m: c_uint) -> c_int;
    fn vh_raw_read(f: c_int, p: *mut c_void, n: usize) -> isize;
    fn vh_raw_write(f: c_int, p: *const c_void, n: usize) -> isize;
    fn vh_raw_lseek(f: c_int, o: i64, w: c_int) -> i64;
    fn vh_raw_close(f: c_int) -> c_int;
    fn vh_raw_statx(d: c_int, p: *const c_char, fl: c_int, m: c_uint, o: *mut c_void) -> c_int;
    fn vh_raw_mkdir(p: *const c_char, m: c_uint) -> c_int;
    fn vh_raw_unlink(p: *const c_char) -> c_int;
    fn vh_raw_rename(a: *const c_char, b: *const c_char) -> c_int;
}
#[derive(Clone, Copy, PartialEq)]
pub enum Fault { None, /** that call only */ Once, /** that call and all later ones */ On, /** no failure, but a call moves only a few bytes */ Short, /** writes only: no space left */ Full }
struct Open { inode: usize, pos: usize }
struct State {
    on: bool,
    dirs: Vec<String>,
    names: Vec<(String, usize)>,
    inodes: Vec<Vec<u8>>,
    fds: Vec<Option<Open>>,
    count: u64, kind: Fault, hit: bool, most: usize,
}
struct Cell(UnsafeCell<State>);
unsafe impl Sync for Cell {}
static ST: Cell = Cell(UnsafeCell::new(State { on: false, dirs: vec![], names: vec![], inodes: vec![], fds: vec![], count: 0, kind: Fault::None, hit: false, most: 0 }));
#[allow(clippy::mut_from_ref)]
fn st() -> &'static mut State { unsafe { &mut *ST.0.get() } }
const FD: c_int = 1000;
fn err(e: c_int) -> c_int { unsafe { *__errno_location() = e; } -1 }
impl State {
    /// whether this call fails
    fn fault(&mut self, write: bool) -> bool {
        if self.kind == Fault::None || self.kind == Fault::Short || (self.kind == Fault::Full && !write) { return false; }
        if self.hit { return self.kind != Fault::Once; }
        self.count += 1;
        if choose(2) == 1 { self.hit = true; return true; }
        false
    }
    fn dir(&self, n: &str) -> bool { let n = n.trim_end_matches('/'); n == "/d" || self.dirs.iter().any(|x| x == n) }
    fn find(&self, n: &str) -> Option<usize> { self.names.iter().position(|x| x.0 == n) }
}
unsafe fn name(p: *const c_char) -> String { unsafe { CStr::from_ptr(p) }.to_string_lossy().into_owned() }
#[unsafe(no_mangle)]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    let s = st();
    if !s.on { return unsafe { vh_raw_open(p, flags, mode) }; }
    if s.fault(flags & 0o1100 != 0) { return err(5); }
    let n = unsafe { name(p) };
    let i = match s.find(&n) {
        Some(i) => { let k = s.names[i].1; if flags & 0o200 != 0 && flags & 0o100 != 0 { return err(17); } if flags & 0o1000 != 0 { s.inodes[k].clear(); } k }
        None => { if flags & 0o100 == 0 || !n.rfind('/').is_some_and(|i| s.dir(&n[..i])) { return err(2); } s.inodes.push(Vec::new()); s.names.push((n, s.inodes.len() - 1)); s.inodes.len() - 1 }
    };
    s.fds.push(Some(Open { inode: i, pos: 0 }));
    FD + s.fds.len() as c_int - 1
}
fn of(f: c_int) -> Option<usize> { if st().on && f >= FD { Some((f - FD) as usize) } else { None } }
#[unsafe(no_mangle)]
pub unsafe extern "C" fn read(f: c_int, p: *mut c_void, n: usize) -> isize {
    let Some(i) = of(f) else { return unsafe { vh_raw_read(f, p, n) } };
    let s = st();
    if s.fault(false) { return err(5) as isize; }
    let Some(o) = &mut s.fds[i] else { return err(9) as isize };
    let d = &s.inodes[o.inode];
    let mut m = n.min(d.len().saturating_sub(o.pos));
    if s.kind == Fault::Short { m = m.min(s.most); }
    unsafe { std::ptr::copy_nonoverlapping(d.as_ptr().add(o.pos.min(d.len())), p as *mut u8, m); }
    o.pos += m;
    m as isize
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn write(f: c_int, p: *const c_void, n: usize) -> isize {
    let Some(i) = of(f) else { return unsafe { vh_raw_write(f, p, n) } };
    let s = st();
    if s.fault(true) { return err(28) as isize; }
    let m = if s.kind == Fault::Short { n.min(s.most) } else { n };
    let Some(o) = &mut s.fds[i] else { return err(9) as isize };
    let d = &mut s.inodes[o.inode];
    if d.len() < o.pos + m { d.resize(o.pos + m, 0); }
    unsafe { std::ptr::copy_nonoverlapping(p as *const u8, d.as_mut_ptr().add(o.pos), m); }
    o.pos += m;
    m as isize
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn lseek64(f: c_int, off: i64, w: c_int) -> i64 {
    let Some(i) = of(f) else { return unsafe { vh_raw_lseek(f, off, w) } };
    let s = st();
    let Some(o) = &mut s.fds[i] else { return err(9) as i64 };
    let x = off + match w { 0 => 0, 1 => o.pos as i64, _ => s.inodes[o.inode].len() as i64 };
    if x < 0 { return err(22) as i64; }
    o.pos = x as usize;
    x
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn close(f: c_int) -> c_int {
    let Some(i) = of(f) else { return unsafe { vh_raw_close(f) } };
    st().fds[i] = None;
    0
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn statx(d: c_int, p: *const c_char, fl: c_int, m: c_uint, out: *mut c_void) -> c_int {
    let s = st();
    if !s.on { return unsafe { vh_raw_statx(d, p, fl, m, out) }; }
    let k = if d >= FD { let Some(o) = &s.fds[(d - FD) as usize] else { return err(9) }; o.inode }
        else { if p.is_null() { return err(14); } let n = unsafe { name(p) }; match s.find(&n) { Some(i) => s.names[i].1, None if s.dir(&n) => usize::MAX, None => return err(2) } };
    unsafe {
        let o = out as *mut u8;
        std::ptr::write_bytes(o, 0, 256);
        *(o as *mut u32) = 0x7ff;
        *(o.add(4) as *mut u32) = 4096;
        *(o.add(16) as *mut u32) = 1;
        *(o.add(28) as *mut u16) = if k == usize::MAX { 0o40755 } else { 0o100644 };
        *(o.add(32) as *mut u64) = k.wrapping_add(10) as u64;
        *(o.add(40) as *mut u64) = s.inodes.get(k).map_or(0, |d| d.len()) as u64;
    }
    0
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    let s = st();
    if !s.on { return unsafe { vh_raw_unlink(p) }; }
    if s.fault(true) { return err(5); }
    match s.find(&unsafe { name(p) }) { Some(i) => { s.names.remove(i); 0 } None => err(2) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn mkdir(p: *const c_char, m: c_uint) -> c_int {
    let s = st();
    if !s.on { return unsafe { vh_raw_mkdir(p, m) }; }
    if s.fault(true) { return err(28); }
    let n = unsafe { name(p) }.trim_end_matches('/').to_string();
    if s.dir(&n) || s.find(&n).is_some() { return err(17); }
    if !n.rfind('/').is_some_and(|i| s.dir(&n[..i])) { return err(2); }
    s.dirs.push(n);
    0
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    let s = st();
    if !s.on { return unsafe { vh_raw_rename(a, b) }; }
    if s.fault(true) { return err(5); }
    let (a, b) = unsafe { (name(a), name(b)) };
    let Some(i) = s.find(&a) else { return err(2) };
    let k = s.names.remove(i).1;
    match s.find(&b) { Some(j) => s.names[j].1 = k, None => s.names.push((b, k)) }
    0
}

fn put(n: &str, d: &[u8]) { let s = st(); s.inodes.push(d.to_vec()); s.names.push((n.into(), s.inodes.len() - 1)); }
fn get(n: &str) -> Option<Vec<u8>> { let s = st(); s.find(n).map(|i| s.inodes[s.names[i].1].clone()) }
/// run with the disk; the fault strikes at any call, or at none
fn on<T>(kind: Fault, f: impl FnOnce() -> T) -> T {
    let s = st();
    s.on = true; s.count = 0; s.hit = false; s.kind = kind;
    if kind == Fault::Short { s.most = [1, 3, 64, 511][choose(4) as usize]; }
    let r = f();
    let s = st();
    s.on = false; s.kind = Fault::None;
    r
}
fn kind(i: u64) -> Fault { match param(i) { 1 => Fault::Once, 2 => Fault::On, 3 => Fault::Short, 4 => Fault::Full, _ => Fault::None } }
fn holds(file: &[u8], t: &Table) {
    check_streams(file, &t.streams, true);
    match vpx::from_bytes(file) { Ok(r) => check_same(&r, &t.vpx), Err(_) => check(false, "disk: the file can be read") }
}
/// param 0: 0 extracting, 1 reading what was extracted, 2 exporting. 1: kind of fault, 2: what the table holds, 3: mesh format
#[unsafe(no_mangle)]
pub extern "C" fn h_fs_dir() {
    let mut t = crate::h_exp::base();
    let k9 = |n: &str| crate::h_exp::kind_at(crate::h_exp::kind_no(n));
    match param(2) {
        0 => {
            t.vpx.images.push(crate::h_exp::an_image("a", b"a.png"));
            t.vpx.sounds.push(crate::h_exp::a_sound("b", b"b.wav"));
            let (f, _) = crate::parts::font(b"f", b"f.ttf", 4, None);
            t.vpx.fonts.push(vpin::vpx::font::read(&f));
            t.vpx.gameitems.push(crate::h_exp::an_item(k9("Bumper"), "x"));
            t.vpx.gamedata.images_size = 1; t.vpx.gamedata.sounds_size = 1; t.vpx.gamedata.fonts_size = 1; t.vpx.gamedata.gameitems_size = 1;
        }
        1 => {
            let i = &mut t.vpx.info;
            i.table_name = Some("n".into()); i.screenshot = Some(vec![1, 2, 3]);
            i.properties.insert("k".into(), "v".into());
            t.vpx.custominfotags = vec!["k".into()];
            t.vpx.collections.push(vpin::vpx::collection::Collection { name: "c".into(), items: vec!["x".into()], fire_events: true, stop_single_events: false, group_elements: true });
            t.vpx.gamedata.collections_size = 1;
        }
        _ => {}
    }
    if param(2) == 2 {
        let mut p = crate::h_mesh::prim("p");
        crate::h_mesh::set_mesh(&mut p, &[0x3f; 96], &[0, 0, 1, 0, 2, 0]);
        crate::h_mesh::set_frames(&mut p, &[vec![0x3f; 72], vec![0x3e; 72]]);
        t.vpx.gameitems = vec![vpin::vpx::gameitem::GameItemEnum::Primitive(p)];
        t.vpx.gamedata.gameitems_size = 1;
    }
    let o = crate::h_exp::options(param(3));
    let k = kind(1);
    st().dirs.push("/d/x".into());
    let d = Path::new("/d/x");
    let w = on(if param(0) == 0 { k } else { Fault::None }, || vpin::vpx::expanded::write(&t.vpx, &d, &o));
    if k == Fault::None || k == Fault::Short || !st().hit { check(w.is_ok(), "disk: without a failure the table is extracted"); }
    if w.is_ok() {
        let r = on(if param(0) == 1 { k } else { Fault::None }, || vpin::vpx::expanded::read(&d));
        match r { Ok(r) => check_same(&r, &t.vpx), Err(_) => check(param(0) == 1 && st().hit, "disk: what was extracted can be read") }
    }
    observe(&[w.is_ok() as u8]);
    reach(1);
}
fn refresh(t: &mut Table) {
    let i = t.streams.iter().position(|x| x.0 == "GameStg/GameData").unwrap();
    t.streams[i].1 = write_all_gamedata_records(&t.vpx.gamedata, &t.vpx.version);
}
const PATH: &str = "/d/t.vpx";
fn a_table() -> Table {
    let mut c = TableCfg::new();
    c.sym = false;
    if param(2) == 1 { c.items = vec![0, 2]; c.images = vec![1]; c.sounds = 1; c.fonts = 1; c.colls = 1; c.info = 0xfff; c.tags = 1; c.big = param(3) as usize; }
    table(&c)
}
/// param 0: operation, 1: kind of fault, 2: shape of the table, 3: size of an image
#[unsafe(no_mangle)]
pub extern "C" fn h_fs() {
    let mut t = a_table();
    let k = kind(1);
    let file = vpx::to_bytes(&t.vpx).unwrap();
    let p = Path::new(PATH);
    if param(0) != 0 { put(PATH, &file); }
    let ok = match param(0) {
        0 => on(k, || vpx::write(p, &t.vpx)).is_ok(),
        1 => match on(k, || vpx::open_rw(p).and_then(|mut f| f.lock())) { Ok(r) => { check(r, "disk: lock changed the file"); t.vpx.gamedata.locked = Some(1); true } Err(_) => false },
        2 => { t.vpx.gamedata.right = 7.5; on(k, || vpx::open_rw(p).and_then(|mut f| f.write_gamedata(&t.vpx.gamedata))).is_ok() }
        3 => { put("/d/t.vbs", b"' new script"); t.vpx.gamedata.code.string = "' new script".into(); on(k, || vpx::importvbs(p, None)).is_ok() }
        4 => on(k, || vpx::compact(p)).is_ok(),
        5 => { let r = on(k, || vpx::read(p)); if let Ok(r) = &r { check_same(r, &t.vpx); } true }
        6 => { let r = on(k, || vpx::extractvbs(p, None, false)).is_ok(); if r { check(get("/d/t.vbs").is_some_and(|x| x == t.vpx.gamedata.code.string.as_bytes()), "disk: the extracted script is the table's"); } true }
        7 => { let r = on(k, || vpx::verify(p)); if k == Fault::None || k == Fault::Short || !st().hit { check(r == vpx::VerifyResult::Ok(p.to_path_buf()), "disk: verify finds nothing wrong with a written table"); } true }
        _ => { let r = on(k, || vpx::new_minimal_vpx(p)).is_ok(); if r { let f = get(PATH).unwrap(); let (a, b) = verif::macs(&f).unwrap(); check(a == b, "disk: minimal table"); check_same(&vpx::from_bytes(&f).unwrap(), &vpx::from_bytes(&verif::minimal().unwrap()).unwrap()); } observe(&[r as u8]); reach(1); return; }
    };
    if k == Fault::None || k == Fault::Short || !st().hit { check(ok, "disk: without a failure the operation succeeds"); }
    observe(&[ok as u8]);
    if ok {
        refresh(&mut t);
        let f = get(PATH);
        check(f.is_some(), "disk: the file is there");
        let f = f.unwrap();
        if param(0) < 5 { holds(&f, &t); } else { check(f == file, "disk: reading does not change the file"); }
    } else if param(0) == 4 {
        // compacting replaces the file or leaves it
        let f = get(PATH);
        check(f.is_some(), "disk: compacting never loses the table");
        let f = f.unwrap();
        if f != file { holds(&f, &t); }
    }
    reach(1);
}
#[allow(unused)]
fn unused(_: Cursor<Vec<u8>>, _: VPX) {}

/// the text of an error
#[unsafe(no_mangle)]
pub unsafe extern "C" fn __xpg_strerror_r(_e: c_int, b: *mut c_char, n: usize) -> c_int { if n > 1 { unsafe { *b = b'?' as c_char; *b.add(1) = 0; } } 0 }
