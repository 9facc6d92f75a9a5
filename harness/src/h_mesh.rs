//! Meshes of primitives, in the files of an extracted table.
use crate::h_exp::*;
use crate::h_file::check_same;
use crate::rec::*;
use crate::rt::*;
use std::io::Write;
use vpin::vpx::gameitem::{GameItemEnum, primitive::Primitive};

fn pack(d: &[u8]) -> Vec<u8> {
    let mut e = flate2::write::ZlibEncoder::new(Vec::new(), flate2::Compression::default());
    e.write_all(d).unwrap();
    e.finish().unwrap()
}
const SPECIAL: &[u32] = &[
    0x3f80_0000, 0, 0x8000_0000, 0x7f80_0000, 0xff80_0000, 0x7fc0_0000, 0xffc0_0001, 0x7f80_0001, 1, 0x8000_0001, 0x7f7f_ffff, 0x3eaa_aaab, 0x3dcc_cccd, 0x3a83_126f,
    0xbf00_0000, 0x4000_0000, 0x4000_0001, 0x3eff_ffff, 0x3f7f_ffff, 0x3f80_0001, 0x2f80_0000, 0x3080_0000, 0x3000_0001, 0xc2c8_0000, 0x4b80_0001, 0x0080_0000,
];
fn special(nan: bool) -> u32 { let x = SPECIAL[choose(SPECIAL.len() as u64) as usize]; assume(nan || !f32::from_bits(x).is_nan()); x }
/// n vertices; component `hot` of vertex `at` is one of the special values
fn vertices(n: usize, at: usize, hot: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(n * 32);
    for i in 0..n { for k in 0..8 {
        let x = if i == at && k == hot { special(true) } else { (i as f32 * 8.0 + k as f32 * 0.25 - 3.0).to_bits() };
        v.extend(x.to_le_bytes());
    } }
    v
}
fn wide(n: usize) -> bool { n > 65535 }
fn index(n: usize, x: u32, o: &mut Vec<u8>) { if wide(n) { o.extend(x.to_le_bytes()) } else { o.extend((x as u16).to_le_bytes()) } }
pub fn set_mesh(p: &mut Primitive, v: &[u8], i: &[u8]) {
    let n = v.len() / 32;
    let (cv, ci) = (pack(v), pack(i));
    p.num_vertices = Some(n as u32);
    p.num_indices = Some((i.len() / if wide(n) { 4 } else { 2 }) as u32);
    p.compressed_vertices_len = Some(cv.len() as u32); p.compressed_vertices_data = Some(cv);
    p.compressed_indices_len = Some(ci.len() as u32); p.compressed_indices_data = Some(ci);
}
pub fn set_frames(p: &mut Primitive, f: &[Vec<u8>]) {
    let f: Vec<Vec<u8>> = f.iter().map(|x| pack(x)).collect();
    p.compressed_animation_vertices_len = Some(f.iter().map(|x| x.len() as u32).collect());
    p.compressed_animation_vertices_data = Some(f);
}
pub fn prim(name: &str) -> Primitive { match an_item(&KINDS[kind_no("Primitive")], name) { GameItemEnum::Primitive(p) => p, _ => unreachable!() } }
fn go(items: Vec<Primitive>, format: u64) {
    let mut t = base().vpx;
    t.gameitems = items.into_iter().map(GameItemEnum::Primitive).collect();
    t.gamedata.gameitems_size = t.gameitems.len() as u32;
    let (_, r) = through(&t, &options(format));
    check_same(&r, &t);
    reach(1);
}
fn tri(n: usize, f: &[[u32; 3]]) -> Vec<u8> { let mut o = Vec::new(); for t in f { for x in t { index(n, *x, &mut o); } } o }
/// one component of one vertex special. param 0: 0 obj 1 glb 2 gltf, 1: vertices, 2: which component
#[unsafe(no_mangle)]
pub extern "C" fn h_mesh_value() {
    let n = param(1) as usize;
    let at = choose(n as u64) as usize;
    let v = vertices(n, at, param(2) as usize);
    let mut p = prim("p");
    set_mesh(&mut p, &v, &tri(n, &[[0, (n - 1) as u32, (n / 2) as u32]]));
    go(vec![p], param(0));
}
/// binary forms: texture coordinates of every value, a byte of a normal in turn of every value
#[unsafe(no_mangle)]
pub extern "C" fn h_mesh_bits() {
    let n = param(1) as usize;
    let mut v = vertices(n, n, 0);
    if param(2) == 0 { for i in 0..n { for k in 24..32 { v[i * 32 + k] = u8s(); } } }
    else { v[(n - 1) * 32 + 12 + param(3) as usize] = u8s(); }
    let mut p = prim("p");
    set_mesh(&mut p, &v, &tri(n, &[[0, (n - 1) as u32, 0]]));
    go(vec![p], param(0));
}
/// faces: m of them over n vertices, every index of every value
#[unsafe(no_mangle)]
pub extern "C" fn h_mesh_faces() {
    let (n, m) = (param(1) as usize, param(2) as usize);
    let v = vertices(n, n, 0);
    let mut f = Vec::new();
    for _ in 0..m { let mut t = [0; 3]; for x in t.iter_mut() { *x = if param(0) == 0 { choose(n as u64) as u32 } else { let x = u16s() as u32; assume(x < n as u32); x }; } f.push(t); }
    let mut p = prim("p");
    set_mesh(&mut p, &v, &tri(n, &f));
    go(vec![p], param(0));
}
/// animation: param 1 frames over 2 vertices, component param 2 of one of them special
#[unsafe(no_mangle)]
pub extern "C" fn h_mesh_frames() {
    let m = param(1) as usize;
    let v = vertices(2, 2, 0);
    let at = if param(2) < 6 { choose(m as u64 * 2) as usize } else { usize::MAX };
    let mut f = Vec::new();
    for i in 0..m { let mut d = Vec::new(); for j in 0..2 { for k in 0..6u32 { let x = if i * 2 + j == at && k as u64 == param(2) { special(true) } else { (i as f32 * 10.0 + j as f32 * 2.0 + k as f32 * 0.5 - 1.0).to_bits() }; d.extend(x.to_le_bytes()); } } f.push(d); }
    let mut p = prim("p");
    set_mesh(&mut p, &v, &tri(2, &[[0, 1, 0]]));
    set_frames(&mut p, &f);
    go(vec![p], param(0));
}
/// two primitives whose files might meet. param 1: 0 "p", the other p?anim?0; 1 the other way round; 2: any name
#[unsafe(no_mangle)]
pub extern "C" fn h_mesh_names() {
    let v = vertices(2, 2, 0);
    let i = tri(2, &[[0, 1, 0]]);
    let c = if param(1) == 3 { b'c' } else { ch() };
    let other = match param(1) { 0 => format!("p{}anim_0", c as char), 1 => format!("p_anim{}0", c as char), 3 => String::new(), 4 => format!("x{}o y", c as char), _ => (c as char).to_string() };
    let mut p = prim("p");
    set_mesh(&mut p, &v, &i);
    if param(2) & 1 == 1 { set_frames(&mut p, &[v[..48].to_vec(), v[8..56].to_vec()]); }
    let mut q = prim(&other);
    set_mesh(&mut q, &vertices(3, 3, 0), &tri(3, &[[2, 1, 0]]));
    go(if param(2) & 2 == 2 { vec![p, q] } else { vec![q, p] }, param(0));
}
/// at the edge of two byte indices
#[unsafe(no_mangle)]
pub extern "C" fn h_mesh_many() {
    let n = param(1) as usize;
    let v = vertices(n, n, 0);
    let x = u32s(); assume(x < n as u32);
    let mut p = prim("p");
    set_mesh(&mut p, &v, &tri(n, &[[0, if param(0) == 0 { n as u32 - 1 } else { x }, n as u32 - 1]]));
    go(vec![p], param(0));
}
