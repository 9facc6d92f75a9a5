//! GameData stream (table settings, materials, render probes, script, lock).
//! param 0 = number of materials/probes, param 1 = where EFSS stands
//! (0 after BOTM, 1 after VSM1, 2 absent), param 2 = 0 bytes / 1 fields.
use crate::rec::*;
use crate::rt::*;
use vpin::vpx::biff::{BiffRead, BiffReader, BiffWrite, BiffWriter};
use vpin::vpx::gamedata::{GameData, read_all_gamedata_records, write_all_gamedata_records};
use vpin::vpx::material::Material;
use vpin::vpx::version::Version;

/// a colour: one of the `n` in the record is symbolic in the json checks
fn wc(c: &Cfg, i: u8, hot: u8) -> [u8; 4] { if c.symbolic && c.finite { if i == hot { hot_color() } else { [i, 2, 3, 0] } } else { w4(c, i) } }
fn w4(c: &Cfg, i: u8) -> [u8; 4] { if c.symbolic { sym_arr() } else { [i, 2, 3, 0] } }
fn wf(c: &Cfg, i: u8) -> [u8; 4] { if c.symbolic { f(c.finite) } else { (i as f32 + 0.5).to_le_bytes() } }
/// name buffer of 32 bytes: latin1, NUL padded
fn name32(c: &Cfg, i: u8) -> Vec<u8> {
    let mut v = vec![0u8; 32];
    if c.all_text { let b = u8s(); assume(b != 0 && b < 128); v[0] = b; return v; }
    if c.symbolic { for x in v.iter_mut().take(2) { let b = u8s(); assume(b != 0 && (i != 1 || b < 128)); *x = b; } v[2] = b'0' + (i & 1); if i == 1 { for x in v.iter_mut().take(30).skip(3) { *x = b'x'; } let b = u8s(); assume(b != 0 && b < 128); v[30] = b; } } else { v[0] = b'm'; v[1] = b'0' + i; }
    v
}
fn byte_pad(c: &Cfg, b: bool) -> [u8; 4] { [if c.symbolic { if b { bools() as u8 } else { u8s() } } else { 1 }, 0, 0, 0] }
fn probe(c: &Cfg, i: u8) -> Vec<u8> {
    let mut o = Vec::new();
    rec(&mut o, "TYPE", &[i & 1, 0, 0, 0]);
    rec(&mut o, "NAME", &[2, 0, 0, 0, b'p', if c.symbolic || c.all_text { let x = u8s(); assume(x != 0 && x < 128); x } else { b'0' + i }]);
    rec(&mut o, "RBAS", &w4(c, i));
    if !c.all_absent { rec(&mut o, "RCLE", &w4(c, i)); }
    let mut v = Vec::new(); for _ in 0..4 { v.extend(wf(c, i)); }
    rec(&mut o, "RPLA", &v);
    rec(&mut o, "RMOD", &[if c.sym_enum.is_some() { choose(7) as u8 } else { i }, 0, 0, 0]);
    if !c.all_absent { rec(&mut o, "RLMP", &byte_pad(c, true)); }
    rec(&mut o, "ENDB", &[]);
    // real files carry bytes after the end of the probe
    if i & 1 == 0 { o.extend(if c.symbolic { sym_bytes(12) } else { vec![7; 12] }); }
    o
}
pub fn raw(tag: &str, c: &Cfg, o: &mut Vec<u8>) {
    let n = c.drag_points as u8;
    let efss = |o: &mut Vec<u8>| rec(o, "EFSS", &byte_pad(c, true));
    match tag {
        "EFSF" => if param(1) == 0 { efss(o) },
        "EFSB" => if param(1) == 1 { efss(o) },
        "MASI" => rec(o, "MASI", &[n, 0, 0, 0]),
        "MATE" => {
            let mut d = Vec::new();
            for i in 0..n {
                d.extend(name32(c, i));
                let hot = if c.symbolic && c.finite { choose(3) as u8 } else { 0 };
                for k in 0..3 { d.extend(wc(c, k, hot)); }
                d.extend(wf(c, i)); d.extend(byte_pad(c, true)); d.extend(wf(c, i + 1)); d.extend(byte_pad(c, false));
                d.extend(wf(c, i + 2)); d.extend(byte_pad(c, false)); d.extend(wf(c, i + 3)); d.extend(byte_pad(c, false));
            }
            rec(o, "MATE", &d);
        }
        "PHMA" => if !c.all_absent {
            let mut d = Vec::new();
            for i in 0..n { d.extend(name32(c, i)); for k in 0..4 { d.extend(wf(c, k)); } }
            rec(o, "PHMA", &d);
        },
        "MATR" => if !c.all_absent { for _ in 0..n {
            let mut d = Vec::new();
            let mut c2 = Cfg::new(); c2.symbolic = c.symbolic; c2.finite = c.finite; c2.all_text = c.symbolic || c.all_text; if c.finite { c2.sym_color = Some(None); }
            build_recs(MATERIAL, &c2, &mut d);
            rec(o, "MATR", &d);
        } },
        "RPRB" => if !c.all_absent { for i in 0..n { let d = probe(c, i); rec(o, "RPRB", &d); } },
        "CCUS" => { let mut d = Vec::new(); let hot = if c.symbolic && c.finite { choose(4) as u8 * 5 } else { 0 }; for k in 0..16 { d.extend(wc(c, k, hot)); } rec(o, "CCUS", &d); }
        "CODE" => {
            o.extend([4, 0, 0, 0]); o.extend(b"CODE");
            let d = if param(3) > 0 { code(param(3) as usize, param(4)) } else { b"Option Explicit".to_vec() };
            o.extend((d.len() as u32).to_le_bytes());
            o.extend(d);
        }
        _ => unreachable!(),
    }
}
/// script text: valid UTF-8 of `n` characters, each of 1 or 2 bytes, no NUL
fn code(n: usize, wide: u64) -> Vec<u8> {
    let mut v = Vec::new();
    // any bytes at all, in the encoding of old tables or not
    if wide == 255 { for _ in 0..n { let x = u8s(); assume(x != 0); v.push(x); } return v; }
    if n >= 100 { v = (0..n).map(|i| b'a' + (i % 26) as u8).collect(); v[n - 1] = u8s(); let x = v[n - 1]; assume(x != 0 && x < 128); return v; }
    for i in 0..n {
        if wide == 16 + 3 || wide == 16 + 4 {
            // characters of three and four bytes
            let mut c = [0; 4];
            let x = u32s();
            if wide == 19 { assume((0x800..0xffff).contains(&x) && !(0xd800..0xe000).contains(&x)); } else { assume((0x10000..0x110000).contains(&x)); }
            if wide == 19 { c[0] = 0xe0 | (x >> 12) as u8; c[1] = 0x80 | ((x >> 6) & 63) as u8; c[2] = 0x80 | (x & 63) as u8; v.extend(&c[..3]); }
            else { c[0] = 0xf0 | (x >> 18) as u8; c[1] = 0x80 | ((x >> 12) & 63) as u8; c[2] = 0x80 | ((x >> 6) & 63) as u8; c[3] = 0x80 | (x & 63) as u8; v.extend(c); }
            continue;
        }
        if (wide >> i) & 1 == 1 {
            let (a, b) = (u8s(), u8s());
            assume((0xc2..=0xdf).contains(&a) && (0x80..=0xbf).contains(&b));
            v.push(a); v.push(b);
        } else { let a = u8s(); assume(a != 0 && a < 128); v.push(a); }
    }
    v
}
pub fn version() -> Version {
    let v = u32s();
    match param(1) { 0 => assume(v >= 1080), 1 => assume(v <= 1080), _ => {} }
    Version::new(v)
}
pub fn cfg() -> Cfg { let mut c = Cfg::new(); c.raw = raw; c.drag_points = param(0) as usize; c }
/// CLMO came after EFSS had moved to the front for good
pub fn clmo(c: &mut Cfg, v: &Version) { if param(1) == 0 { assume(c.absent == Some(4) || c.all_absent || v.u32() > 1080); } }
fn judge(v: &Version, input: &[u8], expect: &[u8], w: &[Want], what: &str) {
    let gd: GameData = read_all_gamedata_records(input, v);
    if param(2) == 1 {
        check_fields("GameData", GAMEDATA, &gd, w);
        check(gd.bg_enable_fss.is_some() == (param(1) < 2), "GameData: EFSS is read at either place");
        check(gd.materials_old.len() as u64 == param(0), "GameData: number of legacy materials");
        fields(&gd, input);
        observe(gd.name.as_bytes());
    } else {
        let out = write_all_gamedata_records(&gd, v);
        observe(&out);
        same("GameData", expect, &out, what);
    }
    reach(1);
}
/// what the arrays of materials and colours and the script must hold
fn fields(gd: &GameData, b: &[u8]) {
    let mut at = 0;
    while at + 8 <= b.len() {
        let n = u32::from_le_bytes(b[at..at + 4].try_into().unwrap()) as usize;
        let (tag, d) = (&b[at + 4..at + 8], &b[at + 8..at + 4 + n]);
        at += 4 + n;
        let f = |x: f32, y: &[u8]| bytes_eq(&x.to_bits().to_le_bytes(), y);
        let co = |x: &vpin::vpx::color::Color, y: &[u8]| bytes_eq(&[x.r, x.g, x.b], &y[..3]);
        let name = |x: &str, y: &[u8]| { let mut t: Vec<u8> = x.chars().map(|c| c as u32 as u8).collect(); t.resize(32, 0); bytes_eq(&t, y) };
        match tag {
            b"MATE" => for (m, d) in gd.materials_old.iter().zip(d.chunks(76)) {
                check(name(&m.name, &d[..32]), "GameData: name of a legacy material");
                check(co(&m.base_color, &d[32..]) && co(&m.glossy_color, &d[36..]) && co(&m.clearcoat_color, &d[40..]), "GameData: colours of a legacy material");
                check(f(m.wrap_lighting, &d[44..48]) && f(m.roughness, &d[52..56]) && f(m.edge, &d[60..64]) && f(m.opacity, &d[68..72]), "GameData: numbers of a legacy material");
                check(m.is_metal as u8 == d[48] && m.glossy_image_lerp == d[56] && m.thickness == d[64] && m.opacity_active_edge_alpha == d[72], "GameData: bytes of a legacy material");
            },
            b"PHMA" => {
                let p = gd.materials_physics_old.as_deref().unwrap_or(&[]);
                check(p.len() == d.len() / 48, "GameData: number of legacy physics materials");
                for (m, d) in p.iter().zip(d.chunks(48)) {
                    check(name(&m.name, &d[..32]), "GameData: name of a legacy physics material");
                    check(f(m.elasticity, &d[32..36]) && f(m.elasticity_falloff, &d[36..40]) && f(m.friction, &d[40..44]) && f(m.scatter_angle, &d[44..48]), "GameData: numbers of a legacy physics material");
                }
            }
            b"CCUS" => for (c, d) in gd.custom_colors.iter().zip(d.chunks(4)) { check(co(c, d), "GameData: custom colours"); },
            b"CODE" => {
                let n = u32::from_le_bytes(b[at..at + 4].try_into().unwrap()) as usize;
                check(bytes_eq(gd.code.string.as_bytes(), &b[at + 4..at + 4 + n]), "GameData: the script");
                at += 4 + n;
            }
            b"RPRB" => {
                // the records of a probe follow the tag's own
            }
            _ => {}
        }
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn h_gd_full() {
    let v = version();
    let mut c = cfg();
    clmo(&mut c, &v);
    let mut b = Vec::new();
    let w = build_recs(GAMEDATA, &c, &mut b);
    judge(&v, &b, &b, &w, "written records equal the records read");
}
#[unsafe(no_mangle)]
pub extern "C" fn h_gd_absent() {
    let v = version();
    let mut c = cfg();
    c.symbolic = false;
    let n = GAMEDATA.iter().filter(|r| r.opt).count();
    let j = choose(n as u64 + 1) as usize;
    if j == n { c.all_absent = true; } else { c.absent = GAMEDATA.iter().enumerate().filter(|(_, r)| r.opt).nth(j).map(|(i, _)| i); }
    clmo(&mut c, &v);
    let mut b = Vec::new();
    let w = build_recs(GAMEDATA, &c, &mut b);
    judge(&v, &b, &b, &w, "an absent optional record stays absent and the rest is kept");
}
#[unsafe(no_mangle)]
pub extern "C" fn h_gd_text() {
    let v = version();
    let mut c = cfg();
    c.symbolic = false;
    clmo(&mut c, &v);
    let t: Vec<usize> = GAMEDATA.iter().enumerate().filter(|(_, r)| matches!(r.ty, Ty::Str | Ty::WStr)).map(|(i, _)| i).collect();
    if param(5) == 100 { c.all_text = true; } else { c.sym_text = Some((t[choose(t.len() as u64) as usize], param(5) as usize)); }
    let mut b = Vec::new();
    let w = build_recs(GAMEDATA, &c, &mut b);
    judge(&v, &b, &b, &w, "text records are kept");
}
#[unsafe(no_mangle)]
pub extern "C" fn h_gd_enum() {
    let v = version();
    let mut c = cfg();
    c.symbolic = false;
    clmo(&mut c, &v);
    let t: Vec<usize> = GAMEDATA.iter().enumerate().filter(|(_, r)| matches!(r.ty, Ty::Enum | Ty::Dili) || r.tag == "RPRB").map(|(i, _)| i).collect();
    c.sym_enum = Some(t[choose(t.len() as u64) as usize]);
    let mut b = Vec::new();
    let w = build_recs(GAMEDATA, &c, &mut b);
    judge(&v, &b, &b, &w, "enumerated and quantised records are kept");
}
#[unsafe(no_mangle)]
pub extern "C" fn h_gd_unknown() {
    let v = version();
    let mut c = cfg();
    c.symbolic = false;
    clmo(&mut c, &v);
    let mut b0 = Vec::new();
    let w = build_recs(GAMEDATA, &c, &mut b0);
    let at = choose(GAMEDATA.len() as u64 + 1) as usize;
    // before EFSS the preceding tag tells the 10.8.0 betas apart
    if GAMEDATA.get(at).map(|r| r.tag) == Some("EFSF") { reach(1); return; }
    c.unknown_at = Some(at);
    let mut b = Vec::new();
    build_recs(GAMEDATA, &c, &mut b);
    let gd = read_all_gamedata_records(&b, &v);
    check_fields("GameData", GAMEDATA, &gd, &w);
    let out = write_all_gamedata_records(&gd, &v);
    observe(&out);
    same("GameData", &b0, &out, "known records survive an unknown one");
    reach(1);
}
/// the script alone: param 3 characters, param 4 = which are two bytes wide
#[unsafe(no_mangle)]
pub extern "C" fn h_gd_code() {
    let v = version();
    let d = code(param(3) as usize, param(4));
    let mut b = Vec::new();
    b.extend([4, 0, 0, 0]); b.extend(b"CODE");
    b.extend((d.len() as u32).to_le_bytes());
    b.extend(&d);
    rec(&mut b, "TLCK", &sym_arr::<4>());
    rec(&mut b, "ENDB", &[]);
    let gd = read_all_gamedata_records(&b, &v);
    if param(4) != 255 { check(bytes_eq(gd.code.string.as_bytes(), &d), "GameData: the script is read as it stands"); }
    let out = write_all_gamedata_records(&gd, &v);
    observe(&out);
    let tail = &out[out.len().saturating_sub(b.len())..];
    same("GameData", &b, tail, "script and lock record are kept");
    reach(1);
}
/// one material record stream. param 0: 0 all, 1 text, 2 enum, 3 unknown
#[unsafe(no_mangle)]
pub extern "C" fn h_gd_material() {
    let mut c = Cfg::new();
    match param(0) {
        0 => {}
        1 => { c.symbolic = false; c.sym_text = Some((1, param(1) as usize)); }
        2 => { c.symbolic = false; c.sym_enum = Some(0); }
        _ => { c.symbolic = false; }
    }
    let mut b0 = Vec::new();
    let w = build_recs(MATERIAL, &c, &mut b0);
    let mut b = b0.clone();
    if param(0) == 3 { c.unknown_at = Some(choose(MATERIAL.len() as u64 + 1) as usize); b.clear(); build_recs(MATERIAL, &c, &mut b); }
    let m = Material::biff_read(&mut BiffReader::new(&b));
    if param(2) == 1 { check_fields("Material", MATERIAL, &m, &w); }
    let mut o = BiffWriter::new();
    m.biff_write(&mut o);
    observe(o.get_data());
    same("Material", &b0, o.get_data(), "written records equal the records read");
    reach(1);
}
