//! Record tables (spec.tsv) and the construction of record streams from them.
use crate::rt::*;
use vpin::vpx::color::Color;
use vpin::vpx::gamedata::GameData;
use vpin::vpx::gameitem::GameItemEnum;
use vpin::vpx::gameitem::vertex2d::Vertex2D;
use vpin::vpx::gameitem::vertex3d::Vertex3D;
use vpin::vpx::material::Material;

#[derive(PartialEq, Clone, Copy, Debug)]
pub enum Ty { F32, U32, I32, Bool, Str, WStr, Vec2, Vec3, Vec3p, Color, Dili, Marker, Dpnt, Font, Data, Enum, Raw }
pub enum Got { None, Bits(Vec<u8>), S(String), Dbg(String), Skip, Wrong }
pub struct Rec<T: 'static> { pub tag: &'static str, pub ty: Ty, pub vals: &'static [(u32, &'static str)], pub opt: bool, pub field: &'static str, pub get: fn(&T) -> Got }
pub struct Kind { pub name: &'static str, pub id: u32, pub recs: &'static [Rec<GameItemEnum>] }
pub trait G { fn g(&self) -> Got; }
impl G for f32 { fn g(&self) -> Got { Got::Bits(self.to_bits().to_le_bytes().to_vec()) } }
impl G for u32 { fn g(&self) -> Got { Got::Bits(self.to_le_bytes().to_vec()) } }
impl G for i32 { fn g(&self) -> Got { Got::Bits(self.to_le_bytes().to_vec()) } }
impl G for bool { fn g(&self) -> Got { Got::Bits(vec![*self as u8, 0, 0, 0]) } }
impl G for String { fn g(&self) -> Got { Got::S(self.clone()) } }
impl G for Vec<u8> { fn g(&self) -> Got { Got::Bits(self.clone()) } }
impl G for Color { fn g(&self) -> Got { Got::Bits(vec![self.r, self.g, self.b]) } }
impl G for Vertex2D { fn g(&self) -> Got { let mut v = self.x.to_bits().to_le_bytes().to_vec(); v.extend(self.y.to_bits().to_le_bytes()); Got::Bits(v) } }
impl G for Vertex3D { fn g(&self) -> Got { let mut v = self.x.to_bits().to_le_bytes().to_vec(); v.extend(self.y.to_bits().to_le_bytes()); v.extend(self.z.to_bits().to_le_bytes()); Got::Bits(v) } }
impl G for Vec<vpin::vpx::gameitem::dragpoint::DragPoint> { fn g(&self) -> Got {
    let mut v = Vec::new();
    for d in self {
        for x in [d.x, d.y, d.z] { v.extend(x.to_bits().to_le_bytes()); }
        v.extend([d.smooth as u8, match d.is_slingshot { None => 2, Some(b) => b as u8 }, d.has_auto_texture as u8]);
        v.extend(d.tex_coord.to_bits().to_le_bytes());
    }
    Got::Bits(v)
} }
/// the settings of a font are private; the json form names them
pub fn font_of(x: impl serde::Serialize) -> Got {
    let j = &serde_json::to_value(x).unwrap()["font"];
    let n = |k: &str| j[k].as_u64().unwrap_or(if k == "charset" { 0 } else { 0xffff_ffff_ffff });
    let mut v = (n("charset") as u16).to_le_bytes().to_vec();
    v.extend((n("weight") as u16).to_le_bytes());
    v.extend((n("size") as u32).to_le_bytes());
    v.extend(j["name"].as_str().unwrap_or("").as_bytes());
    Got::Bits(v)
}
pub fn frames(p: &vpin::vpx::gameitem::primitive::Primitive) -> Got {
    let mut v = Vec::new();
    let (l, d) = (p.compressed_animation_vertices_len.as_deref().unwrap_or(&[]), p.compressed_animation_vertices_data.as_deref().unwrap_or(&[]));
    for i in 0..l.len().max(d.len()) { v.extend(l.get(i).copied().unwrap_or(0).to_le_bytes()); if let Some(d) = d.get(i) { v.extend(d); } }
    Got::Bits(v)
}
impl<T: G> G for Option<T> { fn g(&self) -> Got { match self { Some(x) => x.g(), None => Got::None } } }
include!(concat!(env!("OUT_DIR"), "/kinds.rs"));

/// what the typed field must hold
pub enum Want { None, Bits(Vec<u8>), S(String), Dbg(&'static str), Skip }

pub fn rec(out: &mut Vec<u8>, tag: &str, payload: &[u8]) {
    out.extend(((payload.len() + 4) as u32).to_le_bytes());
    out.extend(tag.as_bytes());
    for _ in tag.len()..4 { out.push(0); }
    out.extend(payload);
}
/// float bit pattern; the exact format must preserve every one, so NaNs are included unless `fin`
pub fn f(fin: bool) -> [u8; 4] { if fin { f32fin().to_bits().to_le_bytes() } else { sym_arr() } }
fn text(i: usize) -> String { format!("n{}", i) }

#[derive(Clone)]
pub struct Cfg {
    pub symbolic: bool,
    pub finite: bool,
    /// record index left out
    pub absent: Option<usize>,
    pub all_absent: bool,
    /// record index with symbolic text of this many units
    pub sym_text: Option<(usize, usize)>,
    /// record index whose enum takes each value / DILI takes each value
    pub sym_enum: Option<usize>,
    /// index before which an unknown record goes
    pub unknown_at: Option<usize>,
    pub drag_points: usize,
    pub pairs: usize,
    pub data_len: usize,
    /// records that are no plain payload
    pub raw: fn(&str, &Cfg, &mut Vec<u8>),
    /// tags left out
    pub without: &'static [&'static str],
    /// Some(which) : only that colour is symbolic
    pub sym_color: Option<Option<usize>>,
    /// the only record with symbolic numbers
    pub sym_rec: Option<usize>,
    /// every text is one ASCII character of its own
    pub all_text: bool,
    /// texts given by the caller
    pub texts: Vec<(usize, String)>,
}
impl Cfg { pub fn new() -> Self { Cfg { symbolic: true, finite: false, absent: None, all_absent: false, sym_text: None, sym_enum: None, unknown_at: None, drag_points: 1, pairs: 2, data_len: 5, raw: |_, _, _| {}, without: &[], sym_color: None, sym_rec: None, all_text: false, texts: vec![] } } }

/// the records of a drag point, and what its public fields must hold
fn drag_point(c: &Cfg, opt: bool) -> (Vec<u8>, Vec<u8>) {
    let (mut o, mut w) = (Vec::new(), Vec::new());
    let b = |c: &Cfg| -> [u8; 4] { [if c.symbolic { bools() as u8 } else { 1 }, 0, 0, 0] };
    let fl = |c: &Cfg| -> [u8; 4] { if c.symbolic { f(c.finite) } else { 1.5f32.to_le_bytes() } };
    let mut v = fl(c).to_vec(); v.extend(fl(c)); rec(&mut o, "VCEN", &v); w.extend(v);
    let x = fl(c); rec(&mut o, "POSZ", &x); w.extend(x);
    let x = b(c); rec(&mut o, "SMTH", &x); w.push(x[0]);
    if opt { let x = b(c); rec(&mut o, "SLNG", &x); w.push(x[0]); } else { w.push(2); }
    let x = b(c); rec(&mut o, "ATEX", &x); w.push(x[0]);
    let x = fl(c); rec(&mut o, "TEXC", &x); w.extend(x);
    rec(&mut o, "LOCK", &b(c));
    if opt {
        rec(&mut o, "LAYR", &if c.symbolic { sym_arr::<4>() } else { [7, 0, 0, 0] });
        rec(&mut o, "LANR", &[2, 0, 0, 0, b'd', b'p']);
        rec(&mut o, "LVIS", &b(c));
    }
    rec(&mut o, "ENDB", &[]);
    (o, w)
}

/// the record stream of one item (canonical order) and what each field must hold
pub fn build(k: &Kind, c: &Cfg) -> (Vec<u8>, Vec<Want>) {
    let mut o = k.id.to_le_bytes().to_vec();
    let w = build_recs(k.recs, c, &mut o);
    (o, w)
}
pub fn build_recs<T>(recs: &[Rec<T>], c: &Cfg, o: &mut Vec<u8>) -> Vec<Want> {
    let mut w = Vec::new();
    let mut skip_pair = false;
    for (i, r) in recs.iter().enumerate() {
        if c.unknown_at == Some(i) { rec(o, "ZQ7Z", &sym_arr::<6>()); }
        if skip_pair { skip_pair = false; w.push(Want::Skip); continue; }
        if (r.opt && c.all_absent) || c.absent == Some(i) || c.without.contains(&r.tag) { w.push(if r.opt { Want::None } else { Want::Skip }); continue; }
        let one;
        let c = if c.sym_rec == Some(i) { one = Cfg { symbolic: true, ..c.clone() }; &one } else { c };
        let sy = c.symbolic;
        match r.ty {
            Ty::F32 => { let p = if sy { f(c.finite) } else { (i as f32 + 0.25).to_le_bytes() }; rec(o, r.tag, &p); w.push(Want::Bits(p.to_vec())); }
            Ty::U32 | Ty::I32 if r.field == "None" && i + 1 < recs.len() => {
                // repeated (length, data) pairs
                let d = recs[i + 1].tag;
                let mut all = Vec::new();
                for n in 0..c.pairs {
                    let l = if sy { sym_arr::<4>() } else { [n as u8, 1, 0, 0] };
                    let x = if sy { sym_bytes(c.data_len) } else { vec![n as u8; c.data_len] };
                    rec(o, r.tag, &l); all.extend(l);
                    rec(o, d, &x); all.extend(x);
                }
                skip_pair = true;
                w.push(Want::Bits(all));
            }
            Ty::U32 | Ty::I32 => { let p = if sy { sym_arr::<4>() } else { [i as u8, 1, 2, 3] }; rec(o, r.tag, &p); w.push(Want::Bits(p.to_vec())); }
            Ty::Bool => { let p = [if sy { bools() as u8 } else { (i & 1) as u8 }, 0, 0, 0]; rec(o, r.tag, &p); w.push(Want::Bits(p.to_vec())); }
            Ty::Str | Ty::WStr => {
                let wide = r.ty == Ty::WStr;
                let (s, units): (String, Vec<u16>) = match c.sym_text {
                    Some((j, n)) if j == i => {
                        let mut s = String::new(); let mut u = Vec::new();
                        if n >= 10 {
                            // a long text: characters of any width at its start, any ASCII one at its end
if wide { u.extend([0xe9, 0x20ac, 0xd83d, 0xde00]); s.push_str("\u{e9}\u{20ac}\u{1f600}"); }
                            while u.len() + 1 < n { let x = b'a' as u16 + u.len() as u16 % 26; u.push(x); s.push(x as u8 as char); }
                        }
                        for _ in u.len()..n {
                            let x = if n >= 10 && wide { let x = u16s(); assume(x != 0 && x < 128); x } else if wide { let x = u16s(); assume(x != 0 && !(0xd800..0xe000).contains(&x)); x } else { let x = u8s(); assume(x != 0); x as u16 };
                            u.push(x);
                            s.push(char::from_u32(x as u32).unwrap());
                        }
                        (s, u)
                    }
                    _ if c.texts.iter().any(|x| x.0 == i) => { let s = c.texts.iter().find(|x| x.0 == i).unwrap().1.clone(); let u = if wide { s.encode_utf16().collect() } else { s.chars().map(|x| x as u16).collect() }; (s, u) }
                    _ if c.all_text => { let x = u8s(); assume(x != 0 && x < 128); ((x as char).to_string(), vec![x as u16]) }
                    _ => { let s = text(i); let u = s.encode_utf16().collect(); (s, u) }
                };
                let mut p = Vec::new();
                if wide { p.extend((units.len() as u32 * 2).to_le_bytes()); for u in &units { p.extend(u.to_le_bytes()); } }
                else { p.extend((units.len() as u32).to_le_bytes()); for u in &units { p.push(*u as u8); } }
                rec(o, r.tag, &p);
                w.push(Want::S(s));
            }
            Ty::Vec2 => { let mut p = Vec::new(); for _ in 0..2 { p.extend(if sy { f(c.finite) } else { 2.5f32.to_le_bytes() }); } rec(o, r.tag, &p); w.push(Want::Bits(p)); }
            Ty::Vec3 | Ty::Vec3p => {
                let mut p = Vec::new();
                for _ in 0..3 { p.extend(if sy { f(c.finite) } else { 3.5f32.to_le_bytes() }); }
                let q = p.clone();
                if r.ty == Ty::Vec3p { p.extend([0; 4]); }
                rec(o, r.tag, &p);
                w.push(Want::Bits(q));
            }
            Ty::Color => { let p = match c.sym_color { None if sy => sym_arr::<4>(), Some(x) if x == Some(i) => { hot_color() }, _ => [1, 2, 3, 0] }; rec(o, r.tag, &p); w.push(Want::Bits(p[..3].to_vec())); }
            Ty::Dili => { let p = if c.sym_enum == Some(i) { [u8s(), 0, 0, 0] } else { [77, 0, 0, 0] }; rec(o, r.tag, &p); w.push(Want::Skip); }
            Ty::Marker => { rec(o, r.tag, &[]); w.push(Want::Skip); }
            Ty::Dpnt => {
                let mut all = Vec::new();
                for n in 0..c.drag_points { let (body, x) = drag_point(c, !c.all_absent && n == 0); rec(o, r.tag, &[]); o.extend(body); all.extend(x); }
                w.push(Want::Bits(all));
            }
            Ty::Font => {
                // no size in the record header
                o.extend([4, 0, 0, 0]); o.extend(r.tag.as_bytes());
                o.push(1);
                let a = if sy { sym_arr::<2>() } else { [2, 0] };
                o.extend(a);
                o.push(if c.sym_enum == Some(i) { choose(32) as u8 } else { 6 });
                let mut x = a.to_vec();
                x.extend(if sy { sym_arr::<2>() } else { [0x90, 1] });
                x.extend(if sy { sym_arr::<4>() } else { [0, 5, 0, 0] });
                o.extend(&x[2..]);
                o.extend([5]); o.extend(b"Arial");
                x.extend(b"Arial");
                // (read through the json form)
                w.push(if sy && c.sym_rec != Some(i) { Want::Skip } else { Want::Bits(x) });
            }
            Ty::Data => { let p = if sy { sym_bytes(c.data_len) } else { vec![9; c.data_len] }; rec(o, r.tag, &p); w.push(Want::Bits(p)); }
            Ty::Raw => { (c.raw)(r.tag, c, o); w.push(Want::Skip); }
            Ty::Enum => {
                let n = if c.sym_enum == Some(i) { choose(r.vals.len() as u64) as usize } else { i % r.vals.len() };
                let (v, name) = r.vals[n];
                rec(o, r.tag, &v.to_le_bytes());
                w.push(Want::Dbg(name));
            }
        }
    }
    if c.unknown_at == Some(recs.len()) { rec(o, "ZQ7Z", &sym_arr::<6>()); }
    rec(o, "ENDB", &[]);
    w
}

pub fn check_fields<T>(name: &str, recs: &[Rec<T>], item: &T, want: &[Want]) {
    for (r, w) in recs.iter().zip(want) {
        if let Want::Skip = w { continue; }
        let ok = match ((r.get)(item), w) {
            (Got::Skip, _) => true,
            (Got::None, Want::None) => true,
            (Got::Dbg(d), Want::None) => d == "None",
            (Got::Bits(a), Want::Bits(b)) => bytes_eq(&a, b),
            (Got::S(a), Want::S(b)) => bytes_eq(a.as_bytes(), b.as_bytes()),
            (Got::Dbg(d), Want::Dbg(n)) => d == *n || d == format!("Some({n})"),
            _ => false,
        };
        check(ok, &format!("{}: record {} is read into {}", name, r.tag, r.field));
    }
}

pub fn same(name: &str, a: &[u8], b: &[u8], what: &str) {
    if a.len() != b.len() { check(false, &format!("{}: {} (length {} instead of {})", name, what, b.len(), a.len())); }
    check(bytes_eq(a, b), &format!("{}: {}", name, what));
}

/// a colour with one byte, in turn, of every hexadecimal digit
pub fn hot_color() -> [u8; 4] {
    let mut p = [1, 0xa2, 0x3b, if bools() { 0x80 } else { 0 }];
    p[choose(4) as usize] = choose(16) as u8 * 17;
    p
}
