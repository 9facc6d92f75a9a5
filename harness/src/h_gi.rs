//! Game items: record streams <-> typed items, for every kind of spec.tsv.
//! spec.tsv is the frozen record table of the file format: which tag carries
//! which field, as which payload type, in which order the writer emits them.
//! param 0 = kind; param 2 = what is decided: 0 bytes written, 1 fields read.
use crate::rec::*;
use crate::rt::*;
use vpin::vpx::gameitem::{self, GameItemEnum};
use vpin::vpx::verif;

pub fn kind() -> &'static Kind { &KINDS[param(0) as usize] }
/// `input` is what is read, `expect` what the same item must be written as
fn judge(k: &Kind, input: &[u8], expect: &[u8], w: &[Want], what: &str) {
    let item = gameitem::read(input);
    if param(2) == 1 {
        let mut d = Vec::new();
        check(GameItemEnum::type_id(&item.type_name()) == k.id, &format!("{}: type name and type id agree", k.name));
        check_fields(k.name, k.recs, &item, w);
        d.extend(item.name().as_bytes());
        observe(&d);
    } else {
        let out = verif::gameitem_write(&item);
        observe(&out);
        same(k.name, expect, &out, what);
    }
    reach(1);
}
/// all records present, all fixed-size payloads symbolic
#[unsafe(no_mangle)]
pub extern "C" fn h_gi_full() {
    let k = kind();
    let mut c = Cfg::new();
    c.drag_points = param(1) as usize;
    c.pairs = param(1) as usize;
    if param(3) > 0 { c.data_len = param(3) as usize; }
    let (b, w) = build(k, &c);
    judge(k, &b, &b, &w, "written records equal the records read");
}
/// the settings of a font
#[unsafe(no_mangle)]
pub extern "C" fn h_gi_font() {
    let k = kind();
    let mut c = Cfg::new();
    c.symbolic = false;
    c.sym_rec = k.recs.iter().position(|r| r.ty == Ty::Font);
    let (b, w) = build(k, &c);
    judge(k, &b, &b, &w, "the font is kept");
}
/// one optional record absent (each in turn), or all of them
#[unsafe(no_mangle)]
pub extern "C" fn h_gi_absent() {
    let k = kind();
    let mut c = Cfg::new();
    c.symbolic = false;
    let n = k.recs.iter().filter(|r| r.opt).count();
    let j = choose(n as u64 + 1) as usize;
    if j == n { c.all_absent = true; } else { c.absent = k.recs.iter().enumerate().filter(|(_, r)| r.opt).nth(j).map(|(i, _)| i); }
    let (b, w) = build(k, &c);
    judge(k, &b, &b, &w, "an absent optional record stays absent and the rest is kept");
}
/// each text record in turn with symbolic text
#[unsafe(no_mangle)]
pub extern "C" fn h_gi_text() {
    let k = kind();
    let mut c = Cfg::new();
    c.symbolic = false;
    let v: Vec<usize> = k.recs.iter().enumerate().filter(|(_, r)| matches!(r.ty, Ty::Str | Ty::WStr)).map(|(i, _)| i).collect();
    let j = choose(v.len() as u64) as usize;
    c.sym_text = Some((v[j], param(1) as usize));
    let (b, w) = build(k, &c);
    judge(k, &b, &b, &w, "text records are kept");
}
/// every text record with a character of its own, so that any two may be equal
#[unsafe(no_mangle)]
pub extern "C" fn h_gi_texts() {
    let k = kind();
    let mut c = Cfg::new();
    c.symbolic = false;
    c.all_text = true;
    let (b, w) = build(k, &c);
    judge(k, &b, &b, &w, "text records are kept");
}
/// every enum value, every quantised value, every font style
#[unsafe(no_mangle)]
pub extern "C" fn h_gi_enum() {
    let k = kind();
    let mut c = Cfg::new();
    c.symbolic = false;
    let v: Vec<usize> = k.recs.iter().enumerate().filter(|(_, r)| matches!(r.ty, Ty::Enum | Ty::Dili | Ty::Font)).map(|(i, _)| i).collect();
    if v.is_empty() { reach(1); return; }
    let j = choose(v.len() as u64) as usize;
    c.sym_enum = Some(v[j]);
    let (b, w) = build(k, &c);
    judge(k, &b, &b, &w, "enumerated and quantised records are kept");
}
/// an unknown record anywhere does not disturb the known ones
#[unsafe(no_mangle)]
pub extern "C" fn h_gi_unknown() {
    let k = kind();
    let mut c = Cfg::new();
    c.symbolic = false;
    let (b0, w) = build(k, &c);
    c.unknown_at = Some(choose(k.recs.len() as u64 + 1) as usize);
    let (b, _) = build(k, &c);
    let item = gameitem::read(&b);
    check_fields(k.name, k.recs, &item, &w);
    let out = verif::gameitem_write(&item);
    observe(&out);
    same(k.name, &b0, &out, "known records survive an unknown one");
    reach(1);
}
