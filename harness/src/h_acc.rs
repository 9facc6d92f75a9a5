//! What the item accessors report against what the records hold, and the
//! part-group order validation.
use crate::rec::*;
use crate::rt::*;
use vpin::vpx::gameitem::{self, GameItemEnum};

/// fields reported by images(), in order
const IMAGES: &[(&str, &[&str])] = &[
    ("Ball", &["image", "image_decal"]), ("Decal", &["image"]), ("Flasher", &["image_a", "image_b", "image_src_link", "light_map"]),
    ("Flipper", &["image"]), ("HitTarget", &["image"]), ("Light", &["image"]), ("Plunger", &["image"]),
    ("Primitive", &["image", "normal_map", "light_map"]), ("Ramp", &["image"]), ("Reel", &["image"]), ("Rubber", &["image"]),
    ("Spinner", &["image"]), ("Wall", &["image", "side_image"]),
];
const MATERIALS: &[(&str, &[&str])] = &[
    ("Bumper", &["cap_material", "base_material", "ring_material", "socket_material"]), ("Decal", &["material"]),
    ("Flipper", &["material", "rubber_material"]), ("Gate", &["material"]), ("HitTarget", &["material"]), ("Kicker", &["material"]),
    ("Plunger", &["material"]), ("Primitive", &["material"]), ("Ramp", &["material"]), ("Rubber", &["material"]), ("Spinner", &["material"]),
    ("Trigger", &["material"]), ("Wall", &["top_material", "side_material", "slingshot_material"]),
];
const VISIBLE: &[(&str, &[&str])] = &[
    ("Wall", &["is_top_bottom_visible", "is_side_visible"]), ("Flipper", &["is_visible"]), ("Plunger", &["is_visible"]), ("Trigger", &["is_visible"]),
    ("Light", &["visible"]), ("Gate", &["is_visible"]), ("Spinner", &["is_visible"]), ("Ramp", &["is_visible"]), ("Reel", &["is_visible"]),
    ("Primitive", &["is_visible"]), ("Flasher", &["is_visible"]), ("Rubber", &["is_visible"]), ("HitTarget", &["is_visible"]),
];
const PHYSICS: &[(&str, &[&str])] = &[
    ("HitTarget", &["physics_material"]), ("Primitive", &["physics_material"]), ("Ramp", &["physics_material"]), ("Rubber", &["physics_material"]), ("Wall", &["physics_material"]),
];
fn fields(t: &[(&'static str, &'static [&'static str])], k: &str) -> &'static [&'static str] { t.iter().find(|x| x.0 == k).map(|x| x.1).unwrap_or(&[]) }
/// index of the record holding a field
fn at(k: &Kind, field: &str) -> usize {
    match k.recs.iter().position(|r| r.field == field) { Some(i) => i, None => panic!("{} has no field {field} in spec.tsv", k.name) }
}
fn by_tag<'a>(k: &Kind, w: &'a [Want], tag: &str) -> Option<&'a Want> { k.recs.iter().position(|r| r.tag == tag).map(|i| &w[i]) }
fn s_of<'a>(w: Option<&'a Want>) -> Option<&'a str> { match w { Some(Want::S(s)) => Some(s), _ => None } }
fn b_of(w: Option<&Want>) -> Option<bool> { match w { Some(Want::Bits(b)) => Some(b[0] != 0), _ => None } }
fn u_of(w: Option<&Want>) -> Option<u32> { match w { Some(Want::Bits(b)) => Some(u32::from_le_bytes([b[0], b[1], b[2], b[3]])), _ => None } }
fn eq_s(a: Option<&str>, b: Option<&str>) -> bool { match (a, b) { (None, None) => true, (Some(x), Some(y)) => bytes_eq(x.as_bytes(), y.as_bytes()), _ => false } }
fn names(k: &Kind, w: &[Want], t: &[(&'static str, &'static [&'static str])]) -> Vec<String> {
    fields(t, k.name).iter().filter_map(|f| s_of(Some(&w[at(k, f)])).map(|s| s.to_string())).filter(|s| !s.is_empty()).collect()
}
fn list_eq(a: &[&str], b: &[String]) -> bool { a.len() == b.len() && a.iter().zip(b).fold(true, |r, (x, y)| r & bytes_eq(x.as_bytes(), y.as_bytes())) }

fn accessors(k: &Kind, item: &GameItemEnum, w: &[Want]) {
    let n = k.name;
    check(item.type_name() == n || (n == "TextBox" && item.type_name() == "Text") || GameItemEnum::type_id(&item.type_name()) == k.id, &format!("{n}: type_name"));
    check(GameItemEnum::type_id(&item.type_name()) == k.id, &format!("{n}: type name and type id agree"));
    if let Some(Want::S(s)) = by_tag(k, w, "NAME") { check(bytes_eq(item.name().as_bytes(), s.as_bytes()), &format!("{n}: name() is the NAME record")); }
    let lock = by_tag(k, w, "LOCK");
    if !matches!(lock, Some(Want::Skip)) { check(item.is_locked() == b_of(lock), &format!("{n}: is_locked() is the LOCK record")); }
    if n != "PartGroup" { check(item.editor_layer() == u_of(by_tag(k, w, "LAYR")), &format!("{n}: editor_layer() is the LAYR record")); }
    check(eq_s(item.editor_layer_name().as_deref(), s_of(by_tag(k, w, "LANR"))), &format!("{n}: editor_layer_name() is the LANR record"));
    check(item.editor_layer_visibility() == b_of(by_tag(k, w, "LVIS")), &format!("{n}: editor_layer_visibility() is the LVIS record"));
    check(eq_s(item.part_group_name(), s_of(by_tag(k, w, "GRUP"))), &format!("{n}: part_group_name() is the GRUP record"));
    check(list_eq(&item.images(), &names(k, w, IMAGES)), &format!("{n}: images() lists every image the records name"));
    check(list_eq(&item.materials(), &names(k, w, MATERIALS)), &format!("{n}: materials() lists every material the records name"));
    check(eq_s(item.physics_material(), names(k, w, PHYSICS).first().map(|x| x.as_str())), &format!("{n}: physics_material()"));
    let f = fields(VISIBLE, n);
    let want = if f.is_empty() { None } else { let v: Vec<Option<bool>> = f.iter().map(|f| b_of(Some(&w[at(k, f)]))).collect(); if v.iter().all(|x| x.is_none()) { None } else { Some(v.iter().any(|x| *x == Some(true))) } };
    let skip = f.iter().any(|f| matches!(w[at(k, f)], Want::Skip));
    if !skip { check(item.is_visible() == want, &format!("{n}: is_visible()")); }
    observe(item.name().as_bytes());
    for i in item.images() { observe(i.as_bytes()); }
    for i in item.materials() { observe(i.as_bytes()); }
    reach(1);
}
/// param 0 kind, param 1: 0 all symbolic, 1 one absent, 2 one text of param 2 characters
#[unsafe(no_mangle)]
pub extern "C" fn h_acc_item() {
    let k = &KINDS[param(0) as usize];
    let mut c = Cfg::new();
    match param(1) {
        0 => {}
        1 => {
            c.symbolic = false;
            let v: Vec<usize> = k.recs.iter().enumerate().filter(|(_, r)| r.opt).map(|(i, _)| i).collect();
            let j = choose(v.len() as u64 + 1) as usize;
            if j == v.len() { c.all_absent = true; } else { c.absent = Some(v[j]); }
        }
        _ => {
            c.symbolic = false;
            let v: Vec<usize> = k.recs.iter().enumerate().filter(|(_, r)| matches!(r.ty, Ty::Str | Ty::WStr)).map(|(i, _)| i).collect();
            c.sym_text = Some((v[choose(v.len() as u64) as usize], param(2) as usize));
        }
    }
    let (b, w) = build(k, &c);
    let item = gameitem::read(&b);
    accessors(k, &item, &w);
}

fn group(name: &str) -> GameItemEnum {
    let mut b = vec![24, 0, 0, 0];
    let mut p = (name.len() as u32 * 2).to_le_bytes().to_vec(); for c in name.bytes() { p.extend([c, 0]); }
    rec(&mut b, "NAME", &p);
    rec(&mut b, "ENDB", &[]);
    gameitem::read(&b)
}
fn member(id: u32, g: Option<&str>, name: &str) -> GameItemEnum {
    let mut b = id.to_le_bytes().to_vec();
    let mut p = (name.len() as u32 * 2).to_le_bytes().to_vec(); for c in name.bytes() { p.extend([c, 0]); }
    rec(&mut b, "NAME", &p);
    if let Some(g) = g { let mut p = (g.len() as u32).to_le_bytes().to_vec(); p.extend(g.as_bytes()); rec(&mut b, "GRUP", &p); }
    rec(&mut b, "ENDB", &[]);
    gameitem::read(&b)
}
/// every sequence of param 0 items over two groups and several item kinds
#[unsafe(no_mangle)]
pub extern "C" fn h_acc_order() {
    let n = param(0);
    const G: [&str; 2] = ["ga", "gb"];
    let mut items = Vec::new();
    let mut bad: Vec<(usize, usize)> = Vec::new();
    let mut seen = [false; 2];
    for i in 0..n as usize {
        let c = choose(5) as usize;
        let id = [2u32, 0, 19, 7][(i + param(1) as usize) % 4];
        if c < 2 { items.push(group(G[c])); seen[c] = true; }
        else if c == 4 { items.push(member(id, None, "free")); }
        else { items.push(member(id, Some(G[c - 2]), &format!("it{i}"))); if !seen[c - 2] { bad.push((i, c - 2)); } }
    }
    let w = gameitem::validate_part_group_order(&items);
    check(w.len() == bad.len(), "one warning for each item that precedes its part group");
    for (m, (i, g)) in w.iter().zip(&bad) {
        check(m.contains(&format!("[{i}]")) && m.contains(&format!("it{i}")) && m.contains(G[*g]), "the warning names the item and the group");
    }
    observe(w.join("\n").as_bytes());
    reach(1);
}
