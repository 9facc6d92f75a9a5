fn spec() -> String {
    println!("cargo:rerun-if-changed=spec.tsv");
    let text = std::fs::read_to_string("spec.tsv").unwrap();
    let rows: Vec<Vec<&str>> = text.lines().map(|l| l.split('\t').collect::<Vec<_>>()).filter(|c| c.len() >= 6).collect();
    let mut kinds: Vec<&str> = Vec::new();
    for r in &rows { if !kinds.contains(&r[0]) { kinds.push(r[0]); } }
    let mut items = String::from("pub static KINDS: &[Kind] = &[\n");
    let mut tables = String::new();
    for kind in kinds {
        let own = matches!(kind, "GameData" | "Material");
        let mut recs = String::new();
        let mut id = "0";
        for c in rows.iter().filter(|c| c[0] == kind) {
            let (tag, ty, opt, field) = (c[2], c[3], c[4] == "1", c[5]);
            id = c[1];
            let mut vals = String::from("&[");
            let t = match ty {
                "f32" => "Ty::F32", "u32" => "Ty::U32", "i32" => "Ty::I32", "bool" => "Ty::Bool", "str" => "Ty::Str", "wstr" => "Ty::WStr",
                "vec2" => "Ty::Vec2", "vec3" => "Ty::Vec3", "vec3p" => "Ty::Vec3p", "color" => "Ty::Color", "dili" => "Ty::Dili",
                "marker" => "Ty::Marker", "dpnt" => "Ty::Dpnt", "font" => "Ty::Font", "data" => "Ty::Data", "raw" => "Ty::Raw",
                e if e.starts_with("enum") => {
                    for kv in e.split_once(':').unwrap().1.split(',') { let (v, n) = kv.split_once('=').unwrap(); vals += &format!("({v},\"{n}\"),"); }
                    "Ty::Enum"
                }
                e => panic!("{e}"),
            };
            vals += "]";
            let skip = (field == "None" && tag != "M3AY") || matches!(ty, "marker" | "raw" | "dili");
            let g = if ty == "font" { "font_of(x)".to_string() } else if tag == "M3AY" { "frames(x)".to_string() } else if t == "Ty::Enum" { format!("Got::Dbg(format!(\"{{:?}}\", x.{field}))") } else { format!("x.{field}.g()") };
            let get = if skip { "|_| Got::Skip".to_string() }
                else if own { format!("|x| {g}") }
                else { format!("|x| if let GameItemEnum::{kind}(x) = x {{ {g} }} else {{ Got::Wrong }}") };
            let f = if t == "Ty::Raw" { "-" } else { field };
            recs += &format!("  Rec{{tag:\"{tag}\",ty:{t},vals:{vals},opt:{opt},field:\"{f}\",get:{get}}},\n");
        }
        if own { tables += &format!("pub static {}: &[Rec<{kind}>] = &[\n{recs}];\n", kind.to_uppercase()); }
        else { items += &format!("Kind{{name:\"{kind}\",id:{id},recs:&[\n{recs}]}},\n"); }
    }
    items + "];\n" + &tables
}
fn main() {
    std::fs::write(format!("{}/kinds.rs", std::env::var("OUT_DIR").unwrap()), spec()).unwrap();
    println!("cargo:rerun-if-changed=src");
    // dispatch table: every `pub extern "C" fn h_*` of every src/h_*.rs
    let mut t = String::from("static TABLE: &[(&str, extern \"C\" fn())] = &[\n");
    let mut files: Vec<_> = std::fs::read_dir("src").unwrap().map(|e| e.unwrap().path()).collect();
    files.sort();
    for p in files {
        let m = p.file_stem().unwrap().to_str().unwrap().to_string();
        if !m.starts_with("h_") { continue; }
        println!("cargo:rerun-if-changed=src/{m}.rs");
        for l in std::fs::read_to_string(&p).unwrap().lines() {
            if let Some(r) = l.trim().strip_prefix("pub extern \"C\" fn ") { let n = r.split('(').next().unwrap(); t += &format!("    (\"{n}\", {m}::{n}),\n"); }
            else if let Some(r) = l.trim().strip_prefix("harness!(") { let n = r.split(',').next().unwrap(); t += &format!("    (\"{n}\", {m}::{n}),\n"); }
        }
    }
    t += "];\n";
    std::fs::write(format!("{}/table.rs", std::env::var("OUT_DIR").unwrap()), t).unwrap();
    let out = std::env::var("OUT_DIR").unwrap();
    let o = format!("{out}/rt.o");
    let a = format!("{out}/libvhrt.a");
    assert!(std::process::Command::new("gcc").args(["-O1", "-fPIC", "-c", "rt.c", "-o", &o]).status().unwrap().success());
    let _ = std::fs::remove_file(&a);
    assert!(std::process::Command::new("ar").args(["crs", &a, &o]).status().unwrap().success());
    println!("cargo:rustc-link-search=native={out}");
    println!("cargo:rustc-link-lib=static=vhrt");
    println!("cargo:rerun-if-changed=rt.c");
}
