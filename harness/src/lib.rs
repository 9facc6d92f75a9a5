mod rt;
mod h_basic;
mod h_gi;
mod h_acc;
mod h_gd;
mod rec;
mod parts;
mod h_media;
mod h_file;
mod h_json;
mod h_exp;
mod h_mesh;
mod h_fs;
mod h_edit;
mod h_bmp;
unsafe extern "C" { fn vhn_init(p: *mut u8, n: usize, ps: *const u64, np: i32); fn vhn_done(); }
pub fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 3 { eprintln!("usage: vh func inputfile [params]"); std::process::exit(2); }
    let mut input = std::fs::read(&a[2]).expect("input");
    let ps: Vec<u64> = a[3..].iter().map(|x| x.parse().unwrap()).collect();
    let f = TABLE.iter().find(|x| x.0 == a[1]).expect("no such harness").1;
    unsafe { vhn_init(input.as_mut_ptr(), input.len(), ps.as_ptr(), ps.len() as i32); }
    f();
    unsafe { vhn_done(); }
}
include!(concat!(env!("OUT_DIR"), "/table.rs"));
