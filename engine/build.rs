use std::process::Command;
fn main() {
    let out = Command::new(std::env::var("RUSTC").unwrap_or("rustc".into())).args(["--print", "sysroot"]).output().unwrap();
    let sysroot = String::from_utf8(out.stdout).unwrap().trim().to_string();
    let lib = format!("{sysroot}/lib");
    let mut llvm = None;
    for e in std::fs::read_dir(&lib).unwrap() {
        let n = e.unwrap().file_name().into_string().unwrap();
        if n.starts_with("libLLVM.so.") { llvm = Some(n); }
    }
    let llvm = llvm.expect("libLLVM not found in the Rust sysroot");
    let z = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib";
    // libstdc++ first: libLLVM exports parts of its own static copy
    println!("cargo:rustc-link-arg=-Wl,--no-as-needed");
    println!("cargo:rustc-link-arg=-l:libstdc++.so.6");
    println!("cargo:rustc-link-arg={z}/libz3.so");
    println!("cargo:rustc-link-arg=-Wl,-rpath,{z}");
    println!("cargo:rustc-link-arg={lib}/{llvm}");
    println!("cargo:rustc-link-arg=-Wl,-rpath,{lib}");
    println!("cargo:rerun-if-changed=build.rs");
}
