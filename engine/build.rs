// Links the engine against the LLVM shared library that ships with the Rust
// toolchain (the one that wrote the bitcode) and against the system libz3.
use std::process::Command;
fn main() {
    let rustc = std::env::var("RUSTC").unwrap_or("rustc".into());
    let out = Command::new(rustc).args(["--print", "sysroot"]).output().expect("rustc");
    let root = String::from_utf8(out.stdout).unwrap().trim().to_string();
    let lib = format!("{}/lib", root);
    let mut found = None;
    for e in std::fs::read_dir(&lib).unwrap() {
        let n = e.unwrap().file_name().into_string().unwrap();
        if n.starts_with("libLLVM.so") { found = Some(n); }
    }
    let found = found.expect("libLLVM.so in the Rust toolchain");
    println!("cargo:rustc-link-search=native={}", lib);
    println!("cargo:rustc-link-arg=-l:{}", found);
    println!("cargo:rustc-link-arg=-Wl,-rpath,{}", lib);
    println!("cargo:rustc-link-search=native=/usr/lib/x86_64-linux-gnu");
    println!("cargo:rustc-link-lib=dylib=z3");
    println!("cargo:rerun-if-changed=build.rs");
}
