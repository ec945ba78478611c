// Collects every `extern "C" fn h_*` of src/*.rs into the replay binary's table.
use std::io::Write;
fn main() {
    let mut names = vec![];
    let mut mods = vec![];
    for e in std::fs::read_dir("src").unwrap() {
        let p = e.unwrap().path();
        if p.extension().map_or(true, |x| x != "rs") { continue; }
        println!("cargo:rerun-if-changed={}", p.display());
        let m = p.file_stem().unwrap().to_str().unwrap().to_string();
        let s = std::fs::read_to_string(&p).unwrap();
        for l in s.lines() {
            let l = l.trim();
            if let Some(i) = l.find("extern \"C\" fn h_") {
                let r = &l[i + "extern \"C\" fn ".len()..];
                let n: String = r.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
                names.push((m.clone(), n));
            }
        }
        if m != "main" && m != "vp" { mods.push(m); }
    }
    println!("cargo:rerun-if-changed=src");
    names.sort();
    let out = std::env::var("OUT_DIR").unwrap();
    let mut f = std::fs::File::create(format!("{}/table.rs", out)).unwrap();
    writeln!(f, "pub static TABLE: &[(&str, extern \"C\" fn())] = &[").unwrap();
    for (m, n) in &names { writeln!(f, "  (\"{}\", crate::{}::{}),", n, m, n).unwrap(); }
    writeln!(f, "];").unwrap();
}
