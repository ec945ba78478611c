mod aes; mod exec; mod expr; mod hooks; mod ir; mod libc; mod mem; mod solver;
use exec::*;
use std::time::Instant;

/// Readable approximation of a v0-mangled name: its identifiers joined by `::`.
pub fn demangle(n: &str) -> String {
    if !n.starts_with("_R") { return n.to_string(); }
    let b = n.as_bytes(); let mut i = 2; let mut out: Vec<String> = vec![];
    while i < b.len() {
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let mut k = 0usize; let mut j = i; while j < b.len() && b[j].is_ascii_digit() { k = k * 10 + (b[j] - b'0') as usize; j += 1 }
            if j < b.len() && b[j] == b'_' { j += 1 }
            if k > 0 && j + k <= b.len() && b[j..j + k].iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_') && k < 200 && !b[j].is_ascii_digit() { out.push(n[j..j + k].to_string()); i = j + k; continue; }
            i = j; continue;
        }
        if b[i] == b's' { let mut j = i + 1; while j < b.len() && b[j].is_ascii_alphanumeric() { j += 1 } if j < b.len() && b[j] == b'_' { i = j + 1; continue; } }
        if b[i] == b'B' { let mut j = i + 1; while j < b.len() && b[j].is_ascii_alphanumeric() { j += 1 } if j < b.len() && b[j] == b'_' { i = j + 1; continue; } }
        i += 1;
    }
    out.join("::")
}
fn js(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } } o.push('"'); o }
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }

extern "C" { fn fork() -> i32; fn waitpid(p: i32, s: *mut i32, o: i32) -> i32; }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str, d: &str| -> String { a.iter().position(|x| x == k).map(|i| a[i + 1].clone()).unwrap_or(d.to_string()) };
    if a.len() > 1 && a[1] == "--version" { println!("symex 0.1, {}", solver::Solver::version()); return; }
    let bc = get("--bc", ""); let harness = get("--harness", ""); let out = get("--out", "-");
    let jobs: usize = get("--jobs", "1").parse().unwrap();
    let secs: f64 = get("--time", "600").parse().unwrap();
    let t0 = Instant::now();
    let m = ir::Module::load(&bc);
    let lim = Limits { max_ins: get("--max-ins", "12000000").parse().unwrap(), max_paths: get("--max-paths", "0").parse().unwrap(), deadline: limits(secs), samples: get("--samples", "24").parse().unwrap(), sample_every: get("--sample-every", "17").parse().unwrap(), max_viol: 24 };
    let mut x = Exec::new(m, lim, get("--solver-ms", "60000").parse().unwrap());
    let dump = get("--dump", ""); if !dump.is_empty() { let _ = std::fs::create_dir_all(&dump); x.sv.dump = Some(dump); x.sv.dump_max = get("--dump-max", "40").parse().unwrap(); }
    x.recheck = get("--recheck", "100").parse().unwrap();
    x.dbg = harness.starts_with("h_c24"); // their properties are about texts that `{:?}` may write
    let s = x.init_state(&harness);
    let load = t0.elapsed().as_secs_f64();
    x.work.push(s);
    let mut shard = 0usize; let mut kids = vec![];
    if jobs > 1 {
        // breadth-first until there is enough work to share, then one process per job
        x.bfs = true;
        while !x.work.is_empty() && x.work.len() < jobs * 8 && x.errors.is_empty() { let s = x.work.remove(0); x.run_state(s); }
        x.bfs = false;
        if x.work.len() > 1 {
            let n = jobs.min(x.work.len());
            let mut me = 0;
            for k in 1..n { let p = unsafe { fork() }; if p == 0 { me = k; kids.clear(); break; } else { kids.push(p) } }
            shard = me;
            if me != 0 { x.paths = 0; x.infeasible = 0; x.forks = 0; x.ins = 0; x.branches = 0; x.viol.clear(); x.samples.clear(); x.viol_total = 0; x.errors.clear(); x.sv.st = Default::default(); x.checks.clear(); x.sv.dump = None; for c in x.fcount.iter_mut() { *c = 0 } }
            let w = std::mem::take(&mut x.work);
            x.work = w.into_iter().enumerate().filter(|(i, _)| i % n == me).map(|p| p.1).collect();
        }
    }
    x.explore();
    let mut o = String::new();
    let st = x.sv.st.clone();
    o += &format!("{{\"harness\":{},\"shard\":{},\"wall_s\":{:.3},\"load_s\":{:.3},\"paths\":{},\"infeasible\":{},\"forks\":{},\"instructions\":{},\"branches\":{},\"violations_total\":{},\"exprs\":{},\"tables\":{},\"max_constraints\":{},", js(&harness), shard, t0.elapsed().as_secs_f64(), load, x.paths, x.infeasible, x.forks, x.ins, x.branches, x.viol_total, x.ar.n.len(), x.tables, x.max_pc);
    o += &format!("\"solver\":{{\"name\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cache_hits\":{},\"model_hits\":{},\"domain\":{},\"time_s\":{:.3},\"max_query_s\":{:.3}}},", js(&solver::Solver::version()), st.queries, st.sat, st.unsat, st.unknown, st.cache, st.model_hits, st.domain, st.time_s, st.max_s);
    let v: Vec<String> = x.viol.iter().map(|v| format!("{{\"id\":{},\"kind\":{},\"loc\":{},\"bytes\":\"{}\",\"trace\":[{}]}}", js(&v.id), js(v.kind), js(&v.loc), hex(&v.bytes), v.trace.iter().map(|s| js(s)).collect::<Vec<_>>().join(","))).collect();
    o += &format!("\"violations\":[{}],", v.join(","));
    let v: Vec<String> = x.samples.iter().map(|v| format!("{{\"bytes\":\"{}\",\"obs\":\"{}\"}}", hex(&v.bytes), hex(&v.obs))).collect();
    o += &format!("\"samples\":[{}],", v.join(","));
    o += &format!("\"reach\":[{}],", x.reach.iter().map(|s| js(s)).collect::<Vec<_>>().join(","));
    o += &format!("\"checks\":{{{}}},", x.checks.iter().map(|(k, v)| format!("{}:[{},{}]", js(k), v.0, v.1)).collect::<Vec<_>>().join(","));
    o += &format!("\"errors\":{{{}}},", x.errors.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
    let mut fs: Vec<(String, u64)> = x.fcount.iter().enumerate().filter(|(_, c)| **c > 0).map(|(i, c)| (x.m.funcs[i].name.clone(), *c)).collect(); fs.sort();
    o += &format!("\"functions\":{{{}}},", fs.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
    let mut fk: Vec<_> = x.forksites.iter().collect(); fk.sort_by(|a, b| b.1.cmp(a.1)); fk.truncate(12);
    o += &format!("\"forksites\":[{}]}}", fk.iter().map(|((f, pc), n)| format!("[{},{},{}]", js(&demangle(&x.m.funcs[*f as usize].name)), pc, n)).collect::<Vec<_>>().join(","));
    if out == "-" { println!("{}", o); } else { std::fs::write(format!("{}.{}", out, shard), o).unwrap(); }
    for k in kids { let mut s = 0; unsafe { waitpid(k, &mut s, 0); } if s != 0 { eprintln!("shard failed: status {}", s); std::process::exit(4); } }
    if shard != 0 { std::process::exit(0); }
}
