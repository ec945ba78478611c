mod vp;
mod smoke; mod crypto; mod logic; mod viewfile; mod lists; mod proj; mod blocks; mod parse; mod codes; mod tree; mod screens; mod whole; mod registry; mod norm; mod where_; mod blocks_err; mod edits; mod scratch; mod says; mod parts;
include!(concat!(env!("OUT_DIR"), "/table.rs"));
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 2 { for (n, _) in TABLE { println!("{}", n) } return; }
    let b = if a.len() > 2 { std::fs::read(&a[2]).expect("replay input") } else { vec![] };
    vp::RP.with(|r| r.borrow_mut().bytes = b);
    for (n, f) in TABLE { if *n == a[1] { f(); vp::finish(0, "done") } }
    eprintln!("unknown harness"); std::process::exit(3)
}
