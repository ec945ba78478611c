//! C25: a part means the same alone as within its file.
use crate::parse::{BLOCK, COMP, EVENT, FILE, LIB, PROJ, RES};
use crate::viewfile::FULL;
use crate::vp::*;
use swrs::parser::file::{File, FileItem};
use swrs::parser::library::{Library, LibraryItem};
use swrs::parser::logic::component::*;
use swrs::parser::logic::event::*;
use swrs::parser::logic::list_variable::*;
use swrs::parser::logic::more_block::*;
use swrs::parser::logic::variable::*;
use swrs::parser::logic::*;
use swrs::parser::resource::{Resource, ResourceItem};
use swrs::parser::view::models::AndroidView;
use swrs::parser::view::*;
use swrs::parser::*;

/// What the file says for the section whose text is `t`, between two other sections or alone.
fn in_logic(kind: &str, t: &str, around: u64) -> Result<ScreenLogic, ()> {
    let x = format!("@s.java_{}\n{}", kind, t);
    let f = match around { 0 => x, 1 => format!("@o.java_var\n1:x\n\n{}\n\n@o.java_list\n1:y", x), 2 => format!("{}\n", x), _ => format!("@s.java_zz\n\n{}\n\n@s.java_yy\n{}", x, BLOCK) };
    Logic::parse(&f).map_err(|_| ()).and_then(|mut l| l.screens.remove("s").ok_or(()))
}
/// Part alone (`a`), from lines (`i`, which must leave the line after the empty one) and within the file (`f`).
fn agree<T: PartialEq, E1, E2>(a: Result<T, E1>, i: Option<(Result<T, E2>, Option<&str>)>, f: Result<Option<T>, ()>) {
    if let Some((i, rest)) = i { match (&a, &i) { (Ok(x), Ok(y)) => { check(x == y, "a section read from lines is the section read from text"); check(rest == Some("after"), "a section ends at the first empty line") } (Err(_), Err(_)) => {} _ => check(false, "a section is readable from lines exactly when it is from text") } }
    match (a, f) { (Ok(x), Ok(Some(y))) => { reach("read"); check(x == y, "a section means the same alone as in its file") } (Err(_), Err(())) => reach("refused"), _ => check(false, "a section is readable alone exactly when it is in its file") }
}
fn one(k: u64, t: &str, around: u64) {
    for l in t.split('\n') { assume(!l.is_empty()) }
    macro_rules! go { ($T:ty, $kind:expr, $field:ident) => {{ let mut it = t.split("\n").chain(["", "after"]); let i = <$T>::parse_iter(&mut it); let n = it.next(); agree(<$T>::parse(t), Some((i, n)), in_logic($kind, t, around).map(|s| s.$field)) }} }
    match k {
        0 => go!(VariablePool, "var", variables), 1 => go!(ListVariablePool, "list", list_variables), 2 => go!(ComponentPool, "components", components), 3 => go!(EventPool, "events", events), 4 => go!(MoreBlockPool, "func", more_blocks),
        5 => agree::<_, _, ()>(BlockContainer::parse(t), None, in_logic("onX_onX", t, around).map(|mut s| s.block_containers.remove("onX_onX"))),
        _ => {
            let mut it = t.split("\n").chain(["", "after"]); let i = Layout::parse_iter(&mut it); let n = it.next(); let x = format!("@s.xml\n{}", t);
            let f = match around { 0 => x, 1 => format!("@o.xml\n\n{}\n\n@p.xml\n", x), 2 => format!("{}\n", x), _ => format!("@s.xml_fab\n{}\n{}\n\n@o.xml", FULL, x) };
            agree(Layout::parse(t), Some((i, n)), View::parse(&f).map_err(|_| ()).map(|mut v| v.layouts.remove("s")))
        }
    }
}
fn lines(k: u64) -> (&'static str, &'static str) { [("1:x", "2:yy"), ("1:x", "2:yy"), (COMP, COMP), (EVENT, EVENT), ("f:f %s.x", "g:g"), (BLOCK, BLOCK), (FULL, FULL)][k as usize] }
/// Each kind of section (variables, lists, components, events, more-blocks, blocks; views in the next one) of one record with any one byte of it any byte, or two lines one of which has up to 3 free bytes before or after it; alone, from a line sequence, and in a file on its own, before the end or between other sections. [jobs 8]
#[no_mangle] pub extern "C" fn h_c25_section() {
    let k = choose(6); let (a, b) = lines(k);
    let t = if choose(2) == 0 { let at = pick(a.len() as u64) as usize; hole(a, at, 1) } else { let f = text_upto(3); match choose(4) { 0 => format!("{}{}\n{}", f, a, b), 1 => format!("{}{}\n{}", a, f, b), 2 => format!("{}\n{}{}", a, f, b), _ => format!("{}\n{}{}", a, b, f) } };
    one(k, &t, choose(4)); reach("end");
}
/// Layouts of one view with a free byte in its text, id or at either end, or two views with up to 2 free bytes around either. [jobs 8]
#[no_mangle] pub extern "C" fn h_c25_layout() {
    let t = match choose(4) { 0 => { let at = FULL.find("\"id\":\"vid\"").unwrap() + choose(10) as usize; hole(FULL, at, 1) } 1 => { let f = text_upto(2); let v = FULL.replace("\"tx\"", &format!("\"{}\"", f)); v } 2 => { let f = text_upto(2); format!("{}{}", f, FULL) } _ => { let f = text_upto(2); if choose(2) == 0 { format!("{}{}\n{}", FULL, f, FULL) } else { format!("{}\n{}{}", FULL, FULL, f) } } };
    one(6, &t, choose(4)); reach("end");
}
/// Sections of 1 to 4 lines of any text of up to 2 bytes each. [jobs 8]
#[no_mangle] pub extern "C" fn h_c25_lines() { let k = [0, 1, 4][choose(3) as usize]; let n = choose(4); let mut t = text_upto(2); for _ in 0..n { let f = line_upto(1); t = t + "\n1:" + &f } one(k, &t, choose(2)); reach("end"); }
/// Each record of a list is what the record's own parser reads: file items, library items, resource items, components, events, blocks, variables, lists, more-blocks, views and floating buttons; one of two records with any one byte any byte, or up to two free bytes before or after it. [jobs 8]
#[no_mangle] pub extern "C" fn h_c25_record() {
    let k = choose(10); let base = [FILE, RES, LIB, COMP, EVENT, BLOCK, "1:x", "2:yy", "f:f %s.x", "{\"x\":1}"][k as usize]; let base = if k == 9 { FULL } else { base };
    let at = if k == 9 { base.find("\"enabled\":").unwrap() + choose(11) as usize } else { pick(base.len() as u64) as usize }; let r = match choose(3) { 0 => hole(base, at, 1), 1 => { assume(at == 0 || k == 9 && at == base.find("\"enabled\":").unwrap()); text_upto(2) + base } _ => { assume(at == 0 || k == 9 && at == base.find("\"enabled\":").unwrap()); s(base) + &text_upto(2) } }; for b in r.bytes() { assume(b != b'\n') }
    let second = choose(2) == 1; let (a, b) = if second { (base, &r[..]) } else { (&r[..], base) }; let i = second as usize;
    macro_rules! same { ($R:ty, $w:expr, $get:expr) => {{ match (<$R>::parse(&r), $w) { (Ok(x), Ok(l)) => { reach("read"); let y: Option<&$R> = $get(&l, &x); check(y == Some(&x), "a record means the same alone as in its list") } (Err(_), Err(_)) => reach("refused"), (Err(_), Ok(_)) => check(false, "a list with an unreadable record is refused"), (Ok(_), Err(_)) => check(false, "a list of readable records is read") } }} }
    match k {
        0 => if choose(2) == 0 { same!(FileItem, File::parse(&format!("@activity\n{}\n{}\n@customview", a, b)), |l: &'_ File, _| unsafe { (l as *const File).as_ref().unwrap().activities.get(i) }) } else { same!(FileItem, File::parse(&format!("@activity\n@customview\n{}\n{}", a, b)), |l: &'_ File, _| unsafe { (l as *const File).as_ref().unwrap().custom_views.get(i) }) },
        1 => { let s = choose(3); let h = ["images", "sounds", "fonts"][s as usize]; same!(ResourceItem, Resource::parse(&format!("@{}\n{}\n{}", h, a, b)), |l: &'_ Resource, _| unsafe { let l = (l as *const Resource).as_ref().unwrap(); [&l.images, &l.sounds, &l.fonts][s as usize].get(i) }) }
        2 => { let s = choose(4) as usize; let mut v = [LIB, LIB, LIB, LIB]; v[s] = &r; same!(LibraryItem, Library::parse(&format!("@firebaseDB\n{}\n@compat\n{}\n@admob\n{}\n@googleMap\n{}", v[0], v[1], v[2], v[3])), |l: &'_ Library, _| unsafe { let l = (l as *const Library).as_ref().unwrap(); Some([&l.firebase_db, &l.compat, &l.admob, &l.google_map][s]) }) }
        3 => same!(Component, ComponentPool::parse(&format!("{}\n{}", a, b)), |l: &'_ ComponentPool, _| unsafe { (l as *const ComponentPool).as_ref().unwrap().0.get(i) }),
        4 => same!(Event, EventPool::parse(&format!("{}\n{}", a, b)), |l: &'_ EventPool, _| unsafe { (l as *const EventPool).as_ref().unwrap().0.get(i) }),
        5 => same!(Block, BlockContainer::parse(&format!("{}\n{}", a, b)), |l: &'_ BlockContainer, _| unsafe { (l as *const BlockContainer).as_ref().unwrap().0.get(i) }),
        6 => same!(Variable, VariablePool::parse(&if second { format!("3:k\n{}", r) } else { format!("{}\n3:k", r) }), |l: &'_ VariablePool, x: &Variable| { if x.name == "k" { assume(second) } unsafe { (l as *const VariablePool).as_ref().unwrap().0.get(&x.name) } }),
        7 => same!(ListVariable, ListVariablePool::parse(&if second { format!("3:k\n{}", r) } else { format!("{}\n3:k", r) }), |l: &'_ ListVariablePool, x: &ListVariable| { if x.name == "k" { assume(second) } unsafe { (l as *const ListVariablePool).as_ref().unwrap().0.get(&x.name) } }),
        8 => same!(MoreBlock, MoreBlockPool::parse(&if second { format!("k:k\n{}", r) } else { format!("{}\nk:k", r) }), |l: &'_ MoreBlockPool, x: &MoreBlock| { if x.id == "k" { assume(second) } unsafe { (l as *const MoreBlockPool).as_ref().unwrap().0.get(&x.id) } }),
        _ => if choose(2) == 0 { same!(AndroidView, Layout::parse(&format!("{}\n{}", a, b)), |l: &'_ Layout, _| unsafe { (l as *const Layout).as_ref().unwrap().0.get(i) }) } else { same!(AndroidView, View::parse(&format!("@o.xml\n\n@s.xml_fab\n{}", r)), |l: &'_ View, _| unsafe { (l as *const View).as_ref().unwrap().fabs.get("s") }) },
    }
    reach("end");
}
/// A line of one to three free bytes (no line break) in place of a record, before, between or after good records of each kind, or as a floating button: the file or list is read exactly when that line is a record. [jobs 8]
#[no_mangle] pub extern "C" fn h_c25_short() {
    let l = line_upto(3); assume(!l.is_empty()); let k = choose(11); let g = [FILE, FILE, RES, LIB, COMP, EVENT, BLOCK, "1:x", "2:yy", "f:f %s.x", FULL][k as usize];
    let t = match choose(4) { 0 => s(&l), 1 => format!("{}\n{}", l, g), 2 => format!("{}\n{}", g, l), _ => format!("{}\n{}\n{}", g, l, g) };
    let (alone, list) = match k {
        0 => (FileItem::parse(&l).is_ok(), File::parse(&format!("@activity\n{}\n@customview", t)).is_ok()), 1 => (FileItem::parse(&l).is_ok(), File::parse(&format!("@activity\n@customview\n{}", t)).is_ok()),
        2 => { let x = choose(3) as usize; let mut v = [s(""), s(""), s("")]; v[x] = t + "\n"; (ResourceItem::parse(&l).is_ok(), Resource::parse(&format!("@images\n{}@sounds\n{}@fonts\n{}", v[0], v[1], v[2])).is_ok()) }
        3 => { let mut v = [LIB, LIB, LIB, LIB]; v[choose(4) as usize] = &l; (LibraryItem::parse(&l).is_ok(), Library::parse(&format!("@firebaseDB\n{}\n@compat\n{}\n@admob\n{}\n@googleMap\n{}", v[0], v[1], v[2], v[3])).is_ok()) }
        4 => (Component::parse(&l).is_ok(), Logic::parse(&format!("@s.java_components\n{}", t)).is_ok()), 5 => (Event::parse(&l).is_ok(), Logic::parse(&format!("@s.java_events\n{}", t)).is_ok()), 6 => (Block::parse(&l).is_ok(), Logic::parse(&format!("@s.java_q\n{}", t)).is_ok()),
        7 => (Variable::parse(&l).is_ok(), Logic::parse(&format!("@s.java_var\n{}", t)).is_ok()), 8 => (ListVariable::parse(&l).is_ok(), Logic::parse(&format!("@s.java_list\n{}", t)).is_ok()), 9 => (MoreBlock::parse(&l).is_ok(), Logic::parse(&format!("@s.java_func\n{}", t)).is_ok()),
        _ => if choose(2) == 0 { (AndroidView::parse(&l).is_ok(), View::parse(&format!("@s.xml\n{}", t)).is_ok()) } else { (AndroidView::parse(&l).is_ok(), View::parse(&format!("@s.xml_fab\n{}", l)).is_ok()) },
    };
    check(alone == list, "a list is readable exactly when all its records are"); reach("end");
}
fn trim(t: &str) -> &str { t.trim_matches('\n') }
/// The text of each part in its written file is the part's own text: pools, containers, layouts, buttons and records, with a free name in the part, next to other parts or alone. [jobs 8]
#[no_mangle] pub extern "C" fn h_c25_written() {
    let k = choose(9); let more = choose(2) == 1; let n = lower(2);
    let mut l = ScreenLogic::new_empty(s("s"));
    let (kind, text) = match k {
        0 => { let p = VariablePool::parse(&format!("1:{}\n2:q1", n)).unwrap(); let t = p.reconstruct().unwrap(); l.variables = Some(p); ("var", t) }
        1 => { let p = ListVariablePool::parse(&format!("1:{}\n2:q1", n)).unwrap(); let t = p.reconstruct().unwrap(); l.list_variables = Some(p); ("list", t) }
        2 => { let c = Component { id: n.clone(), ..Component::parse(COMP).unwrap() }; let u = c.reconstruct().unwrap(); let p = ComponentPool(vec![c.clone(), c]); let t = p.reconstruct().unwrap(); check(trim(&t) == format!("{}\n{}", u, u), "a list is written as its records"); l.components = Some(p); ("components", t) }
        3 => { let e = Event { event_name: n.clone(), event_type: 3, target_id: n.clone(), target_type: 1 }; let u = e.reconstruct().unwrap(); let p = EventPool(vec![e.clone(), e]); let t = p.reconstruct().unwrap(); check(trim(&t) == format!("{}\n{}", u, u), "a list is written as its records"); l.events = Some(p); ("events", t) }
        4 => { let p = MoreBlockPool::parse(&format!("{}:f %s.x\ng1:g", n)).unwrap(); let t = p.reconstruct().unwrap(); l.more_blocks = Some(p); ("func", t) }
        5 => { let b = Block::parse(&BLOCK.replace("addSourceDirectly", &n)).unwrap(); let u = b.reconstruct().unwrap(); let p = BlockContainer(vec![b.clone(), b]); let t = p.reconstruct().unwrap(); check(trim(&t) == format!("{}\n{}", u, u), "a list is written as its records"); l.block_containers.insert(s("zz"), p); ("zz", t) }
        6 => {
            let mut v = AndroidView::parse(FULL).unwrap(); v.id = n.clone(); let u = v.reconstruct().unwrap(); let p = Layout(vec![v.clone(), v.clone()]); let t = p.reconstruct().unwrap(); check(trim(&t) == format!("{}\n{}", u, u), "a list is written as its records");
            let mut f = View { layouts: Default::default(), fabs: Default::default() }; f.layouts.insert(n.clone(), p); if more { f.layouts.insert(s("o1"), Layout(vec![])); f.fabs.insert(s("s1"), v); }
            let w = f.reconstruct().unwrap(); observe(w.as_bytes()); let x = format!("@{}.xml\n{}", n, trim(&t)); if more { check(w.starts_with(&(x + "\n\n")), "a part is written in its file as it is alone"); check(trim(&w).ends_with(&format!("@s1.xml_fab\n{}", u)), "a part is written in its file as it is alone") } else { check(trim(&w) == x, "a part is written in its file as it is alone") } reach("end"); return
        }
        7 => { let i = FileItem::parse(&FILE.replace("main", &n)).unwrap(); let u = i.reconstruct().unwrap(); let f = File { activities: vec![i.clone(); 1 + more as usize], custom_views: vec![i; more as usize] }; let w = f.reconstruct().unwrap(); observe(w.as_bytes()); check(trim(&w) == trim(&if more { format!("@activity\n{0}\n{0}\n@customview\n{0}", u) } else { format!("@activity\n{}\n@customview", u) }), "a list is written as its records"); reach("end"); return }
        _ => { let i = ResourceItem::parse(&RES.replace("a.png", &n)).unwrap(); let u = i.reconstruct().unwrap(); let f = Resource { images: vec![i.clone(); 1 + more as usize], sounds: vec![i.clone(); more as usize], fonts: vec![i] }; let w = f.reconstruct().unwrap(); observe(w.as_bytes()); check(trim(&w) == trim(&if more { format!("@images\n{0}\n{0}\n@sounds\n{0}\n@fonts\n{0}", u) } else { format!("@images\n{0}\n@sounds\n@fonts\n{0}", u) }), "a list is written as its records"); reach("end"); return }
    };
    let x = format!("@s.java_{}\n{}", kind, trim(&text)); let mut f = Logic { screens: Default::default() }; f.screens.insert(s("s"), l);
    if more { let mut o = ScreenLogic::new_empty(s("o")); o.variables = Some(VariablePool::parse("1:x").unwrap()); o.block_containers.insert(s("yy"), BlockContainer(vec![])); f.screens.insert(s("o"), o); }
    let w = f.reconstruct().unwrap(); observe(w.as_bytes());
    if more { check(w == x.clone() || w.starts_with(&format!("{}\n\n", x)) || w.ends_with(&format!("\n\n{}", x)) || w.contains(&format!("\n\n{}\n\n", x)), "a part is written in its file as it is alone") } else { check(trim(&w) == x, "a part is written in its file as it is alone") }
    reach("end");
}
