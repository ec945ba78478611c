//! C21: an error points at the part that is at fault.
use crate::blocks_err::*;
use crate::parse::{BLOCK, COMP, EVENT, FILE, LIB, RES};
use crate::registry::{bad_record, with_logic};
use crate::screens::{code, item, pev};
use crate::viewfile::{av, av_full, FULL};
use crate::vp::*;
use crate::whole::{base, cv_item, java};
use swrs::api::screen::ScreenConstructionError as S;
use swrs::api::view::ParseLayoutError;
use swrs::api::APISketchwareProjectConversionError as A;
use swrs::api::*;
use swrs::parser::file::*;
use swrs::parser::library::*;
use swrs::parser::logic::component::{Component, ComponentPool};
use swrs::parser::logic::event::EventPool;
use swrs::parser::logic::more_block::{MoreBlock, MoreBlockPool};
use swrs::parser::logic::*;
use swrs::parser::resource::*;
use swrs::parser::view::*;
use swrs::parser::{Parsable, ResourceFileWrapper as W, ResourceFiles, ResourceFilesParseError, ResourceType};

fn newlines(t: &str) -> u32 { t.bytes().filter(|b| *b == b'\n').count() as u32 }
const KINDS: [(&str, &str); 6] = [("components", COMP), ("events", EVENT), ("b1_onClick", BLOCK), ("var", "1:x"), ("list", "2:y"), ("func", "mb:mb %s.a")];
/// A section of the logic file with n records, up to its closing blank line.
fn section(scr: &str, k: usize, n: usize) -> String { let mut t = format!("@{}.java_{}\n", scr, KINDS[k].0); for i in 0..n { t.push_str(&if k >= 3 { KINDS[k].1.replace('x', &format!("x{}", i)) } else { s(KINDS[k].1) }); t.push('\n') } t.push('\n'); t }
/// What a logic error says: section kind, screen, container, line of the header, index in the section, text of the record.
fn told(e: &LogicParseError) -> (usize, &str, &str, u32, u32, Option<&str>) {
    match e {
        LogicParseError::ComponentPoolParseError { screen_name, line, source } => (0, screen_name, "", *line, source.count, Some(&source.content)),
        LogicParseError::EventPoolParseError { screen_name, line, source } => (1, screen_name, "", *line, source.count, Some(&source.content)),
        LogicParseError::BlockContainerParseError { screen_name, container_name, line, source } => (2, screen_name, container_name, *line, source.block_count, None),
        LogicParseError::VariablePoolParseError { screen_name, line, source } => (3, screen_name, "", *line, source.count, Some(&source.content)),
        LogicParseError::ListVariablePoolParseError { screen_name, line, source } => (4, screen_name, "", *line, source.count, Some(&source.content)),
        LogicParseError::MoreBlockPoolParseError { screen_name, line, source } => (5, screen_name, "", *line, source.count, Some(&source.content)),
        LogicParseError::BlockContainerHeaderParseError { line, .. } => (9, "", "", *line, 0, None),
    }
}
fn logic_case(pre: String, scr: &str, k: usize, good: usize, bad: &str) {
    let mut t = pre; let at = newlines(&t); t.push_str(&format!("@{}.java_{}\n", scr, KINDS[k].0));
    for i in 0..good { t.push_str(&if k >= 3 { KINDS[k].1.replace('x', &format!("x{}", i)) } else { s(KINDS[k].1) }); t.push('\n') }
    t.push_str(bad); t.push('\n'); t.push_str(KINDS[k].1); t.push_str("\n\n"); t.push_str(&section("Z", 1, 1));
    match Logic::parse(&t) { Ok(_) => check(false, "a malformed record is an error"), Err(e) => { let (kk, sc, c, l, i, text) = told(&e); check(kk == k, "the error tells the kind of section"); check(sc == scr, "the error tells the screen"); check(k != 2 || c == KINDS[2].0, "the error tells the container"); check(l == at, "the error tells the line of the section"); check(i == good as u32, "the error tells which record of the section"); check(text.map_or(true, |x| x == bad), "the error shows the record"); std::mem::forget(e) } }
}
fn bad_logic(k: usize) -> String { if k < 3 { match choose(3) { 0 => { let c = lower(1); format!("{}{}", c, KINDS[k].1) } 1 => { let c = lower(2); format!("{}{}", KINDS[k].1, c) } _ => format!("{{\"{}\":1}}", lower(1)) } } else { match choose(2) { 0 => { let t = lower(2); if k < 5 { format!("{}:x", t) } else { t } } _ => { let t = plain(2); for c in t.bytes() { assume(c != b':') } t } } } }
/// Logic files: a malformed record, as record 0 to 3 of any kind of section, of a screen of any one-letter name, after no other section, one of any kind with 0 to 2 records, or that and a further one, and 0 to 2 more blank lines: section kind, screen, container, line of the header (from 0), index in the section and the record's text. [jobs 8] [time 400]
#[no_mangle] pub extern "C" fn h_c21_logic() {
    let k = choose(6) as usize; let mut pre = String::new(); let n = choose(3); if n > 0 { let q = choose(6) as usize; pre.push_str(&section("P", q, choose(3) as usize)); if n > 1 { pre.push_str(&section("Q", (q + 1) % 6, 1)) } }
    for _ in 0..choose(3) { pre.push('\n') }
    let good = choose(4) as usize; let b = bad_logic(k); let scr = lower(1); logic_case(pre, &scr, k, good, &b); reach("end");
}
/// The same after 4 to 130 records of the same section, and after 4 to 130 sections of any one kind. [jobs 8] [ins 90000000] [time 400]
#[no_mangle] pub extern "C" fn h_c21_logic_long() {
    let k = choose(6) as usize; let n = SIZES[choose(8) as usize]; let b = { let c = lower(2); if k < 3 { format!("{}{}", KINDS[k].1, c) } else { c } };
    if choose(2) == 0 { logic_case(section("P", (k + 1) % 6, 1), "A", k, n, &b) } else { let mut pre = String::new(); for i in 0..n { pre.push_str(&section(&format!("P{}", i), k, 1 + i % 2)) } logic_case(pre, "A", k, 1, &b) }
    reach("end");
}
/// The same after 255, 256, 257 or 300 records of the same section. [jobs 8] [ins 200000000] [time 400]
#[no_mangle] pub extern "C" fn h_c21_logic_far() {
    let k = choose(6) as usize; let n = [255, 256, 257, 300][choose(4) as usize]; let c = lower(2); let b = if k < 3 { format!("{{\"{}", c) } else { c }; logic_case(section("P", (k + 1) % 6, 1), "A", k, n, &b); reach("end");
}
/// Logic files: a line that is no header (any two bytes that do not start with an at sign, or an at sign and any two letters), after 0 to 2 sections and 0 to 2 blank lines: its line. [jobs 4]
#[no_mangle] pub extern "C" fn h_c21_header() {
    let mut t = String::new(); for _ in 0..choose(3) { t.push_str(&section("P", choose(6) as usize, choose(3) as usize)); } for _ in 0..choose(3) { t.push('\n') }
    let at = newlines(&t); let at_sign = choose(2) == 1; if at_sign { t.push('@'); t.push_str(&lower(2)) } else { let x = plain(2); assume(x.as_bytes()[0] != b'@'); t.push_str(&x) }
    t.push_str("\n1:x\n");
    match Logic::parse(&t) { Err(LogicParseError::BlockContainerHeaderParseError { line, source }) => { check(line == at, "the error tells the line"); check(matches!(source, BlockContainerHeaderParseError::NoContainerName) == at_sign && matches!(source, BlockContainerHeaderParseError::DoesntStartWithAtSign) != at_sign, "the error tells what is wrong with the header") } _ => check(false, "a line that is no header is an error") }
    reach("end");
}
/// File, resource and library lists: a malformed record (or one before any section, in the file and resource lists), after 0 to 3 good ones in each section before it, blank lines in between or not: its line (from 0), section and text. [jobs 8] [time 400]
#[no_mangle] pub extern "C" fn h_c21_lists() {
    let k = choose(3) as usize; let (rec, heads): (&str, &[&str]) = match k { 0 => (FILE, &["@activity", "@customview"]), 1 => (RES, &["@images", "@sounds", "@fonts"]), _ => (LIB, &["@firebaseDB", "@compat", "@admob", "@googleMap"]) };
    let at = choose(heads.len() as u64 + (k < 2) as u64) as usize; let gaps = choose(3) as usize; let mut t = String::new(); let early = at == heads.len();
    for _ in 0..gaps.saturating_sub(1) { t.push('\n') }
    let bad = if early { s(rec) } else { match choose(3) { 0 => { let c = lower(2); format!("{}{}", rec, c) } 1 => { let c = lower(1); format!("{}{}", c, rec) } _ => format!("{{\"{}\":1}}", lower(1)) } };
    let mut line = 0;
    if early { line = newlines(&t); t.push_str(&bad); t.push('\n') }
    for h in 0..heads.len() {
        t.push_str(heads[h]); t.push('\n');
        let good = if k == 2 { 1 } else if early { 1 } else if h <= at { choose(4) as usize } else { 1 };
        if h == at { if k < 2 { for _ in 0..good { t.push_str(rec); t.push('\n') } if gaps == 2 { t.push('\n') } } line = newlines(&t); t.push_str(&bad); t.push('\n') } else { for _ in 0..good { t.push_str(rec); t.push('\n') } }
        if gaps > 0 { t.push('\n') }
    }
    match k {
        0 => match File::parse(&t) { Err(FileParseError::FileItemParseError { line: l, content, .. }) => { check(l == line, "the error tells the line"); check(content == bad, "the error shows the record") } _ => check(false, "a malformed record is an error") },
        1 => match Resource::parse(&t) { Err(ResourceParseError::ResourceItemParseError { line: l, section, .. }) => { check(l == line, "the error tells the line"); check(section == [ResourceSection::Images, ResourceSection::Sounds, ResourceSection::Fonts, ResourceSection::None][at], "the error tells the section") } _ => check(false, "a malformed record is an error") },
        _ => match Library::parse(&t) { Err(LibraryParseError::LibraryItemParseError { line: l, header, .. }) => { check(l == line, "the error tells the line"); check(header == heads[at], "the error tells the section") } _ => check(false, "a malformed record is an error") },
    }
    reach("end");
}
/// Library files that lack one section, or end right after the header of one: the section is named.
#[no_mangle] pub extern "C" fn h_c21_library() {
    let h = ["@firebaseDB", "@compat", "@admob", "@googleMap"]; let at = choose(4) as usize; let cut = choose(2) == 1; let gap = choose(2); let rot = choose(4) as usize; let mut t = String::new();
    for j in 0..4 { let i = (j + rot) % 4; if i == at { continue } t.push_str(&format!("{}\n{}\n", h[i], LIB)); if gap == 1 { t.push('\n') } }
    if cut { t.push_str(h[at]) }
    match Library::parse(&t) { Err(LibraryParseError::MissingItem { header }) => check(!cut && header == h[at], "the missing section is named"), Err(LibraryParseError::EOFAfterHeader { header }) => check(cut && header == h[at], "the section that is cut off is named"), _ => check(false, "an incomplete library file is an error") }
    reach("end");
}
/// A view record without its optional entries, and switched off.
fn bare() -> String { FULL.replace("\"parent\":\"par\",", "").replace("\"preId\":\"pid\",", "").replace("\"preParent\":\"pp\",", "").replace("\"resName\":\"rn\",", "").replace("\"customView\":\"cv\"", "\"customView\":\"\"").replace("\"enabled\":0", "\"enabled\":1") }
/// View files: a malformed record in a layout (after 0 to 3 good ones, with or without optional entries, of either of two types) or as a floating action button, or a line that is no header, after 0 to 2 other layouts and buttons, of a screen of any one-byte name: screen, index in the layout, the view before it, line (from 1) and text. [jobs 8] [time 400] [ins 30000000]
#[no_mangle] pub extern "C" fn h_c21_view() {
    let mut t = String::new(); for i in 0..choose(3) { if choose(2) == 0 { t.push_str(&format!("@p{}.xml\n", i)); for _ in 0..choose(3) { t.push_str(FULL); t.push('\n') } t.push('\n') } else { t.push_str(&format!("@p{}.xml_fab\n{}\n", i, FULL)) } if choose(2) == 1 { t.push('\n') } }
    let scr = name(1); let k = choose(3);
    let bad = match choose(3) { 0 => { let c = lower(2); format!("{}{}", FULL, c) } 1 => { let c = lower(1); format!("{}{}", c, FULL) } _ => format!("{{\"{}\":1}}", lower(1)) };
    match k {
        0 => { let good = choose(4) as usize; let odd = choose(5); t.push_str(&format!("@{}.xml\n", scr)); for i in 0..good { let f = match odd { 0 => s(FULL), 1 if i + 1 == good => bare(), 1 => s(FULL), 2 => bare(), 3 if i + 1 < good => bare(), 3 => s(FULL), _ => FULL.replace("\"type\":27", "\"type\":0") }; t.push_str(&f.replace("\"id\":\"", &format!("\"id\":\"g{}", i))); t.push('\n') } t.push_str(&bad); t.push_str(&format!("\n{}\n\n@z.xml\n", FULL));
            match View::parse(&t) { Err(ViewParseError::LayoutParseError { screen_name, container_name, source }) => { check(screen_name == scr && container_name == "xml", "the error tells the layout"); check(source.line == good as u32, "the error tells which record of the layout"); check(source.content == bad, "the error shows the record"); match source.view_before { None => check(good == 0, "the error tells the view before"), Some(v) => check(good > 0 && v.id.starts_with(&format!("g{}", good.max(1) - 1)), "the error tells the view before") } } _ => check(false, "a malformed record is an error") } }
        1 => { t.push_str(&format!("@{}.xml_fab\n", scr)); let line = newlines(&t) + 1; t.push_str(&bad); t.push_str("\n@z.xml\n");
            match View::parse(&t) { Err(ViewParseError::FabParseError { screen_name, line: l, content, .. }) => { check(screen_name == scr, "the error tells the screen"); check(l == line, "the error tells the line"); check(content == bad, "the error shows the record") } _ => check(false, "a malformed record is an error") } }
        _ => { let line = newlines(&t) + 1; let h = match choose(3) { 0 => format!("@{}xml", scr), 1 => format!("@{}.xm{}", scr, { let c = lower(1); assume(c.as_bytes()[0] != b'l'); c }), _ => s(FULL) }; t.push_str(&h); t.push_str(&format!("\n{}\n", FULL));
            match View::parse(&t) { Err(ViewParseError::InvalidHeader { line: l, content }) => { check(l == line, "the error tells the line"); check(content == h, "the error shows the line") } _ => check(false, "a line that is no header is an error") } }
    }
    reach("end");
}
/// View files that end after the header of a floating action button, and 4 to 130 records before a malformed one. [jobs 8] [ins 200000000] [time 400]
#[no_mangle] pub extern "C" fn h_c21_view_long() {
    let n = SIZES[choose(if choose(2) == 0 { 8 } else { 6 }) as usize]; let c = lower(1); let small = r#"{"id":"#;
    let mut t = format!("@main.xml\n"); for _ in 0..n { t.push_str(FULL); t.push('\n') } t.push_str(small); t.push_str(&c); t.push_str("\n\n");
    match View::parse(&t) { Err(ViewParseError::LayoutParseError { screen_name, source, .. }) => { check(screen_name == "main", "the error tells the layout"); check(source.line == n as u32, "the error tells which record of the layout"); check(source.content == format!("{}{}", small, c), "the error shows the record") } _ => check(false, "a malformed record is an error") }
    match View::parse(&format!("@a.xml\n\n@{}.xml_fab", c)) { Err(ViewParseError::EOFAfterFabHeader { screen_name, .. }) => check(screen_name == c, "the error tells the screen"), _ => check(false, "a button section without its record is an error") }
    reach("end");
}

// ---------------------------------------------------------------- conversion
fn fails(p: swrs::parser::SketchwareProject) -> Option<A> { match swrs::api::SketchwareProject::try_from(p) { Ok(_) => { check(false, "a broken project is an error"); None } Err(e) => Some(e) } }
fn in_screen(p: swrs::parser::SketchwareProject, n: &str) -> Option<S> { match fails(p) { Some(A::ScreenConstructionError { java_screen_name, layout_screen_name, source }) => { check(layout_screen_name == n, "the error tells the screen"); check(java_screen_name == java(n), "the error tells the screen's class"); Some(source) } _ => { check(false, "the error tells the screen"); None } } }
/// A layout of 1 to 4 views of which one has no parent, or any unknown two-byte parent, in the first, second or third of three screens of any names, or in one of three custom views: screen (or custom view), view and parent. [jobs 8]
#[no_mangle] pub extern "C" fn h_c21_layout() {
    let mut p = base(); let at = choose(3) as usize; let custom = choose(2) == 1; let n = choose(4) as usize + 1; let b = choose(n as u64) as usize; let nm = if custom { name(2) } else { format!("q{}", name(2)) }; let full = choose(2) == 1;
    let q = text(2); for i in 0..n { assume(q != format!("v{}", i)) } let none = choose(2) == 1;
    let mut bad = vec![]; for i in 0..n { let mut v = if full { let mut v = av_full(); v.id = format!("v{}", i); v.parent = Some(s("root")); v.r#type = 0; v } else { av(&format!("v{}", i)) }; if i == b { v.parent = if none { None } else { Some(q.clone()) } } else if i > 0 && b != i - 1 { v.parent = Some(format!("v{}", i - 1)) } bad.push(v) }
    for i in 0..3 { let m = if i == at { nm.clone() } else { format!("pp{}x", i) }; if custom { p.file.custom_views.push(cv_item(&m)) } else { p.file.activities.push(item(&m)) } p.view.layouts.insert(m, Layout(if i == at { std::mem::take(&mut bad) } else { vec![av("v0")] })); }
    if q == "root" { assume(false) }
    let e = if custom { match fails(p) { Some(A::CustomViewParseLayoutError { custom_view_id, source }) => { check(custom_view_id == nm, "the error tells the custom view"); source } _ => { check(false, "the error tells the custom view"); return } } } else { match in_screen(p, &nm) { Some(S::LayoutParseError(x)) => x, _ => { check(false, "the error tells that the layout is at fault"); return } } };
    match e { ParseLayoutError::NoParentField { view_id } => check(none && view_id == format!("v{}", b), "the error tells the view"), ParseLayoutError::NonexistentParent { view_id, parent_id } => { check(!none && view_id == format!("v{}", b), "the error tells the view"); check(parent_id == q, "the error tells the parent") } }
    reach("end");
}
/// A custom view without layout, an unknown enabled flag (any two bytes) of a library, a listed resource without its file: the custom view, the library and the flag, the resource with its full name and type.
#[no_mangle] pub extern "C" fn h_c21_parts() {
    let mut p = base(); let nm = name(2);
    match choose(3) {
        0 => { let at = choose(3) as usize; for i in 0..3 { let m = if i == at { nm.clone() } else { format!("p{}x", i) }; p.file.custom_views.push(cv_item(&m)); if i != at { p.view.layouts.insert(m, Layout(vec![])); } }
            match fails(p) { Some(A::MissingCustomViewLayout { custom_view_id }) => check(custom_view_id == nm, "the error tells the custom view"), _ => check(false, "the error tells that a layout is missing") } }
        1 => { let k = choose(4) as usize; let y = text(2); let l = &mut p.library; for x in [&mut l.firebase_db, &mut l.compat, &mut l.admob, &mut l.google_map] { x.lib_type = u8_(); x.data = lower(1) } [&mut l.firebase_db, &mut l.admob, &mut l.google_map, &mut l.compat][k].use_yn = y.clone();
            match fails(p) { Some(A::InvalidUseYNValue { library_name, value }) => { check(library_name == ["firebase", "admob", "google map", "compat"][k], "the error tells the library"); check(value == y, "the error shows the value") } _ => check(false, "the error tells that a flag is wrong") } }
        _ => { let k = choose(3) as usize; let at = choose(3) as usize; let t = [ResourceType::Image, ResourceType::Sound, ResourceType::Font][k]; let mut rf = ResourceFiles::default();
            for i in 0..3 { let m = if i == at { nm.clone() } else { format!("p{}x", i) }; let full = format!("{}.f", m); [&mut p.resource.images, &mut p.resource.sounds, &mut p.resource.fonts][k].push(ResourceItem { full_name: full.clone(), name: m, r#type: 1 }); if i != at { [&mut rf.images, &mut rf.sounds, &mut rf.fonts][k].insert(full.clone(), W::StringId { id: s("i"), res_full_name: full, res_type: t }); } }
            for j in 0..3 { if choose(2) == 1 { let full = ["left.over", "z.mp3", "z.ttf"][j]; [&mut rf.images, &mut rf.sounds, &mut rf.fonts][j].insert(s(full), W::U32Id { id: 7, res_full_name: s(full), res_type: [ResourceType::Image, ResourceType::Sound, ResourceType::Font][j] }); } }
            if choose(2) == 1 { let full = format!("{}.f", nm); let j = (k + 1) % 3; [&mut rf.images, &mut rf.sounds, &mut rf.fonts][j].insert(full.clone(), W::StringId { id: s("i"), res_full_name: full, res_type: t }); }
            p.resource_files = Some(rf);
            match fails(p) { Some(A::MissingResourceFile { res_name, res_full_name, res_type }) => { check(res_name == nm && res_full_name == format!("{}.f", nm), "the error tells the resource"); check(res_type == t, "the error tells its type") } _ => check(false, "the error tells that a file is missing") } }
    }
    reach("end");
}
/// A component or event of an unknown type (any), at any of three places, in a screen of any name: screen, component id and type, or event name and type.
#[no_mangle] pub extern "C" fn h_c21_types() {
    let nm = format!("q{}", lower(1)); let mut l = ScreenLogic::new_empty(java(&nm)); let t = u8_(); let at = choose(3) as usize; let id = any_id(); let ev = choose(2) == 1;
    if ev { assume(t == 0 || t > 3); l.events = Some(EventPool((0..3).map(|i| pev(&if i == at { id.clone() } else { format!("e{}", i) }, if i == at { t } else { 1 }, "x", 0)).collect())) }
    else { assume(t == 0 || t > 21); l.components = Some(ComponentPool((0..3).map(|i| Component { id: if i == at { id.clone() } else { format!("c{}", i) }, param1: s(""), param2: s(""), param3: s(""), r#type: if i == at { t } else { 5 } }).collect())) }
    let mut p = with_logic(l); p.file.activities.push(item(&nm));
    match in_screen(p, &nm) { Some(S::UnknownComponentType(e)) => check(!ev && e.component_id == id && e.component_type == t, "the error tells the component and its type"), Some(S::UnknownEventType(e)) => check(ev && e.event_name == id && e.event_type == t, "the error tells the event and its type"), _ => check(false, "the error tells what is at fault") }
    reach("end");
}
/// Code that cannot be read, in the creation code, an event or a more-block: container and what is at fault.  More-block specs: the more-block and the word.
#[no_mangle] pub extern "C" fn h_c21_code() {
    let mut l = ScreenLogic::new_empty(s("MainActivity")); let f = any_fault(); let at = choose(4) as usize; let mb = name(2);
    let names = [s("onCreate_initializeLogic"), s("b1_onClick"), format!("{}_moreBlock", mb)];
    for i in 0..3 { l.block_containers.insert(names[i].clone(), if i == at { f.code() } else { code("fine") }); }
    l.events = Some(EventPool(vec![pev("onClick", 1, "b1", 0)])); let mut m = ritelinked::LinkedHashMap::new(); let w = format!("%{}", { let c = lower(1); let b = c.as_bytes()[0]; assume((b != b's') & (b != b'd') & (b != b'b') & (b != b'm')); c });
    m.insert(mb.clone(), MoreBlock { id: mb.clone(), spec: if at == 3 { format!("go {} on", w) } else { s("go %s.a") } }); l.more_blocks = Some(MoreBlockPool(m));
    match in_screen(with_logic(l), "main") { Some(S::BlocksParseError { container_name, source }) => { check(at < 3 && container_name == names[at.min(2)], "the error tells the container"); f.told(&source) } Some(S::MoreBlockSpecParseError { moreblock_id, source }) => { check(at == 3 && moreblock_id == mb, "the error tells the more-block"); word_told(&source, &w) } _ => check(false, "the error tells what is at fault") }
    reach("end");
}
/// Code by itself: the fault at the top or in either nested stack, one or two levels deep, after 0 to 3 good blocks at each level.
#[no_mangle] pub extern "C" fn h_c21_blocks() { let f = any_fault(); let b = f.code(); match swrs::api::block::Blocks::try_from(b) { Ok(_) => check(false, "broken code is an error"), Err(e) => f.told(&e) } reach("end"); }
/// Specs: unknown words and bad values (any three letters, or an at sign and two letters) for each kind of parameter, after 0 to 2 good parameters.
#[no_mangle] pub extern "C" fn h_c21_spec() { spec_fault(); reach("end"); }

// ---------------------------------------------------------------- resources
/// Resource files by path: a path in no known folder, or to no file, among others: the path.  Registries: the taken id, or the path of the missing file.
#[no_mangle] pub extern "C" fn h_c21_files() {
    let d = s(["b", "A0", "a.pn", "zz9"][choose(4) as usize]); file("r/images/601/a.png", b"x"); let bad = choose(3);
    match choose(2) {
        0 => { if bad == 2 { reach("end"); return } let path = if bad == 0 { format!("r/images/601/{}", d) } else { let q = format!("r/{}/601/f", s(["image", "icon", "x", "Images", "font"][choose(5) as usize])); file(&q, b"y"); q };
            let mut v = vec![W::Path("r/images/601/a.png".into()), W::StringId { id: s("i"), res_full_name: s("q.png"), res_type: ResourceType::Image }]; v.insert(choose(3) as usize, W::Path(path.clone().into()));
            match ResourceFiles::try_from(v) { Err(ResourceFilesParseError::FileDoesntExist { path: p }) => check(bad == 0 && p == std::path::Path::new(&path), "the error tells the path"), Err(ResourceFilesParseError::InvalidPath { path: p }) => check(bad == 1 && p == std::path::Path::new(&path), "the error tells the path"), Ok(_) => check(false, "a path that cannot be used is an error") } }
        _ => { let mut r = Resources::new_empty(); let t = [ResourceType::Image, ResourceType::Sound, ResourceType::Font]; let (a, b) = (choose(3) as usize, choose(3) as usize); let id = ResourceId(d.clone());
            check(r.put_resource(ResourceId(s("other one")), W::Path("r/images/601/a.png".into()), t[b]).is_ok(), "a free id is accepted");
            if bad < 2 { check(r.put_resource(id.clone(), W::StringId { id: s("i"), res_full_name: s("q.png"), res_type: t[a] }, t[a]).is_ok(), "a free id is accepted"); match r.put_resource(id.clone(), W::Path("r/images/601/a.png".into()), t[b]) { Err(ResourceAdditionError::IdTaken { id: x }) => { check(x == id, "the error tells the id"); let e = ResourceAdditionError::IdTaken { id: x }; if bad == 1 { check(e.to_string().contains(&d), "the message tells the id") } } _ => check(false, "a taken id is refused") } }
            else { let path = format!("r/images/601/{}", d); match r.put_resource(id, W::Path(path.clone().into()), t[b]) { Err(ResourceAdditionError::FileDoesntExist { path: x }) => check(x == std::path::Path::new(&path), "the error tells the path"), _ => check(false, "a missing file is refused") } } }
    }
    reach("end");
}
/// Projects with a number that cannot be written (not a number, or infinite) in any decimal field of one of up to 4 views or the button of one of three screens: the error names the layout and shows the view. [jobs 4]
#[no_mangle] pub extern "C" fn h_c21_write() {
    let mut v = View { layouts: Default::default(), fabs: Default::default() }; let at = choose(3) as usize; let n = choose(4) as usize + 1; let b = choose(n as u64) as usize; let fab = choose(2) == 1; let nm = format!("q{}", lower(1)); let x = [f32::NAN, f32::INFINITY, f32::NEG_INFINITY][choose(3) as usize]; let fld = choose(5) as usize;
    let spoil = |mut w: swrs::parser::view::models::AndroidView| { *[&mut w.alpha, &mut w.scale_x, &mut w.scale_y, &mut w.translation_x, &mut w.translation_y][fld] = x; w };
    for i in 0..3 { let m = if i == at { nm.clone() } else { format!("p{}", i) }; v.layouts.insert(m.clone(), Layout((0..n).map(|j| { let w = av(&format!("v{}", j)); if !fab && i == at && j == b { spoil(w) } else { w } }).collect())); let f = av("_fab"); v.fabs.insert(m, if fab && i == at { spoil(f) } else { f }); }
    match v.reconstruct() { Err(ViewReconstructionError::LayoutReconstructionError { source, screen_name, layout }) => { check(!fab && screen_name == nm, "the error tells the layout"); check(layout.0.len() == n, "the error shows the layout"); check(source.line == b as u32 && source.view.id == format!("v{}", b), "the error tells the view") } Err(ViewReconstructionError::FabReconstructionError { screen_name, view, .. }) => check(fab && screen_name == nm && view.id == "_fab", "the error tells the button"), Ok(_) => check(false, "a number that cannot be written is an error") }
    reach("end");
}
/// Single records: variables, list variables and more-blocks without a colon or of an unknown type (any letters, any code), unknown block types, category colours, and views of an unknown type or without their image: the text, the code, the view. 
#[no_mangle] pub extern "C" fn h_c21_values() {
    use swrs::api::view::{ViewType, ViewTypeConversionError as V}; use swrs::parser::logic::{variable::*, list_variable::*, more_block::MoreBlockParseError};
    match choose(7) {
        0 => { let t = text_upto(4); for b in t.bytes() { assume(b != b':') } match Variable::parse(&t) { Err(VariableParseError::MalformedVariable { content }) => check(content == t, "the error shows the record"), _ => check(false, "a record without a colon is an error") } match MoreBlock::parse(&t) { Err(MoreBlockParseError::MalformedMoreBlock { content }) => check(content == t, "the error shows the record"), _ => check(false, "a record without a colon is an error") } check(matches!(ListVariable::parse(&t), Err(ListVariableParseError::MissingColon)), "a record without a colon is an error") }
        1 => { let t = lower(3); match Variable::parse(&format!("{}:x", t)) { Err(VariableParseError::MalformedVariableType { content, .. }) => check(content == t, "the error shows the type"), _ => check(false, "a type that is no number is an error") } check(matches!(ListVariable::parse(&format!("{}:x", t)), Err(ListVariableParseError::VariableTypeIsNotInt(_))), "a type that is no number is an error") }
        2 => { let k = choose(252) + 4; let t = format!("{}:x", k); match Variable::parse(&t) { Err(VariableParseError::InvalidVariableType(e)) => check(e.value as u64 == k, "the error shows the type"), _ => check(false, "an unknown type is an error") } match ListVariable::parse(&t) { Err(ListVariableParseError::InvalidVariableType(e)) => check(e.value as u64 == k, "the error shows the type"), _ => check(false, "an unknown type is an error") } }
        3 => { let t = text_upto(2); if let Err(e) = swrs::api::block::BlockType::from(&t, s("x")) { check(e.block_type == t && e.type_name == "x", "the error shows the type") } }
        4 => { let c = u32_(); if let Err(e) = swrs::api::block::BlockCategory::try_from(swrs::color::Color::from(c)) { check(e.color == swrs::color::Color::from(c), "the error shows the colour") } }
        5 => { let mut v = av(""); v.id = any_id(); v.r#type = u8_(); v.image.res_name = Some(s("i")); match ViewType::from_view(&v) { Err(V::UnknownViewType { view_type, view_id }) => { check(view_type == v.r#type && view_id == v.id, "the error tells the view and its type"); check(v.r#type > 18 || v.r#type == 1, "known views are converted") } Err(_) => check(false, "the error tells what is at fault"), Ok(_) => check(v.r#type <= 18 && v.r#type != 1, "an unknown type is an error") } }
        _ => { let mut v = av(""); v.id = any_id(); v.r#type = [6, 16][choose(2) as usize]; v.image.res_name = None; match ViewType::from_view(&v) { Err(V::ResNameNotPresent { view_id }) => check(view_id == v.id, "the error tells the view"), _ => check(false, "an image without a name is an error") } match swrs::api::view::View::from(v.clone()).view { Err(V::ResNameNotPresent { view_id }) => check(view_id == v.id, "the error tells the view"), _ => check(false, "an image without a name is an error") } }
    }
    reach("end");
}
const FAR: [usize; 6] = [254, 255, 256, 65534, 65535, 65536];
/// Any of the five line-based files with 254 to 256 or 65534 to 65536 blank lines before a malformed record or header (any text of two letters): its line (in view files from 1). [jobs 8] [ins 400000000] [time 300]
#[no_mangle] pub extern "C" fn h_c21_far() {
    let n = FAR[choose(6) as usize]; let c = lower(2); let pre = "\n".repeat(n); let at = n as u32;
    match choose(5) {
        0 => match Logic::parse(&format!("{pre}@A.java_components\n{c}\n")) { Err(LogicParseError::ComponentPoolParseError { line, .. }) => check(line == at, "the error tells the line"), _ => check(false, "a malformed record is an error") },
        1 => match View::parse(&format!("{pre}@{c}\n{c}\n")) { Err(ViewParseError::InvalidHeader { line, .. }) => check(line == at + 1, "the error tells the line"), _ => check(false, "a line that is no header is an error") },
        2 => match File::parse(&format!("{pre}@activity\n{c}\n")) { Err(FileParseError::FileItemParseError { line, .. }) => check(line == at + 1, "the error tells the line"), _ => check(false, "a malformed record is an error") },
        3 => match Resource::parse(&format!("{pre}@fonts\n{c}\n")) { Err(ResourceParseError::ResourceItemParseError { line, .. }) => check(line == at + 1, "the error tells the line"), _ => check(false, "a malformed record is an error") },
        _ => match Library::parse(&format!("{pre}@admob\n{c}\n")) { Err(LibraryParseError::LibraryItemParseError { line, .. }) => check(line == at + 1, "the error tells the line"), _ => check(false, "a malformed record is an error") },
    }
    reach("end");
}
