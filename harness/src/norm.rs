//! C19: whole raw projects; C20: accepted text has a stable written form.
use crate::parse::{BLOCK, COMP, EVENT, FILE, LIB, PROJ, RES};
use crate::viewfile::FULL;
use crate::vp::*;
use swrs::parser::file::{File, FileItem};
use swrs::parser::library::{Library, LibraryItem};
use swrs::parser::logic::component::*;
use swrs::parser::logic::event::*;
use swrs::parser::logic::list_variable::*;
use swrs::parser::logic::more_block::*;
use swrs::parser::logic::variable::*;
use swrs::parser::logic::*;
use swrs::parser::project::Project;
use swrs::parser::resource::{Resource, ResourceItem};
use swrs::parser::view::models::AndroidView;
use swrs::parser::view::*;
use swrs::parser::*;

// ---------------------------------------------------------------- C20
fn st<T: Parsable + PartialEq>(t: &str) {
    if let Ok(m) = T::parse(t) {
        reach("accepted");
        match m.reconstruct() {
            Err(_) => check(false, "what was read can be written"),
            Ok(u) => { observe(u.as_bytes()); match T::parse(&u) { Err(_) => check(false, "what was written can be read"), Ok(n) => { check(m == n, "what was written says the same as what was read"); match n.reconstruct() { Ok(w) => check(w == u, "the written form is stable"), Err(_) => check(false, "what was read can be written") } std::mem::forget(n) } } }
        }
        std::mem::forget(m);
    } else { reach("refused") }
}
/// The logic file: the order of the screens may follow the order of the written sections.
fn st_logic(t: &str) {
    if let Ok(m) = Logic::parse(t) {
        reach("accepted");
        match m.reconstruct() {
            Err(_) => check(false, "what was read can be written"),
            Ok(u) => { observe(u.as_bytes()); match Logic::parse(&u) { Err(_) => check(false, "what was written can be read"), Ok(n) => { check(m.screens.len() == n.screens.len(), "no screen is lost or added"); for (k, v) in m.screens.iter() { check(n.screens.get(k) == Some(v), "what was written says the same as what was read") } std::mem::forget(n) } } }
        }
        std::mem::forget(m);
    } else { reach("refused") }
}
fn st_rec(k: usize, t: &str) { match k { 0 => st::<Block>(t), 1 => st::<Component>(t), 2 => st::<Event>(t), 3 => st::<FileItem>(t), 4 => st::<LibraryItem>(t), 5 => st::<ResourceItem>(t), 6 => st::<Project>(t), _ => st::<AndroidView>(t) } }
fn rec(k: usize) -> &'static str { [BLOCK, COMP, EVENT, FILE, LIB, RES, PROJ, FULL][k] }
/// JSON records (block, component, event, file item, library item, resource item) with any one byte replaced by any byte. [jobs 8]
#[no_mangle] pub extern "C" fn h_c20_record_byte() { let k = choose(6) as usize; let b = rec(k); let at = pick(b.len() as u64) as usize; st_rec(k, &hole(b, at, 1)); reach("end"); }
/// The project record with any one byte replaced by any byte. [jobs 8]
#[no_mangle] pub extern "C" fn h_c20_project_byte() { let at = pick(PROJ.len() as u64) as usize; st_rec(6, &hole(PROJ, at, 1)); reach("end"); }
/// A view record with any one byte replaced by any byte (within a decimal number such as alpha: any 7-bit byte, one by one). [jobs 8]
#[no_mangle] pub extern "C" fn h_c20_view_byte() {
    let at = pick(FULL.len() as u64) as usize; let b = FULL.as_bytes();
    let num = |c: u8| c.is_ascii_digit() || c == b'.' || c == b'-'; let (mut i, mut j) = (at, at); while i > 0 && num(b[i - 1]) { i -= 1 } while j < b.len() && num(b[j]) { j += 1 }
    let decimal = FULL[i..j].contains('.') || FULL[..i].ends_with("\"alpha\":") || FULL[..i].ends_with("\"scaleX\":") || FULL[..i].ends_with("\"scaleY\":") || FULL[..i].ends_with("\"translationX\":") || FULL[..i].ends_with("\"translationY\":");
    let t = if decimal { let mut v = b.to_vec(); v[at] = choose(128) as u8; String::from_utf8(v).unwrap() } else { hole(FULL, at, 1) };
    st_rec(7, &t); reach("end");
}
/// Decimal numbers of a view in 24 special spellings (limits of the format and beyond, negative zero, exponents, integers, not a number at all), for each of the five decimal fields.
#[no_mangle] pub extern "C" fn h_c20_decimals() {
    let n = ["0", "-0", "-0.0", "1", "0.1", "-0.1", "1e5", "1E-5", "16777217", "3.4028235e38", "-3.4028235e38", "3.5e38", "1e39", "-1e39", "1e308", "1e400", "1e-45", "1e-50", "1.17549435e-38", "0.30000001192092896", "123456789.123456789", "null", "\"1\"", "NaN"][choose(24) as usize];
    let (f, v) = [("alpha", "0.5"), ("scaleX", "1.5"), ("scaleY", "2.5"), ("translationX", "3.5"), ("translationY", "4.5")][choose(5) as usize];
    st_rec(7, &FULL.replace(&format!("\"{}\":{}", f, v), &format!("\"{}\":{}", f, n))); reach("end");
}
/// Text lines (variables, list variables, more-blocks, block headers, and pools of them) of any UTF-8 text of up to 5 bytes. [jobs 8]
#[no_mangle] pub extern "C" fn h_c20_lines() { let k = choose(7); let t = text_upto(5); match k { 0 => st::<Variable>(&t), 1 => st::<ListVariable>(&t), 2 => st::<MoreBlock>(&t), 3 => st::<BlockContainerHeader>(&t), 4 => st::<VariablePool>(&t), 5 => st::<ListVariablePool>(&t), _ => st::<MoreBlockPool>(&t) } reach("end"); }
/// Pools of two lines (variables, list variables, more-blocks, items, components, events, blocks) with up to 3 free bytes before or after either line. [jobs 8]
#[no_mangle] pub extern "C" fn h_c20_pools() {
    let k = choose(7) as usize; let (a, b) = [("1:x", "2:yy"), ("1:x", "2:yy"), ("f:f %s.x", "g:g"), (FILE, FILE), (COMP, COMP), (EVENT, EVENT), (BLOCK, BLOCK)][k]; let f = text_upto(3); let (x, y) = match choose(4) { 0 => (f + a, s(b)), 1 => (s(a) + &f, s(b)), 2 => (s(a), f + b), _ => (s(a), s(b) + &f) };
    let t = format!("{}\n{}", x, y);
    match k { 0 => st::<VariablePool>(&t), 1 => st::<ListVariablePool>(&t), 2 => st::<MoreBlockPool>(&t), 3 => st::<File>(&format!("@activity\n{}", t)), 4 => st::<ComponentPool>(&t), 5 => st::<EventPool>(&t), _ => st::<BlockContainer>(&t) }
    reach("end");
}

/// The coded fields of a record hold any text of one byte, any byte followed by a digit, or one of 30 special spellings (signs, leading zeros, exponents, limits, other JSON types). [jobs 8]
#[no_mangle] pub extern "C" fn h_c20_numbers() {
    const SP: [&str; 30] = ["", "-0", "00", "007", "1.0", "1e1", "+1", " 1", "1 ", "\\u0031", "127", "128", "255", "256", "-128", "65535", "65536", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775808", "99999999999999999999", "true", "\"1\"", "null", "[]", "{}"];
    let k = choose(32) as usize; let n = match k { 30 => { let b = choose(128) as u8; (b as char).to_string() } 31 => { let b = choose(128) as u8; format!("{}1", b as char) } _ => s(SP[k]) };
    match choose(9) { 0 => st::<Block>(&BLOCK.replace("-10701022", &n)), 1 => st::<Block>(&BLOCK.replace("12,", &format!("{},", n))), 2 => st::<FileItem>(&FILE.replace("-1", &n)), 3 => st::<Event>(&EVENT.replace("3", &n)), 4 => st::<Project>(&PROJ.replace("601", &n)), 5 => st::<FileItem>(&FILE.replace("\"options\":1", &format!("\"options\":{}", n))), 6 => st::<Component>(&COMP.replace("2}", &format!("{}}}", n))), 7 => st::<Project>(&PROJ.replace("\"1\"", &format!("\"{}\"", n))), _ => st::<LibraryItem>(&LIB.replace("\"libType\":0", &format!("\"libType\":{}", n))) }
    reach("end");
}
/// Strings inside records: up to 3 free bytes (escape sequences included), one text field of each record kind. [jobs 8]
#[no_mangle] pub extern "C" fn h_c20_strings() {
    let n = if choose(2) == 0 { text_upto(3) } else { let u = ascii(4); format!("\\u{}", u) };
    match choose(7) { 0 => st::<Block>(&BLOCK.replace("x %s.y", &n)), 1 => st::<Component>(&COMP.replace("\"a\"", &format!("\"{}\"", n))), 2 => st::<Event>(&EVENT.replace("onClick", &n)), 3 => st::<FileItem>(&FILE.replace("main", &n)), 4 => st::<LibraryItem>(&LIB.replace("\"t\"", &format!("\"{}\"", n))), 5 => st::<ResourceItem>(&RES.replace("a.png", &n)), _ => st::<Project>(&PROJ.replace("\"A\"", &format!("\"{}\"", n))) }
    reach("end");
}
/// The creation date of a project: any one character of it any 7-bit character, or any two adjacent ones any digits. [jobs 8]
#[no_mangle] pub extern "C" fn h_c20_date() { let mut d = b"20200229235959".to_vec(); if choose(2) == 0 { let at = choose(14) as usize; d[at] = choose(128) as u8 } else { if choose(2) == 0 { d = b"19991231000000".to_vec() } let at = choose(13) as usize; d[at] = b'0' + choose(10) as u8; d[at + 1] = b'0' + choose(10) as u8 } let d = String::from_utf8(d).unwrap(); st::<Project>(&PROJ.replace("20210112120000", &d)); reach("end"); }
fn whole(k: u64, t: &str) { match k { 0 => st_logic(t), 1 => st::<View>(t), 2 => st::<File>(t), 3 => st::<Library>(t), _ => st::<Resource>(t) } }
/// A small data file of each kind with every sort of section.
fn sample(k: u64, big: bool) -> String {
    let r = |x: &str| if big { s(x) } else { s("") };
    let nl = |x: String| if x.is_empty() { x } else { x + "\n" };
    match k {
        0 => format!("@a.java_var\n1:x\n2:y\n\n@b.java_var\n0:z\n\n@a.java_list\n2:y\n\n@a.java_components\n{}\n@a.java_events\n{}\n@a.java_func\nf:f %s.x\n\n@a.java_onCreate_initializeLogic\n{}\n@a.java_f_moreBlock\n\n@b.java_q", nl(r(COMP)), nl(r(EVENT)), nl(r(BLOCK))),
        1 => format!("@main.xml\n{0}\n@b.xml\n\n@b.xml_fab\n{1}", nl(r(FULL)), FULL),
        2 => format!("@activity\n{0}\n@customview\n{1}", FILE, r(FILE)),
        3 => format!("@firebaseDB\n{0}\n@compat\n{0}\n@admob\n{0}\n@googleMap\n{0}", LIB),
        _ => format!("@images\n{0}\n@sounds\n{1}\n@fonts\n{0}", RES, r(RES)),
    }
}
/// Whole data files (logic, view, file, library, resource) with any one byte outside the view records replaced by any byte. [jobs 8] [time 400]
#[no_mangle] pub extern "C" fn h_c20_file_byte() {
    let k = choose(5); let t = sample(k, false); let n = if k == 1 { t.len() - FULL.len() } else { t.len() }; let at = pick(n as u64) as usize; whole(k, &hole(&t, at, 1)); reach("end");
}
/// Whole data files cut off at any byte. [jobs 8] [time 400]
#[no_mangle] pub extern "C" fn h_c20_cut() { let k = choose(5); let t = sample(k, true); let at = pick(t.len() as u64 + 1) as usize; whole(k, &t[..at]); reach("end"); }
/// Whole data files with up to 3 free bytes put in at any line start, or one line left out or doubled. [jobs 8] [time 400]
#[no_mangle] pub extern "C" fn h_c20_lines_in() {
    let k = choose(5); let t = sample(k, true); let l: Vec<&str> = t.split('\n').collect(); let at = choose(l.len() as u64) as usize; let mut v: Vec<String> = l.iter().map(|x| x.to_string()).collect();
    match choose(3) { 0 => { let f = text_upto(3); v[at] = f + &v[at] } 1 => { v.remove(at); } _ => { let x = v[at].clone(); v.insert(at, x) } }
    whole(k, &v.join("\n")); reach("end");
}
/// Data files whose sections come in any order, some of them twice. [jobs 8] [time 400]
#[no_mangle] pub extern "C" fn h_c20_sections() {
    let k = choose(5);
    let v: Vec<String> = match k {
        0 => vec![s("@a.java_var\n1:x\n"), s("@b.java_list\n0:z\n"), format!("@a.java_components\n{}\n", COMP), format!("@b.java_events\n{}\n", EVENT), s("@a.java_func\nf:f\n"), format!("@a.java_q\n{}\n", BLOCK)],
        1 => vec![format!("@main.xml\n{}\n", FULL), s("@b.xml\n"), format!("@b.xml_fab\n{}", FULL), format!("@main.xml_fab\n{}\n", FULL)],
        2 => vec![format!("@activity\n{}", FILE), format!("@customview\n{}", FILE.replace("main", "cv")), s("@activity"), s("@customview")],
        3 => ["@firebaseDB", "@compat", "@admob", "@googleMap", "@admob"].iter().enumerate().map(|(i, h)| format!("{}\n{}", h, LIB.replace("\"t\"", &format!("\"t{}\"", i)))).collect(),
        _ => vec![format!("@images\n{}", RES), format!("@sounds\n{}", RES.replace("a.png", "b.mp3")), format!("@fonts\n{}", RES), s("@images"), s("@fonts")],
    };
    let o = arrangement(v.len() as u64, if v.len() > 5 { 4 } else { v.len() }); let mut w: Vec<String> = o.iter().map(|i| v[*i].clone()).collect(); if choose(2) == 1 { let x = w[0].clone(); w.push(x) }
    whole(k, &w.join("\n")); reach("end");
}

// ---------------------------------------------------------------- C19
const DATA: [&str; 6] = ["project", "file", "library", "resource", "view", "logic"];
fn good(k: usize) -> String { match k { 0 => s(PROJ), 1 => sample(2, true), 2 => sample(3, true), 3 => sample(4, true), 4 => sample(1, true), _ => sample(0, true) } }
fn no_res(v: &[String]) -> RawSketchwareProject { RawSketchwareProject::new_wo_res(v[0].clone(), v[1].clone(), v[2].clone(), v[3].clone(), v[4].clone(), v[5].clone()) }
fn img() -> ResourceFileWrapper { ResourceFileWrapper::StringId { id: s("i"), res_full_name: s("a.png"), res_type: ResourceType::Image } }
fn icon() -> ResourceFileWrapper { ResourceFileWrapper::U32Id { id: 9, res_full_name: s("icon.png"), res_type: ResourceType::CustomIcon } }
fn kind(e: &SketchwareProjectParseError) -> usize { match e { SketchwareProjectParseError::ProjectParseError(_) => 0, SketchwareProjectParseError::FileParseError(_) => 1, SketchwareProjectParseError::LibraryParseError(_) => 2, SketchwareProjectParseError::ResourceParseError(_) => 3, SketchwareProjectParseError::ViewParseError(_) => 4, SketchwareProjectParseError::LogicParseError(_) => 5, SketchwareProjectParseError::ResourceFilesParseError(_) => 6 } }
fn alone(k: usize, t: &str) -> bool { match k { 0 => Project::parse(t).is_ok(), 1 => File::parse(t).is_ok(), 2 => Library::parse(t).is_ok(), 3 => Resource::parse(t).is_ok(), 4 => View::parse(t).is_ok(), _ => Logic::parse(t).is_ok() } }
fn load(v: &[String], way: u64) -> Result<SketchwareProject, SketchwareProjectParseError> { load_n(v, way, 2) }
fn load_n(v: &[String], way: u64, n: usize) -> Result<SketchwareProject, SketchwareProjectParseError> {
    let w = || vec![img(), icon()][..n].to_vec();
    match way {
        0 => SketchwareProject::parse_from(RawSketchwareProject::new(v[0].clone(), v[1].clone(), v[2].clone(), v[3].clone(), v[4].clone(), v[5].clone(), w())),
        1 => SketchwareProject::parse(v[0].clone(), v[1].clone(), v[2].clone(), v[3].clone(), v[4].clone(), v[5].clone(), w()),
        2 => SketchwareProject::parse_from(no_res(v)),
        _ => SketchwareProject::parse_wo_res(v[0].clone(), v[1].clone(), v[2].clone(), v[3].clone(), v[4].clone(), v[5].clone()),
    }
}
/// The whole equals its parts, and an error names a file that is at fault.
fn whole_is_parts(v: &[String], way: u64) {
    let ok: Vec<bool> = (0..6).map(|k| alone(k, &v[k])).collect();
    match load(v, way) {
        Err(e) => { reach("refused"); let k = kind(&e); check(k < 6 && !ok[k], "an error names a data file that cannot be read"); std::mem::forget(e) }
        Ok(p) => {
            reach("loaded");
            for k in 0..6 { check(ok[k], &["project", "file", "library", "resource", "view", "logic"][k]) }
            check(Project::parse(&v[0]).ok().as_ref() == Some(&p.project), "the project record is read from its file");
            check(File::parse(&v[1]).ok().as_ref() == Some(&p.file), "the file list is read from its file");
            check(Library::parse(&v[2]).ok().as_ref() == Some(&p.library), "the libraries are read from their file");
            check(Resource::parse(&v[3]).ok().as_ref() == Some(&p.resource), "the resources are read from their file");
            check(View::parse(&v[4]).ok().as_ref() == Some(&p.view), "the views are read from their file");
            check(Logic::parse(&v[5]).ok().as_ref() == Some(&p.logic), "the logic is read from its file");
            match &p.resource_files { None => check(way >= 2, "given resource files are kept"), Some(r) => { check(way < 2, "without resource files there are none"); check(r.custom_icon == Some(icon()) && r.images.len() == 1 && r.images.get("a.png") == Some(&img()) && r.sounds.is_empty() && r.fonts.is_empty(), "given resource files are kept") } }
            std::mem::forget(p)
        }
    }
}
/// All six files readable, by every way of loading: each part of the project is what its own file alone says; one file at a time has a free name in it. [jobs 8]
#[no_mangle] pub extern "C" fn h_c19_parts() {
    let mut v: Vec<String> = (0..6).map(good).collect(); let t = lower(2);
    match choose(7) { 0 => v[0] = PROJ.replace("\"A\"", &format!("\"{}\"", t)), 1 => v[1] = v[1].replace("main", &t), 2 => v[2] = v[2].replace("\"t\"", &format!("\"{}\"", t)), 3 => v[3] = v[3].replace("a.png", &t), 4 => v[4] = v[4].replace("main", &t), 5 => v[5] = v[5].replace(":x", &format!(":{}", t)), _ => {} }
    whole_is_parts(&v, choose(4)); reach("end");
}
/// Any one data file unreadable in any of several ways (a stray line with up to 2 free bytes at the start, cut at any eighth, replaced by another data file, empty): the error is that file's. [jobs 8]
#[no_mangle] pub extern "C" fn h_c19_fault() {
    let mut v: Vec<String> = (0..6).map(good).collect(); let k = choose(6) as usize;
    match choose(4) { 0 => v[k] = format!("{}\n{}", text_upto(2), v[k]), 1 => { let n = v[k].len() * (choose(8) as usize) / 8; v[k].truncate(n) } 2 => { let j = choose(6) as usize; v[k] = good(j) } _ => v[k] = s("") }
    whole_is_parts(&v, choose(4)); reach("end");
}
/// Up to three free bytes at the very start or end of any one data file. [jobs 8]
#[no_mangle] pub extern "C" fn h_c19_edges() {
    let mut v: Vec<String> = (0..6).map(|k| match k { 0 => s(PROJ), 1 => sample(2, false), 2 => sample(3, false), 3 => sample(4, false), 4 => s("@main.xml\n\n@b.xml\n"), _ => sample(0, false) }).collect();
    let k = choose(6) as usize; let f = text_upto(3); v[k] = if choose(2) == 0 { f + &v[k] } else { s(&v[k]) + &f }; whole_is_parts(&v, choose(4)); reach("end");
}
/// Any two data files swapped, or any two unreadable: an error names one of them. [jobs 8]
#[no_mangle] pub extern "C" fn h_c19_two() {
    let mut v: Vec<String> = (0..6).map(good).collect(); let (i, j) = (choose(6) as usize, choose(6) as usize); assume(i < j);
    if choose(2) == 0 { v.swap(i, j) } else { v[i] = s("{"); v[j] = s("{") }
    whole_is_parts(&v, choose(4)); reach("end");
}
/// Data files with one free byte anywhere in any one of them. [jobs 8] [time 300]
#[no_mangle] pub extern "C" fn h_c19_byte() {
    let mut v: Vec<String> = (0..6).map(|k| match k { 0 => s(PROJ), 1 => sample(2, false), 2 => sample(3, false), 3 => sample(4, false), 4 => s("@main.xml\n\n@b.xml\n"), _ => sample(0, false) }).collect();
    let k = choose(6) as usize; let at = pick(v[k].len() as u64) as usize; v[k] = hole(&v[k], at, 1); whole_is_parts(&v, 2); reach("end");
}
/// With none, one or two resource files given, or without: the loaded project has exactly those; written again it still has them. [jobs 4]
#[no_mangle] pub extern "C" fn h_c19_count() {
    let v: Vec<String> = (0..6).map(good).collect(); let (way, n) = (choose(4), choose(3) as usize);
    match load_n(&v, way, n) { Err(_) => check(false, "the data files are read"), Ok(p) => {
        match &p.resource_files { None => check(way >= 2, "given resource files are kept, be there none"), Some(r) => check(way < 2 && r.images.len() == (n > 0) as usize && r.custom_icon.is_some() == (n > 1) && r.sounds.is_empty() && r.fonts.is_empty(), "given resource files are kept") }
        let w: Result<RawSketchwareProject, SketchwareProjectReconstructionError> = p.try_into(); match w { Err(_) => check(false, "the project is written"), Ok(r) => check(r.resource_files.map(|f| f.len()) == if way < 2 { Some(n) } else { None }, "resource files are kept") }
    } }
    reach("end");
}
/// Resource files that cannot be used (not existing, in a folder of no known kind) are the resource files' error when the six data files are readable, and never when one is not. [jobs 4]
#[no_mangle] pub extern "C" fn h_c19_files() {
    let mut v: Vec<String> = (0..6).map(good).collect(); let bad = choose(2) == 1; let known = choose(2) == 1; let broken = choose(7) as usize; if broken < 6 { v[broken] = s("{") }
    let path = if known { "r/images/601/a.png" } else { "r/other/601/a.png" }; if !bad { file(path, b"x") }
    let f = ResourceFileWrapper::Path(std::path::PathBuf::from(path));
    match SketchwareProject::parse(v[0].clone(), v[1].clone(), v[2].clone(), v[3].clone(), v[4].clone(), v[5].clone(), vec![icon(), f.clone()]) {
        Ok(p) => { check(broken == 6, "unreadable data is refused"); check(!bad && known, "unusable resource files are refused"); if let Some(r) = &p.resource_files { check(r.images.get("a.png") == Some(&f) && r.custom_icon == Some(icon()), "given resource files are kept") } else { check(false, "given resource files are kept") } }
        Err(e) => { check(broken < 6 || bad || !known, "usable resource files are taken"); check(kind(&e) == broken, "the error names what is at fault") }
    }
    reach("end");
}
/// Writing a whole parsed project writes each part as it is written alone, keeps the resource files, and reads back equal; the part that cannot be written is named. [jobs 8]
#[no_mangle] pub extern "C" fn h_c19_write() {
    let mut v: Vec<String> = (0..6).map(good).collect(); let t = lower(2); match choose(4) { 0 => v[1] = v[1].replace("main", &t), 1 => v[3] = v[3].replace("a.png", &t), 2 => v[5] = v[5].replace(":x", &format!(":{}", t)), _ => v[4] = v[4].replace("\"vid\"", &format!("\"{}\"", t)) }
    let way = choose(4); let far = choose(2) == 1;
    let mut p = match load(&v, way) { Ok(p) => p, Err(_) => { check(false, "the data files are read"); return } };
    if far { p.project.date_created = 400_000_000_000 }
    let q = p.clone(); let r: Result<RawSketchwareProject, SketchwareProjectReconstructionError> = p.try_into();
    match r {
        Err(e) => { check(far, "the project is written"); check(matches!(e, SketchwareProjectReconstructionError::ProjectReconstructionError(_)), "the part that cannot be written is named") }
        Ok(r) => {
            check(!far, "what cannot be written is an error");
            check(q.project.reconstruct().ok().as_ref() == Some(&r.project), "the project record goes to its file"); check(q.file.reconstruct().ok().as_ref() == Some(&r.file), "the file list goes to its file"); check(q.library.reconstruct().ok().as_ref() == Some(&r.library), "the libraries go to their file");
            check(q.resource.reconstruct().ok().as_ref() == Some(&r.resource), "the resources go to their file"); check(q.view.reconstruct().ok().as_ref() == Some(&r.view), "the views go to their file"); check(q.logic.reconstruct().ok().as_ref() == Some(&r.logic), "the logic goes to its file");
            match &r.resource_files { None => check(way >= 2, "resource files are kept"), Some(f) => check(way < 2 && f.len() == 2 && f.contains(&img()) && f.contains(&icon()), "resource files are kept") }
            match SketchwareProject::parse_from(r) { Ok(z) => { check(z.project == q.project && z.file == q.file && z.library == q.library && z.resource == q.resource && z.view == q.view && z.resource_files == q.resource_files, "the project comes back"); check(z.logic.screens.len() == q.logic.screens.len() && q.logic.screens.iter().all(|(k, x)| z.logic.screens.get(k) == Some(x)), "the logic comes back") } Err(_) => check(false, "the written files are read") }
        }
    }
    reach("end");
}
/// Any list of up to three resource files: each an image, sound, font or custom icon of either id form, named "n", "N" or any lower-case letter, so files of different kinds (or in different lists) may share a name; of the same kind and name the ids may differ. The loaded project keeps, per kind, exactly the names given for it, each one of the files given for that name; the written project lists exactly those and loads again equal. [jobs 8]
#[no_mangle] pub extern "C" fn h_c19_same_names() {
    let n = choose(4) as usize; let icons = choose(2) == 1; let l = lower(1);
    let mut w: Vec<ResourceFileWrapper> = vec![]; let mut of: Vec<(usize, String)> = vec![];
    if icons { let nm = s(["n", "icon.png"][choose(2) as usize]); w.push(ResourceFileWrapper::StringId { id: s("c"), res_full_name: nm.clone(), res_type: ResourceType::CustomIcon }); of.push((3, nm)) }
    for i in 0..n {
        let (k, nm) = (choose(3) as usize, match choose(3) { 0 => s("n"), 1 => s("N"), _ => l.clone() }); let ty = match k { 0 => ResourceType::Image, 1 => ResourceType::Sound, _ => ResourceType::Font };
        w.push(if choose(2) == 0 { ResourceFileWrapper::StringId { id: s(["p", "q", "r"][i]), res_full_name: nm.clone(), res_type: ty } } else { ResourceFileWrapper::U32Id { id: i as u32, res_full_name: nm.clone(), res_type: ty } }); of.push((k, nm));
    }
    match ResourceFiles::try_from(w.clone()) {
        Err(_) => check(false, "usable resource files are taken"),
        Ok(f) => {
            check(f.custom_icon.is_some() == icons && (!icons || f.custom_icon.as_ref() == Some(&w[0])), "the custom icon is kept");
            let m = [&f.images, &f.sounds, &f.fonts];
            for k in 0..3 { for (nm, r) in m[k].iter() { check((0..w.len()).any(|i| of[i].0 == k && of[i].1 == *nm && w[i] == *r), "a kept resource file is one given of that kind and name") } }
            for (k, nm) in of.iter() { if *k < 3 { check(m[*k].contains_key(nm), "no given resource file is lost") } }
            let total = m[0].len() + m[1].len() + m[2].len() + icons as usize;
            let g = f.clone(); let out: Vec<ResourceFileWrapper> = f.into(); check(out.len() == total, "each kept resource file is written once");
            for r in out.iter() { check(w.contains(r), "a written resource file is one that was given") }
            match ResourceFiles::try_from(out) { Ok(h) => check(h == g, "the written resource files load again equal"), Err(_) => check(false, "the written resource files load again") }
        }
    }
    reach("end");
}
/// Every value of a JSON record as (start of key, start of value, end of value), nested objects included.
fn slots(t: &str) -> Vec<(usize, usize, usize)> {
    let b = t.as_bytes(); let mut r = vec![]; let mut i = 0;
    while i < b.len() {
        if b[i] == b'"' { let mut j = i + 1; while b[j] != b'"' { j += 1 }
            if j + 1 < b.len() && b[j + 1] == b':' { let v = j + 2; let mut e = v; let mut d = 0; let mut q = false; while e < b.len() { let c = b[e]; if q { if c == b'"' { q = false } } else { if c == b'"' { q = true } if c == b'{' || c == b'[' { d += 1 } if c == b'}' || c == b']' { if d == 0 { break } d -= 1 } if c == b',' && d == 0 { break } } e += 1 } r.push((i, v, e)) ; i = v; continue }
            i = j + 1 } else { i += 1 }
    }
    r
}
const VALUES: [&str; 26] = ["null", "true", "false", "\"\"", "\"x\"", "\"true\"", "\"Y\"", "\"1\"", "0", "1", "2", "3", "5", "-1", "-2", "16", "128", "255", "256", "1.5", "65536", "-129", "4294967296", "[]", "{}", " 7 "];
/// Each value of each record kind (block, component, event, file item, library item, resource item, project, view; nested values too) replaced by each of 26 JSON values. [jobs 8] [time 300]
#[no_mangle] pub extern "C" fn h_c20_values() { let k = choose(8) as usize; let t = rec(k); let v = slots(t); let (_, a, e) = v[choose(v.len() as u64) as usize]; st_rec(k, &format!("{}{}{}", &t[..a], VALUES[choose(26) as usize], &t[e..])); reach("end"); }
/// Whether a record can be read.
fn st_slot(k: usize, t: &str) -> bool { match k { 0 => Block::parse(t).is_ok(), 1 => Component::parse(t).is_ok(), 2 => Event::parse(t).is_ok(), 3 => FileItem::parse(t).is_ok(), 4 => LibraryItem::parse(t).is_ok(), 5 => ResourceItem::parse(t).is_ok(), 6 => Project::parse(t).is_ok(), _ => AndroidView::parse(t).is_ok() } }
/// Each text value of each record kind replaced by a text of 1 to 24 free printable characters ('J' only in the first place), or of three letters where not every text can be read. [jobs 8] [time 300]
#[no_mangle] pub extern "C" fn h_c20_words() { let k = choose(8) as usize; let t = rec(k); let v = slots(t); let (_, a, e) = v[choose(v.len() as u64) as usize]; assume(t.as_bytes()[a] == b'"'); let coded = !st_slot(k, &format!("{}\"q q\"{}", &t[..a], &t[e..])); let w = if coded { lower(3) } else { any_plain() }; st_rec(k, &format!("{}\"{}\"{}", &t[..a], w, &t[e..])); reach("end"); }
/// Each entry of each record kind left out, given twice, moved to the front or the end, given under an unknown name, or surrounded by spaces. [jobs 8]
#[no_mangle] pub extern "C" fn h_c20_entries() {
    let k = choose(8) as usize; let t = rec(k); let v = slots(t); let (q, a, e) = v[choose(v.len() as u64) as usize]; let ent = &t[q..e];
    let cut = || { let (x, y) = (&t[..q], &t[e..]); if y.starts_with(',') { format!("{}{}", x, &y[1..]) } else { format!("{}{}", x.strip_suffix(',').unwrap_or(x), y) } };
    let u = match choose(7) { 0 => cut(), 1 => format!("{},{}{}", &t[..e], ent, &t[e..]), 2 => { let c = cut(); format!("{{{},{}", ent, &c[1..]) } 3 => { let c = cut(); format!("{},{}}}", &c[..c.len() - 1], ent) } 4 => format!("{}\"zz\":{}{}", &t[..q], &t[a..e], &t[e..]), 5 => format!("{} \t\r\"zz\" : {{\"a\":[1,null]}} , {} : {} {}", &t[..q], &t[q..a - 1], &t[a..e], &t[e..]), _ => format!(" {}{} ", t, ["", "{}", ",", "\u{a0}"][choose(4) as usize]) };
    st_rec(k, &u); reach("end");
}
