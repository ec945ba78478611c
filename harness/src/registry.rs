//! C17: resources.  C18: refusal of malformed projects and files.
use crate::lists::li;
use crate::logic::block;
use crate::screens::{code, item, pev};
use crate::viewfile::av;
use crate::vp::*;
use crate::whole::{base, cv_item};
use ritelinked::LinkedHashMap;
use std::path::PathBuf;
use swrs::api::*;
use swrs::parser::logic::component::{Component, ComponentPool};
use swrs::parser::logic::event::EventPool;
use swrs::parser::logic::more_block::{MoreBlock, MoreBlockPool};
use swrs::parser::logic::{Block, BlockContainer, Logic, ScreenLogic};
use swrs::parser::resource::{Resource, ResourceItem};
use swrs::parser::view::{Layout, View};
use swrs::parser::{file::File, library::Library, Parsable, ResourceFileWrapper, ResourceFiles, ResourceType, SketchwareProject as Parsed};

const T: [ResourceType; 3] = [ResourceType::Image, ResourceType::Sound, ResourceType::Font];
type W = ResourceFileWrapper;
fn wrapper(k: u64, tag: usize, t: ResourceType) -> W { match k { 0 => W::StringId { id: format!("s{}", tag), res_full_name: format!("n{}.x", tag), res_type: t }, _ => W::U32Id { id: 100 + tag as u32, res_full_name: format!("n{}.x", tag), res_type: t } } }
/// What the registry must hold: id, type, file.
type Model = Vec<(String, ResourceType, W)>;
fn agree(r: &Resources, m: &Model, ids: &[String]) {
    for i in ids {
        let want = m.iter().find(|x| x.0 == *i);
        match (r.get_resource(&ResourceId(i.clone())), want) { (Some((f, t)), Some(w)) => check(t == w.1 && *f == w.2, "a lookup gives what was stored, with its type"), (None, None) => {} (Some(_), None) => check(false, "a lookup finds nothing that is not stored"), (None, Some(_)) => check(false, "a lookup finds what is stored") }
    }
    let maps = [r.get_images(), r.get_sounds(), r.get_fonts()];
    for k in 0..3 {
        let want: Vec<&(String, ResourceType, W)> = m.iter().filter(|x| x.1 == T[k]).collect();
        check(maps[k].len() == want.len(), "each type lists exactly its resources");
        for w in &want { check(maps[k].get(&ResourceId(w.0.clone())) == Some(&w.2), "each type lists its resources with their files") }
    }
}
fn ops(n: usize, ids: &[String]) {
    let mut r = Resources::new_empty(); let mut m: Model = vec![];
    for step in 0..n {
        let id = ids[choose(ids.len() as u64) as usize].clone();
        let op = choose(4) as usize;
        if op < 3 {
            let given = wrapper((step % 2) as u64, step, T[(op + step) % 3]);
            let stored = wrapper((step % 2) as u64, step, T[op]);
            let taken = m.iter().any(|x| x.0 == id);
            match r.put_resource(ResourceId(id.clone()), given, T[op]) { Ok(()) => { check(!taken, "a taken id is refused"); m.push((id, T[op], stored)) } Err(e) => { check(taken, "a free id is accepted"); if let ResourceAdditionError::IdTaken { id: x } = e { check(x.0 == id, "the error names the id") } } }
        } else {
            let at = m.iter().position(|x| x.0 == id);
            match (r.remove_resource(&ResourceId(id)), at) { (Some((f, t)), Some(p)) => { let w = m.remove(p); check(t == w.1 && f == w.2, "removal gives what was stored, with its type") } (None, None) => {} _ => check(false, "removal finds exactly what is stored") }
        }
        agree(&r, &m, ids);
    }
}
/// Every sequence of 3 additions (as image, sound or font) and removals over any two ids of 0-2 bytes, equal or not; lookups of both ids and all lists after every step. [jobs 8]
#[no_mangle] pub extern "C" fn h_c17_ops() { let ids = [text_upto(1), text_upto(2)]; ops(3, &ids); reach("end"); }
/// Every sequence of 5 operations over two one-letter ids. [jobs 8]
#[no_mangle] pub extern "C" fn h_c17_ops5() { let ids = [lower(1), lower(1)]; ops(5, &ids); reach("end"); }
/// Every sequence of 5 operations over three one-letter ids. [jobs 8] [time 900]
#[no_mangle] pub extern "C" fn h_c17_ops_t() { let ids = [lower(1), lower(1), lower(1)]; ops(5, &ids); reach("end"); }
/// Adding a file by path: existing and missing files, free and taken ids, every type.
#[no_mangle] pub extern "C" fn h_c17_put_path() {
    let mut r = Resources::new_empty(); let k = choose(3) as usize; let exists = choose(2) == 1; let taken = choose(2) == 1; let old = choose(3) as usize;
    if exists { file("res/images/601/a.png", b"x") } else { file("res/images/601/b.png", b"x") }
    let before = wrapper(0, 9, T[old]);
    if taken { check(r.put_resource(ResourceId(s("id")), before.clone(), T[old]).is_ok(), "a free id is accepted") }
    let p = W::Path(PathBuf::from("res/images/601/a.png"));
    match r.put_resource(ResourceId(s("id")), p.clone(), T[k]) { Ok(()) => check(exists && !taken, "missing files and taken ids are refused"), Err(_) => check(!exists || taken, "an existing file is accepted") }
    match r.get_resource(&ResourceId(s("id"))) { Some((f, t)) => if taken { check(*f == before && t == T[old], "a refused addition changes nothing") } else { check(exists && *f == p && t == T[k], "the file is stored") }, None => check(!taken && !exists, "the file is stored") }
    agree(&r, &if taken { vec![(s("id"), T[old], before)] } else if exists { vec![(s("id"), T[k], p)] } else { vec![] }, &[s("id"), s("n9.x")]);
    reach("end");
}
/// The very same file added again (by path, string id or number; under the same id or another; as the same type or another), after a removal or not: refused when the id is taken, stored otherwise. [jobs 4]
#[no_mangle] pub extern "C" fn h_c17_same_file() {
    file("res/images/601/a.png", b"x"); let mut r = Resources::new_empty(); let mut m: Model = vec![]; let form = choose(3); let ids = [s("id"), lower(2)]; 
    let w = |t| match form { 0 => W::Path(PathBuf::from("res/images/601/a.png")), 1 => W::StringId { id: s("id"), res_full_name: s("id"), res_type: t }, _ => W::U32Id { id: 7, res_full_name: s("a.png"), res_type: t } };
    for step in 0..3 {
        if step == 1 && choose(2) == 1 { let was = m.pop(); check(r.remove_resource(&ResourceId(ids[0].clone())) == was.map(|x| (x.2, x.1)), "removal gives what was stored, with its type"); agree(&r, &m, &ids); }
        let (id, k, d) = (ids[if step == 0 { 0 } else { choose(2) as usize }].clone(), choose(3) as usize, choose(2) as usize); let taken = m.iter().any(|x| x.0 == id);
        match r.put_resource(ResourceId(id.clone()), w(T[(k + d) % 3]), T[k]) { Ok(()) => { check(!taken, "a taken id is refused"); m.push((id, T[k], w(T[k]))) } Err(_) => check(taken, "a free id is accepted") }
        agree(&r, &m, &ids);
    }
    reach("end");
}
/// File names whose letters, dots and extensions come in any case (12 of them, and a free one of up to 2 letters with each of 6 extensions), in each id form and type: kept under exactly that name, matched by exactly that name. [jobs 4]
#[no_mangle] pub extern "C" fn h_c17_case() {
    let t = if choose(2) == 0 { s(["A.PNG", "a.PNG", "a.Png", "a.png", "A", "a.", ".a", "a.b.PNG", "A.MP3", "a.TTF", "icon.png", "a.9.png"][choose(12) as usize]) } else { let e = [".PNG", ".JPEG", ".jpg", ".OGG", "", ".Otf"][choose(6) as usize]; let n = choose(2) + 1; let b = ascii(n as usize); b + e };
    let k = choose(4) as usize; let form = choose(2); let w = if form == 0 { W::StringId { id: s("q"), res_full_name: t.clone(), res_type: [T[0], T[1], T[2], ResourceType::CustomIcon][k] } } else { W::U32Id { id: 5, res_full_name: t.clone(), res_type: [T[0], T[1], T[2], ResourceType::CustomIcon][k] } };
    check(w.get_full_name() == t, "a file has its full name");
    match ResourceFiles::try_from(vec![w.clone()]) { Err(_) => check(false, "existing files and ids are accepted"), Ok(f) => { let m = [&f.images, &f.sounds, &f.fonts]; for i in 0..3 { check(m[i].len() == (i == k) as usize, "each type has exactly its files"); if i == k { check(m[i].get(&t) == Some(&w), "a file is found under its type and full name") } } check(f.custom_icon == if k == 3 { Some(w) } else { None }, "the custom icon is kept") } }
    reach("end");
}
/// Two or three files of any type and id form, each with one of three full names (so names repeat within and across the types): each type has exactly its names with the last file of each, and the icon is the last icon. [jobs 8]
#[no_mangle] pub extern "C" fn h_c17_names() {
    let n = 2 + choose(2) as usize; let mut l: Vec<(usize, usize, W)> = vec![];
    for i in 0..n { let k = choose(4) as usize; let m = choose(3) as usize; let t = [T[0], T[1], T[2], ResourceType::CustomIcon][k]; let name = s(["a.png", "icon.png", "b"][m]); let w = if (i + k) % 2 == 0 { W::StringId { id: format!("q{}", i), res_full_name: name, res_type: t } } else { W::U32Id { id: i as u32, res_full_name: name, res_type: t } }; l.push((k, m, w)); }
    match ResourceFiles::try_from(l.iter().map(|x| x.2.clone()).collect::<Vec<_>>()) {
        Err(_) => check(false, "files with ids are accepted"),
        Ok(f) => {
            let maps = [&f.images, &f.sounds, &f.fonts];
            for k in 0..3 { let mut c = 0; for m in 0..3 { let want = l.iter().rev().find(|x| x.0 == k && x.1 == m).map(|x| &x.2); c += want.is_some() as usize; check(maps[k].get(["a.png", "icon.png", "b"][m]) == want, "each type has the files declared with it") } check(maps[k].len() == c, "a type has no other files") }
            check(f.custom_icon.as_ref() == l.iter().rev().find(|x| x.0 == 3).map(|x| &x.2), "the custom icon is the file declared as it");
        }
    }
    reach("end");
}
const DIRS: [&str; 12] = ["images", "sounds", "fonts", "icons", "image", "Images", "imagess", "icon", "data", "fonts ", "resources", "sound"];
/// Sorting one file by its folder: 12 folder names (the four known, near misses and others), existing or not, in deep, shallow and very short paths.
#[no_mangle] pub extern "C" fn h_c17_folder() {
    let d = choose(12) as usize; let exists = choose(2) == 1;
    let (path, folder) = match choose(6) { 0 => (format!("sk/resources/{}/601/f.x", DIRS[d]), Some(DIRS[d])), 1 => (format!("{}/601/f.x", DIRS[d]), Some(DIRS[d])), 2 => (format!("{}/f.x", DIRS[d]), None), 3 => (s("f.x"), None), 4 => (format!("sk/images/{}/601/f.x", DIRS[d]), Some(DIRS[d])), _ => (format!("sk/{}/images/f.x", DIRS[d]), Some(DIRS[d])) };
    if exists { file(&path, b"data") }
    let w = W::Path(PathBuf::from(&path));
    match ResourceFiles::try_from(vec![w.clone()]) {
        Err(_) => check(!exists || folder.map(|f| !["images", "sounds", "fonts", "icons"].contains(&f)).unwrap_or(true), "a file in a known folder is accepted"),
        Ok(f) => {
            check(exists, "a nonexistent file is an error");
            let at: Vec<(&str, Option<&W>, usize)> = vec![("images", f.images.get("f.x"), f.images.len()), ("sounds", f.sounds.get("f.x"), f.sounds.len()), ("fonts", f.fonts.get("f.x"), f.fonts.len()), ("icons", f.custom_icon.as_ref(), f.custom_icon.is_some() as usize)];
            let mut hit = false;
            for (n, x, k) in at { if Some(n) == folder { check(x == Some(&w) && k == 1, "a file belongs to the type of its folder"); hit = true } else { check(k == 0, "a file belongs to one type only") } }
            check(hit, "a file in an unknown folder is an error");
        }
    }
    reach("end");
}
/// Sorting 0 to 3 files by id (both kinds) or path, of every type, with free names: each ends up under its type and full name; the list comes back. A nonexistent file anywhere is an error. [jobs 8]
#[no_mangle] pub extern "C" fn h_c17_files() {
    let n = choose(4) as usize; let mut v = vec![]; let mut want: Vec<(usize, String)> = vec![]; let mut missing = false;
    for i in 0..n {
        let k = choose(4) as usize; let t = [ResourceType::Image, ResourceType::Sound, ResourceType::Font, ResourceType::CustomIcon][k];
        match choose(if i == 1 { 4 } else { 2 }) {
            0 => { let full = format!("{}{}", lower(1), i); v.push(W::StringId { id: s("q"), res_full_name: full.clone(), res_type: t }); want.push((k, full)) }
            1 => { let full = format!("{}{}", lower(1), i); let id = u32_(); v.push(W::U32Id { id, res_full_name: full.clone(), res_type: t }); want.push((k, full)) }
            2 => { let p = format!("r/{}/601/p{}", ["images", "sounds", "fonts", "icons"][k], i); file(&p, b"z"); v.push(W::Path(PathBuf::from(&p))); want.push((k, format!("p{}", i))) }
            _ => { v.push(W::Path(PathBuf::from("r/images/601/nothing"))); missing = true; want.push((k, s("nothing"))) }
        }
    }
    if want.iter().filter(|w| w.0 == 3).count() > 1 { assume(false) } // one icon
    match ResourceFiles::try_from(v.clone()) {
        Err(_) => check(missing, "existing files and ids are accepted"),
        Ok(f) => {
            check(!missing, "a nonexistent file is an error");
            for k in 0..3 { let m = [&f.images, &f.sounds, &f.fonts][k]; check(m.len() == want.iter().filter(|w| w.0 == k).count(), "each type has exactly its files") }
            for i in 0..n { let w = &want[i]; if w.0 == 3 { check(f.custom_icon.as_ref() == Some(&v[i]), "the icon is the icon") } else { check([&f.images, &f.sounds, &f.fonts][w.0].get(&w.1) == Some(&v[i]), "a file is found under its type and full name") } }
            if want.iter().all(|w| w.0 != 3) { check(f.custom_icon.is_none(), "no icon appears") }
            let l: Vec<W> = f.into(); check(l.len() == n && v.iter().all(|x| l.contains(x)), "the list of files comes back");
        }
    }
    reach("end");
}
/// Matching listed resources with files: 2 listed resources of any types, each with a file of the right or another type, under its full name or another name, or without a file; extra files. [jobs 8]
#[no_mangle] pub extern "C" fn h_c17_match() {
    let mut p = base(); let mut rf = ResourceFiles::default(); let mut bad = false; let mut want: Model = vec![];
    for i in 0..2usize {
        let k = choose(3) as usize; let nm = lower(1) + &i.to_string(); let full = format!("{}.png", nm);
        [&mut p.resource.images, &mut p.resource.sounds, &mut p.resource.fonts][k].push(ResourceItem { full_name: full.clone(), name: nm.clone(), r#type: 1 });
        let (kk, key) = match choose(4) { 0 => (k, full.clone()), 1 => ((k + 1) % 3, full.clone()), 2 => (k, nm.clone()), _ => (k, s("")) };
        let w = W::StringId { id: format!("i{}", i), res_full_name: key.clone(), res_type: T[kk] };
        if kk != k || key != full { bad = true }
        if !key.is_empty() { [&mut rf.images, &mut rf.sounds, &mut rf.fonts][kk].insert(key, w.clone()); }
        want.push((nm, T[k], w));
    }
    p.resource_files = Some(rf);
    match SketchwareProject::try_from(p) { Ok(a) => { check(!bad, "a listed resource without its file is an error"); agree(&a.resources, &want, &[want[0].0.clone(), want[1].0.clone(), s("zz")]) } Err(e) => { check(bad, "listed resources with files are accepted"); check(matches!(e, APISketchwareProjectConversionError::MissingResourceFile { .. }), "the error says that a file is missing") } }
    reach("end");
}

/// Registries of 4 to 130 resources (types in turn), then one of them (first, middle, last) removed, re-added under another type, re-added when taken; one id free. [jobs 8] [ins 60000000]
#[no_mangle] pub extern "C" fn h_c17_large() {
    let n = SIZES[choose(8) as usize]; let c = lower(1); let ids: Vec<String> = (0..n).map(|i| if i == n / 2 { format!("{}_{}", c, i) } else { format!("n{}", i) }).collect();
    let mut r = Resources::new_empty(); let mut m: Model = vec![];
    for i in 0..n { let w = wrapper(i as u64 % 2, i, T[i % 3]); check(r.put_resource(ResourceId(ids[i].clone()), w.clone(), T[i % 3]).is_ok(), "a free id is accepted"); m.push((ids[i].clone(), T[i % 3], w)) }
    agree(&r, &m, &[ids[0].clone(), ids[n / 2].clone(), ids[n - 1].clone(), s("zz")]);
    let at = [0, n / 2, n - 1][choose(3) as usize]; let k = choose(3) as usize;
    check(r.put_resource(ResourceId(ids[at].clone()), wrapper(0, 777, T[k]), T[k]).is_err(), "a taken id is refused"); agree(&r, &m, &[ids[at].clone()]);
    let w = m.remove(at); match r.remove_resource(&ResourceId(ids[at].clone())) { Some((f, t)) => check(f == w.2 && t == w.1, "removal gives what was stored, with its type"), None => check(false, "removal finds exactly what is stored") }
    agree(&r, &m, &[ids[at].clone(), ids[(at + 1) % n].clone()]);
    let w = wrapper(1, 778, T[k]); check(r.put_resource(ResourceId(ids[at].clone()), w.clone(), T[k]).is_ok(), "a free id is accepted"); m.push((ids[at].clone(), T[k], w)); agree(&r, &m, &ids[..4]);
    reach("end");
}
/// Sorting 4 to 130 files by id, types in turn, one name free; the list comes back. [jobs 8] [ins 60000000]
#[no_mangle] pub extern "C" fn h_c17_files_large() {
    let n = SIZES[choose(8) as usize]; let c = lower(1); let icon = choose(2) as usize; let mut v: Vec<W> = (0..n).map(|i| { let full = if i == n / 2 { format!("{}_{}", c, i) } else { format!("n{}", i) }; let t = T[i % 3]; if i % 2 == 0 { W::StringId { id: format!("s{}", i), res_full_name: full, res_type: t } } else { W::U32Id { id: i as u32, res_full_name: full, res_type: t } } }).collect();
    if icon == 1 { v.insert(n / 3, W::StringId { id: s("ic"), res_full_name: s("icon"), res_type: ResourceType::CustomIcon }) }
    match ResourceFiles::try_from(v.clone()) { Err(_) => check(false, "existing files and ids are accepted"), Ok(f) => {
        check(f.images.len() + f.sounds.len() + f.fonts.len() == n && f.custom_icon.is_some() == (icon == 1), "each type has exactly its files");
        for x in &v { let (full, t) = match x { W::StringId { res_full_name, res_type, .. } | W::U32Id { res_full_name, res_type, .. } => (res_full_name, *res_type), _ => continue }; let got = match t { ResourceType::Image => f.images.get(full), ResourceType::Sound => f.sounds.get(full), ResourceType::Font => f.fonts.get(full), ResourceType::CustomIcon => f.custom_icon.as_ref() }; check(got == Some(x), "a file is found under its type and full name") }
        let l: Vec<W> = f.into(); check(l.len() == v.len() && v.iter().all(|x| l.contains(x)), "the list of files comes back");
    } }
    reach("end");
}

// ---------------------------------------------------------------- C18: conversion to the editing API
fn refused(p: Parsed, bad: bool, what: &str) { match SketchwareProject::try_from(p) { Ok(_) => check(!bad, what), Err(_) => check(bad, "a consistent project is converted") } }
pub fn with_logic(l: ScreenLogic) -> Parsed { let mut p = base(); p.file.activities.push(item("first")); p.file.activities.push(item("main")); p.logic.screens.insert(l.name.clone(), l); p }
/// Optional libraries whose enabled flag is any text of up to 2 bytes, for each of the four.
#[no_mangle] pub extern "C" fn h_c18_flag() {
    let mut p = base(); let y = text_upto(2); let l = &mut p.library; let k = choose(4) as usize; let mut x = [&mut l.firebase_db, &mut l.admob, &mut l.google_map, &mut l.compat]; x[k].use_yn = y.clone(); x[(k + 1) % 4].use_yn = s("Y");
    refused(p, y != "Y" && y != "N", "an unknown enabled flag is an error"); reach("end");
}
/// Projects with 1 to 3 custom views, any of which may lack its layout or name an unknown parent. 
#[no_mangle] pub extern "C" fn h_c18_custom() {
    let mut p = base(); let n = choose(3) as usize + 1; let mut bad = false; p.view.layouts.insert(s("unrelated"), Layout(vec![]));
    for i in 0..n { let nm = format!("cv{}", i); p.file.custom_views.push(cv_item(&nm)); match choose(5) { 0 => bad = true, 1 => { p.view.layouts.insert(nm, Layout(vec![])); } 2 => { let mut v = av("x"); v.parent = Some(s("nobody")); p.view.layouts.insert(nm, Layout(vec![av("y"), v])); bad = true } 3 => { let mut v = av("x"); v.parent = None; p.view.layouts.insert(nm, Layout(vec![v])); bad = true } _ => { p.view.layouts.insert(nm, Layout(vec![av("y")])); } } }
    refused(p, bad, "a custom view without a usable layout is an error"); reach("end");
}
/// A screen's layout of 1 to 3 views, any of which may name an unknown parent (any two-byte id), itself or none.
#[no_mangle] pub extern "C" fn h_c18_layout() {
    let mut p = base(); p.file.activities.push(item("main")); let n = choose(3) as usize + 1; let mut bad = false; let mut l = vec![];
    for i in 0..n { let mut v = av(&format!("v{}", i)); let t = v.r#type; crate::viewfile::wild(&mut v); v.r#type = t; match choose(3) { 0 => {} 1 => { let q = text(2); bad |= !(0..i).any(|j| q == format!("v{}", j)); for j in i + 1..n { assume(q != format!("v{}", j)) } v.parent = Some(q) } _ => { v.parent = None; bad = true } } l.push(v) }
    p.view.layouts.insert(s("main"), Layout(l));
    refused(p, bad, "a view with an unknown parent is an error"); reach("end");
}
/// Components and events with any type code, at any position among well-formed ones.
#[no_mangle] pub extern "C" fn h_c18_types() {
    let mut l = ScreenLogic::new_empty(s("MainActivity")); let t = u8_(); let at = choose(3) as usize;
    let bad = if choose(2) == 0 {
        l.components = Some(ComponentPool((0..3).map(|i| Component { id: format!("c{}", i), param1: s(""), param2: s(""), param3: s(""), r#type: if i == at { t } else { 5 } }).collect())); t == 0 || t > 21
    } else { l.events = Some(EventPool((0..3).map(|i| pev(&format!("e{}", i), if i == at { t } else { 1 }, "x", 0)).collect())); t == 0 || t > 3 };
    refused(with_logic(l), bad, "an unknown component or event type is an error"); reach("end");
}
pub fn broken(k: u64) -> BlockContainer {
    let mut a = block("10", "opA"); let mut b = block("11", "opB"); a.next_block = 11;
    match k { 0 => a.next_block = 99, 1 => b.sub_stack1 = 77, 2 => b.sub_stack2 = 77, 3 => a.r#type = s("Q"), 4 => b.id = s("x"), 5 => b.spec = s("do %q"), 6 => { b.spec = s("do %s"); b.parameters = vec![s("@55")] } 7 => b.r#type = s("ll"), _ => {} }
    BlockContainer(vec![a, b])
}
/// Code that cannot be read (dangling next, nested or argument block, unknown block type, bad id, bad spec), or good code, in the creation code, an event, or a more-block, next to good code elsewhere.
#[no_mangle] pub extern "C" fn h_c18_code() {
    let mut l = ScreenLogic::new_empty(s("MainActivity")); let k = choose(9); let at = choose(3) as usize;
    let names = ["onCreate_initializeLogic", "b1_onClick", "mb_moreBlock"];
    for i in 0..3 { l.block_containers.insert(s(names[i]), if i == at { broken(k) } else { code("fine") }); }
    l.events = Some(EventPool(vec![pev("onClick", 1, "b1", 0)])); let mut m = LinkedHashMap::new(); m.insert(s("mb"), MoreBlock { id: s("mb"), spec: s("mb %s.a") }); l.more_blocks = Some(MoreBlockPool(m));
    refused(with_logic(l), k < 8, "code that cannot be read is an error"); reach("end");
}
/// More-block specs: readable ones, and specs with a parameter of any unknown kind (any letter), a menu without a name, or a lone percent sign, at any position.
#[no_mangle] pub extern "C" fn h_c18_spec() {
    let mut l = ScreenLogic::new_empty(s("MainActivity")); let c = lower(1); let cb = c.as_bytes()[0];
    let (w, bad) = match choose(5) { 0 => (s("%s.a"), false), 1 => { assume((cb != b's') & (cb != b'd') & (cb != b'b') & (cb != b'm')); (format!("%{}", c), true) } 2 => { assume((cb != b's') & (cb != b'd') & (cb != b'b') & (cb != b'm')); (format!("%{}.n", c), true) } 3 => (s("%m"), true), _ => (s("%"), true) };
    let sp = match choose(3) { 0 => format!("go {}", w), 1 => format!("{} go", w), _ => format!("go {} %d.k", w) };
    let mut m = LinkedHashMap::new(); m.insert(s("ok"), MoreBlock { id: s("ok"), spec: s("ok") }); m.insert(s("mb"), MoreBlock { id: s("mb"), spec: sp }); l.more_blocks = Some(MoreBlockPool(m));
    refused(with_logic(l), bad, "a more-block spec that cannot be read is an error"); reach("end");
}

// ---------------------------------------------------------------- C18: parsing
pub const BLOCK: &str = r#"{"color":-10701022,"id":"10","nextBlock":-1,"opCode":"addSourceDirectly","parameters":["a","@3"],"spec":"x %s.y","subStack1":-1,"subStack2":12,"type":" ","typeName":""}"#;
pub const COMP: &str = r#"{"componentId":"c","param1":"a","param2":"","param3":"","type":2}"#;
const EVENT: &str = r#"{"eventName":"onClick","eventType":1,"targetId":"b","targetType":3}"#;
const FILE: &str = r#"{"fileName":"main","fileType":0,"keyboardSetting":0,"options":1,"orientation":0,"theme":-1}"#;
const LIB: &str = r#"{"adUnits":[{"id":"i","name":"n"}],"data":"","libType":0,"reserved1":"","reserved2":"","reserved3":"","testDevices":["t"],"useYn":"N"}"#;
const RES: &str = r#"{"resFullName":"a.png","resName":"a","resType":1}"#;
/// A record of the given kind that cannot be read: cut off anywhere, followed by any other byte, led by any other byte, or not a record at all.
pub fn bad_record(r: &str) -> String {
    match choose(5) {
        0 => { let k = pick(r.len() as u64) as usize; if k == 0 { assume(false) } s(&r[..k]) }
        1 => { let c = plain(1); assume(c.as_bytes()[0] != b' '); format!("{}{}", r, c) }
        2 => { let c = plain(1); assume(c.as_bytes()[0] != b' '); format!("{}{}", c, r) }
        3 => { let t = plain(2); assume((t.as_bytes()[0] != b'@') & ((t.as_bytes()[0] != b'{') | (t.as_bytes()[1] != b'}'))); t }
        _ => { // one field's name changed
            let q: Vec<usize> = r.match_indices("\":").map(|x| x.0).filter(|i| !r[..*i].contains('[') || r[..*i].rfind(']') > r[..*i].rfind('[')).filter(|i| !["\"parent", "\"preParent", "\"preId", "\"resName"].iter().any(|o| r[..*i].ends_with(o)) || r.len() < 200).collect();
            let at = q[choose(q.len() as u64) as usize]; format!("{}Z{}", &r[..at], &r[at..]) }
    }
}
/// Malformed records (cut anywhere, any byte before or after, two other bytes, or one field renamed) as first, middle or last record of every section of the file, resource, library and view files. [jobs 8]
#[no_mangle] pub extern "C" fn h_c18_records() {
    let k = choose(8); let rec = match k { 0 | 1 => FILE, 2 | 3 | 4 => RES, 5 => LIB, _ => crate::viewfile::FULL };
    let b = bad_record(rec); let b = if k == 6 || k == 7 { let k2 = rec.len(); assume(b.len() + 40 > k2 || b.len() < 40); b } else { b };
    let body = match choose(3) { 0 => format!("{}\n{}", b, rec), 1 => format!("{}\n{}\n{}", rec, b, rec), _ => format!("{}\n{}", rec, b) };
    let ok = match k {
        0 => File::parse(&format!("@activity\n{}\n@customview\n{}", body, rec)).is_ok(), 1 => File::parse(&format!("@activity\n{}\n@customview\n{}", rec, body)).is_ok(),
        2 => Resource::parse(&format!("@images\n{}\n@sounds\n@fonts\n", body)).is_ok(), 3 => Resource::parse(&format!("@images\n{}\n@sounds\n{}\n@fonts\n", rec, body)).is_ok(), 4 => Resource::parse(&format!("@images\n@sounds\n{}\n@fonts\n{}", rec, body)).is_ok(),
        5 => { let at = choose(4) as usize; let h = ["@firebaseDB", "@compat", "@admob", "@googleMap"]; let t: Vec<String> = (0..4).map(|i| format!("{}\n{}", h[i], if i == at { &b } else { rec })).collect(); Library::parse(&t.join("\n")).is_ok() }
        6 => View::parse(&format!("@main.xml\n{}\n\n@b.xml\n{}\n", body, rec)).is_ok(),
        _ => View::parse(&format!("@main.xml\n{}\n\n@main.xml_fab\n{}\n", rec, b)).is_ok(),
    };
    check(!ok, "a malformed record is an error"); reach("end");
}
/// The same for the sections of the logic file: components, events, code; and malformed variables, list variables and more-blocks (no colon, or any unknown type). [jobs 8]
#[no_mangle] pub extern "C" fn h_c18_logic() {
    let k = choose(6);
    let (h, rec) = match k { 0 => ("components", COMP), 1 => ("events", EVENT), 2 => ("b1_onClick", BLOCK), 3 => ("var", "1:x"), 4 => ("list", "2:y"), _ => ("func", "mb:mb %s.a") };
    let b = if k < 3 { bad_record(rec) } else { match choose(2) { 0 => { let t = lower(2); if k < 5 { format!("{}:x", t) } else { t } } _ => { let t = plain(2); for c in t.bytes() { assume(c != b':') } t } } };
    let body = match choose(3) { 0 => format!("{}\n{}", b, rec), 1 => format!("{}\n{}\n{}", rec, b, rec), _ => format!("{}\n{}", rec, b) };
    let t = format!("@A.java_var\n0:q\n\n@A.java_{}\n{}\n\n@B.java_events\n{}\n", h, body, EVENT);
    check(Logic::parse(&t).is_err(), "a malformed record is an error"); reach("end");
}
/// Library files in which any subset of the four sections is missing, or the file ends after the header of the last one present.
#[no_mangle] pub extern "C" fn h_c18_library() {
    let h = ["@firebaseDB", "@compat", "@admob", "@googleMap"]; let m = choose(16) as usize; let cut = choose(3);
    let mut t = String::new(); for i in 0..4 { if m & (1 << i) != 0 { if !t.is_empty() { t.push('\n') } t.push_str(h[i]); let last = m >> (i + 1) == 0; if !(last && cut > 0) { t.push('\n'); t.push_str(LIB) } else if cut == 2 { t.push('\n') } } }
    match Library::parse(&t) { Ok(l) => { check(m == 15 && cut == 0, "a missing or cut off section is an error"); check(l.firebase_db == LibP(), "the sections are read") } Err(_) => check(m != 15 || cut > 0, "a complete library file is read") }
    reach("end");
}
#[allow(non_snake_case)] fn LibP() -> swrs::parser::library::LibraryItem { let mut l = li("", 0); l.ad_units.push(swrs::parser::library::AdUnit { id: s("i"), name: s("n") }); l.test_devices.push(s("t")); l }
/// A view file that ends right after the header of a floating action button (with or without line ends), at any place among other sections: an error.
#[no_mangle] pub extern "C" fn h_c18_fab_end() {
    let n = choose(3) as usize; let mut t = String::new(); for i in 0..n { t.push_str(&format!("@s{}.xml\n{}", i, if choose(2) == 0 { s("\n") } else { format!("{}\n\n", crate::viewfile::FULL) })) }
    t.push_str("@s0.xml_fab"); t.push_str(["", "\n", "\n\n", "\n\n@b.xml\n", "\n@b.xml\n\n"][choose(5) as usize]);
    check(View::parse(&t).is_err(), "a button section without its record is an error"); reach("end");
}
/// Headers: a line of 1 to 4 free bytes (or an at-sign and up to 3) where a header is expected, before, between or after sections of the view, logic, file and resource files: an error, or nothing of the rest is lost. [jobs 8]
#[no_mangle] pub extern "C" fn h_c18_header() {
    let n = choose(4) as usize + 1; let l = if choose(2) == 0 { plain(n) } else { format!("@{}", plain(n - 1)) };
    let at = choose(3);
    let put = |a: &str, b: &str| match at { 0 => format!("{}\n{}\n{}", l, a, b), 1 => format!("{}\n{}\n{}", a, l, b), _ => format!("{}\n{}\n{}", a, b, l) };
    match choose(4) {
        0 => { let t = put("@a.xml\n", "@b.xml\n"); if let Ok(v) = View::parse(&t) { check(false, "a view header that is not understood is an error"); let _ = v; } }
        1 => { let t = put("@A.java_var\n0:q\n", "@B.java_var\n0:q\n"); if Logic::parse(&t).is_ok() { check(false, "a logic header that is not understood is an error") } }
        2 => { let t = put(&format!("@activity\n{}", FILE), &format!("@customview\n{}", FILE)); if File::parse(&t).is_ok() { check(false, "a file-list header that is not understood is an error") } }
        _ => { let t = put(&format!("@images\n{}", RES), &format!("@sounds\n{}", RES)); if Resource::parse(&t).is_ok() { check(false, "a resource-list header that is not understood is an error") } }
    }
    reach("end");
}
/// Near misses of every section header: one byte of a header of the view, logic, file or resource file replaced by any other one-byte character; an error, or the section is read under the name it then has, with everything after it. [jobs 8]
#[no_mangle] pub extern "C" fn h_c18_near() {
    let hole1 = |h: &str| { let at = choose(h.len() as u64) as usize; let c = plain(1); assume(c.as_bytes()[0] != h.as_bytes()[at]); format!("{}{}{}", &h[..at], c, &h[at + 1..]) };
    match choose(4) {
        0 => { let h = hole1(["@ab.xml", "@ab.xml_fab"][choose(2) as usize]); let t = format!("{}\n{}\n\n@zz.xml\n", h, crate::viewfile::FULL); match View::parse(&t) { Ok(v) => { check(v.layouts.contains_key("zz"), "the rest of the view file is read"); check(v.layouts.len() + v.fabs.len() == 2 && (v.layouts.values().map(|l| l.0.len()).sum::<usize>() + v.fabs.len()) == 1, "the section is read"); check(h.starts_with('@') && (h.ends_with(".xml") || h.ends_with(".xml_fab")), "a view header that is not understood is an error") } Err(_) => {} } }
        1 => { let h = hole1(["@Ab.java_var", "@Ab.java_list", "@Ab.java_events", "@Ab.java_components", "@Ab.java_func"][choose(5) as usize]); let t = format!("{}\n\n@Zz.java_var\n0:q\n", h); match Logic::parse(&t) { Ok(l) => { check(l.screens.get("Zz").map(|x| x.variables.is_some()).unwrap_or(false), "the rest of the logic file is read"); check(l.screens.len() == 2 && h.contains(".java_"), "a logic header that is not understood is an error") } Err(_) => {} } }
        2 => { let h = hole1(["@activity", "@customview"][choose(2) as usize]); let t = format!("{}\n{}\n@activity\n{}", h, FILE, FILE); check(File::parse(&t).is_err(), "a file-list header that is not understood is an error") }
        _ => { let h = hole1(["@images", "@sounds", "@fonts"][choose(3) as usize]); let t = format!("{}\n{}\n@images\n{}", h, RES, RES); check(Resource::parse(&t).is_err(), "a resource-list header that is not understood is an error") }
    }
    reach("end");
}
/// Blank lines between and inside the sections of the file, resource, view and logic files lose nothing that follows.
#[no_mangle] pub extern "C" fn h_c18_blank() {
    let k = choose(3) as usize; let b = "\n".repeat(k); // extra blank lines
    match choose(4) {
        0 => match File::parse(&format!("@activity\n{FILE}\n{b}{FILE}\n{b}@customview\n{b}{FILE}\n{b}")) { Ok(f) => check(f.activities.len() == 2 && f.custom_views.len() == 1, "no file item is lost"), Err(_) => check(k > 0, "the file list is read") },
        1 => match Resource::parse(&format!("@images\n{RES}\n{b}@sounds\n{b}{RES}\n{b}@fonts\n{RES}\n{b}")) { Ok(f) => check(f.images.len() == 1 && f.sounds.len() == 1 && f.fonts.len() == 1, "no resource is lost"), Err(_) => check(k > 0, "the resource list is read") },
        2 => match View::parse(&format!("@a.xml\n\n{b}@b.xml\n\n{b}@b.xml_fab\n{}\n{b}", crate::viewfile::FULL)) { Ok(v) => check(v.layouts.len() == 2 && v.fabs.len() == 1, "no layout is lost"), Err(_) => check(k > 0, "the view file is read") },
        _ => match Logic::parse(&format!("@A.java_var\n0:q\n\n{b}@B.java_events\n{EVENT}\n\n{b}@C.java_x_y\n{BLOCK}\n{b}")) { Ok(l) => check(l.screens.len() == 3, "no screen is lost"), Err(_) => check(k > 0, "the logic file is read") },
    }
    reach("end");
}
/// One bad part (layout with an unknown parent, custom view without layout, component or event of an unknown type, unreadable code or more-block spec) at any place among 12 good ones of its kind, or none. [jobs 8]
#[no_mangle] pub extern "C" fn h_c18_among() {
    let mut p = base(); let n = 12usize; let at = choose(13) as usize; let k = choose(7); let mut l = ScreenLogic::new_empty(s("MainActivity")); p.file.activities.push(item("main"));
    match k {
        0 => for i in 0..n { p.file.activities.push(item(&format!("s{}", i))); let mut v = av(&format!("v{}", i)); if i == at { v.parent = Some(s("ghost")) } p.view.layouts.insert(format!("s{}", i), Layout(vec![av("w"), v])); },
        1 => for i in 0..n { p.file.custom_views.push(cv_item(&format!("c{}", i))); if i != at { p.view.layouts.insert(format!("c{}", i), Layout(vec![])); } },
        2 => l.components = Some(ComponentPool((0..n).map(|i| Component { id: format!("c{}", i), param1: s(""), param2: s(""), param3: s(""), r#type: if i == at { 99 } else { 5 } }).collect())),
        3 => l.events = Some(EventPool((0..n).map(|i| pev(&format!("e{}", i), if i == at { 4 } else { 1 + i as u8 % 3 }, "x", 0)).collect())),
        4 => { l.events = Some(EventPool((0..n).map(|i| pev(&format!("e{}", i), 1, "x", 0)).collect())); for i in 0..n { l.block_containers.insert(format!("x_e{}", i), if i == at { broken(0) } else { code("fine") }); } }
        5 => { let mut m = LinkedHashMap::new(); for i in 0..n { m.insert(format!("m{}", i), MoreBlock { id: format!("m{}", i), spec: s(if i == at { "go %q" } else { "go %s" }) }); } l.more_blocks = Some(MoreBlockPool(m)) }
        _ => { p.view.layouts.insert(s("main"), Layout((0..n).map(|i| { let mut v = av(&format!("v{}", i)); if i == at { v.parent = Some(s("ghost")) } else if i > 0 && i - 1 != at { v.parent = Some(format!("v{}", i - 1)) } v }).collect())); }
    }
    p.logic.screens.insert(l.name.clone(), l);
    refused(p, at < n, "an inconsistent part is an error wherever it is"); reach("end");
}
/// One record cut off at its end among 12 good ones, at any place of any section of the data files, or none. [jobs 8]
#[no_mangle] pub extern "C" fn h_c18_among_records() {
    let at = choose(13) as usize; let k = choose(10); let (head, rec, tail) = match k { 0 => ("@activity", FILE, "@customview"), 1 => ("@activity\n@customview", FILE, ""), 2 => ("@images", RES, "@sounds\n@fonts"), 3 => ("@images\n@sounds\n@fonts", RES, ""), 4 => ("@A.java_components", COMP, "\n@A.java_var\n0:q"), 5 => ("@A.java_events", EVENT, ""), 6 => ("@A.java_b_onClick", BLOCK, "\n@A.java_var\n0:q"), 7 => ("@A.java_var", "1:x", ""), 8 => ("@A.java_func", "mb:mb %s.a", "\n@B.java_var\n"), _ => ("@main.xml", crate::viewfile::FULL, "\n@b.xml\n") };
    let mut t = s(head); for i in 0..12 { t.push('\n'); t.push_str(if i == at { if k == 7 || k == 8 { "x" } else { &rec[..rec.len() - 1] } } else { rec }) }
    if !tail.is_empty() { t.push('\n'); t.push_str(tail) }
    let ok = match k { 0 | 1 => File::parse(&t).is_ok(), 2 | 3 => Resource::parse(&t).is_ok(), 9 => View::parse(&t).is_ok(), _ => Logic::parse(&t).is_ok() };
    check(ok == (at == 12), "a malformed record is an error wherever it is"); reach("end");
}
#[allow(dead_code)] fn unused(_: Block) {}
/// Ids and file names that are free texts of 1 to 24 printable characters, or long and special texts: stored, looked up, refused when taken, removed; sorted and matched under their names. [jobs 8]
#[no_mangle] pub extern "C" fn h_c17_words() {
    let t = if choose(2) == 0 { any_plain() } else { wide() }; let k = choose(3) as usize; assume(t != "other");
    if choose(2) == 0 {
        let mut r = Resources::new_empty(); let (a, b) = (W::StringId { id: t.clone(), res_full_name: t.clone(), res_type: T[k] }, wrapper(1, 3, T[(k + 1) % 3])); let ids = [t.clone(), s("other")];
        check(r.put_resource(ResourceId(t.clone()), a.clone(), T[k]).is_ok() && r.put_resource(ResourceId(s("other")), b.clone(), T[(k + 1) % 3]).is_ok(), "a free id is accepted"); let mut m: Model = vec![(t.clone(), T[k], a.clone()), (s("other"), T[(k + 1) % 3], b)]; agree(&r, &m, &ids);
        check(r.put_resource(ResourceId(t.clone()), wrapper(0, 4, T[(k + 2) % 3]), T[(k + 2) % 3]).is_err(), "a taken id is refused"); agree(&r, &m, &ids);
        check(r.remove_resource(&ResourceId(t)) == Some((a, T[k])), "removal gives what was stored, with its type"); m.remove(0); agree(&r, &m, &ids);
    } else {
        let w = W::U32Id { id: u32_(), res_full_name: t.clone(), res_type: T[k] }; let o = W::StringId { id: s("o"), res_full_name: s("other"), res_type: T[k] };
        match ResourceFiles::try_from(vec![w.clone(), o.clone()]) { Err(_) => check(false, "existing files and ids are accepted"), Ok(f) => {
            let m = [&f.images, &f.sounds, &f.fonts]; for i in 0..3 { check(m[i].len() == if i == k { 2 } else { 0 }, "each type has exactly its files") } check(m[k].get(&t) == Some(&w) && m[k].get("other") == Some(&o) && f.custom_icon.is_none(), "a file is found under its type and full name");
            let mut p = base(); [&mut p.resource.images, &mut p.resource.sounds, &mut p.resource.fonts][k].push(ResourceItem { full_name: t.clone(), name: s("nm"), r#type: 1 }); p.resource_files = Some(f);
            match SketchwareProject::try_from(p) { Ok(a) => agree(&a.resources, &vec![(s("nm"), T[k], w)], &[s("nm"), t]), Err(_) => check(false, "listed resources with files are accepted") }
        } }
    }
    reach("end");
}
/// Paths: file names and parent folders of 1 to 16 free letters, digits and underscores: sorted by the folder two above the file and found under the file name. [jobs 8]
#[no_mangle] pub extern "C" fn h_c17_path_words() {
    let n = NAME_LENS[choose(13) as usize]; let t = name(n); let k = choose(4) as usize; let d = ["images", "sounds", "fonts", "icons"][k]; let at = choose(3);
    let t2 = s("601"); let path = match at { 0 => format!("r/{}/601/{}", d, "f.x"), 1 => format!("r/{}/{}/f.x", d, t2), _ => format!("q/r/{}/601/f.x", d) }; file(&path, b"z"); let w = W::Path(PathBuf::from(&path));
    let u = W::StringId { id: t.clone(), res_full_name: t.clone(), res_type: ResourceType::CustomIcon }; let both = k != 3;
    let v = if both { vec![w.clone(), u.clone()] } else { vec![w.clone()] };
    match ResourceFiles::try_from(v) { Err(_) => check(false, "existing files and ids are accepted"), Ok(f) => { let m = [&f.images, &f.sounds, &f.fonts]; for i in 0..3 { check(m[i].len() == (i == k) as usize, "each type has exactly its files") } if k < 3 { check(m[k].get("f.x") == Some(&w) && f.custom_icon == Some(u), "a file is found under its type and full name") } else { check(f.custom_icon == Some(w), "the icon is the icon") } } }
    reach("end");
}
/// Enabled flags, parent ids and section names of 1 to 24 (view and logic headers: 1 to 5) free characters: always refused unless they are exactly the known ones. [jobs 8]
#[no_mangle] pub extern "C" fn h_c18_words() {
    let c = choose(8); let t = if c == 5 || c == 6 { short_name() } else { any_name() };
    match c {
        0 => { let mut p = base(); let k = choose(4) as usize; let l = &mut p.library; [&mut l.firebase_db, &mut l.admob, &mut l.google_map, &mut l.compat][k].use_yn = t.clone(); refused(p, t != "Y" && t != "N", "an unknown enabled flag is an error") }
        1 => { let mut p = base(); p.file.activities.push(item("main")); let mut v = av("v0"); v.parent = Some(t.clone()); let mut w = av("v1"); w.parent = Some(s("root")); p.view.layouts.insert(s("main"), Layout(vec![w, v])); assume(t != "v0"); refused(p, t != "root" && t != "v1", "a view with an unknown parent is an error") }
        2 => { let mut p = base(); p.file.custom_views.push(cv_item(&t)); p.view.layouts.insert(s("known"), Layout(vec![])); refused(p, t != "known", "a custom view without a layout is an error") }
        3 => { let x = File::parse(&format!("@{}\n{}", t, FILE)); check(x.is_ok() == (t == "activity" || t == "customview"), "a file-list header that is not understood is an error") }
        4 => { let x = Resource::parse(&format!("@{}\n{}", t, RES)); check(x.is_ok() == (t == "images" || t == "sounds" || t == "fonts"), "a resource-list header that is not understood is an error") }
        5 => check(View::parse(&format!("@a.xml\n\n@{}\n\n@b.xml\n", t)).is_err(), "a view header that is not understood is an error"),
        6 => check(Logic::parse(&format!("@A.java_var\n0:q\n\n@{}\n0:q\n\n@B.java_var\n0:q\n", t)).is_err(), "a logic header that is not understood is an error"),
        _ => { let mut l = ScreenLogic::new_empty(s("MainActivity")); let mut b = block("10", "op"); b.r#type = t.clone(); l.block_containers.insert(s("onCreate_initializeLogic"), BlockContainer(vec![b])); refused(with_logic(l), !["v", "p", "b", "s", "d", "c", "e", "f"].contains(&t.as_str()), "code that cannot be read is an error") }
    }
    reach("end");
}
