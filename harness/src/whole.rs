//! C16: whole projects.
use crate::lists::{li, opts};
use crate::screens::*;
use crate::viewfile::{any_of, av, wild};
use crate::vp::*;
use ritelinked::LinkedHashMap;
use std::collections::HashMap;
use swrs::api::library::*;
use swrs::api::screen::Screen;
use swrs::api::view::View as ApiView;
use swrs::api::*;
use swrs::color::Color;
use swrs::parser::file::{File, FileItem, FileType, KeyboardSetting, Orientation, Theme};
use swrs::parser::library::{AdUnit, Library};
use swrs::parser::logic::variable::{Variable, VariablePool, VariableType};
use swrs::parser::logic::{Logic, ScreenLogic};
use swrs::parser::resource::{Resource, ResourceItem};
use swrs::parser::view::models::AndroidView;
use swrs::parser::view::{Layout, View};
use swrs::parser::{RawSketchwareProject, ResourceFileWrapper, ResourceFiles, ResourceType, SketchwareProject as Parsed};

/// A parsed project with nothing in it but its settings.
pub fn base() -> Parsed {
    Parsed { project: crate::proj::project(), file: File { activities: vec![], custom_views: vec![] }, library: Library { firebase_db: li("", 0), compat: li("", 1), admob: li("", 2), google_map: li("", 3) }, resource: Resource { images: vec![], sounds: vec![], fonts: vec![] },
        view: View { layouts: LinkedHashMap::new(), fabs: LinkedHashMap::new() }, logic: Logic { screens: LinkedHashMap::new() }, resource_files: Some(ResourceFiles::default()) }
}
pub fn api(p: Parsed) -> Option<SketchwareProject> { match SketchwareProject::try_from(p) { Ok(a) => Some(a), Err(_) => { check(false, "the project is converted"); None } } }
fn view(id: &str) -> AndroidView { let mut v = av(id); v.r#type = 0; v }
/// A view with every unlinked field free.
fn wild_view(id: &str) -> AndroidView { let mut v = av(id); wild(&mut v); v.r#type = 0; v.parent_type = 0; v }
pub fn fab(id: &str) -> AndroidView { let mut v = av(id); v.r#type = 16; v.parent = None; v.parent_type = -1; v.image.res_name = Some(s("ic")); v }
/// main -> MainActivity, a_b -> ABActivity: words between underscores get a capital letter.
pub fn java(n: &str) -> String { let mut r = String::new(); for w in n.split('_') { let mut c = w.chars(); if let Some(x) = c.next() { r.push(x.to_ascii_uppercase()); r.push_str(c.as_str()) } } r + "Activity" }

/// Project settings: every field free (texts of up to 2 bytes, whole range of numbers and colours); both directions.
#[no_mangle] pub extern "C" fn h_c16_metadata() {
    let mut p = base(); let q = &mut p.project; let icon = choose(2) == 1;
    match choose(9) { 0 => q.id = u16_(), 1 => q.app_name = text_upto(2), 2 => q.workspace_name = text_upto(2), 3 => q.package_name = text_upto(2), 4 => q.version_code = u16_(), 5 => q.version_name = text_upto(2), 6 => q.date_created = u64_(), 7 => q.sketchware_version = u8_(),
        _ => { q.color_palette.color_primary = Color::from(u32_()); q.color_palette.color_primary_dark = Color::from(u32_()); q.color_palette.color_accent = Color::from(u32_()); q.color_palette.color_control_normal = Color::from(u32_()); q.color_palette.color_control_highlight = Color::from(u32_()) } }
    q.custom_icon = icon;
    if choose(2) == 1 { p.resource_files = None } else if icon { p.resource_files = Some(ResourceFiles { custom_icon: Some(ResourceFileWrapper::U32Id { id: 7, res_full_name: s("icon.png"), res_type: ResourceType::CustomIcon }), ..ResourceFiles::default() }) }
    let want = p.clone();
    if let Some(a) = api(p) {
        let (m, q) = (&a.metadata, &want.project);
        check(m.local_id == q.id && m.name == q.app_name && m.workspace_name == q.workspace_name && m.package_name == q.package_name && m.time_created == q.date_created && m.sketchware_version == q.sketchware_version && m.version_name == q.version_name && m.version_code == q.version_code, "settings are shown");
        let (c, d) = (&a.colors, &q.color_palette);
        check(c.color_primary == d.color_primary && c.color_primary_dark == d.color_primary_dark && c.color_accent == d.color_accent && c.color_control_normal == d.color_control_normal && c.color_control_highlight == d.color_control_highlight, "colours are shown");
        check(a.custom_icon.is_some() == q.custom_icon, "the custom icon is shown");
        if let Some(r) = &want.resource_files { check(a.custom_icon == r.custom_icon, "the custom icon keeps its file") }
        let b = Parsed::from(a); check(b.project == want.project, "settings and colours are kept"); check(b.resource_files.is_some() == want.resource_files.is_some(), "resource files stay present");
        if let (Some(x), Some(y)) = (&b.resource_files, &want.resource_files) { check(x.custom_icon == y.custom_icon, "the icon file is kept") }
    }
    reach("end");
}
/// Libraries: each of the four enabled or not in every combination, every field of the enabled ones free. [jobs 8]
#[no_mangle] pub extern "C" fn h_c16_libraries() {
    let mut p = base(); let l = &mut p.library; let on: Vec<bool> = (0..4).map(|_| choose(2) == 1).collect();
    if on[0] { l.firebase_db.use_yn = s("Y"); l.firebase_db.data = s("d"); l.firebase_db.reserved1 = s("r1"); l.firebase_db.reserved2 = s("r2"); l.firebase_db.reserved3 = s("r3"); match choose(4) { 0 => l.firebase_db.data = text_upto(2), 1 => l.firebase_db.reserved1 = text_upto(2), 2 => l.firebase_db.reserved2 = text_upto(2), _ => l.firebase_db.reserved3 = text_upto(2) } }
    if on[1] { l.compat.use_yn = s("Y") }
    if on[2] { l.admob.use_yn = s("Y"); let n = choose(3) as usize; l.admob.ad_units = (0..n).map(|_| AdUnit { id: lower(1), name: lower(1) }).collect(); let n = choose(3) as usize; l.admob.test_devices = (0..n).map(|_| lower(1)).collect(); }
    if on[3] { l.google_map.use_yn = s("Y"); l.google_map.data = text_upto(2) }
    let want = p.clone();
    if let Some(a) = api(p) {
        let (w, x) = (&want.library, &a.libraries);
        check(x.app_compat_enabled == on[1], "compatibility library");
        check(x.firebase == on[0].then(|| Firebase { project_id: w.firebase_db.data.clone(), app_id: w.firebase_db.reserved1.clone(), api_key: w.firebase_db.reserved2.clone(), storage_bucket: w.firebase_db.reserved3.clone() }), "firebase library");
        check(x.ad_mob == on[2].then(|| AdMob { ad_units: w.admob.ad_units.clone(), test_devices: w.admob.test_devices.clone() }), "admob library");
        check(x.google_map == on[3].then(|| GoogleMap { api_key: w.google_map.data.clone() }), "map library");
        let b = Parsed::from(a); check(b.library == want.library, "libraries are kept");
    }
    reach("end");
}
fn logic_of(name: &str, tag: &str) -> ScreenLogic { let mut l = ScreenLogic::new_empty(s(name)); let mut m = LinkedHashMap::new(); m.insert(s(tag), Variable { name: s(tag), r#type: VariableType::Integer }); l.variables = Some(VariablePool(m)); l.block_containers.insert(s("onCreate_initializeLogic"), code(&format!("c{}", tag))); l }
/// One to three screens with free settings (options, orientation, theme, keyboard), each with or without layout (first view with all fields free), logic and button (partly free), listed in any relation to the order of those sections, plus a custom view; names with and without underscore. [jobs 8]
#[no_mangle] pub extern "C" fn h_c16_screens() {
    let n = choose(3) as usize + 1; screens_case(n, &["main", "second_page", "a_b"]); reach("end");
}
/// The same with four screens. [jobs 8] [time 900]
#[no_mangle] pub extern "C" fn h_c16_screens_t() { screens_case(4, &["main", "second_page", "a_b", "ab"]); reach("end"); }
fn screens_case(n: usize, names: &[&str]) {
    let mut p = base();
    let mut has = vec![]; for _ in 0..n { let k = choose(8); has.push((k & 1 != 0, k & 2 != 0, k & 4 != 0)) }
    let order: Vec<usize> = match choose(3) { 0 => (0..n).collect(), 1 => (0..n).rev().collect(), _ => (0..n).map(|i| (i + 1) % n).collect() };
    for i in 0..n { let mut f = item(names[i]); f.options.toolbar_enabled = bool_(); f.options.fullscreen_enabled = bool_(); f.options.drawer_enabled = bool_(); f.options.fab_enabled = bool_(); f.orientation = any_of(&[Orientation::Portrait, Orientation::Landscape, Orientation::Both]); f.theme = any_of(&[Theme::Fullscreen, Theme::None, Theme::Actionbar, Theme::Default]); f.keyboard_setting = any_of(&[KeyboardSetting::Hidden, KeyboardSetting::Visible, KeyboardSetting::Unspecified]); p.file.activities.push(f) }
    p.file.custom_views.push(cv_item("cust")); p.view.layouts.insert(s("cust"), Layout(vec![view("in_cust")]));
    for &i in &order {
        if has[i].0 { p.view.layouts.insert(s(names[i]), Layout(vec![wild_view(&format!("v{}", i)), { let mut c = view(&format!("w{}", i)); c.parent = Some(format!("v{}", i)); c }])); }
        if has[i].1 { let j = java(names[i]); p.logic.screens.insert(j.clone(), logic_of(&j, &format!("x{}", i))); }
        if has[i].2 { let mut f = fab(&format!("f{}", i)); f.index = u32_(); f.layout.margin_top = u32_(); f.layout.background_color = Color::from(u32_()); f.enabled = bool_(); f.pre_index = i32_(); f.image.res_name = Some(ascii(1)); p.view.fabs.insert(s(names[i]), f); }
    }
    let want = p.clone();
    let a = match api(p) { Some(a) => a, None => return };
    check(a.screens.len() == n, "every screen is there");
    for i in 0..n {
        let sc = &a.screens[i]; let f = &want.file.activities[i];
        check(sc.layout_name == names[i] && sc.java_name == java(names[i]), "screens keep their order and names");
        if has[i].0 { check(sc.layout.len() == 1 && sc.layout[0].id == format!("v{}", i) && sc.layout[0].children.len() == 1 && sc.layout[0].children[0].id == format!("w{}", i), "a screen has its own layout") } else { check(sc.layout.is_empty(), "a screen without layout has none") }
        if has[i].1 { check(sc.variables.len() == 1 && sc.variables.contains_key(&format!("x{}", i)), "a screen has its own logic"); check(sc.events.len() == 1 && sc.events[0].code.0.len() == 1 && sc.events[0].code.0[0].op_code == format!("cx{}", i), "a screen has its own code") } else { check(sc.variables.is_empty() && sc.events.is_empty() && sc.more_blocks.is_empty() && sc.components.is_empty() && sc.list_variables.is_empty(), "a screen without logic has none") }
        check(sc.fab.as_ref().map(|v| v.id.clone()) == has[i].2.then(|| format!("f{}", i)), "a screen has its own button");
        check(sc.toolbar_enabled == f.options.toolbar_enabled && sc.fullscreen_enabled == f.options.fullscreen_enabled && sc.drawer_enabled == f.options.drawer_enabled && sc.fab_enabled == f.options.fab_enabled, "a screen has its own options");
        check(sc.orientation == f.orientation && sc.theme == f.theme && sc.keyboard_setting == f.keyboard_setting, "a screen has its own settings");
    }
    check(a.custom_views.len() == 1 && a.custom_views[0].res_name == "cust" && a.custom_views[0].layout.len() == 1 && a.custom_views[0].layout[0].id == "in_cust", "a custom view has its own layout");
    let b = Parsed::from(a.clone());
    check(b.file.activities == want.file.activities, "the screen list is kept");
    check(b.file.custom_views.len() == 1 && b.file.custom_views[0].filename == "cust", "the custom view list is kept");
    check(b.view.layouts.len() == n + 1 && b.logic.screens.len() == n && b.view.fabs.len() == has.iter().filter(|h| h.2).count(), "nothing else is written");
    check(b.view.layouts.get("cust") == want.view.layouts.get("cust"), "the custom view's layout is kept");
    for i in 0..n {
        check(b.view.layouts.get(names[i]) == Some(want.view.layouts.get(names[i]).unwrap_or(&Layout(vec![]))), "a screen's layout is kept under its name");
        check(b.view.fabs.get(names[i]) == want.view.fabs.get(names[i]), "a screen's button is kept under its name");
        match b.logic.screens.get(&java(names[i])) { Some(l) => { check(l.name == java(names[i]), "a screen's logic knows its name"); check(l.variables.clone().unwrap_or_default().0.len() == has[i].1 as usize && l.variables.clone().unwrap_or_default().0.contains_key(&format!("x{}", i)) == has[i].1, "a screen's logic is kept under its name"); check(l.block_containers.get("onCreate_initializeLogic").map(|c| c.0.len()).unwrap_or(0) == has[i].1 as usize, "a screen's code is kept under its name") } None => check(false, "a screen's logic is written") }
    }
    // once more through the API
    if let Some(c) = api(b) { check(c == a, "the project comes back") }
}
/// A custom view item as Sketchware writes it by default.
pub fn cv_item(n: &str) -> FileItem { FileItem { filename: s(n), file_type: FileType::CustomView, keyboard_setting: KeyboardSetting::Unspecified, options: opts(0), orientation: Orientation::Both, theme: Theme::None } }
/// Screen names: any two distinct texts of 1 to 4 bytes over lower-case letters, digits and underscore whose Java names differ; both have logic and layout under their own name. [jobs 8]
#[no_mangle] pub extern "C" fn h_c16_names() {
    let mut p = base();
    let nm = |k: usize| { let v = bytes(k); for b in &v { assume(((*b >= b'a') & (*b <= b'z')) | ((*b >= b'0') & (*b <= b'9')) | (*b == b'_')) } unsafe { String::from_utf8_unchecked(v) } };
    let (j, k) = (choose(3) as usize + 1, choose(2) as usize + 3); let (x, y) = (nm(j), nm(k)); assume(java(&x) != java(&y));
    for (i, n) in [&x, &y].iter().enumerate() { p.file.activities.push(item(n)); p.view.layouts.insert(n.to_string(), Layout(vec![view(["vx", "vy"][i])])); let jn = java(n); p.logic.screens.insert(jn.clone(), logic_of(&jn, ["lx", "ly"][i])); }
    p.logic.screens.insert(s("zzzzActivity"), logic_of("zzzzActivity", "zz"));
    if let Some(a) = api(p) { for (i, n) in [&x, &y].iter().enumerate() { let sc = &a.screens[i]; check(sc.layout_name == **n && sc.java_name == java(n), "a screen is named after its file"); check(sc.layout.len() == 1 && sc.layout[0].id == ["vx", "vy"][i], "a screen has the layout of its name"); check(sc.variables.contains_key(["lx", "ly"][i]), "a screen has the logic of its name") } }
    reach("end");
}
/// Zero to three custom views in every order of their layouts, whose other settings are the defaults.
#[no_mangle] pub extern "C" fn h_c16_custom() {
    let mut p = base(); let n = choose(4) as usize; let names = [lower(1), lower(2), s("abc")];
    for i in 0..n { p.file.custom_views.push(cv_item(&names[i])) }
    for i in (0..n).rev() { p.view.layouts.insert(names[i].clone(), Layout(vec![view(&format!("v{}", i))])); }
    if choose(2) == 1 { p.file.activities.push(item("main")) }
    let want = p.clone();
    if let Some(a) = api(p) {
        check(a.custom_views.len() == n, "every custom view is there");
        for i in 0..n { let c = &a.custom_views[i]; check(c.res_name == names[i] && c.layout.len() == 1 && c.layout[0].id == format!("v{}", i), "a custom view has the layout of its name") }
        let b = Parsed::from(a); check(b.file == want.file, "the file list is kept"); for i in 0..n { check(b.view.layouts.get(&names[i]) == want.view.layouts.get(&names[i]), "a custom view's layout is kept") }
    }
    reach("end");
}
/// A custom view item whose type, options, orientation, theme or keyboard setting is not the default.
#[no_mangle] pub extern "C" fn h_c16_custom_settings() {
    let mut p = base(); let mut f = cv_item("cust");
    match choose(5) { 0 => f.file_type = FileType::Drawer, 1 => f.options = opts(choose(16) as u8), 2 => f.orientation = Orientation::Portrait, 3 => f.theme = Theme::Default, _ => f.keyboard_setting = KeyboardSetting::Hidden }
    p.file.custom_views.push(f.clone()); p.view.layouts.insert(s("cust"), Layout(vec![]));
    if let Some(a) = api(p) { let b = Parsed::from(a); check(b.file.custom_views.len() == 1 && b.file.custom_views[0].filename == "cust", "the custom view is kept"); check(b.file.custom_views.get(0) == Some(&f), "a custom view keeps its file settings") }
    reach("end");
}
pub fn wrap(k: u64, full: &str, t: ResourceType) -> ResourceFileWrapper { if k == 0 { ResourceFileWrapper::StringId { id: s("sid"), res_full_name: s(full), res_type: t } } else { ResourceFileWrapper::U32Id { id: 42, res_full_name: s(full), res_type: t } } }
/// Resources: 0-2 images, sounds and fonts with free names, with given files (every kind of id), with files that are not listed, or without any files; both directions. [jobs 8]
#[no_mangle] pub extern "C" fn h_c16_resources() {
    let mut p = base(); let given = choose(2) == 1; let mut rf = ResourceFiles::default();
    let t = [ResourceType::Image, ResourceType::Sound, ResourceType::Font];
    let mut lists: Vec<Vec<ResourceItem>> = vec![vec![], vec![], vec![]];
    for k in 0..3 { let n = choose(3) as usize; let (a, b) = (lower(1), lower(1)); assume(a != b); for i in 0..n { let nm = if i == 0 { a.clone() } else { b.clone() }; let full = format!("{}.x", nm); let w = wrap(choose(2), &full, t[k]); [&mut rf.images, &mut rf.sounds, &mut rf.fonts][k].insert(full.clone(), w); lists[k].push(ResourceItem { full_name: full, name: nm, r#type: 1 }) } }
    p.resource = Resource { images: lists[0].clone(), sounds: lists[1].clone(), fonts: lists[2].clone() };
    if given { p.resource_files = Some(rf.clone()) } else { p.resource_files = None }
    let want = p.clone();
    if let Some(a) = api(p) {
        let got = [a.resources.get_images(), a.resources.get_sounds(), a.resources.get_fonts()];
        for k in 0..3 {
            check(got[k].len() == lists[k].len(), "every resource is there");
            for (i, (id, f)) in got[k].iter().enumerate() { check(id.0 == lists[k][i].name, "resources keep their order and names"); check(f.get_full_name() == lists[k][i].full_name, "a resource keeps its file name"); if given { check([&rf.images, &rf.sounds, &rf.fonts][k].get(&lists[k][i].full_name) == Some(f), "a resource has the file of its name and type") } else { check(matches!(f, ResourceFileWrapper::U32Id { res_type, .. } if *res_type == t[k]), "a resource without a file gets an id of its type") } }
        }
        let b = Parsed::from(a); check(b.resource == want.resource, "the resource lists are kept"); check(b.resource_files == want.resource_files, "resource files are kept");
    }
    reach("end");
}

// ---------------------------------------------------------------- through the six data files
pub fn trip(a: SketchwareProject) {
    let r: Result<RawSketchwareProject, _> = a.clone().try_into();
    match r {
        Err(_) => check(false, "the project is written"),
        Ok(raw) => { observe(raw.logic.as_bytes()); match Parsed::parse_from(raw) { Err(_) => check(false, "the written files are read"), Ok(p) => match SketchwareProject::try_from(p) { Err(_) => check(false, "the read project is converted"), Ok(b) => {
            check(b.metadata == a.metadata, "settings come back"); check(b.colors == a.colors, "colours come back"); check(b.libraries == a.libraries, "libraries come back"); check(b.resources == a.resources, "resources come back"); check(b.custom_icon == a.custom_icon, "the icon comes back"); check(b.custom_views == a.custom_views, "custom views come back");
            check(b.screens.len() == a.screens.len(), "every screen comes back"); for i in 0..a.screens.len().min(b.screens.len()) { let (x, y) = (&b.screens[i], &a.screens[i]); check(x.layout == y.layout, "a layout comes back"); check(x.fab == y.fab, "a button comes back"); check(x.events == y.events && x.more_blocks == y.more_blocks, "code comes back"); check(x == y, "a screen comes back") }
            check(b == a, "the project comes back");
        } } } }
    }
}
fn api_view(id: &str) -> ApiView { ApiView::from(view(id)) }
pub fn new(screens: Vec<Screen>, cvs: Vec<CustomView>, l: Libraries, r: Resources) -> SketchwareProject { SketchwareProject::new(metadata(), colors(), screens, cvs, l, r) }
pub fn api_screen(n: &str, k: u64, tag: &str) -> Option<Screen> {
    let j = java(n); let mut sc = match to_api(if k & 1 != 0 { logic_of(&j, tag) } else { ScreenLogic::new_empty(j) }) { Ok(x) => x, Err(_) => { check(false, "harness: screen"); return None } };
    sc.layout_name = s(n); if k & 2 != 0 { let mut v = ApiView::from({ let mut a = view("lv"); a.parent_type = 0; a }); let mut c = view("lw"); c.parent = Some(s("lv")); v.children.push(ApiView::from(c)); sc.layout.push(v) } if k & 4 != 0 { sc.fab = Some(ApiView::from(fab("_fab"))) }
    sc.toolbar_enabled = k & 1 == 0; sc.fab_enabled = k & 4 != 0; sc.orientation = if k & 2 != 0 { Orientation::Landscape } else { Orientation::Both };
    Some(sc)
}
/// Editing-API projects written to the six data files and read again: one or two screens with or without logic, layout and button, and a custom view. [jobs 8]
#[no_mangle] pub extern "C" fn h_c16_files() {
    let n = choose(2) as usize + 1; let mut v = vec![]; for i in 0..n { match api_screen(["main", "next_one"][i], choose(8), ["tx", "ty"][i]) { Some(x) => v.push(x), None => return } }
    let cv = if choose(2) == 1 { vec![CustomView { res_name: s("cust"), layout: if choose(2) == 1 { vec![api_view("cv1"), api_view("cv2")] } else { vec![] } }] } else { vec![] };
    trip(new(v, cv, libs(), Resources::new_empty())); reach("end");
}
/// The same for libraries, resources, icon and settings. [jobs 8]
#[no_mangle] pub extern "C" fn h_c16_files_lists() {
    let mut l = libs(); let mut r = Resources::new_empty(); let t = plain(2);
    if choose(2) == 1 { l.app_compat_enabled = true } if choose(2) == 1 { l.firebase = Some(Firebase { project_id: t.clone(), app_id: s("b"), api_key: s("c"), storage_bucket: s("d") }) } if choose(2) == 1 { l.ad_mob = Some(AdMob { ad_units: vec![AdUnit { id: s("i"), name: t.clone() }], test_devices: vec![t.clone()] }) } if choose(2) == 1 { l.google_map = Some(GoogleMap { api_key: t.clone() }) }
    for (k, ty) in [ResourceType::Image, ResourceType::Sound, ResourceType::Font].iter().enumerate() { if choose(2) == 1 { let _ = r.put_resource(ResourceId(format!("{}{}", lower(1), k)), wrap(0, &format!("f{}.x", k), *ty), *ty); } }
    let mut a = new(vec![], vec![], l, r); a.metadata.name = t; if choose(2) == 1 { a.custom_icon = Some(wrap(1, "icon.png", ResourceType::CustomIcon)) }
    trip(a); reach("end");
}
/// A whole parsed project written to the six data files and read again is the same parsed project (files and records; with and without resource files).
#[no_mangle] pub extern "C" fn h_c16_raw() {
    let mut p = base(); let n = lower(1); p.file.activities.push(item(&n)); p.view.layouts.insert(n.clone(), Layout(vec![view("a")])); p.view.fabs.insert(n.clone(), fab("f")); p.logic.screens.insert(s("XActivity"), logic_of("XActivity", "q"));
    p.resource.images.push(ResourceItem { full_name: s("i.png"), name: n.clone(), r#type: 1 }); p.resource.sounds.push(ResourceItem { full_name: s("s.mp3"), name: s("s"), r#type: 1 });
    match choose(3) { 0 => p.resource_files = None, 1 => {} _ => p.resource_files = Some(ResourceFiles { custom_icon: Some(wrap(0, "icon.png", ResourceType::CustomIcon)), images: HashMap::from([(s("i.png"), wrap(1, "i.png", ResourceType::Image))]), sounds: HashMap::from([(s("s.mp3"), wrap(1, "s.mp3", ResourceType::Sound))]), fonts: HashMap::from([(s("f.ttf"), wrap(0, "f.ttf", ResourceType::Font))]) }) }
    let raw: Result<RawSketchwareProject, _> = p.clone().try_into();
    match raw { Ok(r) => {
        let r2 = RawSketchwareProject { project: r.project.clone(), file: r.file.clone(), library: r.library.clone(), resource: r.resource.clone(), view: r.view.clone(), logic: r.logic.clone(), resource_files: None };
        match Parsed::parse_from(r) { Ok(q) => check(q == p, "the parsed project comes back"), Err(_) => check(false, "the written files are read") }
        match Parsed::parse_wo_res(r2.project, r2.file, r2.library, r2.resource, r2.view, r2.logic) { Ok(q) => { p.resource_files = None; check(q == p, "without resource files the rest is the same") } Err(_) => check(false, "the written files are read") }
    } Err(_) => check(false, "the project is written") }
    reach("end");
}

/// Large projects: 4 to 33 screens (all with layout and logic, every third with a button), custom views, images, sounds, fonts, ad units, test devices or views of one screen; both directions. [jobs 8] [ins 90000000]
#[no_mangle] pub extern "C" fn h_c16_large() {
    let n = SIZES[choose(6) as usize]; let m = lower(1); let names: Vec<String> = (0..n).map(|i| if i == n / 2 { format!("{}x{}", m, i) } else { format!("n{}", i) }).collect();
    let mut p = base(); let mut rf = ResourceFiles::default(); let k = choose(8);
    match k {
        0 => for (i, x) in names.iter().enumerate() { p.file.activities.push(item(x)); p.view.layouts.insert(x.clone(), Layout(vec![view(x)])); let j = java(x); p.logic.screens.insert(j.clone(), logic_of(&j, x)); if i % 3 == 0 { p.view.fabs.insert(x.clone(), fab(x)); } },
        1 => for x in &names { p.file.custom_views.push(cv_item(x)); p.view.layouts.insert(x.clone(), Layout(vec![view(x)])); },
        2 | 3 | 4 => { let t = [ResourceType::Image, ResourceType::Sound, ResourceType::Font][k as usize - 2]; for x in &names { let full = format!("{}.x", x); [&mut rf.images, &mut rf.sounds, &mut rf.fonts][k as usize - 2].insert(full.clone(), wrap(x.len() as u64 % 2, &full, t)); [&mut p.resource.images, &mut p.resource.sounds, &mut p.resource.fonts][k as usize - 2].push(ResourceItem { full_name: full, name: x.clone(), r#type: 1 }) } p.resource_files = Some(rf) }
        5 => { p.library.admob.use_yn = s("Y"); p.library.admob.ad_units = names.iter().map(|x| AdUnit { id: x.clone(), name: format!("u{}", x) }).collect() }
        6 => { p.library.admob.use_yn = s("Y"); p.library.admob.test_devices = names }
        _ => { p.file.activities.push(item("main")); p.view.layouts.insert(s("main"), Layout(names.iter().enumerate().map(|(i, x)| { let mut v = view(x); if i % 4 == 3 { v.parent = Some(names[i - 1].clone()) } v }).collect())); p.logic.screens.insert(s("MainActivity"), logic_of("MainActivity", "q")); }
    }
    let want = p.clone();
    if let Some(a) = api(p) {
        let b = Parsed::from(a.clone());
        check(b.file == want.file, "the file list is kept"); check(b.library == want.library, "libraries are kept"); check(b.resource == want.resource && b.resource_files == want.resource_files, "resources are kept"); check(b.view.layouts.len() == want.view.layouts.len() && b.view.fabs == want.view.fabs, "layouts and buttons are kept");
        for (x, l) in want.view.layouts.iter() { match b.view.layouts.get(x) { Some(g) => { check(g.0.len() == l.0.len(), "every view is kept"); for v in &l.0 { match g.0.iter().find(|y| y.id == v.id) { Some(w) => check(w == v, "views are kept"), None => check(false, "every view is kept") } } } None => check(false, "a layout is kept under its name") } }
        for (x, l) in want.logic.screens.iter() { match b.logic.screens.get(x) { Some(g) => check(g.variables == l.variables && g.block_containers.get("onCreate_initializeLogic").map(|c| c.0.len()) == Some(1) && g.block_containers["onCreate_initializeLogic"].0[0].op_code == l.block_containers["onCreate_initializeLogic"].0[0].op_code, "logic is kept under its name"), None => check(false, "logic is kept under its name") } }
        check(b.view.layouts.keys().eq(want.view.layouts.keys()) && b.logic.screens.keys().eq(want.logic.screens.keys()), "layouts and logic stay in the order of the file list");
        if let Some(c) = api(b) { check(c == a, "the project comes back") }
    }
    reach("end");
}
/// All project settings free at once (numbers and colours of full width, names of free printable characters), both directions. [jobs 8]
#[no_mangle] pub extern "C" fn h_c16_settings_all() {
    let mut p = base(); let q = &mut p.project; q.id = u16_(); q.version_code = u16_(); q.date_created = u64_(); q.sketchware_version = u8_(); q.custom_icon = choose(2) == 1; if q.custom_icon { p.resource_files = None }
    let c = &mut q.color_palette; c.color_primary = Color::from(u32_()); c.color_primary_dark = Color::from(u32_()); c.color_accent = Color::from(u32_()); c.color_control_normal = Color::from(u32_()); c.color_control_highlight = Color::from(u32_());
    let t = if choose(2) == 0 { any_plain() } else { wide() }; match choose(4) { 0 => q.app_name = t, 1 => q.workspace_name = t, 2 => q.package_name = t, _ => q.version_name = t }
    let want = p.project.clone(); if let Some(a) = api(p) { let b = Parsed::from(a); check(b.project == want, "settings and colours are kept") } reach("end");
}
/// One screen, custom view and resource of each type whose name is any of 1 to 24 letters, digits and underscores (or a special text, for custom views and resources), next to fixed others; both directions. [jobs 8]
#[no_mangle] pub extern "C" fn h_c16_words() {
    let mut p = base(); let k = choose(6); let t = if k == 0 || choose(2) == 0 { if k == 0 { let n = NAME_LENS[choose(8) as usize]; lower(n) } else { any_name() } } else { wide() };
    assume(t != "main" && t != "zz"); let mut rf = ResourceFiles::default();
    p.file.activities.push(item("main")); p.view.layouts.insert(s("main"), Layout(vec![view("m")])); p.logic.screens.insert(s("MainActivity"), logic_of("MainActivity", "mm")); p.file.custom_views.push(cv_item("zz")); p.view.layouts.insert(s("zz"), Layout(vec![view("z")]));
    match k {
        0 => { p.file.activities.push(item(&t)); p.view.layouts.insert(t.clone(), Layout(vec![view("tt")])); let j = java(&t); p.logic.screens.insert(j.clone(), logic_of(&j, "lt")); p.view.fabs.insert(t.clone(), fab("ft")); }
        1 => { p.file.custom_views.insert(0, cv_item(&t)); p.view.layouts.insert(t.clone(), Layout(vec![view("tt")])); }
        2 | 3 | 4 => { let i = k as usize - 2; let ty = [ResourceType::Image, ResourceType::Sound, ResourceType::Font][i]; for n in [s("zz"), t.clone()] { let full = format!("{}.x", n); [&mut rf.images, &mut rf.sounds, &mut rf.fonts][i].insert(full.clone(), wrap(1, &full, ty)); [&mut p.resource.images, &mut p.resource.sounds, &mut p.resource.fonts][i].push(ResourceItem { full_name: full, name: n, r#type: 1 }) } p.resource_files = Some(rf) }
        _ => { let l = &mut p.library; match choose(4) { 0 => { l.firebase_db.use_yn = s("Y"); l.firebase_db.data = t.clone(); l.firebase_db.reserved1 = t.clone() } 1 => { l.firebase_db.use_yn = s("Y"); l.firebase_db.reserved2 = t.clone(); l.firebase_db.reserved3 = t.clone() } 2 => { l.google_map.use_yn = s("Y"); l.google_map.data = t.clone() } _ => { l.admob.use_yn = s("Y"); l.admob.ad_units = vec![AdUnit { id: t.clone(), name: t.clone() }]; l.admob.test_devices = vec![t.clone(), t.clone()] } } }
    }
    let want = p.clone();
    if let Some(a) = api(p) {
        if k == 0 { let sc = &a.screens[1]; check(sc.layout_name == t && sc.java_name == java(&t) && sc.layout.len() == 1 && sc.layout[0].id == "tt" && sc.variables.contains_key("lt") && sc.fab.as_ref().map(|x| x.id.as_str()) == Some("ft"), "a screen has the layout, logic and button of its name") }
        if k == 1 { check(a.custom_views[0].res_name == t && a.custom_views[0].layout.len() == 1 && a.custom_views[0].layout[0].id == "tt", "a custom view has the layout of its name") }
        let b = Parsed::from(a.clone()); check(b.file == want.file && b.library == want.library && b.resource == want.resource && b.resource_files == want.resource_files, "the lists are kept");
        for (x, l) in want.view.layouts.iter() { check(b.view.layouts.get(x) == Some(l), "a layout is kept under its name") } check(b.view.fabs == want.view.fabs, "buttons are kept");
        for (x, l) in want.logic.screens.iter() { check(b.logic.screens.get(x).map(|g| g.variables == l.variables && g.block_containers.contains_key("onCreate_initializeLogic")) == Some(true), "logic is kept under its name") }
        if let Some(c) = api(b) { check(c == a, "the project comes back") }
    }
    reach("end");
}
/// Several libraries, resources of equal names in different lists, equal files, and repeated ad units and devices survive both directions. [jobs 4]
#[no_mangle] pub extern "C" fn h_c16_repeats() {
    let mut p = base(); let n: Vec<String> = (0..3).map(|_| format!("n{}", choose(2))).collect(); p.library.admob.use_yn = s("Y"); p.library.admob.ad_units = n.iter().map(|x| AdUnit { id: x.clone(), name: s("u") }).collect(); p.library.admob.test_devices = n.clone();
    if choose(2) == 1 { p.file.activities.push(item("main")); let mut v = vec![view("a")]; for i in 0..3 { let mut w = view("x"); w.id = format!("w{}", i); if n[i] == "n1" { w.parent = Some(s("a")) } v.push(w) } p.view.layouts.insert(s("main"), Layout(v)); p.view.fabs.insert(s("main"), fab("_fab")); p.file.activities.push(item("next")); p.view.fabs.insert(s("next"), fab("_fab")); }
    let want = p.clone();
    if let Some(a) = api(p) { let b = Parsed::from(a.clone()); check(b.library == want.library, "libraries are kept"); check(b.file == want.file && b.view.fabs == want.view.fabs, "screens and buttons are kept"); if let Some(l) = want.view.layouts.get("main") { match b.view.layouts.get("main") { Some(m) => { check(m.0.len() == l.0.len() && l.0.iter().all(|x| m.0.contains(x)), "views are kept") } None => check(false, "a layout is kept under its name") } } if let Some(c) = api(b) { check(c == a, "the project comes back") } }
    reach("end");
}
/// Enabled libraries any of whose texts may be empty (every combination within a library), up to 3 ad units and test devices. [jobs 8]
#[no_mangle] pub extern "C" fn h_c16_empties() {
    let mut p = base(); let l = &mut p.library; let e = |x: &str| if choose(2) == 0 { s("") } else { s(x) };
    match choose(4) {
        0 => { l.firebase_db.use_yn = s("Y"); l.firebase_db.data = e("d"); l.firebase_db.reserved1 = e("a"); l.firebase_db.reserved2 = e("b"); l.firebase_db.reserved3 = e("c") }
        1 => { l.admob.use_yn = s("Y"); let n = choose(4); l.admob.test_devices = (0..n).map(|_| e("t")).collect() }
        2 => { l.admob.use_yn = s("Y"); let n = choose(3); l.admob.ad_units = (0..n).map(|_| AdUnit { id: e("i"), name: e("n") }).collect() }
        _ => { l.google_map.use_yn = s("Y"); l.google_map.data = e("g") }
    }
    let q = &mut p.project; q.custom_icon = false; match choose(5) { 0 => q.app_name = s(""), 1 => q.workspace_name = s(""), 2 => q.package_name = s(""), 3 => q.version_name = s(""), _ => {} }
    let want = p.clone(); if let Some(a) = api(p) { let b = Parsed::from(a.clone()); check(b.library == want.library, "libraries are kept"); check(b.project == want.project, "settings and colours are kept"); if let Some(c) = api(b) { check(c == a, "the project comes back") } } reach("end");
}
/// Two screens and two custom views with layouts, logic and buttons, in the order of the file list: the sections come back in that order with the same contents. [jobs 8]
#[no_mangle] pub extern "C" fn h_c16_order() {
    let mut p = base(); let o = choose(2) as usize; let f = choose(4);
    for i in 0..2 { let n = ["ab", "main"][(i + o) % 2]; p.file.activities.push(item(n)); p.view.layouts.insert(s(n), Layout(vec![view(["vx", "vy"][i])])); if f & (1 << i) != 0 { p.view.fabs.insert(s(n), fab("f")); } let j = java(n); p.logic.screens.insert(j.clone(), logic_of(&j, "q")); }
    let o = choose(2) as usize; for i in 0..2 { let n = ["zz", "cust"][(i + o) % 2]; p.file.custom_views.push(cv_item(n)); p.view.layouts.insert(s(n), Layout(vec![view(["cx", "cy"][i])])); }
    let want = p.clone();
    if let Some(a) = api(p) { let b = Parsed::from(a.clone()); check(b.view == want.view, "the view file is kept, in order"); check(b.file == want.file, "the file list is kept"); check(b.logic.screens.keys().eq(want.logic.screens.keys()), "layouts and logic stay in the order of the file list"); if let Some(c) = api(b) { check(c == a, "the project comes back") } }
    reach("end");
}
/// The floating button of a screen: with any id of 0 to 2 characters or a usual one, switched on or off in the screen's options, with or without a layout, code and a second screen's button: shown, and kept as it was. [jobs 8]
#[no_mangle] pub extern "C" fn h_c16_fab() {
    let mut p = base(); let n = lower(1); p.file.activities.push(item(&n)); let id = match choose(4) { 0 => s(""), 1 => lower(1), 2 => lower(2), _ => s("_fab") }; let mut f = fab(&id);
    p.file.activities[0].options.fab_enabled = choose(2) == 1; f.enabled = bool_(); f.clickable = bool_(); match choose(4) { 0 => f.image.res_name = None, 1 => f.image.res_name = Some(s("")), 2 => f.image.res_name = Some(s("NONE")), _ => {} }
    match choose(4) { 0 => {} 1 => { p.view.layouts.insert(n.clone(), Layout(vec![view("a")])); } 2 => { let j = java(&n); p.logic.screens.insert(j.clone(), logic_of(&j, "q")); } _ => { p.file.activities.push(item("other")); p.view.fabs.insert(s("other"), fab(&id)); } }
    p.view.fabs.insert(n.clone(), f.clone()); let want = p.clone();
    if let Some(a) = api(p) { check(a.screens[0].fab.as_ref().map(|v| v.id == id) == Some(true) && a.screens[0].fab_enabled == want.file.activities[0].options.fab_enabled, "the button is shown"); let b = Parsed::from(a.clone()); check(b.view.fabs.len() == want.view.fabs.len() && b.view.fabs.get(&n) == Some(&f), "the button is kept"); check(b.view.fabs.get("other") == want.view.fabs.get("other"), "the other screen's button is kept"); check(b.file == want.file, "the file list is kept"); if let Some(c) = api(b) { check(c == a, "the project comes back") } }
    reach("end");
}
/// Entries that share a name the editing API files them under: two listed images, sounds or fonts (any names of one letter) with one id, two components with one id, two screens whose names meet in one class name: refused, or both kept.
#[no_mangle] pub extern "C" fn h_c16_twins() {
    use swrs::parser::logic::component::{Component, ComponentPool}; let a = lower(1); let mut p = base(); p.resource_files = None;
    match choose(3) {
        0 => { let v = vec![ResourceItem { full_name: format!("{a}.x"), name: a.clone(), r#type: 1 }, ResourceItem { full_name: format!("{a}.y"), name: a.clone(), r#type: 1 }]; let k = choose(3); match k { 0 => p.resource.images = v.clone(), 1 => p.resource.sounds = v.clone(), _ => p.resource.fonts = v.clone() }
            if let Ok(x) = SketchwareProject::try_from(p) { let q = Parsed::from(x); let w = [q.resource.images, q.resource.sounds, q.resource.fonts]; check(w[k as usize] == v, "resources with one id are refused or both kept") } }
        1 => { let v = vec![Component::new_empty(a.clone(), 1), Component::new_empty(a.clone(), 5)]; let mut l = ScreenLogic::new_empty(s("MainActivity")); l.components = Some(ComponentPool(v.clone())); p.logic.screens.insert(l.name.clone(), l); p.file.activities.push(item("main"));
            if let Ok(x) = SketchwareProject::try_from(p) { let q = Parsed::from(x); check(q.logic.screens.get("MainActivity").and_then(|l| l.components.as_ref()).map(|c| c.0 == v) == Some(true), "components with one id are refused or both kept") } }
        _ => { let mut l = ScreenLogic::new_empty(format!("{}xActivity", a.to_ascii_uppercase())); l.block_containers.insert(s("onCreate_initializeLogic"), crate::screens::code("op")); let n = l.name.clone(); p.logic.screens.insert(n.clone(), l); p.file.activities.push(item(&format!("{a}x"))); p.file.activities.push(item(&format!("_{a}x")));
            if let Ok(x) = SketchwareProject::try_from(p) { let q = Parsed::from(x); check(q.logic.screens.get(&n).and_then(|l| l.block_containers.get("onCreate_initializeLogic")).map(|c| c.0.len()) == Some(1), "screens of one class name are refused or keep their code") } }
    }
    reach("end");
}
