//! C22: an edit through the editing API changes exactly what was edited.
use crate::logic::block;
use crate::screens::{code, item, pev};
use crate::viewfile::av;
use crate::vp::*;
use crate::whole::{api, base, cv_item, fab, java, trip, wrap};
use ritelinked::LinkedHashMap;
use swrs::api::block::{ArgValue, Argument, Block, BlockCategory, BlockContent, BlockType, Blocks};
use swrs::api::component::ComponentKind;
use swrs::api::library::*;
use swrs::api::screen::{Event, EventType, MoreBlock as AMoreBlock, Screen};
use swrs::api::view::{View as ApiView, ViewType};
use swrs::api::*;
use swrs::color::Color;
use swrs::parser::file::*;
use swrs::parser::library::AdUnit;
use swrs::parser::logic::component::{Component, ComponentPool};
use swrs::parser::logic::event::EventPool;
use swrs::parser::logic::list_variable::{ListVariable, ListVariablePool};
use swrs::parser::logic::more_block::{MoreBlock, MoreBlockPool};
use swrs::parser::logic::variable::{Variable, VariablePool, VariableType};
use swrs::parser::logic::*;
use swrs::parser::resource::ResourceItem;
use swrs::parser::view::models::layout;
use swrs::parser::view::models::AndroidView;
use swrs::parser::view::Layout;
use swrs::parser::{ResourceType, SketchwareProject as Parsed};

pub fn vw(id: &str, t: u8, parent: &str, pt: i8) -> AndroidView { let mut v = crate::viewfile::av_full(); v.id = s(id); v.r#type = t; v.parent = Some(s(parent)); v.parent_type = pt; v }
/// Code of four blocks, one of them with a nested stack, one with an argument block and plain arguments.
fn body(tag: &str) -> BlockContainer {
    let mut a = block("10", &format!("a{}", tag)); a.spec = s("set %s.n to %d"); a.parameters = vec![s("@11"), s("5")]; a.next_block = 12;
    let mut b = block("11", "arg"); b.spec = s("b"); b.parameters = vec![]; b.r#type = s("s");
    let mut c = block("12", "if"); c.spec = s("if %b"); c.parameters = vec![s("")]; c.r#type = s("c"); c.sub_stack1 = 13; c.next_block = 14;
    let mut d = block("13", &format!("d{}", tag)); d.spec = s("do %m.view %s"); d.parameters = vec![s("v"), s("w")];
    let mut e = block("14", "end"); e.spec = s("end"); e.parameters = vec![];
    BlockContainer(vec![a, b, c, d, e])
}
pub fn logic(name: &str, tag: &str) -> ScreenLogic {
    let mut l = ScreenLogic::new_empty(s(name)); let mut m = LinkedHashMap::new(); for (n, t) in [("v0", VariableType::Integer), ("v1", VariableType::String)] { m.insert(s(n), Variable { name: s(n), r#type: t }); } l.variables = Some(VariablePool(m));
    let mut m = LinkedHashMap::new(); for (n, t) in [("l0", VariableType::Integer), ("l1", VariableType::HashMap)] { m.insert(s(n), ListVariable { name: s(n), r#type: t }); } l.list_variables = Some(ListVariablePool(m));
    let c = |id: &str, t: u8, p: &str| Component { id: s(id), param1: s(p), param2: s(""), param3: s(""), r#type: t }; l.components = Some(ComponentPool(vec![c("c0", 5, ""), c("c1", 2, "file"), c("c2", 16, "*/*")]));
    l.events = Some(EventPool(vec![pev("onClick", 1, "b", 0), pev("onResponse", 2, "c1", 17), pev("onBackPressed", 3, "", 0)]));
    let mut m = LinkedHashMap::new(); for (n, t) in [("mb0", "mb0 %s.a"), ("mb1", "mb1")] { m.insert(s(n), MoreBlock { id: s(n), spec: s(t) }); } l.more_blocks = Some(MoreBlockPool(m));
    for n in ["onCreate_initializeLogic", "b_onClick", "c1_onResponse", "onBackPressed_onBackPressed", "mb0_moreBlock", "mb1_moreBlock"] { l.block_containers.insert(s(n), if n == "b_onClick" || n == "mb0_moreBlock" { body(tag) } else { code(&format!("{}{}", n, tag)) }); }
    l
}
/// A project with something everywhere: two screens, a custom view, all libraries, two resources of each type, an icon.
pub fn rich() -> Parsed {
    let mut p = base(); p.project.custom_icon = true;
    for (i, n) in ["main", "next"].iter().enumerate() { let mut f = item(n); if i == 1 { f.options = ActivityOptions { toolbar_enabled: true, fullscreen_enabled: true, drawer_enabled: true, fab_enabled: true }; f.orientation = Orientation::Landscape; f.theme = Theme::Fullscreen; f.keyboard_setting = KeyboardSetting::Hidden } else { f.options = ActivityOptions { toolbar_enabled: false, fullscreen_enabled: false, drawer_enabled: false, fab_enabled: false } } p.file.activities.push(f); let j = java(n); p.logic.screens.insert(j.clone(), logic(&j, ["m", "n"][i])); }
    p.view.layouts.insert(s("main"), Layout(vec![vw("a", 0, "root", 0), vw("e", 3, "root", 0), vw("b", 4, "a", 0), vw("c", 0, "a", 0), vw("d", 5, "c", 0)]));
    p.view.layouts.insert(s("next"), Layout(vec![vw("a", 0, "root", 0), vw("b", 4, "a", 0)]));
    p.file.custom_views.push(cv_item("cust")); p.view.layouts.insert(s("cust"), Layout(vec![vw("a", 0, "root", 0), vw("b", 4, "a", 0)]));
    p.view.fabs.insert(s("main"), fab("_fab"));
    let l = &mut p.library; for x in [&mut l.firebase_db, &mut l.compat, &mut l.admob, &mut l.google_map] { x.use_yn = s("Y") } l.firebase_db.data = s("pid"); l.firebase_db.reserved1 = s("aid"); l.firebase_db.reserved2 = s("key"); l.firebase_db.reserved3 = s("buc"); l.admob.ad_units = vec![AdUnit { id: s("i"), name: s("n") }]; l.admob.test_devices = vec![s("t")]; l.google_map.data = s("gk");
    let mut rf = swrs::parser::ResourceFiles::default(); for (k, t) in T.iter().enumerate() { for n in ["r0", "r1"] { let full = format!("{}.{}", n, k); [&mut rf.images, &mut rf.sounds, &mut rf.fonts][k].insert(full.clone(), wrap(k as u64 % 2, &full, *t)); [&mut p.resource.images, &mut p.resource.sounds, &mut p.resource.fonts][k].push(ResourceItem { full_name: full, name: format!("{}{}", n, k), r#type: 1 }) } }
    rf.custom_icon = Some(wrap(1, "icon.png", ResourceType::CustomIcon)); p.resource_files = Some(rf);
    p
}
const T: [ResourceType; 3] = [ResourceType::Image, ResourceType::Sound, ResourceType::Font];
fn same(b: &Parsed, w: &Parsed) {
    check(b.project == w.project, "the project record changes by the edit only"); check(b.file == w.file, "the file list changes by the edit only"); check(b.library == w.library, "the libraries change by the edit only"); check(b.resource == w.resource && b.resource_files == w.resource_files, "the resources change by the edit only");
    check(b.view.layouts.len() == w.view.layouts.len() && b.view.fabs == w.view.fabs, "layouts and buttons change by the edit only"); for (n, l) in w.view.layouts.iter() { check(b.view.layouts.get(n) == Some(l), "layouts change by the edit only") }
    check(b.logic.screens.len() == w.logic.screens.len(), "the logic changes by the edit only");
    for (n, l) in w.logic.screens.iter() { match b.logic.screens.get(n) { None => check(false, "the logic changes by the edit only"), Some(g) => { check(g.name == l.name && g.variables == l.variables && g.list_variables == l.list_variables, "variables change by the edit only"); check(g.components == l.components && g.events == l.events && g.more_blocks == l.more_blocks, "components, events and more-blocks change by the edit only"); check(g.block_containers.len() == l.block_containers.len(), "code changes by the edit only"); for (k, c) in l.block_containers.iter() { check(g.block_containers.get(k) == Some(c), "code changes by the edit only") } } } }
}
fn case(edit: impl FnOnce(&mut SketchwareProject), want: impl FnOnce(&mut Parsed)) { case_on(rich(), edit, want) }
fn case_on(p: Parsed, edit: impl FnOnce(&mut SketchwareProject), want: impl FnOnce(&mut Parsed)) {
    let wo = p.resource_files.is_none(); let a = match api(p) { Some(a) => a, None => return };
    let mut w = Parsed::from(a.clone()); let mut e = a; edit(&mut e); want(&mut w);
    let b = Parsed::from(e.clone()); same(&b, &w);
    if let Some(mut c) = api(b) { if wo { check(c.resources.get_images().keys().eq(e.resources.get_images().keys()) && c.resources.get_sounds().keys().eq(e.resources.get_sounds().keys()) && c.resources.get_fonts().keys().eq(e.resources.get_fonts().keys()) && c.custom_icon.is_some() == e.custom_icon.is_some(), "reading again gives the edited project"); c.resources = e.resources.clone(); c.custom_icon = e.custom_icon.clone() } renew(&mut e, &c); check(c == e, "reading again gives the edited project") }
    reach("end");
}
/// A view keeps the record it was read from for reference; after an edit that record is the new one.
pub fn renew(e: &mut SketchwareProject, c: &SketchwareProject) {
    fn view(a: &mut ApiView, b: &ApiView) { a.raw = b.raw.clone(); for (x, y) in a.children.iter_mut().zip(b.children.iter()) { view(x, y) } }
    for (x, y) in e.screens.iter_mut().zip(c.screens.iter()) { for (v, u) in x.layout.iter_mut().zip(y.layout.iter()) { view(v, u) } if let (Some(v), Some(u)) = (&mut x.fab, &y.fab) { view(v, u) } }
    for (x, y) in e.custom_views.iter_mut().zip(c.custom_views.iter()) { for (v, u) in x.layout.iter_mut().zip(y.layout.iter()) { view(v, u) } }
}
/// The same through the six data files: files that the edit does not concern are the same texts, and the project read from the files is the edited one.
fn case_files(files: &[usize], edit: impl FnOnce(&mut SketchwareProject)) {
    let a = match api(rich()) { Some(a) => a, None => return }; let mut e = a.clone(); edit(&mut e);
    let r = |x: SketchwareProject| -> Option<[String; 6]> { let r: Result<swrs::parser::RawSketchwareProject, _> = x.try_into(); match r { Ok(r) => Some([r.project, r.file, r.library, r.resource, r.view, r.logic]), Err(_) => { check(false, "the project is written"); None } } };
    if let (Some(x), Some(y)) = (r(a), r(e.clone())) { for k in 0..6 { if files.contains(&k) { check(x[k] != y[k], "an edit is written") } else { check(x[k] == y[k], "a data file that is not concerned stays the same") } } }
    if let Some(c) = api(Parsed::from(e.clone())) { renew(&mut e, &c) }
    trip(e); reach("end");
}
fn meta(e: &mut Metadata, k: u64, n: u64, t: &str) { match k { 0 => e.local_id = n as u16, 1 => e.name = s(t), 2 => e.workspace_name = s(t), 3 => e.package_name = s(t), 4 => e.time_created = n, 5 => e.sketchware_version = n as u8, 6 => e.version_name = s(t), _ => e.version_code = n as u16 } }
fn color(c: &mut Colors, k: u64) -> &mut Color { match k { 0 => &mut c.color_primary, 1 => &mut c.color_primary_dark, 2 => &mut c.color_accent, 3 => &mut c.color_control_normal, _ => &mut c.color_control_highlight } }
/// Any one setting (to any value) or any one colour (to any colour), or the icon exchanged or taken away.
#[no_mangle] pub extern "C" fn h_c22_settings() {
    match choose(3) {
        0 => { let k = choose(8); let (n, t) = (u64_(), text_upto(3)); let t2 = t.clone(); case(|e| meta(&mut e.metadata, k, n, &t), |w| { let q = &mut w.project; match k { 0 => q.id = n as u16, 1 => q.app_name = t2, 2 => q.workspace_name = t2, 3 => q.package_name = t2, 4 => q.date_created = n, 5 => q.sketchware_version = n as u8, 6 => q.version_name = t2, _ => q.version_code = n as u16 } }) }
        1 => { let k = choose(5); let c = Color::from(u32_()); case(|e| *color(&mut e.colors, k) = c, |w| { let q = &mut w.project.color_palette; match k { 0 => q.color_primary = c, 1 => q.color_primary_dark = c, 2 => q.color_accent = c, 3 => q.color_control_normal = c, _ => q.color_control_highlight = c } }) }
        _ => { let i = if choose(2) == 0 { None } else { Some(wrap(0, "other.png", ResourceType::CustomIcon)) }; let j = i.clone(); case(|e| e.custom_icon = i, |w| { w.project.custom_icon = j.is_some(); if let Some(r) = &mut w.resource_files { r.custom_icon = j } }) }
    }
}
/// A project without resource files, with or without an icon and with or without resources: the icon taken away or given, a resource added or removed, a setting, a library, a variable, a view or a screen's name changed, a screen or custom view removed.
#[no_mangle] pub extern "C" fn h_c22_without() {
    let mut p = rich(); p.resource_files = None; p.project.custom_icon = choose(2) == 1; if choose(2) == 1 { p.resource = swrs::parser::resource::Resource { images: vec![], sounds: vec![], fonts: vec![] } } let bare = p.resource.images.is_empty(); let ty = choose(3) as usize; let n = format!("q{}", lower(1)); let n2 = n.clone();
    match choose(10) {
        0 => case_on(p, |e| e.custom_icon = None, |w| w.project.custom_icon = false),
        1 => case_on(p, |e| e.custom_icon = Some(wrap(1, "other.png", ResourceType::CustomIcon)), |w| w.project.custom_icon = true),
        2 => case_on(p, |e| check(e.resources.put_resource(ResourceId(n.clone()), wrap(1, "new.x", T[ty]), T[ty]).is_ok(), "a free id is accepted"), |w| [&mut w.resource.images, &mut w.resource.sounds, &mut w.resource.fonts][ty].push(ResourceItem { full_name: s("new.x"), name: n2, r#type: 1 })),
        3 => { assume(!bare); case_on(p, |e| { e.resources.remove_resource(&ResourceId(format!("r0{}", ty))); }, |w| { [&mut w.resource.images, &mut w.resource.sounds, &mut w.resource.fonts][ty].remove(0); }) }
        4 => case_on(p, |e| e.metadata.name = n, |w| w.project.app_name = n2), 5 => case_on(p, |e| e.libraries.google_map = None, |w| { w.library.google_map.use_yn = s("N"); w.library.google_map.data = s("") }),
        6 => case_on(p, |e| { e.screens[1].variables.clear(); }, |w| w.logic.screens["NextActivity"].variables.as_mut().unwrap().0.clear()), 7 => case_on(p, |e| e.screens[1].layout[0].id = n, |w| { w.view.layouts["next"].0[0].id = n2.clone(); w.view.layouts["next"].0[1].parent = Some(n2) }),
        8 => case_on(p, |e| { e.screens.remove(1); }, |w| { w.file.activities.remove(1); w.view.layouts.remove("next"); w.view.fabs.remove("next"); w.logic.screens.remove("NextActivity"); }),
        _ => case_on(p, |e| { e.custom_views.clear(); }, |w| { w.file.custom_views.clear(); w.view.layouts.remove("cust"); }),
    }
}
/// Any one library switched off, or any one of its texts and lists changed.
#[no_mangle] pub extern "C" fn h_c22_libraries() {
    let t = text_upto(2); let t2 = t.clone(); let k = choose(11);
    let off = |x: &mut swrs::parser::library::LibraryItem| { x.use_yn = s("N"); x.data = s(""); x.reserved1 = s(""); x.reserved2 = s(""); x.reserved3 = s(""); x.ad_units = vec![]; x.test_devices = vec![] };
    case(|e| { let l = &mut e.libraries; match k { 0 => l.firebase = None, 1 => l.app_compat_enabled = false, 2 => l.ad_mob = None, 3 => l.google_map = None, 4 => l.firebase.as_mut().unwrap().project_id = t, 5 => l.firebase.as_mut().unwrap().app_id = t, 6 => l.firebase.as_mut().unwrap().api_key = t, 7 => l.firebase.as_mut().unwrap().storage_bucket = t, 8 => l.ad_mob.as_mut().unwrap().ad_units.insert(0, AdUnit { id: t, name: s("z") }), 9 => l.ad_mob.as_mut().unwrap().test_devices.push(t), _ => l.google_map = Some(GoogleMap { api_key: t }) } },
        |w| { let l = &mut w.library; match k { 0 => off(&mut l.firebase_db), 1 => off(&mut l.compat), 2 => off(&mut l.admob), 3 => off(&mut l.google_map), 4 => l.firebase_db.data = t2, 5 => l.firebase_db.reserved1 = t2, 6 => l.firebase_db.reserved2 = t2, 7 => l.firebase_db.reserved3 = t2, 8 => l.admob.ad_units.insert(0, AdUnit { id: t2, name: s("z") }), 9 => l.admob.test_devices.push(t2), _ => l.google_map.data = t2 } });
}
/// A resource of any type added (any one-letter id) or removed.
#[no_mangle] pub extern "C" fn h_c22_resources() {
    let k = choose(3) as usize; let id = lower(1); let f = wrap(choose(2), "new.x", T[k]); let (i2, f2) = (id.clone(), f.clone());
    if choose(2) == 0 { case(|e| check(e.resources.put_resource(ResourceId(id), f, T[k]).is_ok(), "a free id is accepted"), |w| { [&mut w.resource.images, &mut w.resource.sounds, &mut w.resource.fonts][k].push(ResourceItem { full_name: s("new.x"), name: i2, r#type: 1 }); if let Some(r) = &mut w.resource_files { [&mut r.images, &mut r.sounds, &mut r.fonts][k].insert(s("new.x"), f2); } }) }
    else { let at = choose(2) as usize; let n = format!("r{}{}", at, k); case(|e| check(e.resources.remove_resource(&ResourceId(n)).is_some(), "a stored id is removed"), |w| { let i = [&mut w.resource.images, &mut w.resource.sounds, &mut w.resource.fonts][k].remove(at); if let Some(r) = &mut w.resource_files { [&mut r.images, &mut r.sounds, &mut r.fonts][k].remove(&i.full_name); } }) }
}
/// Any one setting of either screen.
#[no_mangle] pub extern "C" fn h_c22_flags() {
    let i = choose(2) as usize; let k = choose(7); let b = choose(3);
    let (o, t, y) = ([Orientation::Portrait, Orientation::Landscape, Orientation::Both][b as usize], [Theme::Default, Theme::Actionbar, Theme::Fullscreen][b as usize], [KeyboardSetting::Unspecified, KeyboardSetting::Visible, KeyboardSetting::Hidden][b as usize]);
    case(|e| { let x = &mut e.screens[i]; match k { 0 => x.fullscreen_enabled = b == 1, 1 => x.toolbar_enabled = b == 1, 2 => x.drawer_enabled = b == 1, 3 => x.fab_enabled = b == 1, 4 => x.orientation = o, 5 => x.theme = t, _ => x.keyboard_setting = y } },
        |w| { let x = &mut w.file.activities[i]; match k { 0 => x.options.fullscreen_enabled = b == 1, 1 => x.options.toolbar_enabled = b == 1, 2 => x.options.drawer_enabled = b == 1, 3 => x.options.fab_enabled = b == 1, 4 => x.orientation = o, 5 => x.theme = t, _ => x.keyboard_setting = y } });
}
fn find<'a>(l: &'a mut Vec<ApiView>, id: &str) -> &'a mut ApiView { l.iter_mut().find_map(|v| v.find_id_mut(id)).expect("harness: view") }
fn api_layout(e: &mut SketchwareProject, at: usize) -> &mut Vec<ApiView> { if at == 2 { &mut e.custom_views[0].layout } else { &mut e.screens[at].layout } }
const L: [&str; 3] = ["main", "next", "cust"];
/// Any one field of any one view, found by its id, of the two screens, the custom view (all of which have views a and b), or the button: common fields, the text of a text view, raw fields.
#[no_mangle] pub extern "C" fn h_c22_view() {
    let at = choose(4) as usize; let id = if at == 3 { "_fab" } else if at == 0 { ["a", "b", "c", "d", "e"][choose(5) as usize] } else { ["a", "b"][choose(2) as usize] };
    let k = choose(17); let (n, t) = (u32_(), text_upto(2)); let t2 = t.clone(); if k == 9 && id != "b" { assume(false) }
    let z = [layout::Size::MatchParent, layout::Size::WrapContent, layout::Size::Fixed(77)][choose(if k < 2 { 3 } else { 1 }) as usize];
    case(|e| { let v = if at == 3 { e.screens[0].fab.as_mut().unwrap() } else { find(api_layout(e, at), id) };
            match k { 0 => v.width = z, 1 => v.height = z, 2 => v.padding.left = n, 3 => v.padding.bottom = n, 4 => v.margin.top = n, 5 => v.margin.right = n, 6 => v.weight = n, 7 => v.weight_sum = n, 8 => v.background_color = Color::from(n), 9 => match &mut v.view { Ok(ViewType::TextView { text, .. }) => *text = t, _ => check(false, "harness: a text view") }, 10 => v.raw.enabled = n & 1 == 0, 11 => v.raw.pre_index = n as i32, 12 => v.padding.top = n, 13 => v.padding.right = n, 14 => v.margin.left = n, 15 => v.margin.bottom = n, _ => v.layout_gravity = layout::gravity::Gravity(n as u8) } },
        |w| { let v = if at == 3 { &mut w.view.fabs["main"] } else { w.view.layouts[L[at]].0.iter_mut().find(|v| v.id == id).expect("harness: view") };
            match k { 0 => v.layout.width = z, 1 => v.layout.height = z, 2 => v.layout.padding_left = n, 3 => v.layout.padding_bottom = n, 4 => v.layout.margin_top = n, 5 => v.layout.margin_right = n, 6 => v.layout.weight = n, 7 => v.layout.weight_sum = n, 8 => v.layout.background_color = Color::from(n), 9 => v.text.text = t2, 10 => v.enabled = n & 1 == 0, 11 => v.pre_index = n as i32, 12 => v.layout.padding_top = n, 13 => v.layout.padding_right = n, 14 => v.layout.margin_left = n, 15 => v.layout.margin_bottom = n, _ => v.layout.layout_gravity = layout::gravity::Gravity(n as u8) } });
}
/// A view added under any view of any layout or at its top, at any place among its siblings; or any leaf taken away; or the button taken away or exchanged: all other records stay as and where they are, the new one follows its elder and precedes its younger siblings.
#[no_mangle] pub extern "C" fn h_c22_tree() {
    let a = match api(rich()) { Some(a) => a, None => return }; let w = Parsed::from(a.clone()); let mut e = a; let at = choose(3) as usize; let id = format!("q{}", lower(1));
    let parents: &[&str] = if at == 0 { &["", "a", "b", "c", "d", "e"] } else { &["", "a", "b"] };
    match choose(3) {
        0 => { let p = parents[choose(parents.len() as u64) as usize]; let mut v = ApiView::from(vw("z", 4, "nobody", 9)); v.id = id.clone();
            let (elder, younger) = { let l = if p == "" { api_layout(&mut e, at) } else { &mut find(api_layout(&mut e, at), p).children }; let i = choose(l.len() as u64 + 1) as usize; l.insert(i, v); (l[..i].iter().map(|x| x.id.clone()).collect::<Vec<_>>(), l[i + 1..].iter().map(|x| x.id.clone()).collect::<Vec<_>>()) };
            let mut b = Parsed::from(e.clone()); let l = &mut b.view.layouts[L[at]].0;
            match l.iter().position(|x| x.id == id) { None => { check(false, "the new view is written"); return } Some(i) => { let pos = |n: &String| l.iter().position(|x| x.id == *n).unwrap_or(999); check(elder.iter().all(|n| pos(n) < i) && younger.iter().all(|n| pos(n) > i), "the new view has its place among its siblings"); let n = l.remove(i); check(n.parent.as_deref() == Some(if p == "" { "root" } else { p }), "the new view is linked to its parent"); let mut x = vw("z", 4, "root", 0); x.id = id; x.parent = n.parent.clone(); x.parent_type = n.parent_type; check(n == x, "the new view is written as it is") } }
            same(&b, &w); if let Some(c) = api(Parsed::from(e.clone())) { check(c.screens.len() == 2 && c.custom_views.len() == 1, "reading again gives the edited project") } }
        1 => { let id = if at == 0 { ["b", "d", "e"][choose(3) as usize] } else { "b" }; let p = match id { "b" => "a", "d" => "c", _ => "" }; let l = if p == "" { api_layout(&mut e, at) } else { &mut find(api_layout(&mut e, at), p).children }; l.retain(|x| x.id != id);
            let b = Parsed::from(e.clone()); let mut w = w; w.view.layouts[L[at]].0.retain(|x| x.id != id); same(&b, &w); if let Some(c) = api(b) { check(c == e, "reading again gives the edited project") } }
        _ => { let i = choose(2) as usize; let f = if choose(2) == 0 { None } else { let mut f = fab("_fab"); f.image.res_name = Some(id.clone()); Some(f) }; e.screens[i].fab = f.clone().map(ApiView::from); let b = Parsed::from(e); let mut w = w; match f { None => { w.view.fabs.remove(L[i]); } Some(f) => { w.view.fabs.insert(s(L[i]), f); } } same(&b, &w) }
    }
    reach("end");
}
/// Either screen: a variable, list variable or component added (any two letters), taken away, or given another type or parameter.
#[no_mangle] pub extern "C" fn h_c22_data() {
    let i = choose(2) as usize; let j = ["MainActivity", "NextActivity"][i]; let n = format!("q{}", lower(2)); let n2 = n.clone(); let ty = [VariableType::Boolean, VariableType::Integer, VariableType::String, VariableType::HashMap][choose(4) as usize]; let op = choose(3);
    match choose(3) {
        0 => case(|e| { let m = &mut e.screens[i].variables; match op { 0 => { m.insert(n.clone(), Variable { name: n, r#type: ty }); } 1 => { m.remove("v0"); } _ => m["v1"].r#type = ty } }, |w| { let m = &mut w.logic.screens[j].variables.as_mut().unwrap().0; match op { 0 => { m.insert(n2.clone(), Variable { name: n2, r#type: ty }); } 1 => { m.remove("v0"); } _ => m["v1"].r#type = ty } }),
        1 => case(|e| { let m = &mut e.screens[i].list_variables; match op { 0 => { m.insert(n.clone(), ListVariable { name: n, r#type: ty }); } 1 => { m.remove("l1"); } _ => m["l0"].r#type = ty } }, |w| { let m = &mut w.logic.screens[j].list_variables.as_mut().unwrap().0; match op { 0 => { m.insert(n2.clone(), ListVariable { name: n2, r#type: ty }); } 1 => { m.remove("l1"); } _ => m["l0"].r#type = ty } }),
        _ => { let t = text_upto(2); let t2 = t.clone(); let kind = choose(3); let comp = |id: String, t: u8, p: String| Component { id, param1: p, param2: s(""), param3: s(""), r#type: t };
            case(|e| { let m = &mut e.screens[i].components; match op { 0 => { m.insert(n, match kind { 0 => ComponentKind::Calendar, 1 => ComponentKind::FirebaseDatabase { path: t }, _ => ComponentKind::FilePicker { mime_type: t } }); } 1 => { m.remove(["c0", "c1", "c2"][kind as usize]); } _ => m["c1"] = ComponentKind::SharedPreferences { path: t } } },
                |w| { let m = &mut w.logic.screens[j].components.as_mut().unwrap().0; match op { 0 => m.push(match kind { 0 => comp(n2, 3, s("")), 1 => comp(n2, 6, t2), _ => comp(n2, 16, t2) }), 1 => { m.remove(kind as usize); } _ => m[1].param1 = t2 } }) }
    }
}
fn blocks(op: &str) -> Blocks { Blocks(vec![Block::new(BlockCategory::Control, s(op), BlockContent::builder().text("do").text("it").build(), BlockType::Regular)]) }
fn pblock(op: &str) -> BlockContainer { blocks(op).into() }
/// Either screen: an event of each kind added at any place, with its code; one taken away with its code; one given another name or target (its code moves along); a more-block added, taken away or given another spec.
#[no_mangle] pub extern "C" fn h_c22_events() {
    let i = choose(2) as usize; let j = ["MainActivity", "NextActivity"][i]; let n = format!("q{}", lower(2)); let n2 = n.clone();
    match choose(6) {
        0 => { let k = choose(3); let at = choose(4) as usize; let m = lower(1); let (m2, n, n2) = if choose(2) == 0 { (m.clone(), n, n2) } else { let x = lower(1); (m.clone(), x.clone(), x) }; case(|e| { let l = &mut e.screens[i].events; let at = 1 + at; let t = match k { 0 => EventType::ViewEvent { id: m }, 1 => EventType::ComponentEvent { id: m, component_type: 5 }, _ => EventType::ActivityEvent }; check(l.len() == 4 && l[0].name == "onCreate", "events are shown, the creation code first"); l.insert(at, Event { name: n, event_type: t, code: blocks("fresh") }) },
            |w| { let l = &mut w.logic.screens[j]; l.events.as_mut().unwrap().0.insert(at, match k { 0 => pev(&n2, 1, &m2, 0), 1 => pev(&n2, 2, &m2, 5), _ => pev(&n2, 3, &n2, 0) }); l.block_containers.insert(if k == 2 { format!("{}_{}", n2, n2) } else { format!("{}_{}", m2, n2) }, pblock("fresh")); }) }
        1 => { let at = choose(4) as usize; case(|e| { e.screens[i].events.remove(at); }, |w| { let l = &mut w.logic.screens[j]; if at > 0 { l.events.as_mut().unwrap().0.remove(at - 1); } l.block_containers.remove(["onCreate_initializeLogic", "b_onClick", "c1_onResponse", "onBackPressed_onBackPressed"][at]); }) }
        2 => { let at = 1 + choose(3) as usize; case(|e| e.screens[i].events[at].name = n, |w| { let l = &mut w.logic.screens[j]; l.events.as_mut().unwrap().0[at - 1].event_name = n2.clone(); if at == 3 { l.events.as_mut().unwrap().0[2].target_id = n2.clone() } let c = l.block_containers.remove(["b_onClick", "c1_onResponse", "onBackPressed_onBackPressed"][at - 1]).unwrap(); l.block_containers.insert(if at == 3 { format!("{}_{}", n2, n2) } else { format!("{}_{}", ["b", "c1"][at - 1], n2) }, c); }) }
        3 => case(|e| e.screens[i].events[1].event_type = EventType::ComponentEvent { id: n, component_type: 8 }, |w| { let l = &mut w.logic.screens[j]; l.events.as_mut().unwrap().0[0] = pev("onClick", 2, &n2, 8); let c = l.block_containers.remove("b_onClick").unwrap(); l.block_containers.insert(format!("{}_onClick", n2), c); }),
        4 => case(|e| { e.screens[i].more_blocks.insert(n.clone(), AMoreBlock { name: n, spec: BlockContent::builder().text("x").arg(Argument::Number { name: Some(s("k")), value: ArgValue::Empty }).build(), code: blocks("fresh") }); }, |w| { let l = &mut w.logic.screens[j]; l.more_blocks.as_mut().unwrap().0.insert(n2.clone(), MoreBlock { id: n2.clone(), spec: s("x %d.k") }); l.block_containers.insert(format!("{}_moreBlock", n2), pblock("fresh")); }),
        _ => { let k = choose(2) as usize; let m = ["mb0", "mb1"][k]; if choose(2) == 0 { case(|e| { e.screens[i].more_blocks.remove(m); }, |w| { let l = &mut w.logic.screens[j]; l.more_blocks.as_mut().unwrap().0.remove(m); l.block_containers.remove(&format!("{}_moreBlock", m)); }) } else { case(|e| e.screens[i].more_blocks[m].spec = BlockContent::builder().text(&n).build(), |w| w.logic.screens[j].more_blocks.as_mut().unwrap().0[m].spec = n2) } }
    }
}
fn api_code(x: &mut Screen, k: u64) -> &mut Blocks { match k { 0 => &mut x.events[1].code, 1 => &mut x.more_blocks["mb0"].code, _ => &mut x.events[0].code } }
const C: [&str; 3] = ["b_onClick", "mb0_moreBlock", "onCreate_initializeLogic"];
/// A plain argument of a block, at the top or nested, taken with get_args_mut, set to any text of up to 3 bytes, any menu text, or any digit: that parameter only.
#[no_mangle] pub extern "C" fn h_c22_args() {
    let i = choose(2) as usize; let j = ["MainActivity", "NextActivity"][i]; let k = choose(2); let which = choose(3); let t = text_upto(3); for b in t.bytes().take(1) { assume(b != b'@') } let t2 = t.clone(); let d = choose(10);
    case(|e| { let b = api_code(&mut e.screens[i], k); let args = match which { 0 => b.0[0].content.get_args_mut(), _ => b.0[1].sub_stack1.as_mut().unwrap().0[0].content.get_args_mut() };
            check(args.len() == 2, "a block's arguments are listed"); for (n, a) in args.into_iter().enumerate() { match (which, n, a) { (0, 1, Argument::Number { value, .. }) => *value = ArgValue::Value(d as f64), (1, 0, Argument::Menu { value, .. }) => *value = ArgValue::Value(t.clone()), (2, 1, Argument::String { value, .. }) => *value = ArgValue::Value(t.clone()), (0, 0, _) | (1, 1, _) | (2, 0, _) => {} _ => check(false, "a block's arguments are listed in order") } } },
        |w| { let c = &mut w.logic.screens[j].block_containers[C[k as usize]].0; let op = if which == 0 { "a" } else { "d" }; let b = c.iter_mut().find(|b| b.op_code.starts_with(op) && b.op_code != "arg").expect("harness: block"); match which { 0 => b.parameters[1] = d.to_string(), 1 => b.parameters[0] = t2, _ => b.parameters[1] = t2 } });
}
/// A block put in or taken out at any place of a stack, at the top or nested, an argument block exchanged for a text or the other way round, a nested stack added: that code only, and it reads as edited.
#[no_mangle] pub extern "C" fn h_c22_code() {
    let a = match api(rich()) { Some(a) => a, None => return }; let mut w = Parsed::from(a.clone()); let mut e = a; let i = choose(2) as usize; let j = ["MainActivity", "NextActivity"][i]; let k = choose(3); let op = format!("q{}", lower(1));
    let fresh = blocks(&op).0.remove(0);
    let want = { let b = api_code(&mut e.screens[i], k); if k == 2 { let at = choose(2) as usize; b.0.insert(at, fresh) } else { match choose(6) {
        0 => { let at = choose(4) as usize; b.0.insert(at, fresh) } 1 => { let at = choose(3) as usize; b.0.remove(at); } 2 => { let at = choose(2) as usize; b.0[1].sub_stack1.as_mut().unwrap().0.insert(at, fresh) } 3 => b.0[0].sub_stack2 = Some(Blocks(vec![fresh.clone(), fresh])),
        4 => for x in b.0[0].content.get_args_mut() { match x { Argument::String { value, .. } => *value = ArgValue::Value(op.clone()), _ => {} } }, _ => { let mut f = fresh; f.block_type = BlockType::Argument(swrs::api::block::ArgumentBlockReturnType::Number); for x in b.0[0].content.get_args_mut() { match x { Argument::Number { value, .. } => *value = ArgValue::Block(f.clone()), _ => {} } } } } } b.clone() };
    let b = Parsed::from(e.clone());
    match b.logic.screens[j].block_containers.get(C[k as usize]) { None => check(false, "edited code is written"), Some(c) => { match Blocks::try_from(c.clone()) { Ok(x) => check(x == want, "edited code reads as edited"), Err(_) => check(false, "edited code can be read") } w.logic.screens[j].block_containers[C[k as usize]] = c.clone() } }
    same(&b, &w); if let Some(c) = api(b) { check(c == e, "reading again gives the edited project") }
    reach("end");
}
/// A screen added (any two-letter name, at any place), taken away, moved or renamed; the layouts of two screens exchanged; a custom view added, taken away or renamed: their own sections only, in the order of the lists.
#[no_mangle] pub extern "C" fn h_c22_screens() {
    let n = format!("q{}", lower(1)); let n2 = n.clone();
    match choose(8) {
        6 => { let i = choose(2) as usize; case(|e| { e.screens[i].layout_name = n.clone(); e.screens[i].java_name = java(&n) }, |w| { w.file.activities[i].filename = n2.clone(); let l = w.view.layouts.remove(L[i]).unwrap(); w.view.layouts.insert(n2.clone(), l); if let Some(f) = w.view.fabs.remove(L[i]) { w.view.fabs.insert(n2.clone(), f); } let mut l = w.logic.screens.remove(["MainActivity", "NextActivity"][i]).unwrap(); l.name = java(&n2); w.logic.screens.insert(java(&n2), l); }) }
        7 => case(|e| { let (a, b) = e.screens.split_at_mut(1); core::mem::swap(&mut a[0].layout, &mut b[0].layout) }, |w| { let (a, b) = (w.view.layouts["main"].clone(), w.view.layouts["next"].clone()); w.view.layouts["main"] = b; w.view.layouts["next"] = a }),
        0 => { let at = choose(3) as usize; case(|e| { let mut x = e.screens[1].clone(); x.layout_name = n.clone(); x.java_name = java(&n); e.screens.insert(at, x) }, |w| { let mut f = w.file.activities[1].clone(); f.filename = n2.clone(); w.file.activities.insert(at, f); let l = w.view.layouts["next"].clone(); w.view.layouts.insert(n2.clone(), l); let mut l = w.logic.screens["NextActivity"].clone(); l.name = java(&n2); w.logic.screens.insert(java(&n2), l); }) }
        1 => { let i = choose(2) as usize; case(|e| { e.screens.remove(i); }, |w| { w.file.activities.remove(i); w.view.layouts.remove(L[i]); w.view.fabs.remove(L[i]); w.logic.screens.remove(["MainActivity", "NextActivity"][i]); }) }
        2 => case(|e| e.screens.swap(0, 1), |w| w.file.activities.swap(0, 1)),
        3 => { let at = choose(2) as usize; case(|e| { let c = CustomView { res_name: n, layout: e.screens[1].layout.clone() }; e.custom_views.insert(at, c) }, |w| { w.file.custom_views.insert(at, cv_item(&n2)); let l = w.view.layouts["next"].clone(); w.view.layouts.insert(n2, l); }) }
        4 => case(|e| { e.custom_views.remove(0); }, |w| { w.file.custom_views.remove(0); w.view.layouts.remove("cust"); }),
        _ => case(|e| e.custom_views[0].res_name = n, |w| { w.file.custom_views[0].filename = n2.clone(); let l = w.view.layouts.remove("cust").unwrap(); w.view.layouts.insert(n2, l); }),
    }
}
/// One edit in each part, written to the six data files: the files the edit does not concern are the same texts as before, and reading gives the edited project. [jobs 8] [ins 60000000]
#[no_mangle] pub extern "C" fn h_c22_files() {
    let t = lower(1); let i = choose(2) as usize;
    match choose(12) {
        0 => case_files(&[0], |e| e.metadata.name = t), 1 => case_files(&[0], |e| e.colors.color_accent = Color::from(0xff123456)), 2 => case_files(&[1], |e| e.screens[i].fullscreen_enabled = !e.screens[i].fullscreen_enabled), 3 => case_files(&[2], |e| e.libraries.google_map = None),
        4 => case_files(&[3], |e| { let _ = e.resources.put_resource(ResourceId(t), wrap(0, "new.x", ResourceType::Sound), ResourceType::Sound); }), 5 => case_files(&[4], |e| find(&mut e.screens[i].layout, "b").padding.left = 9), 6 => case_files(&[4], |e| e.screens[0].fab = None), 7 => case_files(&[5], |e| { e.screens[i].variables.remove("v0"); }),
        8 => case_files(&[5], |e| e.screens[i].events[1].name = t), 9 => case_files(&[5], |e| e.screens[i].more_blocks["mb0"].code.0.swap(0, 2)), 10 => case_files(&[1, 4, 5], |e| { e.screens.remove(i); }), _ => case_files(&[1, 4], |e| { e.custom_views.remove(0); }),
    }
}
fn parent_of<'a>(e: &'a mut SketchwareProject, p: &str) -> &'a mut Vec<ApiView> { if p == "" { &mut e.screens[0].layout } else { &mut find(&mut e.screens[0].layout, p).children } }
/// On a layout of five views: any view given another id (its children are linked to it), any view moved with all below it to any other parent that is not below it, at any place; any view turned into a view of any other of the kinds without values of their own: the links of it and its children, and its type, only.
#[no_mangle] pub extern "C" fn h_c22_links() {
    let a = match api(rich()) { Some(a) => a, None => return }; let mut w = Parsed::from(a.clone()); let mut e = a;
    let ids = ["a", "b", "c", "d", "e"]; let v = choose(5) as usize; let id = ids[v]; let parents = ["", "a", "a", "c", ""];
    match choose(3) {
        0 => { let n = format!("q{}", lower(1)); find(&mut e.screens[0].layout, id).id = n.clone(); for x in w.view.layouts["main"].0.iter_mut() { if x.id == id { x.id = n.clone() } if x.parent.as_deref() == Some(id) { x.parent = Some(n.clone()) } }
            let b = Parsed::from(e.clone()); same(&b, &w); if let Some(c) = api(b) { renew(&mut e, &c); check(c == e, "reading again gives the edited project") } }
        1 => { let to = ["", "a", "b", "c", "d", "e"][choose(6) as usize]; if to == id || (id == "a" && to != "" && to != "e") || (id == "c" && to == "d") { assume(false) }
            let l = parent_of(&mut e, parents[v]); let at = l.iter().position(|x| x.id == id).expect("harness: place"); let moved = l.remove(at); let l = parent_of(&mut e, to); let at = choose(l.len() as u64 + 1) as usize; l.insert(at, moved); let order: Vec<String> = l.iter().map(|x| x.id.clone()).collect();
            let mut b = Parsed::from(e.clone()); let pt = if to == "" { 0 } else { w.view.layouts["main"].0.iter().find(|x| x.id == to).map_or(99, |x| x.r#type as i8) };
            for x in w.view.layouts["main"].0.iter_mut() { if x.id == id { x.parent = Some(s(if to == "" { "root" } else { to })); x.parent_type = pt } }
            let got: Vec<String> = b.view.layouts["main"].0.iter().filter(|x| x.parent.as_deref() == Some(if to == "" { "root" } else { to })).map(|x| x.id.clone()).collect(); check(got == order, "a moved view has its place among its siblings");
            b.view.layouts["main"].0.sort_by(|x, y| x.id.cmp(&y.id)); w.view.layouts["main"].0.sort_by(|x, y| x.id.cmp(&y.id)); same(&b, &w);
            if let Some(c) = api(Parsed::from(e.clone())) { renew(&mut e, &c); check(c == e, "reading again gives the edited project") } }
        _ => { let o = |v: bool| if v { swrs::parser::view::models::layout::Orientation::Vertical } else { swrs::parser::view::models::layout::Orientation::Horizontal }; let g = find(&mut e.screens[0].layout, id).layout_gravity.clone();
            let (t, x) = match choose(6) { 0 => (2, ViewType::ScrollView { orientation: o(false), gravity: g }), 1 => (12, ViewType::ScrollView { orientation: o(true), gravity: g }), 2 => (7, ViewType::WebView), 3 => (18, ViewType::MapView), 4 => (15, ViewType::CalendarView { first_day_of_week: 1 }), _ => (0, ViewType::LinearLayout { orientation: o(true), gravity: g }) };
            let gr = match &x { ViewType::ScrollView { gravity, .. } | ViewType::LinearLayout { gravity, .. } => Some(gravity.clone()), _ => None }; let day = t == 15; let lin = t == 0;
            find(&mut e.screens[0].layout, id).view = Ok(x); for x in w.view.layouts["main"].0.iter_mut() { if x.id == id { x.r#type = t; if let Some(g) = &gr { x.layout.gravity = g.clone() } if day { x.first_day_of_week = 1 } if lin { x.layout.orientation = o(true) } } if x.parent.as_deref() == Some(id) { x.parent_type = t as i8 } }
            let b = Parsed::from(e.clone()); same(&b, &w); if let Some(c) = api(b) { renew(&mut e, &c); check(c == e, "reading again gives the edited project") } }
    }
    reach("end");
}
/// A view of any of the 19 types (children or none) given any of the 19 kinds: its record has that type and what the kind says, its children name that type, and nothing else changes.
#[no_mangle] pub extern "C" fn h_c22_retype() {
    let (from, to) = (choose(19) as u8, choose(19) as u8); let id = ["a", "b"][choose(2) as usize];
    let mut p = rich(); for x in p.view.layouts["main"].0.iter_mut() { if x.id == id { x.r#type = from; x.image.res_name = Some(s("img")); } if x.parent.as_deref() == Some(id) { x.parent_type = from as i8 } }
    let mut z = crate::viewfile::av_full(); z.r#type = to; let z = match ApiView::from(z).view { Ok(v) => v, Err(_) => { reach("end"); return } };
    let a = match api(p) { Some(a) => a, None => return }; let mut w = Parsed::from(a.clone()); let mut e = a; find(&mut e.screens[0].layout, id).view = Ok(z.clone());
    let b = Parsed::from(e.clone());
    for (x, y) in w.view.layouts["main"].0.iter_mut().zip(b.view.layouts["main"].0.iter()) { if x.id == id { check(y.r#type == to, "a view has the type it was given"); check(ApiView::from(y.clone()).view.ok() == Some(z.clone()), "a view has the properties it was given"); check(y.layout.margin_left == x.layout.margin_left && y.layout.width == x.layout.width && y.parent == x.parent && y.id == x.id && y.pre_id == x.pre_id, "the rest of the view stays"); *x = y.clone() } if x.parent.as_deref() == Some(id) { x.parent_type = to as i8 } }
    same(&b, &w); if let Some(c) = api(b) { renew(&mut e, &c); check(c == e, "reading again gives the edited project") }
    reach("end");
}
fn one(k: u64, t: &str, e: &mut SketchwareProject) {
    match k {
        0 => e.metadata.name = s(t), 1 => e.colors.color_primary = Color::from(0xff000000 | t.as_bytes()[0] as u32), 2 => e.libraries.ad_mob = None, 3 => { let _ = e.resources.put_resource(ResourceId(s(t)), wrap(0, "new.x", ResourceType::Font), ResourceType::Font); } 4 => { e.resources.remove_resource(&ResourceId(s("r00"))); }
        5 => e.screens[0].drawer_enabled = !e.screens[0].drawer_enabled, 6 => find(&mut e.screens[0].layout, "b").margin.left = 7, 7 => { find(&mut e.screens[0].layout, "c").children.clear() } 8 => e.screens[0].fab.as_mut().unwrap().weight = 3, 9 => { e.screens[0].variables.insert(s(t), Variable { name: s(t), r#type: VariableType::String }); }
        10 => { e.screens[0].components.remove("c1"); } 11 => e.screens[0].events[1].name = s(t), 12 => { e.screens[0].more_blocks.remove("mb1"); } 13 => { for x in api_code(&mut e.screens[0], 1).0[0].content.get_args_mut() { match x { Argument::Number { value, .. } => *value = ArgValue::Value(8.0), _ => {} } } }
        14 => e.custom_views[0].res_name = s(t), _ => find(&mut e.custom_views[0].layout, "b").width = layout::Size::Fixed(9),
    }
}
fn want_one(k: u64, t: &str, w: &mut Parsed) {
    const J: &str = "MainActivity";
    match k {
        0 => w.project.app_name = s(t), 1 => w.project.color_palette.color_primary = Color::from(0xff000000 | t.as_bytes()[0] as u32), 2 => { let x = &mut w.library.admob; x.use_yn = s("N"); x.ad_units.clear(); x.test_devices.clear() } 3 => { w.resource.fonts.push(ResourceItem { full_name: s("new.x"), name: s(t), r#type: 1 }); w.resource_files.as_mut().unwrap().fonts.insert(s("new.x"), wrap(0, "new.x", ResourceType::Font)); } 4 => { let i = w.resource.images.remove(0); w.resource_files.as_mut().unwrap().images.remove(&i.full_name); }
        5 => w.file.activities[0].options.drawer_enabled = !w.file.activities[0].options.drawer_enabled, 6 => w.view.layouts["main"].0.iter_mut().find(|x| x.id == "b").unwrap().layout.margin_left = 7, 7 => w.view.layouts["main"].0.retain(|x| x.id != "d"), 8 => w.view.fabs["main"].layout.weight = 3, 9 => { w.logic.screens[J].variables.as_mut().unwrap().0.insert(s(t), Variable { name: s(t), r#type: VariableType::String }); }
        10 => { w.logic.screens[J].components.as_mut().unwrap().0.remove(1); } 11 => { let l = &mut w.logic.screens[J]; l.events.as_mut().unwrap().0[0].event_name = s(t); let c = l.block_containers.remove("b_onClick").unwrap(); l.block_containers.insert(format!("b_{}", t), c); } 12 => { let l = &mut w.logic.screens[J]; l.more_blocks.as_mut().unwrap().0.remove("mb1"); l.block_containers.remove("mb1_moreBlock"); } 13 => w.logic.screens[J].block_containers["mb0_moreBlock"].0.iter_mut().find(|b| b.op_code.starts_with("a") && b.op_code != "arg").unwrap().parameters[1] = s("8"),
        14 => { w.file.custom_views[0].filename = s(t); let l = w.view.layouts.remove("cust").unwrap(); w.view.layouts.insert(s(t), l); } _ => { let (_, l) = w.view.layouts.iter_mut().last().unwrap(); l.0.iter_mut().find(|x| x.id == "b").unwrap().layout.width = layout::Size::Fixed(9) }
    }
}
/// Any two different edits, one in each of sixteen parts, one after the other in either order: the result is that of both.
#[no_mangle] pub extern "C" fn h_c22_two() {
    let (j, k) = (choose(16), choose(16)); if j == k { assume(false) } let t = format!("q{}", lower(1));
    case(|e| { one(j, &t, e); one(k, &t, e) }, |w| { want_one(j.max(k), &t, w); want_one(j.min(k), &t, w) });
}
/// Any three different edits of the sixteen, in any order, with reading and writing between the second and the third.
#[no_mangle] pub extern "C" fn h_c22_three_t() {
    let (i, j, k) = (choose(16), choose(16), choose(16)); if i == j || j == k || i == k { assume(false) } let t = "qq";
    case(|e| { one(i, t, e); one(j, t, e); if let Some(c) = api(Parsed::from(e.clone())) { *e = c; } one(k, t, e) }, |w| { for n in (0..16).rev() { if n == i || n == j || n == k { want_one(n, t, w) } } });
}

/// Any one list or map emptied: variables, list variables, components, events, more-blocks, code, a layout, the children of a view, screens, custom views, ad units, test devices.
#[no_mangle] pub extern "C" fn h_c22_clear() {
    let i = choose(2) as usize; let j = ["MainActivity", "NextActivity"][i]; let k = choose(13);
    case(|e| { let x = &mut e.screens[i]; match k { 0 => x.variables.clear(), 1 => x.list_variables.clear(), 2 => x.components.clear(), 3 => x.events.clear(), 4 => x.more_blocks.clear(), 5 => x.events[1].code.0.clear(), 6 => x.more_blocks["mb0"].code.0.clear(), 7 => x.layout.clear(), 8 => find(&mut x.layout, "a").children.clear(), 9 => e.screens.clear(), 10 => e.custom_views.clear(), 11 => e.libraries.ad_mob.as_mut().unwrap().ad_units.clear(), _ => e.libraries.ad_mob.as_mut().unwrap().test_devices.clear() } },
        |w| { let l = &mut w.logic.screens[j]; let v = &mut w.view.layouts; match k { 0 => l.variables.as_mut().unwrap().0.clear(), 1 => l.list_variables.as_mut().unwrap().0.clear(), 2 => l.components.as_mut().unwrap().0.clear(), 3 => { l.events.as_mut().unwrap().0.clear(); for n in ["onCreate_initializeLogic", "b_onClick", "c1_onResponse", "onBackPressed_onBackPressed"] { l.block_containers.remove(n); } } 4 => { l.more_blocks.as_mut().unwrap().0.clear(); for n in ["mb0_moreBlock", "mb1_moreBlock"] { l.block_containers.remove(n); } }
            5 => l.block_containers["b_onClick"].0.clear(), 6 => l.block_containers["mb0_moreBlock"].0.clear(), 7 => v[L[i]].0.clear(), 8 => v[L[i]].0.retain(|x| x.id == "a" || x.id == "e"), 9 => { w.file.activities.clear(); v.remove("main"); v.remove("next"); w.view.fabs.clear(); w.logic.screens.clear() } 10 => { w.file.custom_views.clear(); v.remove("cust"); } 11 => w.library.admob.ad_units.clear(), _ => w.library.admob.test_devices.clear() } });
}
