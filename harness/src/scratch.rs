//! C23: projects built with the constructors, or loaded from encrypted files, are the same after writing, encrypting and loading.
use crate::edits::{renew, rich};
use crate::screens::{colors, libs, metadata};
use crate::viewfile::av;
use crate::vp::*;
use crate::whole::{api, api_screen, fab, java};
use swrs::api::block::{ArgValue, Argument, ArgumentBlockReturnType, Block, BlockCategory, BlockContent, BlockControl, BlockType, Blocks};
use swrs::api::component::ComponentKind;
use swrs::api::library::*;
use swrs::api::screen::{Event, EventType, MoreBlock as AMoreBlock, Screen};
use swrs::api::view::{View as ApiView, ViewType};
use swrs::api::*;
use swrs::color::Color;
use swrs::parser::library::AdUnit;
use swrs::parser::logic::component::Component;
use swrs::parser::logic::list_variable::ListVariable;
use swrs::parser::logic::variable::{Variable, VariableType};
use swrs::parser::logic::{BlockContainer, ScreenLogic};
use swrs::parser::view::models::{AndroidView, ImageConfig, LayoutConfig, TextConfig};
use swrs::parser::{Parsable, RawSketchwareProject, ResourceFileWrapper, ResourceType, SketchwareProject as Parsed};

/// Writes, encrypts, loads, reads and converts.
fn through(a: SketchwareProject) -> Option<SketchwareProject> {
    let raw: RawSketchwareProject = match a.try_into() { Ok(r) => r, Err(_) => { check(false, "the project is written"); return None } };
    let e = |t: &String| swrs::encrypt_sw(t.as_bytes());
    let (p, f, l, r, v, g) = (e(&raw.project), e(&raw.file), e(&raw.library), e(&raw.resource), e(&raw.view), e(&raw.logic));
    let x = match raw.resource_files.clone() { Some(rf) => RawSketchwareProject::from_encrypted(p, f, l, r, v, g, rf), None => RawSketchwareProject::from_encrypted_wo_res(p, f, l, r, v, g) };
    let x = match x { Ok(x) => x, Err(_) => { check(false, "the encrypted project is loaded"); return None } };
    check(x == raw, "the encrypted project is what was encrypted");
    let p = match Parsed::parse_from(x) { Ok(p) => p, Err(_) => { check(false, "the loaded project is read"); return None } };
    match SketchwareProject::try_from(p) { Ok(b) => Some(b), Err(_) => { check(false, "the read project is converted"); None } }
}
fn same(a: &mut SketchwareProject, b: &SketchwareProject) {
    renew(a, b);
    check(b.metadata == a.metadata && b.colors == a.colors, "settings come back"); check(b.libraries == a.libraries, "libraries come back"); check(b.resources == a.resources && b.custom_icon == a.custom_icon, "resources come back"); check(b.custom_views == a.custom_views, "custom views come back");
    check(b.screens.len() == a.screens.len(), "every screen comes back"); for (x, y) in b.screens.iter().zip(a.screens.iter()) { check(x.layout == y.layout && x.fab == y.fab, "a layout comes back"); check(x.events == y.events && x.more_blocks == y.more_blocks, "code comes back"); check(x == y, "a screen comes back") }
    check(b == a, "the project comes back");
}
fn screen(n: &str) -> Screen {
    Screen { layout_name: s(n), java_name: java(n), layout: vec![], variables: Default::default(), list_variables: Default::default(), more_blocks: Default::default(), components: Default::default(), events: vec![], fab: None,
        fullscreen_enabled: false, toolbar_enabled: true, drawer_enabled: false, fab_enabled: false, orientation: swrs::parser::file::Orientation::Portrait, theme: swrs::parser::file::Theme::Default, keyboard_setting: swrs::parser::file::KeyboardSetting::Unspecified }
}
fn project(v: Vec<Screen>, c: Vec<CustomView>, l: Libraries, r: Resources) -> SketchwareProject { SketchwareProject::new(metadata(), colors(), v, c, l, r) }
fn view(id: &str, t: u8) -> ApiView { ApiView::from(AndroidView::new_empty(id, t, "root", 0)) }

/// The project with everything in it, and one edit of any of its names (any two letters), encrypted and loaded again, twice; with resource files, or without (ids then differ, and nothing else). [ins 60000000]
#[no_mangle] pub extern "C" fn h_c23_encrypted() {
    let wo = choose(2) == 1; let mut p = rich(); if wo { p.resource_files = None } let mut a = match api(p) { Some(a) => a, None => return }; let t = lower(2);
    match choose(5) { 0 => a.metadata.name = t, 1 => { a.screens[0].variables.insert(t.clone(), Variable { name: t, r#type: VariableType::Boolean }); } 2 => a.screens[1].events[0].code.0[0].op_code = t, 3 => a.custom_views[0].layout[0].id = format!("q{}", t), _ => a.libraries.google_map = Some(GoogleMap { api_key: t }) }
    for _ in 0..2 {
        let mut b = match through(a.clone()) { Some(b) => b, None => return };
        if wo { check(b.resources.get_images().keys().eq(a.resources.get_images().keys()) && b.resources.get_fonts().keys().eq(a.resources.get_fonts().keys()), "resources come back"); check(b.custom_icon.is_some() == a.custom_icon.is_some(), "the icon comes back"); b.resources = a.resources.clone(); b.custom_icon = a.custom_icon.clone() }
        same(&mut a, &b); a = b;
    }
    reach("end");
}
/// A project built with `new`: up to two screens each with or without code, layout and button, a custom view or none; encrypted and loaded again. [ins 60000000]
#[no_mangle] pub extern "C" fn h_c23_screens() {
    let n = choose(3) as usize; let mut v = vec![]; for i in 0..n { match api_screen(["main", "next_one"][i], choose(8), ["tx", "ty"][i]) { Some(x) => v.push(x), None => return } }
    let c = if choose(2) == 1 { vec![CustomView { res_name: s("cust"), layout: vec![view("cv", 0)] }] } else { vec![] };
    let mut a = project(v, c, libs(), Resources::new_empty()); check(a.custom_icon.is_none(), "a new project has no icon"); if let Some(b) = through(a.clone()) { same(&mut a, &b) } reach("end");
}
/// A screen built by hand, with any one-letter names: a variable and a list variable of any type, a component of any of five kinds, an event of any kind with code built from constructors, a more-block, and a tree of three views of any kind each. [ins 60000000]
#[no_mangle] pub extern "C" fn h_c23_screen() {
    let mut x = screen("main"); let n = format!("q{}", lower(1)); let k = choose(6); let ty = [VariableType::Boolean, VariableType::Integer, VariableType::String, VariableType::HashMap];
    let code = || Blocks(vec![Block::new_1substack(BlockCategory::Control, s("if"), BlockContent::builder().text("if").arg(Argument::Boolean { name: None, value: ArgValue::Value(true) }).text("then").build(), Blocks(vec![Block::new(BlockCategory::List, n.clone(), BlockContent::builder().text("do").arg(Argument::String { name: Some(s("x")), value: ArgValue::Value(n.clone()) }).build(), BlockType::Regular)]))]);
    match k {
        0 => { x.variables.insert(n.clone(), Variable { name: n.clone(), r#type: ty[choose(4) as usize] }); }
        1 => { x.list_variables.insert(n.clone(), ListVariable { name: n.clone(), r#type: ty[choose(4) as usize] }); }
        2 => { x.components.insert(n.clone(), match choose(5) { 0 => ComponentKind::Intent, 1 => ComponentKind::SharedPreferences { path: n.clone() }, 2 => ComponentKind::FirebaseDatabase { path: n.clone() }, 3 => ComponentKind::FilePicker { mime_type: n.clone() }, _ => ComponentKind::Timer }); }
        3 => { let event_type = match choose(3) { 0 => EventType::ViewEvent { id: n.clone() }, 1 => EventType::ComponentEvent { id: n.clone(), component_type: u8_() }, _ => EventType::ActivityEvent }; let name = [s("onCreate"), s("onClick"), n.clone()][choose(3) as usize].clone(); if name == "onCreate" { assume(event_type == EventType::ActivityEvent) } x.events.push(Event { name, event_type, code: code() }); }
        4 => { x.more_blocks.insert(n.clone(), AMoreBlock { name: n.clone(), spec: BlockContent::builder().text("x").arg(Argument::Menu { name: s("view"), value: ArgValue::Empty }).build(), code: code() }); }
        _ => { let mut a = view("a", 0); let mut b = view("b", choose(19) as u8); if choose(2) == 1 { b.children.push(view("c", choose(19) as u8)) } a.children.push(b); x.layout.push(a); x.layout.push(view(&n, 4)) }
    }
    let mut a = project(vec![x], vec![], libs(), Resources::new_empty()); if let Some(b) = through(a.clone()) { same(&mut a, &b) } reach("end");
}
/// A project built by hand with any subset of the libraries (any two-letter texts) and up to two resources of each type and an icon. [ins 60000000]
#[no_mangle] pub extern "C" fn h_c23_lists() {
    let k = choose(16); let t = lower(2); let l = Libraries { app_compat_enabled: k & 1 == 1, firebase: if k & 2 != 0 { Some(Firebase { project_id: t.clone(), app_id: s("b"), api_key: s("c"), storage_bucket: s("d") }) } else { None }, ad_mob: if k & 4 != 0 { Some(AdMob { ad_units: vec![AdUnit { id: t.clone(), name: s("n") }], test_devices: vec![t.clone()] }) } else { None }, google_map: if k & 8 != 0 { Some(GoogleMap { api_key: t }) } else { None } };
    let mut r = Resources::new_empty(); let m = [choose(3), choose(3), choose(3)]; if k != 0 && k != 15 { assume(m[0] == m[1] && m[2] == 1) } for (i, ty) in [ResourceType::Image, ResourceType::Sound, ResourceType::Font].into_iter().enumerate() { for j in 0..m[i] { check(r.put_resource(ResourceId(format!("r{}{}", i, j)), crate::whole::wrap(j, &format!("f{}.{}", j, i), ty), ty).is_ok(), "a free id is accepted") } }
    let mut a = project(vec![], vec![], l, r); if choose(2) == 1 { a.custom_icon = Some(crate::whole::wrap(1, "icon.png", ResourceType::CustomIcon)) }
    if let Some(b) = through(a.clone()) { same(&mut a, &b) } reach("end");
}
/// Code built with the block constructors: two blocks in a row of any of the nine categories (the second fixed) and of any form (plain, one nest, two nests, ending), the first with an argument of any kind holding nothing, a value or a block: the parts are what was given, and the flat list reads as the same code.
#[no_mangle] pub extern "C" fn h_c23_code() {
    let cats = [BlockCategory::Variable, BlockCategory::List, BlockCategory::Control, BlockCategory::Operator, BlockCategory::Math, BlockCategory::File, BlockCategory::ViewFunc, BlockCategory::ComponentFunc, BlockCategory::MoreBlock]; let cat = choose(9) as usize;
    let leaf = |n: &str, t: BlockType| Block::new(BlockCategory::Math, s(n), BlockContent::builder().text("go").build(), t); let t = plain(2); for b in t.bytes().take(1) { assume(b != b'@') }
    let v = choose(3); let arg = match choose(4) { 0 => Argument::String { name: Some(s("i")), value: match v { 0 => ArgValue::Value(s("")), 1 => ArgValue::Value(t), _ => ArgValue::Block(leaf("s", BlockType::Argument(ArgumentBlockReturnType::String))) } }, 1 => Argument::Number { name: None, value: match v { 0 => ArgValue::Empty, 1 => ArgValue::Value(choose(10) as f64 / 4.0), _ => ArgValue::Block(leaf("n", BlockType::Argument(ArgumentBlockReturnType::Number))) } },
        2 => Argument::Boolean { name: None, value: match v { 0 => ArgValue::Empty, 1 => ArgValue::Value(choose(2) == 1), _ => ArgValue::Block(leaf("b", BlockType::Argument(ArgumentBlockReturnType::Boolean))) } }, _ => Argument::Menu { name: s("view"), value: match v { 0 => ArgValue::Value(s("")), 1 => ArgValue::Value(t), _ => ArgValue::Block(leaf("v", BlockType::Argument(ArgumentBlockReturnType::View { type_name: s("View") }))) } } };
    let content = BlockContent::builder().text("if").arg(arg.clone()).text("then").build(); check(content.get_args() == vec![&arg], "a built content has the argument given");
    let hollow = choose(3); let one = if hollow == 1 { Blocks::new() } else { Blocks(vec![leaf("x", BlockType::Regular)]) }; let two = if hollow > 0 { Blocks::new() } else { Blocks(vec![leaf("y", BlockType::Regular), leaf("z", BlockType::Control(BlockControl::EndingBlock))]) };
    let (b, nests, ty) = match choose(4) { 0 => (Block::new(cats[cat], s("op"), content.clone(), BlockType::Regular), 0, BlockType::Regular), 1 => (Block::new_1substack(cats[cat], s("op"), content.clone(), one.clone()), 1, BlockType::Control(BlockControl::OneNest)), 2 => (Block::new_2substack(cats[cat], s("op"), content.clone(), one.clone(), two.clone()), 2, BlockType::Control(BlockControl::TwoNest)), _ => (Block::new(cats[cat], s("op"), content.clone(), BlockType::Control(BlockControl::EndingBlock)), 0, BlockType::Control(BlockControl::EndingBlock)) };
    check(b.sub_stack1 == if nests > 0 { Some(one) } else { None } && b.sub_stack2 == if nests > 1 { Some(two) } else { None }, "a built block has the nests given"); check(b.op_code == "op" && b.content == content && b.block_type == ty, "a built block is what was given"); check(b.category().ok() == Some(cats[cat]), "a built block has the category given");
    let code = Blocks(vec![b, leaf("last", BlockType::Regular)]); let flat: BlockContainer = code.clone().into(); let text = match flat.reconstruct() { Ok(t) => t, Err(_) => { check(false, "built code is written"); return } };
    match BlockContainer::parse(&text) { Ok(f) => { check(f == flat, "built code is read"); match Blocks::try_from(f) { Ok(x) => { let mut w = code; if let Some(b) = w.0.first_mut() { for n in [&mut b.sub_stack1, &mut b.sub_stack2] { if n.as_ref().map_or(false, |n| n.0.is_empty()) { *n = None } } } check(x == w, "built code comes back (an empty nest as none)") }, Err(_) => check(false, "built code is understood") } } Err(_) => check(false, "built code is read") }
    reach("end");
}
/// Contents built from up to four parts, each a text (empty, or any character) or one of four arguments, equal ones in a row included: the parts are what was given, in order; taking or changing arguments touches just these.
#[no_mangle] pub extern "C" fn h_c23_contents() {
    use swrs::api::block::SpecItem; let n = choose(5) as usize; let mut b = BlockContent::builder(); let mut want = vec![]; let c = ascii(1);
    for i in 0..n { let k = choose(if n == 4 { 5 } else { 7 }); let a = match k { 0 => Some(Argument::Number { name: None, value: ArgValue::Value(1.0) }), 1 => Some(Argument::String { name: Some(s("x")), value: ArgValue::Empty }), 2 => Some(Argument::Boolean { name: None, value: ArgValue::Value(false) }), 3 if i % 2 == 0 => Some(Argument::Menu { name: s("view"), value: ArgValue::Value(c.clone()) }), _ => None };
        match a { Some(a) => { want.push(SpecItem::Parameter(a.clone())); b = b.arg(a) } None => { let t = match k { 4 => c.clone(), 5 => s(""), _ => s("on the") }; want.push(SpecItem::Text(t.clone())); b = b.text(&t) } } }
    let b = b.build(); check(b.items == want, "a built content is what was given"); check(b == BlockContent { items: want.clone() }, "a built content is what was given");
    let args: Vec<Argument> = want.iter().filter_map(|x| match x { SpecItem::Parameter(a) => Some(a.clone()), _ => None }).collect(); check(b.get_args().into_iter().cloned().collect::<Vec<_>>() == args, "a content's arguments are those given");
    let (rest, taken) = b.clone().take_args(); check(taken == args, "a content's arguments are those given"); check(rest.items.len() == want.len() && rest.items.iter().zip(want.iter()).all(|(x, y)| match (x, y) { (SpecItem::Text(p), SpecItem::Text(q)) => p == q, (SpecItem::Parameter(_), SpecItem::Parameter(_)) => true, _ => false }), "taking arguments leaves the texts");
    let mut d = b.clone(); let m = args.len(); if m > 0 { let at = choose(m as u64) as usize; *d.get_args_mut()[at] = Argument::Number { name: Some(s("new")), value: ArgValue::Empty }; check(d.get_args().len() == m, "changing an argument changes just that"); for (i, a) in d.get_args().into_iter().enumerate() { check(if i == at { *a == Argument::Number { name: Some(s("new")), value: ArgValue::Empty } } else { *a == args[i] }, "changing an argument changes just that") } }
    reach("end");
}
/// Six texts encrypted and loaded with either loader, any one of them any 7-bit text of 0 to 33 bytes or one with blank lines, spaces or zeros at its ends, and the others short, empty or several blocks long: each comes back in its place as it was.
#[no_mangle] pub extern "C" fn h_c23_texts() {
    let k = choose(6) as usize; let sz = choose(3) as usize; let mut v: Vec<String> = (0..6).map(|i| match sz { 0 => s(""), 1 => format!("@p{}\n", i), _ => format!("the long text of number {}, which takes more than two blocks\n\n", i) }).collect();
    v[k] = match choose(4) { 0 => { let n = choose(34) as usize; ascii(n) } 1 => text_upto(3), 2 => format!("{}@a\n0:x{}", ["", "\n", " ", "\0", "\u{feff}"][choose(5) as usize], ["", "\n\n", " ", "\0", "\r\n", "\u{1}", "\n\n\n\n"][choose(7) as usize]), _ => any_plain() };
    let e = |i: usize| swrs::encrypt_sw(v[i].as_bytes()); let rf = vec![crate::whole::wrap(1, "a.png", ResourceType::Image)][..choose(2) as usize].to_vec(); let wo = choose(2) == 1;
    let x = if wo { RawSketchwareProject::from_encrypted_wo_res(e(0), e(1), e(2), e(3), e(4), e(5)) } else { RawSketchwareProject::from_encrypted(e(0), e(1), e(2), e(3), e(4), e(5), rf.clone()) };
    match x { Err(_) => check(false, "the encrypted project is loaded"), Ok(x) => { let w = [&x.project, &x.file, &x.library, &x.resource, &x.view, &x.logic]; for i in 0..6 { check(*w[i] == v[i], "an encrypted text comes back in its place") } check(x.resource_files == if wo { None } else { Some(rf) }, "resource files are kept") } }
    reach("end");
}
/// Records built with constructors: components without, with one, two or three parameters (texts of up to 2 bytes, any type), colours from any components, empty views of any type, id and parent, empty screens, default parts; random ids keep name and type.
#[no_mangle] pub extern "C" fn h_c23_records() {
    match choose(6) {
        0 => { let (p, q, r) = match choose(3) { 0 => (text_upto(2), s("b"), s("c")), 1 => (s(""), text_upto(2), s("c")), _ => (s("a"), s(""), text_upto(2)) }; let t = u8_(); let c = match choose(4) { 0 => (Component::new_empty(s("i"), t), ["".into(), s(""), s("")]), 1 => (Component::new_1param(s("i"), p.clone(), t), [p, s(""), s("")]), 2 => (Component::new_2params(s("i"), p.clone(), q.clone(), t), [p, q, s("")]), _ => (Component::new(s("i"), p.clone(), q.clone(), r.clone(), t), [p, q, r]) }; let (c, w) = c;
            check(c.id == "i" && c.param1 == w[0] && c.param2 == w[1] && c.param3 == w[2] && c.r#type == t, "a built component is what was given") }
        1 => { let (a, r, g, b) = (u8_(), u8_(), u8_(), u8_()); let c = Color::from_argb(a, r, g, b); check((c.alpha() == a) & (c.red() == r) & (c.green() == g) & (c.blue() == b), "a built colour is what was given"); let d = Color::from_rgb(r, g, b); check((d.alpha() == 255) & (d.rgb() == (r, g, b)), "a built colour is opaque"); check(c == Color::from((a as u32) << 24 | (r as u32) << 16 | (g as u32) << 8 | b as u32), "a built colour is what was given"); check(Color::default() == Color::from_rgb(0, 0, 0), "the default colour is black") }
        2 => { let (t, pt) = (u8_(), u8_() as i8); let (i, p) = (text_upto(2), match choose(4) { 0 => text_upto(1), 1 => s("root"), 2 => any_name(), _ => s("p") }); let v = AndroidView::new_empty(&i, t, &p, pt); check(v.id == i && v.parent == Some(p) && v.r#type == t && v.parent_type == pt, "a built view is what was given"); check(v.layout == LayoutConfig::default() && v.text == TextConfig::default() && v.image == ImageConfig::default(), "a built view has default parts"); check(v.enabled && v.clickable && v.alpha == 1.0 && v.scale_x == 1.0 && v.scale_y == 1.0 && v.translation_x == 0.0 && v.translation_y == 0.0, "a built view can be seen and used"); check(!v.checked && v.index == 0 && v.progress == 0 && v.max == 100 && !v.indeterminate, "a built view has default values") }
        3 => { let n = text_upto(2); let l = ScreenLogic::new_empty(n.clone()); check(l.name == n && l.block_containers.is_empty() && l.variables.is_none() && l.list_variables.is_none() && l.components.is_none() && l.events.is_none() && l.more_blocks.is_none(), "an empty screen is empty"); let r = Resources::new_empty(); check(r.get_images().is_empty() && r.get_sounds().is_empty() && r.get_fonts().is_empty(), "empty resources are empty"); check(Blocks::new() == Blocks::default() && Blocks::new().0.is_empty(), "new code is empty") }
        4 => { let n = if choose(2) == 0 { text_upto(2) } else { any_plain() }; let t = [ResourceType::Image, ResourceType::Sound, ResourceType::Font, ResourceType::CustomIcon][choose(4) as usize]; let f = ResourceFileWrapper::make_random_id(n.clone(), t); check(f.get_full_name() == n, "a random id keeps the name"); match f { ResourceFileWrapper::U32Id { res_full_name, res_type, .. } => check(res_full_name == n && res_type == t, "a random id keeps name and type"), _ => check(false, "a random id is a number") } }
        _ => { let t = choose(19) as u8; let v = view("a", t); match (&v.view, t) { (Ok(x), _) => check(x.get_type_id() == t, "a built view has the kind given"), (Err(_), 1) | (Err(_), 6) | (Err(_), 16) => {} _ => check(false, "a built view has the kind given") } check(v.children.is_empty() && v.id == "a", "a built view has no children"); if let Ok(ViewType::MapView) = v.view { check(t == 18, "a built view has the kind given") } let f = fab("_fab"); let b = ApiView::from(f.clone()); check(b.raw == f, "a view keeps its record"); check(av("a") == AndroidView::new_empty("a", 4, "root", 0), "harness: view") }
    }
    reach("end");
}
