//! C15: screens.
use crate::logic::block;
use crate::vp::*;
use ritelinked::LinkedHashMap;
use swrs::api::block::*;
use swrs::api::component::ComponentKind;
use swrs::api::screen::*;
use swrs::api::{Colors, Libraries, Metadata, Resources, SketchwareProject};
use swrs::color::Color;
use swrs::parser::file::{FileItem, KeyboardSetting, Orientation, Theme};
use swrs::parser::logic::component::{Component, ComponentPool};
use swrs::parser::logic::event::{Event as PEvent, EventPool};
use swrs::parser::logic::list_variable::{ListVariable, ListVariablePool};
use swrs::parser::logic::more_block::{MoreBlock as PMore, MoreBlockPool};
use swrs::parser::logic::variable::{Variable, VariablePool, VariableType};
use swrs::parser::logic::{BlockContainer, ScreenLogic};
use swrs::parser::view::Layout;
use swrs::parser::SketchwareProject as Parsed;

pub fn metadata() -> Metadata { Metadata { local_id: 601, name: s("App"), workspace_name: s("Ws"), package_name: s("p.q"), time_created: 1610452800, sketchware_version: 150, version_name: s("1.0"), version_code: 1 } }
pub fn colors() -> Colors { Colors { color_primary: Color::from(0xff000001), color_primary_dark: Color::from(0xff000002), color_accent: Color::from(0xff000003), color_control_normal: Color::from(0xff000004), color_control_highlight: Color::from(0xff000005) } }
pub fn libs() -> Libraries { Libraries { app_compat_enabled: false, firebase: None, ad_mob: None, google_map: None } }
pub fn item(n: &str) -> FileItem { crate::lists::fi(n, swrs::parser::file::FileType::Activity) }
pub fn to_api(l: ScreenLogic) -> Result<Screen, ScreenConstructionError> { Screen::from_parsed(s("main"), l.name.clone(), item("main"), Layout(vec![]), l, None) }
pub fn to_parsed(v: Vec<Screen>) -> Parsed { SketchwareProject::new(metadata(), colors(), v, vec![], libs(), Resources::new_empty()).into() }
pub fn back(sc: Screen) -> Option<ScreenLogic> { let n = sc.java_name.clone(); let p = to_parsed(vec![sc]); check(p.logic.screens.len() == 1, "one screen is written"); p.logic.screens.get(&n).cloned() }
pub fn empty_screen() -> Screen {
    Screen { layout_name: s("main"), java_name: s("MainActivity"), layout: vec![], variables: LinkedHashMap::new(), list_variables: LinkedHashMap::new(), more_blocks: LinkedHashMap::new(), components: LinkedHashMap::new(), events: vec![], fab: None,
        fullscreen_enabled: false, toolbar_enabled: true, drawer_enabled: false, fab_enabled: false, orientation: Orientation::Portrait, theme: Theme::Default, keyboard_setting: KeyboardSetting::Unspecified }
}
/// One block calling itself `op`.
pub fn code(op: &str) -> BlockContainer { BlockContainer(vec![block("10", op)]) }
fn api_code(op: &str) -> Blocks { match Blocks::try_from(code(op)) { Ok(b) => b, Err(_) => { check(false, "harness: code reads"); Blocks(vec![]) } } }
fn ops(b: &Blocks) -> Vec<&str> { b.0.iter().map(|x| x.op_code.as_str()).collect() }
fn pops(b: Option<&BlockContainer>) -> Vec<&str> { match b { Some(c) => c.0.iter().map(|x| x.op_code.as_str()).collect(), None => vec![] } }
pub fn pev(n: &str, t: u8, id: &str, tt: u8) -> PEvent { PEvent { event_name: s(n), event_type: t, target_id: s(id), target_type: tt } }
/// Where the code of an event lives in the logic file.
fn owner(e: &PEvent) -> String { if e.event_type == 3 { format!("{}_{}", e.event_name, e.event_name) } else { format!("{}_{}", e.target_id, e.event_name) } }

fn events_case(evs: Vec<PEvent>, create: u64, has: Vec<bool>) {
    let ids: Vec<String> = evs.iter().map(owner).collect();
    for i in 0..ids.len() { assume(ids[i] != "onCreate_initializeLogic"); for j in 0..i { assume(ids[i] != ids[j]) } }
    let opn: Vec<String> = (0..evs.len()).map(|i| format!("op{}", i)).collect();
    let mut l = ScreenLogic::new_empty(s("MainActivity"));
    // containers in reverse order, the creation code in the middle
    for i in (0..evs.len()).rev() { if i == 0 && create > 0 { l.block_containers.insert(s("onCreate_initializeLogic"), if create == 1 { BlockContainer(vec![]) } else { code("creation") }); } if has[i] { l.block_containers.insert(ids[i].clone(), code(&opn[i])); } }
    if evs.is_empty() && create > 0 { l.block_containers.insert(s("onCreate_initializeLogic"), if create == 1 { BlockContainer(vec![]) } else { code("creation") }); }
    if !(evs.is_empty() && choose(2) == 1) { l.events = Some(EventPool(evs.clone())) }
    let sc = match to_api(l) { Ok(x) => x, Err(_) => { check(false, "the screen is converted"); return } };
    let k = if create > 0 { 1 } else { 0 };
    check(sc.events.len() == evs.len() + k, "every event is kept, and creation code is an event exactly when it exists");
    if create > 0 { let e = &sc.events[0]; check(e.name == "onCreate" && e.event_type == EventType::ActivityEvent, "creation code is the onCreate event"); check(ops(&e.code) == if create == 1 { vec![] } else { vec!["creation"] }, "creation code belongs to onCreate") }
    for i in 0..evs.len() {
        let e = &sc.events[i + k]; let p = &evs[i];
        check(e.name == p.event_name, "events keep their names and order");
        check(match &e.event_type { EventType::ViewEvent { id } => p.event_type == 1 && *id == p.target_id, EventType::ComponentEvent { id, component_type } => p.event_type == 2 && *id == p.target_id && *component_type == p.target_type, EventType::ActivityEvent => p.event_type == 3 }, "events keep their target");
        check(ops(&e.code) == if has[i] { vec![opn[i].as_str()] } else { vec![] }, "an event has its own code");
    }
    match back(sc) {
        None => check(false, "the screen is written under its name"),
        Some(m) => {
            let e = m.events.clone().unwrap_or_default().0;
            check(e.len() == evs.len(), "exactly the listed events are written");
            for i in 0..evs.len() { let (x, p) = (&e[i], &evs[i]); check(x.event_name == p.event_name && x.event_type == p.event_type && x.target_id == p.target_id && (x.target_type == p.target_type || p.event_type == 1), "events are written as they were"); check(pops(m.block_containers.get(&ids[i])) == if has[i] { vec![opn[i].as_str()] } else { vec![] }, "an event's code is written under its own name") }
            check(pops(m.block_containers.get("onCreate_initializeLogic")) == if create == 2 { vec!["creation"] } else { vec![] }, "creation code is written as code");
            check(create == 0 || m.block_containers.contains_key("onCreate_initializeLogic"), "creation code stays present");
            check(create > 0 || !m.block_containers.contains_key("onCreate_initializeLogic"), "no creation code appears");
            for (n, c) in m.block_containers.iter() { check(c.0.is_empty() || n == "onCreate_initializeLogic" || ids.contains(n), "no code appears from nowhere") }
        }
    }
}
fn any_event() -> PEvent {
    let n = match choose(4) { 0 => s("onCreate"), 1 => s("onClick"), 2 => s("moreBlock"), _ => lower(1) };
    match choose(3) { 0 => { let id = lower(1); pev(&n, 1, &id, 3) } 1 => { let id = lower(1); let mut e = pev(&n, 2, &id, 0); e.target_type = u8_(); e } _ => { if n == "onCreate" { assume(false) } pev(&n, 3, &n, 0) } }
}
/// Screens with 0 to 2 events of every kind (view, component, activity; names onCreate, onClick, moreBlock or any letter; any one-letter targets, any component type), each with or without code, and creation code absent, empty or present; both directions. [jobs 8]
#[no_mangle] pub extern "C" fn h_c15_events() { let n = choose(3) as usize; let e: Vec<PEvent> = (0..n).map(|_| any_event()).collect(); let h = (0..n).map(|_| choose(2) == 1).collect(); events_case(e, choose(3), h); reach("end"); }
/// Screens with 3 events of every kind. [jobs 8] [time 900]
#[no_mangle] pub extern "C" fn h_c15_events_t() { let n = 3; let e: Vec<PEvent> = (0..n).map(|_| any_event()).collect(); let h = (0..n).map(|_| choose(2) == 1).collect(); events_case(e, choose(3), h); reach("end"); }
/// One event of each kind whose name and target are any UTF-8 text of up to 2 bytes. [jobs 8]
#[no_mangle] pub extern "C" fn h_c15_event_text() {
    let e = match choose(3) { 0 => { let (n, t) = (text_upto(2), text_upto(2)); pev(&n, 1, &t, 3) } 1 => { let (n, t) = (text_upto(2), text_upto(2)); pev(&n, 2, &t, 9) } _ => { let n = text_upto(2); pev(&n, 3, &n, 0) } };
    events_case(vec![e], 2, vec![true]); reach("end");
}
/// Names that meet: a more-block whose spec is one to four words, each its own name, the event's name, a parameter of that name or another word, its code under its name; next to it an activity event, a view event and a component, view and component of the more-block's name. The written screen says the same, and so does the more-block on its own (into_parser_more_block). [jobs 8]
#[no_mangle] pub extern "C" fn h_c15_meet() {
    let n = lower(2); let k = 1 + choose(4); let mut w: Vec<String> = vec![]; for _ in 0..k { w.push(match choose(4) { 0 => n.clone(), 1 => s("onStart"), 2 => format!("%s.{}", n), _ => s("x") }) } let spec = w.join(" ");
    let blocks = |op: &str| BlockContainer(vec![block("1", op)]); let mut l = ScreenLogic::new_empty(s("MainActivity"));
    l.more_blocks = Some(MoreBlockPool({ let mut m = LinkedHashMap::new(); m.insert(n.clone(), PMore { id: n.clone(), spec: spec.clone() }); m })); l.block_containers.insert(format!("{}_moreBlock", n), blocks("mb"));
    let ev = vec![pev("onStart", 3, "onStart", 0), pev("onClick", 1, &n, 3), pev("onTick", 2, &n, 5)]; l.events = Some(EventPool(ev.clone())); l.components = Some(ComponentPool(vec![Component { id: n.clone(), param1: s(""), param2: s(""), param3: s(""), r#type: 5 }]));
    for (id, op) in [(s("onStart_onStart"), "e0"), (format!("{}_onClick", n), "e1"), (format!("{}_onTick", n), "e2")] { l.block_containers.insert(id, blocks(op)); }
    let before = l.clone();
    match to_api(l) {
        Err(_) => check(false, "the screen is converted"),
        Ok(sc) => {
            check(sc.more_blocks.len() == 1 && sc.events.len() == 3 && sc.components.len() == 1, "everything is kept");
            if let Some(m) = sc.more_blocks.get(&n) { check(m.name == n && m.code.0.len() == 1 && m.code.0[0].op_code == "mb", "a more-block keeps its code"); check(m.spec.to_string() == spec, "a more-block keeps its spec"); let (p, c) = m.clone().into_parser_more_block(); check(p.id == n && p.spec == spec && c == m.code, "a more-block keeps its spec") } else { check(false, "the more-block is kept under its name") }
            for (i, e) in sc.events.iter().enumerate() { check(e.name == ev[i].event_name && e.code.0.len() == 1 && e.code.0[0].op_code == ["e0", "e1", "e2"][i], "each event keeps its code") }
            match back(sc) { Some(m) => { check(m.more_blocks == before.more_blocks, "more-blocks are written as they were"); check(m.events.map(|e| e.0.iter().map(|x| (x.event_name.clone(), x.event_type, x.target_id.clone())).collect::<Vec<_>>()) == Some(ev.iter().map(|x| (x.event_name.clone(), x.event_type, x.target_id.clone())).collect()), "events are written as they were"); check(m.components == before.components, "components are written as they were"); for (id, c) in before.block_containers.iter() { check(m.block_containers.get(id).map(|x| x.0.len() == 1 && x.0[0].op_code == c.0[0].op_code) == Some(true), "code is written back to its owner") } check(m.block_containers.len() == 4, "no code is added") } None => check(false, "the screen is written under its name") }
        }
    }
    reach("end");
}
/// One event and one more-block on their own (Event::try_from, into_parser_event, into_parser_more_block): name, target and target type free, code of none to two blocks; the record and the code come out as they went in, an unknown kind is refused. [jobs 8]
#[no_mangle] pub extern "C" fn h_c15_alone() {
    let n = choose(3) as usize; let code = Blocks((0..n).map(|i| Block::new(BlockCategory::Control, s(["p", "q"][i]), BlockContent::builder().text("t").build(), BlockType::Regular)).collect());
    if choose(2) == 0 {
        let (ty, tt) = (u8_(), u8_()); let (nm, tg) = (text_upto(2), text_upto(2)); let p = pev(&nm, ty, &tg, tt);
        match Event::try_from(p.clone()) {
            Err(e) => { check(ty == 0 || ty > 3, "a known event is taken"); check(e.event_name == nm && e.event_type == ty, "the refused event is named") }
            Ok(mut e) => {
                check(ty >= 1 && ty <= 3, "an unknown event is refused"); check(e.code.0.is_empty(), "an event without code has none"); check(e.name == nm, "an event keeps its name");
                e.code = code.clone(); let (q, c) = e.into_parser_event(); check(c == code, "an event keeps its code");
                check(q.event_name == p.event_name && q.event_type == p.event_type, "an event keeps its name and kind");
                if ty == 3 { check(q.target_id == nm, "an activity event names itself") } else { check(q.target_id == p.target_id, "an event keeps its target") }
                if ty == 2 { check(q.target_type == tt, "a component event keeps its target type") }
            }
        }
    } else {
        let (nm, tx) = (text_upto(2), text_upto(2)); assume(!tx.contains(' ') && !tx.contains('%'));
        let m = MoreBlock { name: nm.clone(), spec: BlockContent::builder().text(tx.clone()).arg(Argument::Menu { name: s("view"), value: ArgValue::Empty }).arg(Argument::Number { name: None, value: ArgValue::Empty }).text("e").build(), code: code.clone() };
        let (p, c) = m.into_parser_more_block(); check(p.id == nm, "a more-block keeps its name"); check(p.spec == tx + " %m.view %d e", "a more-block keeps its spec"); check(c == code, "a more-block keeps its code");
    }
    reach("end");
}
/// A view event's target type (the view's type code): every value.
#[no_mangle] pub extern "C" fn h_c15_target_type() {
    let mut l = ScreenLogic::new_empty(s("MainActivity")); let t = u8_(); l.events = Some(EventPool(vec![pev("onClick", 1, "button1", t)]));
    match to_api(l).ok().and_then(back) { Some(m) => match m.events.unwrap_or_default().0.first() { Some(e) => check(e.target_type == t, "a view event keeps its target type"), None => check(false, "the event is written") }, None => check(false, "the screen is converted") }
    reach("end");
}
fn vt() -> VariableType { match choose(4) { 0 => VariableType::Boolean, 1 => VariableType::Integer, 2 => VariableType::String, _ => VariableType::HashMap } }
/// 0 to 3 variables and list variables of every type, any distinct names of up to 1 byte; pools absent when empty or not. [jobs 8]
#[no_mangle] pub extern "C" fn h_c15_variables() {
    let mut l = ScreenLogic::new_empty(s("MainActivity")); let n = choose(4) as usize; let list = choose(2) == 1;
    let names = [text(1), text(1), text(1)]; assume((names[0] != names[1]) & (names[0] != names[2]) & (names[1] != names[2]));
    let (mut a, mut b) = (LinkedHashMap::new(), LinkedHashMap::new());
    for i in 0..n { let k = vt(); if list { b.insert(names[i].clone(), ListVariable { name: names[i].clone(), r#type: k }); } else { a.insert(names[i].clone(), Variable { name: names[i].clone(), r#type: k }); } }
    // and one in the other pool, under the same name
    if n == 2 { if list { a.insert(names[0].clone(), Variable { name: names[0].clone(), r#type: VariableType::Integer }); } else { b.insert(names[1].clone(), ListVariable { name: names[1].clone(), r#type: VariableType::String }); } }
    if !a.is_empty() || choose(2) == 1 { l.variables = Some(VariablePool(a.clone())) }
    if !b.is_empty() || choose(2) == 1 { l.list_variables = Some(ListVariablePool(b.clone())) }
    match to_api(l) {
        Err(_) => check(false, "the screen is converted"),
        Ok(sc) => {
            check(sc.variables.iter().eq(a.iter()), "variables are kept in order"); check(sc.list_variables.iter().eq(b.iter()), "list variables are kept in order");
            match back(sc) { Some(m) => { check(m.variables.unwrap_or_default().0.iter().eq(a.iter()), "variables are written in order"); check(m.list_variables.unwrap_or_default().0.iter().eq(b.iter()), "list variables are written in order") } None => check(false, "the screen is written under its name") }
        }
    }
    reach("end");
}
/// 0 to 3 components, every type code, free one-byte ids and parameters. [jobs 8]
#[no_mangle] pub extern "C" fn h_c15_components() {
    let mut l = ScreenLogic::new_empty(s("MainActivity")); let n = choose(4) as usize;
    let ids = [text(1), ascii(2), ascii(1)]; assume((ids[0] != ids[1]) & (ids[0] != ids[2]));
    let cs: Vec<Component> = (0..n).map(|i| { let t = if i == 0 { choose(21) as u8 + 1 } else { [6, 1, 16][i - 1] }; let p = [2, 6, 14, 16].contains(&t); Component { id: ids[i].clone(), param1: if p { if i == 0 { text(1) } else { s("pp") } } else { s("") }, param2: s(""), param3: s(""), r#type: t } }).collect();
    if n > 0 || choose(2) == 1 { l.components = Some(ComponentPool(cs.clone())) }
    match to_api(l) {
        Err(_) => check(false, "the screen is converted"),
        Ok(sc) => {
            check(sc.components.len() == n, "every component is kept");
            for (i, (id, k)) in sc.components.iter().enumerate() { check(*id == cs[i].id, "components are kept in order"); check(ComponentKind::from_parser_component(&cs[i]).ok().as_ref() == Some(k), "a component keeps its kind") }
            match back(sc) { Some(m) => { let w = m.components.unwrap_or_default().0; check(w == cs, "components are written as they were, in order") } None => check(false, "the screen is written under its name") }
        }
    }
    reach("end");
}
/// 0 to 2 more-blocks with every documented kind of parameter, free one-letter ids, each with or without code, next to an event with code; both directions. [jobs 8]
#[no_mangle] pub extern "C" fn h_c15_more() {
    let mut l = ScreenLogic::new_empty(s("MainActivity")); let n = choose(3) as usize;
    let ids = [lower(1), lower(1)]; assume(ids[0] != ids[1]); let tag = lower(1);
    const SPECS: [&str; 6] = ["go", "go %s.a", "go %d.b now", "go %b.c %m.view", "go %s %d", "go %b"];
    let mut pool = LinkedHashMap::new(); let mut has = vec![]; let mut specs = vec![];
    for i in 0..n { let sp = SPECS[choose(6) as usize].replace("go", &format!("g{}", tag)); pool.insert(ids[i].clone(), PMore { id: ids[i].clone(), spec: sp.clone() }); specs.push(sp); has.push(choose(2) == 1) }
    for i in (0..n).rev() { if has[i] { l.block_containers.insert(format!("{}_moreBlock", ids[i]), code(["mA", "mB"][i])); } }
    l.block_containers.insert(s("q_onClick"), code("click")); l.events = Some(EventPool(vec![pev("onClick", 1, "q", 0)]));
    if n > 0 || choose(2) == 1 { l.more_blocks = Some(MoreBlockPool(pool.clone())) }
    match to_api(l) {
        Err(_) => check(false, "the screen is converted"),
        Ok(sc) => {
            check(sc.more_blocks.len() == n, "every more-block is kept");
            for (i, (id, m)) in sc.more_blocks.iter().enumerate() { check(*id == ids[i] && m.name == ids[i], "more-blocks are kept in order"); check(m.spec.to_string() == specs[i], "a more-block keeps its spec"); check(ops(&m.code) == if has[i] { vec![["mA", "mB"][i]] } else { vec![] }, "a more-block has its own code") }
            check(sc.events.len() == 1 && ops(&sc.events[0].code) == vec!["click"], "an event has its own code");
            match back(sc) { Some(m) => { check(m.more_blocks.unwrap_or_default().0.iter().eq(pool.iter()), "more-blocks are written as they were, in order"); for i in 0..n { check(pops(m.block_containers.get(&format!("{}_moreBlock", ids[i]))) == if has[i] { vec![["mA", "mB"][i]] } else { vec![] }, "a more-block's code is written under its own name") } check(pops(m.block_containers.get("q_onClick")) == vec!["click"], "an event's code is written under its own name") } None => check(false, "the screen is written under its name") }
        }
    }
    reach("end");
}
/// Editing-API screens written and read again: 0-2 events of every kind behind an optional onCreate event, more-blocks, components, variables in every combination; free names. [jobs 8]
#[no_mangle] pub extern "C" fn h_c15_api() {
    let mut sc = empty_screen(); let (x, y) = (lower(1), lower(1)); assume(x != y);
    if choose(2) == 1 { sc.events.push(Event { name: s("onCreate"), event_type: EventType::ActivityEvent, code: if choose(2) == 1 { api_code("creation") } else { Blocks(vec![]) } }) }
    let n = choose(3); let mut ids: Vec<String> = vec![];
    for i in 0..n { let nm = [&x, &y][choose(2) as usize].clone(); let e = Event { name: nm, event_type: match choose(3) { 0 => EventType::ViewEvent { id: y.clone() }, 1 => EventType::ComponentEvent { id: s("cc"), component_type: u8_() }, _ => EventType::ActivityEvent }, code: if choose(2) == 1 { api_code(["eA", "eB"][i as usize]) } else { Blocks(vec![]) } }; ids.push(e.get_block_container_id()); sc.events.push(e) }
    if n == 2 { assume(ids[0] != ids[1]) }
    if choose(2) == 1 { sc.more_blocks.insert(x.clone(), MoreBlock { name: x.clone(), spec: BlockContent::parse_wo_params("go %s.a").unwrap_or(BlockContent { items: vec![] }), code: api_code("mm") }); }
    if choose(2) == 1 { sc.components.insert(y.clone(), ComponentKind::FilePicker { mime_type: x.clone() }); sc.variables.insert(x.clone(), Variable { name: x.clone(), r#type: VariableType::HashMap }); sc.list_variables.insert(y.clone(), ListVariable { name: y.clone(), r#type: VariableType::Integer }); }
    match back(sc.clone()).map(to_api) {
        Some(Ok(r)) => {
            check(r.events == sc.events, "events come back"); check(r.more_blocks.iter().eq(sc.more_blocks.iter()), "more-blocks come back"); check(r.components.iter().eq(sc.components.iter()), "components come back");
            check(r.variables.iter().eq(sc.variables.iter()) && r.list_variables.iter().eq(sc.list_variables.iter()), "variables come back"); check(r.java_name == sc.java_name, "the name comes back");
        }
        _ => check(false, "a written screen is converted"),
    }
    reach("end");
}

/// What a screen's logic must be after the trip, pools that are empty being the same as absent ones.
fn same_logic(a: &ScreenLogic, b: &ScreenLogic) {
    check(a.name == b.name, "the name is kept");
    check(a.variables.clone().unwrap_or_default().0.iter().eq(b.variables.clone().unwrap_or_default().0.iter()), "variables are kept in order");
    check(a.list_variables.clone().unwrap_or_default().0.iter().eq(b.list_variables.clone().unwrap_or_default().0.iter()), "list variables are kept in order");
    check(a.components.clone().unwrap_or_default() == b.components.clone().unwrap_or_default(), "components are kept in order");
    check(a.more_blocks.clone().unwrap_or_default().0.iter().eq(b.more_blocks.clone().unwrap_or_default().0.iter()), "more-blocks are kept in order");
    let (x, y) = (a.events.clone().unwrap_or_default().0, b.events.clone().unwrap_or_default().0);
    check(x.len() == y.len() && x.iter().zip(y.iter()).all(|(p, q)| p.event_name == q.event_name && p.event_type == q.event_type && p.target_id == q.target_id && (p.event_type == 1 || p.target_type == q.target_type)), "events are kept in order");
    for (n, c) in a.block_containers.iter() { check(pops(Some(c)) == pops(b.block_containers.get(n)), "code stays with its owner") }
    for (n, c) in b.block_containers.iter() { check(c.0.is_empty() || a.block_containers.contains_key(n), "no code appears from nowhere") }
}
fn around(l: ScreenLogic) { match to_api(l.clone()).map(|x| back(x)) { Ok(Some(m)) => { same_logic(&l, &m); match to_api(m).map(|x| back(x)) { Ok(Some(k)) => same_logic(&l, &k), _ => check(false, "the screen is converted again") } } _ => check(false, "the screen is converted") } }
fn fill(l: &mut ScreenLogic, what: usize, names: &[String]) {
    match what {
        0 => l.variables = Some(VariablePool(names.iter().enumerate().map(|(i, n)| (n.clone(), Variable { name: n.clone(), r#type: [VariableType::Boolean, VariableType::Integer, VariableType::String, VariableType::HashMap][i % 4] })).collect())),
        1 => l.list_variables = Some(ListVariablePool(names.iter().enumerate().map(|(i, n)| (n.clone(), ListVariable { name: n.clone(), r#type: [VariableType::String, VariableType::Integer, VariableType::HashMap][i % 3] })).collect())),
        2 => l.components = Some(ComponentPool(names.iter().enumerate().map(|(i, n)| { let t = (i % 21) as u8 + 1; Component { id: n.clone(), param1: if [2, 6, 14, 16].contains(&t) { format!("p{}", i) } else { s("") }, param2: s(""), param3: s(""), r#type: t } }).collect())),
        3 => { let mut e = l.events.clone().unwrap_or_default().0; for (i, n) in names.iter().enumerate() { let x = match i % 3 { 0 => pev("onClick", 1, n, 0), 1 => pev("onResult", 2, n, i as u8), _ => pev(&format!("on_{}", n), 3, &format!("on_{}", n), 0) }; if i % 5 != 4 { l.block_containers.insert(owner(&x), code(&format!("e{}", i))); } e.push(x) } l.events = Some(EventPool(e)) }
        4 => { l.more_blocks = Some(MoreBlockPool(names.iter().enumerate().map(|(i, n)| (n.clone(), PMore { id: n.clone(), spec: ["go", "go %s.a", "%d to %m.view"][i % 3].into() })).collect())); for (i, n) in names.iter().enumerate() { if i % 4 != 3 { l.block_containers.insert(format!("{}_moreBlock", n), code(&format!("m{}", i))); } } }
        _ => { l.block_containers.insert(s("onCreate_initializeLogic"), code("creation")); }
    }
}
/// Large screens: 4 to 130 variables, list variables, components, events or more-blocks, one name free. [jobs 8] [ins 90000000]
#[no_mangle] pub extern "C" fn h_c15_large() {
    let n = SIZES[choose(8) as usize]; let m = lower(1); let names: Vec<String> = (0..n).map(|i| if i == n / 2 { format!("{}_{}", m, i) } else { format!("n{}", i) }).collect();
    let mut l = ScreenLogic::new_empty(s("MainActivity")); fill(&mut l, choose(5) as usize, &names); around(l); reach("end");
}
/// Everything at once: every subset of {variables, lists, components, events, more-blocks, creation code}, filled in either order with three entries each, all under the same three names, of which one is any letter and one contains underscores. [jobs 8]
#[no_mangle] pub extern "C" fn h_c15_mixed() {
    let names = [lower(1), s("a_b"), s("moreBlock")]; let mask = choose(64); let mut l = ScreenLogic::new_empty(s("MainActivity"));
    let rev = choose(2) == 1; for i in 0..6 { let k = if rev { 5 - i } else { i }; if mask >> k & 1 == 1 { fill(&mut l, k, &names) } }
    around(l); reach("end");
}
/// Long names and texts (15 to 1025 bytes) and 36 special texts (emoji, escapes, separators, look-alikes of numbers, headers and JSON) in every place of a screen's logic. [jobs 8]
#[no_mangle] pub extern "C" fn h_c15_long() {
    let t = wide(); let mut l = ScreenLogic::new_empty(s("MainActivity"));
    match choose(9) { 5 => { l.components = Some(ComponentPool(vec![Component { id: s("c"), param1: t, param2: s(""), param3: s(""), r#type: 16 }])) } 6 => { l.events = Some(EventPool(vec![pev(&t, 1, "b", 0), pev(&t, 3, &t, 0)])); l.block_containers.insert(format!("b_{}", t), code("one")); l.block_containers.insert(format!("{}_{}", t, t), code("two")); } 7 => l.name = t, 8 => { fill(&mut l, 4, &[s("mb")]); let sp = t.replace(".", ""); assume(!sp.contains('%') && !sp.contains("  ") && sp.trim() == sp && !sp.contains('\n')); l.more_blocks = Some(MoreBlockPool([(s("mb"), PMore { id: s("mb"), spec: sp })].into_iter().collect())) } k => fill(&mut l, k as usize, &[s("z"), t, s("y")]) }
    around(l); reach("end");
}
/// Names of 1 to 24 free letters, digits and underscores for variables, lists, components, events and their targets, more-blocks and the screen; free printable parameters. [jobs 8]
#[no_mangle] pub extern "C" fn h_c15_words() {
    let mut l = ScreenLogic::new_empty(s("MainActivity")); let k = choose(10); let t = if k == 5 { any_plain() } else { any_name() };
    l.block_containers.insert(s("onCreate_initializeLogic"), code("creation")); l.block_containers.insert(s("zz_zz"), code("zz")); l.events = Some(EventPool(vec![pev("zz", 1, "zz", 0)])); assume(t != "zz");
    match k {
        5 => l.components = Some(ComponentPool(vec![Component { id: s("c"), param1: t, param2: s(""), param3: s(""), r#type: [2, 6, 14, 16][choose(4) as usize] }])),
        6 => { assume(t != "onCreate" && t != "initializeLogic"); l.events = Some(EventPool(vec![pev("zz", 1, "zz", 0), pev(&t, 3, &t, 0)])); l.block_containers.insert(format!("{}_{}", t, t), code("act")); } 7 => l.name = t,
        8 => { l.events = Some(EventPool(vec![pev("zz", 1, "zz", 0), pev(&t, 1, "b", 0)])); l.block_containers.insert(format!("b_{}", t), code("view")); } 9 => { l.events = Some(EventPool(vec![pev("onResult", 2, &t, 3), pev("zz", 1, "zz", 0)])); l.block_containers.insert(format!("{}_onResult", t), code("comp")); }
        k => fill(&mut l, k as usize, &[s("?z"), t, s("?y")]),
    }
    around(l); reach("end");
}
/// Repeated entries: components of equal kinds, events with equal names on different targets and equal targets under different names, equal code everywhere. [jobs 4]
#[no_mangle] pub extern "C" fn h_c15_repeats() {
    let m = lower(1); let mut l = ScreenLogic::new_empty(s("MainActivity")); let pat = [choose(2), choose(2), choose(2)];
    match choose(3) {
        0 => l.components = Some(ComponentPool((0..3).map(|i| Component { id: format!("{}{}", m, i), param1: if pat[i] == 0 { s("") } else { s("pp") }, param2: s(""), param3: s(""), r#type: if pat[i] == 0 { 5 } else { 6 } }).collect())),
        1 => { let e: Vec<PEvent> = (0..3).map(|i| if pat[i] == 0 { pev("onClick", 1, &format!("{}{}", m, i), 0) } else { pev(&format!("{}{}", m, i), 2, "same", 4) }).collect(); for x in &e { l.block_containers.insert(owner(x), code("equal")); } l.events = Some(EventPool(e)) }
        _ => { let mut p = LinkedHashMap::new(); for i in 0..3 { let n = format!("{}{}", m, i); p.insert(n.clone(), PMore { id: n.clone(), spec: s(["go", "go %s.a"][pat[i] as usize]) }); l.block_containers.insert(format!("{}_moreBlock", n), code("equal")); } l.more_blocks = Some(MoreBlockPool(p)) }
    }
    around(l); reach("end");
}
/// Events that share a block container (the same event listed twice, or targets and names that meet in the same container id), another event before, between or after them: every event is listed again and the code is kept, twice around.
#[no_mangle] pub extern "C" fn h_c15_shared() {
    let a = lower(1); let (x, y) = match choose(4) { 0 => (pev("onClick", 1, &a, 0), pev("onClick", 1, &a, 0)), 1 => (pev("c", 1, &format!("{a}_b"), 0), pev("b_c", 1, &a, 0)), 2 => (pev(&a, 3, &a, 0), pev(&a, 1, &a, 0)), _ => (pev("onResult", 2, &a, 3), pev("onResult", 1, &a, 0)) };
    let (x, y) = if choose(2) == 0 { (x, y) } else { (y, x) }; let id = owner(&x); check(id == owner(&y), "harness: the container is shared");
    let mut e = vec![x, y]; let z = pev("onZ", 1, "zz", 0); e.insert(choose(3) as usize, z); let mut l = ScreenLogic::new_empty(s("MainActivity"));
    l.block_containers.insert(s("zz_onZ"), code("other")); l.block_containers.insert(id.clone(), code("shared")); l.events = Some(EventPool(e.clone()));
    let mut l = l; for _ in 0..2 {
        match to_api(l.clone()).map(|x| back(x)) { Ok(Some(m)) => { check(m.events.as_ref().map(|p| p.0 == e) == Some(true), "every event is listed again"); check(pops(m.block_containers.get(&id)) == ["shared"], "the code of a shared container is kept"); check(pops(m.block_containers.get("zz_onZ")) == ["other"], "other code is kept"); l = m } _ => { check(false, "the screen is converted"); return } }
    }
    reach("end");
}
