//! C24: what an error says when it is shown together with its causes.
use crate::parse::BLOCK;
use crate::screens::{item, pev};
use crate::viewfile::{av, av_full};
use crate::vp::*;
use crate::whole::{base, cv_item, java};
use std::error::Error;
use swrs::api::block::*;
use swrs::api::component::*;
use swrs::api::screen::{Event as ScreenEvent, ScreenConstructionError as S, UnknownEventType};
use swrs::api::view::{ParseLayoutError, ViewType, ViewTypeConversionError};
use swrs::api::APISketchwareProjectConversionError as A;
use swrs::api::*;
use swrs::parser::file::*;
use swrs::parser::library::*;
use swrs::parser::logic::component::*;
use swrs::parser::logic::event::*;
use swrs::parser::logic::list_variable::*;
use swrs::parser::logic::more_block::*;
use swrs::parser::logic::variable::*;
use swrs::parser::logic::*;
use swrs::parser::resource::*;
use swrs::parser::view::*;
use swrs::parser::*;

/// `n` occurs in `t` (no split on where).
fn has(t: &str, n: &str) -> bool {
    let (t, n) = (t.as_bytes(), n.as_bytes()); if n.len() > t.len() { return false }
    let mut any = false; let mut i = 0;
    while i + n.len() <= t.len() { let mut all = true; let mut j = 0; while j < n.len() { all &= t[i + j] == n[j]; j += 1 } any |= all; i += 1 }
    any
}
/// The text of an error and of each of its causes, as an application prints them.
fn chain(e: &dyn Error) -> Vec<String> { let mut v = vec![e.to_string()]; let mut c = e.source(); while let Some(x) = c { check(v.len() < 12, "the chain of causes ends"); v.push(x.to_string()); c = x.source() } v }
/// The whole of it says `words`; it has at least `causes` causes.
fn says(e: &dyn Error, words: &[&str], causes: usize) {
    let v = chain(e); let mut i = 0;
    while i < words.len() { let mut any = false; for t in &v { any |= has(t, words[i]) } check(any, "the message names what is at fault"); i += 1 }
    check(v.len() > causes, "the message tells the cause"); check(v.iter().all(|t| !t.is_empty()), "no empty message");
}
/// The message of `cause` is one of the causes of `e`.
fn caused(e: &dyn Error, cause: &str) { let v = chain(e); let mut any = false; for t in v.iter().skip(1) { any |= t.len() == cause.len() && has(t, cause) } check(any, "the cause is in the chain") }
fn json() -> (serde_json_error::E, String) { let e = FileItem::parse("?").unwrap_err(); let t = e.to_string(); (e, t) }
mod serde_json_error { pub type E = <swrs::parser::file::FileItem as swrs::parser::Parsable>::ParseError; }
const N: [u32; 4] = [0, 9, 4096, 4294967295];
fn any_n() -> u32 { N[choose(4) as usize] }
fn w() -> String { format!("q{}", lower(2)) }

/// Errors of the logic file with any screen and container names, four lines and counts: section kinds, names, numbers, the record's own error and its text.
#[no_mangle] pub extern "C" fn h_c24_logic() {
    let (screen_name, c, line, count) = (w(), w(), any_n(), [1, 77][choose(2) as usize]); let (j, jt) = json(); let sc = screen_name.clone(); let (l, n) = (line.to_string(), count.to_string()); let bad = w();
    match choose(8) {
        0 => { let e = LogicParseError::VariablePoolParseError { screen_name, line, source: VariablePoolParseError { count, content: bad.clone(), source: VariableParseError::MalformedVariable { content: bad } } }; says(&e, &["variable", &sc, &l, &n, ":"], 2) }
        1 => { let e = LogicParseError::ListVariablePoolParseError { screen_name, line, source: ListVariablePoolParseError { count, content: bad, source: ListVariableParseError::MissingColon } }; says(&e, &["list variable", &sc, &l, &n, "colon"], 2) }
        2 => { let e = LogicParseError::ComponentPoolParseError { screen_name, line, source: ComponentPoolParseError { count, content: bad, source: j } }; says(&e, &["component", &sc, &l, &n], 2); caused(&e, &jt) }
        3 => { let e = LogicParseError::EventPoolParseError { screen_name, line, source: EventPoolParseError { count, content: bad.clone(), source: j } }; says(&e, &["event", &sc, &l, &n, &bad], 2); caused(&e, &jt) }
        4 => { let e = LogicParseError::MoreBlockPoolParseError { screen_name, line, source: MoreBlockPoolParseError { count, content: bad.clone(), source: MoreBlockParseError::MalformedMoreBlock { content: bad.clone() } } }; says(&e, &["more block", &sc, &l, &n, &bad], 2) }
        5 => { let e = LogicParseError::BlockContainerParseError { screen_name, container_name: c.clone(), line, source: BlockContainerParseError { block_count: count, source: j } }; says(&e, &["block container", &sc, &c, &l], 2); caused(&e, &jt) }
        6 => { let e = LogicParseError::BlockContainerHeaderParseError { line, source: BlockContainerHeaderParseError::DoesntStartWithAtSign }; says(&e, &["header", &l, "@"], 1) }
        _ => { let e = LogicParseError::BlockContainerHeaderParseError { line, source: BlockContainerHeaderParseError::NoContainerName }; says(&e, &["header", &l, "container name"], 1) }
    }
    reach("end");
}
/// Variables and list variables without a colon, with a type that is no number (any two letters) or a number without a meaning, and more-blocks without a colon: what is wrong and the value.
#[no_mangle] pub extern "C" fn h_c24_records() {
    let t = lower(2); let k = 4 + choose(250); let num = k.to_string();
    match choose(7) {
        0 => says(&Variable::parse(&t).unwrap_err(), &["`:`"], 0), 1 => says(&Variable::parse(&format!("{t}:x")).unwrap_err(), &[&t, "int"], 1), 2 => says(&Variable::parse(&format!("{num}:x")).unwrap_err(), &["type", &num], 0),
        3 => says(&ListVariable::parse(&t).unwrap_err(), &["colon"], 0), 4 => says(&ListVariable::parse(&format!("{t}:x")).unwrap_err(), &["integer"], 1), 5 => says(&ListVariable::parse(&format!("{num}:x")).unwrap_err(), &["type", &num], 0),
        _ => says(&MoreBlock::parse(&t).unwrap_err(), &["moreblock", &t], 0),
    }
    reach("end");
}
/// Errors of the view file and of the file, library and resource lists with any names and texts and four lines; all four headers and sections.
#[no_mangle] pub extern "C" fn h_c24_files() {
    let (a, b, line) = (w(), w(), any_n()); let l = line.to_string(); let (j, jt) = json(); let h = ["@firebaseDB", "@compat", "@admob", "@googleMap"][choose(4) as usize];
    match choose(9) {
        0 => says(&ViewParseError::InvalidHeader { line, content: a }, &["header", &l], 0),
        1 => { let e = ViewParseError::LayoutParseError { screen_name: a.clone(), container_name: b.clone(), source: LayoutParseError { source: j, view_before: None, content: s("?"), line } }; says(&e, &["layout", &a, &b, &l], 2); caused(&e, &jt) }
        2 => { let e = ViewParseError::FabParseError { screen_name: a.clone(), line, content: b, source: j }; says(&e, &["fab", &a], 1); caused(&e, &jt) }
        3 => says(&ViewParseError::EOFAfterFabHeader { screen_name: a.clone(), line }, &["EOF", "fab", &a, &l], 0),
        4 => { let e = FileParseError::FileItemParseError { source: j, line, content: a.clone() }; says(&e, &["file item", &l, &a], 1); caused(&e, &jt) }
        5 => { let k = choose(4) as usize; let e = ResourceParseError::ResourceItemParseError { source: j, section: [ResourceSection::Images, ResourceSection::Sounds, ResourceSection::Fonts, ResourceSection::None][k], line }; says(&e, &["resource item", ["Images", "Sounds", "Fonts", "None"][k], &l], 1); caused(&e, &jt) }
        6 => says(&LibraryParseError::EOFAfterHeader { header: s(h) }, &["end of file", h], 0),
        7 => { let e = LibraryParseError::LibraryItemParseError { source: j, header: s(h), line }; says(&e, &["library", h, &l], 1); caused(&e, &jt) }
        _ => says(&LibraryParseError::MissingItem { header: s(h) }, &["missing", h], 0),
    }
    reach("end");
}
/// A raw project of which one data file (any) is malformed, in a section of any name: the data file is named and the file's own error is the cause.  The same when a part cannot be written.
#[no_mangle] pub extern "C" fn h_c24_project() {
    let (j, jt) = json(); let n = w(); let k = choose(13) as usize; let name = ["project", "file", "library", "resource", "view", "logic"][k % 6];
    type P = SketchwareProjectParseError; type R = SketchwareProjectReconstructionError; let bad = lower(1); let word = format!("`{name}`");
    let mut nan = av("x"); nan.alpha = f32::NAN;
    match k {
        0 => { let e = P::ProjectParseError(j); says(&e, &[&word], 1); caused(&e, &jt) }
        1 => { let x = File::parse(&format!("@activity\n{bad}")).unwrap_err(); let t = x.to_string(); let e = P::FileParseError(x); says(&e, &[&word, &bad], 2); caused(&e, &t) }
        2 => { let x = Library::parse("@admob").unwrap_err(); let t = x.to_string(); let e = P::LibraryParseError(x); says(&e, &[&word, "@admob"], 1); caused(&e, &t) }
        3 => { let x = Resource::parse("@sounds\n?").unwrap_err(); let t = x.to_string(); let e = P::ResourceParseError(x); says(&e, &[&word, "Sounds"], 2); caused(&e, &t) }
        4 => { let x = View::parse(&format!("@{n}.xml\n?")).unwrap_err(); let t = x.to_string(); let e = P::ViewParseError(x); says(&e, &[&word, &n, "xml"], 3); caused(&e, &t) }
        5 => { let x = Logic::parse(&format!("@{n}.java_{}\n?", ["var", "list", "components", "events", "func", "b_onClick"][choose(6) as usize])).unwrap_err(); let t = x.to_string(); let e = P::LogicParseError(x); says(&e, &[&word, &n], 3); caused(&e, &t) }
        6 => { let e = R::ProjectReconstructionError(j); says(&e, &[&word], 1); caused(&e, &jt) }
        7 => { let e = R::FileReconstructionError(FileReconstructionError::FileItemReconstructionError { source: j, item: item(&n) }); says(&e, &[&word, &n], 2); caused(&e, &jt) }
        8 => { let e = R::LibraryReconstructionError(LibraryReconstructionError::LibraryItemReconstructionError { source: j, header: n.clone() }); says(&e, &[&word, &n], 2); caused(&e, &jt) }
        9 => { let e = R::ResourceReconstructionError(ResourceReconstructionError::ResourceItemReconstructionError { source: j, section: ResourceSection::Fonts, item: ResourceItem { full_name: n.clone(), name: s("x"), r#type: 1 } }); says(&e, &[&word, &n, "Fonts"], 2); caused(&e, &jt) }
        10 => { let mut v = View { layouts: Default::default(), fabs: Default::default() }; if choose(2) == 0 { v.layouts.insert(n.clone(), Layout(vec![av("y"), nan])); } else { v.fabs.insert(n.clone(), nan); } let x = v.reconstruct().unwrap_err(); let t = x.to_string(); let e = R::ViewReconstructionError(x); says(&e, &[&word, &n], 2); caused(&e, &t) }
        11 => { let b = w(); let x = ComponentPoolReconstructionError { count: 77, component: Component::new_empty(b.clone(), 1), source: json().0 }; says(&x, &["component", "77"], 1); let e = R::LogicReconstructionError(if choose(2) == 0 { LogicReconstructionError::ComponentPoolReconstructionError { screen_name: n.clone(), source: ComponentPoolReconstructionError { count: 7, component: Component::new_empty(b.clone(), 1), source: j } } } else { LogicReconstructionError::BlockContainerReconstructionError { screen_name: n.clone(), container_name: b, source: BlockContainerReconstructionError { block_count: 7, block: swrs::parser::logic::Block::parse(BLOCK).unwrap(), source: j } } }); says(&e, &[&word, &n], 3); caused(&e, &jt) }
        _ => { let f = ["nope.png", "sub/nope.mp3"][choose(2) as usize]; let e = P::ResourceFilesParseError(if choose(2) == 0 { ResourceFilesParseError::FileDoesntExist { path: f.into() } } else { ResourceFilesParseError::InvalidPath { path: f.into() } }); says(&e, &["resource files", f], 1) }
    }
    reach("end");
}
/// Errors of code: any bad id, type or value of 3 free characters, four block numbers, up to two levels of nested stacks.
#[no_mangle] pub extern "C" fn h_c24_code() {
    type E = BlockConversionError; type C = BlockContentParseError; let t = w(); let id = any_n(); let n = id.to_string();
    let c = |k: u64| match k { 0 => C::BlockNotFound { block_id: id }, 1 => C::InvalidBlockId { value: t.clone() }, 2 => C::UnknownSpecParam { name: t.clone(), full: format!("%{t}") }, 3 => C::RanOutOfArgs, 4 => C::InvalidNumberArgument { value: t.clone() }, _ => C::InvalidBooleanArgument { value: t.clone() } };
    let words: [&[&str]; 6] = [&["not found", &n], &["invalid block id", &t], &["unknown spec", &t], &["arguments"], &["number", &t], &["boolean", &t]];
    let k = choose(10); if k < 6 { says(&c(k), words[k as usize], 0) }
    let d = choose(3); let mut e = match k { 0..=5 => E::BlockContentParseError { source: c(k) }, 6 => E::MalformedBlockId { id: t.clone(), source: "x".parse::<u32>().unwrap_err() }, 7 => E::BlockNotFound { id }, 8 => E::InvalidType { source: InvalidBlockType { block_type: t.clone(), type_name: s("View") } }, _ => E::InvalidType { source: InvalidBlockType { block_type: s("l"), type_name: t.clone() } } };
    let inner = e.to_string(); let mut kinds = [false; 2]; for i in 0..d { let k = choose(2); kinds[k as usize] = true; e = if k == 0 { E::Substack1ParseError { id: 500 + i as u32, sub_stack1_pointer: 8, source: Box::new(e) } } else { E::Substack2ParseError { id: 500 + i as u32, sub_stack2_pointer: 8, source: Box::new(e) } } }
    match k { 0..=5 => { let x = c(k).to_string(); caused(&e, &x); says(&e, words[k as usize], d as usize + 1) } 6 => says(&e, &["block id", &t], d as usize + 1), 7 => says(&e, &["not found", &n], d as usize), 8 => says(&e, &["invalid block type", &t], d as usize + 1), _ => says(&e, &["invalid block type", &t, "`l`"], d as usize + 1) }
    if d > 0 { caused(&e, &inner); says(&e, &["substack", "500", "`50"], d as usize); if d > 1 { says(&e, &["501"], 2) } if kinds[0] { says(&e, &["substack1"], 1) } if kinds[1] { says(&e, &["substack2"], 1) } }
    reach("end");
}
/// Errors of converting a project: any names of screen, custom view, library, resource, container, more-block, component, event, view and parent.
#[no_mangle] pub extern "C" fn h_c24_conversion() {
    let (a, b) = (w(), w()); let k = choose(10); let ty = [0u8, 22, 99, 255][choose(4) as usize]; let n = ty.to_string();
    let inside = |x: S, words: &[&str], causes: usize| { let t = x.to_string(); let e = A::ScreenConstructionError { java_screen_name: java("zz"), layout_screen_name: s("scr"), source: x }; says(&e, words, causes); says(&e, &["screen", "scr"], 1); caused(&e, &t) };
    match k {
        0 => inside(S::MoreBlockSpecParseError { moreblock_id: a.clone(), source: BlockContentParseError::UnknownSpecParam { name: b.clone(), full: s("%") } }, &["moreblock", &a, &b], 2),
        1 => inside(S::BlocksParseError { container_name: a.clone(), source: BlockConversionError::BlockNotFound { id: 77 } }, &["container", &a, "77"], 2),
        2 => inside(S::UnknownEventType(UnknownEventType { event_name: a.clone(), event_type: ty }), &["event", &a, &n], 1),
        3 => inside(S::UnknownComponentType(UnknownComponentType { component_type: ty, component_id: a.clone() }), &["component", &a, &n], 1),
        4 => { says(&ParseLayoutError::NonexistentParent { view_id: a.clone(), parent_id: b.clone() }, &["parent", &a, &b], 0); says(&ParseLayoutError::NoParentField { view_id: a.clone() }, &["parent", &a], 0); inside(S::LayoutParseError(ParseLayoutError::NonexistentParent { view_id: a.clone(), parent_id: b.clone() }), &["layout", &a, &b], 2) }
        5 => says(&A::MissingCustomViewLayout { custom_view_id: a.clone() }, &["layout", "custom view", &a], 0),
        6 => { let x = if choose(2) == 0 { ParseLayoutError::NoParentField { view_id: b.clone() } } else { ParseLayoutError::NonexistentParent { view_id: b.clone(), parent_id: s("p") } }; let t = x.to_string(); let e = A::CustomViewParseLayoutError { custom_view_id: a.clone(), source: x }; says(&e, &["custom view", &a, &b, "parent"], 1); caused(&e, &t) }
        7 => says(&A::InvalidUseYNValue { library_name: a.clone(), value: b.clone() }, &[&a, &b], 0),
        8 => says(&A::MissingResourceFile { res_name: a.clone(), res_full_name: b, res_type: ResourceType::Image }, &["resource file", &a], 0),
        _ => match choose(4) { 0 => says(&ResourceAdditionError::IdTaken { id: ResourceId(a.clone()) }, &["taken", &a], 0), 1 => says(&ResourceAdditionError::FileDoesntExist { path: "nope.png".into() }, &["nope.png", "exist"], 0), 2 => says(&ViewTypeConversionError::UnknownViewType { view_type: ty, view_id: a.clone() }, &["view", &a, &n], 0), _ => says(&ViewTypeConversionError::ResNameNotPresent { view_id: a.clone() }, &["res_name", &a], 0) },
    }
    reach("end");
}
/// Real failures of converting a project with a screen of any name: bad spec or code, component, event, layout, missing files, flags, view types. [jobs 4]
#[no_mangle] pub extern "C" fn h_c24_real() {
    let nm = w(); let b = w(); let mut p = base(); let mut l = ScreenLogic::new_empty(java(&nm)); let k = choose(9);
    match k {
        0 => { l.more_blocks = Some(MoreBlockPool::parse(&format!("{b}:do %z")).unwrap()) } 1 => { let mut x = crate::logic::block("1", "a"); x.next_block = 77; l.block_containers.insert(s("onCreate_initializeLogic"), BlockContainer(vec![x])); }
        2 => l.components = Some(ComponentPool(vec![Component::new_empty(b.clone(), 99)])), 3 => l.events = Some(EventPool(vec![pev(&b, 99, "x", 0)])),
        4 => { let mut v = av("v1"); v.parent = Some(b.clone()); p.view.layouts.insert(nm.clone(), Layout(vec![v])); }
        5 => { p.file.custom_views.push(cv_item(&b)); } 6 => { p.library.admob.use_yn = b.clone() }
        7 => { p.resource.sounds.push(ResourceItem { full_name: s("x.mp3"), name: b.clone(), r#type: 1 }); p.resource_files = Some(ResourceFiles::default()) }
        _ => { let mut v = av_full(); v.id = b.clone(); v.r#type = 99; match ViewType::from_view(&v) { Err(e) => says(&e, &[&b, "99"], 0), Ok(_) => check(false, "an unknown view type is an error") } reach("end"); return }
    }
    p.logic.screens.insert(l.name.clone(), l); p.file.activities.push(item(&nm));
    match swrs::api::SketchwareProject::try_from(p) {
        Ok(_) => check(false, "a broken project is an error"),
        Err(e) => { if k < 5 { says(&e, &["screen", &nm], if k == 2 || k == 3 { 1 } else { 2 }) } match k { 0 => says(&e, &["moreblock", &b, "z"], 2), 1 => says(&e, &["onCreate_initializeLogic", "77"], 2), 2 => says(&e, &["component", &b, "99"], 1), 3 => says(&e, &["event", &b, "99"], 1), 4 => says(&e, &["v1", &b], 2), 5 => says(&e, &["custom view", &b], 0), 6 => says(&e, &["admob", &b], 0), _ => says(&e, &["resource", &b], 0) } }
    }
    reach("end");
}
/// Decryption failures and colours or events without a meaning: the message and its cause.
#[no_mangle] pub extern "C" fn h_c24_other() {
    let t = w(); let ty = [0u8, 4, 99, 255][choose(4) as usize];
    match choose(5) {
        0 => { let n = choose(16) as usize; match swrs::decrypt_sw_encrypted(&bytes(n)) { Err(e) => says(&e, &["decryption"], 1), Ok(_) => check(false, "a partial block is an error") } }
        1 => { let e = swrs::CryptoError::from(std::io::Error::new(std::io::ErrorKind::Other, t.as_str())); says(&e, &["io error", &t], 1) }
        2 => { let v = [0u32, 0xff010203, 0x7fabcdef, 0xffffffff][choose(4) as usize]; match BlockCategory::try_from(swrs::color::Color::from(v)) { Err(e) => says(&e, &[&format!("{:#010x}", v)], 0), Ok(_) => check(false, "an unknown colour is an error") } }
        3 => match ScreenEvent::try_from(pev(&t, ty, "x", 0)) { Err(e) => says(&e, &["event", &t, &ty.to_string()], 0), Ok(_) => check(false, "an unknown event type is an error") },
        _ => match ComponentKind::from_parser_component(&Component::new_empty(t.clone(), if ty == 4 { 22 } else { ty })) { Err(e) => says(&e, &["component", &t, &(if ty == 4 { 22 } else { ty }).to_string()], 0), Ok(_) => check(false, "an unknown component type is an error") },
    }
    reach("end");
}
