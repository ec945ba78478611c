//! C12: view trees.  C13: typed view properties.
use crate::viewfile::{av, av_full, vary, wild};
use crate::vp::*;
use swrs::api::view::*;
use swrs::color::Color;
use swrs::parser::view::models::layout::gravity::Gravity;
use swrs::parser::view::models::*;
use swrs::parser::view::Layout;

/// The tree without its parent links (which only the flat list is about).
fn norm(mut v: View) -> View { v.raw.parent = None; v.raw.parent_type = 0; v.children = v.children.into_iter().map(norm).collect(); v }
fn normf(f: Vec<View>) -> Vec<View> { f.into_iter().map(norm).collect() }
/// Adds the nodes of a tree, each with its parent's id and type code and its position in preorder.
fn collect<'a>(f: &'a [View], parent: &'a str, ty: u8, out: &mut Vec<(&'a View, &'a str, u8)>) { for v in f { out.push((v, parent, ty)); collect(&v.children, &v.id, v.view.as_ref().map(|x| x.get_type_id()).unwrap_or(v.raw.r#type), out) } }
/// Node number i of a test tree; record and type vary with i (including unrecognised types and unusable image views).
fn node(i: usize, id: &str) -> View { node_(i, id, Free::All) }
#[derive(Clone, Copy, PartialEq)] enum Free { All, Some, No }
fn node_(i: usize, id: &str, free: Free) -> View {
    let mut a = av(id); let w = 40 + i as u32;
    a.parent_type = 77; a.index = i as u32;
    match free { Free::All => wild(&mut a), _ => { a.layout.padding_top = 1 + w; a.layout.weight = w; a.text.text = format!("t{}", i) } }
    if free == Free::Some { a.index = u32_(); a.pre_parent = Some(ascii(1)); a.pre_index = i32_(); a.layout.weight = u32_() }
    a.r#type = [0, 12, 3, 99, 6, 2, 16, 7, 1, 8, 13, 4][i % 12]; a.parent = Some(s("gone")); a.image.res_name = if i % 12 == 6 { Some(s("r")) } else { None };
    View::from(a)
}
/// Builds the forest in which node i hangs under `par[i]` (0 = root, k+1 = node k), in order.
fn forest(par: &[usize], ids: &[String]) -> Vec<View> { forest_(par, ids, Free::All, 0) }
fn forest_(par: &[usize], ids: &[String], free: Free, rot: usize) -> Vec<View> {
    let n = par.len(); let mut vs: Vec<Option<View>> = (0..n).map(|i| Some(node_(i + rot, &ids[i], free))).collect();
    let mut top = vec![];
    for i in (0..n).rev() { let v = vs[i].take().unwrap(); if par[i] == 0 { top.insert(0, v) } else { vs[par[i] - 1].as_mut().unwrap().children.insert(0, v) } }
    top
}
fn flat_ok(f: &[View], l: &[AndroidView]) {
    let mut all = vec![]; collect(f, "root", 0, &mut all);
    check(l.len() == all.len(), "every view is written exactly once");
    let mut last: Vec<(&str, usize)> = vec![];
    for (v, p, t) in &all {
        let at = match l.iter().position(|x| x.id == v.id) { Some(x) => x, None => { check(false, "every view is written"); return } };
        check(l[at].parent.as_deref() == Some(*p), "a view names its parent");
        check(l[at].parent_type == *t as i8, "a view names its parent's type");
        if expose(&v.raw).as_ref() == v.view.as_ref().ok() { let mut w = v.raw.clone(); w.parent = l[at].parent.clone(); w.parent_type = l[at].parent_type; check(l[at] == w, "a view keeps its own record") }
        if *p != "root" { match l.iter().position(|x| x.id == *p) { Some(x) => check(x < at, "parents come before their children"), None => check(false, "the parent is in the list") } }
        if let Some(x) = last.iter().find(|x| x.0 == *p) { check(x.1 < at, "siblings keep their order") }
        last.retain(|x| x.0 != *p); last.push((p, at));
    }
}
fn trip(f: Vec<View>) {
    let l = flatten_views(f.clone(), None, None);
    flat_ok(&f, &l);
    match parse_raw_layout(Layout(l)) { Ok(g) => check(normf(g) == normf(f), "rebuilding gives the same tree"), Err(_) => check(false, "a flattened tree is rebuilt") }
}
fn shape(n: usize) -> Vec<usize> { (0..n).map(|i| choose(i as u64 + 1) as usize).collect() }
fn ids(n: usize) -> Vec<String> { (0..n).map(|i| format!("v{}", i)).collect() }
/// Every forest of 0 to 5 views (any parent among the earlier ones or the root), flattened and rebuilt; all fields of every record free, 12 assignments of view types (known, unknown, unusable) to the views. [jobs 8]
#[no_mangle] pub extern "C" fn h_c12_trees() { let n = choose(6) as usize; let p = shape(n); let r = choose(12) as usize; trip(forest_(&p, &ids(n), Free::All, r)); reach("end"); }
/// Every forest of 6 or 7 views, records partly free. [jobs 8]
#[no_mangle] pub extern "C" fn h_c12_trees7() { let n = 6 + choose(2) as usize; let p = shape(n); trip(forest_(&p, &ids(n), Free::Some, 4)); reach("end"); }
/// Every forest of 8 views. [jobs 8] [time 900]
#[no_mangle] pub extern "C" fn h_c12_trees_t() { let n = 8; let p = shape(n); trip(forest_(&p, &ids(n), Free::Some, 0)); reach("end"); }
/// Every forest of 3 views whose ids are any distinct UTF-8 texts of 1 or 2 bytes other than "root". [jobs 8]
#[no_mangle] pub extern "C" fn h_c12_ids() {
    let p = shape(3); let ids = [text(1), { let k = choose(2) as usize; text(k + 1) }, text(1)];
    assume((ids[0] != ids[1]) & (ids[0] != ids[2]) & (ids[1] != ids[2]));
    trip(forest(&p, &ids)); reach("end");
}
/// Chains of up to 70 nested views, flat lists of up to 70 views and combs of both; partly free records.
#[no_mangle] pub extern "C" fn h_c12_long() {
    let n = [2usize, 8, 17, 33, 70][choose(5) as usize]; let k = choose(3);
    let par: Vec<usize> = (0..n).map(|i| match k { 0 => i, 1 => 0, _ => if i % 2 == 0 { i } else { i.saturating_sub(1) } }).collect();
    trip(forest_(&par, &ids(n), Free::Some, 0)); reach("end");
}
/// Looking up every view of a chain of 20, 40, 70 or 140 nested views, of a flat list and of a comb of that size, by both lookups; one view, at the end or in the middle, has the empty id, an id of blanks or a free one of three letters. [jobs 8]
#[no_mangle] pub extern "C" fn h_c12_find_deep() {
    let n = [20usize, 40, 70, 140][choose(4) as usize]; let k = choose(3);
    let par: Vec<usize> = (0..n).map(|i| match k { 0 => i, 1 => (i > 0) as usize, _ => if i % 2 == 0 { i } else { (i - 1).max(1) } }).collect();
    let mut id = ids(n); let at = [n - 1, n / 2, 0][choose(3) as usize]; id[at] = match choose(3) { 0 => s(""), 1 => s(" "), _ => lower(3) };
    for (i, x) in id.iter().enumerate() { if i != at { assume(*x != id[at]) } }
    let mut f = forest_(&par, &id, Free::No, 0); check(f.len() == 1, "one tree"); let v = &mut f[0];
    for x in id.iter() { check(v.find_id(x).map(|y| y.id == *x) == Some(true), "a view of the tree is found"); check(v.find_id_mut(x).map(|y| y.id == *x) == Some(true), "a view of the tree is found for editing") }
    check(v.find_id("v9x").is_none() && v.find_id_mut("v9x").is_none(), "another id is not found"); reach("end");
}
/// Parent type codes: a parent of any type code 0..=127 (typed or not) with a child and a grandchild.
#[no_mangle] pub extern "C" fn h_c12_types() {
    let t = u8_(); assume(t < 128);
    let mut a = av("p"); a.r#type = t; if choose(2) == 1 { a.image.res_name = Some(s("r")) }
    let mut p = View::from(a); let mut c = node(1, "c"); c.children.push(node(2, "g")); p.children.push(c);
    trip(vec![p]); reach("end");
}
/// A view of any of the 256 type codes whose typed part was replaced by any of the 18 kinds, over a child and a grandchild of which one was replaced likewise. [jobs 8]
#[no_mangle] pub extern "C" fn h_c12_retype() {
    let t = u8_(); let mut a = av("p"); wild(&mut a); a.r#type = t; if choose(2) == 1 { a.image.res_name = None }
    let mut p = View::from(a); let mut c = node(1, "c"); let mut b = av_full(); b.r#type = CODES[choose(18) as usize];
    let e = match expose(&b) { Some(e) => e, None => { assume(false); return } };
    if choose(2) == 1 { c.view = Ok(e) } else { p.view = Ok(e); }
    c.children.push(node(2, "g")); p.children.push(c); p.children.push(node(3, "d"));
    let f = vec![p, node(4, "q")]; let l = flatten_views(f.clone(), None, None);
    assume(t < 128); flat_ok(&f, &l); reach("end");
}
/// Flattening under a given parent: any one-byte parent id and any parent type below 128, forests of up to 3 views.
#[no_mangle] pub extern "C" fn h_c12_under() {
    let id = text(1); let t = u8_(); assume(t < 128); let n = choose(3) as usize + 1; let par = shape(n);
    let f = forest(&par, &ids(n)); let mut all = vec![]; collect(&f, "?", 0, &mut all);
    let l = flatten_views(f.clone(), Some(id.clone()), Some(t));
    check(l.len() == n, "every view is written exactly once");
    for (v, p, ty) in &all { match l.iter().find(|x| x.id == v.id) { Some(x) => if *p == "?" { check(x.parent.as_ref() == Some(&id) && x.parent_type == t as i8, "the given parent is used") } else { check(x.parent.as_deref() == Some(*p) && x.parent_type == *ty as i8, "a view names its parent") }, None => check(false, "every view is written") } }
    reach("end");
}
/// Rebuilding arbitrary flat lists of 1 to 4 views, each naming the root, itself, any other view (earlier or later), an unknown view or nothing: all links resolvable backwards gives exactly that tree; a missing, unknown or own parent is an error; forward links give an error or the whole tree. [jobs 8]
#[no_mangle] pub extern "C" fn h_c12_rebuild() {
    let n = choose(4) as usize + 1; rebuild(n); reach("end");
}
/// The same with 5 views. [jobs 8] [time 900]
#[no_mangle] pub extern "C" fn h_c12_rebuild_t() { rebuild(5); reach("end"); }
fn rebuild(n: usize) {
    // 0 root, 1..=n view k-1, n+1 unknown, n+2 none
    let par: Vec<usize> = (0..n).map(|_| choose(n as u64 + 3) as usize).collect();
    let id = ids(n);
    let l: Vec<AndroidView> = (0..n).map(|i| { let mut a = node(i, &id[i]).raw; a.parent = if par[i] == 0 { Some(s("root")) } else if par[i] <= n { Some(id[par[i] - 1].clone()) } else if par[i] == n + 1 { Some(s("nobody")) } else { None }; a }).collect();
    let bad = (0..n).any(|i| par[i] > n || par[i] == i + 1);
    let forward = (0..n).any(|i| par[i] <= n && par[i] > i + 1);
    // does every view lead up to the root?
    let rooted = !bad && (0..n).all(|i| { let mut k = i; let mut steps = 0; loop { if par[k] == 0 { break true } k = par[k] - 1; steps += 1; if steps > n { break false } } });
    let l0 = l.clone();
    match parse_raw_layout(Layout(l)) {
        Err(_) => check(bad || forward, "a list whose parents are all known is rebuilt"),
        Ok(f) => {
            check(!bad, "a missing or unknown parent is an error");
            check(rooted, "a view that is not under the root is an error");
            let mut all = vec![]; collect(&f, "root", 0, &mut all);
            check(all.len() == n, "every view is in the tree");
            for i in 0..n { match all.iter().find(|x| x.0.id == id[i]) { Some((v, p, _)) => { check(*p == if par[i] == 0 { "root" } else { &id[par[i] - 1] }, "a view is under the parent it names"); check(v.raw == l0[i], "a view keeps its record") } None => check(false, "every view is in the tree") } }
            // siblings in list order
            let mut prev: Vec<(&str, &str)> = vec![];
            for (v, p, _) in &all { if let Some(x) = prev.iter().find(|x| x.0 == *p) { check(x.1 < v.id.as_str(), "siblings keep their order") } prev.retain(|x| x.0 != *p); prev.push((p, &v.id)) }
        }
    }
}
/// Flat lists of 3 to 5 views whose ids may repeat (two ids), each under the root or under an id already listed: every view comes out once, with its record, under a view of the id it names, and siblings keep their order. [jobs 8]
#[no_mangle] pub extern "C" fn h_c12_twins() {
    let n = 3 + choose(3) as usize; let mut l: Vec<AndroidView> = vec![];
    for i in 0..n {
        let id = if i > 0 && choose(2) == 1 { "b" } else { "a" }; let p = match choose(3) { 0 => "root", 1 => "a", _ => "b" };
        assume(p == "root" || l.iter().any(|x| x.id == p)); let mut a = av(id); a.r#type = [0, 3, 12, 4, 2][i]; a.index = 10 + i as u32; a.parent = Some(s(p)); l.push(a);
    }
    match parse_raw_layout(Layout(l.clone())) {
        Err(_) => check(false, "a list whose parents are all known is rebuilt"),
        Ok(f) => {
            let mut all = vec![]; collect(&f, "root", 0, &mut all);
            check(all.len() == n, "every view is in the tree");
            for a in &l { let m: Vec<_> = all.iter().filter(|x| x.0.raw.index == a.index).collect(); check(m.len() == 1, "every view is in the tree once"); if let [(v, p, _)] = m[..] { check(v.raw == *a && v.id == a.id, "a view keeps its record"); check(a.parent.as_deref() == Some(*p), "a view is under a view of the id it names") } }
            fn sorted(f: &[View]) -> bool { f.windows(2).all(|w| w[0].raw.index < w[1].raw.index) && f.iter().all(|v| sorted(&v.children)) }
            check(sorted(&f), "siblings keep their order");
        }
    }
    reach("end");
}
/// Looking a view up by id: every view of every forest of up to 4 views is found as itself, any other one-byte or two-byte id is not found; changes through the mutable lookup land in that view only. [jobs 8]
#[no_mangle] pub extern "C" fn h_c12_find() {
    let n = choose(4) as usize + 1; let par = shape(n); let id = ids(n); let mut f = forest(&par, &id);
    let want = text(2);
    // what is under view number k
    let under = |k: usize, i: usize| { let mut x = i; loop { if x == k { break true } if par[x] == 0 { break false } x = par[x] - 1 } };
    for v in f.iter_mut() {
        let num = |v: &View| id.iter().position(|x| *x == v.id).unwrap_or(99);
        let k: usize = num(v);
        let hit = (0..n).find(|i| id[*i] == want && under(k, *i));
        match v.find_id(&want) { Some(x) => check(hit.is_some() && x.id == want && Some(num(x)) == hit, "the view found has the id"), None => check(hit.is_none(), "a view of the tree is found") }
        let before = v.clone();
        match v.find_id_mut(&want) { Some(x) => { check(hit.is_some() && Some(num(x)) == hit, "the view found for editing has the id"); x.weight = 1000 } None => check(hit.is_none(), "a view of the tree is found for editing") }
        let (mut a, mut b) = (vec![], vec![]); collect(std::slice::from_ref(&before), "r", 0, &mut a); collect(std::slice::from_ref(&*v), "r", 0, &mut b);
        for i in 0..a.len() { check(a[i].0.weight == b[i].0.weight || (a[i].0.id == want && b[i].0.weight == 1000), "only the view found is changed") }
    }
    reach("end");
}
/// Looking every view up in every forest of 5 or 6 views, by both lookups; another id is not found. [jobs 8]
#[no_mangle] pub extern "C" fn h_c12_find6() {
    let n = choose(2) as usize + 5; let par = shape(n); let id = ids(n); let mut f = forest_(&par, &id, Free::No, 0);
    let under = |k: usize, i: usize| { let mut x = i; loop { if x == k { break true } if par[x] == 0 { break false } x = par[x] - 1 } };
    for v in f.iter_mut() {
        let k = id.iter().position(|x| *x == v.id).unwrap_or(99);
        for (i, w) in id.iter().enumerate() {
            check(v.find_id(w).map(|x| &x.id) == if under(k, i) { Some(w) } else { None }, "a view of the tree is found");
            check(v.find_id_mut(w).map(|x| &x.id) == if under(k, i) { Some(w) } else { None }, "a view of the tree is found for editing");
        }
        check(v.find_id("v9").is_none() && v.find_id_mut("v9").is_none(), "another id is not found");
    }
    reach("end");
}
/// A flattened tree written to a layout section and read back rebuilds the same tree: every forest of up to 3 views with free one-byte texts. [jobs 8]
#[no_mangle] pub extern "C" fn h_c12_text() {
    use swrs::parser::Parsable;
    let n = choose(4) as usize; let p = shape(n); let mut f = forest_(&p, &ids(n), Free::No, 0);
    if n > 0 { let t = text_upto(2); f[0].raw.text.text = t.clone(); f[0].view = Ok(ViewType::Button { text: t, text_color: Color::from(0xff00ff00), text_size: 9, text_style: text::TextType::Bold }); f[0].raw.r#type = 3; f[0].raw.text.text_color = Color::from(0xff00ff00); f[0].raw.text.text_size = 9; f[0].raw.text.text_type = text::TextType::Bold; }
    let l = Layout(flatten_views(f.clone(), None, None));
    match l.reconstruct().map_err(|_| ()).and_then(|t| { observe(t.as_bytes()); Layout::parse(&t).map_err(|_| ()) }) {
        Ok(m) => { check(m == l, "the flat list survives the layout section"); match parse_raw_layout(m) { Ok(g) => check(normf(g) == normf(f), "rebuilding gives the same tree"), Err(_) => check(false, "a written tree is rebuilt") } }
        Err(_) => check(n == 0, "a flattened tree is written and read"),
    }
    reach("end");
}

// ---------------------------------------------------------------- C13
/// What a record of each type code shows (None: not recognised).
fn expose(v: &AndroidView) -> Option<ViewType> {
    let (t, l, r) = (&v.text, &v.layout, v.image.res_name.clone());
    use layout::Orientation::*;
    Some(match v.r#type {
        0 => ViewType::LinearLayout { orientation: l.orientation, gravity: l.gravity }, 2 => ViewType::ScrollView { orientation: Horizontal, gravity: l.gravity }, 12 => ViewType::ScrollView { orientation: Vertical, gravity: l.gravity },
        3 => ViewType::Button { text: t.text.clone(), text_color: t.text_color, text_size: t.text_size, text_style: t.text_type },
        4 => ViewType::TextView { text: t.text.clone(), text_color: t.text_color, text_size: t.text_size, single_line: t.single_line, text_font: t.text_font.clone(), text_style: t.text_type, lines: t.line },
        5 => ViewType::EditText { text: t.text.clone(), text_color: t.text_color, text_size: t.text_size, single_line: t.single_line, text_font: t.text_font.clone(), text_style: t.text_type, lines: t.line, hint: t.hint.clone(), hint_color: t.hint_color, ime_option: t.ime_option, input_type: t.input_type },
        6 => ViewType::ImageView { image_res_name: r?, image_scale_type: v.image.scale_type }, 7 => ViewType::WebView,
        8 => ViewType::ProgressBar { max_progress: v.max, progress: v.progress, indeterminate: v.indeterminate, progress_style: v.progress_style.clone() },
        9 => ViewType::ListView { divider_height: v.divider_height, custom_view: v.custom_view.clone() }, 10 => ViewType::Spinner { spinner_mode: v.spinner_mode },
        11 => ViewType::CheckBox { checked: v.checked, text: t.text.clone(), text_color: t.text_color, text_size: t.text_size, text_font: t.text_font.clone(), text_style: t.text_type },
        13 => ViewType::Switch { checked: v.checked, text: t.text.clone(), text_color: t.text_color, text_size: t.text_size, text_font: t.text_font.clone(), text_style: t.text_type },
        14 => ViewType::SeekBar { max_progress: v.max, progress: v.progress }, 15 => ViewType::CalendarView { first_day_of_week: v.first_day_of_week }, 16 => ViewType::Fab { image_res_name: r? }, 17 => ViewType::AdView { adview_size: v.ad_size.clone() }, 18 => ViewType::MapView,
        _ => return None,
    })
}
/// Copies into `to` the fields of `from` that a record of type code `t` shows.
fn copy(t: u8, from: &AndroidView, to: &mut AndroidView) {
    let (a, b) = (&from.text, &mut to.text);
    if [3, 4, 5, 11, 13].contains(&t) { b.text = a.text.clone(); b.text_color = a.text_color; b.text_size = a.text_size; b.text_type = a.text_type; }
    if [4, 5].contains(&t) { b.single_line = a.single_line; b.line = a.line; }
    if [4, 5, 11, 13].contains(&t) { b.text_font = a.text_font.clone(); }
    if t == 5 { b.hint = a.hint.clone(); b.hint_color = a.hint_color; b.ime_option = a.ime_option; b.input_type = a.input_type; }
    match t { 0 => { to.layout.orientation = from.layout.orientation; to.layout.gravity = from.layout.gravity } 2 | 12 => to.layout.gravity = from.layout.gravity, 6 => { to.image.res_name = from.image.res_name.clone(); to.image.scale_type = from.image.scale_type }
        8 => { to.max = from.max; to.progress = from.progress; to.indeterminate = from.indeterminate; to.progress_style = from.progress_style.clone() } 9 => { to.divider_height = from.divider_height; to.custom_view = from.custom_view.clone() } 10 => to.spinner_mode = from.spinner_mode,
        11 | 13 => to.checked = from.checked, 14 => { to.max = from.max; to.progress = from.progress } 15 => to.first_day_of_week = from.first_day_of_week, 16 => to.image.res_name = from.image.res_name.clone(), 17 => to.ad_size = from.ad_size.clone(), _ => {} }
    to.r#type = t;
}
fn common_ok(v: &View, a: &AndroidView) {
    check(v.id == a.id && v.children.is_empty(), "a view shows its id");
    check(v.background_color == a.layout.background_color && v.height == a.layout.height && v.width == a.layout.width && v.layout_gravity == a.layout.layout_gravity, "a view shows its colour, size and gravity");
    check(v.weight == a.layout.weight && v.weight_sum == a.layout.weight_sum, "a view shows its weights");
    check(v.padding == SidesValue { top: a.layout.padding_top, right: a.layout.padding_right, bottom: a.layout.padding_bottom, left: a.layout.padding_left }, "a view shows its padding");
    check(v.margin == SidesValue { top: a.layout.margin_top, right: a.layout.margin_right, bottom: a.layout.margin_bottom, left: a.layout.margin_left }, "a view shows its margins");
    check(v.raw == *a, "the raw record is kept");
}
/// Type code: each of the defined ones, or any other one.
fn code() -> u8 { let k = choose(20) as u8; if k < 19 && k != 1 { k } else if k == 1 { 1 } else { let t = u8_(); assume(t > 18); t } }
fn written(v: View) -> Option<AndroidView> { let mut l = flatten_views(vec![v], None, None); check(l.len() == 1, "one view is written"); l.pop() }
fn expect(a: &AndroidView) -> AndroidView { let mut a = a.clone(); a.parent = Some(s("root")); a.parent_type = 0; a }
/// Every type code (all 256) with every field of the record in turn free: the typed view shows exactly that record, and writing it unmodified gives the record back. [jobs 8]
#[no_mangle] pub extern "C" fn h_c13_show() {
    let mut a = av_full(); a.r#type = code(); vary(&mut a);
    let v = View::from(a.clone());
    common_ok(&v, &a);
    match (&v.view, expose(&a)) { (Ok(t), Some(e)) => { check(*t == e, "the typed view shows the record's fields"); check(t.get_type_id() == a.r#type, "the typed view has the record's type") } (Err(_), None) => {} _ => check(false, "exactly the known types are recognised") }
    if let Err(ViewTypeConversionError::UnknownViewType { view_type, view_id }) = &v.view { check(*view_type == a.r#type && *view_id == a.id, "the error names the view") }
    match written(v) { Some(w) => check(w == expect(&a), "an unmodified view is written as it was"), None => check(false, "one view is written") }
    reach("end");
}
/// A record with fields that differ from `av_full` in every exposed property.
fn other() -> AndroidView {
    let mut b = av_full(); b.ad_size = s("AS"); b.checked = false; b.custom_view = s("CV"); b.divider_height = 111; b.first_day_of_week = 2; b.image.res_name = Some(s("RN")); b.image.scale_type = image::ImageScaleType::CenterCrop; b.indeterminate = false;
    b.layout.gravity = Gravity(5); b.layout.orientation = layout::Orientation::Vertical; b.max = 230; b.progress = 240; b.progress_style = s("PS"); b.spinner_mode = SpinnerMode::Dropdown;
    b.text = TextConfig { hint: s("HI"), hint_color: Color::from(0x11), ime_option: text::ImeOption::Send, input_type: text::InputType::Password, line: 250, single_line: false, text: s("TX"), text_color: Color::from(0x22), text_font: s("TF"), text_size: 260, text_type: text::TextType::Bold };
    b
}
const CODES: [u8; 18] = [0, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18];
fn edit(a: AndroidView, to: u8, b: &AndroidView) {
    let mut b = b.clone(); b.r#type = to;
    let e = match expose(&b) { Some(e) => e, None => { assume(false); return } };
    let mut v = View::from(a.clone()); v.view = Ok(e);
    let mut want = expect(&a); copy(to, &b, &mut want);
    match written(v) {
        Some(mut w) => {
            // the orientation of a scroll view is its type; the record's own orientation field may be kept or follow it
            if to == 2 || to == 12 { check(w.layout.orientation == want.layout.orientation || w.layout.orientation == if to == 12 { layout::Orientation::Vertical } else { layout::Orientation::Horizontal }, "orientation of an edited scroll view"); w.layout.orientation = want.layout.orientation }
            check(w.r#type == to, "the new type is written"); check(w == want, "the edit is written and everything else is kept")
        }
        None => check(false, "one view is written"),
    }
}
/// Replacing the typed part of a view of any of the 256 type codes by one of any of the 18 kinds, all exposed properties different. [jobs 8]
#[no_mangle] pub extern "C" fn h_c13_retype() { let mut a = av_full(); a.r#type = code(); if choose(2) == 1 { a.image.res_name = None } let to = CODES[choose(18) as usize]; edit(a, to, &other()); reach("end"); }
/// For each of the 18 kinds, editing the typed part with every one of its properties in turn free. [jobs 8]
#[no_mangle] pub extern "C" fn h_c13_edit() {
    let to = CODES[choose(18) as usize]; let mut a = av_full(); a.r#type = to;
    let mut b = if choose(2) == 0 { a.clone() } else { other() }; vary(&mut b);
    edit(a, to, &b); reach("end");
}
/// Editing each property common to all views (id, colour, size, padding, margin, weights, layout gravity) to a free value, for a view of any type code. [jobs 8]
#[no_mangle] pub extern "C" fn h_c13_common() {
    let mut a = av_full(); a.r#type = code(); let mut v = View::from(a.clone()); let mut w = expect(&a);
    const U: &[i64] = &[0, 65535, 4294967295];
    macro_rules! e { ($x:expr, $y:expr) => {{ let n = num(U) as u32; $x = n; $y = n }} }
    match choose(15) {
        0 => { let t = text_upto(2); v.id = t.clone(); w.id = t }
        1 => { let c = Color::from(u32_()); v.background_color = c; w.layout.background_color = c }
        2 => { let x = layout::Size::Fixed(i32_()); v.height = x; w.layout.height = x } 3 => { let x = [layout::Size::WrapContent, layout::Size::MatchParent][choose(2) as usize]; v.width = x; w.layout.width = x }
        4 => e!(v.padding.top, w.layout.padding_top), 5 => e!(v.padding.right, w.layout.padding_right), 6 => e!(v.padding.bottom, w.layout.padding_bottom), 7 => e!(v.padding.left, w.layout.padding_left),
        8 => e!(v.margin.top, w.layout.margin_top), 9 => e!(v.margin.right, w.layout.margin_right), 10 => e!(v.margin.bottom, w.layout.margin_bottom), 11 => e!(v.margin.left, w.layout.margin_left),
        12 => e!(v.weight, w.layout.weight), 13 => e!(v.weight_sum, w.layout.weight_sum), _ => { let g = Gravity(u8_()); v.layout_gravity = g; w.layout.layout_gravity = g }
    }
    match written(v) { Some(x) => check(x == w, "the edit is written and everything else is kept"), None => check(false, "one view is written") }
    reach("end");
}
/// Editing unexposed fields through the raw record: every field in turn free, for every type code; it is written unless the typed view shows that field. [jobs 8]
#[no_mangle] pub extern "C" fn h_c13_raw() {
    let mut a = av_full(); a.r#type = code(); let mut v = View::from(a.clone()); vary(&mut v.raw);
    let mut w = expect(&v.raw);
    // exposed properties win over the raw record
    w.id = a.id.clone(); let (l, m) = (&mut w.layout, &a.layout);
    l.background_color = m.background_color; l.height = m.height; l.width = m.width; l.layout_gravity = m.layout_gravity; l.weight = m.weight; l.weight_sum = m.weight_sum;
    l.padding_top = m.padding_top; l.padding_right = m.padding_right; l.padding_bottom = m.padding_bottom; l.padding_left = m.padding_left; l.margin_top = m.margin_top; l.margin_right = m.margin_right; l.margin_bottom = m.margin_bottom; l.margin_left = m.margin_left;
    if v.view.is_ok() { copy(a.r#type, &a, &mut w) }
    match written(v) { Some(x) => check(x == w, "raw fields that are not exposed are written"), None => check(false, "one view is written") }
    reach("end");
}
/// The scroll view's direction is its type: both directions, from both types, with any gravity and any stored orientation.
#[no_mangle] pub extern "C" fn h_c13_scroll() {
    use layout::Orientation::*;
    let mut a = av_full(); a.r#type = [2, 12][choose(2) as usize]; a.layout.orientation = [Vertical, Unspecified, Horizontal][choose(3) as usize]; a.layout.gravity = Gravity(u8_());
    let mut v = View::from(a.clone()); let vert = choose(2) == 1;
    match &mut v.view { Ok(ViewType::ScrollView { orientation, gravity }) => { check((*orientation == Vertical) == (a.r#type == 12), "direction of a scroll view"); check(*gravity == a.layout.gravity, "gravity of a scroll view"); *orientation = if vert { Vertical } else { Horizontal } } _ => check(false, "a scroll view") }
    match written(v) { Some(w) => { check(w.r#type == if vert { 12 } else { 2 }, "an edited direction is written"); match View::from(w).view { Ok(ViewType::ScrollView { orientation, .. }) => check((orientation == Vertical) == vert, "an edited direction is read back"), _ => check(false, "a scroll view") } } None => check(false, "one view is written") }
    reach("end");
}
/// Every forest of 3 views of which one has a long or special id, or any id of 1 to 24 letters, digits and underscores. [jobs 8]
#[no_mangle] pub extern "C" fn h_c12_id_words() {
    let p = shape(3); let mut id = ids(3); let at = choose(3) as usize; let t = if choose(2) == 0 { any_name() } else { wide() };
    assume(t != "root" && !id.contains(&t)); id[at] = t.clone();
    let mut f = forest_(&p, &id, Free::No, 0); trip(f.clone());
    let hit = f.iter_mut().filter_map(|v| v.find_id_mut(&t)).count(); check(hit == 1, "a view of the tree is found for editing"); check(f.iter().filter_map(|v| v.find_id(&t)).count() == 1, "a view of the tree is found");
    reach("end");
}
/// All fields of a record free at once, for every one of the 256 type codes: shown exactly, and written back unmodified. [jobs 8]
#[no_mangle] pub extern "C" fn h_c13_all() {
    let mut a = av_full(); wild(&mut a); a.r#type = code(); if choose(2) == 1 { a.image.res_name = None; a.pre_id = None; a.pre_parent = None }
    let v = View::from(a.clone()); common_ok(&v, &a);
    match (&v.view, expose(&a)) { (Ok(t), Some(e)) => check(*t == e, "the typed view shows the record's fields"), (Err(_), None) => {} _ => check(false, "exactly the known types are recognised") }
    match written(v) { Some(w) => check(w == expect(&a), "an unmodified view is written as it was"), None => check(false, "one view is written") }
    reach("end");
}
/// All exposed properties edited at once to free values, between any two of the 18 kinds, all fields of the old record free. [jobs 8]
#[no_mangle] pub extern "C" fn h_c13_edit_all() {
    let mut a = av_full(); wild(&mut a); a.r#type = CODES[choose(18) as usize]; let to = CODES[choose(18) as usize]; let mut b = other(); wild(&mut b);
    edit(a, to, &b); reach("end");
}
/// ViewType itself, on two records with all fields free, for each of the 18 kinds: applying a record's own values to it changes nothing; applying another's makes the record show exactly those; applying its own again gives it back, so nothing outside the kind was touched. [jobs 8]
#[no_mangle] pub extern "C" fn h_c13_apply() {
    let c = CODES[choose(18) as usize]; let mut a = av_full(); wild(&mut a); a.r#type = c; let mut b = other(); wild(&mut b); b.r#type = c;
    let (own, theirs) = match (ViewType::from_view(&a), ViewType::from_view(&b)) { (Ok(x), Ok(y)) => (x, y), _ => { check(false, "a known kind is recognised"); return } };
    check(own.get_type_id() == c, "a kind has its code");
    let free = |w: &mut AndroidView| if c == 2 || c == 12 { w.layout.orientation = a.layout.orientation.clone() };
    let mut w = a.clone(); own.clone().apply_values_to_view(&mut w); free(&mut w); check(w == a, "a record's own values change nothing in it");
    theirs.clone().apply_values_to_view(&mut w); free(&mut w); check(ViewType::from_view(&w).ok() == Some(theirs), "applied values are shown");
    own.apply_values_to_view(&mut w); free(&mut w); check(w == a, "applying values touches nothing outside the kind"); reach("end");
}
/// Long, special and free texts of 1 to 24 characters in each exposed text property of each kind: shown, kept and edited. [jobs 8]
#[no_mangle] pub extern "C" fn h_c13_texts() {
    let t = if choose(2) == 0 { any_plain() } else { wide() }; let mut a = av_full();
    let c = match choose(11) { 0 => { a.text.text = t; 3 } 1 => { a.text.text = t; 4 } 2 => { a.text.text_font = t; 4 } 3 => { a.text.hint = t; 5 } 4 => { a.text.text = t; a.text.text_font = s("q"); 5 } 5 => { a.image.res_name = Some(t); 6 } 6 => { a.image.res_name = Some(t); 16 } 7 => { a.progress_style = t; 8 } 8 => { a.custom_view = t; 9 } 9 => { a.ad_size = t; 17 } _ => { a.id = t; [11, 13, 99][choose(3) as usize] } };
    a.r#type = c; let v = View::from(a.clone()); common_ok(&v, &a);
    match (&v.view, expose(&a)) { (Ok(t), Some(e)) => check(*t == e, "the typed view shows the record's fields"), (Err(_), None) => {} _ => check(false, "exactly the known types are recognised") }
    match written(v) { Some(w) => check(w == expect(&a), "an unmodified view is written as it was"), None => check(false, "one view is written") }
    if c < 99 { let mut o = other(); o.r#type = c; edit(o, c, &a) }
    reach("end");
}
/// Views renamed and retyped by editing: in every forest of up to 4 views any one view gets a new id (any two letters) and any one view a new type; the new id is found and the old one is not, children name the new id and type, and the rebuilt tree has them. [jobs 8]
#[no_mangle] pub extern "C" fn h_c12_renamed() {
    let n = choose(4) as usize + 1; let par = shape(n); let id = ids(n); let (k, r) = (choose(n as u64) as usize, choose(n as u64 + 1) as usize);
    let new = format!("q{}", lower(1)); let mut f = forest_(&par, &id, Free::No, 0);
    let ty = || ViewType::Button { text: s("b"), text_color: Color::from(0xff00ff00), text_size: 9, text_style: text::TextType::Bold };
    if r < n { match f.iter_mut().find_map(|v| v.find_id_mut(&id[r])) { Some(v) => v.view = Ok(ty()), None => check(false, "a view of the tree is found for editing") } }
    match f.iter_mut().find_map(|v| v.find_id_mut(&id[k])) { Some(v) => v.id = new.clone(), None => check(false, "a view of the tree is found for editing") }
    for (i, x) in id.iter().enumerate() {
        let want = if i == k { &new } else { x };
        check(f.iter().filter_map(|v| v.find_id(want)).filter(|v| v.id == *want).count() == 1, "a view is found by its present id"); check(f.iter_mut().filter_map(|v| v.find_id_mut(want)).count() == 1, "a view is found for editing by its present id");
        if i == k { check(f.iter().all(|v| v.find_id(x).is_none()), "a view is not found by its former id"); check(f.iter_mut().all(|v| v.find_id_mut(x).is_none()), "a view is not found for editing by its former id") }
    }
    let l = flatten_views(f.clone(), None, None); check(l.len() == n, "every view is written exactly once");
    for i in 0..n {
        let me = if i == k { &new } else { &id[i] }; let mine: Vec<_> = l.iter().filter(|x| x.id == *me).collect(); check(mine.len() == 1, "a view is written under its present id"); if mine.is_empty() { continue }
        let (pn, pt) = if par[i] == 0 { ("root", 0) } else { let q = par[i] - 1; (if q == k { new.as_str() } else { id[q].as_str() }, if q == r { 3 } else { [0u8, 12, 3, 99][q] }) };
        check(mine[0].parent.as_deref() == Some(pn), "a view names its parent's present id"); check(mine[0].parent_type == pt as i8, "a view names its parent's present type"); if i == r { check(mine[0].r#type == 3 && mine[0].text.text == "b", "the new type is written") }
    }
    match parse_raw_layout(Layout(l)) { Ok(g) => { let (mut a, mut b) = (vec![], vec![]); collect(&f, "root", 0, &mut a); collect(&g, "root", 0, &mut b); check(a.len() == b.len() && a.iter().zip(&b).all(|(x, y)| x.0.id == y.0.id && x.1 == y.1 && x.0.view.as_ref().ok() == y.0.view.as_ref().ok()), "rebuilding gives the edited tree") } Err(_) => check(false, "a flattened tree is rebuilt") }
    reach("end");
}
