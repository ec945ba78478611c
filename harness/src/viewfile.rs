//! C05: the view file.  C08: coded values.
use crate::vp::*;
use ritelinked::LinkedHashMap;
use swrs::color::Color;
use swrs::parser::view::models::layout::gravity::Gravity;
use swrs::parser::view::models::*;
use swrs::parser::view::*;
use swrs::parser::Parsable;

pub fn av(id: &str) -> AndroidView { AndroidView::new_empty(id, 4, "root", 0) }
/// A record in which every field differs from every default and from its neighbours.
pub fn av_full() -> AndroidView {
    AndroidView { ad_size: s("as"), ad_unit_id: s("au"), alpha: 0.5, checked: true, choice_mode: ChoiceMode::Multi, clickable: false, custom_view: s("cv"), divider_height: 11, enabled: false, first_day_of_week: 6, id: s("vid"),
        image: ImageConfig { res_name: Some(s("rn")), rotate: -90, scale_type: image::ImageScaleType::FitXy }, indeterminate: true, index: 12,
        layout: LayoutConfig { background_color: Color::from(0x01020304), gravity: Gravity(48), height: layout::Size::Fixed(33), layout_gravity: Gravity(17), margin_bottom: 1, margin_left: 2, margin_right: 3, margin_top: 4, orientation: layout::Orientation::Horizontal, padding_bottom: 5, padding_left: 6, padding_right: 7, padding_top: 9, weight: 21, weight_sum: 22, width: layout::Size::MatchParent },
        max: 23, parent: Some(s("par")), parent_type: -1, pre_id: Some(s("pid")), pre_index: -3, pre_parent: Some(s("pp")), pre_parent_type: -2, progress: 24, progress_style: s("ps"), scale_x: 1.5, scale_y: 2.5, spinner_mode: SpinnerMode::Dialog,
        text: TextConfig { hint: s("hi"), hint_color: Color::from(0xff112233), ime_option: text::ImeOption::Go, input_type: text::InputType::Phone, line: 25, single_line: true, text: s("tx"), text_color: Color::from(0xff445566), text_font: s("tf"), text_size: 26, text_type: text::TextType::Italic },
        translation_x: 3.5, translation_y: 4.5, r#type: 27 }
}
/// The canonical text of that record (field names, order and encodings of the data file).
pub const FULL: &str = r#"{"adSize":"as","adUnitId":"au","alpha":0.5,"checked":1,"choiceMode":2,"clickable":0,"customView":"cv","dividerHeight":11,"enabled":0,"firstDayOfWeek":6,"id":"vid","image":{"resName":"rn","rotate":-90,"scaleType":"FIT_XY"},"indeterminate":"true","index":12,"layout":{"backgroundColor":16909060,"gravity":48,"height":33,"layoutGravity":17,"marginBottom":1,"marginLeft":2,"marginRight":3,"marginTop":4,"orientation":-1,"paddingBottom":5,"paddingLeft":6,"paddingRight":7,"paddingTop":9,"weight":21,"weightSum":22,"width":-2},"max":23,"parent":"par","parentType":-1,"preId":"pid","preIndex":-3,"preParent":"pp","preParentType":-2,"progress":24,"progressStyle":"ps","scaleX":1.5,"scaleY":2.5,"spinnerMode":0,"text":{"hint":"hi","hintColor":-15654349,"imeOption":2,"inputType":3,"line":25,"singleLine":1,"text":"tx","textColor":-12298906,"textFont":"tf","textSize":26,"textType":2},"translationX":3.5,"translationY":4.5,"type":27}"#;

/// A short text that can coincide with the ids used in the tree harnesses ("v0", "v1", ..).
fn vtext() -> String { let b = u8_(); assume(b < 0x80); unsafe { String::from_utf8_unchecked(vec![b'v', b]) } }
/// Any of the values, without splitting paths.
pub fn any_of<T: Copy>(xs: &[T]) -> T { let b = u8_(); assume((b as usize) < xs.len()); let mut r = xs[0]; for i in 1..xs.len() { r = std::hint::select_unpredictable(b as usize == i, xs[i], r) } r }
/// Makes every field of a record except its id, type and parent free at once (whole numbers of full width, flags and enumerations any value, texts "v" and any 7-bit character, optional texts present; floats from the record).
pub fn wild(v: &mut AndroidView) {
    {
        v.ad_size = vtext(); v.ad_unit_id = vtext(); v.checked = bool_(); v.choice_mode = any_of(&[ChoiceMode::None, ChoiceMode::Single, ChoiceMode::Multi]); v.clickable = bool_(); v.custom_view = vtext(); v.divider_height = u32_(); v.enabled = bool_(); v.first_day_of_week = u8_();
        v.image.res_name = Some(vtext()); v.image.rotate = u16_() as i16; v.image.scale_type = { use image::ImageScaleType::*; any_of(&[Center, FitXy, FitStart, FitCenter, FitEnd, CenterCrop, CenterInside]) }; v.indeterminate = bool_(); v.index = u32_();
        let l = &mut v.layout; l.background_color = Color::from(u32_()); l.gravity = Gravity(u8_()); l.layout_gravity = Gravity(u8_()); l.height = layout::Size::Fixed(i32_()); l.width = layout::Size::Fixed(i32_());
        l.margin_bottom = u32_(); l.margin_left = u32_(); l.margin_right = u32_(); l.margin_top = u32_(); l.padding_bottom = u32_(); l.padding_left = u32_(); l.padding_right = u32_(); l.padding_top = u32_(); l.weight = u32_(); l.weight_sum = u32_(); l.orientation = { use layout::Orientation::*; any_of(&[Vertical, Unspecified, Horizontal]) };
        v.max = u32_(); v.parent_type = u8_() as i8; v.pre_id = Some(vtext()); v.pre_index = i32_(); v.pre_parent = Some(vtext()); v.pre_parent_type = u8_() as i8; v.progress = u32_(); v.progress_style = vtext(); v.spinner_mode = any_of(&[SpinnerMode::Dialog, SpinnerMode::Dropdown]);
        let t = &mut v.text; t.hint = vtext(); t.hint_color = Color::from(u32_()); t.ime_option = { use text::ImeOption::*; any_of(&[Normal, None, Go, Search, Send, Next, Done]) }; t.input_type = { use text::InputType::*; any_of(&[NumberDecimal, NumberSigned, NumberSignedDecimal, Password, Phone, Text]) }; t.line = u32_(); t.single_line = bool_(); t.text = vtext(); t.text_color = Color::from(u32_()); t.text_font = vtext(); t.text_size = u32_(); t.text_type = { use text::TextType::*; any_of(&[Normal, Bold, Italic, BoldItalic]) };
    }
}

fn rt(v: &View, tag: &str) {
    let t = match v.reconstruct() { Ok(t) => t, Err(_) => { check(false, "writing succeeds"); return } };
    observe(t.as_bytes());
    match View::parse(&t) {
        Err(_) => check(false, "written view file parses"),
        Ok(p) => {
            check(p == *v && p.layouts.iter().map(|x| x.0).eq(v.layouts.iter().map(|x| x.0)) && p.fabs.iter().map(|x| x.0).eq(v.fabs.iter().map(|x| x.0)), tag);
            match p.reconstruct() { Ok(u) => check(u == t, "text is reproduced"), Err(_) => check(false, "rewriting succeeds") }
        }
    }
}
fn fab() -> AndroidView { let mut f = av("_fab"); f.parent = None; f.pre_id = None; f.parent_type = -1; f.r#type = 16; f }
/// 0-3 layouts, each with 0-2 views, 0-2 floating action buttons; every combination; free one-letter names. [jobs 8]
#[no_mangle] pub extern "C" fn h_c05_shape() {
    let mut v = View { layouts: LinkedHashMap::new(), fabs: LinkedHashMap::new() };
    let nl = choose(4); let names = [lower(1), lower(1), lower(1)];
    assume((names[0] != names[1]) & (names[0] != names[2]) & (names[1] != names[2]));
    for i in 0..nl as usize { let k = choose(3) as usize; v.layouts.insert(names[i].clone(), Layout((0..k).map(|j| av(["a", "b"][j])).collect())); }
    let nf = choose(3) as usize;
    for i in 0..nf { v.fabs.insert(names[1 - i].clone(), fab()); }
    rt(&v, "layouts and buttons"); reach("end");
}
/// Up to 6 layouts and 6 buttons of which every subset is empty.
#[no_mangle] pub extern "C" fn h_c05_many() {
    let mut v = View { layouts: LinkedHashMap::new(), fabs: LinkedHashMap::new() };
    for i in 0..6 { let k = choose(2); v.layouts.insert(format!("l{}", i), Layout((0..k).map(|_| av("x")).collect())); }
    let nf = choose(7); for i in 0..nf { v.fabs.insert(format!("l{}", 5 - i), fab()); }
    rt(&v, "many layouts"); reach("end");
}
/// Layout names: any UTF-8 text of up to 3 bytes without newline or '.'; with a second layout and a button. [jobs 4]
#[no_mangle] pub extern "C" fn h_c05_names() {
    let n = line_upto(3); for b in n.bytes() { assume(b != b'.') }
    let mut v = View { layouts: LinkedHashMap::new(), fabs: LinkedHashMap::new() };
    v.layouts.insert(n.clone(), Layout(vec![av("a")])); v.layouts.insert(s("zzzz"), Layout(vec![av("b")]));
    if choose(2) == 1 { v.fabs.insert(n, fab()); v.fabs.insert(s("yyyy"), fab()); }
    rt(&v, "layout names"); reach("end");
}
const F: [f32; 20] = [0.0, 1.0, -0.5, 0.1, 3.4028235e38, 1e-45, 16777216.0, -123.456, -3.4028235e38, 1.17549435e-38, 1.1754942e-38, -1e-40, 0.3, 1.0000001, 0.99999994, 33554434.0, 7.0385307e-26, -1e10, 8388608.5, 2.0e-7];
/// Sets one field of a view record to a free value: strings any UTF-8 text of up to 2 bytes, flags and enumerations all values, small numbers any byte plus the edges of their width, floats from a set of 8.
pub fn vary(v: &mut AndroidView) {
    const U: &[i64] = &[0, 65535, 4294967295, 100000];
    macro_rules! sx { ($f:expr) => { $f = text_upto(2) } }
    macro_rules! fx { ($f:expr) => { $f = F[choose(20) as usize] } }
    macro_rules! ux { ($f:expr) => { $f = num(U) as u32 } }
    match choose(56) {
        0 => sx!(v.ad_size), 1 => sx!(v.ad_unit_id), 2 => fx!(v.alpha), 3 => v.checked = bool_(), 4 => v.choice_mode = [ChoiceMode::None, ChoiceMode::Single, ChoiceMode::Multi][choose(3) as usize],
        5 => v.clickable = bool_(), 6 => sx!(v.custom_view), 7 => ux!(v.divider_height), 8 => v.enabled = bool_(), 9 => v.first_day_of_week = u8_(), 10 => sx!(v.id),
        11 => v.image.res_name = if choose(2) == 0 { None } else { Some(text_upto(2)) }, 12 => v.image.rotate = num(&[-32768, 32767, -1, 360]) as i16,
        13 => { use image::ImageScaleType::*; v.image.scale_type = [Center, FitXy, FitStart, FitCenter, FitEnd, CenterCrop, CenterInside][choose(7) as usize] }
        14 => v.indeterminate = bool_(), 15 => ux!(v.index), 16 => v.layout.background_color = Color::from(num(I32E) as u32), 17 => v.layout.gravity = Gravity(u8_()),
        18 => v.layout.height = size(), 19 => v.layout.layout_gravity = Gravity(u8_()), 20 => ux!(v.layout.margin_bottom), 21 => ux!(v.layout.margin_left), 22 => ux!(v.layout.margin_right), 23 => ux!(v.layout.margin_top),
        24 => { use layout::Orientation::*; v.layout.orientation = [Vertical, Unspecified, Horizontal][choose(3) as usize] }
        25 => ux!(v.layout.padding_bottom), 26 => ux!(v.layout.padding_left), 27 => ux!(v.layout.padding_right), 28 => ux!(v.layout.padding_top), 29 => ux!(v.layout.weight), 30 => ux!(v.layout.weight_sum), 31 => v.layout.width = size(),
        32 => ux!(v.max), 33 => v.parent = if choose(2) == 0 { None } else { Some(text_upto(2)) }, 34 => v.parent_type = num(&[-128, 127, -1]) as i8, 35 => v.pre_id = if choose(2) == 0 { None } else { Some(text_upto(2)) },
        36 => v.pre_index = num(I32E) as i32, 37 => v.pre_parent = if choose(2) == 0 { None } else { Some(text_upto(2)) }, 38 => v.pre_parent_type = num(&[-128, 127, -1]) as i8, 39 => ux!(v.progress), 40 => sx!(v.progress_style),
        41 => fx!(v.scale_x), 42 => fx!(v.scale_y), 43 => v.spinner_mode = [SpinnerMode::Dialog, SpinnerMode::Dropdown][choose(2) as usize],
        44 => sx!(v.text.hint), 45 => v.text.hint_color = Color::from(num(I32E) as u32), 46 => { use text::ImeOption::*; v.text.ime_option = [Normal, None, Go, Search, Send, Next, Done][choose(7) as usize] }
        47 => { use text::InputType::*; v.text.input_type = [NumberDecimal, NumberSigned, NumberSignedDecimal, Password, Phone, Text][choose(6) as usize] }
        48 => ux!(v.text.line), 49 => v.text.single_line = bool_(), 50 => sx!(v.text.text), 51 => v.text.text_color = Color::from(num(I32E) as u32), 52 => sx!(v.text.text_font), 53 => ux!(v.text.text_size),
        54 => { use text::TextType::*; v.text.text_type = [Normal, Bold, Italic, BoldItalic][choose(4) as usize] }
        _ => { match choose(3) { 0 => fx!(v.translation_x), 1 => fx!(v.translation_y), _ => v.r#type = u8_() } }
    }
}
fn size() -> layout::Size { match choose(3) { 0 => layout::Size::MatchParent, 1 => layout::Size::WrapContent, _ => layout::Size::Fixed(num(&[-3, 2147483647, -2147483648, 1000]) as i32) } }
/// View records: every field in turn takes a free value (see `vary`), all others distinct fixed values. [jobs 8]
#[no_mangle] pub extern "C" fn h_c05_view() {
    let mut v = av_full();
    vary(&mut v);
    match v.reconstruct() {
        Err(_) => check(false, "view writes"),
        Ok(t) => {
            observe(t.as_bytes());
            check(!t.contains('\n'), "a view is one line");
            match AndroidView::parse(&t) { Ok(w) => { check(v == w, "view round trip"); match w.reconstruct() { Ok(u) => check(u == t, "view text"), Err(_) => check(false, "view rewrites") } } Err(_) => check(false, "written view parses") }
        }
    }
    reach("end");
}
/// Two fields at a time: a record whose optional fields are present or not in every combination, first or last in a layout of up to 3 views.
#[no_mangle] pub extern "C" fn h_c05_layout() {
    let mut v = av_full();
    if choose(2) == 1 { v.parent = None } if choose(2) == 1 { v.pre_id = None } if choose(2) == 1 { v.pre_parent = None } if choose(2) == 1 { v.image.res_name = None }
    let n = choose(3) as usize + 1; let at = choose(3) as usize; assume(at < n);
    let l = Layout((0..n).map(|i| if i == at { v.clone() } else { av(&lower(1)) }).collect());
    match l.reconstruct() { Ok(t) => { observe(t.as_bytes()); match Layout::parse(&t) { Ok(m) => { check(l == m, "layout round trip"); check(m.reconstruct().ok() == Some(t), "layout text") } Err(_) => check(false, "written layout parses") } } Err(_) => check(false, "layout writes") }
    reach("end");
}
/// Canonical text: the exact data-file encoding of every field, read and reproduced; layout and button sections with free names.
#[no_mangle] pub extern "C" fn h_c05_canonical() {
    check(AndroidView::parse(FULL).ok() == Some(av_full()), "every field is read from its key");
    check(av_full().reconstruct().ok() == Some(s(FULL)), "every field is written under its key");
    let (a, b) = (lower(2), lower(1));
    let t = format!("@{a}.xml\n{FULL}\n{FULL}\n\n@{b}.xml\n{FULL}\n\n@{b}.xml_fab\n{FULL}\n@{a}.xml_fab\n{FULL}");
    match View::parse(&t) {
        Ok(v) => {
            check(v.layouts.len() == 2 && v.fabs.len() == 2, "section counts");
            check(v.layouts.get(&a) == Some(&Layout(vec![av_full(), av_full()])) && v.layouts.get(&b) == Some(&Layout(vec![av_full()])), "layout sections");
            check(v.fabs.get(&a) == Some(&av_full()) && v.fabs.get(&b) == Some(&av_full()), "button sections");
            match v.reconstruct() { Ok(u) => { observe(u.as_bytes()); check(u == t, "canonical text is reproduced") } Err(_) => check(false, "writing succeeds") }
        }
        Err(_) => check(false, "canonical view file parses"),
    }
    reach("end");
}

/// Reading sections in any order: every arrangement of 4 out of 6 sections (three layouts, three buttons), free names. [jobs 8]
#[no_mangle] pub extern "C" fn h_c05_order() {
    let m = lower(1); let names = [s("main"), s("mai"), format!("x{}", m)]; let mut v = View { layouts: LinkedHashMap::new(), fabs: LinkedHashMap::new() }; let mut t = vec![]; let gap = choose(2);
    for i in arrangement(6, 4) {
        let n = &names[i % 3];
        if i < 3 { let l: Vec<AndroidView> = (0..i).map(|j| av(&format!("{}{}", m, j))).collect(); t.push(format!("@{}.xml\n{}", n, l.iter().map(|x| x.reconstruct().unwrap_or_default() + "\n").collect::<String>())); v.layouts.insert(n.clone(), Layout(l)); }
        else { let mut f = fab(); f.index = i as u32; t.push(format!("@{}.xml_fab\n{}\n", n, f.reconstruct().unwrap_or_default())); v.fabs.insert(n.clone(), f); }
    }
    let t = t.join(["\n", ""][gap as usize]);
    match View::parse(t.trim_end_matches('\n')) { Ok(w) => { check(v == w, "sections are read in any order"); rt(&w, "rewritten in canonical order") } Err(_) => check(gap == 1, "sections in any order are read") }
    reach("end");
}
/// 4 to 130 layouts, buttons or views of one layout; one name free. [jobs 8] [ins 90000000]
#[no_mangle] pub extern "C" fn h_c05_large() {
    let n = SIZES[choose(8) as usize]; let m = lower(1); let mut v = View { layouts: LinkedHashMap::new(), fabs: LinkedHashMap::new() };
    let names: Vec<String> = (0..n).map(|i| if i == n / 2 { format!("{}_{}", m, i) } else { format!("n{}", i) }).collect();
    match choose(3) { 0 => for (i, x) in names.iter().enumerate() { v.layouts.insert(x.clone(), Layout(if i % 3 == 0 { vec![] } else { vec![av(x)] })); }, 1 => { v.layouts.insert(s("main"), Layout(names.iter().map(|x| { let mut a = av(x); a.parent = Some(format!("p{}", x)); a }).collect())); v.layouts.insert(s("z"), Layout(vec![])); } _ => for x in &names { v.fabs.insert(x.clone(), fab()); } }
    rt(&v, "large view files"); reach("end");
}
/// Long texts (15 to 1025 bytes) and 36 special texts (emoji, escapes, separators, look-alikes of numbers, headers and JSON) in every text field of a view and in layout names. [jobs 8]
#[no_mangle] pub extern "C" fn h_c05_long() {
    let t = wide(); let mut a = av_full(); let mut name = s("main");
    match choose(13) { 0 => a.ad_size = t, 1 => a.ad_unit_id = t, 2 => a.custom_view = t, 3 => a.id = t, 4 => a.image.res_name = Some(t), 5 => a.parent = Some(t), 6 => a.pre_id = Some(t), 7 => a.pre_parent = Some(t), 8 => a.progress_style = t, 9 => a.text.hint = t, 10 => a.text.text = t, 11 => a.text.text_font = t, _ => name = t.replace('.', "-").replace('\n', "+") }
    let mut v = View { layouts: LinkedHashMap::new(), fabs: LinkedHashMap::new() }; v.layouts.insert(name.clone(), Layout(vec![a.clone(), av("b")])); v.fabs.insert(name, a);
    rt(&v, "long texts"); reach("end");
}
/// Repeated views: layouts of 3 views and buttons of which any are equal to each other (all patterns), in one or two layouts. [jobs 4]
#[no_mangle] pub extern "C" fn h_c05_repeats() {
    let m = lower(1); let full = choose(2) == 1; let pat = [choose(3), choose(3), choose(3)]; let mk = |k: u64| { let mut a = if full { av_full() } else { av("x") }; a.id = format!("{}{}", m, k); a };
    let l: Vec<AndroidView> = pat.iter().map(|k| mk(*k)).collect(); let mut v = View { layouts: LinkedHashMap::new(), fabs: LinkedHashMap::new() };
    v.layouts.insert(s("main"), Layout(l.clone())); if choose(2) == 1 { v.layouts.insert(s("copy"), Layout(l.clone())); v.layouts.insert(s("third"), Layout(vec![])); } v.fabs.insert(s("main"), l[0].clone()); v.fabs.insert(s("copy"), l[1].clone());
    rt(&v, "repeated views"); reach("end");
}
/// Texts of 1 to 24 free printable characters in each text field of a view; layout names of 1 to 5 free letters, digits and underscores. [jobs 8]
#[no_mangle] pub extern "C" fn h_c05_words() {
    let k = choose(13); let t = if k == 12 { short_name() } else { any_plain() }; let mut a = av_full(); let mut name = s("main");
    match k { 0 => a.ad_size = t, 1 => a.ad_unit_id = t, 2 => a.custom_view = t, 3 => a.id = t, 4 => a.image.res_name = Some(t), 5 => a.parent = Some(t), 6 => a.pre_id = Some(t), 7 => a.pre_parent = Some(t), 8 => a.progress_style = t, 9 => a.text.hint = t, 10 => a.text.text = t, 11 => a.text.text_font = t, _ => name = t }
    let mut v = View { layouts: LinkedHashMap::new(), fabs: LinkedHashMap::new() }; v.layouts.insert(name.clone(), Layout(vec![a.clone(), av("b")])); v.fabs.insert(name, a);
    rt(&v, "any names and texts"); reach("end");
}
/// Sets field number k of 56 to its edge e: 0 zero, empty, absent or first; 1 one, a special text or last; 2 the largest number.
pub fn edge(v: &mut AndroidView, k: u64, e: usize) {
    let u = [0u32, 1, u32::MAX][e]; let t = || s(["", "root", "true"][e]); let o = || [None, Some(s("")), Some(s("root"))][e].clone(); let b = e == 1; let f = [0.0f32, 1.0, 0.25][e]; let c = Color::from([0u32, 0xffffffff, 0x00ffffff][e]); let i8_ = [0i8, -1, 127][e]; let i = [0i32, -1, i32::MAX][e];
    let sz = [layout::Size::MatchParent, layout::Size::WrapContent, layout::Size::Fixed(0)][e];
    match k {
        0 => v.ad_size = t(), 1 => v.ad_unit_id = t(), 2 => v.alpha = f, 3 => v.checked = b, 4 => v.choice_mode = [ChoiceMode::None, ChoiceMode::Single, ChoiceMode::Multi][e], 5 => v.clickable = b, 6 => v.custom_view = t(), 7 => v.divider_height = u, 8 => v.enabled = b, 9 => v.first_day_of_week = [0, 1, 255][e], 10 => v.id = t(), 11 => v.image.res_name = o(), 12 => v.image.rotate = [0, -1, 32767][e],
        13 => v.image.scale_type = [image::ImageScaleType::Center, image::ImageScaleType::FitXy, image::ImageScaleType::CenterInside][e], 14 => v.indeterminate = b, 15 => v.index = u, 16 => v.layout.background_color = c, 17 => v.layout.gravity = Gravity([0, 17, 255][e]), 18 => v.layout.height = sz, 19 => v.layout.layout_gravity = Gravity([0, 17, 255][e]),
        20 => v.layout.margin_bottom = u, 21 => v.layout.margin_left = u, 22 => v.layout.margin_right = u, 23 => v.layout.margin_top = u, 24 => v.layout.orientation = [layout::Orientation::Vertical, layout::Orientation::Unspecified, layout::Orientation::Horizontal][e], 25 => v.layout.padding_bottom = u, 26 => v.layout.padding_left = u, 27 => v.layout.padding_right = u, 28 => v.layout.padding_top = u, 29 => v.layout.weight = u, 30 => v.layout.weight_sum = u, 31 => v.layout.width = sz,
        32 => v.max = u, 33 => v.parent = o(), 34 => v.parent_type = i8_, 35 => v.pre_id = o(), 36 => v.pre_index = i, 37 => v.pre_parent = o(), 38 => v.pre_parent_type = i8_, 39 => v.progress = u, 40 => v.progress_style = t(), 41 => v.scale_x = f, 42 => v.scale_y = f, 43 => v.spinner_mode = [SpinnerMode::Dialog, SpinnerMode::Dropdown, SpinnerMode::Dialog][e],
        44 => v.text.hint = t(), 45 => v.text.hint_color = c, 46 => v.text.ime_option = [text::ImeOption::Normal, text::ImeOption::None, text::ImeOption::Done][e], 47 => v.text.input_type = [text::InputType::NumberDecimal, text::InputType::Password, text::InputType::Text][e], 48 => v.text.line = u, 49 => v.text.single_line = b, 50 => v.text.text = t(), 51 => v.text.text_color = c, 52 => v.text.text_font = t(), 53 => v.text.text_size = u, 54 => v.text.text_type = [text::TextType::Normal, text::TextType::Bold, text::TextType::BoldItalic][e],
        55 => v.translation_x = f, 56 => v.translation_y = f, _ => v.r#type = [0, 16, 255][e],
    }
}
fn pair(e: u64) {
    let mut v = if choose(2) == 0 { av_full() } else { av("x") };
    let k = choose(57); let j = choose(58); assume(j > k); let (x, y) = (choose(e) as usize, choose(e) as usize); edge(&mut v, k, x); edge(&mut v, j, y);
    match v.reconstruct() { Ok(t) => match AndroidView::parse(&t) { Ok(w) => check(v == w, "view round trip"), Err(_) => check(false, "written view parses") }, Err(_) => check(false, "view writes") }
    reach("end");
}
/// Every two of the 58 fields of a view at once, each at one of two edges, on a full and on an empty record. [jobs 8]
#[no_mangle] pub extern "C" fn h_c05_pairs() { pair(2) }
/// The same with three edges. [jobs 8] [time 1200]
#[no_mangle] pub extern "C" fn h_c05_pairs_t() { pair(3) }
/// Canonical view records: any one text empty or any letter, or any one number (but for the input type) 0 or 1, or both: reproduced. [jobs 4]
#[no_mangle] pub extern "C" fn h_c05_empty() {
    use crate::lists::{places, put}; let mut t = s(FULL); let (p, n) = places(&t); let k = choose(3);
    if k != 1 { let x = p[choose(p.len() as u64) as usize]; assume(&FULL[x.0..x.1] != "FIT_XY" && &FULL[x.0..x.1] != "true"); let v = lower(1); t = put(&t, x, if choose(2) == 0 { "" } else { &v }) }
    if k != 0 { let (_, n2) = places(&t); check(n.len() == n2.len(), "numbers"); let x = n2[choose(n2.len() as u64) as usize]; let f = t[x.0..x.1].contains('.'); let w = choose(2); assume(!t[..x.0].ends_with("\"inputType\":")); t = put(&t, x, [["0", "1"], ["0.0", "1.0"]][f as usize][w as usize]) }
    match AndroidView::parse(&t) { Ok(x) => match x.reconstruct() { Ok(u) => { observe(u.as_bytes()); check(u == t, "empty texts and small numbers are reproduced") } Err(_) => check(false, "they are written") }, Err(_) => check(false, "empty texts and small numbers are read") }
    reach("end");
}
