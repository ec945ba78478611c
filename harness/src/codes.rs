//! C08: coded values of the data files.  C14: code tables of the editing API.
use crate::vp::*;
use swrs::api::block::*;
use swrs::api::component::ComponentKind;
use swrs::api::screen::EventType;
use swrs::api::view::ViewType;
use swrs::color::Color;
use swrs::parser::file::{FileItem, FileType, KeyboardSetting, Theme};
use swrs::parser::logic::component::Component;
use swrs::parser::logic::event::Event;
use swrs::parser::logic::list_variable::ListVariable;
use swrs::parser::logic::variable::{Variable, VariableType};
use swrs::parser::view::models::layout::gravity;
use swrs::parser::view::models::layout::gravity::Gravity;
use swrs::parser::view::models::*;
use swrs::parser::Parsable;

/// Any number from -128 to 255 in decimal.
fn small() -> (i64, String) { if choose(2) == 0 { let v = u8_(); assume((v >= 1) & (v <= 128)); (-(v as i64), format!("-{}", v)) } else { let v = u8_(); (v as i64, v.to_string()) } }
const FI: &str = r#"{"fileName":"main","fileType":0,"keyboardSetting":0,"options":1,"orientation":0,"theme":-1}"#;
/// Every number -128..=255 in each coded field of a file item (file type, keyboard, options, orientation, theme): meaning by table, refusal outside the table, same code written. [jobs 8]
#[no_mangle] pub extern "C" fn h_c08_file() {
    use swrs::parser::file::Orientation as O;
    let (v, n) = small();
    let k = choose(5) as usize;
    let (key, old) = [("fileType", "0"), ("keyboardSetting", "0"), ("options", "1"), ("orientation", "0"), ("theme", "-1")][k];
    let t = FI.replace(&format!("\"{}\":{}", key, old), &format!("\"{}\":{}", key, n));
    match FileItem::parse(&t) {
        Err(_) => check(match k { 2 => v < 0, 4 => v < -1 || v > 2, _ => v < 0 || v > 2 }, "codes with a meaning are read"),
        Ok(f) => {
            let ok = match k {
                0 => v == match f.file_type { FileType::Activity => 0, FileType::CustomView => 1, FileType::Drawer => 2 },
                1 => v == match f.keyboard_setting { KeyboardSetting::Unspecified => 0, KeyboardSetting::Visible => 1, KeyboardSetting::Hidden => 2 },
                2 => { let o = &f.options; v >= 0 && (o.toolbar_enabled == (v & 1 != 0)) & (o.fullscreen_enabled == (v & 2 != 0)) & (o.drawer_enabled == (v & 4 != 0)) & (o.fab_enabled == (v & 8 != 0)) }
                3 => v == match f.orientation { O::Portrait => 0, O::Landscape => 1, O::Both => 2 },
                _ => v == match f.theme { Theme::None => -1, Theme::Default => 0, Theme::Actionbar => 1, Theme::Fullscreen => 2 },
            };
            check(ok, "a code has its meaning");
            if k != 2 || v < 16 { match f.reconstruct() { Ok(u) => { observe(u.as_bytes()); check(u == t, "the same code is written") } Err(_) => check(false, "file item writes") } }
        }
    }
    reach("end");
}
fn view_with(key: &str, old: &str, new: &str) -> String { let f = crate::viewfile::FULL; let a = format!("\"{}\":{}", key, old); check(f.contains(&a), "harness: field present"); f.replacen(&a, &format!("\"{}\":{}", key, new), 1) }
/// Every number -128..=255 in each coded field of a view (choice mode, spinner mode, orientation, both gravities, IME option, text type, the four numeric booleans, both sizes). [jobs 8]
#[no_mangle] pub extern "C" fn h_c08_view() {
    use layout::Orientation as O; use text::*;
    let (v, n) = small();
    let k = choose(13) as usize;
    const K: [(&str, &str); 13] = [("choiceMode", "2"), ("spinnerMode", "0"), ("orientation", "-1"), ("gravity", "48"), ("layoutGravity", "17"), ("imeOption", "2"), ("textType", "3"), ("checked", "1"), ("clickable", "0"), ("enabled", "0"), ("singleLine", "1"), ("height", "33"), ("width", "34")];
    let full = crate::viewfile::FULL;
    let key = format!("\"{}\":", K[k].0);
    let at = match full.find(&key) { Some(x) => x + key.len(), None => { check(false, "harness: field present"); return } };
    let end = at + full[at..].find(|c| c == ',' || c == '}').unwrap_or(0);
    let t = format!("{}{}{}", &full[..at], n, &full[end..]);
    let bool_field = k >= 7 && k <= 10;
    match AndroidView::parse(&t) {
        Err(_) => check(match k { 0 => v < 0 || v > 2, 1 => v < 0 || v > 1, 2 => v < -1 || v > 1, 3 | 4 => v < 0, 5 => v < 0 || v > 6, 6 => v < 0 || v > 3, 11 | 12 => false, _ => v < 0 }, "codes with a meaning are read"),
        Ok(a) => {
            let sz = |x: &layout::Size| match x { layout::Size::MatchParent => v == -2, layout::Size::WrapContent => v == -1, layout::Size::Fixed(y) => *y as i64 == v && v != -1 && v != -2 };
            let ok = match k {
                0 => v == match a.choice_mode { ChoiceMode::None => 0, ChoiceMode::Single => 1, ChoiceMode::Multi => 2 },
                1 => v == match a.spinner_mode { SpinnerMode::Dialog => 0, SpinnerMode::Dropdown => 1 },
                2 => v == match a.layout.orientation { O::Vertical => 1, O::Unspecified => 0, O::Horizontal => -1 },
                3 => v == a.layout.gravity.0 as i64, 4 => v == a.layout.layout_gravity.0 as i64,
                5 => v == match a.text.ime_option { ImeOption::Normal => 0, ImeOption::None => 1, ImeOption::Go => 2, ImeOption::Search => 3, ImeOption::Send => 4, ImeOption::Next => 5, ImeOption::Done => 6 },
                6 => v == match a.text.text_type { TextType::Normal => 0, TextType::Bold => 1, TextType::Italic => 2, TextType::BoldItalic => 3 },
                7 => v >= 0 && a.checked == (v != 0), 8 => v >= 0 && a.clickable == (v != 0), 9 => v >= 0 && a.enabled == (v != 0), 10 => v >= 0 && a.text.single_line == (v != 0),
                11 => sz(&a.layout.height), _ => sz(&a.layout.width),
            };
            check(ok, "a code has its meaning");
            if !bool_field || v < 2 { match a.reconstruct() { Ok(u) => check(u == t, "the same code is written"), Err(_) => check(false, "view writes") } }
        }
    }
    reach("end");
}
/// Input types: every decimal number of 1 to 6 digits; sizes: every decimal number of up to 5 digits with or without sign, and edge values of 32 bits. [jobs 8]
#[no_mangle] pub extern "C" fn h_c08_input() {
    use text::InputType::*;
    let dec = |n: usize| -> (i64, String) { let b = bytes(n); for x in &b { assume((*x >= b'0') & (*x <= b'9')) } if n > 1 { assume(b[0] != b'0') } let mut v = 0i64; for x in &b { v = v * 10 + (*x - b'0') as i64 } (v, unsafe { String::from_utf8_unchecked(b) }) };
    match choose(3) {
        0 => {
            let n = [i32::MIN as i64, i32::MAX as i64, -3, -1000, 65536, 2147483648, -2147483649][choose(7) as usize];
            let t = view_with("height", "33", &n.to_string());
            match AndroidView::parse(&t) { Ok(a) => { check(a.layout.height == layout::Size::Fixed(n as i32) && n as i32 as i64 == n, "sizes are 32-bit numbers"); check(a.reconstruct().ok() == Some(t), "sizes are written back") } Err(_) => check(n as i32 as i64 != n, "sizes are read") }
        }
        1 => {
            let k = choose(5) as usize + 1; let (v, n) = dec(k);
            let (v, n) = if choose(2) == 1 { assume(v != 0); (-v, format!("-{}", n)) } else { (v, n) };
            match AndroidView::parse(&view_with("height", "33", &n)) { Ok(a) => check(match a.layout.height { layout::Size::MatchParent => v == -2, layout::Size::WrapContent => v == -1, layout::Size::Fixed(y) => y as i64 == v && v != -1 && v != -2 }, "a size has its meaning"), Err(_) => check(false, "sizes are read") }
        }
        _ => {
            let k = choose(6) as usize + 1; let (v2, n) = dec(k);
            let t = view_with("inputType", "3", &n);
            match AndroidView::parse(&t) {
                Err(_) => check((v2 != 8194) & (v2 != 4098) & (v2 != 12290) & (v2 != 129) & (v2 != 3) & (v2 != 1), "input types with a meaning are read"),
                Ok(a) => { check(v2 == match a.text.input_type { NumberDecimal => 8194, NumberSigned => 4098, NumberSignedDecimal => 12290, Password => 129, Phone => 3, Text => 1 }, "an input type has its meaning"); check(a.reconstruct().ok() == Some(t), "the same input type is written") }
            }
        }
    }
    reach("end");
}
/// Textual codes: image scale types by table, any text of up to 3 bytes, and near misses; textual booleans likewise. [jobs 8]
#[no_mangle] pub extern "C" fn h_c08_text() {
    use image::ImageScaleType::*;
    let near = |w: &str| -> String { let at = choose(w.len() as u64) as usize; let c = plain(1); format!("{}{}{}", &w[..at], c, &w[at + 1..]) };
    if choose(2) == 0 {
        const W: [&str; 7] = ["CENTER", "FIT_XY", "FIT_START", "FIT_CENTER", "FIT_END", "CENTER_CROP", "CENTER_INSIDE"];
        let w = match choose(3) { 0 => plain(3), 1 => s(W[choose(7) as usize]), _ => near(W[choose(7) as usize]) };
        let t = view_with("scaleType", "\"FIT_XY\"", &format!("\"{}\"", w));
        match AndroidView::parse(&t) {
            Err(_) => check(!W.contains(&w.as_str()), "scale types with a meaning are read"),
            Ok(a) => { check(w == match a.image.scale_type { Center => W[0], FitXy => W[1], FitStart => W[2], FitCenter => W[3], FitEnd => W[4], CenterCrop => W[5], CenterInside => W[6] }, "a scale type has its meaning"); check(a.reconstruct().ok() == Some(t), "the same scale type is written") }
        }
    } else {
        let w = match choose(4) { 0 => plain(2), 1 => s(["true", "false", "True", "TRUE", "", "1", "0"][choose(7) as usize]), 2 => near("true"), _ => near("false") };
        let t = view_with("indeterminate", "\"true\"", &format!("\"{}\"", w));
        match AndroidView::parse(&t) {
            Err(_) => check(w != "true" && w != "false", "true and false are read"),
            Ok(a) => { check(if a.indeterminate { w == "true" } else { w == "false" }, "a textual boolean has its meaning"); check(a.reconstruct().ok() == Some(t), "the same textual boolean is written") }
        }
    }
    reach("end");
}
/// Variable and list-variable types: every text of up to 3 bytes before the colon. [jobs 8]
#[no_mangle] pub extern "C" fn h_c08_variable() {
    let n = text_upto(3); for b in n.bytes() { assume(b != b':') }
    let t = format!("{}:nm:x", n);
    let list = choose(2) == 1;
    let r = if list { ListVariable::parse(&t).ok().map(|v| (v.name.clone(), v.r#type, v.reconstruct().unwrap_or_default())) } else { Variable::parse(&t).ok().map(|v| (v.name.clone(), v.r#type, v.reconstruct().unwrap_or_default())) };
    match r {
        None => check(!["0", "1", "2", "3"].contains(&n.as_str()), "variable types with a meaning are read"),
        Some((name, ty, u)) => { let c = match ty { VariableType::Boolean => "0", VariableType::Integer => "1", VariableType::String => "2", VariableType::HashMap => "3" };
            check(name == "nm:x", "the variable keeps its name"); check(n.trim_start_matches('+').trim_start_matches('0') == c.trim_start_matches('0'), "a variable type has its meaning"); check(u == format!("{}:nm:x", c), "the same variable type is written") }
    }
    reach("end");
}
/// Variable types from every byte code.
#[no_mangle] pub extern "C" fn h_c08_vartype() {
    let v = u8_();
    match VariableType::try_from(v) { Ok(t) => check(v == match t { VariableType::Boolean => 0, VariableType::Integer => 1, VariableType::String => 2, VariableType::HashMap => 3 } && t as u8 == v, "variable type by code"), Err(e) => check(v > 3 && e.value == v, "unknown variable type") }
    reach("end");
}
/// Activity options: all 256 numbers and all 16 flag sets, both ways.
#[no_mangle] pub extern "C" fn h_c08_options() {
    use swrs::parser::file::ActivityOptions;
    let n = u8_(); let o = ActivityOptions::from_num(n);
    check((o.toolbar_enabled == (n & 1 != 0)) & (o.fullscreen_enabled == (n & 2 != 0)) & (o.drawer_enabled == (n & 4 != 0)) & (o.fab_enabled == (n & 8 != 0)), "option bits");
    check(o.as_num() == n & 15, "option number");
    let (a, b, c, d) = (bool_(), bool_(), bool_(), bool_());
    let o = ActivityOptions { toolbar_enabled: a, fullscreen_enabled: b, drawer_enabled: c, fab_enabled: d };
    check(o.as_num() == a as u8 + 2 * b as u8 + 4 * c as u8 + 8 * d as u8, "option flags");
    check(ActivityOptions::from_num(o.as_num()) == o, "option flags back");
    reach("end");
}
/// Colours: components of all 2^32 values, rebuilding from components, and the default.
#[no_mangle] pub extern "C" fn h_c08_color() {
    let v = u32_(); let c = Color::from(v);
    check((c.alpha() as u32 == v >> 24) & (c.red() as u32 == (v >> 16) & 255) & (c.green() as u32 == (v >> 8) & 255) & (c.blue() as u32 == v & 255), "colour components");
    check(c.rgb() == (c.red(), c.green(), c.blue()), "colour triple");
    check(Color::from_argb(c.alpha(), c.red(), c.green(), c.blue()) == c, "components put back");
    check(Color::from_rgb(c.red(), c.green(), c.blue()) == Color::from(v | 0xff000000), "opaque colour");
    let w = u32_(); check((Color::from(w) == c) == (v == w), "colours are equal when their values are");
    check(Color::default() == Color::from(0xff000000), "default colour");
    reach("end");
}
/// Colour hex text of 0 to 9 characters in which any two adjacent bytes are free and the rest fixed digits. [jobs 8]
#[no_mangle] pub extern "C" fn h_c08_hex() {
    let n = choose(10) as usize;
    let t = if n < 2 { ascii(n) } else { let at = choose(n as u64 - 1) as usize; let b = if choose(2) == 0 { "0aBcD9Ef7" } else { "000000012" }; format!("{}{}{}", &b[..at], ascii(2), &b[at + 2..n]) };
    hex(n, t)
}
/// Colour hex text: 6 or 8 digits, all free among 0-9, a-f. [jobs 8]
#[no_mangle] pub extern "C" fn h_c08_hexall() {
    let n = 6 + 2 * choose(2) as usize;
    let v = bytes(n); for b in &v { assume(((*b >= b'0') & (*b <= b'9')) | ((*b >= b'a') & (*b <= b'f'))) }
    hex(n, unsafe { String::from_utf8_unchecked(v) })
}
fn hex(n: usize, t: String) {
    let mut v: u64 = 0; let mut ok = n > 0;
    let digits = if n > 1 && t.as_bytes()[0] == b'+' && n != 6 { &t[1..] } else { &t[..] };
    for b in digits.bytes() { let d = match b { b'0'..=b'9' => b - b'0', b'a'..=b'f' => b - b'a' + 10, b'A'..=b'F' => b - b'A' + 10, _ => { ok = false; 0 } }; v = v << 4 | d as u64; }
    if n == 6 { v |= 0xff000000 }
    if v > 0xffffffff { ok = false }
    match Color::parse_hex(&t) { Ok(c) => { check(ok, "only hexadecimal text is a colour"); check(c == Color::from(v as u32), "hexadecimal value") } Err(_) => check(!ok, "hexadecimal text is read") }
    reach("end");
}
/// Printing a colour: any single free byte in each position.
#[no_mangle] pub extern "C" fn h_c08_print() {
    let b = u8_() as u32; let sh = choose(4) * 8;
    let v = (0x80402010u32 & !(255 << sh)) | b << sh;
    let t = format!("{}", Color::from(v)); observe(t.as_bytes());
    check(t.len() == 10 && t.starts_with("0x"), "colour text form");
    check(Color::parse_hex(&t[2..]).ok() == Some(Color::from(v)), "colour text reads back");
    reach("end");
}
/// Colours in records: signed 32-bit numbers with one free byte in each position, or edge values. [jobs 8]
#[no_mangle] pub extern "C" fn h_c08_color_json() {
    let v = if choose(2) == 0 { [0u32, 0xffffffff, 0x7fffffff, 0x80000000, 0xff000000, 0x00ffffff, 1][choose(7) as usize] } else { let sh = choose(4) * 8; let b = vp_conc(u8_() as u64) as u32; ([0xffa0b0c0u32, 0x01020304][choose(2) as usize] & !(255 << sh)) | b << sh };
    let t = view_with("textColor", "-12298906", &(v as i32).to_string());
    match AndroidView::parse(&t) { Ok(a) => { check(a.text.text_color == Color::from(v), "a colour number has its value"); check(a.reconstruct().ok() == Some(t), "the same colour number is written") } Err(_) => check(false, "colour numbers are read") }
    reach("end");
}
/// Gravity: every byte; a direction is told when all its bits are set, centered when the axis says only that (Sketchware's reading); constants by table.
#[no_mangle] pub extern "C" fn h_c08_gravity() {
    let n = u8_(); let g = Gravity::new(n);
    check(g == Gravity(n), "gravity value");
    check((g.center_horizontal() == (n & 7 == 1)) & (g.left() == (n & 3 == 3)) & (g.right() == (n & 5 == 5)) & (g.center_vertical() == (n & 0x70 == 16)) & (g.center() == ((n & 7 == 1) & (n & 0x70 == 16))) & (g.top() == (n & 48 == 48)) & (g.bottom() == (n & 80 == 80)), "gravity flags");
    check((gravity::NONE, gravity::CENTER_HORIZONTAL, gravity::LEFT, gravity::RIGHT, gravity::CENTER_VERTICAL, gravity::CENTER, gravity::TOP, gravity::BOTTOM) == (0, 1, 3, 5, 16, 17, 48, 80), "gravity constants");
    check(Gravity::default() == Gravity(0), "no gravity");
    reach("end");
}

// ---------------------------------------------------------------- C14
fn kind_code(k: &ComponentKind) -> (u8, Option<&String>) {
    use ComponentKind::*;
    match k { Intent => (1, None), SharedPreferences { path } => (2, Some(path)), Calendar => (3, None), Vibrator => (4, None), Timer => (5, None), FirebaseDatabase { path } => (6, Some(path)), Dialog => (7, None), MediaPlayer => (8, None), SoundPool => (9, None), ObjectAnimator => (10, None), Gyroscope => (11, None), FirebaseAuth => (12, None), InterstitialAd => (13, None), FirebaseStorage { path } => (14, Some(path)), Camera => (15, None), FilePicker { mime_type } => (16, Some(mime_type)), RequestNetwork => (17, None), TextToSpeech => (18, None), SpeechToText => (19, None), BluetoothConnect => (20, None), LocationManager => (21, None) }
}
/// Components: every type code, id and first parameter any text of up to 2 bytes: kind by table, record written back, unknown codes refused. [jobs 8]
#[no_mangle] pub extern "C" fn h_c14_component() {
    let t = u8_(); let id = text_upto(2); let p = text_upto(2);
    let c = Component { id: id.clone(), param1: p.clone(), param2: s(""), param3: s(""), r#type: t };
    match ComponentKind::from_parser_component(&c) {
        Err(e) => { check(t == 0 || t > 21, "known components are read"); check(e.component_type == t && e.component_id == id, "the error names the component") }
        Ok(k) => {
            let (code, path) = kind_code(&k);
            check(code == t, "a component code has its kind");
            if let Some(x) = path { check(*x == p, "the parameter is kept") }
            let has = path.is_some();
            let back = k.into_parser_component(id.clone());
            check(back.r#type == t && back.id == id, "the component code is written back");
            check(back.param1 == if has { p } else { s("") } && back.param2.is_empty() && back.param3.is_empty(), "parameters are written back");
        }
    }
    reach("end");
}
/// Events: every type code and target type, name and target any text of up to 2 bytes. [jobs 8]
#[no_mangle] pub extern "C" fn h_c14_event() {
    let (t, tt) = (u8_(), u8_()); let (n, id) = (text_upto(2), text_upto(1));
    let e = Event { event_name: n.clone(), event_type: t, target_id: id.clone(), target_type: tt };
    match EventType::from_parser_event(&e) {
        Err(x) => { check(t == 0 || t > 3, "known events are read"); check(x.event_type == t && x.event_name == n, "the error names the event") }
        Ok(k) => {
            match &k { EventType::ViewEvent { id: i } => check(t == 1 && *i == id, "a view event"), EventType::ComponentEvent { id: i, component_type } => check(t == 2 && *i == id && *component_type == tt, "a component event"), EventType::ActivityEvent => check(t == 3, "an activity event") }
            let mut b = Event { event_name: n.clone(), event_type: 77, target_id: s("zz"), target_type: if t == 2 { 99 } else { tt } };
            k.apply_to_parser_event(&mut b);
            check(b.event_type == t && b.event_name == n && b.target_type == tt, "the event code is written back");
            check(b.target_id == if t == 3 { n } else { id }, "the event target is written back");
        }
    }
    reach("end");
}
/// Block types: every code of up to 2 bytes with type names of up to 2 free bytes or a list type. [jobs 8]
#[no_mangle] pub extern "C" fn h_c14_block_type() {
    use ArgumentBlockReturnType as R;
    let c = text_upto(2); let n = match choose(4) { 0 => s("List String"), 1 => s("List Number"), 2 => s("List Map"), _ => text_upto(2) };
    match BlockType::from(&c, n.clone()) {
        Err(e) => { let known = ["v", "p", "b", "s", "d", "c", "e", "f", " "].contains(&c.as_str()) || (c == "l" && (n == "List String" || n == "List Number")); check(!known, "known block types are read"); check(e.block_type == c && e.type_name == n, "the error names the type") }
        Ok(t) => {
            let want = match &t { BlockType::Regular => " ", BlockType::Argument(R::Boolean) => "b", BlockType::Argument(R::String) => "s", BlockType::Argument(R::Number) => "d", BlockType::Argument(R::View { .. }) => "v", BlockType::Argument(R::Component { .. }) => "p", BlockType::Argument(R::List { .. }) => "l", BlockType::Control(BlockControl::OneNest) => "c", BlockType::Control(BlockControl::TwoNest) => "e", BlockType::Control(BlockControl::EndingBlock) => "f" };
            check(c == want, "a block type has its code"); check(t.to_string() == c, "the block type is written back");
            match &t { BlockType::Argument(R::View { type_name }) | BlockType::Argument(R::Component { type_name }) => check(*type_name == n && t.get_typename() == Some(n), "the type name is kept"),
                BlockType::Argument(R::List { inner_type }) => check(t.get_typename() == Some(n.clone()) && n == match inner_type { ListItem::String => "List String", ListItem::Number => "List Number" }, "the list type is kept"), _ => check(t.get_typename().is_none(), "no type name") }
        }
    }
    reach("end");
}
const CATS: [(BlockCategory, u32); 9] = [(BlockCategory::Variable, 0xffee7d16), (BlockCategory::List, 0xffcc5b22), (BlockCategory::Control, 0xffe1a92a), (BlockCategory::Operator, 0xff5cb722), (BlockCategory::Math, 0xff23b9a9), (BlockCategory::File, 0xffa1887f), (BlockCategory::ViewFunc, 0xff4a6cd4), (BlockCategory::ComponentFunc, 0xfffca5e2), (BlockCategory::MoreBlock, 0xff8a55d7)];
/// Block categories: all opaque colours (2^24) against the table, and every category's colour.
#[no_mangle] pub extern "C" fn h_c14_category() {
    let v = u32_() | 0xff000000;
    let want = CATS.iter().find(|x| x.1 == v).map(|x| x.0);
    match BlockCategory::try_from(Color::from(v)) { Ok(c) => { check(want == Some(c), "a colour has its category"); let back: Color = c.into(); check(back == Color::from(v), "the category has its colour") } Err(e) => check(want.is_none() && e.color == Color::from(v), "other colours have no category") }
    let (c, x) = CATS[choose(9) as usize]; let col: Color = c.into(); check(col == Color::from(x), "every category has its own colour");
    let content = || BlockContent::builder().text("t").build();
    let b = Block::new(c, s("op"), content(), BlockType::Regular); check(b.color == Color::from(x) && b.category().ok() == Some(c) && b.sub_stack1.is_none() && b.sub_stack2.is_none() && b.block_type == BlockType::Regular, "plain block");
    let b = Block::new_1substack(c, s("op"), content(), Blocks::new()); check(b.color == Color::from(x) && b.sub_stack1 == Some(Blocks(vec![])) && b.sub_stack2.is_none() && b.block_type == BlockType::Control(BlockControl::OneNest), "block with one nest");
    let one = Blocks(vec![Block::new(c, s("i"), content(), BlockType::Regular)]);
    let b = Block::new_2substack(c, s("op"), content(), one.clone(), Blocks::new()); check(b.color == Color::from(x) && b.sub_stack1 == Some(one) && b.sub_stack2 == Some(Blocks(vec![])) && b.block_type == BlockType::Control(BlockControl::TwoNest), "block with two nests");
    reach("end");
}
pub fn view_code(v: &ViewType) -> u8 {
    use ViewType::*; use layout::Orientation as O;
    match v { LinearLayout { .. } => 0, ScrollView { orientation: O::Vertical, .. } => 12, ScrollView { .. } => 2, Button { .. } => 3, TextView { .. } => 4, EditText { .. } => 5, ImageView { .. } => 6, WebView => 7, ProgressBar { .. } => 8, ListView { .. } => 9, Spinner { .. } => 10, CheckBox { .. } => 11, Switch { .. } => 13, SeekBar { .. } => 14, CalendarView { .. } => 15, Fab { .. } => 16, AdView { .. } => 17, MapView => 18 }
}
/// View kinds: every type code: kind by table, same code back, unknown codes refused; image views and buttons without an image are refused.
#[no_mangle] pub extern "C" fn h_c14_view() {
    let mut a = crate::viewfile::av_full(); a.r#type = u8_(); let t = a.r#type;
    if choose(2) == 1 { a.image.res_name = None }
    let none = a.image.res_name.is_none();
    match ViewType::from_view(&a) {
        Ok(v) => { check(!(none && (t == 6 || t == 16)), "an image is required"); check(t != 1 && t <= 18, "unknown view types are refused"); check(view_code(&v) == t, "a view code has its kind"); check(v.get_type_id() == t, "the view code is written back") }
        Err(_) => check(t == 1 || t > 18 || (none && (t == 6 || t == 16)), "known view types are read"),
    }
    reach("end");
}
/// Components, events and block types whose names, targets and parameters are free texts of 1 to 24 characters or long and special texts. [jobs 8]
#[no_mangle] pub extern "C" fn h_c14_words() {
    let t = if choose(2) == 0 { any_plain() } else { wide() };
    match choose(4) {
        0 => { let k = choose(21) as u8 + 1; let c = Component { id: t.clone(), param1: s("p"), param2: s(""), param3: s(""), r#type: k }; match ComponentKind::from_parser_component(&c) { Ok(x) => { check(kind_code(&x).0 == k, "a component code has its kind"); let b = x.into_parser_component(t.clone()); check(b.id == t && b.r#type == k, "the component code is written back") } Err(_) => check(false, "known components are read") } }
        1 => { let k = [2u8, 6, 14, 16][choose(4) as usize]; let c = Component { id: s("i"), param1: t.clone(), param2: s(""), param3: s(""), r#type: k }; match ComponentKind::from_parser_component(&c) { Ok(x) => { check(kind_code(&x) == (k, Some(&t)), "the parameter is kept"); check(x.into_parser_component(s("i")) == c, "parameters are written back") } Err(_) => check(false, "known components are read") } }
        2 => { let k = choose(3) as u8 + 1; let tt = u8_(); let e = Event { event_name: if choose(2) == 0 { t.clone() } else { s("n") }, event_type: k, target_id: if k == 3 { s("ignored") } else { t.clone() }, target_type: tt };
            match EventType::from_parser_event(&e) { Ok(x) => { check(match &x { EventType::ViewEvent { id } => k == 1 && *id == t, EventType::ComponentEvent { id, component_type } => k == 2 && *id == t && *component_type == tt, EventType::ActivityEvent => k == 3 }, "an event has its kind"); let mut b = Event { event_name: e.event_name.clone(), event_type: 9, target_id: s("?"), target_type: tt }; x.apply_to_parser_event(&mut b); check(b.event_type == k && b.target_id == if k == 3 { e.event_name.clone() } else { t }, "the event code is written back") } Err(_) => check(false, "known events are read") } }
        _ => { let c = ["v", "p"][choose(2) as usize]; match BlockType::from(c, t.clone()) { Ok(x) => { check(x.to_string() == c && x.get_typename() == Some(t), "the type name is kept") } Err(_) => check(false, "known block types are read") } }
    }
    reach("end");
}
