//! C06: file, library and resource lists.
use crate::vp::*;
use swrs::parser::file::*;
use swrs::parser::library::*;
use swrs::parser::resource::*;
use swrs::parser::Parsable;

pub fn opts(n: u8) -> ActivityOptions { ActivityOptions { toolbar_enabled: n & 1 != 0, fullscreen_enabled: n & 2 != 0, drawer_enabled: n & 4 != 0, fab_enabled: n & 8 != 0 } }
pub fn fi(n: &str, t: FileType) -> FileItem { FileItem { filename: s(n), file_type: t, keyboard_setting: KeyboardSetting::Unspecified, options: opts(1), orientation: Orientation::Portrait, theme: Theme::Default } }
pub fn li(k: &str, t: u8) -> LibraryItem { LibraryItem { ad_units: vec![], data: s(k), lib_type: t, reserved1: s(""), reserved2: s(""), reserved3: s(""), test_devices: vec![], use_yn: s("N") } }
pub fn ri(n: &str) -> ResourceItem { ResourceItem { full_name: format!("{}.png", n), name: s(n), r#type: 1 } }

fn file_rt(f: &File, tag: &str) {
    match f.reconstruct() {
        Err(_) => check(false, "file list writes"),
        Ok(t) => { observe(t.as_bytes()); match File::parse(&t) {
            Ok(g) => { check(*f == g, tag); match g.reconstruct() { Ok(u) => check(u == t, "file list text"), Err(_) => check(false, "file list rewrites") } }
            Err(_) => check(false, "written file list parses") } }
    }
}
/// File lists with 0-3 activities and 0-3 custom views, free one-letter names. [jobs 4]
#[no_mangle] pub extern "C" fn h_c06_file_shape() {
    let (a, c) = (choose(4), choose(4));
    let f = File { activities: (0..a).map(|_| fi(&lower(1), FileType::Activity)).collect(), custom_views: (0..c).map(|_| fi(&lower(1), FileType::CustomView)).collect() };
    file_rt(&f, "file list"); reach("end");
}
/// File items: file name any UTF-8 text of up to 3 bytes, or every value of each coded field; in either section, before or after another item. [jobs 4]
#[no_mangle] pub extern "C" fn h_c06_file_item() {
    let mut x = FileItem { filename: s("f"), file_type: FileType::Drawer, keyboard_setting: KeyboardSetting::Hidden, options: opts(6), orientation: Orientation::Both, theme: Theme::Fullscreen };
    match choose(6) {
        0 => x.filename = text_upto(3), 1 => x.file_type = [FileType::Activity, FileType::CustomView, FileType::Drawer][choose(3) as usize],
        2 => x.keyboard_setting = [KeyboardSetting::Unspecified, KeyboardSetting::Visible, KeyboardSetting::Hidden][choose(3) as usize],
        3 => x.options = ActivityOptions { toolbar_enabled: bool_(), fullscreen_enabled: bool_(), drawer_enabled: bool_(), fab_enabled: bool_() },
        4 => x.orientation = [Orientation::Portrait, Orientation::Landscape, Orientation::Both][choose(3) as usize],
        _ => x.theme = [Theme::None, Theme::Default, Theme::Actionbar, Theme::Fullscreen][choose(4) as usize] }
    let y = fi("zz", FileType::Activity);
    let f = match choose(4) { 0 => File { activities: vec![x, y], custom_views: vec![] }, 1 => File { activities: vec![y], custom_views: vec![x] }, 2 => File { activities: vec![], custom_views: vec![y, x] }, _ => File { activities: vec![y, x.clone()], custom_views: vec![x] } };
    file_rt(&f, "file item"); reach("end");
}
fn lib_rt(l: &Library, tag: &str) {
    match l.reconstruct() {
        Err(_) => check(false, "library list writes"),
        Ok(t) => { observe(t.as_bytes()); match Library::parse(&t) {
            Ok(g) => { check(*l == g, tag); match g.reconstruct() { Ok(u) => check(u == t, "library list text"), Err(_) => check(false, "library list rewrites") } }
            Err(_) => check(false, "written library list parses") } }
    }
}
/// Library lists: in each of the four sections in turn, one field with any UTF-8 text of up to 2 bytes, 0-3 ad units and test devices with free text, any type byte; other sections distinct. [jobs 8]
#[no_mangle] pub extern "C" fn h_c06_library() {
    let mut it = [li("fb", 0), li("co", 1), li("ad", 2), li("gm", 3)];
    let x = &mut it[choose(4) as usize];
    x.reserved1 = s("r1"); x.reserved2 = s("r2"); x.reserved3 = s("r3");
    match choose(8) {
        0 => x.data = text_upto(2), 1 => x.reserved1 = text_upto(2), 2 => x.reserved2 = text_upto(2), 3 => x.reserved3 = text_upto(2), 4 => x.use_yn = text_upto(2), 5 => x.lib_type = u8_(),
        6 => { let n = choose(4); x.test_devices = (0..n).map(|i| if i == 1 { text_upto(1) } else { lower(1) }).collect() }
        _ => { let n = choose(4); x.ad_units = (0..n).map(|i| AdUnit { id: if i == 0 { text_upto(1) } else { lower(1) }, name: if i == 1 { text_upto(1) } else { lower(1) } }).collect() } }
    let [firebase_db, compat, admob, google_map] = it;
    lib_rt(&Library { firebase_db, compat, admob, google_map }, "library list"); reach("end");
}
fn res_rt(l: &Resource, tag: &str) {
    match l.reconstruct() {
        Err(_) => check(false, "resource list writes"),
        Ok(t) => { observe(t.as_bytes()); match Resource::parse(&t) {
            Ok(g) => { check(*l == g, tag); match g.reconstruct() { Ok(u) => check(u == t, "resource list text"), Err(_) => check(false, "resource list rewrites") } }
            Err(_) => check(false, "written resource list parses") } }
    }
}
/// Resource lists with 0-3 entries per section (all 64 shapes), free one-letter names. [jobs 4]
#[no_mangle] pub extern "C" fn h_c06_resource_shape() {
    let (a, b, c) = (choose(4), choose(4), choose(4));
    let g = |n: u64| (0..n).map(|_| ri(&lower(1))).collect::<Vec<_>>();
    let r = Resource { images: g(a), sounds: g(b), fonts: g(c) };
    res_rt(&r, "resource list"); reach("end");
}
/// Resource items: either name any UTF-8 text of up to 3 bytes, any type byte, in each section, first or last. [jobs 4]
#[no_mangle] pub extern "C" fn h_c06_resource_item() {
    let mut x = ri("q");
    match choose(3) { 0 => x.full_name = text_upto(3), 1 => x.name = text_upto(3), _ => x.r#type = u8_() }
    let y = ri("z"); let v = if choose(2) == 0 { vec![x, y.clone()] } else { vec![y.clone(), x] };
    let r = match choose(3) { 0 => Resource { images: v, sounds: vec![y], fonts: vec![] }, 1 => Resource { images: vec![y], sounds: v, fonts: vec![] }, _ => Resource { images: vec![], sounds: vec![y], fonts: v } };
    res_rt(&r, "resource item"); reach("end");
}
/// Canonical texts of the three lists with free characters: exact encodings read and reproduced.
#[no_mangle] pub extern "C" fn h_c06_canonical() {
    let (a, b, c) = (lower(1), lower(1), lower(1));
    let f = |n: &str, ty: u8| format!("{{\"fileName\":\"{n}\",\"fileType\":{ty},\"keyboardSetting\":1,\"options\":11,\"orientation\":2,\"theme\":-1}}");
    let t = format!("@activity\n{}\n{}\n@customview\n{}\n{}", f(&a, 0), f(&b, 0), f(&c, 1), f(&a, 2));
    let it = |n: &str, ty: FileType| FileItem { filename: s(n), file_type: ty, keyboard_setting: KeyboardSetting::Visible, options: opts(11), orientation: Orientation::Both, theme: Theme::None };
    match File::parse(&t) {
        Ok(x) => { check(x == File { activities: vec![it(&a, FileType::Activity), it(&b, FileType::Activity)], custom_views: vec![it(&c, FileType::CustomView), it(&a, FileType::Drawer)] }, "file list is read"); check(x.reconstruct().ok() == Some(t), "file list is reproduced") }
        Err(_) => check(false, "file list parses") }
    let l = |n: &str, ty: u8| format!("{{\"adUnits\":[{{\"id\":\"{n}1\",\"name\":\"{n}2\"}}],\"data\":\"{n}3\",\"libType\":{ty},\"reserved1\":\"{n}4\",\"reserved2\":\"{n}5\",\"reserved3\":\"{n}6\",\"testDevices\":[\"{n}7\",\"{n}8\"],\"useYn\":\"Y\"}}");
    let t = format!("@firebaseDB\n{}\n@compat\n{}\n@admob\n{}\n@googleMap\n{}", l(&a, 0), l(&b, 1), l(&c, 2), l("z", 3));
    let it = |n: &str, ty: u8| LibraryItem { ad_units: vec![AdUnit { id: format!("{n}1"), name: format!("{n}2") }], data: format!("{n}3"), lib_type: ty, reserved1: format!("{n}4"), reserved2: format!("{n}5"), reserved3: format!("{n}6"), test_devices: vec![format!("{n}7"), format!("{n}8")], use_yn: s("Y") };
    match Library::parse(&t) {
        Ok(x) => { check(x == Library { firebase_db: it(&a, 0), compat: it(&b, 1), admob: it(&c, 2), google_map: it("z", 3) }, "library list is read"); check(x.reconstruct().ok() == Some(t), "library list is reproduced") }
        Err(_) => check(false, "library list parses") }
    let r = |n: &str| format!("{{\"resFullName\":\"{n}.png\",\"resName\":\"{n}\",\"resType\":1}}");
    let t = format!("@images\n{}\n{}\n@sounds\n{}\n@fonts\n{}", r(&a), r(&b), r(&c), r("z"));
    match Resource::parse(&t) {
        Ok(x) => { check(x == Resource { images: vec![ri(&a), ri(&b)], sounds: vec![ri(&c)], fonts: vec![ri("z")] }, "resource list is read"); match x.reconstruct() { Ok(u) => { observe(u.as_bytes()); check(u == t, "resource list is reproduced") } Err(_) => check(false, "resource list writes") } }
        Err(_) => check(false, "resource list parses") }
    reach("end");
}

/// Reading sections in any order: the sections of the resource list, the library list and the file list in every order, with 0-2 entries each. [jobs 8]
#[no_mangle] pub extern "C" fn h_c06_order() {
    let m = lower(1);
    match choose(3) {
        0 => {
            let secs = ["images", "sounds", "fonts"]; let mut r: [Vec<ResourceItem>; 3] = [vec![], vec![], vec![]]; let mut t = vec![];
            for i in arrangement(3, 3) { let n = choose(3); t.push(format!("@{}", secs[i])); for j in 0..n { let x = ri(&format!("{}{}{}", m, i, j)); t.push(format!("{{\"resFullName\":\"{}\",\"resName\":\"{}\",\"resType\":1}}", x.full_name, x.name)); r[i].push(x) } }
            let [images, sounds, fonts] = r; let r = Resource { images, sounds, fonts };
            match Resource::parse(&t.join("\n")) { Ok(x) => { check(x == r, "resource sections are read in any order"); res_rt(&x, "rewritten in canonical order") } Err(_) => check(false, "resource sections in any order are read") }
        }
        1 => {
            let secs = ["firebaseDB", "compat", "admob", "googleMap"]; let mut l = [li("fb", 0), li("co", 1), li("ad", 2), li("gm", 3)]; l[2].reserved1 = m; let mut t = vec![];
            for i in arrangement(4, 4) { t.push(format!("@{}\n{}", secs[i], format!("{{\"adUnits\":[],\"data\":\"{}\",\"libType\":{},\"reserved1\":\"{}\",\"reserved2\":\"\",\"reserved3\":\"\",\"testDevices\":[],\"useYn\":\"N\"}}", l[i].data, l[i].lib_type, l[i].reserved1))) }
            let [firebase_db, compat, admob, google_map] = l; let l = Library { firebase_db, compat, admob, google_map };
            match Library::parse(&t.join("\n")) { Ok(x) => { check(x == l, "library sections are read in any order"); lib_rt(&x, "rewritten in canonical order") } Err(_) => check(false, "library sections in any order are read") }
        }
        _ => {
            let f = |n: &str, ty: u8| format!("{{\"fileName\":\"{n}\",\"fileType\":{ty},\"keyboardSetting\":0,\"options\":1,\"orientation\":0,\"theme\":1}}");
            let mut x = File { activities: vec![], custom_views: vec![] }; let mut t = vec![];
            for i in arrangement(2, 2) { let n = choose(3); t.push(s(["@activity", "@customview"][i])); for j in 0..n { let name = format!("{}{}{}", m, i, j); t.push(f(&name, i as u8)); let it = FileItem { theme: Theme::Actionbar, ..fi(&name, if i == 0 { FileType::Activity } else { FileType::CustomView }) }; if i == 0 { x.activities.push(it) } else { x.custom_views.push(it) } } }
            match File::parse(&t.join("\n")) { Ok(y) => { check(x == y, "file sections are read in any order"); file_rt(&y, "rewritten in canonical order") } Err(_) => check(false, "file sections in any order are read") }
        }
    }
    reach("end");
}
/// 4 to 130 entries in each section of each list, ad units and test devices included; one name free. [jobs 8]
#[no_mangle] pub extern "C" fn h_c06_large() {
    let n = SIZES[choose(8) as usize]; let m = lower(1); let names: Vec<String> = (0..n).map(|i| if i == n / 2 { format!("{}_{}", m, i) } else { format!("n{}", i) }).collect();
    match choose(7) {
        0 => file_rt(&File { activities: names.iter().map(|x| fi(x, FileType::Activity)).collect(), custom_views: vec![fi("c", FileType::CustomView)] }, "large file list"),
        1 => file_rt(&File { activities: vec![], custom_views: names.iter().map(|x| fi(x, FileType::CustomView)).collect() }, "large file list"),
        2 => res_rt(&Resource { images: names.iter().map(|x| ri(x)).collect(), sounds: vec![ri("z")], fonts: vec![] }, "large resource list"), 3 => res_rt(&Resource { images: vec![], sounds: names.iter().map(|x| ri(x)).collect(), fonts: vec![ri("z")] }, "large resource list"), 4 => res_rt(&Resource { images: vec![ri("z")], sounds: vec![], fonts: names.iter().map(|x| ri(x)).collect() }, "large resource list"),
        5 => { let mut a = li("a", 2); a.ad_units = names.iter().map(|x| AdUnit { id: x.clone(), name: format!("u{}", x) }).collect(); lib_rt(&Library { firebase_db: li("f", 0), compat: li("c", 1), admob: a, google_map: li("g", 3) }, "large library list") }
        _ => { let mut a = li("a", 2); a.test_devices = names; lib_rt(&Library { firebase_db: li("f", 0), compat: li("c", 1), admob: a, google_map: li("g", 3) }, "large library list") }
    }
    reach("end");
}
/// Long texts (15 to 1025 bytes) and 36 special texts (emoji, escapes, separators, look-alikes of numbers, headers and JSON) in every text field of the three lists. [jobs 8]
#[no_mangle] pub extern "C" fn h_c06_long() {
    let t = wide();
    match choose(9) {
        0 => file_rt(&File { activities: vec![fi(&t, FileType::Activity)], custom_views: vec![fi(&t, FileType::CustomView), fi("x", FileType::CustomView)] }, "long texts"),
        1 => res_rt(&Resource { images: vec![ri(&t), ri("y")], sounds: vec![ri(&t)], fonts: vec![ri("x"), ri(&t)] }, "long texts"),
        k => { let mut x = li("x", 0); match k { 2 => x.data = t, 3 => x.reserved1 = t, 4 => x.reserved2 = t, 5 => x.reserved3 = t, 6 => x.use_yn = t, 7 => x.test_devices = vec![t], _ => x.ad_units = vec![AdUnit { id: t.clone(), name: t }] } let l = [li("f", 0), li("c", 1), li("a", 2), li("g", 3)]; let mut l = l; l[choose(4) as usize] = x; let [firebase_db, compat, admob, google_map] = l; lib_rt(&Library { firebase_db, compat, admob, google_map }, "long texts") }
    }
    reach("end");
}
/// Repeated entries: 3 entries of each list (activities, custom views, images, sounds, fonts, ad units, test devices) of which any are equal to each other (all patterns), also across sections. [jobs 4]
#[no_mangle] pub extern "C" fn h_c06_repeats() {
    let m = lower(1); let n: Vec<String> = (0..3).map(|_| format!("{}{}", m, choose(3))).collect();
    match choose(3) {
        0 => file_rt(&File { activities: n.iter().map(|x| fi(x, FileType::Activity)).collect(), custom_views: n.iter().map(|x| fi(x, FileType::Activity)).collect() }, "repeated file items"),
        1 => res_rt(&Resource { images: n.iter().map(|x| ri(x)).collect(), sounds: n.iter().map(|x| ri(x)).collect(), fonts: n.iter().rev().map(|x| ri(x)).collect() }, "repeated resources"),
        _ => { let mut a = li("a", 2); a.ad_units = n.iter().map(|x| AdUnit { id: x.clone(), name: s("u") }).collect(); a.test_devices = n.clone(); lib_rt(&Library { firebase_db: a.clone(), compat: a.clone(), admob: a.clone(), google_map: a }, "repeated library entries") }
    }
    reach("end");
}
/// Texts of 1 to 24 free printable characters in each text field of the three lists. [jobs 8]
#[no_mangle] pub extern "C" fn h_c06_words() {
    let t = any_plain();
    match choose(12) {
        0 => file_rt(&File { activities: vec![fi(&t, FileType::Activity)], custom_views: vec![fi("x", FileType::CustomView)] }, "any texts"), 1 => file_rt(&File { activities: vec![fi("x", FileType::Activity)], custom_views: vec![fi(&t, FileType::CustomView), fi("x", FileType::CustomView)] }, "any texts"),
        2 => res_rt(&Resource { images: vec![ri("y")], sounds: vec![], fonts: vec![ri("x"), ResourceItem { full_name: t, name: s("n"), r#type: 1 }] }, "any texts"), 3 => res_rt(&Resource { images: vec![ResourceItem { full_name: s("n"), name: t, r#type: 1 }], sounds: vec![ri("x")], fonts: vec![] }, "any texts"),
        k => { let mut x = li("x", 0); match k { 4 => x.data = t, 5 => x.reserved1 = t, 6 => x.reserved2 = t, 7 => x.reserved3 = t, 8 => x.use_yn = t, 9 => x.test_devices = vec![t], 10 => x.ad_units = vec![AdUnit { id: t, name: s("n") }], _ => x.ad_units = vec![AdUnit { id: s("i"), name: t }] } let mut l = [li("f", 0), li("c", 1), li("a", 2), li("g", 3)]; l[choose(4) as usize] = x; let [firebase_db, compat, admob, google_map] = l; lib_rt(&Library { firebase_db, compat, admob, google_map }, "any texts") }
    }
    reach("end");
}
/// All fields of a file item at once (every combination of coded values), in each section. [jobs 8]
#[no_mangle] pub extern "C" fn h_c06_all_codes() {
    let x = FileItem { filename: s("f"), file_type: [FileType::Activity, FileType::CustomView, FileType::Drawer][choose(3) as usize], keyboard_setting: [KeyboardSetting::Unspecified, KeyboardSetting::Visible, KeyboardSetting::Hidden][choose(3) as usize], options: opts(choose(16) as u8), orientation: [Orientation::Portrait, Orientation::Landscape, Orientation::Both][choose(3) as usize], theme: [Theme::None, Theme::Default, Theme::Actionbar, Theme::Fullscreen][choose(4) as usize] };
    if choose(2) == 0 { file_rt(&File { activities: vec![x], custom_views: vec![] }, "file item codes") } else { file_rt(&File { activities: vec![], custom_views: vec![x] }, "file item codes") }
    reach("end");
}
/// The places in a JSON text that hold a value: (start, end) of each string's inside, and of each number.
pub fn places(t: &str) -> (Vec<(usize, usize)>, Vec<(usize, usize)>) {
    let b = t.as_bytes(); let (mut s, mut n) = (vec![], vec![]); let mut i = 0;
    while i < b.len() {
        if b[i] == b'"' { let j = i + 1; i = j; while b[i] != b'"' { i += 1 } if b.get(i + 1) != Some(&b':') { s.push((j, i)) } i += 1 }
        else if b[i] == b'-' || b[i].is_ascii_digit() { let j = i; while i < b.len() && b"-.0123456789".contains(&b[i]) { i += 1 } n.push((j, i)) } else { i += 1 }
    }
    (s, n)
}
pub fn put(t: &str, p: (usize, usize), v: &str) -> String { format!("{}{}{}", &t[..p.0], v, &t[p.1..]) }
/// Empty texts and zeros in canonical texts: any one text of a file item, library item or resource item empty or any letter, with any one other empty as well: reproduced.
#[no_mangle] pub extern "C" fn h_c06_empty() {
    use crate::parse::{FILE, LIB, RES}; let k = choose(3); let mut t = s([FILE, LIB, RES][k as usize]);
    if k == 1 { t = t.replace("\"data\":\"\"", "\"data\":\"d\"").replace("ed1\":\"\"", "ed1\":\"d\"").replace("ed2\":\"\"", "ed2\":\"d\"").replace("ed3\":\"\"", "ed3\":\"d\"") }
    let p = places(&t).0; let v = lower(1); let (a, c) = (choose(p.len() as u64) as usize, choose(p.len() as u64 + 1) as usize);
    let (hi, lo) = if c < p.len() && c > a { (Some(c), Some(a)) } else if c < a { (Some(a), Some(c)) } else { (Some(a), None) };
    let w = choose(2); for x in [hi, lo] { if let Some(x) = x { t = put(&t, p[x], if x == a && w == 1 { &v } else { "" }) } }
    let u = match k { 0 => FileItem::parse(&t).ok().and_then(|x| x.reconstruct().ok()), 1 => LibraryItem::parse(&t).ok().and_then(|x| x.reconstruct().ok()), _ => ResourceItem::parse(&t).ok().and_then(|x| x.reconstruct().ok()) };
    match u { Some(u) => { observe(u.as_bytes()); check(u == t, "empty texts are reproduced") } None => check(false, "empty texts are read") }
    reach("end");
}
