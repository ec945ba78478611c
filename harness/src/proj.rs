//! C07: project metadata.
use crate::vp::*;
use swrs::color::Color;
use swrs::parser::project::*;
use swrs::parser::Parsable;

pub fn project() -> Project {
    Project { id: 601, app_name: s("an"), workspace_name: s("wn"), package_name: s("pn"), version_code: 12, version_name: s("vn"), date_created: 1650000000, custom_icon: true,
        color_palette: ProjectColorPalette { color_primary: Color::from(0xff010203), color_primary_dark: Color::from(0xff040506), color_accent: Color::from(0xff070809), color_control_normal: Color::from(0xff0a0b0c), color_control_highlight: Color::from(0x200d0e0f) }, sketchware_version: 150 }
}
fn text_of(date: &str) -> String {
    format!("{{\"sc_id\":\"601\",\"my_app_name\":\"an\",\"my_ws_name\":\"wn\",\"my_sc_pkg_name\":\"pn\",\"sc_ver_code\":\"12\",\"sc_ver_name\":\"vn\",\"my_sc_reg_dt\":\"{date}\",\"custom_icon\":true,\"color_primary\":-16711165,\"color_primary_dark\":-16513786,\"color_accent\":-16316407,\"color_control_normal\":-16119028,\"color_control_highlight\":537726479,\"sketchware_ver\":150}}")
}
fn rt(p: &Project, tag: &str) {
    match p.reconstruct() {
        Err(_) => check(false, "project writes"),
        Ok(t) => { observe(t.as_bytes()); match Project::parse(&t) { Ok(q) => { check(*p == q, tag); match q.reconstruct() { Ok(u) => check(u == t, "project text"), Err(_) => check(false, "project rewrites") } } Err(_) => check(false, "written project parses") } }
    }
}
/// Every field in turn: texts any UTF-8 of up to 2 bytes, flag both, bytes and 16-bit numbers by edges plus any byte, each colour by edges and one free byte in each position. [jobs 8]
#[no_mangle] pub extern "C" fn h_c07_fields() {
    let mut p = project();
    let c = |k: u64| -> Color { match k { 0 => Color::from(num(I32E) as u32), 1 => Color::from((u8_() as u32) << 24 | 5), 2 => Color::from((u8_() as u32) << 16), _ => Color::from((u8_() as u32) << 8 | 0xff000001) } };
    match choose(13) {
        0 => p.id = num(&[0, 65535, 1000, 32768]) as u16, 1 => p.app_name = text_upto(2), 2 => p.workspace_name = text_upto(2), 3 => p.package_name = text_upto(2), 4 => p.version_code = num(&[0, 65535, 1000, 32768]) as u16, 5 => p.version_name = text_upto(2),
        6 => p.custom_icon = bool_(), 7 => p.sketchware_version = u8_(), 8 => p.color_palette.color_primary = c(choose(4)), 9 => p.color_palette.color_primary_dark = c(choose(4)), 10 => p.color_palette.color_accent = c(choose(4)), 11 => p.color_palette.color_control_normal = c(choose(4)), _ => p.color_palette.color_control_highlight = c(choose(4)) }
    rt(&p, "project fields"); reach("end");
}
/// The full 16-bit range of the two text-encoded numbers. [jobs 4]
#[no_mangle] pub extern "C" fn h_c07_u16_t() { let mut p = project(); let n = u16_(); if choose(2) == 0 { p.id = n } else { p.version_code = n } rt(&p, "16-bit numbers"); reach("end"); }

fn leap(y: i64) -> bool { (y % 4 == 0) & ((y % 100 != 0) | (y % 400 == 0)) }
fn mdays(y: i64, m: i64) -> i64 { match m { 2 => if leap(y) { 29 } else { 28 }, 4 | 6 | 9 | 11 => 30, _ => 31 } }
/// Days since 1970-01-01 in the proleptic Gregorian calendar, counted from year 0.
fn days(y: i64, m: i64, d: i64) -> i64 {
    let cum = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334];
    let before = y * 365 + if y > 0 { (y - 1) / 4 - (y - 1) / 100 + (y - 1) / 400 + 1 } else { 0 };
    before + cum[(m - 1) as usize] + if m > 2 && leap(y) { 1 } else { 0 } + d - 1 - 719528
}
fn digits(n: usize) -> Vec<u8> { let v = bytes(n); for b in &v { assume(b.wrapping_sub(b'0') < 10) } v }
/// The same digits, split into one path per value.
fn fixed(v: &[u8]) -> Vec<u8> { v.iter().map(|b| vp_conc(*b as u64) as u8).collect() }
fn st(v: &[u8]) -> &str { unsafe { std::str::from_utf8_unchecked(v) } }
fn val(v: &[u8]) -> i64 { v.iter().fold(0, |a, b| a * 10 + (*b - b'0') as i64) }
fn date_case(y: i64, m: i64, d: i64, h: i64, mi: i64, se: i64, text: &str) {
    let good = m >= 1 && m <= 12 && d >= 1 && d <= mdays(y, m) && h < 24 && mi < 60 && se < 60;
    let t = text_of(text);
    match Project::parse(&t) {
        Err(_) => { check(!good, "a real date is read"); observe(b"E"); reach("rejected") }
        Ok(p) => {
            check(good, "not a date: rejected");
            if !good { return }
            check(p.date_created == (days(y, m, d) * 86400 + h * 3600 + mi * 60 + se) as u64, "creation time");
            observe_u64(p.date_created);
            match p.reconstruct() { Ok(u) => check(u == t, "date is reproduced"), Err(_) => check(false, "date writes") }
            reach("accepted");
        }
    }
    reach("end");
}
/// All month/day digit pairs 00-99 x 00-99 in years 0, 4, 1900, 1970, 2000, 2023, 2024, 9999 at 23:59:59. [jobs 8]
#[no_mangle] pub extern "C" fn h_c07_month_day() {
    let y = [0i64, 4, 1900, 1970, 2000, 2023, 2024, 9999][choose(8) as usize];
    let md = digits(4); let mm = fixed(&md[0..2]); let dd = if choose(2) == 0 { assume((md[2] > b'3') | (mm[0] > b'1')); md[2..4].to_vec() } else { assume((md[2] <= b'3') & (mm[0] <= b'1')); fixed(&md[2..4]) };
    date_case(y, val(&mm), val(&dd), 23, 59, 59, &format!("{:04}{}{}235959", y, st(&mm), st(&dd)));
}
/// All hour, minute and second digit pairs (one pair free at a time, the others at both ends of their range). [jobs 6]
#[no_mangle] pub extern "C" fn h_c07_time() {
    let w = choose(3); let e = choose(2); let v = digits(2); let x = val(&v);
    let q = |n: i64| if e == 0 { 0 } else { n }; let f = |n: i64| format!("{:02}", q(n)); let xs = st(&v).to_string();
    let (h, mi, se, t) = match w { 0 => (x, q(59), q(59), xs + &f(59) + &f(59)), 1 => (q(23), x, q(59), f(23) + &xs + &f(59)), _ => (q(23), q(59), x, f(23) + &f(59) + &xs) };
    date_case(2024, 2, 29, h, mi, se, &format!("20240229{}", t));
}
/// Every year 0000-9999 at 29 February and 31 December. [jobs 8] [time 500]
#[no_mangle] pub extern "C" fn h_c07_years() {
    let v = fixed(&digits(4));
    let (m, d) = [(2, 29), (12, 31)][choose(2) as usize];
    date_case(val(&v), m, d, 0, 0, 0, &format!("{}{:02}{:02}000000", st(&v), m, d));
}
/// Every year 0000-9999 at 1 January, 28 February, 1 March, 30 June and 31 October. [jobs 8]
#[no_mangle] pub extern "C" fn h_c07_years_t() {
    let v = fixed(&digits(4));
    let (m, d) = [(1, 1), (2, 28), (3, 1), (6, 30), (10, 31)][choose(5) as usize];
    date_case(val(&v), m, d, 12, 34, 56, &format!("{}{:02}{:02}123456", st(&v), m, d));
}
/// Arbitrary date texts of up to 4 free bytes, and 14-character dates with any one or two adjacent characters replaced by free bytes: a date of 14 digits or an error. [jobs 8]
#[no_mangle] pub extern "C" fn h_c07_garbled() {
    let base = b"20240229235958";
    if choose(2) == 0 {
        let k = choose(4) as usize; let t = plain(k); let cut = choose(15) as usize;
        let date = format!("{}{}", std::str::from_utf8(&base[..cut]).unwrap(), t);
        if date.len() == 14 { assume(false) }
        check(Project::parse(&text_of(&date)).is_err(), "a date must have 14 digits");
    } else {
        let at = choose(13) as usize; let mut b = base.to_vec(); let t = plain(2); b[at] = t.as_bytes()[0]; b[at + 1] = t.as_bytes()[1];
        let isd = |x: u8| x.wrapping_sub(b'0') < 10;
        if isd(b[at]) & isd(b[at + 1]) { assume(false) }
        check(Project::parse(&text_of(&String::from_utf8(b).unwrap())).is_err(), "a date has digits only");
    }
    reach("end");
}
/// Timestamps whose year is not 0000-9999 are reported, never written wrongly: edges of the range and of the 64-bit width, with free low byte. [jobs 2]
#[no_mangle] pub extern "C" fn h_c07_out_of_range() {
    let mut p = project();
    let lo = u8_() as u64;
    let (t, ok) = match choose(6) { 0 => (253402300800 + lo, false), 1 => (253402300799 - lo, true), 2 => (u64::MAX - lo, true), 3 => (i64::MAX as u64 - lo, false), 4 => ((1u64 << 63) + lo, false), _ => ((-62167219200i64 - 1 - lo as i64) as u64, false) };
    p.date_created = vp_conc(t);
    match p.reconstruct() {
        Err(_) => check(!ok, "a date in range writes"),
        Ok(x) => { check(ok, "a date out of range is an error"); match Project::parse(&x) { Ok(q) => check(q == p, "date at the edge"), Err(_) => check(false, "written date parses") } }
    }
    reach("end");
}
/// Numbers in text form: ids with up to 3 free bytes in front of/behind digits; accepted exactly when they are a 16-bit number. [jobs 8]
#[no_mangle] pub extern "C" fn h_c07_numbers() {
    let t = plain(choose(4) as usize); let tail = ["", "5", "99"][choose(3) as usize]; let x = format!("{}{}", t, tail);
    let which = choose(2);
    let j = text_of("20240229235958"); let j = if which == 0 { j.replace("\"601\"", &format!("\"{}\"", x)) } else { j.replace("\"12\"", &format!("\"{}\"", x)) };
    let d = x.as_bytes(); let d = if !d.is_empty() && d[0] == b'+' { &d[1..] } else { d };
    let mut good = !d.is_empty(); for b in d { good &= b.wrapping_sub(b'0') < 10 }
    match Project::parse(&j) {
        Err(_) => { if good { check(val(d) > 65535, "a number in range is read") } reach("rejected") }
        Ok(p) => { check(good, "not a number: rejected"); if good { let n = if which == 0 { p.id } else { p.version_code }; check(n as i64 == val(d), "the number is read"); observe_u64(n as u64) } reach("accepted") }
    }
    reach("end");
}
/// The canonical text, read and reproduced, with free names and colours of all four bytes.
#[no_mangle] pub extern "C" fn h_c07_canonical() {
    let t = text_of("20220415052000").replace("\"an\"", &format!("\"{}\"", lower(2)));
    match Project::parse(&t) {
        Ok(p) => { let mut q = project(); q.app_name = p.app_name.clone(); check(p == q, "every field is read from its key"); observe(p.app_name.as_bytes()); check(p.reconstruct().ok() == Some(t), "canonical text is reproduced") }
        Err(_) => check(false, "canonical project parses") }
    reach("end");
}
/// Long texts (15 to 1025 bytes) and 36 special texts (emoji, escapes, separators, look-alikes of numbers, headers and JSON) in every text field of the project record.
#[no_mangle] pub extern "C" fn h_c07_long() {
    let t = wide(); let mut p = project();
    match choose(4) { 0 => p.app_name = t, 1 => p.workspace_name = t, 2 => p.package_name = t, _ => p.version_name = t }
    rt(&p, "long texts"); reach("end");
}
/// Texts of 1 to 24 free printable characters in each text field, and two fields at once: each pair of fields at one of four edges. [jobs 8]
#[no_mangle] pub extern "C" fn h_c07_words() {
    let mut p = project();
    if choose(2) == 0 { let t = any_plain(); match choose(4) { 0 => p.app_name = t, 1 => p.workspace_name = t, 2 => p.package_name = t, _ => p.version_name = t } }
    else {
        let set = |p: &mut Project, k: u64, e: usize| { let t = s(["", "true", "0", "1.0"][e]); let n = [0u16, 1, 65535, 601][e]; let c = Color::from([0u32, 0xffffffff, 0x80000000, 0x00ffffff][e]); match k { 0 => p.id = n, 1 => p.app_name = t, 2 => p.workspace_name = t, 3 => p.package_name = t, 4 => p.version_code = n, 5 => p.version_name = t, 6 => p.date_created = [0u64, 1, 253402300799, 951782399][e], 7 => p.custom_icon = e == 1, 8 => p.color_palette.color_primary = c, 9 => p.color_palette.color_primary_dark = c, 10 => p.color_palette.color_accent = c, 11 => p.color_palette.color_control_normal = c, 12 => p.color_palette.color_control_highlight = c, _ => p.sketchware_version = [0, 1, 255, 150][e] } };
        let (k, j) = (choose(13), choose(14)); assume(j > k); set(&mut p, k, choose(4) as usize); set(&mut p, j, choose(4) as usize);
    }
    rt(&p, "any texts and edges"); reach("end");
}
/// Canonical project records: any of the four free texts empty or any letter, and any number or colour 0, 1 or -1: reproduced.
#[no_mangle] pub extern "C" fn h_c07_empty() {
    use crate::lists::{places, put}; let mut t = s(crate::parse::PROJ); let v = lower(1);
    let mut k = 0; while k < places(&t).0.len() { let x = places(&t).0[k]; if ["my_app_name\":\"", "my_ws_name\":\"", "my_sc_pkg_name\":\"", "sc_ver_name\":\""].iter().any(|n| t[..x.0].ends_with(n)) { t = match choose(3) { 0 => t, 1 => put(&t, x, ""), _ => put(&t, x, &v) } } k += 1 }
    let n = places(&t).1; let n: Vec<_> = n.into_iter().filter(|x| t[..x.0].ends_with(':')).collect(); let x = n[choose(n.len() as u64) as usize]; let ver = t[..x.0].ends_with("sketchware_ver\":");
    t = put(&t, x, ["0", "1", if ver { "2" } else { "-1" }][choose(3) as usize]);
    match Project::parse(&t) { Ok(p) => match p.reconstruct() { Ok(u) => { observe(u.as_bytes()); check(u == t, "empty texts and small numbers are reproduced") } Err(_) => check(false, "they are written") }, Err(_) => check(false, "empty texts and small numbers are read") }
    reach("end");
}
