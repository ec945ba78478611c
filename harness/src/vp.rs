//! Harness interface.  The symbolic engine intercepts the `vp_*` functions by name;
//! their bodies below are the native replay: symbolic bytes come from the replay file.
#![allow(dead_code)]
use std::cell::RefCell;

pub struct Replay { pub bytes: Vec<u8>, pub pos: usize, pub obs: Vec<u8>, pub reach: Vec<String> }
thread_local!(pub static RP: RefCell<Replay> = RefCell::new(Replay { bytes: vec![], pos: 0, obs: vec![], reach: vec![] }));

pub fn finish(code: i32, msg: &str) -> ! {
    RP.with(|r| { let r = r.borrow(); let h: String = r.obs.iter().map(|b| format!("{:02x}", b)).collect(); println!("OBS {}", h); println!("REACH {}", r.reach.join(",")); });
    println!("END {} {}", code, msg);
    std::process::exit(code)
}

#[no_mangle] #[inline(never)]
pub extern "C" fn vp_sym(p: *mut u8, n: usize) {
    RP.with(|r| { let mut r = r.borrow_mut(); for i in 0..n { let b = if r.pos < r.bytes.len() { r.bytes[r.pos] } else { 0 }; r.pos += 1; unsafe { *p.add(i) = b } } })
}
#[no_mangle] #[inline(never)]
pub extern "C" fn vp_assume(c: bool) { if !c { finish(77, "assumption") } }
#[no_mangle] #[inline(never)]
pub extern "C" fn vp_check(c: bool, p: *const u8, n: usize) {
    if !c { let s = unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, n)) }.to_string(); finish(42, &s) }
}
#[no_mangle] #[inline(never)]
pub extern "C" fn vp_reach(p: *const u8, n: usize) {
    let s = unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, n)) }.to_string();
    RP.with(|r| r.borrow_mut().reach.push(s))
}
#[no_mangle] #[inline(never)]
pub extern "C" fn vp_observe(p: *const u8, n: usize) { let s = unsafe { std::slice::from_raw_parts(p, n) }; RP.with(|r| r.borrow_mut().obs.extend_from_slice(s)) }
#[no_mangle] #[inline(never)]
pub extern "C" fn vp_file(p: *const u8, n: usize, d: *const u8, m: usize) {
    let path = unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, n)) };
    let data = unsafe { std::slice::from_raw_parts(d, m) };
    if let Some(parent) = std::path::Path::new(path).parent() { let _ = std::fs::create_dir_all(parent); }
    std::fs::write(path, data).expect("replay file");
}
#[no_mangle] #[inline(never)]
pub extern "C" fn vp_conc(v: u64) -> u64 { v }
/// Number of files below the current (scratch) directory.
#[no_mangle] #[inline(never)]
pub extern "C" fn vp_nfiles() -> u64 { fn n(d: &std::path::Path) -> u64 { std::fs::read_dir(d).map(|r| r.flatten().map(|e| if e.path().is_dir() { n(&e.path()) } else { 1 }).sum()).unwrap_or(0) } n(std::path::Path::new(".")) }
#[no_mangle] #[inline(never)]
pub extern "C" fn vp_in_engine() -> bool { false }

// ---- convenience -------------------------------------------------------------------
pub fn u8_() -> u8 { let mut b = 0u8; vp_sym(&mut b, 1); b }
pub fn u16_() -> u16 { let mut b = [0u8; 2]; vp_sym(b.as_mut_ptr(), 2); u16::from_le_bytes(b) }
pub fn u32_() -> u32 { let mut b = [0u8; 4]; vp_sym(b.as_mut_ptr(), 4); u32::from_le_bytes(b) }
pub fn i32_() -> i32 { u32_() as i32 }
pub fn u64_() -> u64 { let mut b = [0u8; 8]; vp_sym(b.as_mut_ptr(), 8); u64::from_le_bytes(b) }
pub fn assume(c: bool) { vp_assume(c) }
pub fn check(c: bool, id: &str) { vp_check(c, id.as_ptr(), id.len()) }
pub fn reach(id: &str) { vp_reach(id.as_ptr(), id.len()) }
pub fn observe(b: &[u8]) { vp_observe(b.as_ptr(), b.len()) }
pub fn observe_u64(v: u64) { observe(&v.to_le_bytes()) }
pub fn file(path: &str, data: &[u8]) { vp_file(path.as_ptr(), path.len(), data.as_ptr(), data.len()) }
pub fn bool_() -> bool { let b = u8_(); assume(b < 2); b == 1 }
/// One of `n` alternatives, as a concrete number on every path.
pub fn choose(n: u64) -> u64 { let b = u8_(); assume((b as u64) < n); vp_conc(b as u64) }
pub fn bytes(n: usize) -> Vec<u8> { let mut v = vec![0u8; n]; vp_sym(v.as_mut_ptr(), n); v }
/// Any UTF-8 string of exactly `n` bytes.
pub fn text(n: usize) -> String { match String::from_utf8(bytes(n)) { Ok(s) => s, Err(_) => { assume(false); String::new() } } }
/// Any UTF-8 string of 0..=n bytes.
pub fn text_upto(n: usize) -> String { let k = choose(n as u64 + 1) as usize; text(k) }
/// Any 7-bit string of exactly `n` bytes (no split on character classes).
pub fn ascii(n: usize) -> String { let v = bytes(n); for b in &v { assume(*b < 0x80) } unsafe { String::from_utf8_unchecked(v) } }
/// A string of `n` bytes drawn from 'a'..='z'.
pub fn lower(n: usize) -> String { let v = bytes(n); for b in &v { assume(b.wrapping_sub(b'a') < 26) } unsafe { String::from_utf8_unchecked(v) } }
/// Printable characters that need no JSON escape (no quote, backslash, control, DEL..).
pub fn plain(n: usize) -> String { let v = bytes(n); for b in &v { assume((*b >= 0x20) & (*b < 0x7f) & (*b != b'"') & (*b != b'\\')) } unsafe { String::from_utf8_unchecked(v) } }
/// Any UTF-8 string of exactly `n` bytes without a newline.
pub fn line(n: usize) -> String { let v = bytes(n); for b in &v { assume(*b != b'\n') } match String::from_utf8(v) { Ok(s) => s, Err(_) => { assume(false); String::new() } } }
pub fn line_upto(n: usize) -> String { let k = choose(n as u64 + 1) as usize; line(k) }
pub fn s(x: &str) -> String { x.to_string() }
/// A number: edge cases of the width, or any value of one byte.
pub fn num(edges: &[i64]) -> i64 { let k = choose(edges.len() as u64 + 1) as usize; if k < edges.len() { edges[k] } else { u8_() as i64 } }
pub const I32E: &[i64] = &[-1, 0, 2147483647, -2147483648, -16777216, 1000000];
/// One of `n` alternatives for any n below 65536.
pub fn pick(n: u64) -> u64 { if n <= 256 { return choose(n) } let hi = choose((n + 255) / 256); let lo = choose(256); let v = hi * 256 + lo; assume(v < n); v }
/// `base` with the `n` bytes at `at` replaced by any valid UTF-8 of n bytes.
pub fn hole(base: &str, at: usize, n: usize) -> String { let mut v = Vec::with_capacity(base.len()); v.extend_from_slice(&base.as_bytes()[..at]); v.extend_from_slice(text(n).as_bytes()); v.extend_from_slice(&base.as_bytes()[at + n..]); unsafe { String::from_utf8_unchecked(v) } }

/// A text of `n` bytes that looks like ordinary content, with one free lower-case letter in the middle.
pub fn long(n: usize) -> String { let mut v: Vec<u8> = (0..n).map(|i| b"the quick brown fox:jumps-over_the,lazy.dog"[i % 43]).collect(); if n > 0 { let b = u8_(); assume(b.wrapping_sub(b'a') < 26); v[n / 2] = b } unsafe { String::from_utf8_unchecked(v) } }
/// `k` different positions out of 0..n in every order.
pub fn arrangement(n: u64, k: usize) -> Vec<usize> { let mut left: Vec<usize> = (0..n as usize).collect(); (0..k).map(|_| { let i = choose(left.len() as u64) as usize; left.remove(i) }).collect() }
/// Sizes around the usual limits.
pub const SIZES: [usize; 8] = [4, 9, 10, 11, 17, 33, 65, 130];
pub const LENS: [usize; 9] = [15, 16, 17, 32, 33, 64, 129, 256, 1025];
/// Texts with something special about them (no free byte): escapes, other scripts, separators of the data files, look-alikes of other values.
pub const RICH: [&str; 36] = ["\u{1f600}", "a\u{1f600}b", "\u{65e5}\u{672c}\u{8a9e}", "\u{e9}t\u{e9}", "e\u{301}", "\u{feff}x", "\u{0}", "\u{7f}", "\u{1b}[0m", "\ttab\t", "cr\r", "\"quoted\"", "back\\slash\\", "\\n", "\\u0041", "@x", "@", "%s %m.view", "100%", "a:b", ":", " lead", "trail ", "  ", "a_b_c", "_", "null", "true", "0", "-1", "1e5", "{}", "[\"a\"]", "{\"id\":1}", "<a href='b'>&amp;</a>", "line\nbreak\n\n@x"];
/// A long text or one of the special texts.
pub fn wide() -> String { let k = choose(45) as usize; if k < 9 { long(LENS[k]) } else { s(RICH[k - 9]) } }
/// The same without line breaks.
pub fn wide_line() -> String { let k = choose(44) as usize; if k < 9 { long(LENS[k]) } else { s(RICH[k - 9]) } }
/// A name of exactly `n` bytes over letters, digits and underscore.
pub fn name(n: usize) -> String { let v = bytes(n); for b in &v { assume(((*b | 32).wrapping_sub(b'a') < 26) | (b.wrapping_sub(b'0') < 10) | (*b == b'_')) } unsafe { String::from_utf8_unchecked(v) } }
pub const NAME_LENS: [usize; 16] = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14, 16, 18, 21, 24];
/// Any name (letters, digits, underscore) of one of 16 lengths from 1 to 24; 'J' and 'z' only in the first place.
pub fn any_name() -> String { let k = choose(16) as usize; let t = name(NAME_LENS[k]); no_late_j(&t); t }
/// No 'J' or 'z' beyond the first character: std's search for a line end or a colon looks closer at every byte that
/// equals it modulo 64, and these are the only such letters.
fn no_late_j(t: &str) { for b in t.bytes().skip(1) { assume((b != b'J') & (b != b'z')) } }
/// Any name of 1 to 5 bytes, for places where std searches a longer pattern in it.
pub fn short_name() -> String { let k = choose(5) as usize; name(k + 1) }
/// Any printable text without quote or backslash of one of 16 lengths from 1 to 24; 'J' and 'z' only in the first place.
pub fn any_plain() -> String { let k = choose(16) as usize; let t = plain(NAME_LENS[k]); no_late_j(&t); t }
