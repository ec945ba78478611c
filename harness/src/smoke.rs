use crate::vp::*;
use swrs::color::Color;
use swrs::parser::Parsable;
#[no_mangle] pub extern "C" fn h_smoke_color() {
    let s = text(4);
    let r = Color::parse_hex(&s);
    observe(&[r.is_ok() as u8]);
    if let Ok(c) = r { observe_u64(c.red() as u64); reach("ok"); } else { reach("err") }
    reach("end");
}
#[no_mangle] pub extern "C" fn h_smoke_u32() {
    let x = u16_() as u32;
    let s = x.to_string();
    observe(s.as_bytes());
    let y: u32 = s.parse().unwrap();
    check(x == y, "roundtrip");
    reach("end");
}
#[no_mangle] pub extern "C" fn h_smoke_json() {
    let s = text(3);
    let j = serde_json::to_string(&s).unwrap();
    observe(j.as_bytes());
    let t: String = serde_json::from_str(&j).unwrap();
    check(s == t, "roundtrip");
    reach("end");
}
#[no_mangle] pub extern "C" fn h_smoke_file() {
    let k = text(4);
    let r = swrs::parser::file::File::parse(&format!("@activity\n{}", k));
    observe(&[r.is_ok() as u8]);
    reach("end");
}
