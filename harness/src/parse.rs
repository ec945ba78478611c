//! C03: every parser returns on every text.
use crate::vp::*;
use swrs::api::block::{BlockContent, Blocks};
use swrs::color::Color;
use swrs::parser::file::{File, FileItem};
use swrs::parser::library::{Library, LibraryItem};
use swrs::parser::logic::component::*;
use swrs::parser::logic::event::*;
use swrs::parser::logic::list_variable::*;
use swrs::parser::logic::more_block::*;
use swrs::parser::logic::variable::*;
use swrs::parser::logic::*;
use swrs::parser::project::Project;
use swrs::parser::resource::{Resource, ResourceItem};
use swrs::parser::view::models::AndroidView;
use swrs::parser::view::*;
use swrs::parser::Parsable;

fn p<T: Parsable>(t: &str) -> bool { let ok = match T::parse(t) { Ok(v) => { std::mem::forget(v); true } Err(e) => { std::mem::forget(e); false } }; observe(&[ok as u8]); reach(if ok { "accepted" } else { "refused" }); ok }

/// The six data-file parsers on every UTF-8 text of up to 4 bytes. [jobs 8]
#[no_mangle] pub extern "C" fn h_c03_files() {
    let k = choose(6); let t = text_upto(4);
    match k { 0 => p::<Logic>(&t), 1 => p::<View>(&t), 2 => p::<File>(&t), 3 => p::<Library>(&t), 4 => p::<Resource>(&t), _ => p::<Project>(&t) };
    reach("end");
}
/// Every record and pool parser on every UTF-8 text of up to 3 bytes. [jobs 8]
#[no_mangle] pub extern "C" fn h_c03_records() {
    let k = choose(17); let t = text_upto(3);
    match k { 0 => p::<Variable>(&t), 1 => p::<VariablePool>(&t), 2 => p::<ListVariable>(&t), 3 => p::<ListVariablePool>(&t), 4 => p::<Component>(&t), 5 => p::<ComponentPool>(&t), 6 => p::<MoreBlock>(&t), 7 => p::<MoreBlockPool>(&t), 8 => p::<Event>(&t), 9 => p::<EventPool>(&t),
        10 => p::<BlockContainerHeader>(&t), 11 => p::<BlockContainer>(&t), 12 => p::<Block>(&t), 13 => p::<Layout>(&t), 14 => p::<FileItem>(&t), 15 => p::<LibraryItem>(&t), _ => p::<ResourceItem>(&t) };
    reach("end");
}
/// Text-format record parsers (variables, lists, more-blocks, block headers) on every UTF-8 text of up to 6 bytes. [jobs 8]
#[no_mangle] pub extern "C" fn h_c03_lines() {
    let k = choose(4); let t = text_upto(6);
    match k { 0 => p::<Variable>(&t), 1 => p::<ListVariable>(&t), 2 => p::<MoreBlock>(&t), _ => p::<BlockContainerHeader>(&t) };
    reach("end");
}
/// Block specs of up to 6 bytes; binding up to two arguments of up to 3 bytes to specs of up to 4 bytes, while parsing and afterwards. [jobs 8]
#[no_mangle] pub extern "C" fn h_c03_spec() {
    match choose(3) {
        0 => { let t = text_upto(6); let _ = BlockContent::parse_wo_params(&t).map(|c| c.to_string()); }
        1 => { let t = format!("%{}", text_upto(5)); let _ = BlockContent::parse_wo_params(&t).map(|c| c.to_string()); }
        _ => { let t = if choose(2) == 0 { s("%s %m.x") } else { s("%d %b.x") }; let n = choose(3); let a: Vec<String> = (0..n).map(|_| text_upto(2)).collect();
            if choose(2) == 0 { let _ = BlockContent::parse(t, a).map(|c| c.take_args().1.len()); } else { let _ = BlockContent::parse_wo_params(&t).and_then(|c| c.apply_args(a)); } }
    }
    reach("end");
}
/// Block specs with a multi-byte character anywhere: '%' followed by up to 7 free bytes. [jobs 8] [time 600]
#[no_mangle] pub extern "C" fn h_c03_spec_t() { let t = format!("%{}", text_upto(7)); let _ = BlockContent::parse_wo_params(&t).map(|c| c.to_string()); reach("end"); }
/// Colour hex strings: every UTF-8 text of up to 9 bytes. [jobs 8] [time 300]
#[no_mangle] pub extern "C" fn h_c03_hex() {
    let n = choose(10) as usize;
    // every byte ASCII, or one two-byte character anywhere
    let t = if choose(2) == 0 { ascii(n) } else { assume(n >= 2); let at = choose(n as u64 - 1) as usize; let c = text(2); assume(c.as_bytes()[0] >= 0x80); format!("{}{}{}", ascii(at), c, ascii(n - 2 - at)) };
    let r = Color::parse_hex(&t); observe(&[r.is_ok() as u8]); reach("end");
}
/// Logic headers and bodies: "@" + up to 3 free bytes + every section suffix (whole, cut or doubled), then a line of up to 2 free bytes. [jobs 8]
#[no_mangle] pub extern "C" fn h_c03_logic() {
    let suf = [".java_var", ".java_list", ".java_components", ".java_events", ".java_func", ".java_", ".java", ".java_x.java_y", ".java_onCreate"][choose(9) as usize];
    let a = text_upto(2); let body = text_upto(2);
    let t = match choose(3) { 0 => format!("@{}{}\n{}", a, suf, body), 1 => format!("@{}\n{}\n\n@b{}", suf, body, a), _ => format!("@x{}{}", suf, a) };
    p::<Logic>(&t); reach("end");
}
/// View headers and bodies: "@" + up to 2 free bytes + ".xml"/".xml_fab"/"."+free text, then up to 2 free bytes, then possibly more sections. [jobs 8]
#[no_mangle] pub extern "C" fn h_c03_view() {
    let a = text_upto(2); let b = text_upto(2);
    let t = match choose(6) { 0 => format!("@{}.xml\n{}", a, b), 1 => format!("@{}.xml_fab\n{}", a, b), 2 => format!("@m.{}\n{}", a, b), 3 => format!("@m.xml_fab{}", a), 4 => format!("@m.xml{}\n\n@{}", a, b), _ => format!("@m.xml\n{}\n\n{}", a, b) };
    p::<View>(&t); reach("end");
}
/// List files: every section header followed by up to 2 free bytes, headers cut anywhere, extra line breaks. [jobs 8]
#[no_mangle] pub extern "C" fn h_c03_lists() {
    let a = text_upto(2); let b = text_upto(2);
    match choose(3) {
        0 => { let h = ["@activity", "@customview", "@activity\n@customview"][choose(3) as usize]; p::<File>(&format!("{}{}\n{}", h, a, b)); }
        1 => { let h = ["@images", "@sounds", "@fonts", "@images\n@sounds\n@fonts"][choose(4) as usize]; p::<Resource>(&format!("{}{}\n{}", h, a, b)); }
        _ => { let h = ["@firebaseDB", "@compat", "@admob", "@googleMap", "@firebaseDB\n\n@compat"][choose(5) as usize]; p::<Library>(&format!("{}{}\n{}", h, a, b)); }
    }
    reach("end");
}
pub const BLOCK: &str = r#"{"color":-10701022,"id":"10","nextBlock":-1,"opCode":"addSourceDirectly","parameters":["a","@3"],"spec":"x %s.y","subStack1":-1,"subStack2":12,"type":" ","typeName":""}"#;
pub const COMP: &str = r#"{"componentId":"c","param1":"a","param2":"","param3":"","type":2}"#;
pub const EVENT: &str = r#"{"eventName":"onClick","eventType":1,"targetId":"b","targetType":3}"#;
pub const FILE: &str = r#"{"fileName":"main","fileType":0,"keyboardSetting":0,"options":1,"orientation":0,"theme":-1}"#;
pub const LIB: &str = r#"{"adUnits":[{"id":"i","name":"n"}],"data":"","libType":0,"reserved1":"","reserved2":"","reserved3":"","testDevices":["t"],"useYn":"N"}"#;
pub const RES: &str = r#"{"resFullName":"a.png","resName":"a","resType":1}"#;
pub const PROJ: &str = r#"{"sc_id":"601","my_app_name":"A","my_ws_name":"W","my_sc_pkg_name":"p.q","sc_ver_code":"1","sc_ver_name":"1.0","my_sc_reg_dt":"20210112120000","custom_icon":false,"color_primary":-16740915,"color_primary_dark":-16743230,"color_accent":-16740915,"color_control_normal":-11026706,"color_control_highlight":537955789,"sketchware_ver":150}"#;
/// Well-formed records in which any one byte, anywhere, is replaced by any other byte (block, component, event, file item, library item, resource item). [jobs 8]
#[no_mangle] pub extern "C" fn h_c03_byte() {
    let k = choose(6) as usize; let b = [BLOCK, COMP, EVENT, FILE, LIB, RES][k];
    let at = pick(b.len() as u64) as usize; let t = hole(b, at, 1);
    match k { 0 => p::<Block>(&t), 1 => p::<Component>(&t), 2 => p::<Event>(&t), 3 => p::<FileItem>(&t), 4 => p::<LibraryItem>(&t), _ => p::<ResourceItem>(&t) };
    reach("end");
}
/// A well-formed project record in which any one byte, anywhere, is replaced by any other byte. [jobs 8]
#[no_mangle] pub extern "C" fn h_c03_project() { let at = pick(PROJ.len() as u64) as usize; p::<Project>(&hole(PROJ, at, 1)); reach("end"); }
/// Project records whose creation time is any text of up to 15 bytes: 0-15 bytes of which any one (any 7-bit byte, or any two adjacent ones when 14 long: any UTF-8) is free. [jobs 8] [time 200]
#[no_mangle] pub extern "C" fn h_c03_date() {
    let d = if choose(2) == 0 { let n = choose(16) as usize; let b = "20210112120000999"; if n == 0 { s("") } else { let k = choose(n as u64) as usize; format!("{}{}{}", &b[..k], ascii(1), &b[k + 1..n]) } }
        else { let at = choose(13) as usize; hole("20200229235959", at, 2) };
    for b in d.bytes() { assume((b != b'"') & (b != b'\\') & (b >= 0x20)) }
    p::<Project>(&PROJ.replace("20210112120000", &d)); reach("end");
}
/// A well-formed view record in which any one byte, anywhere, is replaced by any other byte. [jobs 8] [time 400]
#[no_mangle] pub extern "C" fn h_c03_view_byte() { let f = crate::viewfile::FULL; let at = pick(f.len() as u64) as usize; p::<AndroidView>(&hole(f, at, 1)); reach("end"); }
/// Whole data files cut off at any byte: logic, view, file, library, resource. [jobs 8]
#[no_mangle] pub extern "C" fn h_c03_cut() {
    let k = choose(5);
    let t = match k { 0 => format!("@a.java_var\n1:x\n\n@a.java_list\n2:y\n\n@a.java_components\n{}\n\n@a.java_events\n{}\n\n@a.java_func\nf:f %s\n\n@a.java_onCreate_initializeLogic\n{}", COMP, EVENT, BLOCK), 1 => format!("@main.xml\n{0}\n\n@main.xml_fab\n{0}", crate::viewfile::FULL),
        2 => format!("@activity\n{0}\n@customview\n{0}", FILE), 3 => format!("@firebaseDB\n{0}\n@compat\n{0}\n@admob\n{0}\n@googleMap\n{0}", LIB), _ => format!("@images\n{0}\n@sounds\n{0}\n@fonts\n{0}", RES) };
    let at = pick(t.len() as u64 + 1) as usize; let t = &t[..at];
    match k { 0 => p::<Logic>(t), 1 => p::<View>(t), 2 => p::<File>(t), 3 => p::<Library>(t), _ => p::<Resource>(t) };
    reach("end");
}
/// Whole data files in which any one byte is replaced by any other byte (so also headers, separators and line breaks): logic and lists. [jobs 8]
#[no_mangle] pub extern "C" fn h_c03_file_byte() {
    let k = choose(4);
    let t = match k { 0 => s("@a.java_var\n1:x\n\n@a.java_list\n2:y\n\n@a.java_components\n\n@a.java_events\n\n@a.java_func\nf:f %s\n\n@a.java_onCreate_initializeLogic\n\n@b.java_var\n"), 1 => format!("@activity\n{0}\n@customview\n{0}", FILE), 2 => s("@main.xml\n\n@b.xml\n\n@main.xml_fab\n{}"), _ => format!("@images\n{0}\n@sounds\n{0}\n@fonts\n{0}", RES) };
    let at = pick(t.len() as u64) as usize; let t = hole(&t, at, 1);
    match k { 0 => p::<Logic>(&t), 1 => p::<File>(&t), 2 => p::<View>(&t), _ => p::<Resource>(&t) };
    reach("end");
}
/// Numbers inside records: colour, next-block, option and type fields holding any text of up to 4 bytes. [jobs 8]
#[no_mangle] pub extern "C" fn h_c03_numbers() {
    let n = text_upto(3);
    match choose(5) { 0 => p::<Block>(&BLOCK.replace("-10701022", &n)), 1 => p::<Block>(&BLOCK.replace("12", &n)), 2 => p::<FileItem>(&FILE.replace("-1", &n)), 3 => p::<Event>(&EVENT.replace("3", &n)), _ => p::<Project>(&PROJ.replace("601", &n)) };
    reach("end");
}
/// Turning whatever parses as a block list into the editing form also returns: block records with free link, spec and parameter bytes. [jobs 8]
#[no_mangle] pub extern "C" fn h_c03_blocks() {
    let t = match choose(4) { 0 => BLOCK.replace("@3", &plain(2)), 1 => BLOCK.replace("x %s.y", &plain(3)), 2 => BLOCK.replace("\"10\"", &format!("\"{}\"", plain(2))), _ => BLOCK.replace("\" \"", &format!("\"{}\"", plain(1))) };
    if let Ok(b) = BlockContainer::parse(&t) { let r = Blocks::try_from(b); observe(&[r.is_ok() as u8]); std::mem::forget(r); reach("converted") }
    reach("end");
}
/// Dates with any three adjacent bytes free. [jobs 8] [time 900]
#[no_mangle] pub extern "C" fn h_c03_date_t() {
    let at = choose(12) as usize; let d = hole("20210112120000", at, 3);
    for b in d.bytes() { assume((b != b'"') & (b != b'\\') & (b >= 0x20)) }
    p::<Project>(&PROJ.replace("20210112120000", &d)); reach("end");
}
/// The six data-file parsers on every UTF-8 text of exactly 5 or 6 bytes. [jobs 8] [time 900]
#[no_mangle] pub extern "C" fn h_c03_files_t() {
    let k = choose(6); let n = 5 + choose(2) as usize; let t = text(n);
    match k { 0 => p::<Logic>(&t), 1 => p::<View>(&t), 2 => p::<File>(&t), 3 => p::<Library>(&t), 4 => p::<Resource>(&t), _ => p::<Project>(&t) };
    reach("end");
}
/// Well-formed records in which any two adjacent bytes are replaced by any two bytes. [jobs 8] [time 900]
#[no_mangle] pub extern "C" fn h_c03_byte_t() {
    let k = choose(7) as usize; let b = [BLOCK, COMP, EVENT, FILE, LIB, RES, PROJ][k];
    let at = pick(b.len() as u64 - 1) as usize; let t = hole(b, at, 2);
    match k { 0 => p::<Block>(&t), 1 => p::<Component>(&t), 2 => p::<Event>(&t), 3 => p::<FileItem>(&t), 4 => p::<LibraryItem>(&t), 5 => p::<ResourceItem>(&t), _ => p::<Project>(&t) };
    reach("end");
}
/// The five line-based data files with 254 to 256 or 65534 to 65536 blank lines before the first section, and any two letters after its header. [jobs 8] [ins 400000000] [time 300]
#[no_mangle] pub extern "C" fn h_c03_blank() {
    let n = [254, 255, 256, 65534, 65535, 65536][choose(6) as usize]; let pre = "\n".repeat(n); let c = lower(2);
    match choose(5) { 0 => p::<Logic>(&format!("{pre}@A.java_func\n{c}:{c}")), 1 => p::<View>(&format!("{pre}@{c}.xml\n{c}")), 2 => p::<File>(&format!("{pre}@customview\n{c}")), 3 => p::<Resource>(&format!("{pre}@sounds\n{c}")), _ => p::<Library>(&format!("{pre}@compat\n{c}")) };
    reach("end");
}
