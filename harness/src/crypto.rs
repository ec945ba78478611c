//! C01, C02: the cipher format.
#![allow(deprecated)]
use crate::vp::*;
use aes::cipher::{generic_array::GenericArray, BlockEncrypt, NewBlockCipher};
use aes::Aes128;
use std::path::Path;
use swrs::parser::{RawSketchwareProject, ResourceFileWrapper, ResourceType};
use swrs::*;

const KEY: &[u8; 16] = b"sketchwaresecure";
/// AES-128-CBC of whole blocks under Sketchware's key and IV, from the block cipher alone.
fn cbc(padded: &[u8]) -> Vec<u8> {
    let c = Aes128::new(GenericArray::from_slice(KEY));
    let mut prev = *KEY;
    let mut out = Vec::with_capacity(padded.len());
    for b in padded.chunks(16) {
        let mut x = [0u8; 16];
        for i in 0..16 { x[i] = b[i] ^ prev[i] }
        let mut g = GenericArray::clone_from_slice(&x);
        c.encrypt_block(&mut g);
        for i in 0..16 { prev[i] = g[i] }
        out.extend_from_slice(&prev);
    }
    out
}
fn pkcs7(p: &[u8]) -> Vec<u8> { let k = 16 - p.len() % 16; let mut v = p.to_vec(); v.resize(p.len() + k, k as u8); v }
fn same(a: &[u8], b: &[u8]) -> bool { a == b }

fn one_len(n: usize) { mem(bytes(n)) }
fn mem(p: Vec<u8>) {
    let n = p.len();
    observe(&p);
    let c = encrypt_sw(&p);
    check(c.len() == (n / 16 + 1) * 16, "ciphertext length");
    check(same(&c, &cbc(&pkcs7(&p))), "ciphertext is AES-128-CBC/PKCS7 under the fixed key and IV");
    let d = decrypt_sw_encrypted(&c);
    check(d.is_ok(), "own ciphertext decrypts");
    if let Ok(d) = d { observe(&d); check(same(&d, &p), "decrypt(encrypt(p)) == p"); }
    reach("end");
}
/// Every plaintext of 0 to 49 bytes.
#[no_mangle] pub extern "C" fn h_c01_mem() { one_len(choose(50) as usize) }
/// Every plaintext of 95 to 144 bytes (nine lengths around block boundaries).
#[no_mangle] pub extern "C" fn h_c01_mem_long() { let k = choose(9) as usize; one_len([95, 96, 111, 112, 127, 128, 129, 143, 144][k]) }
/// Plaintexts that are themselves encrypted, once or twice, from any plaintext of 0 to 33 bytes: encrypted again like any other, and decrypted layer by layer.
#[no_mangle] pub extern "C" fn h_c01_again() {
    let t = bytes(choose(34) as usize); let n = 1 + choose(2); let mut layers = vec![t]; for i in 0..n as usize { let x = cbc(&pkcs7(&layers[i])); layers.push(x) }
    let p = layers[n as usize].clone(); let c = encrypt_sw(&p); check(c.len() == p.len() + 16, "ciphertext length"); check(same(&c, &cbc(&pkcs7(&p))), "ciphertext is AES-128-CBC/PKCS7 under the fixed key and IV");
    let mut x = c; for i in (0..=n as usize).rev() { match decrypt_sw_encrypted(&x) { Ok(d) => { check(same(&d, &layers[i]), "decrypt(encrypt(p)) == p"); x = d } Err(_) => { check(false, "own ciphertext decrypts"); break } } }
    reach("end");
}
/// Every plaintext of 0 to 240 bytes.
#[no_mangle] pub extern "C" fn h_c01_mem_all_t() { one_len(choose(241) as usize) }

fn hex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }
/// Known answers produced with `openssl enc -aes-128-cbc`.
#[no_mangle] pub extern "C" fn h_c01_known() {
    let k = choose(3) as usize;
    let (p, c): (&[u8], &str) = [
        (&b""[..], "98623835dd35ba04631bc99ac5d625b8"),
        (&b"Hello, Sketchware! {\"a\":1}"[..], "9a5b8a5d0f6847b4fa5545554618bae4703d628c03386cad36af351df6d7a8e6"),
        (&b"0123456789abcdef"[..], "5f0289fe9d8c4e0c4997bc36b3c8052a1f00471961ddec20c5a8695226870465")][k];
    let c = hex(c);
    let e = encrypt_sw(p);
    observe(&e);
    check(same(&e, &c), "known ciphertext");
    match decrypt_sw_encrypted(&c) { Ok(d) => check(same(&d, p), "known plaintext"), Err(_) => check(false, "known ciphertext decrypts") }
    reach("end");
}

fn rd(p: &str) -> Option<Vec<u8>> { std::fs::read(p).ok() }
/// File variants for plaintexts of 0, 1, 7, 15, 16, 17, 33 free bytes: in place or to a file that exists or not, next to an unrelated file; missing inputs and unwritable outputs; the number of files.
#[no_mangle] pub extern "C" fn h_c01_files() {
    let n = [0usize, 1, 7, 15, 16, 17, 33][choose(7) as usize];
    let p = bytes(n);
    files(p)
}
/// Plaintexts of 18 lengths from 240 to 66000 bytes, one byte of the first, a middle or the last block free: in memory, through files, and in each slot of a project. [jobs 8] [ins 900000000]
#[no_mangle] pub extern "C" fn h_c01_large() {
    let n = BIG[choose(BIG.len() as u64) as usize];
    let p = big(n);
    match choose(3) { 0 => mem(p), 1 => files(p), _ => { let slot = choose(6) as usize; assume(n <= 1100 || slot == 5); let mut t: Vec<String> = (0..6).map(|i| format!("small {}", i)).collect(); t[slot] = unsafe { String::from_utf8_unchecked(p) }; project(t, choose(2) == 1) } }
}
const BIG: [usize; 18] = [240, 255, 256, 257, 511, 512, 1023, 1024, 1025, 4096, 4097, 8192, 8193, 12288, 16384, 32769, 65536, 66000];
fn big(n: usize) -> Vec<u8> { let mut p: Vec<u8> = (0..n).map(|i| (i * 7 % 120 + i / 977 % 7) as u8).collect(); let at = match choose(if n > 5000 { 1 } else { 3 }) { 0 => n - 1, 1 => n / 2, _ => 0 }; let b = u8_(); assume(b < 128); p[at] = b; p }
fn files(p: Vec<u8>) {
    let other = bytes(3);
    file("d/in.bin", &p);
    file("d/other", &other);
    let existing = choose(2) == 1;
    if existing { file("d/out.bin", b"old content that is longer than any new one ......................................"); }
    let c = cbc(&pkcs7(&p));
    match encrypt_sw_file(Path::new("d/in.bin")) { Ok(e) => check(same(&e, &c), "encrypt_sw_file"), Err(_) => check(false, "encrypt_sw_file fails") }
    check(rd("d/in.bin") == Some(p.clone()), "encrypt_sw_file leaves its input alone");
    check(rd("d/out.bin").is_some() == existing, "encrypt_sw_file writes nothing");
    let inplace = choose(2) == 1;
    if inplace {
        check(encrypt_sw_file_to_file(Path::new("d/in.bin"), None).is_ok(), "in place fails");
        check(rd("d/in.bin") == Some(c.clone()), "in place output");
        check(rd("d/out.bin").is_some() == existing, "in place writes another file");
        match decrypt_sw_file(Path::new("d/in.bin")) { Ok(d) => { observe(&d); check(same(&d, &p), "decrypt_sw_file after in place") } Err(_) => check(false, "decrypt_sw_file fails") }
    } else {
        check(encrypt_sw_file_to_file(Path::new("d/in.bin"), Some(Path::new("d/out.bin"))).is_ok(), "to file fails");
        check(rd("d/out.bin") == Some(c.clone()), "to file output");
        check(rd("d/in.bin") == Some(p.clone()), "to file leaves the input alone");
        match decrypt_sw_file(Path::new("d/out.bin")) { Ok(d) => { observe(&d); check(same(&d, &p), "decrypt_sw_file") } Err(_) => check(false, "decrypt_sw_file fails") }
        check(rd("d/out.bin") == Some(c.clone()), "decrypt_sw_file leaves its input alone");
    }
    check(rd("d/other") == Some(other), "unrelated file touched");
    check(decrypt_sw_file(Path::new("d/none")).is_err(), "missing file is an error");
    check(encrypt_sw_file(Path::new("d/none")).is_err(), "missing file is an error");
    check(encrypt_sw_file_to_file(Path::new("d/none"), None).is_err(), "missing file is an error");
    check(rd("d/none").is_none(), "a failed call creates nothing");
    check(encrypt_sw_file_to_file(Path::new("d/in.bin"), Some(Path::new("no/such/out"))).is_err(), "an output that cannot be written is an error");
    check(vp_nfiles() == 2 + (existing || !inplace) as u64, "no other file is written");
    reach("end");
}
/// Six encrypted data files of 0 to 31 free bytes each, with and without resource files.
#[no_mangle] pub extern "C" fn h_c01_project() {
    let wo = choose(2) == 1;
    let shape = choose(3) as usize;
    let len = [[1usize, 2, 3, 4, 5, 6], [0, 15, 16, 17, 1, 0], [18, 0, 1, 16, 2, 31]][shape];
    project(len.iter().map(|n| ascii(*n)).collect(), wo)
}
fn project(t: Vec<String>, wo: bool) {
    let e: Vec<Vec<u8>> = t.iter().map(|s| cbc(&pkcs7(s.as_bytes()))).collect();
    let rf = vec![ResourceFileWrapper::StringId { id: "i".into(), res_full_name: "n.png".into(), res_type: ResourceType::Image }];
    let r = if wo { RawSketchwareProject::from_encrypted_wo_res(e[0].clone(), e[1].clone(), e[2].clone(), e[3].clone(), e[4].clone(), e[5].clone()) }
        else { RawSketchwareProject::from_encrypted(e[0].clone(), e[1].clone(), e[2].clone(), e[3].clone(), e[4].clone(), e[5].clone(), rf.clone()) };
    match r {
        Err(_) => check(false, "project of six encrypted files loads"),
        Ok(p) => {
            check(p.project == t[0], "project slot"); check(p.file == t[1], "file slot"); check(p.library == t[2], "library slot");
            check(p.resource == t[3], "resource slot"); check(p.view == t[4], "view slot"); check(p.logic == t[5], "logic slot");
            check(p.resource_files == if wo { None } else { Some(rf) }, "resource files");
            observe(p.view.as_bytes());
        }
    }
    reach("end");
}

/// Every ciphertext of k whole blocks is the encryption of some block string, so k symbolic
/// plaintext blocks cover all of them.
fn damaged(k: usize, cut: usize) { damaged_(bytes(16 * k), cut, false) }
/// Through memory or through a file.
fn dec(c: &[u8], f: bool) -> Result<Vec<u8>, CryptoError> { if f { file("d/c.bin", c); let r = decrypt_sw_file(Path::new("d/c.bin")); check(rd("d/c.bin").map_or(false, |x| same(&x, c)) && vp_nfiles() == 1, "decrypting a file changes no file"); r } else { decrypt_sw_encrypted(c) } }
fn damaged_(mut p: Vec<u8>, cut: usize, f: bool) {
    let k = p.len() / 16;
    let mut c = cbc(&p);
    if cut > 0 {
        // a length that is not a multiple of the block size: contents free, the last bytes cut off
        c.truncate(16 * k - cut);
        let r = dec(&c, f);
        check(r.is_err(), "partial block is an error");
        reach("partial");
        reach("end");
        return;
    }
    let r = dec(&c, f);
    if k == 0 { check(r.is_err(), "empty input is an error"); reach("empty"); reach("end"); return; }
    let last = p[16 * k - 1] as usize;
    let mut good = false;
    for l in 1..17usize { let mut ok = true; for i in 0..l { ok &= p[16 * k - 1 - i] as usize == l } good |= ok }
    match r {
        Ok(d) => { check(good, "bad padding is an error"); if good { let last = vp_conc(last as u64) as usize; p.truncate(16 * k - last); check(same(&d, &p), "plaintext"); observe(&d); } reach("valid") }
        Err(_) => { check(!good, "valid padding decrypts"); observe(b"E"); reach("bad padding") }
    }
    reach("end");
}
/// All 0 to 3 block inputs (every block string is the encryption of some plaintext): padding rule and plaintext.
#[no_mangle] pub extern "C" fn h_c02_blocks() { damaged(choose(4) as usize, 0) }
/// All inputs of 8, 9 and 15 blocks.
#[no_mangle] pub extern "C" fn h_c02_blocks_many_t() { damaged([8usize, 9, 15][choose(3) as usize], 0) }
/// Encryptions of 1 to 3 blocks cut off by 1 to 15 bytes.
#[no_mangle] pub extern "C" fn h_c02_partial() { let k = choose(3) as usize + 1; let cut = choose(15) as usize + 1; damaged(k, cut) }
/// Encryptions of any 0 to 31 bytes with 1 to 15 free bytes, or a newline, CR LF, blank, zero or byte order mark, after or before them; or with a whole encrypted file after them cut off in its last block: errors. [jobs 8]
#[no_mangle] pub extern "C" fn h_c02_extra() {
    let n = [0usize, 1, 15, 16, 31][choose(5) as usize]; let c = cbc(&pkcs7(&bytes(n))); let x = match choose(7) { 0 => bytes(choose(15) as usize + 1), 1 => b"\n".to_vec(), 2 => b"\r\n".to_vec(), 3 => b" ".to_vec(), 4 => vec![0; choose(15) as usize + 1], 5 => vec![0xef, 0xbb, 0xbf], _ => { let mut d = cbc(&pkcs7(b"twenty-two bytes long.")); d.truncate(17 + choose(15) as usize); d } };
    let e: Vec<u8> = if choose(2) == 0 { c.into_iter().chain(x).collect() } else { x.into_iter().chain(c).collect() };
    check(dec(&e, choose(2) == 1).is_err(), "not a positive multiple of the block size"); reach("end");
}
/// The same through a file: 0 to 2 blocks, whole or cut off by 1, 8 or 15 bytes.
#[no_mangle] pub extern "C" fn h_c02_files() { let k = choose(3) as usize; let cut = if k == 0 { 0 } else { [0, 1, 8, 15][choose(4) as usize] }; damaged_(bytes(16 * k), cut, true) }
/// Inputs of 16 to 1025 blocks whose last block is free, in memory or through a file, whole or cut off by 1 byte. [jobs 8] [ins 400000000]
#[no_mangle] pub extern "C" fn h_c02_large() {
    let k = [16usize, 17, 31, 64, 65, 128, 255, 256, 257, 513, 1025][choose(11) as usize]; let mut p: Vec<u8> = (0..16 * k).map(|i| (i * 5 % 251) as u8).collect();
    let l = bytes(16); for i in 0..16 { p[16 * k - 16 + i] = l[i] }
    let cut = choose(2) as usize; damaged_(p, cut, choose(2) == 1)
}
/// A long data file (300 to 9000 bytes of ASCII) with two free bytes at its start, in its middle or at its end, in any slot: accepted exactly if it is UTF-8. [jobs 8] [ins 400000000]
#[no_mangle] pub extern "C" fn h_c02_project_large() {
    let n = [300usize, 1025, 4100, 9000][choose(4) as usize]; let slot = choose(6) as usize; let mut p = vec![b'x'; n]; let at = [0, n / 2, n - 2][choose(3) as usize]; p[at] = u8_(); p[at + 1] = u8_();
    let (bad, fine) = (cbc(&pkcs7(&p)), cbc(&pkcs7(b"x")));
    let g = |i: usize| if i == slot { bad.clone() } else { fine.clone() };
    let r = RawSketchwareProject::from_encrypted(g(0), g(1), g(2), g(3), g(4), g(5), vec![]);
    let utf8 = std::str::from_utf8(&p[at..at + 2]).is_ok();
    match r { Err(_) => check(!utf8, "valid project loads"), Ok(r) => { check(utf8, "damaged data file is an error"); let s = [&r.project, &r.file, &r.library, &r.resource, &r.view, &r.logic]; for i in 0..6 { check(s[i].as_bytes() == if i == slot { &p[..] } else { b"x" }, "contents"); } } }
    reach("end");
}
/// Arbitrary raw bytes (not built from a plaintext), all lengths.
#[no_mangle] pub extern "C" fn h_c02_raw() {
    let n = choose(49) as usize;
    if n > 0 && n % 16 == 0 { assume(false) }
    let c = bytes(n);
    check(decrypt_sw_encrypted(&c).is_err(), "not a positive multiple of the block size");
    reach("end");
}
/// One of the six data files decrypts to arbitrary bytes: accepted exactly if they are UTF-8.
#[no_mangle] pub extern "C" fn h_c02_project() {
    let slot = choose(6) as usize;
    let wo = choose(2) == 1;
    let n = choose(4) as usize + 1;
    let p = bytes(n);
    let kind = choose(3);
    let bad = match kind { 0 => cbc(&pkcs7(&p)), 1 => { let mut c = cbc(&pkcs7(&p)); c.pop(); c } _ => cbc(&[p[0].wrapping_mul(0); 16]) };
    let fine = cbc(&pkcs7(b"x"));
    let g = |i: usize| if i == slot { bad.clone() } else { fine.clone() };
    let r = if wo { RawSketchwareProject::from_encrypted_wo_res(g(0), g(1), g(2), g(3), g(4), g(5)) } else { RawSketchwareProject::from_encrypted(g(0), g(1), g(2), g(3), g(4), g(5), vec![]) };
    let utf8 = std::str::from_utf8(&p).is_ok();
    match r {
        Err(_) => { check(kind != 0 || !utf8, "valid project loads"); reach("err") }
        Ok(r) => {
            check(kind == 0 && utf8, "damaged data file is an error");
            let s = [&r.project, &r.file, &r.library, &r.resource, &r.view, &r.logic];
            for i in 0..6 { check(s[i].as_bytes() == if i == slot { &p[..] } else { b"x" }, "contents"); }
            reach("ok")
        }
    }
    reach("end");
}
/// A project in which one data file (any slot) is any UTF-8 text of up to 4 bytes, or one of 45 long and special texts. [jobs 8]
#[no_mangle] pub extern "C" fn h_c01_project_texts() {
    let slot = choose(6) as usize; let wo = choose(2) == 1; let mut t: Vec<String> = (0..6).map(|i| format!("small {}", i)).collect();
    t[slot] = if choose(2) == 0 { text_upto(4) } else { wide() };
    project(t, wo)
}
