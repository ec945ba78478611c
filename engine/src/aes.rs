//! The AES block permutation.  Concrete blocks are computed (the key is read off the first round key
//! of the schedule the real code produced; checked against known answers and by native replay); a block
//! holding symbolic bytes goes through an uninterpreted bijection (E/D inverse to each other)
//! identified by the expanded key the real key schedule produced.
use crate::exec::*;
use crate::expr::*;
use crate::ir::*;
pub fn is_hook(n: &str) -> bool { n.contains("3aes") && n.contains("8fixslice") && (n.contains("14aes128_encrypt") || n.contains("14aes128_decrypt")) }
pub fn resolve(n: &str) -> Option<HFn> { Some(if n.contains("14aes128_encrypt") { |x, s, c| run(x, s, c, Op::UfE) } else { |x, s, c| run(x, s, c, Op::UfD) }) }
fn run(x: &mut Exec, st: &mut State, c: &Call, op: Op) -> R<V> {
    let (k, p, n) = (x.cv(st, &c.args[0])?, x.cv(st, &c.args[1])?, x.cv(st, &c.args[2])?);
    let blocks = x.bytes(st, p, n * 16)?;
    let keys = x.bytes(st, k, 704)?; let mut kb = Vec::with_capacity(704);
    for b in &keys { match b { V::C(v) => kb.push(*v as u8), _ => return Err(Stop::Unsupported("symbolic AES key".into())) } }
    let id = match x.aes_keys.iter().position(|q| *q == kb) { Some(i) => i, None => { x.aes_keys.push(kb); x.aes_keys.len() - 1 } } as u32;
    for i in 0..n as usize {
        let b = &blocks[16 * i..16 * i + 16];
        if b.iter().all(|v| matches!(v, V::C(_))) {
            let mut d = [0u8; 16]; for (q, v) in d.iter_mut().zip(b) { if let V::C(v) = v { *q = *v as u8 } }
            let kb = &x.aes_keys[id as usize]; let mut key = [0u8; 16];
            for c in 0..4 { for r in 0..4 { for p in 0..8 { let w = u64::from_le_bytes(kb[8 * p..8 * p + 8].try_into().unwrap()); key[4 * c + r] |= ((w >> (16 * r + 4 * c) & 1) as u8) << p; } } }
            let o = if op == Op::UfE { encrypt(&key, d) } else { decrypt(&key, d) };
            for j in 0..16u64 { x.store_scalar(st, p + 16 * i as u64 + j, &V::C(o[j as usize] as u64), 8)?; }
            continue;
        }
        let mut e = x.ex(&b[0], 8);
        for v in &b[1..] { let v = x.ex(v, 8); e = x.ar.concat(e, v); }
        let r = x.ar.un(op, e, 128, id);
        for j in 0..16u32 { let b = x.ar.extract(r, 120 - 8 * j, 8); let v = x.vx(b); x.store_scalar(st, p + 16 * i as u64 + j as u64, &v, 8)?; }
    }
    Ok(V::C(0))
}

fn mul(mut a: u8, mut b: u8) -> u8 { let mut r = 0; while b != 0 { if b & 1 != 0 { r ^= a } a = (a << 1) ^ if a & 0x80 != 0 { 0x1b } else { 0 }; b >>= 1 } r }
thread_local!(static SBOX: ([u8; 256], [u8; 256]) = {
    let mut s = [0u8; 256]; let mut t = [0u8; 256];
    for i in 0..256usize { let inv = if i == 0 { 0 } else { (1..=255u8).find(|j| mul(i as u8, *j) == 1).unwrap() }; let v = inv ^ inv.rotate_left(1) ^ inv.rotate_left(2) ^ inv.rotate_left(3) ^ inv.rotate_left(4) ^ 0x63; s[i] = v; t[v as usize] = i as u8; }
    (s, t)
});
fn schedule(key: &[u8; 16], s: &[u8; 256]) -> [[u8; 16]; 11] {
    let mut w = [[0u8; 4]; 44]; for i in 0..4 { w[i].copy_from_slice(&key[4 * i..4 * i + 4]) }
    let mut rc = 1u8;
    for i in 4..44 { let mut t = w[i - 1]; if i % 4 == 0 { t = [s[t[1] as usize] ^ rc, s[t[2] as usize], s[t[3] as usize], s[t[0] as usize]]; rc = mul(rc, 2); } for j in 0..4 { w[i][j] = w[i - 4][j] ^ t[j] } }
    let mut r = [[0u8; 16]; 11]; for i in 0..44 { r[i / 4][4 * (i % 4)..4 * (i % 4) + 4].copy_from_slice(&w[i]) } r
}
fn mix(d: &mut [u8; 16], m: [u8; 4]) { for c in 0..4 { let a = [d[4 * c], d[4 * c + 1], d[4 * c + 2], d[4 * c + 3]]; for r in 0..4 { d[4 * c + r] = (0..4).fold(0, |x, k| x ^ mul(a[k], m[(k + 4 - r) % 4])) } } }
fn encrypt(key: &[u8; 16], mut d: [u8; 16]) -> [u8; 16] {
    SBOX.with(|(s, _)| { let k = schedule(key, s);
        for j in 0..16 { d[j] ^= k[0][j] }
        for r in 1..11 { let mut e = [0u8; 16]; for c in 0..4 { for q in 0..4 { e[4 * c + q] = s[d[4 * ((c + q) % 4) + q] as usize] } } d = e; if r < 10 { mix(&mut d, [2, 3, 1, 1]) } for j in 0..16 { d[j] ^= k[r][j] } }
        d })
}
fn decrypt(key: &[u8; 16], mut d: [u8; 16]) -> [u8; 16] {
    SBOX.with(|(s, t)| { let k = schedule(key, s);
        for r in (1..11).rev() { for j in 0..16 { d[j] ^= k[r][j] } if r < 10 { mix(&mut d, [14, 11, 13, 9]) } let mut e = [0u8; 16]; for c in 0..4 { for q in 0..4 { e[4 * ((c + q) % 4) + q] = t[d[4 * c + q] as usize] } } d = e }
        for j in 0..16 { d[j] ^= k[0][j] }
        d })
}
