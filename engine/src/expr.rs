//! Hash-consed bit-vector expressions with simplification on construction.
use std::collections::HashMap;

pub type E = u32; // 0 is reserved as "none"
pub const MAXSYM: usize = 256;
/// Symbolic bytes per run, in words of 64 (the last bit stands for uninterpreted functions).
pub const NW: usize = 16;
pub const UFBIT: usize = NW * 64 - 1;
pub type SymSet = [u64; NW];

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
#[repr(u8)]
pub enum Op {
    Const, Sym,
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Ule, Slt, Sle,
    Not, Ite, Concat, Extract, ZExt, SExt,
    // floating point, operands and results as IEEE bit patterns
    FAdd, FSub, FMul, FDiv, FRem, FEq, FLt, FLe, FIsNan,
    SIToFP, UIToFP, FPToSI, FPToUI, FPTrunc, FPExt, FRnd,
    // uninterpreted 128-bit permutation and its inverse, keyed by `c`
    UfE, UfD,
    // explicit function of one symbol byte: a = symbol index, b = vector
    Tab,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node { pub op: Op, pub w: u16, pub a: u32, pub b: u32, pub c: u32 }

/// A byte assignment of the symbols; `id` is unique per content.
#[derive(Clone)]
pub struct Model { pub id: u64, pub bytes: Vec<u8> }
impl Model {
    pub fn new(bytes: Vec<u8>) -> Model {
        use std::cell::Cell;
        thread_local!(static N: Cell<u64> = Cell::new(0));
        let id = N.with(|n| { n.set(n.get() + 1); n.get() });
        Model { id, bytes }
    }
}

pub struct Arena {
    pub n: Vec<Node>,
    pub umax: Vec<u64>,
    pub sup: Vec<SymSet>,
    pub consts: Vec<u128>,
    /// For expressions over exactly one symbol byte: their value for each of its 256 values.
    pub vec: Vec<u32>,
    pub vecs: Vec<std::rc::Rc<[u64; 256]>>,
    vmap: HashMap<std::rc::Rc<[u64; 256]>, u32, BH>,
    canon: HashMap<(u32, u16, u32), E, BH>,
    pub vec_merges: u64,
    pub fp: Vec<bool>,
    map: HashMap<Node, E, BH>,
    cmap: HashMap<(u128, u16), E, BH>,
    // evaluation memo
    stamp: Vec<u32>,
    val: Vec<u128>,
    gen: u32,
    last_model: u64,
}

#[derive(Clone, Copy, Default)]
pub struct BH;
pub struct FxH(u64);
impl std::hash::BuildHasher for BH { type Hasher = FxH; fn build_hasher(&self) -> FxH { FxH(0) } }
impl FxH { #[inline] fn add(&mut self, x: u64) { self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95); } }
impl std::hash::Hasher for FxH {
    fn finish(&self) -> u64 { self.0 ^ (self.0 >> 29) }
    fn write(&mut self, b: &[u8]) { for x in b { self.add(*x as u64) } }
    fn write_u8(&mut self, x: u8) { self.add(x as u64) }
    fn write_u16(&mut self, x: u16) { self.add(x as u64) }
    fn write_u32(&mut self, x: u32) { self.add(x as u64) }
    fn write_u64(&mut self, x: u64) { self.add(x) }
    fn write_u128(&mut self, x: u128) { self.add(x as u64); self.add((x >> 64) as u64) }
    fn write_usize(&mut self, x: usize) { self.add(x as u64) }
}

#[inline] pub fn mask(w: u32) -> u128 { if w >= 128 { !0 } else { (1u128 << w) - 1 } }
#[inline] pub fn sx(v: u128, w: u32) -> i128 { if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) } }

pub fn f_bin(op: Op, w: u32, a: u128, b: u128) -> u128 {
    if w == 64 {
        let (x, y) = (f64::from_bits(a as u64), f64::from_bits(b as u64));
        match op {
            Op::FAdd => (x + y).to_bits() as u128, Op::FSub => (x - y).to_bits() as u128,
            Op::FMul => (x * y).to_bits() as u128, Op::FDiv => (x / y).to_bits() as u128,
            Op::FRem => (x % y).to_bits() as u128,
            Op::FEq => (x == y) as u128, Op::FLt => (x < y) as u128, Op::FLe => (x <= y) as u128,
            _ => unreachable!(),
        }
    } else {
        let (x, y) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
        match op {
            Op::FAdd => (x + y).to_bits() as u128, Op::FSub => (x - y).to_bits() as u128,
            Op::FMul => (x * y).to_bits() as u128, Op::FDiv => (x / y).to_bits() as u128,
            Op::FRem => (x % y).to_bits() as u128,
            Op::FEq => (x == y) as u128, Op::FLt => (x < y) as u128, Op::FLe => (x <= y) as u128,
            _ => unreachable!(),
        }
    }
}
fn tofl(w: u32, a: u128) -> f64 { if w == 64 { f64::from_bits(a as u64) } else { f32::from_bits(a as u32) as f64 } }
fn frfl(w: u32, x: f64) -> u128 { if w == 64 { x.to_bits() as u128 } else { (x as f32).to_bits() as u128 } }

pub fn fold(op: Op, w: u32, a: u128, b: u128, wa: u32) -> u128 {
    let m = mask(w);
    match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => if b == 0 { m } else { a / b },
        Op::URem => if b == 0 { a } else { a % b },
        Op::SDiv => { let (x, y) = (sx(a, w), sx(b, w)); if y == 0 { if x >= 0 { m } else { 1 } } else { (x.wrapping_div(y) as u128) & m } }
        Op::SRem => { let (x, y) = (sx(a, w), sx(b, w)); if y == 0 { a } else { (x.wrapping_rem(y) as u128) & m } }
        Op::And => a & b, Op::Or => a | b, Op::Xor => a ^ b,
        Op::Shl => if b >= w as u128 { 0 } else { (a << b) & m },
        Op::LShr => if b >= w as u128 { 0 } else { a >> b },
        Op::AShr => { let x = sx(a, w); let s = if b >= w as u128 { w - 1 } else { b as u32 }; ((x >> s) as u128) & m }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128, Op::Ule => (a <= b) as u128,
        Op::Slt => (sx(a, wa) < sx(b, wa)) as u128, Op::Sle => (sx(a, wa) <= sx(b, wa)) as u128,
        Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRem | Op::FEq | Op::FLt | Op::FLe => f_bin(op, wa, a, b),
        Op::FIsNan => tofl(wa, a).is_nan() as u128,
        Op::SIToFP => { let x = sx(a, wa); if w == 64 { (x as f64).to_bits() as u128 } else { (x as f32).to_bits() as u128 } }
        Op::UIToFP => { if w == 64 { (a as f64).to_bits() as u128 } else { (a as f32).to_bits() as u128 } }
        Op::FPToSI => { let x = tofl(wa, a) as i128; let lo = -(1i128 << (w - 1)); let hi = (1i128 << (w - 1)) - 1; (x.clamp(lo, hi) as u128) & m }
        Op::FPToUI => { let x = tofl(wa, a) as u128; if x > m { m } else { x } }
        Op::FPTrunc | Op::FPExt => frfl(w, tofl(wa, a)),
        Op::FRnd => { let x = tofl(wa, a); let r = match b { 0 => x.floor(), 1 => x.ceil(), 2 => x.trunc(), 3 => x.round(), _ => x.round_ties_even() }; frfl(w, r) }
        _ => unreachable!(),
    }
}

impl Arena {
    pub fn new() -> Self {
        Arena { n: vec![Node { op: Op::Const, w: 0, a: 0, b: 0, c: 0 }], umax: vec![0], sup: vec![[0; NW]], consts: vec![0], vec: vec![0], vecs: vec![std::rc::Rc::new([0; 256])], vmap: HashMap::default(), canon: HashMap::default(), vec_merges: 0, fp: vec![false],
            map: HashMap::default(), cmap: HashMap::default(), stamp: vec![0], val: vec![0], gen: 1, last_model: 0 }
    }
    #[inline] pub fn w(&self, e: E) -> u32 { self.n[e as usize].w as u32 }
    #[inline] pub fn op(&self, e: E) -> Op { self.n[e as usize].op }
    #[inline] pub fn cv(&self, e: E) -> Option<u128> { let n = &self.n[e as usize]; if n.op == Op::Const { Some(self.consts[n.a as usize]) } else { None } }
    pub fn c(&mut self, v: u128, w: u32) -> E {
        let v = v & mask(w);
        if let Some(e) = self.cmap.get(&(v, w as u16)) { return *e; }
        let ci = self.consts.len() as u32; self.consts.push(v);
        let e = self.push(Node { op: Op::Const, w: w as u16, a: ci, b: 0, c: 0 }, if w <= 64 { v as u64 } else if v > u64::MAX as u128 { u64::MAX } else { v as u64 }, [0; NW]);
        self.cmap.insert((v, w as u16), e);
        e
    }
    fn push(&mut self, n: Node, umax: u64, sup: SymSet) -> E {
        let e = self.n.len() as E;
        self.n.push(n); self.umax.push(umax); self.sup.push(sup); self.stamp.push(0); self.val.push(0); self.vec.push(0);
        let isfp = match n.op { Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRem | Op::FEq | Op::FLt | Op::FLe | Op::FIsNan | Op::SIToFP | Op::UIToFP | Op::FPToSI | Op::FPToUI | Op::FPTrunc | Op::FPExt | Op::FRnd => true, Op::Const | Op::Sym | Op::Tab => false, Op::Extract => self.fp[n.a as usize], Op::Ite => self.fp[n.a as usize] || self.fp[n.b as usize] || self.fp[n.c as usize], Op::Not | Op::ZExt | Op::SExt | Op::UfE | Op::UfD => self.fp[n.a as usize], _ => self.fp[n.a as usize] || self.fp[n.b as usize] };
        self.fp.push(isfp);
        e
    }
    pub fn sym(&mut self, idx: u32) -> E {
        let n = Node { op: Op::Sym, w: 8, a: idx, b: 0, c: 0 };
        if let Some(e) = self.map.get(&n) { return *e; }
        let mut s = [0u64; NW]; s[idx as usize / 64] |= 1 << (idx % 64);
        let e = self.push(n, 255, s); self.map.insert(n, e);
        let id = self.vec_id(std::array::from_fn(|i| i as u64)); self.vec[e as usize] = id; self.canon.insert((idx, 8, id), e);
        e
    }
    fn vec_id(&mut self, v: [u64; 256]) -> u32 {
        let v = std::rc::Rc::new(v);
        if let Some(i) = self.vmap.get(&v) { return *i; }
        let i = self.vecs.len() as u32; self.vecs.push(v.clone()); self.vmap.insert(v, i); i
    }
    /// The symbol if the set has exactly one (and no uninterpreted function).
    pub fn single(s: &SymSet) -> Option<u32> {
        let mut r = None;
        for i in 0..NW { if s[i] != 0 { if r.is_some() || s[i] & (s[i] - 1) != 0 { return None; } r = Some(i as u32 * 64 + s[i].trailing_zeros()); } }
        if r == Some(UFBIT as u32) { None } else { r }
    }
    /// (symbol, values) if `e` is a function of one symbol byte.
    /// Upper bound of |e| for a double expression that is never NaN; None if unknown.
    fn fabs_ub(&self, e: E) -> Option<f64> {
        let n = self.n[e as usize];
        if self.w(e) != 64 { return None; }
        if self.vec[e as usize] != 0 { let mut m = 0f64; for v in self.vecs[self.vec[e as usize] as usize].iter() { let f = f64::from_bits(*v); if f.is_nan() { return None; } m = m.max(f.abs()); } return Some(m); }
        match n.op {
            Op::Const => { let f = f64::from_bits(self.cv(e)? as u64); if f.is_nan() { None } else { Some(f.abs()) } }
            Op::UIToFP => if self.w(n.a) <= 64 { Some((self.umax[n.a as usize] as f64) * 1.0000001) } else { None },
            Op::ZExt => { let x = self.n[n.a as usize]; if x.op == Op::Extract && self.w(n.a) == 63 && x.b == 0 { self.fabs_ub(x.a) } else { None } }
            Op::FMul => { let (a, b) = (self.fabs_ub(n.a)?, self.fabs_ub(n.b)?); let r = a * b * 1.0000001; if r.is_finite() { Some(r) } else { None } }
            _ => None,
        }
    }
    pub fn unary(&self, e: E) -> Option<(u32, std::rc::Rc<[u64; 256]>)> {
        let v = self.vec[e as usize]; if v == 0 { return None; }
        Self::single(&self.sup[e as usize]).map(|s| (s, self.vecs[v as usize].clone()))
    }
    /// The expression that maps the value of symbol `s` through `v`.
    pub fn tab(&mut self, s: u32, w: u32, v: [u64; 256]) -> E {
        if v.iter().all(|x| *x == v[0]) { return self.c(v[0] as u128, w); }
        let id = self.vec_id(v);
        if let Some(e) = self.canon.get(&(s, w as u16, id)) { return *e; }
        if w > 8 && v.iter().enumerate().all(|(i, x)| *x == i as u64) { let b = self.sym(s); return self.zext(b, w); }
        let sy = self.sym(s); let sup = self.sup[sy as usize];
        let um = *v.iter().max().unwrap();
        let n = Node { op: Op::Tab, w: w as u16, a: sy, b: id, c: 0 };
        let e = self.push(n, um, sup); self.vec[e as usize] = id; self.canon.insert((s, w as u16, id), e); self.map.insert(n, e);
        e
    }
    fn kid_vec<'a>(&self, k: E, buf: &'a mut [u64; 256]) -> Option<()> {
        if self.w(k) > 64 { return None; }
        if let Some(c) = self.cv(k) { buf.fill(c as u64); return Some(()); }
        let v = self.vec[k as usize]; if v == 0 { return None; }
        buf.copy_from_slice(&self.vecs[v as usize][..]); Some(())
    }
    fn calc_vec(&self, n: &Node) -> Option<[u64; 256]> {
        if n.w > 64 { return None; }
        let (mut a, mut b, mut c) = ([0u64; 256], [0u64; 256], [0u64; 256]);
        self.kid_vec(n.a, &mut a)?;
        let wa = self.w(n.a); let w = n.w as u32; let m = mask(w) as u64;
        let mut r = [0u64; 256];
        match n.op {
            Op::Not => for i in 0..256 { r[i] = !a[i] & m },
            Op::Extract => for i in 0..256 { r[i] = (a[i] >> n.b) & m },
            Op::ZExt => r = a,
            Op::SExt => for i in 0..256 { r[i] = (sx(a[i] as u128, wa) as u64) & m },
            Op::Ite => { self.kid_vec(n.b, &mut b)?; self.kid_vec(n.c, &mut c)?; for i in 0..256 { r[i] = if a[i] != 0 { b[i] } else { c[i] } } }
            Op::Concat => { self.kid_vec(n.b, &mut b)?; let lw = self.w(n.b); for i in 0..256 { r[i] = (a[i] << lw) | b[i] } }
            Op::FIsNan | Op::SIToFP | Op::UIToFP | Op::FPToSI | Op::FPToUI | Op::FPTrunc | Op::FPExt | Op::FRnd => for i in 0..256 { r[i] = fold(n.op, w, a[i] as u128, n.c as u128, wa) as u64 },
            Op::UfE | Op::UfD | Op::Sym | Op::Const | Op::Tab => return None,
            _ => { self.kid_vec(n.b, &mut b)?; for i in 0..256 { r[i] = fold(n.op, w, a[i] as u128, b[i] as u128, wa) as u64 } }
        }
        Some(r)
    }
    fn intern(&mut self, n: Node) -> E {
        if let Some(e) = self.map.get(&n) { return *e; }
        let wm = if n.w >= 64 { u64::MAX } else { (1u64 << n.w) - 1 };
        let (ua, ub) = (self.umax.get(n.a as usize).copied().unwrap_or(u64::MAX), self.umax.get(n.b as usize).copied().unwrap_or(u64::MAX));
        let um = if n.w > 64 {
            match n.op { Op::ZExt => ua, _ => u64::MAX }
        } else { match n.op {
            Op::Add => ua.checked_add(ub).filter(|x| *x <= wm).unwrap_or(wm),
            Op::Mul => ua.checked_mul(ub).filter(|x| *x <= wm).unwrap_or(wm),
            Op::And => ua.min(ub),
            Op::Or | Op::Xor => { let m = ua | ub; if m == 0 { 0 } else { (u64::MAX >> m.leading_zeros()).min(wm) } }
            Op::UDiv => match self.cv(n.b) { Some(c) if c != 0 => ua / (c as u64), _ => wm },
            Op::URem => match self.cv(n.b) { Some(c) if c != 0 => ua.min(c as u64 - 1), _ => ua },
            Op::LShr => match self.cv(n.b) { Some(c) if c < 64 => ua >> c, _ => ua },
            Op::Shl => match self.cv(n.b) { Some(c) if c < 64 && (ua as u128) << c <= wm as u128 => ua << c, _ => wm },
            Op::Ite => { ub.max(self.umax[n.c as usize]) }
            Op::ZExt => ua,
            Op::Extract => if n.b == 0 { ua.min(wm) } else { if self.w(n.a) <= 64 { (ua >> n.b).min(wm) } else { wm } },
            Op::Concat => { let lw = self.w(n.b); if lw < 64 { (((ua as u128) << lw) + ub as u128).min(wm as u128) as u64 } else { wm } }
            _ => wm,
        } };
        let mut s = [0u64; NW];
        let kids: &[u32] = match n.op {
            Op::Ite => &[n.a, n.b, n.c],
            Op::Not | Op::Extract | Op::ZExt | Op::SExt | Op::FIsNan | Op::SIToFP | Op::UIToFP | Op::FPToSI | Op::FPToUI | Op::FPTrunc | Op::FPExt | Op::FRnd | Op::UfE | Op::UfD => &[n.a],
            _ => &[n.a, n.b],
        };
        for k in kids { let t = self.sup[*k as usize]; for i in 0..NW { s[i] |= t[i] } }
        if matches!(n.op, Op::UfE | Op::UfD) { s[UFBIT / 64] |= 1 << (UFBIT % 64) }
        let mut um = um; let mut vid = 0; let mut sy = 0;
        if let Some(k) = Self::single(&s) { if let Some(v) = self.calc_vec(&n) {
            sy = k;
            let first = v[0];
            let cst = v.iter().all(|x| *x == first);
            let r = if cst { Some(self.c(first as u128, n.w as u32)) } else {
                vid = self.vec_id(v);
                match self.canon.get(&(k, n.w, vid)) { Some(e) => Some(*e), None => { if n.op != Op::ZExt && n.w > 8 && v.iter().enumerate().all(|(i, x)| *x == i as u64) { let b = self.sym(k); Some(self.zext(b, n.w as u32)) } else { None } } }
            };
            if let Some(e) = r { self.vec_merges += 1; self.map.insert(n, e); return e; }
            um = *v.iter().max().unwrap();
        } }
        let e = self.push(n, um, s); self.map.insert(n, e);
        if vid != 0 { self.vec[e as usize] = vid; self.canon.insert((sy, n.w, vid), e); }
        e
    }

    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if op == Op::FEq && w == 64 && self.cv(b) == Some(0x7ff0_0000_0000_0000) { if let Some(u) = self.fabs_ub(a) { if u < f64::INFINITY { return self.c(0, 1); } } }
        let rw = match op { Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle | Op::FEq | Op::FLt | Op::FLe => 1, _ => w };
        let (ca, cb) = (self.cv(a), self.cv(b));
        if let (Some(x), Some(y)) = (ca, cb) { if w <= 128 { let r = fold(op, rw, x, y, w); return self.c(r, rw); } }
        let m = mask(w);
        let (mut a, mut b) = (a, b);
        let (mut ca, mut cb) = (ca, cb);
        if matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq) && (ca.is_some() || (cb.is_none() && a > b)) {
            std::mem::swap(&mut a, &mut b); std::mem::swap(&mut ca, &mut cb);
        }
        let na = self.n[a as usize];
        let nb = self.n[b as usize];
        match op {
            Op::Add => {
                if cb == Some(0) { return a; }
                if let Some(k) = cb { if na.op == Op::Add { if let Some(k2) = self.cv(na.b) { let s = self.c(k.wrapping_add(k2), w); return self.bin(Op::Add, na.a, s); } }
                    if na.op == Op::Ite { if let (Some(x), Some(y)) = (self.cv(na.b), self.cv(na.c)) { let x = self.c(x.wrapping_add(k), w); let y = self.c(y.wrapping_add(k), w); return self.ite(na.a, x, y); } } }
                else if na.op == Op::Add && self.cv(na.b).is_some() { let s = self.bin(Op::Add, na.a, b); return self.bin(Op::Add, s, na.b); }
                else if nb.op == Op::Add && self.cv(nb.b).is_some() { let s = self.bin(Op::Add, a, nb.a); return self.bin(Op::Add, s, nb.b); }
            }
            Op::Sub => {
                if a == b { return self.c(0, w); }
                if let Some(k) = cb { let s = self.c((!k).wrapping_add(1), w); return self.bin(Op::Add, a, s); }
                if na.op == Op::Add { if na.a == b { return na.b; } if na.b == b { return na.a; } }
                if na.op == Op::Add && nb.op == Op::Add && na.a == nb.a && self.cv(na.b).is_some() && self.cv(nb.b).is_some() { return self.bin(Op::Sub, na.b, nb.b); }
            }
            Op::Mul => {
                if cb == Some(0) { return b; } if cb == Some(1) { return a; }
                if let Some(k) = cb { if k.is_power_of_two() { let s = self.c(k.trailing_zeros() as u128, w); return self.bin(Op::Shl, a, s); } }
            }
            Op::UDiv | Op::URem => {
                if let Some(k) = cb {
                    if k == 1 { return if op == Op::UDiv { a } else { self.c(0, w) }; }
                    if k.is_power_of_two() {
                        if op == Op::UDiv { let s = self.c(k.trailing_zeros() as u128, w); return self.bin(Op::LShr, a, s); }
                        let s = self.c(k - 1, w); return self.bin(Op::And, a, s);
                    }
                    if w <= 64 && k != 0 {
                        let ua = self.umax[a as usize];
                        if (ua as u128) < k { return if op == Op::UDiv { self.c(0, w) } else { a }; }
                        // narrow
                        let need = 64 - ua.max(k as u64).leading_zeros();
                        if need < w && need > 0 { let need = need.max(1); let x = self.extract(a, 0, need); let y = self.c(k, need); let r = self.bin(op, x, y); return self.zext(r, w); }
                    }
                }
            }
            Op::And => {
                if a == b { return a; }
                if cb == Some(0) { return b; } if cb == Some(m) { return a; }
                if let Some(k) = cb {
                    if w <= 64 { let ua = self.umax[a as usize]; let cover = if ua == 0 { 0 } else { u64::MAX >> ua.leading_zeros() }; if (cover as u128) & !k == 0 { return a; } }
                    if na.op == Op::And { if let Some(k2) = self.cv(na.b) { let s = self.c(k & k2, w); return self.bin(Op::And, na.a, s); } }
                    if na.op == Op::ZExt { let iw = self.w(na.a); let s = self.c(k, iw); let r = self.bin(Op::And, na.a, s); return self.zext(r, w); }
                    if na.op == Op::Ite { if let (Some(x), Some(y)) = (self.cv(na.b), self.cv(na.c)) { let x = self.c(x & k, w); let y = self.c(y & k, w); return self.ite(na.a, x, y); } }
                    if (k & (k + 1)) == 0 { let kw = 128 - k.leading_zeros(); if kw < w { let r = self.extract(a, 0, kw); return self.zext(r, w); } }
                    if na.op == Op::Concat { let lw = self.w(na.b); let hw = w - lw; let h = self.c(k >> lw, hw); let l = self.c(k, lw); let x = self.bin(Op::And, na.a, h); let y = self.bin(Op::And, na.b, l); return self.concat(x, y); }
                }
                if w == 1 { if (na.op == Op::Not && na.a == b) || (nb.op == Op::Not && nb.a == a) { return self.c(0, 1); } }
                if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) { let r = self.bin(Op::And, na.a, nb.a); return self.zext(r, w); }
            }
            Op::Or => {
                if a == b { return a; }
                if cb == Some(0) { return a; } if cb == Some(m) { return b; }
                if w == 1 { if (na.op == Op::Not && na.a == b) || (nb.op == Op::Not && nb.a == a) { return self.c(1, 1); } }
                if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) { let r = self.bin(Op::Or, na.a, nb.a); return self.zext(r, w); }
                // disjoint low/high halves become a concatenation
                for (x, y, ny) in [(a, b, nb), (b, a, na)] {
                    if ny.op == Op::Concat && self.cv(ny.b) == Some(0) {
                        let lw = self.w(ny.b);
                        if w <= 64 && lw < 64 && self.umax[x as usize] < (1u64 << lw) { let _ = y; let lo = self.extract(x, 0, lw); return self.concat(ny.a, lo); }
                        let hx = self.extract(x, lw, w - lw);
                        if self.cv(hx) == Some(0) { let lo = self.extract(x, 0, lw); return self.concat(ny.a, lo); }
                    }
                }
                if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) && (self.cv(na.b) == Some(0) || self.cv(nb.b) == Some(0) || self.cv(na.a) == Some(0) || self.cv(nb.a) == Some(0)) {
                    let h = self.bin(Op::Or, na.a, nb.a); let l = self.bin(Op::Or, na.b, nb.b); return self.concat(h, l);
                }
            }
            Op::Xor => {
                if a == b { return self.c(0, w); }
                if cb == Some(0) { return a; }
                if cb == Some(m) { return self.not(a); }
                if let Some(k) = cb { if na.op == Op::Xor { if let Some(k2) = self.cv(na.b) { let s = self.c(k ^ k2, w); return self.bin(Op::Xor, na.a, s); } } 
                    if na.op == Op::Concat { let lw = self.w(na.b); let hw = w - lw; let h = self.c(k >> lw, hw); let l = self.c(k, lw); let x = self.bin(Op::Xor, na.a, h); let y = self.bin(Op::Xor, na.b, l); return self.concat(x, y); } }
                if na.op == Op::Xor { if na.a == b { return na.b; } if na.b == b { return na.a; } }
                if nb.op == Op::Xor { if nb.a == a { return nb.b; } if nb.b == a { return nb.a; } }
            }
            Op::Shl | Op::LShr | Op::AShr => {
                if cb == Some(0) { return a; }
                if ca == Some(0) { return a; }
                if let Some(k) = cb {
                    if k >= w as u128 { if op != Op::AShr { return self.c(0, w); } let k2 = self.c(w as u128 - 1, w); return self.bin(Op::AShr, a, k2); }
                    let k = k as u32;
                    match op {
                        Op::Shl => { let x = self.extract(a, 0, w - k); let z = self.c(0, k); return self.concat(x, z); }
                        Op::LShr => { let x = self.extract(a, k, w - k); return self.zext(x, w); }
                        _ => { let x = self.extract(a, k, w - k); return self.sext(x, w); }
                    }
                }
            }
            Op::Eq => {
                if a == b { return self.c(1, 1); }
                if let Some(k) = cb {
                    if w == 1 { return if k == 1 { a } else { self.not(a) }; }
                    if w <= 64 && k > self.umax[a as usize] as u128 { return self.c(0, 1); }
                    match na.op {
                        Op::ZExt => { let iw = self.w(na.a); if k > mask(iw) { return self.c(0, 1); } let s = self.c(k, iw); return self.bin(Op::Eq, na.a, s); }
                        Op::SExt => { let iw = self.w(na.a); let t = k & mask(iw); if (sx(t, iw) as u128) & m != k { return self.c(0, 1); } let s = self.c(t, iw); return self.bin(Op::Eq, na.a, s); }
                        Op::Add => if let Some(k2) = self.cv(na.b) { let s = self.c(k.wrapping_sub(k2), w); return self.bin(Op::Eq, na.a, s); },
                        Op::Xor => if let Some(k2) = self.cv(na.b) { let s = self.c(k ^ k2, w); return self.bin(Op::Eq, na.a, s); } else if k == 0 { return self.bin(Op::Eq, na.a, na.b); },
                        Op::Sub => if k == 0 { return self.bin(Op::Eq, na.a, na.b); },
                        Op::Not => { let s = self.c(!k, w); return self.bin(Op::Eq, na.a, s); }
                        Op::Concat => {
                            let lw = self.w(na.b); let hw = w - lw;
                            let kh = self.c(k >> lw, hw); let kl = self.c(k, lw);
                            let x = self.bin(Op::Eq, na.a, kh); let y = self.bin(Op::Eq, na.b, kl);
                            return self.bin(Op::And, x, y);
                        }
                        Op::Or if k == 0 => { let z = self.c(0, w); let x = self.bin(Op::Eq, na.a, z); let y = self.bin(Op::Eq, na.b, z); return self.bin(Op::And, x, y); }
                        Op::Ite => {
                            let (x, y) = (self.cv(na.b), self.cv(na.c));
                            if x.is_some() || y.is_some() {
                                let p = self.bin(Op::Eq, na.b, b); let q = self.bin(Op::Eq, na.c, b);
                                return self.ite(na.a, p, q);
                            }
                        }
                        _ => {}
                    }
                } else {
                    if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) { return self.bin(Op::Eq, na.a, nb.a); }
                    if na.op == Op::SExt && nb.op == Op::SExt && self.w(na.a) == self.w(nb.a) { return self.bin(Op::Eq, na.a, nb.a); }
                    if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) {
                        let x = self.bin(Op::Eq, na.a, nb.a); let y = self.bin(Op::Eq, na.b, nb.b); return self.bin(Op::And, x, y);
                    }
                    if na.op == Op::Add && nb.op == Op::Add { if na.a == nb.a { return self.bin(Op::Eq, na.b, nb.b); } if na.b == nb.b { return self.bin(Op::Eq, na.a, nb.a); } }
                    if na.op == Op::Add && self.cv(na.b).map_or(false, |k| k != 0) && na.a == b { return self.c(0, 1); }
                    if nb.op == Op::Add && self.cv(nb.b).map_or(false, |k| k != 0) && nb.a == a { return self.c(0, 1); }
                    if w == 1 { let x = self.bin(Op::Xor, a, b); return self.not(x); }
                }
            }
            Op::Ult | Op::Ule => {
                if a == b { return self.c((op == Op::Ule) as u128, 1); }
                if w <= 64 {
                    let (ua, ub) = (self.umax[a as usize] as u128, self.umax[b as usize] as u128);
                    if let Some(k) = cb {
                        if op == Op::Ult { if k == 0 { return self.c(0, 1); } if ua < k { return self.c(1, 1); } if k == 1 { let z = self.c(0, w); return self.bin(Op::Eq, a, z); } }
                        else { if ua <= k { return self.c(1, 1); } if k == 0 { return self.bin(Op::Eq, a, b); } let s = self.c(k + 1, w); return self.bin(Op::Ult, a, s); }
                    }
                    if let Some(k) = ca {
                        if op == Op::Ult { if ub <= k { return self.c(0, 1); } if k == 0 { let x = self.bin(Op::Eq, a, b); return self.not(x); } let s = self.c(k + 1, w); return self.bin(Op::Ule, s, b); }
                        else { if k == 0 { return self.c(1, 1); } if ub < k { return self.c(0, 1); } let x = self.bin(Op::Ult, b, a); return self.not(x); }
                    }
                }
                let (za, zb) = (self.unz(a), self.unz(b));
                if let (Some((x, wx)), Some((y, wy))) = (za, zb) {
                    let nw = wx.max(wy);
                    if nw < w { let x = self.zext(x, nw); let y = self.zext(y, nw); return self.bin(op, x, y); }
                }
            }
            Op::Slt | Op::Sle => {
                if a == b { return self.c((op == Op::Sle) as u128, 1); }
                // both non-negative: unsigned comparison
                if w <= 64 {
                    let top = 1u64 << (w - 1);
                    let (ua, ub) = (self.umax[a as usize], self.umax[b as usize]);
                    if ua < top && ub < top { return self.bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b); }
                    if ua < top { if let Some(k) = cb { if k as u64 >= top { return self.c(0, 1); } } }
                    if ub < top { if let Some(k) = ca { if k as u64 >= top { return self.c(1, 1); } } }
                }
                if na.op == Op::SExt && nb.op == Op::SExt && self.w(na.a) == self.w(nb.a) { return self.bin(op, na.a, nb.a); }
                if na.op == Op::SExt { if let Some(k) = cb { let iw = self.w(na.a); let t = k & mask(iw); if (sx(t, iw) as u128) & m == k { let s = self.c(t, iw); return self.bin(op, na.a, s); } } }
            }
            _ => {}
        }
        if op == Op::Ule { // canonical: not (b < a)
            let x = self.intern(Node { op: Op::Ult, w: 1, a: b, b: a, c: 0 }); return self.not(x);
        }
        if op == Op::Sle { let x = self.intern(Node { op: Op::Slt, w: 1, a: b, b: a, c: 0 }); return self.not(x); }
        self.intern(Node { op, w: rw as u16, a, b, c: 0 })
    }
    fn unz(&self, e: E) -> Option<(E, u32)> {
        let n = &self.n[e as usize];
        if n.op == Op::ZExt { Some((n.a, self.w(n.a))) }
        else { None }
    }
    pub fn not(&mut self, a: E) -> E {
        let n = self.n[a as usize];
        if let Some(k) = self.cv(a) { return self.c(!k, n.w as u32); }
        if n.op == Op::Not { return n.a; }
        if n.op == Op::Ite && n.w == 1 { if self.cv(n.b).is_some() || self.cv(n.c).is_some() { let x = self.not(n.b); let y = self.not(n.c); return self.ite(n.a, x, y); } }
        self.intern(Node { op: Op::Not, w: n.w, a, b: 0, c: 0 })
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(k) = self.cv(c) { return if k != 0 { a } else { b }; }
        if a == b { return a; }
        let w = self.w(a);
        let nc = self.n[c as usize];
        if nc.op == Op::Not { return self.ite(nc.a, b, a); }
        if w == 1 {
            match (self.cv(a), self.cv(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Op::Or, c, b),
                (Some(0), None) => { let x = self.not(c); return self.bin(Op::And, x, b); }
                (None, Some(0)) => return self.bin(Op::And, c, a),
                (None, Some(1)) => { let x = self.not(c); return self.bin(Op::Or, x, a); }
                _ => {}
            }
        }
        let na = self.n[a as usize]; let nb = self.n[b as usize];
        if na.op == Op::Ite && na.a == c { return self.ite(c, na.b, b); }
        if nb.op == Op::Ite && nb.a == c { return self.ite(c, a, nb.c); }
        if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) { let r = self.ite(c, na.a, nb.a); return self.zext(r, w); }
        self.intern(Node { op: Op::Ite, w: w as u16, a: c, b: a, c: b })
    }
    pub fn zext(&mut self, a: E, w: u32) -> E {
        let n = self.n[a as usize];
        if n.w as u32 == w { return a; }
        debug_assert!((n.w as u32) < w);
        if let Some(k) = self.cv(a) { return self.c(k, w); }
        if n.op == Op::ZExt { return self.zext(n.a, w); }
        if n.op == Op::Ite { if let (Some(x), Some(y)) = (self.cv(n.b), self.cv(n.c)) { let x = self.c(x, w); let y = self.c(y, w); return self.ite(n.a, x, y); } }
        if n.op == Op::Concat && self.cv(n.a) == Some(0) { return self.zext(n.b, w); }
        self.intern(Node { op: Op::ZExt, w: w as u16, a, b: 0, c: 0 })
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let n = self.n[a as usize];
        let iw = n.w as u32;
        if iw == w { return a; }
        if let Some(k) = self.cv(a) { return self.c(sx(k, iw) as u128, w); }
        if n.op == Op::SExt { return self.sext(n.a, w); }
        if iw <= 64 && iw > 1 && self.umax[a as usize] < (1u64 << (iw - 1)) { return self.zext(a, w); }
        if n.op == Op::Ite { if let (Some(x), Some(y)) = (self.cv(n.b), self.cv(n.c)) { let x = self.c(sx(x, iw) as u128, w); let y = self.c(sx(y, iw) as u128, w); return self.ite(n.a, x, y); } }
        self.intern(Node { op: Op::SExt, w: w as u16, a, b: 0, c: 0 })
    }
    /// `w` bits starting at bit `lo`.
    pub fn extract(&mut self, a: E, lo: u32, w: u32) -> E {
        let n = self.n[a as usize];
        let aw = n.w as u32;
        debug_assert!(lo + w <= aw && w > 0);
        if lo == 0 && w == aw { return a; }
        if let Some(k) = self.cv(a) { return self.c(k >> lo, w); }
        if aw <= 64 && lo < 64 && (self.umax[a as usize] >> lo) == 0 { return self.c(0, w); }
        match n.op {
            Op::Extract => return self.extract(n.a, n.b + lo, w),
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo + w <= iw { return self.extract(n.a, lo, w); }
                if lo >= iw { return self.c(0, w); }
                let x = self.extract(n.a, lo, iw - lo); return self.zext(x, w);
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if lo + w <= iw { return self.extract(n.a, lo, w); }
                if lo < iw { let x = self.extract(n.a, lo, iw - lo); return self.sext(x, w); }
                let s = self.extract(n.a, iw - 1, 1); return self.sext(s, w);
            }
            Op::Concat => {
                let lw = self.w(n.b);
                if lo + w <= lw { return self.extract(n.b, lo, w); }
                if lo >= lw { return self.extract(n.a, lo - lw, w); }
                let l = self.extract(n.b, lo, lw - lo); let h = self.extract(n.a, 0, w - (lw - lo));
                return self.concat(h, l);
            }
            Op::And | Op::Or | Op::Xor => { let x = self.extract(n.a, lo, w); let y = self.extract(n.b, lo, w); return self.bin(n.op, x, y); }
            Op::Not => { let x = self.extract(n.a, lo, w); return self.not(x); }
            Op::Ite => { if self.cv(n.b).is_some() || self.cv(n.c).is_some() || w <= 8 { let x = self.extract(n.b, lo, w); let y = self.extract(n.c, lo, w); return self.ite(n.a, x, y); } }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => { let x = self.extract(n.a, 0, w); let y = self.extract(n.b, 0, w); return self.bin(n.op, x, y); }
            _ => {}
        }
        self.intern(Node { op: Op::Extract, w: w as u16, a, b: lo, c: 0 })
    }
    pub fn concat(&mut self, hi: E, lo: E) -> E {
        let (hw, lw) = (self.w(hi), self.w(lo));
        let w = hw + lw;
        if let (Some(x), Some(y)) = (self.cv(hi), self.cv(lo)) { if w <= 128 { return self.c((x << lw) | y, w); } }
        if self.cv(hi) == Some(0) { return self.zext(lo, w); }
        let (nh, nl) = (self.n[hi as usize], self.n[lo as usize]);
        if nh.op == Op::Extract {
            if nl.op == Op::Extract && nh.a == nl.a && nl.b + lw == nh.b { return self.extract(nh.a, nl.b, w); }
            if nl.op == Op::Concat { let m = self.n[nl.a as usize]; if m.op == Op::Extract && m.a == nh.a && m.b + m.w as u32 == nh.b { let x = self.concat(hi, nl.a); return self.concat(x, nl.b); } }
        }
        if nh.op == Op::ZExt { // zext(x) ++ lo  ==  zext(x ++ lo)
            let x = self.concat(nh.a, lo); return self.zext(x, w);
        }
        if nh.op == Op::Concat { // right-associate
            let x = self.concat(nh.b, lo); return self.concat(nh.a, x);
        }
        self.intern(Node { op: Op::Concat, w: w as u16, a: hi, b: lo, c: 0 })
    }
    pub fn un(&mut self, op: Op, a: E, w: u32, c: u32) -> E {
        let wa = self.w(a);
        if let Some(k) = self.cv(a) {
            if !matches!(op, Op::UfE | Op::UfD) { let r = fold(op, w, k, c as u128, wa); return self.c(r, w); }
        }
        let n = self.n[a as usize];
        if op == Op::UfD && n.op == Op::UfE && n.c == c { return n.a; }
        if op == Op::UfE && n.op == Op::UfD && n.c == c { return n.a; }
        // b carries the source width so that equal nodes mean equal functions
        self.intern(Node { op, w: w as u16, a, b: 0, c })
    }
    pub fn and(&mut self, a: E, b: E) -> E { self.bin(Op::And, a, b) }
    pub fn or(&mut self, a: E, b: E) -> E { self.bin(Op::Or, a, b) }
    pub fn eq(&mut self, a: E, b: E) -> E { self.bin(Op::Eq, a, b) }

    /// Value of `e` under a byte assignment; `None` if it contains an uninterpreted function.
    pub fn eval(&mut self, e: E, model: &Model) -> Option<u128> {
        if self.last_model != model.id { self.gen += 1; self.last_model = model.id; }
        self.eval_rec(e, &model.bytes)
    }
    fn eval_rec(&mut self, e: E, m: &[u8]) -> Option<u128> {
        let n = self.n[e as usize];
        match n.op { Op::Const => return Some(self.consts[n.a as usize]), Op::Sym => return Some(*m.get(n.a as usize).unwrap_or(&0) as u128), _ => {} }
        if self.vec[e as usize] != 0 { let s = Self::single(&self.sup[e as usize]).unwrap(); return Some(self.vecs[self.vec[e as usize] as usize][*m.get(s as usize).unwrap_or(&0) as usize] as u128); }
        if self.stamp[e as usize] == self.gen { return Some(self.val[e as usize]); }
        if self.sup[e as usize][UFBIT / 64] >> (UFBIT % 64) & 1 == 1 { return None; }
        let w = n.w as u32;
        let r = match n.op {
            Op::Not => !self.eval_rec(n.a, m)? & mask(w),
            Op::Ite => if self.eval_rec(n.a, m)? != 0 { self.eval_rec(n.b, m)? } else { self.eval_rec(n.c, m)? },
            Op::Concat => { let lw = self.w(n.b); let h = self.eval_rec(n.a, m)?; let l = self.eval_rec(n.b, m)?; if lw >= 128 { return None; } (h << lw) | l }
            Op::Extract => { if self.w(n.a) > 128 { return None; } (self.eval_rec(n.a, m)? >> n.b) & mask(w) }
            Op::ZExt => self.eval_rec(n.a, m)?,
            Op::SExt => { let iw = self.w(n.a); (sx(self.eval_rec(n.a, m)?, iw) as u128) & mask(w) }
            Op::FIsNan | Op::SIToFP | Op::UIToFP | Op::FPToSI | Op::FPToUI | Op::FPTrunc | Op::FPExt | Op::FRnd => { let wa = self.w(n.a); let a = self.eval_rec(n.a, m)?; fold(n.op, w, a, n.c as u128, wa) }
            Op::UfE | Op::UfD | Op::Tab => return None,
            _ => { let wa = self.w(n.a); if wa > 128 { return None; } let a = self.eval_rec(n.a, m)?; let b = self.eval_rec(n.b, m)?; fold(n.op, w, a, b, wa) }
        };
        if w > 128 { return None; }
        self.stamp[e as usize] = self.gen; self.val[e as usize] = r;
        Some(r)
    }
}
