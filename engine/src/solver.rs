//! Satisfiability queries: independence slicing, query cache, z3.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::time::Instant;

type P = *mut c_void;
#[allow(non_snake_case)]
extern "C" {
    fn Z3_mk_config() -> P; fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_inc_ref(c: P, a: P); 
    fn Z3_mk_simple_solver(c: P) -> P; fn Z3_mk_solver_for_logic(c: P, s: P) -> P; fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P); fn Z3_solver_pop(c: P, s: P, n: c_uint); fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int; fn Z3_solver_get_model(c: P, s: P) -> P; fn Z3_solver_reset(c: P, s: P);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_model_inc_ref(c: P, m: P); fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, a: P, comp: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, out: *mut u64) -> bool;
    fn Z3_mk_params(c: P) -> P; fn Z3_params_inc_ref(c: P, p: P); fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P; fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P; 
    fn Z3_mk_const(c: P, s: P, so: P) -> P; fn Z3_mk_numeral(c: P, s: *const c_char, so: P) -> P; fn Z3_mk_unsigned_int64(c: P, v: u64, so: P) -> P;
    fn Z3_mk_func_decl(c: P, s: P, n: c_uint, d: *const P, r: P) -> P; fn Z3_mk_app(c: P, d: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_true(c: P) -> P; fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P; fn Z3_mk_not(c: P, a: P) -> P; fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P; fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P; fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P; fn Z3_mk_bvsub(c: P, a: P, b: P) -> P; fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P; fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P; fn Z3_mk_bvurem(c: P, a: P, b: P) -> P; fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P; fn Z3_mk_bvor(c: P, a: P, b: P) -> P; fn Z3_mk_bvxor(c: P, a: P, b: P) -> P; fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P; fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P; fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P; fn Z3_mk_bvule(c: P, a: P, b: P) -> P; fn Z3_mk_bvslt(c: P, a: P, b: P) -> P; fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P; fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P; fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_fpa_sort_double(c: P) -> P; fn Z3_mk_fpa_sort_single(c: P) -> P; fn Z3_mk_fpa_rne(c: P) -> P; fn Z3_mk_fpa_rtz(c: P) -> P;
    fn Z3_mk_fpa_rtp(c: P) -> P; fn Z3_mk_fpa_rtn(c: P) -> P; fn Z3_mk_fpa_rna(c: P) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, a: P, s: P) -> P; fn Z3_mk_fpa_to_ieee_bv(c: P, a: P) -> P;
    fn Z3_mk_fpa_add(c: P, r: P, a: P, b: P) -> P; fn Z3_mk_fpa_sub(c: P, r: P, a: P, b: P) -> P; fn Z3_mk_fpa_mul(c: P, r: P, a: P, b: P) -> P; fn Z3_mk_fpa_div(c: P, r: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_lt(c: P, a: P, b: P) -> P; fn Z3_mk_fpa_leq(c: P, a: P, b: P) -> P; fn Z3_mk_fpa_eq(c: P, a: P, b: P) -> P; fn Z3_mk_fpa_is_nan(c: P, a: P) -> P;
    fn Z3_mk_fpa_to_fp_signed(c: P, r: P, a: P, s: P) -> P; fn Z3_mk_fpa_to_fp_unsigned(c: P, r: P, a: P, s: P) -> P; fn Z3_mk_fpa_to_fp_float(c: P, r: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_sbv(c: P, r: P, a: P, w: c_uint) -> P; fn Z3_mk_fpa_to_ubv(c: P, r: P, a: P, w: c_uint) -> P;
    fn Z3_mk_fpa_round_to_integral(c: P, r: P, a: P) -> P;
    fn Z3_get_version(a: *mut c_uint, b: *mut c_uint, d: *mut c_uint, e: *mut c_uint);
}

#[derive(Clone)]
pub enum Res { Unsat, Sat(std::rc::Rc<Vec<(u32, u8)>>), Unknown }

#[derive(Default, Clone)]
pub struct Stats { pub queries: u64, pub sat: u64, pub unsat: u64, pub unknown: u64, pub cache: u64, pub domain: u64, pub model_hits: u64, pub time_s: f64, pub max_s: f64 }

pub struct Solver {
    ctx: P, solver: P, simple: P, fps: P,
    bvmap: HashMap<E, P, BH>, boolmap: HashMap<E, P, BH>,
    cache: HashMap<Box<[E]>, Res, BH>,
    ufs: HashMap<(Op, u32), P>,
    pub st: Stats,
    pub dump: Option<String>, dumped: u32, pub dump_max: u32,
    timeout_ms: u32, use_simple: bool,
}

impl Solver {
    pub fn version() -> String { let (mut a, mut b, mut c, mut d) = (0, 0, 0, 0); unsafe { Z3_get_version(&mut a, &mut b, &mut c, &mut d) }; format!("z3 {}.{}.{}", a, b, c) }
    pub fn new(timeout_ms: u32) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap(); let v = CString::new("true").unwrap(); Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let ctx = Z3_mk_context(cfg);
            let lg = CString::new("QF_BV").unwrap();
            let solver = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, lg.as_ptr())); Z3_solver_inc_ref(ctx, solver);
            let simple = Z3_mk_simple_solver(ctx); Z3_solver_inc_ref(ctx, simple);
            let lg = CString::new("QF_FPBV").unwrap();
            let fps = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, lg.as_ptr())); Z3_solver_inc_ref(ctx, fps);
            for s in [solver, simple, fps] {
                let p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
                let t = CString::new("timeout").unwrap();
                Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, t.as_ptr()), timeout_ms);
                Z3_solver_set_params(ctx, s, p);
            }
            Solver { ctx, solver, simple, fps, bvmap: HashMap::default(), boolmap: HashMap::default(), cache: HashMap::default(), ufs: HashMap::new(), st: Default::default(), dump: None, dumped: 0, dump_max: 40, timeout_ms, use_simple: std::env::var("SYMEX_SIMPLE").is_ok() }
        }
    }
    unsafe fn keep(&self, a: P) -> P { if a.is_null() { panic!("z3 returned null") } Z3_inc_ref(self.ctx, a); a }
    unsafe fn num(&self, v: u128, w: u32) -> P {
        let so = Z3_mk_bv_sort(self.ctx, w);
        if w <= 64 { Z3_mk_unsigned_int64(self.ctx, v as u64, so) } else { let s = CString::new(format!("{}", v)).unwrap(); Z3_mk_numeral(self.ctx, s.as_ptr(), so) }
    }
    unsafe fn fpsort(&self, w: u32) -> P { if w == 64 { Z3_mk_fpa_sort_double(self.ctx) } else { Z3_mk_fpa_sort_single(self.ctx) } }
    unsafe fn fp(&mut self, ar: &Arena, e: E) -> P { let w = ar.w(e); let x = self.bv(ar, e); let s = self.fpsort(w); Z3_mk_fpa_to_fp_bv(self.ctx, x, s) }
    unsafe fn bv(&mut self, ar: &Arena, e: E) -> P {
        if let Some(p) = self.bvmap.get(&e) { return *p; }
        let c = self.ctx; let n = ar.n[e as usize]; let w = n.w as u32;
        let r = match n.op {
            Op::Const => self.num(ar.cv(e).unwrap(), w),
            Op::Sym => Z3_mk_const(c, Z3_mk_int_symbol(c, n.a as c_int), Z3_mk_bv_sort(c, 8)),
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle | Op::FEq | Op::FLt | Op::FLe | Op::FIsNan => { let b = self.bool(ar, e); let one = self.num(1, 1); let z = self.num(0, 1); Z3_mk_ite(c, b, one, z) }
            Op::Ite => { let b = self.bool(ar, n.a); let x = self.bv(ar, n.b); let y = self.bv(ar, n.c); Z3_mk_ite(c, b, x, y) }
            Op::Not => { let x = self.bv(ar, n.a); Z3_mk_bvnot(c, x) }
            Op::Extract => { let x = self.bv(ar, n.a); Z3_mk_extract(c, n.b + w - 1, n.b, x) }
            Op::ZExt => { let x = self.bv(ar, n.a); Z3_mk_zero_ext(c, w - ar.w(n.a), x) }
            Op::SExt => { let x = self.bv(ar, n.a); Z3_mk_sign_ext(c, w - ar.w(n.a), x) }
            Op::UfE | Op::UfD => {
                let x = self.bv(ar, n.a);
                let d = self.uf(n.op, n.c);
                Z3_mk_app(c, d, 1, &x)
            }
            Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => {
                let x = self.fp(ar, n.a); let y = self.fp(ar, n.b); let rm = Z3_mk_fpa_rne(c);
                let r = match n.op { Op::FAdd => Z3_mk_fpa_add(c, rm, x, y), Op::FSub => Z3_mk_fpa_sub(c, rm, x, y), Op::FMul => Z3_mk_fpa_mul(c, rm, x, y), _ => Z3_mk_fpa_div(c, rm, x, y) };
                Z3_mk_fpa_to_ieee_bv(c, r)
            }
            Op::Tab => {
                let x = self.bv(ar, n.a); let v = ar.vecs[n.b as usize].clone();
                let mut acc = self.num(v[255] as u128, w);
                for k in (1..256).rev() { if v[k] != v[k - 1] { let b = self.num(k as u128, 8); let c1 = Z3_mk_bvult(c, x, b); let y = self.num(v[k - 1] as u128, w); acc = Z3_mk_ite(c, c1, y, acc); } }
                acc
            }
            Op::FRem => panic!("symbolic frem"),
            Op::SIToFP => { let x = self.bv(ar, n.a); let s = self.fpsort(w); Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_signed(c, Z3_mk_fpa_rne(c), x, s)) }
            Op::UIToFP => { let x = self.bv(ar, n.a); let s = self.fpsort(w); Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_unsigned(c, Z3_mk_fpa_rne(c), x, s)) }
            Op::FPTrunc | Op::FPExt => { let x = self.fp(ar, n.a); let s = self.fpsort(w); Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_float(c, Z3_mk_fpa_rne(c), x, s)) }
            Op::FRnd => { let x = self.fp(ar, n.a); let rm = match n.c { 0 => Z3_mk_fpa_rtn(c), 1 => Z3_mk_fpa_rtp(c), 2 => Z3_mk_fpa_rtz(c), 3 => Z3_mk_fpa_rna(c), _ => Z3_mk_fpa_rne(c) }; Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_round_to_integral(c, rm, x)) }
            Op::FPToSI | Op::FPToUI => { // saturating, NaN -> 0
                let aw = ar.w(n.a); let x = self.fp(ar, n.a); let signed = n.op == Op::FPToSI; let s = self.fpsort(aw);
                let (lo, hi): (f64, f64) = if signed { (-(2f64.powi(w as i32 - 1)), 2f64.powi(w as i32 - 1)) } else { (0.0, 2f64.powi(w as i32)) };
                let k = |v: f64| -> P { let bits = if aw == 64 { v.to_bits() } else { (v as f32).to_bits() as u64 }; Z3_mk_fpa_to_fp_bv(c, self.num(bits as u128, aw), s) };
                let toolow = if signed { Z3_mk_fpa_lt(c, x, k(lo)) } else { Z3_mk_fpa_leq(c, x, k(0.0)) };
                let toohigh = Z3_mk_fpa_leq(c, k(hi), x);
                let conv = if signed { Z3_mk_fpa_to_sbv(c, Z3_mk_fpa_rtz(c), x, w) } else { Z3_mk_fpa_to_ubv(c, Z3_mk_fpa_rtz(c), x, w) };
                let minv = self.num(if signed { 1u128 << (w - 1) } else { 0 }, w); let maxv = self.num(if signed { (1u128 << (w - 1)) - 1 } else { mask(w) }, w);
                Z3_mk_ite(c, Z3_mk_fpa_is_nan(c, x), self.num(0, w), Z3_mk_ite(c, toolow, minv, Z3_mk_ite(c, toohigh, maxv, conv)))
            }
            _ => {
                let x = self.bv(ar, n.a); let y = self.bv(ar, n.b);
                match n.op {
                    Op::Add => Z3_mk_bvadd(c, x, y), Op::Sub => Z3_mk_bvsub(c, x, y), Op::Mul => Z3_mk_bvmul(c, x, y),
                    Op::UDiv => Z3_mk_bvudiv(c, x, y), Op::SDiv => Z3_mk_bvsdiv(c, x, y), Op::URem => Z3_mk_bvurem(c, x, y), Op::SRem => Z3_mk_bvsrem(c, x, y),
                    Op::And => Z3_mk_bvand(c, x, y), Op::Or => Z3_mk_bvor(c, x, y), Op::Xor => Z3_mk_bvxor(c, x, y),
                    Op::Shl => Z3_mk_bvshl(c, x, y), Op::LShr => Z3_mk_bvlshr(c, x, y), Op::AShr => Z3_mk_bvashr(c, x, y),
                    Op::Concat => Z3_mk_concat(c, x, y),
                    o => panic!("bv {:?}", o),
                }
            }
        };
        let r = self.keep(r); self.bvmap.insert(e, r); r
    }
    unsafe fn uf(&mut self, op: Op, key: u32) -> P {
        if let Some(p) = self.ufs.get(&(op, key)) { return *p; }
        let nm = CString::new(format!("{}_{}", if op == Op::UfE { "E" } else { "D" }, key)).unwrap();
        let so = Z3_mk_bv_sort(self.ctx, 128);
        let d = Z3_mk_func_decl(self.ctx, Z3_mk_string_symbol(self.ctx, nm.as_ptr()), 1, &so, so);
        let d = self.keep(d); self.ufs.insert((op, key), d); d
    }
    unsafe fn bool(&mut self, ar: &Arena, e: E) -> P {
        if let Some(p) = self.boolmap.get(&e) { return *p; }
        let c = self.ctx; let n = ar.n[e as usize];
        debug_assert_eq!(n.w, 1);
        let r = match n.op {
            Op::Const => if ar.cv(e).unwrap() != 0 { Z3_mk_true(c) } else { Z3_mk_false(c) },
            Op::Eq => { if ar.w(n.a) == 1 { let x = self.bool(ar, n.a); let y = self.bool(ar, n.b); Z3_mk_eq(c, x, y) } else { let x = self.bv(ar, n.a); let y = self.bv(ar, n.b); Z3_mk_eq(c, x, y) } }
            Op::Ult => { let x = self.bv(ar, n.a); let y = self.bv(ar, n.b); Z3_mk_bvult(c, x, y) }
            Op::Ule => { let x = self.bv(ar, n.a); let y = self.bv(ar, n.b); Z3_mk_bvule(c, x, y) }
            Op::Slt => { let x = self.bv(ar, n.a); let y = self.bv(ar, n.b); Z3_mk_bvslt(c, x, y) }
            Op::Sle => { let x = self.bv(ar, n.a); let y = self.bv(ar, n.b); Z3_mk_bvsle(c, x, y) }
            Op::FEq => { let x = self.fp(ar, n.a); let y = self.fp(ar, n.b); Z3_mk_fpa_eq(c, x, y) }
            Op::FLt => { let x = self.fp(ar, n.a); let y = self.fp(ar, n.b); Z3_mk_fpa_lt(c, x, y) }
            Op::FLe => { let x = self.fp(ar, n.a); let y = self.fp(ar, n.b); Z3_mk_fpa_leq(c, x, y) }
            Op::FIsNan => { let x = self.fp(ar, n.a); Z3_mk_fpa_is_nan(c, x) }
            Op::Not => { let x = self.bool(ar, n.a); Z3_mk_not(c, x) }
            Op::And => { let v = [self.bool(ar, n.a), self.bool(ar, n.b)]; Z3_mk_and(c, 2, v.as_ptr()) }
            Op::Or => { let v = [self.bool(ar, n.a), self.bool(ar, n.b)]; Z3_mk_or(c, 2, v.as_ptr()) }
            Op::Xor => { let x = self.bool(ar, n.a); let y = self.bool(ar, n.b); Z3_mk_xor(c, x, y) }
            Op::Ite => { let b = self.bool(ar, n.a); let x = self.bool(ar, n.b); let y = self.bool(ar, n.c); Z3_mk_ite(c, b, x, y) }
            _ => { let x = self.bv(ar, e); let one = self.num(1, 1); Z3_mk_eq(c, x, one) }
        };
        let r = self.keep(r); self.boolmap.insert(e, r); r
    }
    /// Are the constraints `pc` together with `cond` satisfiable?  Only the constraints
    /// that share symbols (transitively) with `cond` are sent; the rest is satisfied by
    /// the caller's current model.
    pub fn check(&mut self, ar: &Arena, pc: &[E], cond: E) -> Res {
        if let Some(k) = ar.cv(cond) { return if k != 0 { Res::Sat(Default::default()) } else { Res::Unsat }; }
        let mut set = ar.sup[cond as usize];
        let mut used = vec![false; pc.len()];
        let mut q: Vec<E> = vec![cond];
        loop {
            let mut ch = false;
            for (i, c) in pc.iter().enumerate() {
                if used[i] { continue; }
                let s = &ar.sup[*c as usize];
                if (0..NW).any(|j| s[j] & set[j] != 0) { used[i] = true; ch = true; q.push(*c); for j in 0..NW { set[j] |= s[j] } }
            }
            if !ch { break; }
        }
        q.sort_unstable(); q.dedup();
        if let Some(r) = self.cache.get(&q[..]) { self.st.cache += 1; return r.clone(); }
        let t = Instant::now();
        let heavy = set[UFBIT / 64] >> (UFBIT % 64) & 1 == 1;
        let r = unsafe {
            let s = if heavy || self.use_simple { self.simple } else if q.iter().any(|e| ar.fp[*e as usize]) { self.fps } else { self.solver };
            Z3_solver_push(self.ctx, s);
            for e in &q { let b = self.bool(ar, *e); Z3_solver_assert(self.ctx, s, b); }
            let dumpit = self.dump.is_some() && self.dumped < self.dump_max && (self.st.queries % 37 == 0);
            let text = if dumpit { Some(CStr::from_ptr(Z3_solver_to_string(self.ctx, s)).to_string_lossy().into_owned()) } else { None };
            let r = Z3_solver_check(self.ctx, s);
            if let (Some(t), Some(d)) = (text, &self.dump) {
                let _ = std::fs::write(format!("{}/q{}_{}.smt2", d, self.dumped, if r == 1 { "sat" } else if r == -1 { "unsat" } else { "unknown" }), format!("(set-logic ALL)\n{}\n(check-sat)\n", t));
                self.dumped += 1;
            }
            let out = match r {
                1 => {
                    let m = Z3_solver_get_model(self.ctx, s); Z3_model_inc_ref(self.ctx, m);
                    let mut v = vec![];
                    for i in 0..UFBIT { if set[i / 64] >> (i % 64) & 1 == 1 {
                        let so = Z3_mk_bv_sort(self.ctx, 8);
                        let k = Z3_mk_const(self.ctx, Z3_mk_int_symbol(self.ctx, i as c_int), so);
                        Z3_inc_ref(self.ctx, k);
                        let mut o: P = std::ptr::null_mut(); let mut x = 0u64;
                        if Z3_model_eval(self.ctx, m, k, true, &mut o) { Z3_get_numeral_uint64(self.ctx, o, &mut x); }
                        v.push((i as u32, x as u8));
                    } }
                    Z3_model_dec_ref(self.ctx, m);
                    Res::Sat(std::rc::Rc::new(v))
                }
                -1 => Res::Unsat,
                _ => Res::Unknown,
            };
            Z3_solver_pop(self.ctx, s, 1);
            out
        };
        let dt = t.elapsed().as_secs_f64();
        self.st.queries += 1; self.st.time_s += dt; if dt > self.st.max_s { self.st.max_s = dt }
        match r { Res::Unsat => self.st.unsat += 1, Res::Sat(_) => self.st.sat += 1, Res::Unknown => self.st.unknown += 1 }
        if std::env::var("SYMEX_SLOWQ").is_ok() && dt > 1.0 { eprintln!("slow query {:.1}s: {}", dt, q.len()); let _ = self.timeout_ms; }
        self.cache.insert(q.into_boxed_slice(), r.clone());
        r
    }
}
#[allow(dead_code)] fn _unused(c: P, s: P) { unsafe { Z3_solver_reset(c, s) } }
