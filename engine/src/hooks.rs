//! Intrinsics, the harness interface, and environment stubs.
use crate::exec::*;
use crate::expr::*;
use crate::ir::*;
use std::cell::Cell;
use std::rc::Rc;

thread_local!(pub static FALLTHROUGH: Cell<bool> = Cell::new(false));
fn fall() -> R<V> { FALLTHROUGH.with(|f| f.set(true)); Err(Stop::Exit) }
const VOID: V = V::C(0);

pub fn resolve(name: &str, decl: bool) -> Option<HFn> {
    if let Some(n) = name.strip_prefix("llvm.") { return Some(intrinsic(n)); }
    if name.starts_with("vp_") { return Some(match name {
        "vp_sym" => vp_sym, "vp_assume" => vp_assume, "vp_check" => vp_check, "vp_reach" => vp_reach, "vp_observe" => vp_observe,
        "vp_file" => vp_file, "vp_conc" => vp_conc, "vp_is_symbolic" => |_, _, c| Ok(V::C(matches!(c.args[0], V::S(_)) as u64)),
        "vp_nfiles" => |_, st, _| Ok(V::C(st.vfs.values().filter(|f| !f.dir).count() as u64)), "vp_in_engine" => |_, _, _| Ok(V::C(1)), _ => return None }); }
    let has = |s: &str| name.contains(s);
    if name.starts_with("_R") {
        if has("___rust_alloc_zeroed") { return Some(|x, st, c| { let n = x.cv(st, &c.args[0])?; alloc(st, &V::C(n)) }); }
        if has("___rust_alloc_error_handler") { return Some(|_, _, _| Err(Stop::Panic("allocation failure".into()))); }
        if has("___rust_no_alloc_shim") { return Some(|_, _, _| Ok(VOID)); }
        if has("12___rust_alloc") { return Some(|x, st, c| { let n = x.cv(st, &c.args[0])?; alloc(st, &V::C(n)) }); }
        if has("14___rust_dealloc") { return Some(|x, st, c| { let a = x.cv(st, &c.args[0])?; free(st, a) }); }
        if has("14___rust_realloc") { return Some(|x, st, c| { let a = x.cv(st, &c.args[0])?; let old = x.cv(st, &c.args[1])?; let n = x.cv(st, &c.args[3])?; realloc(x, st, a, old, n) }); }
        if has("4core9panicking") || has("17rust_begin_unwind") || has("16slice_error_fail") || has("13unwrap_failed") || has("13expect_failed") || has("16slice_index_fail") || has("17capacity_overflow") || has("18panic_already_borrowed") { return Some(panic_hook); }
        // hash functions: every key hashes to the same value (one admissible hash function); all ones, so that
        // iterating a hash map does not give the insertion order
        if has("8hash_one") && has("11BuildHasher") { return Some(|_, _, _| Ok(V::C(!0))); }
        if has("5ahash") || has("4hash3sip") || has("13DefaultHasher") {
            if has("6Hasher6finish") { return Some(|_, _, _| Ok(V::C(!0))); }
            if has("6Hasher5write") || has("6Hasher8write_") || has("6Hasher9write_") || has("6Hasher11write_") { return Some(|_, _, _| Ok(VOID)); }
            if has("get_fixed_seeds") { return None; }
        }
        if has("19hashmap_random_keys") { return Some(|_, _, _| Ok(V::A(Rc::new(vec![V::C(1), V::C(2)])))); }
        // error-message text only: the offending value is left out of serde's messages
        if (has("10Unexpected") || has("14JsonUnexpected")) && has("7Display3fmt") { return Some(|_, _, _| Ok(V::C(0))); }
        // error-message text only: quoting a symbolic string would split on every character
        if name.ends_with("4core3fmteNtB5_5Debug3fmt") || (has("4core3fmte") && has("5Debug3fmt")) { return Some(str_debug); }
        if crate::aes::is_hook(name) { return crate::aes::resolve(name); }
        if has("8is_enabled") && has("10std_detect") { return Some(|_, _, _| Ok(V::C(0))); }
        return None;
    }
    if !decl { return None; }
    crate::libc::resolve(name)
}

pub fn alloc(st: &mut State, n: &V) -> R<V> {
    match n { V::C(n) => { if *n > 1 << 28 { return Err(Stop::Panic("allocation of more than 256 MB".into())); } Ok(V::C(st.mem.alloc(*n as usize))) } _ => Err(Stop::Unsupported("symbolic allocation size".into())) }
}
pub fn free(st: &mut State, a: u64) -> R<V> { if a == 0 { return Ok(VOID); } if st.mem.free(a) { Ok(VOID) } else { Err(Stop::Ub(format!("free of invalid pointer {:#x}", a))) } }
pub fn realloc(x: &mut Exec, st: &mut State, a: u64, old: u64, n: u64) -> R<V> {
    if n > 1 << 28 { return Err(Stop::Panic("allocation of more than 256 MB".into())); }
    let b = st.mem.alloc(n as usize); x.copy(st, b, a, old.min(n))?; free(st, a)?; Ok(V::C(b))
}
fn panic_hook(x: &mut Exec, st: &mut State, c: &Call) -> R<V> {
    // the caller location is the last argument
    let mut loc = String::from("?");
    if let Some(V::C(p)) = c.args.last() {
        if let (Ok((_, _)), true) = (Exec::chk(st, *p, 24), true) {
            let rd = |x: &mut Exec, off: u64, n: u64| -> u64 { let mut r = 0; for i in 0..n { if let Ok(V::C(b)) = x.load_byte(st, p + off + i) { r |= b << (8 * i) } } r };
            let (fp, fl, line) = (rd(x, 0, 8), rd(x, 8, 8), rd(x, 16, 4));
            if fl < 500 { if let Ok(s) = x.rstr(st, fp, fl) { loc = format!("{}:{}", s, line); } }
        }
    }
    Err(Stop::Panic(loc))
}
fn str_debug(x: &mut Exec, st: &mut State, c: &Call) -> R<V> {
    let p = x.cv(st, &c.args[0])?; let n = x.cv(st, &c.args[1])?;
    let b = x.bytes(st, p, n)?;
    if x.dbg || b.iter().all(|v| matches!(v, V::C(_))) { return fall(); }
    Ok(V::C(0)) // Ok(()): nothing written
}

// ---- harness interface ---------------------------------------------------------------
fn vp_sym(x: &mut Exec, st: &mut State, c: &Call) -> R<V> {
    let p = x.cv(st, &c.args[0])?; let n = x.cv(st, &c.args[1])?;
    for i in 0..n {
        if st.nsym as usize >= UFBIT { return Err(Stop::Unsupported("too many symbolic bytes".into())); }
        let e = x.ar.sym(st.nsym); st.nsym += 1;
        x.store_scalar(st, p + i, &V::S(e), 8)?;
    }
    Ok(VOID)
}
fn boolarg(x: &mut Exec, v: &V, w: u32) -> E { let e = x.ex(v, w); if w == 1 { e } else { let z = x.ar.c(0, w); let q = x.ar.eq(e, z); x.ar.not(q) } }
fn vp_assume(x: &mut Exec, st: &mut State, c: &Call) -> R<V> {
    let e = boolarg(x, &c.args[0], c.aw[0]);
    match x.assume(st, e)? { true => Ok(VOID), false => Err(Stop::Infeasible) }
}
fn vp_check(x: &mut Exec, st: &mut State, c: &Call) -> R<V> {
    let p = x.cv(st, &c.args[1])?; let n = x.cv(st, &c.args[2])?;
    let id = x.rstr(st, p, n)?;
    let e = boolarg(x, &c.args[0], c.aw[0]);
    let ne = x.ar.not(e);
    let cnt = x.checks.entry(id.clone()).or_insert((0, 0)); cnt.0 += 1; if x.ar.cv(e) == Some(1) { cnt.1 += 1; }
    if let Some(b) = x.possible(st, ne)? { x.violation(st, &id, "assert", "", b); }
    match x.assume(st, e)? { true => Ok(VOID), false => Err(Stop::Done) }
}
fn vp_reach(x: &mut Exec, st: &mut State, c: &Call) -> R<V> {
    let p = x.cv(st, &c.args[0])?; let n = x.cv(st, &c.args[1])?; let id = x.rstr(st, p, n)?;
    let k = match x.reach_names.iter().position(|s| *s == id) { Some(k) => k, None => { x.reach_names.push(id); x.reach_names.len() - 1 } };
    st.reach.push(k as u32); Ok(VOID)
}
fn vp_observe(x: &mut Exec, st: &mut State, c: &Call) -> R<V> {
    let p = x.cv(st, &c.args[0])?; let n = x.cv(st, &c.args[1])?;
    let b = x.bytes(st, p, n)?; st.obs.extend(b); Ok(VOID)
}
fn vp_file(x: &mut Exec, st: &mut State, c: &Call) -> R<V> {
    let p = x.cv(st, &c.args[0])?; let n = x.cv(st, &c.args[1])?; let path = x.rstr(st, p, n)?;
    let p = x.cv(st, &c.args[2])?; let n = x.cv(st, &c.args[3])?; let b = x.bytes(st, p, n)?;
    crate::libc::put_file(st, &path, b); Ok(VOID)
}
fn vp_conc(x: &mut Exec, st: &mut State, c: &Call) -> R<V> { Ok(V::C(x.cv(st, &c.args[0])?)) }

impl Exec {
    pub fn assume(&mut self, st: &mut State, e: E) -> R<bool> {
        if let Some(k) = self.ar.cv(e) { return Ok(k != 0); }
        match self.possible_delta(st, e)? { Some(d) => { self.set_model(st, &d); self.add(st, e); Ok(true) } None => Ok(false) }
    }
    pub fn possible(&mut self, st: &State, e: E) -> R<Option<Vec<u8>>> {
        match self.possible_delta(st, e)? { Some(d) => { let mut s = State { model: st.model.clone(), ..st.clone() }; self.set_model(&mut s, &d); Ok(Some(self.model_bytes(&s))) } None => Ok(None) }
    }
}

// ---- intrinsics ---------------------------------------------------------------------
fn lanes1(x: &mut Exec, v: &V, mut f: impl FnMut(&mut Exec, &V) -> R<V>) -> R<V> { match v { V::A(a) => { let mut r = vec![]; for y in a.iter() { r.push(f(x, y)?) } Ok(V::A(Rc::new(r))) } v => f(x, v) } }
fn lanes2(x: &mut Exec, a: &V, b: &V, mut f: impl FnMut(&mut Exec, &V, &V) -> R<V>) -> R<V> { match (a, b) { (V::A(p), V::A(q)) => { let mut r = vec![]; for (y, z) in p.iter().zip(q.iter()) { r.push(f(x, y, z)?) } Ok(V::A(Rc::new(r))) } (a, b) => f(x, a, b) } }

pub fn intrinsic(n: &str) -> HFn {
    let st = |p: &str| n.starts_with(p);
    if st("lifetime.") || st("dbg.") || st("experimental.noalias") || st("assume") || st("invariant.") || st("va_") || st("x86.sse2.pause") || st("prefetch") || st("donothing") || st("pseudoprobe") { return |_, _, _| Ok(VOID); }
    if st("memcpy.") || st("memmove.") { return |x, st, c| { let n = x.cv(st, &c.args[2])?; if n == 0 { return Ok(VOID); } let d = x.cv(st, &c.args[0])?; let s = x.cv(st, &c.args[1])?; x.copy(st, d, s, n)?; Ok(VOID) }; }
    if st("memset.") { return |x, st, c| { let n = x.cv(st, &c.args[2])?; if n == 0 { return Ok(VOID); } let d = x.cv(st, &c.args[0])?; Exec::chk(st, d, n)?; match &c.args[1] { V::C(b) => { let (id, off) = Exec::chk(st, d, n)?; let o = st.mem.get_mut(id).unwrap(); let n = n as usize; o.data[off..off + n].fill(*b as u8); if let Some(s) = &mut o.sym { s[off..off + n].fill(0) } } v => for i in 0..n { x.store_scalar(st, d + i, v, 8)? } } Ok(VOID) }; }
    if st("threadlocal.address") || st("ptrmask") || st("launder") || st("strip.invariant") || st("expect") || st("ssa.copy") || st("freeze") { return |_, _, c| Ok(c.args[0].clone()); }
    if st("trap") || st("ubsantrap") || st("debugtrap") { return |_, _, _| Err(Stop::Panic("abort".into())); }
    if st("is.constant") { return |_, _, _| Ok(V::C(0)); }
    if st("objectsize") { return |_, _, _| Ok(V::C(!0)); }
    if n.contains(".with.overflow") {
        return |x, _, c| {
            let w = c.aw[0]; let nm = &c.name[5..];
            lanes2(x, &c.args[0], &c.args[1], |x, a, b| {
                if let (V::C(p), V::C(q)) = (a, b) { if w <= 64 {
                    let (p, q) = (*p as u128, *q as u128); let (sp, sq) = (sx(p, w), sx(q, w)); let m = mask(w);
                    let (r, o) = if nm.starts_with("uadd") { let r = p + q; (r & m, r > m) } else if nm.starts_with("usub") { (p.wrapping_sub(q) & m, p < q) } else if nm.starts_with("umul") { let r = p * q; (r & m, r > m) }
                        else { let r = if nm.starts_with("sadd") { sp + sq } else if nm.starts_with("ssub") { sp - sq } else { sp * sq }; ((r as u128) & m, sx((r as u128) & m, w) != r) };
                    return Ok(V::A(Rc::new(vec![V::C(r as u64), V::C(o as u64)])));
                } }
                let (p, q) = (x.ex(a, w), x.ex(b, w));
                if w > 64 { if let (Some(p), Some(q)) = (x.ar.cv(p), x.ar.cv(q)) {
                    let (r, o) = if nm.starts_with("uadd") { p.overflowing_add(q) } else if nm.starts_with("usub") { p.overflowing_sub(q) } else if nm.starts_with("umul") { p.overflowing_mul(q) } else { let (p, q) = (p as i128, q as i128); let (r, o) = if nm.starts_with("sadd") { p.overflowing_add(q) } else if nm.starts_with("ssub") { p.overflowing_sub(q) } else { p.overflowing_mul(q) }; (r as u128, o) };
                    if w == 128 { return Ok(V::A(Rc::new(vec![V::W(Box::new(r)), V::C(o as u64)]))); }
                    return Err(Stop::Unsupported("wide overflow op".into()));
                } }
                let (r, o) = if nm.starts_with("uadd") { let r = x.ar.bin(Op::Add, p, q);
                        let (ua, ub) = (x.ar.umax[p as usize], x.ar.umax[q as usize]);
                        let o = if w <= 64 && ua as u128 + ub as u128 <= mask(w) { x.ar.c(0, 1) } else { let o = x.ar.bin(Op::Ult, r, p); o }; (r, o) }
                    else if nm.starts_with("usub") { let r = x.ar.bin(Op::Sub, p, q); let o = x.ar.bin(Op::Ult, p, q); (r, o) }
                    else if nm.starts_with("umul") { let r = x.ar.bin(Op::Mul, p, q);
                        let (ua, ub) = (x.ar.umax[p as usize], x.ar.umax[q as usize]);
                        let o = if w <= 64 && ua as u128 * ub as u128 <= mask(w) { x.ar.c(0, 1) }
                            else if let (Some(k), true) = (x.ar.cv(q), w <= 64) { let lim = mask(w) / k.max(1); let l = x.ar.c(lim, w); x.ar.bin(Op::Ult, l, p) }
                            else { let (pp, qq) = (x.ar.zext(p, 2 * w), x.ar.zext(q, 2 * w)); let rr = x.ar.bin(Op::Mul, pp, qq); let h = x.ar.extract(rr, w, w); let z = x.ar.c(0, w); let e = x.ar.eq(h, z); x.ar.not(e) };
                        (r, o) }
                    else {
                        let op = if nm.starts_with("sadd") { Op::Add } else if nm.starts_with("ssub") { Op::Sub } else { Op::Mul };
                        let ww = if op == Op::Mul { 2 * w } else { w + 1 };
                        let r = x.ar.bin(op, p, q); let (pp, qq) = (x.ar.sext(p, ww), x.ar.sext(q, ww)); let rr = x.ar.bin(op, pp, qq); let rs = x.ar.sext(r, ww); let e = x.ar.eq(rr, rs); (r, x.ar.not(e)) };
                Ok(V::A(Rc::new(vec![x.vx(r), x.vx(o)])))
            })
        };
    }
    if st("uadd.sat") || st("usub.sat") || st("sadd.sat") || st("ssub.sat") {
        return |x, _, c| { let w = c.aw[0]; let nm = &c.name[5..]; lanes2(x, &c.args[0], &c.args[1], |x, a, b| {
            let (p, q) = (x.ex(a, w), x.ex(b, w));
            let r = if nm.starts_with("uadd") { let r = x.ar.bin(Op::Add, p, q); let o = x.ar.bin(Op::Ult, r, p); let m = x.ar.c(mask(w), w); x.ar.ite(o, m, r) }
                else if nm.starts_with("usub") { let r = x.ar.bin(Op::Sub, p, q); let o = x.ar.bin(Op::Ult, p, q); let z = x.ar.c(0, w); x.ar.ite(o, z, r) }
                else { let op = if nm.starts_with("sadd") { Op::Add } else { Op::Sub }; let r = x.ar.bin(op, p, q); let (pp, qq) = (x.ar.sext(p, w + 1), x.ar.sext(q, w + 1)); let rr = x.ar.bin(op, pp, qq); let rs = x.ar.sext(r, w + 1); let ok = x.ar.eq(rr, rs);
                    let neg = x.ar.extract(rr, w, 1); let mn = x.ar.c(1u128 << (w - 1), w); let mx = x.ar.c((1u128 << (w - 1)) - 1, w); let s = x.ar.ite(neg, mn, mx); x.ar.ite(ok, r, s) };
            Ok(x.vx(r)) }) };
    }
    if st("umax") || st("umin") || st("smax") || st("smin") {
        return |x, _, c| { let w = c.aw[0]; let nm = &c.name[5..]; lanes2(x, &c.args[0], &c.args[1], |x, a, b| {
            let (p, q) = (x.ex(a, w), x.ex(b, w));
            let op = if nm.starts_with('u') { Op::Ult } else { Op::Slt }; let lt = x.ar.bin(op, p, q);
            let r = if &nm[1..4] == "max" { x.ar.ite(lt, q, p) } else { x.ar.ite(lt, p, q) }; Ok(x.vx(r)) }) };
    }
    if st("ucmp") || st("scmp") {
        return |x, _, c| { let w = c.aw[0]; let rw = match c.rty { Ty::Vector(_, t) => t.bits(), t => t.bits() }; let nm = &c.name[5..]; lanes2(x, &c.args[0], &c.args[1], |x, a, b| {
            let (p, q) = (x.ex(a, w), x.ex(b, w)); let op = if nm.starts_with('u') { Op::Ult } else { Op::Slt };
            let lt = x.ar.bin(op, p, q); let eq = x.ar.eq(p, q); let m1 = x.ar.c(mask(rw), rw); let z = x.ar.c(0, rw); let o = x.ar.c(1, rw); let t = x.ar.ite(eq, z, o); let r = x.ar.ite(lt, m1, t); Ok(x.vx(r)) }) };
    }
    if st("abs.") { return |x, _, c| { let w = c.aw[0]; lanes1(x, &c.args[0], |x, a| { let p = x.ex(a, w); let z = x.ar.c(0, w); let n = x.ar.bin(Op::Sub, z, p); let lt = x.ar.bin(Op::Slt, p, z); let r = x.ar.ite(lt, n, p); Ok(x.vx(r)) }) }; }
    if st("bswap") { return |x, _, c| { let w = c.aw[0]; lanes1(x, &c.args[0], |x, a| { let p = x.ex(a, w); let mut acc = x.ar.extract(p, w - 8, 8); let mut i = w - 8; while i > 0 { i -= 8; let b = x.ar.extract(p, i, 8); acc = x.ar.concat(b, acc); } Ok(x.vx(acc)) }) }; }
    if st("bitreverse") { return |x, _, c| { let w = c.aw[0]; lanes1(x, &c.args[0], |x, a| { let p = x.ex(a, w); let mut acc = x.ar.extract(p, w - 1, 1); let mut i = w - 1; while i > 0 { i -= 1; let b = x.ar.extract(p, i, 1); acc = x.ar.concat(b, acc); } Ok(x.vx(acc)) }) }; }
    if st("ctpop") { return |x, _, c| { let w = c.aw[0]; lanes1(x, &c.args[0], |x, a| { if let V::C(k) = a { return Ok(V::C(k.count_ones() as u64)); } let p = x.ex(a, w); let mut acc = x.ar.c(0, w); for i in 0..w { let b = x.ar.extract(p, i, 1); let b = x.ar.zext(b, w); acc = x.ar.bin(Op::Add, acc, b); } Ok(x.vx(acc)) }) }; }
    if st("cttz") || st("ctlz") {
        return |x, st, c| {
            let w = c.aw[0]; let tz = c.name.starts_with("llvm.cttz");
            let one = |x: &mut Exec, st: &mut State, a: &V| -> R<V> {
                let p = x.ex(a, w);
                if let Some(k) = x.ar.cv(p) { let r = if k == 0 { w } else if tz { k.trailing_zeros() } else { k.leading_zeros() - (128 - w) }; return Ok(if w > 64 { V::W(Box::new(r as u128)) } else { V::C(r as u64) }); }
                // split on the position of the first set bit
                for i in 0..w { let b = x.ar.extract(p, if tz { i } else { w - 1 - i }, 1); if x.decide(st, b)? { return Ok(if w > 64 { V::W(Box::new(i as u128)) } else { V::C(i as u64) }); } }
                Ok(if w > 64 { V::W(Box::new(w as u128)) } else { V::C(w as u64) })
            };
            match &c.args[0] { V::A(v) => { let mut r = vec![]; for y in v.iter() { r.push(one(x, st, y)?) } Ok(V::A(Rc::new(r))) } v => one(x, st, v) }
        };
    }
    if st("fshl") || st("fshr") {
        return |x, st, c| {
            let w = c.aw[0]; let left = c.name.starts_with("llvm.fshl");
            if let V::A(_) = &c.args[0] { return Err(Stop::Unsupported("vector funnel shift".into())); }
            let s = x.cv(st, &c.args[2])? as u32 % w;
            let (a, b) = (x.ex(&c.args[0], w), x.ex(&c.args[1], w));
            let k = if left { s } else { (w - s) % w };
            if s == 0 { return Ok(if left { c.args[0].clone() } else { c.args[1].clone() }); }
            let h = x.ar.extract(a, 0, w - k); let l = x.ar.extract(b, w - k, k); let r = x.ar.concat(h, l); Ok(x.vx(r))
        };
    }
    if st("fptosi.sat") { return |x, _, c| { let w = c.aw[0]; let t = c.rty.bits(); let p = x.ex(&c.args[0], w); let r = x.ar.un(Op::FPToSI, p, t, 0); Ok(x.vx(r)) }; }
    if st("fptoui.sat") { return |x, _, c| { let w = c.aw[0]; let t = c.rty.bits(); let p = x.ex(&c.args[0], w); let r = x.ar.un(Op::FPToUI, p, t, 0); Ok(x.vx(r)) }; }
    if st("fabs") { return |x, _, c| { let w = c.aw[0]; let p = x.ex(&c.args[0], w); let m = x.ar.c(mask(w) >> 1, w); let r = x.ar.bin(Op::And, p, m); Ok(x.vx(r)) }; }
    if st("copysign") { return |x, _, c| { let w = c.aw[0]; let p = x.ex(&c.args[0], w); let q = x.ex(&c.args[1], w); let l = x.ar.extract(p, 0, w - 1); let h = x.ar.extract(q, w - 1, 1); let r = x.ar.concat(h, l); Ok(x.vx(r)) }; }
    macro_rules! rnd { ($k:expr) => { |x, _, c| { let w = c.aw[0]; let p = x.ex(&c.args[0], w); let r = x.ar.un(Op::FRnd, p, w, $k); Ok(x.vx(r)) } } }
    if st("floor") { return rnd!(0); } if st("ceil") { return rnd!(1); } if st("trunc.") { return rnd!(2); } if st("round.") { return rnd!(3); } if st("roundeven") || st("rint") || st("nearbyint") { return rnd!(4); }
    if st("vector.reduce.") {
        return |x, _, c| { let nm = c.name; let w = c.aw[0]; let v = match &c.args[0] { V::A(v) => v.clone(), _ => return Err(Stop::Unsupported("reduce".into())) };
            let mut acc = v[0].clone();
            for y in v[1..].iter() { acc = if nm.contains(".add") { x.bin(Bin::Add, w, &acc, y)? } else if nm.contains(".or") { x.bin(Bin::Or, w, &acc, y)? } else if nm.contains(".and") { x.bin(Bin::And, w, &acc, y)? } else if nm.contains(".xor") { x.bin(Bin::Xor, w, &acc, y)? } else if nm.contains(".mul") { x.bin(Bin::Mul, w, &acc, y)? } else { return Err(Stop::Unsupported(nm.into())) } }
            Ok(acc) };
    }
    if st("x86.xgetbv") { return |_, _, _| Ok(V::C(0)); }
    |_, _, c| Err(Stop::Unsupported(format!("intrinsic {}", c.name)))
}
