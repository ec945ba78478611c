//! The symbolic interpreter.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::solver::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Frame { pub f: Rc<Func>, pub regs: Vec<V>, pub pc: u32, pub sp: u32 }

#[derive(Clone)]
pub struct VFile { pub data: Rc<Vec<V>>, pub dir: bool }
#[derive(Clone)]
pub struct Fd { pub path: Rc<String>, pub pos: u64, pub write: bool, pub append: bool }

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>, pub mem: Mem, pub pc: Vec<E>, pub model: Rc<Model>, pub fixed: SymSet, pub dom: Vec<[u64; 4]>, pub linked: SymSet,
    pub nsym: u32, pub icount: u64, pub obs: Vec<V>, pub reach: Vec<u32>,
    pub vfs: BTreeMap<Rc<String>, VFile>, pub fds: BTreeMap<u64, Fd>, pub errno: u64, pub rnd: u64,
}

pub enum Stop { Panic(String), Done, Infeasible, Ub(String), Unsupported(String), Limit(String), Exit }
pub type R<T> = Result<T, Stop>;

pub struct Violation { pub id: String, pub kind: &'static str, pub loc: String, pub bytes: Vec<u8>, pub trace: Vec<String> }
pub struct Sample { pub bytes: Vec<u8>, pub obs: Vec<u8> }

pub struct Limits { pub max_ins: u64, pub max_paths: u64, pub deadline: Instant, pub samples: usize, pub sample_every: u64, pub max_viol: usize }

pub type HFn = fn(&mut Exec, &mut State, &Call) -> R<V>;
pub struct Call<'a> { pub name: &'a str, pub args: &'a [V], pub aw: &'a [u32], pub rty: &'a Ty }

pub struct Exec {
    pub m: Module, pub ar: Arena, pub sv: Solver, pub work: Vec<State>, pub lim: Limits,
    pub hooks: Vec<Option<Option<HFn>>>,
    pub viol: Vec<Violation>, pub viol_total: u64, pub samples: Vec<Sample>,
    pub paths: u64, pub infeasible: u64, pub forks: u64, pub ins: u64, pub branches: u64,
    pub reach: BTreeSet<String>, pub reach_names: Vec<String>,
    pub fcount: Vec<u64>, pub errors: BTreeMap<String, u64>, pub checks: BTreeMap<String, (u64, u64)>,
    pub errno_addr: u64, pub forksites: HashMap<(u32, u32), u64>, pub max_pc: usize, pub seen_samples: u64, pub tables: u64,
    pub bfs: bool, pub dbg: bool, pub recheck: u64, pub hangs: u32, pub aes_keys: Vec<Vec<u8>>,
}

#[inline] fn m64(w: u32) -> u64 { if w >= 64 { !0 } else { (1u64 << w) - 1 } }

impl Exec {
    pub fn new(m: Module, lim: Limits, solver_ms: u32) -> Exec {
        let n = m.funcs.len();
        Exec { m, ar: Arena::new(), sv: Solver::new(solver_ms), work: vec![], lim, hooks: vec![None; n], viol: vec![], viol_total: 0, samples: vec![],
            paths: 0, infeasible: 0, forks: 0, ins: 0, branches: 0, reach: Default::default(), reach_names: vec![], fcount: vec![0; n], errors: Default::default(), checks: Default::default(),
            errno_addr: 0, forksites: HashMap::new(), max_pc: 0, seen_samples: 0, tables: 0, bfs: false, dbg: false, recheck: 0, hangs: 0, aes_keys: vec![] }
    }
    pub fn init_state(&mut self, entry: &str) -> State {
        let mut mem = Mem::new();
        for i in 0..self.m.globals.len() as u32 {
            let d = self.m.ginit(i); let id = mem.add_global(d, self.m.globals[i as usize].konst);
            assert_eq!(Module::gaddr(i) >> 32, id as u64);
        }
        self.errno_addr = mem.alloc(8);
        let fid = *self.m.fname.get(entry).unwrap_or_else(|| { eprintln!("no harness {}", entry); std::process::exit(3) });
        let f = self.m.func(fid);
        let fr = Frame { regs: vec![V::C(0); f.nregs as usize], f, pc: 0, sp: 0 };
        State { frames: vec![fr], mem, pc: vec![], model: Rc::new(Model::new(vec![])), fixed: [0; NW], dom: vec![], linked: [0; NW], nsym: 0, icount: 0, obs: vec![], reach: vec![], vfs: Default::default(), fds: Default::default(), errno: 0, rnd: 0 }
    }

    // ---- values -----------------------------------------------------------------
    pub fn ex(&mut self, v: &V, w: u32) -> E { match v { V::C(x) => self.ar.c(*x as u128, w), V::W(x) => self.ar.c(**x, w), V::S(e) => { debug_assert_eq!(self.ar.w(*e), w); *e } V::A(_) => panic!("aggregate as scalar") } }
    pub fn vx(&self, e: E) -> V { match self.ar.cv(e) { Some(k) => if self.ar.w(e) <= 64 { V::C(k as u64) } else { V::W(Box::new(k)) }, None => V::S(e) } }
    #[inline] fn vc(k: u128, w: u32) -> V { if w <= 64 { V::C(k as u64) } else { V::W(Box::new(k)) } }
    fn as_c(v: &V) -> Option<u128> { match v { V::C(x) => Some(*x as u128), V::W(x) => Some(**x), _ => None } }

    // ---- constraints --------------------------------------------------------------
    pub fn covered(&self, st: &State, e: E) -> bool { let s = &self.ar.sup[e as usize]; (0..NW).all(|i| s[i] & !st.fixed[i] == 0) }
    pub fn add(&mut self, st: &mut State, e: E) {
        if self.ar.cv(e).is_some() { return; }
        let n = self.ar.n[e as usize];
        match n.op {
            Op::And => { self.add(st, n.a); self.add(st, n.b); return; }
            Op::Not => { let k = self.ar.n[n.a as usize]; if k.op == Op::Or { let x = self.ar.not(k.a); let y = self.ar.not(k.b); self.add(st, x); self.add(st, y); return; } }
            _ => {}
        }
        match self.ar.unary(e) {
            Some((s, v)) => {
                let s = s as usize; if st.dom.len() <= s { st.dom.resize(s + 1, [!0; 4]) }
                let d = &mut st.dom[s];
                for i in 0..256 { if v[i] == 0 { d[i / 64] &= !(1 << (i % 64)) } }
                if d.iter().map(|x| x.count_ones()).sum::<u32>() == 1 { st.fixed[s / 64] |= 1 << (s % 64) }
            }
            None => { let s = self.ar.sup[e as usize]; for i in 0..NW { st.linked[i] |= s[i] } }
        }
        if !st.pc.contains(&e) { st.pc.push(e); }
        if st.pc.len() > self.max_pc { self.max_pc = st.pc.len() }
    }
    pub fn set_model(&mut self, st: &mut State, d: &[(u32, u8)]) { self.apply_model(st, d) }
    pub fn possible_delta(&mut self, st: &State, e: E) -> R<Option<Rc<Vec<(u32, u8)>>>> { self.feasible(st, e) }
    fn apply_model(&mut self, st: &mut State, d: &[(u32, u8)]) {
        if d.is_empty() { return; }
        let mut b = st.model.bytes.clone();
        for (i, v) in d { if b.len() <= *i as usize { b.resize(*i as usize + 1, 0) } b[*i as usize] = *v; }
        st.model = Rc::new(Model::new(b));
    }
    /// Is `cond` possible in this state? Some(model delta) if yes.
    fn feasible(&mut self, st: &State, cond: E) -> R<Option<Rc<Vec<(u32, u8)>>>> {
        if self.ar.eval(cond, &st.model) == Some(1) { self.sv.st.model_hits += 1; return Ok(Some(Rc::new(vec![]))); }
        if self.covered(st, cond) && self.ar.eval(cond, &st.model) == Some(0) { return Ok(None); }
        if let Some((s, v)) = self.ar.unary(cond) {
            // one symbol byte: its domain is exact unless a constraint ties it to others
            let d = st.dom.get(s as usize).copied().unwrap_or([!0; 4]);
            let ok = (0..256).find(|i| v[*i] != 0 && d[i / 64] >> (i % 64) & 1 == 1);
            let free = st.linked[s as usize / 64] >> (s % 64) & 1 == 0;
            if ok.is_none() || free {
                self.sv.st.domain += 1;
                // the first of them are put to the solver as well
                if self.recheck > 0 {
                    self.recheck -= 1;
                    match self.sv.check(&self.ar, &st.pc, cond) { Res::Sat(_) if ok.is_none() => return Err(Stop::Unsupported("the solver finds a value outside a byte's domain".into())), Res::Unsat if ok.is_some() => return Err(Stop::Unsupported("the solver refuses a value of a byte's domain".into())), _ => {} }
                }
                return Ok(ok.map(|k| Rc::new(vec![(s, k as u8)])));
            }
        }
        let t0 = Instant::now();
        let r = self.sv.check(&self.ar, &st.pc, cond);
        if t0.elapsed().as_secs_f64() > 2.0 && std::env::var("SYMEX_SLOWQ").is_ok() { eprintln!("slow query {:?} {}\n  {}", t0.elapsed(), self.show(cond, 6), self.trace(st)[..6.min(st.frames.len())].join("\n  ")); }
        match r {
            Res::Sat(d) => {
                // the solver's model must satisfy the condition under our own evaluation
                let mut b = st.model.bytes.clone(); for (i, v) in d.iter() { if b.len() <= *i as usize { b.resize(*i as usize + 1, 0) } b[*i as usize] = *v; }
                let m = Model::new(b);
                if self.ar.eval(cond, &m) == Some(0) { return Err(Stop::Unsupported(format!("encoding disagrees with evaluation on {}", self.show(cond, 8)))); }
                Ok(Some(d))
            } Res::Unsat => Ok(None),
            Res::Unknown => Err(Stop::Unsupported("solver gave no verdict within its time limit".into())),
        }
    }
    fn note_fork(&mut self, st: &State) { self.forks += 1; let f = st.frames.last().unwrap(); *self.forksites.entry((f.f.id, f.pc)).or_insert(0) += 1; }
    /// Decide a symbolic condition: returns the side taken by this state; the other side,
    /// if feasible, is queued as a sibling that re-executes the current instruction with
    /// the opposite constraint.
    pub fn decide(&mut self, st: &mut State, c: E) -> R<bool> {
        if let Some(k) = self.ar.cv(c) { return Ok(k != 0); }
        let v = self.ar.eval(c, &st.model);
        if let Some(k) = v { if self.covered(st, c) { return Ok(k != 0); } }
        self.branches += 1;
        let nc = self.ar.not(c);
        let (side, other, this) = match v {
            Some(k) => { self.sv.st.model_hits += 1; if k != 0 { (true, nc, c) } else { (false, c, nc) } }
            None => match self.feasible(st, c)? {
                Some(d) => { self.apply_model(st, &d); (true, nc, c) }
                None => return Ok(false),
            },
        };
        if let Some(d) = self.feasible(st, other)? {
            self.note_fork(st);
            let mut s2 = st.clone();
            self.apply_model(&mut s2, &d); self.add(&mut s2, other);
            self.push_work(s2);
            self.add(st, this);
        }
        Ok(side)
    }
    fn push_work(&mut self, s: State) { self.work.push(s) }
    /// Fix a symbolic value to one concrete value in this state; remaining values go to siblings.
    pub fn conc(&mut self, st: &mut State, e: E) -> R<u64> {
        if let Some(k) = self.ar.cv(e) { return Ok(k as u64); }
        let w = self.ar.w(e);
        let v = match self.ar.eval(e, &st.model) {
            Some(v) => v,
            None => return Err(Stop::Unsupported("control depends on an uninterpreted function value".into())),
        };
        if self.covered(st, e) { return Ok(v as u64); }
        self.branches += 1;
        let k = self.ar.c(v, w); let eq = self.ar.eq(e, k); let ne = self.ar.not(eq);
        if let Some(d) = self.feasible(st, ne)? {
            self.note_fork(st);
            let mut s2 = st.clone();
            self.apply_model(&mut s2, &d); self.add(&mut s2, ne);
            self.push_work(s2);
            self.add(st, eq);
        }
        Ok(v as u64)
    }
    pub fn cv(&mut self, st: &mut State, v: &V) -> R<u64> { match v { V::C(x) => Ok(*x), V::W(x) => Ok(**x as u64), V::S(e) => self.conc(st, *e), V::A(_) => Err(Stop::Unsupported("aggregate as scalar".into())) } }

    // ---- memory -----------------------------------------------------------------
    pub fn chk<'a>(st: &'a State, addr: u64, n: u64) -> R<(u32, usize)> {
        let id = (addr >> 32) as u32; let off = addr as u32 as u64;
        match st.mem.get(id) { Some(o) if off + n <= o.data.len() as u64 => Ok((id, off as usize)),
            Some(o) => Err(Stop::Ub(format!("access out of bounds: {} bytes at offset {} of a {}-byte object", n, off, o.data.len()))),
            None => Err(Stop::Ub(format!("access to invalid address {:#x}", addr))) }
    }
    pub fn load_byte(&mut self, st: &State, addr: u64) -> R<V> {
        let (id, off) = Self::chk(st, addr, 1)?; let o = st.mem.get(id).unwrap();
        if let Some(s) = &o.sym { if s[off] != 0 { return Ok(V::S(s[off])); } }
        Ok(V::C(o.data[off] as u64))
    }
    fn load_scalar(&mut self, st: &State, addr: u64, w: u32) -> R<V> {
        let n = ((w + 7) / 8) as usize;
        let (id, off) = Self::chk(st, addr, n as u64)?;
        let o = st.mem.get(id).unwrap();
        if let Some(s) = &o.sym { if s[off..off + n].iter().any(|x| *x != 0) {
            let bytes: Vec<(E, u8)> = (0..n).map(|i| (s[off + i], o.data[off + i])).collect();
            let mut acc: E = 0;
            for (e, b) in bytes { let x = if e != 0 { e } else { self.ar.c(b as u128, 8) }; acc = if acc == 0 { x } else { self.ar.concat(x, acc) }; }
            if w < 8 * n as u32 { acc = self.ar.extract(acc, 0, w); }
            if self.ar.cv(acc).is_none() && self.covered(st, acc) { if let Some(k) = self.ar.eval(acc, &st.model) { return Ok(Self::vc(k, w)); } }
            return Ok(self.vx(acc));
        } }
        let d = &o.data[off..off + n];
        if n <= 8 {
            let mut x = 0u64; for (i, b) in d.iter().enumerate() { x |= (*b as u64) << (8 * i) }
            Ok(V::C(x & m64(w)))
        } else if n <= 16 { let mut x = 0u128; for (i, b) in d.iter().enumerate() { x |= (*b as u128) << (8 * i) } Ok(V::W(Box::new(x & mask(w)))) }
        else { Err(Stop::Unsupported(format!("load of i{}", w))) }
    }
    fn load_ty(&mut self, st: &State, addr: u64, ty: &Ty) -> R<V> {
        match ty {
            Ty::Int(_) | Ty::Ptr | Ty::Fp(_) => self.load_scalar(st, addr, ty.bits()),
            Ty::Struct(f, _) => { let mut v = Vec::with_capacity(f.len()); for (t, o) in f { v.push(self.load_ty(st, addr.wrapping_add(*o), t)?) } Ok(V::A(Rc::new(v))) }
            Ty::Array(n, t, s) => { let mut v = Vec::with_capacity(*n as usize); for i in 0..*n { v.push(self.load_ty(st, addr.wrapping_add(i * s), t)?) } Ok(V::A(Rc::new(v))) }
            Ty::Vector(n, t) => { let s = t.bits() as u64 / 8; if s == 0 { return Err(Stop::Unsupported("vector of i1 in memory".into())); } let mut v = Vec::with_capacity(*n as usize); for i in 0..*n { v.push(self.load_ty(st, addr + i * s, t)?) } Ok(V::A(Rc::new(v))) }
            _ => Err(Stop::Unsupported("load type".into())),
        }
    }
    pub fn store_scalar(&mut self, st: &mut State, addr: u64, v: &V, w: u32) -> R<()> {
        let n = ((w + 7) / 8) as usize;
        let (id, off) = Self::chk(st, addr, n as u64)?;
        match v {
            V::C(_) | V::W(_) => {
                let o = st.mem.get_mut(id).unwrap();
                if o.ro { return Err(Stop::Ub("store to constant memory".into())); }
                match v { V::C(x) => for i in 0..n { o.data[off + i] = if i < 8 { (x >> (8 * i)) as u8 } else { 0 } }, V::W(x) => for i in 0..n { o.data[off + i] = (**x >> (8 * i)) as u8 }, _ => unreachable!() }
                if let Some(s) = &mut o.sym { for i in 0..n { s[off + i] = 0 } }
            }
            V::S(e) => {
                let e = if (w as usize) < 8 * n { self.ar.zext(*e, 8 * n as u32) } else { *e };
                let parts: Vec<E> = (0..n).map(|i| self.ar.extract(e, 8 * i as u32, 8)).collect();
                let cs: Vec<Option<u128>> = parts.iter().map(|p| self.ar.cv(*p)).collect();
                let o = st.mem.get_mut(id).unwrap();
                if o.ro { return Err(Stop::Ub("store to constant memory".into())); }
                let len = o.data.len();
                let s = o.sym.get_or_insert_with(|| vec![0; len]);
                for i in 0..n { match cs[i] { Some(k) => { s[off + i] = 0; o.data[off + i] = k as u8 } None => s[off + i] = parts[i] } }
            }
            V::A(_) => return Err(Stop::Unsupported("store aggregate as scalar".into())),
        }
        Ok(())
    }
    pub fn store_ty(&mut self, st: &mut State, addr: u64, v: &V, ty: &Ty) -> R<()> {
        match (ty, v) {
            (Ty::Int(_) | Ty::Ptr | Ty::Fp(_), _) => self.store_scalar(st, addr, v, ty.bits()),
            (Ty::Struct(f, _), V::A(a)) => { for (x, (t, o)) in a.iter().zip(f) { self.store_ty(st, addr + o, x, t)? } Ok(()) }
            (Ty::Array(_, t, s), V::A(a)) => { for (i, x) in a.iter().enumerate() { self.store_ty(st, addr + i as u64 * s, x, t)? } Ok(()) }
            (Ty::Vector(_, t), V::A(a)) => { let s = t.bits() as u64 / 8; if s == 0 { return Err(Stop::Unsupported("vector of i1 in memory".into())); } for (i, x) in a.iter().enumerate() { self.store_ty(st, addr + i as u64 * s, x, t)? } Ok(()) }
            _ => Err(Stop::Unsupported("store type".into())),
        }
    }
    pub fn copy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 { return Ok(()); }
        let (si, so) = Self::chk(st, s, n)?; let (di, dof) = Self::chk(st, d, n)?; let n = n as usize;
        if si == di {
            let o = st.mem.get_mut(di).unwrap();
            o.data.copy_within(so..so + n, dof); if let Some(v) = &mut o.sym { v.copy_within(so..so + n, dof) }
        } else {
            let src = st.mem.get(si).unwrap();
            let data = src.data[so..so + n].to_vec(); let sy = src.sym.as_ref().and_then(|v| { let x = &v[so..so + n]; if x.iter().any(|e| *e != 0) { Some(x.to_vec()) } else { None } });
            let o = st.mem.get_mut(di).unwrap();
            if o.ro { return Err(Stop::Ub("store to constant memory".into())); }
            o.data[dof..dof + n].copy_from_slice(&data);
            match sy { Some(x) => { let len = o.data.len(); o.sym.get_or_insert_with(|| vec![0; len])[dof..dof + n].copy_from_slice(&x) } None => if let Some(v) = &mut o.sym { v[dof..dof + n].fill(0) } }
        }
        Ok(())
    }
    pub fn bytes(&mut self, st: &State, a: u64, n: u64) -> R<Vec<V>> { if n == 0 { return Ok(vec![]); } Self::chk(st, a, n)?; (0..n).map(|i| self.load_byte(st, a + i)).collect() }
    pub fn cstr(&mut self, st: &State, a: u64) -> R<String> {
        let mut s = vec![]; let mut p = a;
        loop { match self.load_byte(st, p)? { V::C(0) => break, V::C(b) => s.push(b as u8), V::S(e) => match self.ar.eval(e, &st.model) { Some(0) if self.covered(st, e) => break, Some(b) if self.covered(st, e) => s.push(b as u8), _ => return Err(Stop::Unsupported("symbolic C string".into())) }, _ => return Err(Stop::Unsupported("cstr".into())) } p += 1; }
        String::from_utf8(s).map_err(|_| Stop::Unsupported("non-UTF-8 C string".into()))
    }
    pub fn rstr(&mut self, st: &State, a: u64, n: u64) -> R<String> {
        let b = self.bytes(st, a, n)?; let v: Option<Vec<u8>> = b.iter().map(|x| Self::as_c(x).map(|k| k as u8)).collect();
        v.and_then(|v| String::from_utf8(v).ok()).ok_or(Stop::Unsupported("symbolic string where a literal is needed".into()))
    }
    /// Load through a symbolic address: a read of a constant table becomes an expression,
    /// anything else is split by address value.
    fn load_sym(&mut self, st: &mut State, e: E, ty: &Ty, n: u32) -> R<V> {
        if ty.is_scalar() && n <= 8 && !matches!(ty, Ty::Ptr) { if let Some((s, v)) = self.ar.unary(e) {
            let d = st.dom.get(s as usize).copied().unwrap_or([!0; 4]);
            let mut out = [0u64; 256]; let mut ok = true;
            for i in 0..256 { if d[i / 64] >> (i % 64) & 1 == 1 {
                // a value of the byte that only the other constraints exclude may lead anywhere
                match self.load_scalar(st, v[i], ty.bits()) { Ok(V::C(x)) => out[i] = x, _ => { ok = false; break; } }
            } }
            if ok { self.tables += 1; let r = self.ar.tab(s, ty.bits(), out); return Ok(self.vx(r)); }
        } }
        if ty.is_scalar() && n <= 8 {
            if let Some(a) = self.ar.eval(e, &st.model) {
                let a = a as u64; let id = (a >> 32) as u32;
                if let Some(o) = st.mem.get(id) {
                    let len = o.data.len() as u64;
                    if (o.ro || len <= 64) && len <= 8192 && len >= n as u64 {
                        // distinct stride positions
                        let base = (id as u64) << 32;
                        let lo = self.ar.c(base as u128, 64); let hi = self.ar.c((base + len - n as u64) as u128, 64);
                        let c1 = self.ar.bin(Op::Ule, lo, e); let c2 = self.ar.bin(Op::Ule, e, hi); let inr = self.ar.and(c1, c2);
                        let out = self.ar.not(inr);
                        if self.feasible(st, out)?.is_none() {
                            // candidate offsets: all multiples matching the model's residue
                            let stride = self.stride(e).max(1);
                            let first = (a - base) % stride;
                            let mut vals: Vec<(u64, V)> = vec![]; let mut off = first;
                            while off + n as u64 <= len { let v = self.load_scalar(st, base + off, ty.bits())?; vals.push((off, v)); off += stride; }
                            let mut runs = 1; for k in 1..vals.len() { if !same(&vals[k].1, &vals[k - 1].1) { runs += 1 } }
                            if runs <= 300 && vals.iter().all(|v| !matches!(v.1, V::A(_))) && !(matches!(ty, Ty::Ptr) && runs > 1) {
                                self.tables += 1;
                                let w = ty.bits();
                                // build from the end: ite(e < start of next run, value, ...)
                                let mut k = vals.len() - 1; let mut acc = self.ex(&vals[k].1.clone(), w);
                                while k > 0 {
                                    if !same(&vals[k].1, &vals[k - 1].1) {
                                        let bound = self.ar.c((base + vals[k].0) as u128, 64); let c = self.ar.bin(Op::Ult, e, bound);
                                        let x = self.ex(&vals[k - 1].1.clone(), w); acc = self.ar.ite(c, x, acc);
                                    }
                                    k -= 1;
                                }
                                return Ok(self.vx(acc));
                            }
                        }
                    }
                }
            }
        }
        let a = self.conc(st, e)?;
        self.load_ty(st, a, ty)
    }
    fn stride(&self, e: E) -> u64 {
        let n = self.ar.n[e as usize];
        match n.op {
            Op::Const => { let k = self.ar.cv(e).unwrap() as u64 & 0xffff_ffff; if k == 0 { 1 << 31 } else { 1 << k.trailing_zeros() } }
            Op::Add => self.stride(n.a).min(self.stride(n.b)),
            Op::Concat => match self.ar.cv(n.b) { Some(0) => 1u64 << self.ar.w(n.b).min(31), _ => 1 },
            Op::ZExt => self.stride(n.a),
            _ => 1,
        }
    }

    // ---- scalar operations -----------------------------------------------------------
    pub fn bin(&mut self, op: Bin, w: u32, a: &V, b: &V) -> R<V> {
        if let (V::C(x), V::C(y)) = (a, b) {
            if w <= 64 && !matches!(op, Bin::FAdd | Bin::FSub | Bin::FMul | Bin::FDiv | Bin::FRem) {
                let m = m64(w); let (x, y) = (*x, *y);
                let r = match op {
                    Bin::Add => x.wrapping_add(y) & m, Bin::Sub => x.wrapping_sub(y) & m, Bin::Mul => x.wrapping_mul(y) & m,
                    Bin::And => x & y, Bin::Or => x | y, Bin::Xor => x ^ y,
                    Bin::Shl => if y >= w as u64 { 0 } else { (x << y) & m }, Bin::LShr => if y >= w as u64 { 0 } else { x >> y },
                    Bin::UDiv | Bin::URem | Bin::SDiv | Bin::SRem if y == 0 => return Err(Stop::Ub("division by zero".into())),
                    Bin::UDiv => x / y, Bin::URem => x % y,
                    _ => fold(bop(op), w, x as u128, y as u128, w) as u64,
                };
                return Ok(V::C(r));
            }
        }
        if let (Some(x), Some(y)) = (Self::as_c(a), Self::as_c(b)) { return Ok(Self::vc(fold(bop(op), w, x, y, w), w)); }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let r = self.ar.bin(bop(op), x, y); Ok(self.vx(r))
    }
    pub fn icmp(&mut self, p: i32, w: u32, a: &V, b: &V) -> V {
        if let (V::C(x), V::C(y)) = (a, b) {
            let (x, y) = (*x, *y); let (sx_, sy) = (sx(x as u128, w) as i64, sx(y as u128, w) as i64);
            return V::C(match p { 32 => x == y, 33 => x != y, 34 => x > y, 35 => x >= y, 36 => x < y, 37 => x <= y, 38 => sx_ > sy, 39 => sx_ >= sy, 40 => sx_ < sy, _ => sx_ <= sy } as u64);
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let r = match p { 32 => self.ar.eq(x, y), 33 => { let t = self.ar.eq(x, y); self.ar.not(t) } 34 => self.ar.bin(Op::Ult, y, x), 35 => self.ar.bin(Op::Ule, y, x), 36 => self.ar.bin(Op::Ult, x, y), 37 => self.ar.bin(Op::Ule, x, y),
            38 => self.ar.bin(Op::Slt, y, x), 39 => self.ar.bin(Op::Sle, y, x), 40 => self.ar.bin(Op::Slt, x, y), _ => self.ar.bin(Op::Sle, x, y) };
        self.vx(r)
    }
    fn fcmp(&mut self, p: i32, w: u32, a: &V, b: &V) -> V {
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let nx = self.ar.un(Op::FIsNan, x, 1, 0); let ny = self.ar.un(Op::FIsNan, y, 1, 0); let uno = self.ar.or(nx, ny); let ord = self.ar.not(uno);
        let f = self.ar.c(0, 1); let t = self.ar.c(1, 1);
        let r = match p { 0 => f, 15 => t, 7 => ord, 8 => uno, _ => {
            let base = match p & 7 { 1 => self.ar.bin(Op::FEq, x, y), 2 => self.ar.bin(Op::FLt, y, x), 3 => self.ar.bin(Op::FLe, y, x), 4 => self.ar.bin(Op::FLt, x, y), 5 => self.ar.bin(Op::FLe, x, y), _ => { let q = self.ar.bin(Op::FEq, x, y); let nq = self.ar.not(q); self.ar.and(nq, ord) } };
            if p >= 8 { self.ar.or(base, uno) } else { base } } };
        self.vx(r)
    }
    fn cast(&mut self, op: Cast, from: u32, to: u32, a: &V) -> V {
        if let V::C(x) = a { if to <= 64 { match op { Cast::Trunc => return V::C(x & m64(to)), Cast::ZExt => return V::C(*x), Cast::SExt => return V::C((sx(*x as u128, from) as u64) & m64(to)), _ => {} } } }
        let x = self.ex(a, from);
        let r = match op {
            Cast::Trunc => self.ar.extract(x, 0, to), Cast::ZExt => self.ar.zext(x, to), Cast::SExt => self.ar.sext(x, to),
            Cast::FPToSI => self.ar.un(Op::FPToSI, x, to, 0), Cast::FPToUI => self.ar.un(Op::FPToUI, x, to, 0), Cast::SIToFP => self.ar.un(Op::SIToFP, x, to, 0), Cast::UIToFP => self.ar.un(Op::UIToFP, x, to, 0),
            Cast::FPTrunc => self.ar.un(Op::FPTrunc, x, to, 0), Cast::FPExt => self.ar.un(Op::FPExt, x, to, 0), Cast::Bit => x,
        };
        self.vx(r)
    }
    fn flat(&mut self, v: &V, t: &Ty) -> Vec<(E, u32)> {
        match (v, t) { (V::A(a), Ty::Vector(_, e)) => { let w = e.bits(); let a = a.clone(); a.iter().map(|x| (self.ex(x, w), w)).collect() } _ => { let w = t.bits(); vec![(self.ex(v, w), w)] } }
    }
    fn bitvec(&mut self, a: &V, from: &Ty, to: &Ty) -> V {
        let parts = self.flat(a, from);
        let tot: u32 = parts.iter().map(|p| p.1).sum();
        // assemble lazily: extract target lanes from the concatenation
        let mut acc: E = 0; 
        let lane = |s: &mut Self, lo: u32, w: u32| -> E {
            // find bits [lo, lo+w) inside parts
            let mut pos = 0; let mut r: E = 0; let mut need = w; let mut at = lo;
            for (e, pw) in &parts { if need == 0 { break; } if at < pos + pw { let o = at - pos; let k = (pw - o).min(need); let x = s.ar.extract(*e, o, k); r = if r == 0 { x } else { s.ar.concat(x, r) }; at += k; need -= k; } pos += pw; }
            r
        };
        match to {
            Ty::Vector(n, t) => { let w = t.bits(); let v: Vec<V> = (0..*n as u32).map(|i| { let e = lane(self, i * w, w); self.vx(e) }).collect(); V::A(Rc::new(v)) }
            _ => { acc = if acc == 0 { lane(self, 0, tot) } else { acc }; self.vx(acc) }
        }
    }
    #[inline] fn val(st: &State, o: &Opd) -> V { match o { Opd::R(r) => st.frames.last().unwrap().regs[*r as usize].clone(), Opd::K(v) => v.clone() } }
    #[inline] fn set(st: &mut State, d: u32, v: V) { st.frames.last_mut().unwrap().regs[d as usize] = v }
    fn take(&mut self, st: &mut State, e: &Edge) {
        let fr = st.frames.last_mut().unwrap();
        match e.moves.len() {
            0 => {}
            1 => { let v = match &e.moves[0].1 { Opd::R(r) => fr.regs[*r as usize].clone(), Opd::K(v) => v.clone() }; fr.regs[e.moves[0].0 as usize] = v; }
            _ => { let vs: Vec<V> = e.moves.iter().map(|(_, o)| match o { Opd::R(r) => fr.regs[*r as usize].clone(), Opd::K(v) => v.clone() }).collect(); for ((d, _), v) in e.moves.iter().zip(vs) { fr.regs[*d as usize] = v } }
        }
        fr.pc = e.to;
    }
    fn lanes2(&mut self, lanes: u32, a: &V, b: &V, mut f: impl FnMut(&mut Self, &V, &V) -> R<V>) -> R<V> {
        if lanes == 0 { return f(self, a, b); }
        match (a, b) { (V::A(x), V::A(y)) => { let mut v = vec![]; for (p, q) in x.iter().zip(y.iter()) { v.push(f(self, p, q)?) } Ok(V::A(Rc::new(v))) } _ => Err(Stop::Unsupported("vector operands".into())) }
    }

    // ---- main loop ----------------------------------------------------------------
    pub fn run_state(&mut self, mut st: State) {
        loop {
            let r = self.step(&mut st);
            match r {
                Ok(()) => {}
                Err(s) => { self.finish(st, s); return; }
            }
            if self.lim.max_ins > 0 && st.icount > self.lim.max_ins { self.finish(st, Stop::Limit("instruction limit".into())); return; }
            if st.icount & 63 == 0 && Instant::now() > self.lim.deadline { self.errors.entry("time limit reached".into()).and_modify(|x| *x += 1).or_insert(1); self.work.clear(); return; }
        }
    }
    pub fn model_bytes(&self, st: &State) -> Vec<u8> { let mut b = st.model.bytes.clone(); b.resize(st.nsym as usize, 0); b }
    pub fn show(&self, e: E, d: u32) -> String { let n = self.ar.n[e as usize]; match n.op { Op::Const => format!("{:#x}", self.ar.cv(e).unwrap()), Op::Sym => format!("s{}", n.a), _ if d == 0 => format!("..{}", n.w), Op::Tab => format!("tab{}({})", n.b, self.show(n.a, 1)), Op::Extract => format!("{}[{}+:{}]", self.show(n.a, d - 1), n.b, n.w), Op::Not | Op::ZExt | Op::SExt | Op::UfE | Op::UfD | Op::FPToSI | Op::SIToFP => format!("({:?} {})", n.op, self.show(n.a, d - 1)), Op::Ite => format!("(ite {} {} {})", self.show(n.a, d - 1), self.show(n.b, d - 1), self.show(n.c, d - 1)), _ => format!("({:?} {} {})", n.op, self.show(n.a, d - 1), self.show(n.b, d - 1)) } }
    fn trace(&self, st: &State) -> Vec<String> { st.frames.iter().rev().take(24).map(|f| crate::demangle(&f.f.name)).collect() }
    pub fn violation(&mut self, st: &State, id: &str, kind: &'static str, loc: &str, bytes: Vec<u8>) {
        self.viol_total += 1;
        // a counterexample decides the property: look a little further, then stop
        self.lim.deadline = self.lim.deadline.min(Instant::now() + std::time::Duration::from_secs(45));
        if self.viol.len() < self.lim.max_viol && self.viol.iter().filter(|v| v.id == id && v.loc == loc).count() < 3 {
            let trace = self.trace(st);
            self.viol.push(Violation { id: id.into(), kind, loc: loc.into(), bytes, trace });
        }
    }
    fn finish(&mut self, st: State, s: Stop) {
        match s {
            Stop::Done | Stop::Exit => {
                self.paths += 1;
                for r in &st.reach { let n = self.reach_names[*r as usize].clone(); self.reach.insert(n); }
                self.seen_samples += 1;
                let k = self.seen_samples;
                if self.samples.len() < self.lim.samples && (k <= 4 || k % self.lim.sample_every == 0) {
                    let obs: Option<Vec<u8>> = st.obs.iter().map(|v| match v { V::C(x) => Some(*x as u8), V::S(e) => self.ar.eval(*e, &st.model).map(|x| x as u8), _ => None }).collect();
                    if let Some(obs) = obs { let bytes = self.model_bytes(&st); self.samples.push(Sample { bytes, obs }); }
                }
            }
            Stop::Infeasible => self.infeasible += 1,
            Stop::Panic(loc) => { self.paths += 1; let b = self.model_bytes(&st); self.violation(&st, "panic", "panic", &loc, b) }
            Stop::Ub(msg) => { self.paths += 1; let b = self.model_bytes(&st); self.violation(&st, "memory", "ub", &msg, b) }
            Stop::Limit(msg) => { self.paths += 1; let b = self.model_bytes(&st); self.violation(&st, "hang", "hang", &msg, b); self.hangs += 1; if self.hangs >= 2 { self.errors.insert("exploration stopped after two hanging paths".into(), 1); self.work.clear(); } }
            Stop::Unsupported(msg) => {
                self.paths += 1;
                let f = st.frames.last().unwrap();
                let m = format!("{} in {}:{}", msg, crate::demangle(&f.f.name), f.pc);
                if std::env::var("SYMEX_TRACE").is_ok() { eprintln!("unsupported: {}\n  {}", m, self.trace(&st).join("\n  ")); }
                *self.errors.entry(m).or_insert(0) += 1;
            }
        }
    }
    pub fn explore(&mut self) {
        while let Some(s) = if self.bfs { if self.work.is_empty() { None } else { Some(self.work.remove(0)) } } else { self.work.pop() } {
            if Instant::now() > self.lim.deadline { self.errors.insert("time limit reached".into(), 1); return; }
            if self.lim.max_paths > 0 && self.paths >= self.lim.max_paths { self.errors.insert("path limit reached".into(), 1); return; }
            self.run_state(s);
        }
    }

    fn step(&mut self, st: &mut State) -> R<()> {
        // interpret until something interesting (bounded slice)
        for _ in 0..4096 {
            let (ins, fid) = { let fr = st.frames.last().unwrap(); let f: &'static Func = unsafe { &*(&*fr.f as *const Func) }; (&f.code[fr.pc as usize], f.id) };
            st.icount += 1; self.ins += 1; self.fcount[fid as usize] += 1;
            match ins {
                Ins::Bin { op, w, lanes, a, b, d } => {
                    let (x, y) = (Self::val(st, a), Self::val(st, b));
                    if *lanes == 0 && matches!(op, Bin::UDiv | Bin::URem | Bin::SDiv | Bin::SRem) { if let V::S(e) = &y { let z = self.ar.c(0, *w); let c = self.ar.eq(*e, z); if self.decide(st, c)? { return Err(Stop::Ub("division by zero".into())); } } }
                    let r = if *lanes == 0 { self.bin(*op, *w, &x, &y)? } else { let (op, w) = (*op, *w); self.lanes2(*lanes, &x, &y, |s, p, q| s.bin(op, w, p, q))? };
                    Self::set(st, *d, r);
                }
                Ins::Icmp { p, w, lanes, a, b, d } => {
                    let (x, y) = (Self::val(st, a), Self::val(st, b));
                    let r = if *lanes == 0 { self.icmp(*p, *w, &x, &y) } else { let (p, w) = (*p, *w); self.lanes2(*lanes, &x, &y, |s, a, b| Ok(s.icmp(p, w, a, b)))? };
                    Self::set(st, *d, r);
                }
                Ins::Fcmp { p, w, lanes, a, b, d } => {
                    let (x, y) = (Self::val(st, a), Self::val(st, b)); let (p, w) = (*p, *w);
                    let r = self.lanes2(*lanes, &x, &y, |s, a, b| Ok(s.fcmp(p, w, a, b)))?; Self::set(st, *d, r);
                }
                Ins::FNeg { w, lanes, a, d } => { let x = Self::val(st, a); let k = Self::vc(1u128 << (w - 1), *w); let w = *w; let kk = if *lanes == 0 { k.clone() } else { V::A(Rc::new(vec![k; *lanes as usize])) }; let r = self.lanes2(*lanes, &x, &kk, |s, p, q| s.bin(Bin::Xor, w, p, q))?; Self::set(st, *d, r); }
                Ins::Cast { op, from, to, lanes, a, d } => {
                    let x = Self::val(st, a);
                    let r = if *lanes == 0 { self.cast(*op, *from, *to, &x) } else { match &x { V::A(v) => V::A(Rc::new(v.iter().map(|x| self.cast(*op, *from, *to, x)).collect())), _ => return Err(Stop::Unsupported("vector cast".into())) } };
                    Self::set(st, *d, r);
                }
                Ins::BitVec { a, from, to, d } => { let x = Self::val(st, a); let r = self.bitvec(&x, from, to); Self::set(st, *d, r); }
                Ins::Copy { a, d } => { let x = Self::val(st, a); Self::set(st, *d, x); }
                Ins::Gep { base, off, terms, d } => {
                    let mut acc = match Self::val(st, base) { V::C(x) => V::C(x.wrapping_add(*off)), v => { let k = V::C(*off); self.bin(Bin::Add, 64, &v, &k)? } };
                    for (o, w, s) in terms {
                        let v = Self::val(st, o);
                        let t = match v { V::C(x) => V::C((sx(x as u128, *w) as u64).wrapping_mul(*s)), v => { let e = self.ex(&v, *w); let e = if *w < 64 { self.ar.sext(e, 64) } else { e }; let k = self.ar.c(*s as u128, 64); let e = self.ar.bin(Op::Mul, e, k); self.vx(e) } };
                        acc = self.bin(Bin::Add, 64, &acc, &t)?;
                    }
                    Self::set(st, *d, acc);
                }
                Ins::Load { p, ty, n, d } => {
                    let r = match Self::val(st, p) { V::C(a) => self.load_ty(st, a, ty)?, V::S(e) => self.load_sym(st, e, ty, *n)?, _ => return Err(Stop::Unsupported("load address".into())) };
                    Self::set(st, *d, r);
                }
                Ins::Store { p, v, ty, .. } => {
                    let a = match Self::val(st, p) { V::C(a) => a, V::S(e) => self.conc(st, e)?, _ => return Err(Stop::Unsupported("store address".into())) };
                    let x = Self::val(st, v); self.store_ty(st, a, &x, ty)?;
                }
                Ins::Alloca { size, n, d } => {
                    let k = match Self::val(st, n) { V::C(k) => k, _ => return Err(Stop::Unsupported("alloca size".into())) };
                    let a = st.mem.push_stack((size * k) as usize); Self::set(st, *d, V::C(a));
                }
                Ins::Br(e) => { self.take(st, e); continue; }
                Ins::CondBr { c, t, f } => {
                    let side = match Self::val(st, c) { V::C(x) => x != 0, V::S(e) => self.decide(st, e)?, _ => return Err(Stop::Unsupported("branch on aggregate".into())) };
                    self.take(st, if side { t } else { f }); continue;
                }
                Ins::Switch { c, w, def, cases, targets, map } => {
                    match Self::val(st, c) {
                        V::C(x) => { let e = match map.get(&x) { Some(i) => &targets[*i as usize], None => def }; self.take(st, e); }
                        V::S(e) => { let i = self.sym_switch(st, e, *w, cases, targets.len())?; self.take(st, if i == usize::MAX { def } else { &targets[i] }); }
                        _ => return Err(Stop::Unsupported("switch on wide value".into())),
                    }
                    continue;
                }
                Ins::Ret(v) => {
                    let r = v.as_ref().map(|o| Self::val(st, o));
                    let fr = st.frames.pop().unwrap();
                    st.mem.pop_stack(fr.sp);
                    if st.frames.is_empty() { st.frames.push(fr); return Err(Stop::Done); }
                    self.ret_to(st, r)?;
                    continue;
                }
                Ins::Unreachable => return Err(Stop::Ub("reached 'unreachable'".into())),
                Ins::Select { c, a, b, ty, vc, d } => {
                    let (cv, x, y) = (Self::val(st, c), Self::val(st, a), Self::val(st, b));
                    let r = if *vc { match (&cv, &x, &y) { (V::A(c), V::A(x), V::A(y)) => { let ew = match &**ty { Ty::Vector(_, t) => t.bits(), _ => 0 }; let mut v = vec![]; for i in 0..c.len() { let r = match &c[i] { V::C(k) => if *k != 0 { x[i].clone() } else { y[i].clone() }, V::S(e) => { let p = self.ex(&x[i], ew); let q = self.ex(&y[i], ew); let r = self.ar.ite(*e, p, q); self.vx(r) } _ => return Err(Stop::Unsupported("select".into())) }; v.push(r) } V::A(Rc::new(v)) } _ => return Err(Stop::Unsupported("vector select".into())) } }
                    else { match cv {
                        V::C(k) => if k != 0 { x } else { y },
                        V::S(e) => if ty.is_scalar() && !matches!(&**ty, Ty::Ptr) { let w = ty.bits(); let p = self.ex(&x, w); let q = self.ex(&y, w); let r = self.ar.ite(e, p, q); self.vx(r) }
                            else if same(&x, &y) { x } else if self.decide(st, e)? { x } else { y },
                        _ => return Err(Stop::Unsupported("select".into())),
                    } };
                    Self::set(st, *d, r);
                }
                Ins::Extract { a, idx, d } => { let mut v = Self::val(st, a); for i in idx { v = match &v { V::A(x) => x[*i as usize].clone(), _ => return Err(Stop::Unsupported("extractvalue".into())) } } Self::set(st, *d, v); }
                Ins::Insert { a, v, idx, d } => { let x = Self::val(st, v); let mut base = Self::val(st, a); ins_at(&mut base, idx, x)?; Self::set(st, *d, base); }
                Ins::ExtElt { a, i, d } => { let k = { let v = Self::val(st, i); self.cv(st, &v)? }; let r = match Self::val(st, a) { V::A(x) => x[k as usize].clone(), _ => return Err(Stop::Unsupported("extractelement".into())) }; Self::set(st, *d, r); }
                Ins::InsElt { a, v, i, d } => { let k = { let v = Self::val(st, i); self.cv(st, &v)? }; let x = Self::val(st, v); let mut base = Self::val(st, a); ins_at(&mut base, &[k as u32], x)?; Self::set(st, *d, base); }
                Ins::Shuffle { a, b, mask, n, d, .. } => {
                    let (x, y) = (Self::val(st, a), Self::val(st, b));
                    let r = match (&x, &y) { (V::A(x), V::A(y)) => mask.iter().map(|m| if *m < 0 { V::C(0) } else if (*m as u32) < *n { x[*m as usize].clone() } else { y[*m as usize - *n as usize].clone() }).collect(), _ => return Err(Stop::Unsupported("shufflevector".into())) };
                    Self::set(st, *d, V::A(Rc::new(r)));
                }
                Ins::Rmw { op, p, v, w, d } => {
                    let a = { let v = Self::val(st, p); self.cv(st, &v)? }; let x = Self::val(st, v); let old = self.load_scalar(st, a, *w)?;
                    let new = match op { 0 => x, 1 => self.bin(Bin::Add, *w, &old, &x)?, 2 => self.bin(Bin::Sub, *w, &old, &x)?, 3 => self.bin(Bin::And, *w, &old, &x)?, 5 => self.bin(Bin::Or, *w, &old, &x)?, 6 => self.bin(Bin::Xor, *w, &old, &x)?,
                        7..=10 => { let c = self.icmp(match op { 7 => 38, 8 => 40, 9 => 34, _ => 36 }, *w, &old, &x); match c { V::C(1) => old.clone(), V::C(_) => x, _ => return Err(Stop::Unsupported("atomic min/max".into())) } }
                        _ => return Err(Stop::Unsupported(format!("atomicrmw {}", op))) };
                    self.store_scalar(st, a, &new, *w)?; Self::set(st, *d, old);
                }
                Ins::CmpXchg { p, c, n, w, d } => {
                    let a = { let v = Self::val(st, p); self.cv(st, &v)? }; let (c, nv) = (Self::val(st, c), Self::val(st, n)); let old = self.load_scalar(st, a, *w)?;
                    let ok = match self.icmp(32, *w, &old, &c) { V::C(k) => k != 0, V::S(e) => self.decide(st, e)?, _ => false };
                    if ok { self.store_scalar(st, a, &nv, *w)?; }
                    Self::set(st, *d, V::A(Rc::new(vec![old, V::C(ok as u64)])));
                }
                Ins::Nop => {}
                Ins::Bad(s) => return Err(Stop::Unsupported(s.clone())),
                Ins::Call { f, args, aw, rty, d: _, edge: _ } => {
                    let fid = match f {
                        Callee::Fn(i) => *i,
                        Callee::Ind(o) => { let v = Self::val(st, o); let a = self.cv(st, &v)?; let i = (a >> 32).wrapping_sub(FN_BASE); if a as u32 != 0 || i >= self.m.funcs.len() as u64 { return Err(Stop::Ub(format!("call of a non-function address {:#x}", a))); } i as u32 }
                        Callee::Asm => { // empty barriers, cpuid: report a baseline CPU
                            let r = match &**rty { Ty::Void => V::C(0), Ty::Struct(f, _) => V::A(Rc::new(f.iter().map(|_| V::C(0)).collect())), _ => if let Some(o) = args.first() { Self::val(st, o) } else { V::C(0) } };
                            self.ret_to(st, Some(r))?; continue;
                        }
                    };
                    let av: Vec<V> = args.iter().map(|o| Self::val(st, o)).collect();
                    let hk = match self.hooks[fid as usize] { Some(h) => h, None => { let h = crate::hooks::resolve(&self.m.funcs[fid as usize].name, self.m.funcs[fid as usize].decl); self.hooks[fid as usize] = Some(h); h } };
                    if let Some(h) = hk {
                        let nm: *const str = &*self.m.funcs[fid as usize].name;
                        let c = Call { name: unsafe { &*nm }, args: &av, aw, rty };
                        match h(self, st, &c) {
                            Ok(r) => { self.fcount[fid as usize] += 1; self.ret_to(st, Some(r))?; continue; }
                            Err(Stop::Exit) if crate::hooks::FALLTHROUGH.with(|f| f.replace(false)) => {}
                            Err(e) => return Err(e),
                        }
                    }
                    if self.m.funcs[fid as usize].decl { return Err(Stop::Unsupported(format!("external function {}", self.m.funcs[fid as usize].name))); }
                    self.enter(st, fid, av)?;
                    continue;
                }
            }
            st.frames.last_mut().unwrap().pc += 1;
        }
        Ok(())
    }
    pub fn enter(&mut self, st: &mut State, fid: u32, mut av: Vec<V>) -> R<()> {
        if st.frames.len() > 3000 { return Err(Stop::Limit("call depth".into())); }
        let f = self.m.func(fid);
        av.truncate(f.nparams as usize);
        av.resize(f.nregs as usize, V::C(0));
        let sp = st.mem.nstack;
        st.frames.push(Frame { f, regs: av, pc: 0, sp });
        Ok(())
    }
    /// Complete the call instruction the top frame stands at.
    pub fn ret_to(&mut self, st: &mut State, r: Option<V>) -> R<()> {
        let (f, pc): (&'static Func, u32) = { let fr = st.frames.last().unwrap(); (unsafe { &*(&*fr.f as *const Func) }, fr.pc) };
        match &f.code[pc as usize] {
            Ins::Call { d, edge, rty, .. } => {
                if !matches!(&**rty, Ty::Void) { Self::set(st, *d, r.unwrap_or(V::C(0))); }
                match edge { Some(e) => self.take(st, e), None => st.frames.last_mut().unwrap().pc += 1 }
                Ok(())
            }
            _ => Err(Stop::Unsupported("return to a non-call".into())),
        }
    }
    fn sym_switch(&mut self, st: &mut State, e: E, w: u32, cases: &[(u64, u32)], nt: usize) -> R<usize> {
        // condition per target
        let mut conds: Vec<E> = vec![0; nt]; let mut any: E = self.ar.c(0, 1);
        for (v, t) in cases { let k = self.ar.c(*v as u128, w); let c = self.ar.eq(e, k); let t = *t as usize; conds[t] = if conds[t] == 0 { c } else { self.ar.or(conds[t], c) }; any = self.ar.or(any, c); }
        let def = self.ar.not(any);
        let mut order: Vec<(usize, E)> = conds.iter().cloned().enumerate().collect(); order.push((usize::MAX, def));
        // pick the side of the current model, then decide it (siblings re-execute)
        let mut pick = None;
        for (i, c) in &order { if *c != 0 && self.ar.eval(*c, &st.model) == Some(1) { pick = Some((*i, *c)); break; } }
        match pick {
            Some((i, c)) => { if self.decide(st, c)? { Ok(i) } else { Err(Stop::Infeasible) } }
            None => { for (i, c) in order { if c != 0 && self.decide(st, c)? { return Ok(i); } } Err(Stop::Infeasible) }
        }
    }
}
fn bop(o: Bin) -> Op { match o { Bin::Add => Op::Add, Bin::Sub => Op::Sub, Bin::Mul => Op::Mul, Bin::UDiv => Op::UDiv, Bin::SDiv => Op::SDiv, Bin::URem => Op::URem, Bin::SRem => Op::SRem, Bin::Shl => Op::Shl, Bin::LShr => Op::LShr, Bin::AShr => Op::AShr, Bin::And => Op::And, Bin::Or => Op::Or, Bin::Xor => Op::Xor, Bin::FAdd => Op::FAdd, Bin::FSub => Op::FSub, Bin::FMul => Op::FMul, Bin::FDiv => Op::FDiv, Bin::FRem => Op::FRem } }
pub fn same(a: &V, b: &V) -> bool { match (a, b) { (V::C(x), V::C(y)) => x == y, (V::S(x), V::S(y)) => x == y, (V::W(x), V::W(y)) => x == y, (V::A(x), V::A(y)) => x.len() == y.len() && x.iter().zip(y.iter()).all(|(p, q)| same(p, q)), _ => false } }
fn ins_at(base: &mut V, idx: &[u32], x: V) -> R<()> {
    if idx.is_empty() { *base = x; return Ok(()); }
    match base { V::A(a) => { let v = Rc::make_mut(a); ins_at(&mut v[idx[0] as usize], &idx[1..], x) } _ => Err(Stop::Unsupported("insertvalue".into())) }
}
pub fn limits(secs: f64) -> Instant { Instant::now() + Duration::from_secs_f64(secs) }
