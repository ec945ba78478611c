//! Whole-program LLVM bitcode, decoded lazily through the LLVM C API of the
//! toolchain that produced it.
use crate::expr::E;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::rc::Rc;

pub type P = *mut c_void;
#[allow(non_snake_case)]
extern "C" {
    fn LLVMContextCreate() -> P;
    fn LLVMCreateMemoryBufferWithContentsOfFile(p: *const c_char, out: *mut P, msg: *mut *mut c_char) -> c_int;
    fn LLVMParseBitcodeInContext2(c: P, b: P, out: *mut P) -> c_int;
    fn LLVMGetFirstFunction(m: P) -> P; fn LLVMGetNextFunction(f: P) -> P;
    fn LLVMGetFirstGlobal(m: P) -> P; fn LLVMGetNextGlobal(f: P) -> P;
    fn LLVMGetFirstGlobalAlias(m: P) -> P; fn LLVMGetNextGlobalAlias(f: P) -> P; fn LLVMAliasGetAliasee(a: P) -> P;
    fn LLVMGetValueName2(v: P, n: *mut usize) -> *const c_char;
    fn LLVMCountBasicBlocks(f: P) -> c_uint; fn LLVMGetFirstBasicBlock(f: P) -> P; fn LLVMGetNextBasicBlock(b: P) -> P;
    fn LLVMGetFirstInstruction(b: P) -> P; fn LLVMGetNextInstruction(i: P) -> P;
    fn LLVMGetInstructionOpcode(i: P) -> c_int; fn LLVMGetNumOperands(i: P) -> c_int; fn LLVMGetOperand(i: P, k: c_uint) -> P;
    fn LLVMTypeOf(v: P) -> P; fn LLVMGetTypeKind(t: P) -> c_int; fn LLVMGetIntTypeWidth(t: P) -> c_uint;
    fn LLVMCountStructElementTypes(t: P) -> c_uint; fn LLVMStructGetTypeAtIndex(t: P, i: c_uint) -> P; fn LLVMGetElementType(t: P) -> P;
    fn LLVMGetArrayLength2(t: P) -> u64; fn LLVMGetVectorSize(t: P) -> c_uint;
    fn LLVMConstIntGetZExtValue(v: P) -> u64; fn LLVMGetConstOpcode(v: P) -> c_int;
    fn LLVMGetICmpPredicate(v: P) -> c_int; fn LLVMGetFCmpPredicate(v: P) -> c_int;
    fn LLVMGetNumSuccessors(v: P) -> c_uint; fn LLVMGetSuccessor(v: P, i: c_uint) -> P; 
    fn LLVMGetCondition(v: P) -> P; 
    fn LLVMGetSwitchCaseValue(v: P, i: c_uint) -> P;
    fn LLVMCountIncoming(v: P) -> c_uint; fn LLVMGetIncomingValue(v: P, i: c_uint) -> P; fn LLVMGetIncomingBlock(v: P, i: c_uint) -> P;
    fn LLVMGetCalledValue(v: P) -> P; fn LLVMGetNumArgOperands(v: P) -> c_uint; fn LLVMGetNormalDest(v: P) -> P;
    fn LLVMGetAllocatedType(v: P) -> P; fn LLVMGetInitializer(v: P) -> P; fn LLVMIsDeclaration(v: P) -> c_int; fn LLVMGlobalGetValueType(v: P) -> P;
    fn LLVMCountParams(f: P) -> c_uint; fn LLVMGetParam(f: P, i: c_uint) -> P;
    fn LLVMGetNumIndices(v: P) -> c_uint; fn LLVMGetIndices(v: P) -> *const c_uint;
    fn LLVMGetAtomicRMWBinOp(v: P) -> c_int; fn LLVMGetGEPSourceElementType(v: P) -> P;
    fn LLVMGetNumMaskElements(v: P) -> c_uint; fn LLVMGetMaskValue(v: P, i: c_uint) -> c_int;
    fn LLVMGetModuleDataLayout(m: P) -> P; fn LLVMOffsetOfElement(t: P, s: P, i: c_uint) -> u64; fn LLVMABISizeOfType(t: P, s: P) -> u64;
    fn LLVMConstRealGetDouble(v: P, l: *mut c_int) -> f64;
    fn LLVMGetAggregateElement(v: P, i: c_uint) -> P;
    fn LLVMPrintValueToString(v: P) -> *mut c_char; fn LLVMDisposeMessage(m: *mut c_char);
    fn LLVMIsAConstantInt(v: P) -> P; fn LLVMIsAConstantFP(v: P) -> P; fn LLVMIsAConstantPointerNull(v: P) -> P; fn LLVMIsAInlineAsm(v: P) -> P; fn LLVMIsUndef(v: P) -> c_int;
    fn LLVMIsAFunction(v: P) -> P; fn LLVMIsAGlobalVariable(v: P) -> P; fn LLVMIsAGlobalAlias(v: P) -> P; fn LLVMIsAConstantExpr(v: P) -> P; fn LLVMIsAConstantAggregateZero(v: P) -> P; fn LLVMIsAConstantTokenNone(v: P) -> P;
    fn LLVMGetReturnType(t: P) -> P; fn LLVMIsGlobalConstant(v: P) -> c_int;
}

#[derive(Clone, Debug)]
pub enum Ty { Void, Int(u32), Ptr, Fp(u32), Struct(Vec<(Rc<Ty>, u64)>, u64), Array(u64, Rc<Ty>, u64), Vector(u64, Rc<Ty>), Other }
impl Ty {
    pub fn bits(&self) -> u32 { match self { Ty::Int(w) => *w, Ty::Ptr => 64, Ty::Fp(w) => *w, _ => 0 } }
    pub fn is_scalar(&self) -> bool { matches!(self, Ty::Int(_) | Ty::Ptr | Ty::Fp(_)) }
}

/// A run-time value.  Scalars up to 64 bits are `C`, up to 128 `W`.
#[derive(Clone, Debug)]
pub enum V { C(u64), S(E), W(Box<u128>), A(Rc<Vec<V>>) }

#[derive(Clone, Debug)]
pub enum Opd { R(u32), K(V) }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Bin { Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor, FAdd, FSub, FMul, FDiv, FRem }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cast { Trunc, ZExt, SExt, FPToUI, FPToSI, UIToFP, SIToFP, FPTrunc, FPExt, Bit }

#[derive(Clone, Debug)]
pub struct Edge { pub to: u32, pub moves: Vec<(u32, Opd)> }

#[derive(Clone, Debug)]
pub enum Callee { Fn(u32), Ind(Opd), Asm }

#[derive(Debug)]
pub enum Ins {
    Bin { op: Bin, w: u32, lanes: u32, a: Opd, b: Opd, d: u32 },
    Icmp { p: i32, w: u32, lanes: u32, a: Opd, b: Opd, d: u32 },
    Fcmp { p: i32, w: u32, lanes: u32, a: Opd, b: Opd, d: u32 },
    FNeg { w: u32, lanes: u32, a: Opd, d: u32 },
    Cast { op: Cast, from: u32, to: u32, lanes: u32, a: Opd, d: u32 },
    BitVec { a: Opd, from: Rc<Ty>, to: Rc<Ty>, d: u32 },
    Gep { base: Opd, off: u64, terms: Vec<(Opd, u32, u64)>, d: u32 },
    Load { p: Opd, ty: Rc<Ty>, n: u32, d: u32 },
    Store { p: Opd, v: Opd, ty: Rc<Ty>, n: u32 },
    Alloca { size: u64, n: Opd, d: u32 },
    Call { f: Callee, args: Vec<Opd>, aw: Vec<u32>, rty: Rc<Ty>, d: u32, edge: Option<Edge> },
    Br(Edge),
    CondBr { c: Opd, t: Edge, f: Edge },
    Switch { c: Opd, w: u32, def: Edge, cases: Vec<(u64, u32)>, targets: Vec<Edge>, map: HashMap<u64, u32> },
    Ret(Option<Opd>),
    Unreachable,
    Select { c: Opd, a: Opd, b: Opd, ty: Rc<Ty>, vc: bool, d: u32 },
    Extract { a: Opd, idx: Vec<u32>, d: u32 },
    Insert { a: Opd, v: Opd, idx: Vec<u32>, d: u32 },
    ExtElt { a: Opd, i: Opd, d: u32 },
    InsElt { a: Opd, v: Opd, i: Opd, d: u32 },
    Shuffle { a: Opd, b: Opd, mask: Vec<i32>, n: u32, ew: u32, d: u32 },
    Copy { a: Opd, d: u32 },
    Rmw { op: i32, p: Opd, v: Opd, w: u32, d: u32 },
    CmpXchg { p: Opd, c: Opd, n: Opd, w: u32, d: u32 },
    Nop,
    Bad(String),
}

pub struct Func {
    pub id: u32, pub name: String, pub nregs: u32, pub nparams: u32, pub code: Vec<Ins>, pub blocks: u32,
}

pub struct FDecl { pub name: String, pub val: P, pub decl: bool, pub body: Option<Rc<Func>> }
pub struct GDecl { pub name: String, pub val: P, pub size: u64, pub konst: bool }

pub const FN_BASE: u64 = 0x4000_0000;
pub struct Module {
    td: P,
    pub funcs: Vec<FDecl>, pub fidx: HashMap<P, u32>, pub fname: HashMap<String, u32>,
    pub globals: Vec<GDecl>, gidx: HashMap<P, u32>,
    aliases: HashMap<P, P>,
    tys: HashMap<P, Rc<Ty>>,
}

unsafe fn name(v: P) -> String { let mut n = 0; let p = LLVMGetValueName2(v, &mut n); String::from_utf8_lossy(std::slice::from_raw_parts(p as *const u8, n)).into_owned() }
unsafe fn show(v: P) -> String { let p = LLVMPrintValueToString(v); let s = CStr::from_ptr(p).to_string_lossy().into_owned(); LLVMDisposeMessage(p); s }

impl Module {
    pub fn load(path: &str) -> Module {
        unsafe {
            let ctx = LLVMContextCreate();
            let p = CString::new(path).unwrap();
            let mut buf: P = std::ptr::null_mut(); let mut msg: *mut c_char = std::ptr::null_mut();
            if LLVMCreateMemoryBufferWithContentsOfFile(p.as_ptr(), &mut buf, &mut msg) != 0 { panic!("cannot read {}", path) }
            let mut m: P = std::ptr::null_mut();
            if LLVMParseBitcodeInContext2(ctx, buf, &mut m) != 0 { panic!("cannot parse {}", path) }
            let td = LLVMGetModuleDataLayout(m);
            let mut md = Module { td, funcs: vec![], fidx: HashMap::new(), fname: HashMap::new(), globals: vec![], gidx: HashMap::new(), aliases: HashMap::new(), tys: HashMap::new() };
            let mut f = LLVMGetFirstFunction(m);
            while !f.is_null() {
                let nm = name(f); let id = md.funcs.len() as u32;
                md.fidx.insert(f, id); md.fname.insert(nm.clone(), id);
                md.funcs.push(FDecl { name: nm, val: f, decl: LLVMIsDeclaration(f) != 0, body: None });
                f = LLVMGetNextFunction(f);
            }
            let mut g = LLVMGetFirstGlobal(m);
            while !g.is_null() {
                let id = md.globals.len() as u32; md.gidx.insert(g, id);
                let t = LLVMGlobalGetValueType(g);
                let size = LLVMABISizeOfType(td, t);
                md.globals.push(GDecl { name: name(g), val: g, size, konst: LLVMIsGlobalConstant(g) != 0 });
                g = LLVMGetNextGlobal(g);
            }
            let mut a = LLVMGetFirstGlobalAlias(m);
            while !a.is_null() { md.aliases.insert(a, LLVMAliasGetAliasee(a)); a = LLVMGetNextGlobalAlias(a); }
            md
        }
    }
    pub fn gaddr(i: u32) -> u64 { (i as u64 + 1) << 32 }
    pub fn faddr(i: u32) -> u64 { (FN_BASE + i as u64) << 32 }
    unsafe fn ty(&mut self, t: P) -> Rc<Ty> {
        if let Some(r) = self.tys.get(&t) { return r.clone(); }
        let r = match LLVMGetTypeKind(t) {
            0 => Ty::Void, 2 => Ty::Fp(32), 3 => Ty::Fp(64), 8 => Ty::Int(LLVMGetIntTypeWidth(t)), 12 => Ty::Ptr,
            10 => { let n = LLVMCountStructElementTypes(t); let mut v = vec![]; for i in 0..n { let et = LLVMStructGetTypeAtIndex(t, i); v.push((self.ty(et), LLVMOffsetOfElement(self.td, t, i))); } Ty::Struct(v, LLVMABISizeOfType(self.td, t)) }
            11 => { let et = LLVMGetElementType(t); let s = LLVMABISizeOfType(self.td, et); Ty::Array(LLVMGetArrayLength2(t), self.ty(et), s) }
            13 => { let et = LLVMGetElementType(t); Ty::Vector(LLVMGetVectorSize(t) as u64, self.ty(et)) }
            _ => Ty::Other,
        };
        let r = Rc::new(r); self.tys.insert(t, r.clone()); r
    }
    unsafe fn size(&self, t: P) -> u64 { LLVMABISizeOfType(self.td, t) }
    fn zero(t: &Ty) -> V {
        match t {
            Ty::Int(w) if *w > 64 => V::W(Box::new(0)),
            Ty::Struct(v, _) => V::A(Rc::new(v.iter().map(|x| Self::zero(&x.0)).collect())),
            Ty::Array(n, t, _) => V::A(Rc::new((0..*n).map(|_| Self::zero(t)).collect())),
            Ty::Vector(n, t) => V::A(Rc::new((0..*n).map(|_| Self::zero(t)).collect())),
            _ => V::C(0),
        }
    }
    unsafe fn big(&self, v: P) -> u128 { // "i128 -5"
        let s = show(v); let t = s.rsplit(' ').next().unwrap();
        if let Some(h) = t.strip_prefix('-') { (h.parse::<u128>().unwrap()).wrapping_neg() } else { t.parse::<u128>().unwrap_or_else(|_| panic!("big const {}", s)) }
    }
    unsafe fn konst(&mut self, v: P) -> V {
        let tp = LLVMTypeOf(v); let t = self.ty(tp);
        if !LLVMIsAConstantInt(v).is_null() {
            return match &*t {
                Ty::Int(w) if *w <= 64 => V::C(LLVMConstIntGetZExtValue(v)),
                Ty::Int(w) => V::W(Box::new(self.big(v) & crate::expr::mask(*w))),
                Ty::Vector(n, _) => { let e = LLVMGetAggregateElement(v, 0); let x = self.konst(e); V::A(Rc::new(vec![x; *n as usize])) }
                _ => panic!("const int type"),
            };
        }
        if !LLVMIsAConstantFP(v).is_null() {
            if let Ty::Vector(n, _) = &*t { let e = LLVMGetAggregateElement(v, 0); let x = self.konst(e); return V::A(Rc::new(vec![x; *n as usize])); }
            let mut l = 0; let d = LLVMConstRealGetDouble(v, &mut l); return if t.bits() == 32 { V::C((d as f32).to_bits() as u64) } else { V::C(d.to_bits()) };
        }
        if !LLVMIsAConstantPointerNull(v).is_null() { return V::C(0); }
        if LLVMIsUndef(v) != 0 || !LLVMIsAConstantAggregateZero(v).is_null() || !LLVMIsAConstantTokenNone(v).is_null() { return Self::zero(&t); }
        if !LLVMIsAFunction(v).is_null() { return V::C(Self::faddr(self.fidx[&v])); }
        if !LLVMIsAGlobalAlias(v).is_null() { let a = self.aliases[&v]; return self.konst(a); }
        if !LLVMIsAGlobalVariable(v).is_null() { return V::C(Self::gaddr(self.gidx[&v])); }
        if !LLVMIsAConstantExpr(v).is_null() { return self.cexpr(v); }
        let n = match &*t { Ty::Struct(f, _) => f.len() as u64, Ty::Array(n, _, _) => *n, Ty::Vector(n, _) => *n, _ => panic!("constant {}", show(v)) };
        let mut r = vec![];
        for i in 0..n { let e = LLVMGetAggregateElement(v, i as u32); if e.is_null() { panic!("constant {}", show(v)) } r.push(self.konst(e)); }
        V::A(Rc::new(r))
    }
    unsafe fn cu(&mut self, v: P) -> u64 { match self.konst(v) { V::C(x) => x, V::W(x) => *x as u64, x => panic!("const expr operand {:?}", x) } }
    unsafe fn cexpr(&mut self, v: P) -> V {
        let op = LLVMGetConstOpcode(v);
        match op {
            29 => {
                let (b, off, terms) = self.gep_parts(v);
                let mut a = self.cu(b).wrapping_add(off);
                for (o, w, s) in terms { let x = self.cu(o); let x = crate::expr::sx(x as u128, w) as u64; a = a.wrapping_add(x.wrapping_mul(s)); }
                V::C(a)
            }
            39 | 40 | 41 | 60 | 69 => { let o = LLVMGetOperand(v, 0); let tp = LLVMTypeOf(v); let w = self.ty(tp).bits(); let k = self.konst(o); match k { V::C(x) if w < 64 && w > 0 => V::C(x & ((1 << w) - 1)), k => k } }
            30 => { let o = LLVMGetOperand(v, 0); let tp = LLVMTypeOf(v); let w = self.ty(tp).bits(); let x = self.cu(o); V::C(x & crate::expr::mask(w) as u64) }
            8 | 10 | 25 => { let a = LLVMGetOperand(v, 0); let b = LLVMGetOperand(v, 1); let tp = LLVMTypeOf(v); let w = self.ty(tp).bits(); let (a, b) = (self.cu(a), self.cu(b)); let r = match op { 8 => a.wrapping_add(b), 10 => a.wrapping_sub(b), _ => a ^ b }; V::C(r & crate::expr::mask(w) as u64) }
            _ => panic!("constant expression {} {}", op, show(v)),
        }
    }
    unsafe fn gep_parts(&mut self, v: P) -> (P, u64, Vec<(P, u32, u64)>) {
        let n = LLVMGetNumOperands(v);
        let base = LLVMGetOperand(v, 0);
        let mut t = LLVMGetGEPSourceElementType(v);
        let mut off = 0u64; let mut terms = vec![];
        for i in 1..n {
            let o = LLVMGetOperand(v, i as u32);
            let ot = LLVMTypeOf(o);
            let w = self.ty(ot).bits();
            let k = if LLVMIsAConstantInt(o).is_null() { 0 } else { 18 };
            if i == 1 {
                let s = self.size(t);
                if k == 18 { off = off.wrapping_add((crate::expr::sx(LLVMConstIntGetZExtValue(o) as u128, w) as u64).wrapping_mul(s)) } else { terms.push((o, w, s)) }
            } else {
                match LLVMGetTypeKind(t) {
                    10 => { let ix = LLVMConstIntGetZExtValue(o) as u32; off += LLVMOffsetOfElement(self.td, t, ix); t = LLVMStructGetTypeAtIndex(t, ix); }
                    _ => {
                        t = LLVMGetElementType(t); let s = self.size(t);
                        if k == 18 { off = off.wrapping_add((crate::expr::sx(LLVMConstIntGetZExtValue(o) as u128, w) as u64).wrapping_mul(s)) } else { terms.push((o, w, s)) }
                    }
                }
            }
        }
        (base, off, terms)
    }
    /// Initial bytes of a global.
    pub fn ginit(&mut self, i: u32) -> Vec<u8> {
        unsafe {
            let g = self.globals[i as usize].val;
            let mut out = vec![0u8; self.globals[i as usize].size as usize];
            let init = LLVMGetInitializer(g);
            if !init.is_null() { let tp = LLVMTypeOf(init); let t = self.ty(tp); if LLVMIsUndef(init) == 0 && LLVMIsAConstantAggregateZero(init).is_null() { let v = self.konst(init); Self::put(&v, &t, &mut out, 0); } }
            out
        }
    }
    fn put(v: &V, t: &Ty, out: &mut [u8], off: usize) {
        match (v, t) {
            (V::C(x), _) => { let n = ((t.bits() + 7) / 8) as usize; for i in 0..n { out[off + i] = (x >> (8 * i)) as u8 } }
            (V::W(x), _) => { let n = ((t.bits() + 7) / 8) as usize; for i in 0..n { out[off + i] = (**x >> (8 * i)) as u8 } }
            (V::A(a), Ty::Struct(f, _)) => for (x, (t, o)) in a.iter().zip(f) { Self::put(x, t, out, off + *o as usize) },
            (V::A(a), Ty::Array(_, t, s)) => for (i, x) in a.iter().enumerate() { Self::put(x, t, out, off + i * *s as usize) },
            (V::A(a), Ty::Vector(_, t)) => { let s = (t.bits() / 8) as usize; for (i, x) in a.iter().enumerate() { Self::put(x, t, out, off + i * s) } }
            _ => panic!("put"),
        }
    }
    pub fn func(&mut self, id: u32) -> Rc<Func> {
        if let Some(b) = &self.funcs[id as usize].body { return b.clone(); }
        let f = Rc::new(unsafe { self.decode(id) });
        self.funcs[id as usize].body = Some(f.clone());
        f
    }
    unsafe fn decode(&mut self, id: u32) -> Func {
        let fv = self.funcs[id as usize].val;
        let nparams = LLVMCountParams(fv);
        let mut regs: HashMap<P, u32> = HashMap::new();
        let mut n = 0u32;
        for i in 0..nparams { regs.insert(LLVMGetParam(fv, i), n); n += 1; }
        // first pass: numbering and block offsets
        let mut starts: HashMap<P, u32> = HashMap::new();
        let mut blocks = vec![]; let mut ip = 0u32;
        let mut b = LLVMGetFirstBasicBlock(fv);
        while !b.is_null() {
            starts.insert(b, ip); blocks.push(b);
            let mut i = LLVMGetFirstInstruction(b);
            while !i.is_null() {
                let op = LLVMGetInstructionOpcode(i);
                let tp = LLVMTypeOf(i);
                if LLVMGetTypeKind(tp) != 0 { regs.insert(i, n); n += 1; }
                if op != 44 { ip += 1; }
                i = LLVMGetNextInstruction(i);
            }
            b = LLVMGetNextBasicBlock(b);
        }
        let scratch = n; n += 1;
        let mut code = Vec::with_capacity(ip as usize);
        for b in &blocks {
            let mut i = LLVMGetFirstInstruction(*b);
            while !i.is_null() {
                if LLVMGetInstructionOpcode(i) != 44 { let x = self.ins(i, *b, &regs, &starts, scratch); code.push(x); }
                i = LLVMGetNextInstruction(i);
            }
        }
        let _ = LLVMCountBasicBlocks(fv);
        Func { id, name: self.funcs[id as usize].name.clone(), nregs: n, nparams, code, blocks: blocks.len() as u32 }
    }
    unsafe fn opd(&mut self, v: P, regs: &HashMap<P, u32>) -> Opd {
        if let Some(r) = regs.get(&v) { return Opd::R(*r); }
        Opd::K(self.konst(v))
    }
    unsafe fn edge(&mut self, from: P, to: P, regs: &HashMap<P, u32>, starts: &HashMap<P, u32>) -> Edge {
        let mut moves = vec![];
        let mut i = LLVMGetFirstInstruction(to);
        while !i.is_null() && LLVMGetInstructionOpcode(i) == 44 {
            let n = LLVMCountIncoming(i);
            for k in 0..n { if LLVMGetIncomingBlock(i, k) == from { let v = LLVMGetIncomingValue(i, k); moves.push((regs[&i], self.opd(v, regs))); break; } }
            i = LLVMGetNextInstruction(i);
        }
        Edge { to: starts[&to], moves }
    }
    unsafe fn lanes(&mut self, t: &Ty) -> (u32, u32) { match t { Ty::Vector(n, e) => (*n as u32, e.bits()), t => (0, t.bits()) } }
    unsafe fn ins(&mut self, i: P, bb: P, regs: &HashMap<P, u32>, starts: &HashMap<P, u32>, scratch: u32) -> Ins {
        let op = LLVMGetInstructionOpcode(i);
        let tp = LLVMTypeOf(i); let ty = self.ty(tp);
        let d = *regs.get(&i).unwrap_or(&scratch);
        macro_rules! o { ($k:expr) => {{ let x = LLVMGetOperand(i, $k); self.opd(x, regs) }} }
        macro_rules! oty { ($k:expr) => {{ let x = LLVMGetOperand(i, $k); let t = LLVMTypeOf(x); self.ty(t) }} }
        let bin = |op| Some(match op { 8 => Bin::Add, 9 => Bin::FAdd, 10 => Bin::Sub, 11 => Bin::FSub, 12 => Bin::Mul, 13 => Bin::FMul, 14 => Bin::UDiv, 15 => Bin::SDiv, 16 => Bin::FDiv, 17 => Bin::URem, 18 => Bin::SRem, 19 => Bin::FRem, 20 => Bin::Shl, 21 => Bin::LShr, 22 => Bin::AShr, 23 => Bin::And, 24 => Bin::Or, 25 => Bin::Xor, _ => return None });
        if let Some(b) = bin(op) { let (lanes, w) = self.lanes(&ty); return Ins::Bin { op: b, w, lanes, a: o!(0), b: o!(1), d }; }
        match op {
            1 => if LLVMGetNumOperands(i) == 0 { Ins::Ret(None) } else { Ins::Ret(Some(o!(0))) },
            3 => {
                let n = LLVMGetNumSuccessors(i);
                let c = o!(0); let w = oty!(0).bits();
                let dt = LLVMGetSuccessor(i, 0); let def = self.edge(bb, dt, regs, starts);
                let mut targets: Vec<Edge> = vec![]; let mut tmap: HashMap<P, u32> = HashMap::new(); let mut cases = vec![]; let mut map = HashMap::new();
                for k in 1..n {
                    let v = LLVMGetSwitchCaseValue(i, k); let v = if w <= 64 { LLVMConstIntGetZExtValue(v) } else { self.big(v) as u64 };
                    let t = LLVMGetSuccessor(i, k);
                    let ix = if let Some(x) = tmap.get(&t) { *x } else { let e = self.edge(bb, t, regs, starts); targets.push(e); tmap.insert(t, targets.len() as u32 - 1); targets.len() as u32 - 1 };
                    cases.push((v, ix)); map.insert(v, ix);
                }
                Ins::Switch { c, w, def, cases, targets, map }
            }
            5 | 45 => {
                let cv = LLVMGetCalledValue(i);
                let n = LLVMGetNumArgOperands(i);
                let mut args = vec![]; let mut aw = vec![];
                for k in 0..n { let a = LLVMGetOperand(i, k); let at = LLVMTypeOf(a); if LLVMGetTypeKind(at) == 14 { args.push(Opd::K(V::C(0))); aw.push(0); continue; } aw.push({ let t = self.ty(at); let (_, w) = self.lanes(&t); w }); args.push(self.opd(a, regs)); }
                let mut cvv = cv;
                while let Some(a) = self.aliases.get(&cvv) { cvv = *a; }
                let f = if !LLVMIsAInlineAsm(cvv).is_null() { Callee::Asm } else if let Some(x) = self.fidx.get(&cvv) { Callee::Fn(*x) } else { Callee::Ind(self.opd(cv, regs)) };
                let edge = if op == 5 { let t = LLVMGetNormalDest(i); Some(self.edge(bb, t, regs, starts)) } else { None };
                Ins::Call { f, args, aw, rty: ty, d, edge }
            }
            7 => Ins::Unreachable,
            66 => { let (lanes, w) = self.lanes(&ty); Ins::FNeg { w, lanes, a: o!(0), d } }
            26 => { let t = LLVMGetAllocatedType(i); Ins::Alloca { size: self.size(t), n: o!(0), d } }
            27 => { let n = self.size(tp) as u32; Ins::Load { p: o!(0), ty, n, d } }
            28 => { let t = oty!(0); let x = LLVMGetOperand(i, 0); let xt = LLVMTypeOf(x); let n = self.size(xt) as u32; Ins::Store { p: o!(1), v: o!(0), ty: t, n } }
            29 => {
                if matches!(&*ty, Ty::Vector(..)) { return Ins::Bad("vector gep".into()); }
                let (b, off, terms) = self.gep_parts(i);
                let base = self.opd(b, regs);
                let terms = terms.into_iter().map(|(o, w, s)| (self.opd(o, regs), w, s)).collect();
                Ins::Gep { base, off, terms, d }
            }
            30..=41 | 60 | 69 => {
                let ft = oty!(0);
                let (l1, w1) = self.lanes(&ft); let (l2, w2) = self.lanes(&ty);
                let c = match op { 30 => Cast::Trunc, 31 => Cast::ZExt, 32 => Cast::SExt, 33 => Cast::FPToUI, 34 => Cast::FPToSI, 35 => Cast::UIToFP, 36 => Cast::SIToFP, 37 => Cast::FPTrunc, 38 => Cast::FPExt,
                    39 | 40 | 69 => if w2 < w1 { Cast::Trunc } else if w2 > w1 { Cast::ZExt } else { Cast::Bit }, _ => Cast::Bit };
                if c == Cast::Bit && (l1 != l2 || w1 != w2) { return Ins::BitVec { a: o!(0), from: ft, to: ty, d }; }
                if c == Cast::Bit { return Ins::Copy { a: o!(0), d }; }
                Ins::Cast { op: c, from: w1, to: w2, lanes: l1, a: o!(0), d }
            }
            42 => { let t = oty!(0); let (lanes, w) = self.lanes(&t); Ins::Icmp { p: LLVMGetICmpPredicate(i), w, lanes, a: o!(0), b: o!(1), d } }
            43 => { let t = oty!(0); let (lanes, w) = self.lanes(&t); Ins::Fcmp { p: LLVMGetFCmpPredicate(i), w, lanes, a: o!(0), b: o!(1), d } }
            46 => { let ct = oty!(0); Ins::Select { c: o!(0), a: o!(1), b: o!(2), vc: matches!(&*ct, Ty::Vector(..)), ty, d } }
            50 => Ins::ExtElt { a: o!(0), i: o!(1), d },
            51 => Ins::InsElt { a: o!(0), v: o!(1), i: o!(2), d },
            52 => { let n = LLVMGetNumMaskElements(i); let mask = (0..n).map(|k| LLVMGetMaskValue(i, k)).collect(); let t = oty!(0); let (l, ew) = self.lanes(&t); Ins::Shuffle { a: o!(0), b: o!(1), mask, n: l, ew, d } }
            53 => { let n = LLVMGetNumIndices(i); let ix = std::slice::from_raw_parts(LLVMGetIndices(i), n as usize).to_vec(); Ins::Extract { a: o!(0), idx: ix, d } }
            54 => { let n = LLVMGetNumIndices(i); let ix = std::slice::from_raw_parts(LLVMGetIndices(i), n as usize).to_vec(); Ins::Insert { a: o!(0), v: o!(1), idx: ix, d } }
            68 => Ins::Copy { a: o!(0), d },
            55 => Ins::Nop,
            56 => { let t = oty!(1); Ins::CmpXchg { p: o!(0), c: o!(1), n: o!(2), w: t.bits(), d } }
            57 => { let t = oty!(1); Ins::Rmw { op: LLVMGetAtomicRMWBinOp(i), p: o!(0), v: o!(1), w: t.bits(), d } }
            58 | 59 => Ins::Unreachable,
            _ => {
                // branches (their opcode numbers differ between LLVM versions)
                let ns = LLVMGetNumSuccessors(i);
                if ns == 1 && LLVMGetNumOperands(i) == 1 { let t = LLVMGetSuccessor(i, 0); return Ins::Br(self.edge(bb, t, regs, starts)); }
                if ns == 2 && LLVMGetNumOperands(i) == 3 {
                    let c = LLVMGetCondition(i); let c = self.opd(c, regs);
                    let t = LLVMGetSuccessor(i, 0); let f = LLVMGetSuccessor(i, 1);
                    return Ins::CondBr { c, t: self.edge(bb, t, regs, starts), f: self.edge(bb, f, regs, starts) };
                }
                Ins::Bad(format!("opcode {} {}", op, show(i)))
            }
        }
    }
}
#[allow(dead_code)] unsafe fn _u(t: P) -> P { LLVMGetReturnType(t) }
