//! C library calls: string primitives, allocation, and a virtual file system.
use crate::exec::*;
use crate::expr::*;
use crate::hooks::*;
use crate::ir::*;
use std::rc::Rc;

const VOID: V = V::C(0);
fn norm(p: &str) -> Rc<String> { let mut s = p; while let Some(r) = s.strip_prefix("./") { s = r } Rc::new(s.trim_end_matches('/').replace("//", "/")) }
pub fn put_file(st: &mut State, path: &str, b: Vec<V>) {
    let p = norm(path);
    let mut d = String::new();
    for c in p.split('/').take(p.split('/').count() - 1) { if !d.is_empty() || p.starts_with('/') { d.push('/') } d.push_str(c); if !d.is_empty() { st.vfs.entry(Rc::new(d.clone())).or_insert(VFile { data: Rc::new(vec![]), dir: true }); } }
    st.vfs.insert(p, VFile { data: Rc::new(b), dir: false });
}
fn err(x: &mut Exec, st: &mut State, e: u64) -> R<V> { let a = x.errno_addr; x.store_scalar(st, a, &V::C(e), 32)?; Ok(V::C(!0)) }
fn ret32(x: &mut Exec, st: &mut State, e: u64) -> R<V> { err(x, st, e)?; Ok(V::C(0xffff_ffff)) }

fn cmp(x: &mut Exec, st: &mut State, c: &Call, ordered: bool) -> R<V> {
    let n = x.cv(st, &c.args[2])?; if n == 0 { return Ok(V::C(0)); }
    let a = x.cv(st, &c.args[0])?; let b = x.cv(st, &c.args[1])?;
    let (p, q) = (x.bytes(st, a, n)?, x.bytes(st, b, n)?);
    let w = c.rty.bits();
    if !ordered {
        let mut acc = x.ar.c(1, 1);
        for (y, z) in p.iter().zip(q.iter()).rev() { let (y, z) = (x.ex(y, 8), x.ex(z, 8)); let e = x.ar.eq(y, z); acc = x.ar.and(e, acc); }
        let z = x.ar.c(0, w); let o = x.ar.c(1, w); let r = x.ar.ite(acc, z, o); return Ok(x.vx(r));
    }
    let mut acc = x.ar.c(0, w);
    for (y, z) in p.iter().zip(q.iter()).rev() {
        let (y, z) = (x.ex(y, 8), x.ex(z, 8)); let lt = x.ar.bin(Op::Ult, y, z); let eq = x.ar.eq(y, z);
        let m = x.ar.c(mask(w), w); let o = x.ar.c(1, w); let ne = x.ar.ite(lt, m, o); acc = x.ar.ite(eq, acc, ne);
    }
    Ok(x.vx(acc))
}
fn fill_stat(x: &mut Exec, st: &mut State, buf: u64, path: &str) -> R<V> {
    let f = match st.vfs.get(&*norm(path)) { Some(f) => f.clone(), None => return ret32(x, st, 2) };
    for i in 0..18 { x.store_scalar(st, buf + 8 * i, &V::C(0), 64)?; }
    x.store_scalar(st, buf + 16, &V::C(1), 64)?; // nlink
    x.store_scalar(st, buf + 24, &V::C(if f.dir { 0o040755 } else { 0o100644 }), 32)?;
    x.store_scalar(st, buf + 48, &V::C(f.data.len() as u64), 64)?;
    Ok(V::C(0))
}
fn fill_statx(x: &mut Exec, st: &mut State, buf: u64, path: &str) -> R<V> {
    let f = match st.vfs.get(&*norm(path)) { Some(f) => f.clone(), None => return ret32(x, st, 2) };
    for i in 0..32 { x.store_scalar(st, buf + 8 * i, &V::C(0), 64)?; }
    x.store_scalar(st, buf, &V::C(0x7ff), 32)?; x.store_scalar(st, buf + 4, &V::C(4096), 32)?; x.store_scalar(st, buf + 16, &V::C(1), 32)?;
    x.store_scalar(st, buf + 28, &V::C(if f.dir { 0o040755 } else { 0o100644 }), 16)?;
    x.store_scalar(st, buf + 40, &V::C(f.data.len() as u64), 64)?;
    Ok(V::C(0))
}
fn do_statx(x: &mut Exec, st: &mut State, fd: &V, path: &V, buf: &V) -> R<V> {
    let fd = x.cv(st, fd)? & 0xffff_ffff; let p = x.cv(st, path)?; let buf = x.cv(st, buf)?;
    let mut s = if p == 0 { return ret32(x, st, 14); } else { x.cstr(st, p)? };
    if s.is_empty() { match st.fds.get(&fd) { Some(f) => s = f.path.to_string(), None => return ret32(x, st, 9) } }
    fill_statx(x, st, buf, &s)
}
fn do_read(x: &mut Exec, st: &mut State, fd: u64, buf: u64, n: u64) -> R<V> {
    let f = match st.fds.get(&fd) { Some(f) => f.clone(), None => return err(x, st, 9) };
    let file = match st.vfs.get(&f.path) { Some(v) => v.clone(), None => return err(x, st, 2) };
    if file.dir { return err(x, st, 21); }
    let k = (file.data.len() as u64).saturating_sub(f.pos).min(n);
    for i in 0..k { let v = file.data[(f.pos + i) as usize].clone(); x.store_scalar(st, buf + i, &v, 8)?; }
    st.fds.get_mut(&fd).unwrap().pos += k; Ok(V::C(k))
}
fn do_write(x: &mut Exec, st: &mut State, fd: u64, buf: u64, n: u64) -> R<V> {
    let b = x.bytes(st, buf, n)?;
    if fd == 1 || fd == 2 { return Ok(V::C(n)); }
    let f = match st.fds.get(&fd) { Some(f) if f.write => f.clone(), _ => return err(x, st, 9) };
    let file = match st.vfs.get_mut(&f.path) { Some(v) => v, None => return err(x, st, 2) };
    let d = Rc::make_mut(&mut file.data); let pos = if f.append { d.len() } else { f.pos as usize };
    if d.len() < pos + b.len() { d.resize(pos + b.len(), V::C(0)) }
    for (i, v) in b.into_iter().enumerate() { d[pos + i] = v }
    st.fds.get_mut(&fd).unwrap().pos = pos as u64 + n; Ok(V::C(n))
}
fn do_open(x: &mut Exec, st: &mut State, p: u64, fl: u64) -> R<V> {
    let path = norm(&x.cstr(st, p)?);
    let (creat, excl, trunc, app, acc) = (fl & 0o100 != 0, fl & 0o200 != 0, fl & 0o1000 != 0, fl & 0o2000 != 0, fl & 3);
    let exists = st.vfs.get(&path).cloned();
    match exists {
        None => { if !creat { return ret32(x, st, 2); }
            if let Some(i) = path.rfind('/') { let d = Rc::new(path[..i].to_string()); if !d.is_empty() && !st.vfs.contains_key(&d) { return ret32(x, st, 2); } }
            st.vfs.insert(path.clone(), VFile { data: Rc::new(vec![]), dir: false }); }
        Some(f) => { if creat && excl { return ret32(x, st, 17); } if f.dir && acc != 0 { return ret32(x, st, 21); } if trunc && acc != 0 { st.vfs.insert(path.clone(), VFile { data: Rc::new(vec![]), dir: false }); } }
    }
    let fd = st.fds.keys().last().map_or(3, |k| k + 1);
    st.fds.insert(fd, Fd { path, pos: 0, write: acc != 0, append: app }); Ok(V::C(fd))
}
pub fn resolve(name: &str) -> Option<HFn> {
    Some(match name {
        "bcmp" => |x, st, c| cmp(x, st, c, false),
        "memcmp" => |x, st, c| cmp(x, st, c, true),
        "memcpy" | "memmove" => |x, st, c| { let n = x.cv(st, &c.args[2])?; let d = x.cv(st, &c.args[0])?; let s = x.cv(st, &c.args[1])?; x.copy(st, d, s, n)?; Ok(V::C(d)) },
        "memset" => |x, st, c| { let n = x.cv(st, &c.args[2])?; let d = x.cv(st, &c.args[0])?; let e = x.ex(&c.args[1], 32); let e = x.ar.extract(e, 0, 8); let v = x.vx(e); for i in 0..n { x.store_scalar(st, d + i, &v, 8)? } Ok(V::C(d)) },
        "strlen" => |x, st, c| { let p = x.cv(st, &c.args[0])?; let mut n = 0; loop { let z = match x.load_byte(st, p + n)? { V::C(b) => b == 0, V::S(e) => { let k = x.ar.c(0, 8); let q = x.ar.eq(e, k); x.decide(st, q)? } _ => true }; if z { return Ok(V::C(n)); } n += 1; } },
        "memchr" => |x, st, c| { let n = x.cv(st, &c.args[2])?; let p = x.cv(st, &c.args[0])?; let e = x.ex(&c.args[1], 32); let e = x.ar.extract(e, 0, 8); for i in 0..n { let b = x.load_byte(st, p + i)?; let b = x.ex(&b, 8); let q = x.ar.eq(b, e); if x.decide(st, q)? { return Ok(V::C(p + i)); } } Ok(V::C(0)) },
        "memrchr" => |x, st, c| { let n = x.cv(st, &c.args[2])?; let p = x.cv(st, &c.args[0])?; let e = x.ex(&c.args[1], 32); let e = x.ar.extract(e, 0, 8); for i in (0..n).rev() { let b = x.load_byte(st, p + i)?; let b = x.ex(&b, 8); let q = x.ar.eq(b, e); if x.decide(st, q)? { return Ok(V::C(p + i)); } } Ok(V::C(0)) },
        "malloc" => |_, st, c| alloc(st, &c.args[0]),
        "calloc" => |x, st, c| { let a = x.cv(st, &c.args[0])?; let b = x.cv(st, &c.args[1])?; alloc(st, &V::C(a * b)) },
        "realloc" => |x, st, c| { let a = x.cv(st, &c.args[0])?; let n = x.cv(st, &c.args[1])?; if a == 0 { return alloc(st, &V::C(n)); } let old = st.mem.get((a >> 32) as u32).map_or(0, |o| o.data.len() as u64); realloc(x, st, a, old, n) },
        "free" => |x, st, c| { let a = x.cv(st, &c.args[0])?; free(st, a) },
        "posix_memalign" => |x, st, c| { let p = x.cv(st, &c.args[0])?; let r = alloc(st, &c.args[2])?; x.store_scalar(st, p, &r, 64)?; Ok(V::C(0)) },
        "aligned_alloc" => |_, st, c| alloc(st, &c.args[1]),
        "abort" => |_, _, _| Err(Stop::Panic("abort".into())),
        "__errno_location" => |x, _, _| Ok(V::C(x.errno_addr)),
        "__cxa_thread_atexit_impl" | "pthread_key_create" | "pthread_setspecific" | "pthread_key_delete" | "pthread_atfork" | "sched_yield" | "fsync" | "fdatasync" => |_, _, _| Ok(V::C(0)),
        "pthread_getspecific" | "getenv" => |_, _, _| Ok(V::C(0)),
        "getrandom" => |x, st, c| { let p = x.cv(st, &c.args[0])?; let n = x.cv(st, &c.args[1])?; random(x, st, p, n)?; Ok(V::C(n)) },
        "open64" | "open" => |x, st, c| { let p = x.cv(st, &c.args[0])?; let f = x.cv(st, &c.args[1])?; do_open(x, st, p, f) },
        "close" => |x, st, c| { let f = x.cv(st, &c.args[0])?; st.fds.remove(&f); Ok(V::C(0)) },
        "read" => |x, st, c| { let f = x.cv(st, &c.args[0])?; let b = x.cv(st, &c.args[1])?; let n = x.cv(st, &c.args[2])?; do_read(x, st, f, b, n) },
        "write" => |x, st, c| { let f = x.cv(st, &c.args[0])?; let b = x.cv(st, &c.args[1])?; let n = x.cv(st, &c.args[2])?; do_write(x, st, f, b, n) },
        "writev" => |x, st, c| { let f = x.cv(st, &c.args[0])?; let v = x.cv(st, &c.args[1])?; let n = x.cv(st, &c.args[2])?; let mut t = 0; for i in 0..n { let mut q = [0u64; 2]; for (k, s) in q.iter_mut().enumerate() { for j in 0..8 { if let V::C(b) = x.load_byte(st, v + 16 * i + 8 * k as u64 + j)? { *s |= b << (8 * j) } } } do_write(x, st, f, q[0], q[1])?; t += q[1]; } Ok(V::C(t)) },
        "lseek64" | "lseek" => |x, st, c| { let f = x.cv(st, &c.args[0])?; let o = x.cv(st, &c.args[1])?; let w = x.cv(st, &c.args[2])?; let fd = match st.fds.get(&f) { Some(f) => f.clone(), None => return err(x, st, 9) }; let len = st.vfs.get(&fd.path).map_or(0, |v| v.data.len() as u64); let p = match w { 0 => o, 1 => fd.pos.wrapping_add(o), _ => len.wrapping_add(o) }; st.fds.get_mut(&f).unwrap().pos = p; Ok(V::C(p)) },
        "fstat64" | "fstat" => |x, st, c| { let f = x.cv(st, &c.args[0])?; let b = x.cv(st, &c.args[1])?; let p = match st.fds.get(&f) { Some(f) => f.path.to_string(), None => return ret32(x, st, 9) }; fill_stat(x, st, b, &p) },
        "stat64" | "stat" | "lstat64" | "lstat" => |x, st, c| { let p = x.cv(st, &c.args[0])?; let b = x.cv(st, &c.args[1])?; let p = x.cstr(st, p)?; fill_stat(x, st, b, &p) },
        "statx" => |x, st, c| { do_statx(x, st, &c.args[0], &c.args[1], &c.args[4]) },
        "unlink" => |x, st, c| { let p = x.cv(st, &c.args[0])?; let p = norm(&x.cstr(st, p)?); if st.vfs.remove(&p).is_some() { Ok(V::C(0)) } else { ret32(x, st, 2) } },
        "rename" => |x, st, c| { let p = x.cv(st, &c.args[0])?; let p = norm(&x.cstr(st, p)?); let q = x.cv(st, &c.args[1])?; let q = norm(&x.cstr(st, q)?); match st.vfs.get(&p).cloned() { None => ret32(x, st, 2), Some(f) if f.dir => Err(Stop::Unsupported("rename of a directory".into())), Some(f) => { if let Some(i) = q.rfind('/') { let d = Rc::new(q[..i].to_string()); if !d.is_empty() && !st.vfs.contains_key(&d) { return ret32(x, st, 2); } } st.vfs.remove(&p); st.vfs.insert(q, f); Ok(V::C(0)) } } },
        "ftruncate64" | "ftruncate" => |x, st, c| { let f = x.cv(st, &c.args[0])?; let n = x.cv(st, &c.args[1])? as usize; let p = match st.fds.get(&f) { Some(f) if f.write => f.path.clone(), _ => return ret32(x, st, 9) }; match st.vfs.get_mut(&p) { Some(v) => { Rc::make_mut(&mut v.data).resize(n, V::C(0)); Ok(V::C(0)) } None => ret32(x, st, 2) } },
        "fchmod" | "chmod" | "flock" => |_, _, _| Ok(V::C(0)),
        "dlsym" => |_, _, _| Ok(V::C(0)),
        "copy_file_range" | "sendfile64" | "sendfile" | "splice" => |x, st, _| err(x, st, 38),
        "access" | "faccessat" => |x, st, c| { let i = if c.name == "access" { 0 } else { 1 }; let p = x.cv(st, &c.args[i])?; let p = norm(&x.cstr(st, p)?); if st.vfs.contains_key(&p) { Ok(V::C(0)) } else { ret32(x, st, 2) } },
        "mkdir" => |x, st, c| { let p = x.cv(st, &c.args[0])?; let p = norm(&x.cstr(st, p)?); if st.vfs.contains_key(&p) { return ret32(x, st, 17); } st.vfs.insert(p, VFile { data: Rc::new(vec![]), dir: true }); Ok(V::C(0)) },
        "syscall" => |x, st, c| {
            let n = x.cv(st, &c.args[0])?;
            match n {
                318 => { let p = x.cv(st, &c.args[1])?; let k = x.cv(st, &c.args[2])?; random(x, st, p, k)?; Ok(V::C(k)) }
                332 => { let r = do_statx(x, st, &c.args[1], &c.args[2], &c.args[5])?; Ok(match r { V::C(0xffff_ffff) => V::C(!0), r => r }) }
                202 => Ok(V::C(0)),
                _ => Err(Stop::Unsupported(format!("syscall {}", n))),
            }
        },
        _ => return None,
    })
}
fn random(x: &mut Exec, st: &mut State, p: u64, n: u64) -> R<()> {
    for i in 0..n { st.rnd = st.rnd.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); let b = st.rnd >> 56; x.store_scalar(st, p + i, &V::C(b), 8)?; }
    Ok(())
}
#[allow(dead_code)] fn _v() -> V { VOID }
