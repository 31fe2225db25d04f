//! External functions: harness intrinsics, the allocator and a small model of libc with an
//! in-memory file system.
use crate::expr::*;
use crate::ir::*;
use crate::vm::*;

pub type ExtFn = fn(&mut Vm, &[V]) -> R<[V; 2]>;

#[derive(Clone, Default)]
pub struct FNode {
    pub path: Vec<V>,
    pub dir: bool,
    pub data: Vec<V>,
    pub noread: bool,
    pub nowrite: bool,
    pub touched: u64,
    pub live: bool,
}
#[derive(Clone)]
pub enum Fd {
    File { n: usize, pos: usize, rd: bool, wr: bool, app: bool },
    Dir { n: usize, list: Vec<usize>, pos: usize, buf: u64 },
}
#[derive(Clone, Default)]
pub struct Fs {
    pub nodes: Vec<FNode>,
    pub fds: Vec<Option<Fd>>,
    pub errno_addr: u64,
}

const Z: V = V { c: 0, e: 0 };
fn ok(c: u64) -> R<[V; 2]> {
    Ok([V::k(c), Z])
}
fn okv(v: V) -> R<[V; 2]> {
    Ok([v, Z])
}
fn neg1_32(vm: &mut Vm, errno: u64) -> R<[V; 2]> {
    set_errno(vm, errno)?;
    ok(0xffff_ffff)
}
fn neg1(vm: &mut Vm, errno: u64) -> R<[V; 2]> {
    set_errno(vm, errno)?;
    ok(u64::MAX)
}
fn null(vm: &mut Vm, errno: u64) -> R<[V; 2]> {
    set_errno(vm, errno)?;
    ok(0)
}
fn errno_addr(vm: &mut Vm) -> R<u64> {
    if vm.fs.errno_addr == 0 {
        vm.fs.errno_addr = vm.malloc(16, 16)?;
    }
    Ok(vm.fs.errno_addr)
}
fn set_errno(vm: &mut Vm, e: u64) -> R<()> {
    let a = errno_addr(vm)?;
    vm.store(a, V::k(e), 32)
}
fn c(vm: &mut Vm, a: &[V], i: usize) -> R<u64> {
    vm.conc(a[i], 64)
}
fn c32(vm: &mut Vm, a: &[V], i: usize) -> R<u64> {
    vm.conc(a[i], 32)
}
fn bytes_v(vm: &mut Vm, p: u64, n: u64) -> R<Vec<V>> {
    let mut o = vec![];
    for i in 0..n {
        o.push(vm.load(p + i, 8)?);
    }
    Ok(o)
}
/// C string whose terminator position may depend on symbolic bytes
fn cstr_v(vm: &mut Vm, p: u64) -> R<Vec<V>> {
    let mut o = vec![];
    loop {
        let b = vm.load(p + o.len() as u64, 8)?;
        let z = vm.icmp(Pred::Eq, 8, b, Z);
        if vm.truth(z)? {
            return Ok(o);
        }
        o.push(b);
    }
}
fn store_v(vm: &mut Vm, p: u64, b: &[V]) -> R<()> {
    for (i, x) in b.iter().enumerate() {
        vm.store(p + i as u64, *x, 8)?;
    }
    Ok(())
}
fn eq_v(vm: &mut Vm, a: &[V], b: &[V]) -> V {
    if a.len() != b.len() {
        return Z;
    }
    let mut r = V::k(1);
    for i in 0..a.len() {
        let q = vm.icmp(Pred::Eq, 8, a[i], b[i]);
        if q.e == 0 && q.c == 0 {
            return Z;
        }
        r = vm.bin(Bop::And, 1, r, q);
    }
    r
}

// ---------------------------------------------------------------- harness intrinsics

fn vm_sym(vm: &mut Vm, a: &[V]) -> R<[V; 2]> {
    let (lo, hi) = (vm.conc(a[0], 8)? & 255, vm.conc(a[1], 8)? & 255);
    let mut d = EMPTY;
    for i in lo..=hi {
        put(&mut d, i as usize);
    }
    let v = vm.sym(d)?;
    okv(v)
}
fn vm_sym_mask(vm: &mut Vm, a: &[V]) -> R<[V; 2]> {
    let p = c(vm, a, 0)?;
    let mut d = EMPTY;
    for i in 0..4 {
        let x = vm.load(p + 8 * i, 64)?;
        d[i as usize] = vm.conc(x, 64)?;
    }
    let v = vm.sym(d)?;
    okv(v)
}
fn bit(vm: &mut Vm, v: V) -> V {
    if v.e == 0 {
        return V::k(v.c & 1);
    }
    vm.trunc(v, 1)
}
fn vm_assume(vm: &mut Vm, a: &[V]) -> R<[V; 2]> {
    let b = bit(vm, a[0]);
    vm.assume(b)?;
    ok(0)
}
fn vm_check(vm: &mut Vm, a: &[V]) -> R<[V; 2]> {
    let id = c32(vm, a, 1)? as u32;
    let b = bit(vm, a[0]);
    vm.check(b, id)?;
    ok(0)
}
fn vm_conc(vm: &mut Vm, a: &[V]) -> R<[V; 2]> {
    let x = vm.conc(a[0], 64)?;
    ok(x)
}
fn vm_try(vm: &mut Vm, a: &[V]) -> R<[V; 2]> {
    let f = c(vm, a, 0)?;
    vm.begin_try(f, a[1])?;
    ok(0)
}
fn out_of<'a>(vm: &'a Vm, w: u64) -> &'a Vec<V> {
    if w == 1 {
        &vm.stdout
    } else {
        &vm.stderr
    }
}
/// vm_out(which, buf, cap) -> length; copies captured stdout (1) or stderr (2)
fn vm_out(vm: &mut Vm, a: &[V]) -> R<[V; 2]> {
    let (w, p, n) = (c32(vm, a, 0)?, c(vm, a, 1)?, c(vm, a, 2)?);
    let o = out_of(vm, w).clone();
    let k = o.len().min(n as usize);
    store_v(vm, p, &o[..k])?;
    ok(o.len() as u64)
}
fn vm_out_clear(vm: &mut Vm, _: &[V]) -> R<[V; 2]> {
    vm.stdout.clear();
    vm.stderr.clear();
    ok(0)
}
fn vm_exit_code(vm: &mut Vm, _: &[V]) -> R<[V; 2]> {
    let x = vm.last_exit as u32 as u64;
    ok(x)
}
fn vm_cover(vm: &mut Vm, a: &[V]) -> R<[V; 2]> {
    let id = c32(vm, a, 0)?;
    vm.covers_seen.push(id);
    ok(0)
}
fn vm_prune(vm: &mut Vm, a: &[V]) -> R<[V; 2]> {
    let id = c32(vm, a, 0)?;
    Err(Stop::Pruned(id as u32))
}
fn vm_param(vm: &mut Vm, a: &[V]) -> R<[V; 2]> {
    let i = c32(vm, a, 0)? as usize;
    ok(vm.sh.params.get(i).copied().unwrap_or(0))
}
fn vm_symbolic(_: &mut Vm, _: &[V]) -> R<[V; 2]> {
    ok(1)
}
fn vm_note(vm: &mut Vm, a: &[V]) -> R<[V; 2]> {
    let (p, n) = (c(vm, a, 0)?, c(vm, a, 1)?);
    let b = vm.bytes(p, n)?;
    vm.notes.extend_from_slice(&b);
    ok(0)
}
/// number of instructions executed so far on this path
fn vm_steps(vm: &mut Vm, _: &[V]) -> R<[V; 2]> {
    let x = vm.executed;
    ok(x)
}

// file-system scenario
fn fs_add(vm: &mut Vm, a: &[V]) -> R<[V; 2]> {
    // path, plen, flags (1 dir, 2 unreadable, 4 unwritable), data, dlen
    let (p, n, fl, d, dn) = (c(vm, a, 0)?, c(vm, a, 1)?, c32(vm, a, 2)?, c(vm, a, 3)?, c(vm, a, 4)?);
    let path = bytes_v(vm, p, n)?;
    let data = bytes_v(vm, d, dn)?;
    vm.fs.nodes.push(FNode {
        path,
        data,
        dir: fl & 1 != 0,
        noread: fl & 2 != 0,
        nowrite: fl & 4 != 0,
        touched: 0,
        live: true,
    });
    ok(vm.fs.nodes.len() as u64 - 1)
}
fn fs_len(vm: &mut Vm, a: &[V]) -> R<[V; 2]> {
    let i = c32(vm, a, 0)? as usize;
    ok(vm.fs.nodes.get(i).filter(|n| n.live).map(|n| n.data.len() as u64).unwrap_or(u64::MAX))
}
fn fs_data(vm: &mut Vm, a: &[V]) -> R<[V; 2]> {
    let i = c32(vm, a, 0)? as usize;
    let p = c(vm, a, 1)?;
    let d = vm.fs.nodes[i].data.clone();
    store_v(vm, p, &d)?;
    ok(0)
}
fn fs_touched(vm: &mut Vm, a: &[V]) -> R<[V; 2]> {
    let i = c32(vm, a, 0)? as usize;
    ok(vm.fs.nodes[i].touched)
}
fn fs_count(vm: &mut Vm, _: &[V]) -> R<[V; 2]> {
    ok(vm.fs.nodes.iter().filter(|n| n.live).count() as u64)
}

// ---------------------------------------------------------------- allocator

fn rust_alloc(vm: &mut Vm, a: &[V]) -> R<[V; 2]> {
    let (n, al) = (c(vm, a, 0)?, c(vm, a, 1)?);
    let p = vm.malloc(n, al)?;
    ok(p)
}
fn rust_alloc_zeroed(vm: &mut Vm, a: &[V]) -> R<[V; 2]> {
    let (n, al) = (c(vm, a, 0)?, c(vm, a, 1)?);
    let p = vm.malloc(n, al)?;
    vm.fill(p, Z, n)?;
    ok(p)
}
fn rust_dealloc(vm: &mut Vm, a: &[V]) -> R<[V; 2]> {
    let (p, n, al) = (c(vm, a, 0)?, c(vm, a, 1)?, c(vm, a, 2)?);
    vm.dealloc(p, n, al);
    ok(0)
}
fn rust_realloc(vm: &mut Vm, a: &[V]) -> R<[V; 2]> {
    let (p, n, al, m) = (c(vm, a, 0)?, c(vm, a, 1)?, c(vm, a, 2)?, c(vm, a, 3)?);
    let q = vm.malloc(m, al)?;
    vm.copy(q, p, n.min(m))?;
    vm.dealloc(p, n, al);
    ok(q)
}
// C allocator: 16-byte header with the size
fn malloc(vm: &mut Vm, a: &[V]) -> R<[V; 2]> {
    let n = c(vm, a, 0)?;
    let p = vm.malloc(n + 16, 16)?;
    vm.store(p, V::k(n), 64)?;
    ok(p + 16)
}
fn calloc(vm: &mut Vm, a: &[V]) -> R<[V; 2]> {
    let n = c(vm, a, 0)?.wrapping_mul(c(vm, a, 1)?);
    let p = vm.malloc(n + 16, 16)?;
    vm.store(p, V::k(n), 64)?;
    vm.fill(p + 16, Z, n)?;
    ok(p + 16)
}
fn free(vm: &mut Vm, a: &[V]) -> R<[V; 2]> {
    let p = c(vm, a, 0)?;
    if p != 0 {
        let n = vm.load(p - 16, 64)?.c;
        vm.dealloc(p - 16, n + 16, 16);
    }
    ok(0)
}
fn realloc(vm: &mut Vm, a: &[V]) -> R<[V; 2]> {
    let (p, m) = (c(vm, a, 0)?, c(vm, a, 1)?);
    let q = vm.malloc(m + 16, 16)?;
    vm.store(q, V::k(m), 64)?;
    if p != 0 {
        let n = vm.load(p - 16, 64)?.c;
        vm.copy(q + 16, p, n.min(m))?;
        vm.dealloc(p - 16, n + 16, 16);
    }
    ok(q + 16)
}
fn posix_memalign(vm: &mut Vm, a: &[V]) -> R<[V; 2]> {
    let (o, al, n) = (c(vm, a, 0)?, c(vm, a, 1)?, c(vm, a, 2)?);
    let al = al.max(16);
    let p = vm.malloc(n + al, al)? + al;
    vm.store(p - 16, V::k(n), 64)?;
    vm.store(o, V::k(p), 64)?;
    ok(0)
}

// ---------------------------------------------------------------- strings

fn bcmp(vm: &mut Vm, a: &[V]) -> R<[V; 2]> {
    let (p, q, n) = (c(vm, a, 0)?, c(vm, a, 1)?, c(vm, a, 2)?);
    let x = bytes_v(vm, p, n)?;
    let y = bytes_v(vm, q, n)?;
    vm.executed += n;
    let e = eq_v(vm, &x, &y);
    let ne = vm.bin(Bop::Xor, 1, e, V::k(1));
    let r = vm.zext(ne, 1, 32);
    okv(r)
}
fn memcmp(vm: &mut Vm, a: &[V]) -> R<[V; 2]> {
    let (p, q, n) = (c(vm, a, 0)?, c(vm, a, 1)?, c(vm, a, 2)?);
    vm.executed += n;
    for i in 0..n {
        let x = vm.load(p + i, 8)?;
        let y = vm.load(q + i, 8)?;
        let e = vm.icmp(Pred::Eq, 8, x, y);
        if !vm.truth(e)? {
            let l = vm.icmp(Pred::Ult, 8, x, y);
            return ok(if vm.truth(l)? { 0xffff_ffff } else { 1 });
        }
    }
    ok(0)
}
fn strlen(vm: &mut Vm, a: &[V]) -> R<[V; 2]> {
    let p = c(vm, a, 0)?;
    let s = cstr_v(vm, p)?;
    ok(s.len() as u64)
}
fn memcpy(vm: &mut Vm, a: &[V]) -> R<[V; 2]> {
    let (d, s, n) = (c(vm, a, 0)?, c(vm, a, 1)?, c(vm, a, 2)?);
    vm.copy(d, s, n)?;
    ok(d)
}
fn memset(vm: &mut Vm, a: &[V]) -> R<[V; 2]> {
    let (d, n) = (c(vm, a, 0)?, c(vm, a, 2)?);
    let v = vm.trunc(a[1], 8);
    vm.fill(d, v, n)?;
    ok(d)
}

// ---------------------------------------------------------------- process

fn abort(_: &mut Vm, _: &[V]) -> R<[V; 2]> {
    Err(Stop::Abort)
}
fn exit(vm: &mut Vm, a: &[V]) -> R<[V; 2]> {
    let x = c32(vm, a, 0)?;
    Err(Stop::Exit(x as i32))
}
fn zero(_: &mut Vm, _: &[V]) -> R<[V; 2]> {
    ok(0)
}
fn one(_: &mut Vm, _: &[V]) -> R<[V; 2]> {
    ok(1)
}
fn enosys(vm: &mut Vm, _: &[V]) -> R<[V; 2]> {
    neg1(vm, 38)
}
fn enosys32(vm: &mut Vm, _: &[V]) -> R<[V; 2]> {
    neg1_32(vm, 38)
}
fn sysconf(_: &mut Vm, a: &[V]) -> R<[V; 2]> {
    ok(match a[0].c {
        30 => 4096,
        _ => 200,
    })
}
fn getcwd(vm: &mut Vm, a: &[V]) -> R<[V; 2]> {
    let p = c(vm, a, 0)?;
    vm.write_bytes(p, b"/w\0")?;
    ok(p)
}
fn write_fd(vm: &mut Vm, fd: u64, data: Vec<V>) -> R<[V; 2]> {
    let n = data.len() as u64;
    match fd {
        1 => vm.stdout.extend_from_slice(&data),
        2 => vm.stderr.extend_from_slice(&data),
        _ => {
            let i = fd as usize - 3;
            match vm.fs.fds.get_mut(i) {
                Some(Some(Fd::File { n: nd, pos, wr: true, app, .. })) => {
                    let (nd, app) = (*nd, *app);
                    let f = &mut vm.fs.nodes[nd];
                    if app {
                        *pos = f.data.len();
                    }
                    f.touched += 1;
                    while f.data.len() < *pos {
                        f.data.push(Z);
                    }
                    let keep = f.data.len().saturating_sub(*pos).min(data.len());
                    for k in 0..keep {
                        f.data[*pos + k] = data[k];
                    }
                    f.data.extend_from_slice(&data[keep..]);
                    *pos += data.len();
                }
                _ => return neg1(vm, 9),
            }
        }
    }
    ok(n)
}
fn write(vm: &mut Vm, a: &[V]) -> R<[V; 2]> {
    let (fd, p, n) = (c32(vm, a, 0)?, c(vm, a, 1)?, c(vm, a, 2)?);
    let d = bytes_v(vm, p, n)?;
    write_fd(vm, fd, d)
}
fn writev(vm: &mut Vm, a: &[V]) -> R<[V; 2]> {
    let (fd, p, n) = (c32(vm, a, 0)?, c(vm, a, 1)?, c32(vm, a, 2)?);
    let mut d = vec![];
    for i in 0..n {
        let b = vm.load(p + 16 * i, 64)?;
        let b = vm.conc(b, 64)?;
        let l = vm.load(p + 16 * i + 8, 64)?;
        let l = vm.conc(l, 64)?;
        d.extend(bytes_v(vm, b, l)?);
    }
    write_fd(vm, fd, d)
}
fn read(vm: &mut Vm, a: &[V]) -> R<[V; 2]> {
    let (fd, p, n) = (c32(vm, a, 0)?, c(vm, a, 1)?, c(vm, a, 2)?);
    if fd < 3 {
        return ok(0);
    }
    match vm.fs.fds.get_mut(fd as usize - 3) {
        Some(Some(Fd::File { n: nd, pos, rd: true, .. })) => {
            let f = &vm.fs.nodes[*nd];
            if f.dir {
                return neg1(vm, 21);
            }
            let s = (*pos).min(f.data.len());
            let e = (s + n as usize).min(f.data.len());
            let d = f.data[s..e].to_vec();
            *pos = e;
            store_v(vm, p, &d)?;
            ok(d.len() as u64)
        }
        _ => neg1(vm, 9),
    }
}
fn lseek(vm: &mut Vm, a: &[V]) -> R<[V; 2]> {
    let (fd, o, w) = (c32(vm, a, 0)?, c(vm, a, 1)?, c32(vm, a, 2)?);
    if fd < 3 {
        return neg1(vm, 29);
    }
    match vm.fs.fds.get_mut(fd as usize - 3) {
        Some(Some(Fd::File { n: nd, pos, .. })) => {
            let base = match w {
                0 => 0,
                1 => *pos as i64,
                _ => vm.fs.nodes[*nd].data.len() as i64,
            };
            let x = base + o as i64;
            if x < 0 {
                return neg1(vm, 22);
            }
            *pos = x as usize;
            ok(x as u64)
        }
        _ => neg1(vm, 9),
    }
}
fn ftruncate(vm: &mut Vm, a: &[V]) -> R<[V; 2]> {
    let (fd, n) = (c32(vm, a, 0)?, c(vm, a, 1)?);
    match vm.fs.fds.get((fd as usize).wrapping_sub(3)) {
        Some(Some(Fd::File { n: nd, wr: true, .. })) => {
            let nd = *nd;
            vm.fs.nodes[nd].data.resize(n as usize, Z);
            vm.fs.nodes[nd].touched += 1;
            ok(0)
        }
        _ => neg1_32(vm, 9),
    }
}
fn close(vm: &mut Vm, a: &[V]) -> R<[V; 2]> {
    let fd = c32(vm, a, 0)? as usize;
    if fd >= 3 && fd - 3 < vm.fs.fds.len() {
        vm.fs.fds[fd - 3] = None;
    }
    ok(0)
}
fn fsync(_: &mut Vm, _: &[V]) -> R<[V; 2]> {
    ok(0)
}

/// The name under which the file system keeps a path, relative to the working directory `/w`:
/// empty components, "." and ".." are resolved (separators in scenario paths are concrete)
fn norm(vm: &mut Vm, p: Vec<V>) -> R<Vec<V>> {
    let mut p = p;
    while p.len() >= 2 {
        let l = p[p.len() - 1];
        let q = vm.icmp(Pred::Eq, 8, l, V::k(b'/' as u64));
        if !vm.truth(q)? {
            break;
        }
        p.pop();
    }
    if p.is_empty() {
        return Ok(p);
    }
    let is = |x: &[V], s: &[u8]| x.len() == s.len() && x.iter().zip(s).all(|(a, b)| a.e == 0 && a.c == *b as u64);
    let sep = |x: &V| x.e == 0 && x.c == b'/' as u64;
    let abs = sep(&p[0]);
    let mut parts: Vec<Vec<V>> = if abs { vec![] } else { vec![vec![V::k(b'w' as u64)]] };
    for c in p.split(sep) {
        if c.is_empty() || is(c, b".") {
            continue;
        }
        if is(c, b"..") {
            parts.pop();
            continue;
        }
        parts.push(c.to_vec());
    }
    let rel = !parts.is_empty() && is(&parts[0], b"w");
    let mut out = vec![];
    for c in parts.iter().skip(rel as usize) {
        if !out.is_empty() || !rel {
            out.push(V::k(b'/' as u64));
        }
        out.extend_from_slice(c);
    }
    if out.is_empty() {
        out.push(V::k(if rel { b'.' } else { b'/' } as u64));
    }
    Ok(out)
}
/// `realpath`: the absolute name of something that exists
fn realpath(vm: &mut Vm, a: &[V]) -> R<[V; 2]> {
    let (p, o) = (c(vm, a, 0)?, c(vm, a, 1)?);
    let path = cstr_v(vm, p)?;
    match lookup(vm, &path)? {
        Look::Missing => return null(vm, 2),
        Look::NotDir => return null(vm, 20),
        _ => {}
    }
    let q = norm(vm, path)?;
    let mut r: Vec<V> = vec![];
    if !(q[0].e == 0 && q[0].c == b'/' as u64) {
        r.extend(b"/w".iter().map(|b| V::k(*b as u64)));
        if !(q.len() == 1 && q[0].e == 0 && q[0].c == b'.' as u64) {
            r.push(V::k(b'/' as u64));
            r.extend(q);
        }
    } else {
        r.extend(q);
    }
    r.push(Z);
    let o = if o == 0 { malloc(vm, &[V::k(r.len() as u64)])?[0].c } else { o };
    store_v(vm, o, &r)?;
    ok(o)
}
fn mkdir(vm: &mut Vm, a: &[V]) -> R<[V; 2]> {
    let p = c(vm, a, 0)?;
    let path = cstr_v(vm, p)?;
    match lookup(vm, &path)? {
        Look::Missing => {}
        Look::NotDir => return neg1_32(vm, 20),
        _ => return neg1_32(vm, 17),
    }
    let path = norm(vm, path)?;
    vm.fs.nodes.push(FNode { path, dir: true, live: true, touched: 1, ..Default::default() });
    ok(0)
}
/// only directories that hold nothing can be removed
fn rmdir(vm: &mut Vm, a: &[V]) -> R<[V; 2]> {
    let p = c(vm, a, 0)?;
    let path = cstr_v(vm, p)?;
    match lookup(vm, &path)? {
        Look::Node(i) if vm.fs.nodes[i].dir => {
            let q = vm.fs.nodes[i].path.clone();
            for k in 0..vm.fs.nodes.len() {
                let n = vm.fs.nodes[k].path.clone();
                if vm.fs.nodes[k].live && n.len() > q.len() && n[q.len()].e == 0 && n[q.len()].c == b'/' as u64 {
                    let e = eq_v(vm, &n[..q.len()], &q);
                    if vm.truth(e)? {
                        return neg1_32(vm, 39);
                    }
                }
            }
            vm.fs.nodes[i].live = false;
            ok(0)
        }
        Look::Missing => neg1_32(vm, 2),
        _ => neg1_32(vm, 20),
    }
}
/// descriptor flags only: copies that share a position are not modelled
fn fcntl(vm: &mut Vm, a: &[V]) -> R<[V; 2]> {
    match c32(vm, a, 1)? {
        0 | 1030 => Err(Stop::Unsupported("a copied file descriptor".into())),
        _ => ok(0),
    }
}
enum Look {
    Node(usize),
    Missing,
    NotDir,
    Cwd,
}
fn lookup(vm: &mut Vm, p: &[V]) -> R<Look> {
    let p = norm(vm, p.to_vec())?;
    if p.len() == 1 && p[0].e == 0 && p[0].c == b'.' as u64 {
        return Ok(Look::Cwd);
    }
    for i in 0..vm.fs.nodes.len() {
        if !vm.fs.nodes[i].live {
            continue;
        }
        let q = vm.fs.nodes[i].path.clone();
        let e = eq_v(vm, &q, &p);
        if vm.truth(e)? {
            return Ok(Look::Node(i));
        }
        // a file used as a directory
        if !vm.fs.nodes[i].dir && q.len() < p.len() && p[q.len()].e == 0 && p[q.len()].c == b'/' as u64 {
            let e = eq_v(vm, &q, &p[..q.len()]);
            if vm.truth(e)? {
                return Ok(Look::NotDir);
            }
        }
    }
    Ok(Look::Missing)
}
fn open_path(vm: &mut Vm, p: u64, flags: u64) -> R<[V; 2]> {
    let path = cstr_v(vm, p)?;
    let acc = flags & 3;
    let (rd, wr) = (acc == 0 || acc == 2, acc == 1 || acc == 2);
    let n = match lookup(vm, &path)? {
        Look::Node(i) => {
            let f = &vm.fs.nodes[i];
            if f.dir && wr {
                return neg1_32(vm, 21);
            }
            if !f.dir && flags & 0x10000 != 0 {
                return neg1_32(vm, 20);
            }
            if flags & 0xc0 == 0xc0 {
                return neg1_32(vm, 17);
            }
            if (rd && f.noread) || (wr && f.nowrite) {
                return neg1_32(vm, 13);
            }
            i
        }
        Look::NotDir => return neg1_32(vm, 20),
        Look::Cwd => return neg1_32(vm, 21),
        Look::Missing => {
            if flags & 0x40 == 0 {
                return neg1_32(vm, 2);
            }
            let path = norm(vm, path)?;
            vm.fs.nodes.push(FNode { path, live: true, touched: 1, ..Default::default() });
            vm.fs.nodes.len() - 1
        }
    };
    if flags & 0x200 != 0 && wr {
        vm.fs.nodes[n].data.clear();
        vm.fs.nodes[n].touched += 1;
    }
    let fd = Fd::File { n, pos: 0, rd, wr, app: flags & 0x400 != 0 };
    let fds = &mut vm.fs.fds;
    let k = fds.iter().position(|x| x.is_none()).unwrap_or_else(|| {
        fds.push(None);
        fds.len() - 1
    });
    fds[k] = Some(fd);
    ok(k as u64 + 3)
}
fn open(vm: &mut Vm, a: &[V]) -> R<[V; 2]> {
    let (p, f) = (c(vm, a, 0)?, c32(vm, a, 1)?);
    open_path(vm, p, f)
}
fn openat(vm: &mut Vm, a: &[V]) -> R<[V; 2]> {
    let (p, f) = (c(vm, a, 1)?, c32(vm, a, 2)?);
    open_path(vm, p, f)
}
fn unlink(vm: &mut Vm, a: &[V]) -> R<[V; 2]> {
    let p = c(vm, a, 0)?;
    let path = cstr_v(vm, p)?;
    match lookup(vm, &path)? {
        Look::Node(i) if !vm.fs.nodes[i].dir => {
            vm.fs.nodes[i].live = false;
            ok(0)
        }
        _ => neg1_32(vm, 2),
    }
}
fn rename(vm: &mut Vm, a: &[V]) -> R<[V; 2]> {
    let (p, q) = (c(vm, a, 0)?, c(vm, a, 1)?);
    let p = cstr_v(vm, p)?;
    let q = cstr_v(vm, q)?;
    let s = match lookup(vm, &p)? {
        Look::Node(i) => i,
        _ => return neg1_32(vm, 2),
    };
    if let Look::Node(t) = lookup(vm, &q)? {
        if t == s {
            return ok(0);
        }
        let d = vm.fs.nodes[s].data.clone();
        vm.fs.nodes[t].data = d;
        vm.fs.nodes[t].touched += 1;
        vm.fs.nodes[s].live = false;
    } else {
        let q = norm(vm, q)?;
        vm.fs.nodes[s].path = q;
        vm.fs.nodes[s].touched += 1;
    }
    ok(0)
}

struct St {
    mode: u64,
    size: u64,
    ino: u64,
}
fn st_node(vm: &Vm, i: usize) -> St {
    let f = &vm.fs.nodes[i];
    St { mode: if f.dir { 0o40755 } else { 0o100644 }, size: if f.dir { 4096 } else { f.data.len() as u64 }, ino: 100 + i as u64 }
}
fn st_path(vm: &mut Vm, p: &[V]) -> R<Result<St, u64>> {
    Ok(match lookup(vm, p)? {
        Look::Node(i) => Ok(st_node(vm, i)),
        Look::Cwd => Ok(St { mode: 0o40755, size: 4096, ino: 99 }),
        Look::Missing => Err(2),
        Look::NotDir => Err(20),
    })
}
fn st_fd(vm: &mut Vm, fd: u64) -> Result<St, u64> {
    if fd < 3 {
        return Ok(St { mode: 0o10600, size: 0, ino: 1 });
    }
    match vm.fs.fds.get(fd as usize - 3) {
        Some(Some(Fd::File { n, .. })) | Some(Some(Fd::Dir { n, .. })) => Ok(if *n == usize::MAX {
            St { mode: 0o40755, size: 4096, ino: 99 }
        } else {
            st_node(vm, *n)
        }),
        _ => Err(9),
    }
}
fn put_stat(vm: &mut Vm, p: u64, s: &St) -> R<()> {
    vm.fill(p, Z, 144)?;
    vm.store(p, V::k(1), 64)?;
    vm.store(p + 8, V::k(s.ino), 64)?;
    vm.store(p + 16, V::k(1), 64)?;
    vm.store(p + 24, V::k(s.mode), 32)?;
    vm.store(p + 48, V::k(s.size), 64)?;
    vm.store(p + 56, V::k(4096), 64)
}
fn stat(vm: &mut Vm, a: &[V]) -> R<[V; 2]> {
    let (p, o) = (c(vm, a, 0)?, c(vm, a, 1)?);
    let path = cstr_v(vm, p)?;
    match st_path(vm, &path)? {
        Ok(s) => {
            put_stat(vm, o, &s)?;
            ok(0)
        }
        Err(e) => neg1_32(vm, e),
    }
}
fn fstat(vm: &mut Vm, a: &[V]) -> R<[V; 2]> {
    let (fd, o) = (c32(vm, a, 0)?, c(vm, a, 1)?);
    match st_fd(vm, fd) {
        Ok(s) => {
            put_stat(vm, o, &s)?;
            ok(0)
        }
        Err(e) => neg1_32(vm, e),
    }
}
fn statx(vm: &mut Vm, a: &[V]) -> R<[V; 2]> {
    let (fd, p, fl, o) = (c32(vm, a, 0)?, c(vm, a, 1)?, c32(vm, a, 2)?, c(vm, a, 4)?);
    if p == 0 || o == 0 {
        return neg1_32(vm, 14);
    }
    let path = cstr_v(vm, p)?;
    let s = if path.is_empty() && fl & 0x1000 != 0 { st_fd(vm, fd) } else { st_path(vm, &path)? };
    match s {
        Ok(s) => {
            vm.fill(o, Z, 256)?;
            vm.store(o, V::k(0x7ff), 32)?;
            vm.store(o + 4, V::k(4096), 32)?;
            vm.store(o + 16, V::k(1), 32)?;
            vm.store(o + 28, V::k(s.mode), 16)?;
            vm.store(o + 32, V::k(s.ino), 64)?;
            vm.store(o + 40, V::k(s.size), 64)?;
            ok(0)
        }
        Err(e) => neg1_32(vm, e),
    }
}
fn opendir(vm: &mut Vm, a: &[V]) -> R<[V; 2]> {
    let p = c(vm, a, 0)?;
    let path = cstr_v(vm, p)?;
    let (n, prefix) = match lookup(vm, &path)? {
        Look::Node(i) => {
            if !vm.fs.nodes[i].dir {
                return null(vm, 20);
            }
            if vm.fs.nodes[i].noread {
                return null(vm, 13);
            }
            let mut q = vm.fs.nodes[i].path.clone();
            q.push(V::k(b'/' as u64));
            (i, q)
        }
        Look::Cwd => (usize::MAX, vec![]),
        Look::NotDir => return null(vm, 20),
        Look::Missing => return null(vm, 2),
    };
    let mut list = vec![];
    for i in 0..vm.fs.nodes.len() {
        if !vm.fs.nodes[i].live {
            continue;
        }
        let q = vm.fs.nodes[i].path.clone();
        if q.len() <= prefix.len() {
            continue;
        }
        let e = eq_v(vm, &q[..prefix.len()], &prefix);
        if !vm.truth(e)? {
            continue;
        }
        // direct children only; separators in scenario paths are concrete
        if q[prefix.len()..].iter().any(|x| x.e == 0 && x.c == b'/' as u64) {
            continue;
        }
        list.push(i);
    }
    let buf = vm.malloc(288, 16)?;
    let fds = &mut vm.fs.fds;
    let k = fds.iter().position(|x| x.is_none()).unwrap_or_else(|| {
        fds.push(None);
        fds.len() - 1
    });
    fds[k] = Some(Fd::Dir { n, list, pos: 0, buf });
    // the DIR* handle: its first word is the descriptor
    let h = vm.malloc(16, 16)?;
    vm.store(h, V::k(k as u64 + 3), 64)?;
    ok(h)
}
fn readdir(vm: &mut Vm, a: &[V]) -> R<[V; 2]> {
    let h = c(vm, a, 0)?;
    let fd = vm.load(h, 64)?.c as usize - 3;
    let (nd, plen, buf) = match &mut vm.fs.fds[fd] {
        Some(Fd::Dir { n, list, pos, buf }) => {
            if *pos >= list.len() {
                return ok(0);
            }
            *pos += 1;
            let plen = if *n == usize::MAX { 0 } else { vm.fs.nodes[*n].path.len() + 1 };
            (list[*pos - 1], plen, *buf)
        }
        _ => return null(vm, 9),
    };
    let name = vm.fs.nodes[nd].path[plen..].to_vec();
    vm.fill(buf, Z, 288)?;
    vm.store(buf, V::k(100 + nd as u64), 64)?;
    vm.store(buf + 16, V::k(280), 16)?;
    let ty = if vm.fs.nodes[nd].dir { 4 } else { 8 };
    vm.store(buf + 18, V::k(ty), 8)?;
    store_v(vm, buf + 19, &name)?;
    ok(buf)
}
fn dirfd(vm: &mut Vm, a: &[V]) -> R<[V; 2]> {
    let h = c(vm, a, 0)?;
    let x = vm.load(h, 64)?;
    ok(x.c)
}
fn closedir(vm: &mut Vm, a: &[V]) -> R<[V; 2]> {
    let h = c(vm, a, 0)?;
    let fd = vm.load(h, 64)?.c as usize - 3;
    vm.fs.fds[fd] = None;
    ok(0)
}
fn errno_location(vm: &mut Vm, _: &[V]) -> R<[V; 2]> {
    let a = errno_addr(vm)?;
    ok(a)
}
fn strerror_r(vm: &mut Vm, a: &[V]) -> R<[V; 2]> {
    let (e, p) = (c32(vm, a, 0)?, c(vm, a, 1)?);
    let m: &[u8] = match e {
        2 => b"No such file or directory\0",
        13 => b"Permission denied\0",
        20 => b"Not a directory\0",
        21 => b"Is a directory\0",
        _ => b"Error\0",
    };
    vm.write_bytes(p, m)?;
    ok(0)
}
fn mmap(vm: &mut Vm, a: &[V]) -> R<[V; 2]> {
    let n = c(vm, a, 1)?;
    let p = vm.malloc(n, 4096)?;
    vm.fill(p, Z, n)?;
    ok(p)
}
fn syscall(vm: &mut Vm, a: &[V]) -> R<[V; 2]> {
    // getrandom fills with a constant; everything else is not available
    if a[0].c == 318 {
        let (p, n) = (c(vm, a, 1)?, c(vm, a, 2)?);
        vm.fill(p, V::k(0x5a), n)?;
        return ok(n);
    }
    neg1(vm, 38)
}
fn getrandom(vm: &mut Vm, a: &[V]) -> R<[V; 2]> {
    let (p, n) = (c(vm, a, 0)?, c(vm, a, 1)?);
    vm.fill(p, V::k(0x5a), n)?;
    ok(n)
}
fn clock(vm: &mut Vm, a: &[V]) -> R<[V; 2]> {
    let p = c(vm, a, 1)?;
    vm.executed += 1;
    let t = 1000 + vm.executed / 1000;
    vm.store(p, V::k(t), 64)?;
    vm.store(p + 8, Z, 64)?;
    ok(0)
}
fn missing(vm: &mut Vm, _: &[V]) -> R<[V; 2]> {
    Err(Stop::Unsupported(format!("external function called in {}", vm.where_())))
}
fn stub_ok(_: &mut Vm, _: &[V]) -> R<[V; 2]> {
    ok(0)
}
fn deferred_assert(vm: &mut Vm, _: &[V]) -> R<[V; 2]> {
    Err(Stop::Fault(format!("unwinding called in {}", vm.where_())))
}

/// panics whose message would only branch on symbolic data
fn panic_short(vm: &mut Vm, _: &[V]) -> R<[V; 2]> {
    for b in b"slice or index out of range" {
        vm.stderr.push(V::k(*b as u64));
    }
    Err(Stop::Abort)
}

pub fn table(m: &Module, stubs: &[String]) -> Vec<Option<ExtFn>> {
    let mut t: Vec<Option<ExtFn>> = vec![];
    for f in &m.funcs {
        let n = f.name.as_str();
        let e: Option<ExtFn> = if stubs.iter().any(|s| s.split('*').all(|p| n.contains(p))) {
            Some(stub_ok)
        } else if n.contains("slice_error_fail") || n.contains("panic_bounds_check") || n.contains("slice_index_fail") {
            Some(panic_short)
        } else if n.ends_with("___rust_alloc") || n == "__rust_alloc" {
            Some(rust_alloc)
        } else if n.ends_with("___rust_dealloc") || n == "__rust_dealloc" {
            Some(rust_dealloc)
        } else if n.ends_with("___rust_realloc") || n == "__rust_realloc" {
            Some(rust_realloc)
        } else if n.ends_with("___rust_alloc_zeroed") || n == "__rust_alloc_zeroed" {
            Some(rust_alloc_zeroed)
        } else if n.ends_with("_no_alloc_shim_is_unstable_v2") {
            Some(zero)
        } else {
            match n {
                "memcpy" | "memmove" => Some(memcpy),
                "memset" => Some(memset),
                "bcmp" => Some(bcmp),
                "memcmp" => Some(memcmp),
                "strlen" => Some(strlen),
                _ if f.body.is_some() => None,
                "vm_sym" => Some(vm_sym),
                "vm_sym_mask" => Some(vm_sym_mask),
                "vm_assume" => Some(vm_assume),
                "vm_check" => Some(vm_check),
                "vm_conc" => Some(vm_conc),
                "vm_try" => Some(vm_try),
                "vm_out" => Some(vm_out),
                "vm_out_clear" => Some(vm_out_clear),
                "vm_exit_code" => Some(vm_exit_code),
                "vm_cover" => Some(vm_cover),
                "vm_prune" => Some(vm_prune),
                "vm_param" => Some(vm_param),
                "vm_symbolic" => Some(vm_symbolic),
                "vm_note" => Some(vm_note),
                "vm_steps" => Some(vm_steps),
                "fs_add" => Some(fs_add),
                "fs_len" => Some(fs_len),
                "fs_data" => Some(fs_data),
                "fs_touched" => Some(fs_touched),
                "fs_count" => Some(fs_count),
                "malloc" => Some(malloc),
                "calloc" => Some(calloc),
                "free" => Some(free),
                "realloc" => Some(realloc),
                "posix_memalign" | "aligned_alloc" => Some(posix_memalign),
                "abort" => Some(abort),
                "exit" | "_exit" => Some(exit),
                "write" => Some(write),
                "writev" => Some(writev),
                "read" => Some(read),
                "lseek64" | "lseek" => Some(lseek),
                "ftruncate64" | "ftruncate" => Some(ftruncate),
                "fsync" | "fdatasync" | "fchmod" | "chmod" | "flock" => Some(fsync),
                "close" => Some(close),
                "open64" | "open" => Some(open),
                "openat64" | "openat" => Some(openat),
                "unlink" => Some(unlink),
                "rename" => Some(rename),
                "stat64" | "stat" | "lstat64" | "lstat" => Some(stat),
                "fstat64" | "fstat" => Some(fstat),
                "statx" => Some(statx),
                "opendir" => Some(opendir),
                "readdir64" | "readdir" => Some(readdir),
                "dirfd" => Some(dirfd),
                "closedir" => Some(closedir),
                "__errno_location" => Some(errno_location),
                "__xpg_strerror_r" => Some(strerror_r),
                "mmap64" | "mmap" => Some(mmap),
                "munmap" | "mprotect" => Some(zero),
                "syscall" => Some(syscall),
                "getrandom" => Some(getrandom),
                "clock_gettime" => Some(clock),
                "getcwd" => Some(getcwd),
                "sysconf" => Some(sysconf),
                "realpath" => Some(realpath),
                "mkdir" => Some(mkdir),
                "rmdir" => Some(rmdir),
                "fcntl" => Some(fcntl),
                "readlink" | "sendfile64" | "sendfile" | "copy_file_range" | "splice" => Some(enosys),
                "link" | "linkat" | "symlink" => Some(enosys32),
                "utimensat" | "futimens" | "fchown" | "chown" | "lchown" => Some(fsync),
                "getenv" | "getauxval" | "poll" | "sigaction" | "sigaltstack" | "signal"
                | "pthread_attr_destroy" | "pthread_attr_init" | "pthread_attr_getstack" | "dl_iterate_phdr"
                | "_Unwind_Backtrace" | "__cxa_thread_atexit_impl" | "dup" | "isatty" | "pthread_sigmask"
                | "pthread_key_create" | "pthread_setspecific" | "sigemptyset" => Some(zero),
                "pthread_getattr_np" => Some(one),
                "pthread_self" | "gettid" | "getpid" => Some(one),
                "_Unwind_Resume" | "_Unwind_RaiseException" => Some(deferred_assert),
                _ if n.starts_with("llvm.") => None,
                _ => Some(missing),
            }
        };
        t.push(e);
    }
    t
}
