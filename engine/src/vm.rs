//! Concolic interpreter for the lowered IR: every value carries its concrete part and,
//! if it depends on symbolic bytes, an expression.
use crate::expr::*;
use crate::ir::*;
use std::sync::Arc;

pub const ARENA: usize = 512 << 20;
pub const STACK_SIZE: u64 = 16 << 20;

#[derive(Debug, Clone)]
pub enum Stop {
    /// entry function returned
    Done,
    Exit(i32),
    Abort,
    /// path infeasible under an assumption / given up on purpose
    Killed,
    Pruned(u32),
    /// property assertion concretely false
    Check(u32),
    Hang,
    Oom,
    Fault(String),
    Unsupported(String),
}
pub type R<T> = Result<T, Stop>;

#[derive(Clone, Default, Debug)]
pub struct Item {
    pub model: Vec<u8>,
    pub from: usize,
    pub excl: Vec<u64>,
    pub hash: u64,
    /// events at which the solver gave up and the bytes involved are enumerated
    pub hard: Vec<u32>,
}

#[derive(Clone, Debug)]
pub struct Found {
    pub id: u32,
    pub kind: &'static str,
    pub msg: String,
    pub model: Vec<u8>,
    pub notes: String,
}

pub struct Frame {
    f: *const Func,
    fidx: u32,
    pc: u32,
    base: u32,
    sp: u64,
    ret_d: u32,
    try_mark: bool,
}

pub struct TrySave {
    frames: usize,
    globals: Vec<u8>,
    gshadow: Vec<u32>,
    dst: u32,
    base: u32,
    sp: u64,
}

pub struct Shared {
    pub m: Module,
    pub ext: Vec<Option<crate::ext::ExtFn>>,
    pub stub: Vec<bool>,
    pub params: Vec<u64>,
    pub cap: u64,
    pub main: u32,
    pub entry_args: Vec<u64>,
    pub mofmt: Vec<bool>,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub paths: u64,
    pub done: u64,
    pub killed: u64,
    pub pruned: Vec<u64>,
    pub instrs: u64,
    pub max_instrs: u64,
    pub decisions: u64,
    pub max_decisions: u64,
    pub checks_concrete: u64,
    pub checks_solved: u64,
    pub caught_aborts: u64,
    pub max_vars: u64,
    pub covers: Vec<u64>,
    pub unknown: u64,
    /// conditions decided by enumerating the bytes they depend on
    pub spelled: u64,
}

pub struct Vm {
    pub sh: Arc<Shared>,
    pub mem: *mut u8,
    pub shadow: *mut u32,
    pub flags: *mut u8,
    pub flagged: Vec<u32>,
    regs: Vec<V>,
    frames: Vec<Frame>,
    trys: Vec<TrySave>,
    sp: u64,
    heap: u64,
    heap_base: u64,
    free: Vec<Vec<u64>>,
    pub ex: Exprs,
    pub path: Path,
    pub model: Vec<u8>,
    pub nvars: usize,
    pub item: Item,
    ndec: usize,
    nev: u32,
    hash: u64,
    pub out: Vec<Item>,
    pub found: Vec<Found>,
    pub st: Stats,
    pub cov: Vec<u8>,
    pub fdone: Vec<u8>,
    pub executed: u64,
    pub notes: Vec<u8>,
    pub stdout: Vec<V>,
    pub stderr: Vec<V>,
    pub last_exit: i32,
    pub try_kind: u64,
    pub fs: crate::ext::Fs,
    pub covers_seen: Vec<u64>,
    pub note_enabled: bool,
    pub seed: u64,
    pub errno: u64,
    pub allow_all: bool,
    pub trace_calls: bool,
    pub pending_dst: u32,
}
unsafe impl Send for Vm {}

fn mmap(n: usize) -> *mut u8 {
    extern "C" {
        fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    }
    // PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE
    let p = unsafe { mmap(std::ptr::null_mut(), n, 3, 0x4022, -1, 0) };
    assert!(p as isize != -1, "mmap failed");
    p
}

impl Vm {
    pub fn new(sh: Arc<Shared>) -> Vm {
        let mem = mmap(ARENA);
        let shadow = mmap(ARENA * 4) as *mut u32;
        let flags = mmap(ARENA / 64);
        let nf = sh.m.funcs.len();
        unsafe {
            std::ptr::copy_nonoverlapping(sh.m.image.as_ptr(), mem.add(GLOBAL_BASE as usize), sh.m.image.len());
        }
        Vm {
            sh,
            mem,
            shadow,
            flags,
            flagged: vec![],
            regs: vec![V::k(0); 1 << 20],
            frames: vec![],
            trys: vec![],
            sp: 0,
            heap: 0,
            heap_base: 0,
            free: vec![vec![]; 1024],
            ex: Exprs::new(),
            path: Path::default(),
            model: vec![0; 256],
            nvars: 0,
            item: Item::default(),
            ndec: 0,
            nev: 0,
            hash: 0,
            out: vec![],
            found: vec![],
            st: Stats { pruned: vec![0; 16], covers: vec![0; 256], ..Default::default() },
            cov: vec![],
            fdone: vec![0; nf],
            executed: 0,
            notes: vec![],
            stdout: vec![],
            stderr: vec![],
            last_exit: 0,
            try_kind: 0,
            fs: Default::default(),
            covers_seen: vec![],
            note_enabled: true,
            seed: 1,
            errno: 0,
            allow_all: false,
            trace_calls: false,
            pending_dst: 0,
        }
    }

    // ------------------------------------------------------------ memory

    #[inline(always)]
    fn chk(&self, a: u64, n: u64) -> R<()> {
        if a < GLOBAL_BASE || a + n > ARENA as u64 {
            return self.fault(a, n);
        }
        Ok(())
    }
    #[cold]
    fn fault(&self, a: u64, n: u64) -> R<()> {
        Err(Stop::Fault(format!("memory access at {a:#x}+{n} in {}", self.where_())))
    }
    pub fn where_(&self) -> String {
        self.frames
            .iter()
            .rev()
            .take(8)
            .map(|f| self.sh.m.funcs[f.fidx as usize].name.clone())
            .collect::<Vec<_>>()
            .join(" < ")
    }
    #[inline(always)]
    unsafe fn flag(&self, a: u64) -> bool {
        *self.flags.add((a >> 6) as usize) != 0
    }
    #[inline(always)]
    unsafe fn set_flag(&mut self, a: u64) {
        let p = self.flags.add((a >> 6) as usize);
        if *p == 0 {
            *p = 1;
            self.flagged.push((a >> 6) as u32);
        }
    }
    #[inline(always)]
    pub fn load(&mut self, a: u64, w: u8) -> R<V> {
        let n = (w as u64 + 7) / 8;
        self.chk(a, 8)?;
        unsafe {
            let c = mask((self.mem.add(a as usize) as *const u64).read_unaligned(), w);
            if !self.flag(a) && !self.flag(a + n - 1) {
                return Ok(V::k(c));
            }
        }
        self.load_slow(a, w)
    }
    #[inline(never)]
    fn load_slow(&mut self, a: u64, w: u8) -> R<V> {
        let n = (w as u64 + 7) / 8;
        unsafe {
            let c = mask((self.mem.add(a as usize) as *const u64).read_unaligned(), w);
            let mut s = [0u32; 8];
            let mut any = false;
            for i in 0..n as usize {
                s[i] = *self.shadow.add(a as usize + i);
                any |= s[i] != 0;
            }
            if !any {
                return Ok(V::k(c));
            }
            let e = s[0] >> 3;
            if s[0] != 0 && s[0] & 7 == 0 && (1..n as usize).all(|i| s[i] == (e << 3 | i as u32)) {
                let nw = self.ex.n[e as usize].w;
                if nw == w {
                    return Ok(V { c, e });
                }
                let full = (self.mem.add(a as usize) as *const u64).read_unaligned();
                if nw > w {
                    let v = V { c: mask(full, nw), e };
                    return Ok(self.ex.op(O::Trunc, w, v, V::k(0), V::k(0), c));
                }
                if (nw as u64 + 7) / 8 == n {
                    let v = V { c: mask(full, nw), e };
                    return Ok(self.ex.op(O::Zext, w, v, V::k(0), V::k(0), c));
                }
            }
            // compose from bytes
            let mut acc = V::k(0);
            for i in 0..n as usize {
                let bc = *self.mem.add(a as usize + i) as u64;
                let b = if s[i] == 0 {
                    V::k(bc)
                } else {
                    let e = s[i] >> 3;
                    let k = (s[i] & 7) as u8;
                    let nw = self.ex.n[e as usize].w;
                    if nw == 8 {
                        V { c: bc, e }
                    } else if nw < 8 {
                        self.ex.op(O::Zext, 8, V { c: mask(bc, nw), e }, V::k(0), V::k(0), mask(bc, nw))
                    } else {
                        self.ex.op(O::Byte(k), 8, V { c: 0, e }, V::k(0), V::k(0), bc)
                    }
                };
                let z = self.zext(b, 8, w);
                let sh = self.bin(Bop::Shl, w, z, V::k(8 * i as u64));
                acc = self.bin(Bop::Or, w, acc, sh);
            }
            if acc.c != c {
                // partial widths (e.g. i1): keep to the concrete memory contents
                return Ok(V { c, e: acc.e });
            }
            Ok(acc)
        }
    }
    #[inline(always)]
    pub fn store(&mut self, a: u64, v: V, w: u8) -> R<()> {
        let n = (w as u64 + 7) / 8;
        self.chk(a, n)?;
        unsafe {
            let p = self.mem.add(a as usize);
            match n {
                1 => *p = v.c as u8,
                2 => (p as *mut u16).write_unaligned(v.c as u16),
                4 => (p as *mut u32).write_unaligned(v.c as u32),
                8 => (p as *mut u64).write_unaligned(v.c),
                _ => {
                    let b = v.c.to_le_bytes();
                    std::ptr::copy_nonoverlapping(b.as_ptr(), p, n as usize)
                }
            }
            if v.e != 0 {
                self.set_flag(a);
                self.set_flag(a + n - 1);
                for i in 0..n {
                    *self.shadow.add((a + i) as usize) = v.e << 3 | i as u32;
                }
            } else if self.flag(a) || self.flag(a + n - 1) {
                for i in 0..n {
                    *self.shadow.add((a + i) as usize) = 0;
                }
            }
        }
        Ok(())
    }
    unsafe fn any_flag(&self, a: u64, n: u64) -> bool {
        if n == 0 {
            return false;
        }
        let mut b = a >> 6;
        let e = (a + n - 1) >> 6;
        while b <= e {
            if *self.flags.add(b as usize) != 0 {
                return true;
            }
            b += 1;
        }
        false
    }
    pub fn copy(&mut self, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        if n > ARENA as u64 {
            return Err(Stop::Oom);
        }
        self.chk(d, n)?;
        self.chk(s, n)?;
        unsafe {
            std::ptr::copy(self.mem.add(s as usize), self.mem.add(d as usize), n as usize);
            if self.any_flag(s, n) {
                std::ptr::copy(self.shadow.add(s as usize), self.shadow.add(d as usize), n as usize);
                let mut b = d & !63;
                while b < d + n {
                    self.set_flag(b);
                    b += 64;
                }
            } else if self.any_flag(d, n) {
                std::ptr::write_bytes(self.shadow.add(d as usize), 0, n as usize);
            }
        }
        Ok(())
    }
    pub fn fill(&mut self, d: u64, v: V, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        if n > ARENA as u64 {
            return Err(Stop::Oom);
        }
        self.chk(d, n)?;
        unsafe {
            std::ptr::write_bytes(self.mem.add(d as usize), v.c as u8, n as usize);
            if v.e != 0 {
                for i in 0..n {
                    self.set_flag(d + i);
                    *self.shadow.add((d + i) as usize) = v.e << 3;
                }
            } else if self.any_flag(d, n) {
                std::ptr::write_bytes(self.shadow.add(d as usize), 0, n as usize);
            }
        }
        Ok(())
    }
    pub fn bytes(&self, a: u64, n: u64) -> R<Vec<u8>> {
        self.chk(a, n)?;
        unsafe { Ok(std::slice::from_raw_parts(self.mem.add(a as usize), n as usize).to_vec()) }
    }
    pub fn write_bytes(&mut self, a: u64, b: &[u8]) -> R<()> {
        for (i, x) in b.iter().enumerate() {
            self.store(a + i as u64, V::k(*x as u64), 8)?;
        }
        Ok(())
    }
    pub fn cstr(&self, a: u64) -> R<Vec<u8>> {
        let mut o = vec![];
        let mut p = a;
        loop {
            self.chk(p, 1)?;
            let b = unsafe { *self.mem.add(p as usize) };
            if b == 0 {
                return Ok(o);
            }
            o.push(b);
            p += 1;
        }
    }
    pub fn malloc(&mut self, n: u64, align: u64) -> R<u64> {
        if n > (ARENA as u64) / 2 {
            return Err(Stop::Oom);
        }
        let sz = (n.max(1) + 15) & !15;
        if align <= 16 && (sz >> 4) < 1024 {
            if let Some(a) = self.free[(sz >> 4) as usize].pop() {
                unsafe {
                    if self.any_flag(a, sz) {
                        std::ptr::write_bytes(self.shadow.add(a as usize), 0, sz as usize);
                    }
                }
                return Ok(a);
            }
        }
        let al = align.max(16);
        let a = (self.heap + al - 1) & !(al - 1);
        if a + sz > ARENA as u64 - 64 {
            return Err(Stop::Oom);
        }
        self.heap = a + sz;
        Ok(a)
    }
    pub fn dealloc(&mut self, a: u64, n: u64, align: u64) {
        let sz = (n.max(1) + 15) & !15;
        if align <= 16 && (sz >> 4) < 1024 {
            self.free[(sz >> 4) as usize].push(a);
        }
    }

    // ------------------------------------------------------------ expression helpers

    #[inline(always)]
    pub fn bin(&mut self, op: Bop, w: u8, a: V, b: V) -> V {
        let c = eval_bin(op, w, a.c, b.c);
        if a.e | b.e == 0 {
            return V::k(c);
        }
        self.ex.op(O::Bin(op), w, a, b, V::k(0), c)
    }
    #[inline(always)]
    pub fn icmp(&mut self, p: Pred, w: u8, a: V, b: V) -> V {
        let c = eval_icmp(p, w, a.c, b.c) as u64;
        if a.e | b.e == 0 {
            return V::k(c);
        }
        self.ex.op(O::Icmp(p, w), 1, a, b, V::k(0), c)
    }
    #[inline(always)]
    pub fn zext(&mut self, a: V, f: u8, t: u8) -> V {
        if a.e == 0 || f == t {
            return a;
        }
        self.ex.op(O::Zext, t, a, V::k(0), V::k(0), a.c)
    }
    fn sext_v(&mut self, a: V, f: u8, t: u8) -> V {
        let c = mask(sext(a.c, f), t);
        if a.e == 0 {
            return V::k(c);
        }
        if f == t {
            return a;
        }
        self.ex.op(O::Sext(f), t, a, V::k(0), V::k(0), c)
    }
    pub fn trunc(&mut self, a: V, t: u8) -> V {
        let c = mask(a.c, t);
        if a.e == 0 {
            return V::k(c);
        }
        if self.ex.n[a.e as usize].w == t {
            return a;
        }
        self.ex.op(O::Trunc, t, a, V::k(0), V::k(0), c)
    }
    pub fn ite(&mut self, c: V, a: V, b: V, w: u8) -> V {
        let r = if c.c & 1 != 0 { a } else { b };
        if c.e == 0 {
            return r;
        }
        match self.ex.implied(c.e, &self.path) {
            Some(true) => return a,
            Some(false) => return b,
            None => {}
        }
        self.ex.op(O::Ite, w, c, a, b, r.c)
    }

    // ------------------------------------------------------------ decisions

    pub fn sym(&mut self, dom: Set) -> R<V> {
        let i = self.nvars;
        if i >= 256 {
            return Err(Stop::Unsupported("more than 256 symbolic bytes".into()));
        }
        self.nvars += 1;
        self.path.dom.push(dom);
        let cnt = count(&dom);
        if cnt == 0 {
            return Err(Stop::Killed);
        }
        if i >= self.item.model.len() || !has(&dom, self.item.model[i] as usize) {
            // default: seeded choice inside the domain
            let k = if self.seed == 0 { 0 } else { (crate::mix(self.seed ^ (i as u64).wrapping_mul(0x9e37)) % cnt as u64) as usize };
            self.model[i] = bits(&dom).nth(k).unwrap() as u8;
        } else {
            self.model[i] = self.item.model[i];
        }
        if cnt == 1 {
            return Ok(V::k(self.model[i] as u64));
        }
        let e = self.ex.var(i as u16);
        Ok(V { c: self.model[i] as u64, e })
    }

    fn cur_model(&self) -> Vec<u8> {
        self.model[..self.nvars].to_vec()
    }

    fn patched(&self, m: &[(u16, u8)]) -> Vec<u8> {
        let mut o = self.cur_model();
        for (v, x) in m {
            o[*v as usize] = *x;
        }
        o
    }

    /// Record a decision whose taken outcome is `taken`; `cond(vm, outcome)` is the condition
    /// node (with wanted polarity) under which that outcome is taken. False if the solver gave
    /// up; nothing has been recorded then.
    fn decide(&mut self, taken: u64, binary: bool, cond: &mut dyn FnMut(&mut Vm, u64) -> (u32, bool)) -> R<bool> {
        let idx = self.ndec;
        let c = cond(self, taken);
        if idx >= self.item.from {
            if idx == self.item.from && self.hash != self.item.hash {
                return Err(Stop::Fault(format!("replay divergence at decision {idx}")));
            }
            let mut excl = if idx == self.item.from { std::mem::take(&mut self.item.excl) } else { vec![] };
            if !(binary && !excl.is_empty()) {
                let mut lits = vec![(c.0, !c.1)];
                for x in &excl {
                    let k = cond(self, *x);
                    lits.push((k.0, !k.1));
                }
                excl.push(taken);
                let path = std::mem::take(&mut self.path);
                let r = self.ex.solve(&path, &lits, &self.model);
                self.path = path;
                match r {
                    Res::Unsat => {}
                    Res::Sat(m) => {
                        let it = Item { model: self.patched(&m), from: idx, excl, hash: self.hash, hard: self.item.hard.clone() };
                        self.out.push(it);
                    }
                    Res::Unknown => return Ok(false),
                }
            }
        }
        self.ndec += 1;
        self.hash = crate::mix(self.hash ^ taken.wrapping_mul(0x9e3779b97f4a7c15) ^ 0x55);
        let mut path = std::mem::take(&mut self.path);
        self.ex.add(&mut path, c.0, c.1);
        self.path = path;
        Ok(true)
    }

    /// Next condition on this path; true if the bytes it depends on must be enumerated.
    fn event(&mut self, e: u32) -> bool {
        self.nev += 1;
        self.ex.n[e as usize].mix >= crate::expr::HARD || self.item.hard.contains(&self.nev)
    }
    /// the solver gave up on the condition of event `ev`
    fn give_up(&mut self, ev: u32, e: u32) -> R<()> {
        self.item.hard.push(ev);
        self.spell(e)
    }
    /// Fork over the values of all bytes that an expression depends on; afterwards its concrete
    /// value is the only one on this path.
    fn spell(&mut self, e: u32) -> R<()> {
        self.st.spelled += 1;
        let vars = self.ex.n[e as usize].vars;
        for v in bits(&vars) {
            if count(&self.path.dom[v]) == 1 {
                continue;
            }
            let x = self.ex.var(v as u16);
            let val = self.model[v] as u64;
            if !self.decide(val, false, &mut |vm, o| Self::equals(vm, x, 8, o))? {
                self.st.unknown += 1;
                return Err(Stop::Killed);
            }
        }
        Ok(())
    }
    fn equals(vm: &mut Vm, e: u32, w: u8, o: u64) -> (u32, bool) {
        let k = vm.ex.op(O::Icmp(Pred::Eq, w), 1, V { c: 0, e }, V::k(o), V::k(0), 0);
        if k.e == 0 {
            (0, true)
        } else {
            (k.e, true)
        }
    }

    /// truth value of a 1-bit value, forking if both are possible
    #[inline(always)]
    pub fn truth(&mut self, c: V) -> R<bool> {
        if c.e == 0 {
            return Ok(c.c & 1 != 0);
        }
        self.truth_sym(c)
    }
    #[inline(never)]
    fn truth_sym(&mut self, c: V) -> R<bool> {
        if let Some(b) = self.ex.implied(c.e, &self.path) {
            debug_assert!(b == (c.c & 1 != 0));
            if b != (c.c & 1 != 0) {
                return Err(Stop::Fault("concrete/symbolic mismatch".into()));
            }
            return Ok(b);
        }
        let t = c.c & 1;
        if self.event(c.e) {
            self.spell(c.e)?;
        } else {
            let ev = self.nev;
            if !self.decide(t, true, &mut |_, o| (c.e, o == 1))? {
                self.give_up(ev, c.e)?;
            }
        }
        Ok(t == 1)
    }
    pub fn conc(&mut self, v: V, w: u8) -> R<u64> {
        if v.e == 0 {
            return Ok(v.c);
        }
        if let Some(x) = self.ex.single(v.e) {
            // constant on the current domain?
            let d = self.path.dom[x as usize];
            let mut all = true;
            for i in bits(&d) {
                if self.ex.tab_get(v.e, i) != v.c {
                    all = false;
                    break;
                }
            }
            if all {
                return Ok(v.c);
            }
        }
        if self.event(v.e) {
            self.spell(v.e)?;
        } else {
            let ev = self.nev;
            if !self.decide(v.c, false, &mut |vm, o| Self::equals(vm, v.e, w, o))? {
                self.give_up(ev, v.e)?;
            }
        }
        Ok(v.c)
    }

    pub fn assume(&mut self, c: V) -> R<()> {
        if c.e == 0 {
            return if c.c & 1 != 0 { Ok(()) } else { Err(Stop::Killed) };
        }
        if let Some(b) = self.ex.implied(c.e, &self.path) {
            return if b { Ok(()) } else { Err(Stop::Killed) };
        }
        if self.event(c.e) {
            self.spell(c.e)?;
            return if c.c & 1 != 0 { Ok(()) } else { Err(Stop::Killed) };
        }
        if c.c & 1 == 0 {
            // look for a model that satisfies it
            if self.ndec >= self.item.from || self.item.excl.is_empty() {
                let path = std::mem::take(&mut self.path);
                let r = self.ex.solve(&path, &[(c.e, true)], &self.model);
                self.path = path;
                match r {
                    Res::Sat(m) => {
                        // decisions up to here have been expanded by this run already
                        let from = self.ndec.max(self.item.from);
                        let excl = if self.ndec <= self.item.from { self.item.excl.clone() } else { vec![] };
                        let hash = if self.ndec <= self.item.from && self.ndec < self.item.from { self.item.hash } else { self.hash };
                        let it = Item { model: self.patched(&m), from, excl, hash, hard: self.item.hard.clone() };
                        self.out.push(it);
                    }
                    Res::Unsat => {}
                    Res::Unknown if self.ndec < self.item.from => self.st.unknown += 1,
                    Res::Unknown => {
                        let ev = self.nev;
                        self.give_up(ev, c.e)?;
                    }
                }
            }
            return Err(Stop::Killed);
        }
        let mut path = std::mem::take(&mut self.path);
        self.ex.add(&mut path, c.e, true);
        self.path = path;
        Ok(())
    }

    pub fn check(&mut self, c: V, id: u32) -> R<()> {
        if c.e == 0 {
            if c.c & 1 != 0 {
                self.st.checks_concrete += 1;
                return Ok(());
            }
            return Err(Stop::Check(id));
        }
        if c.c & 1 == 0 {
            return Err(Stop::Check(id));
        }
        if self.event(c.e) {
            self.st.checks_solved += 1;
            return self.spell(c.e);
        }
        self.st.checks_solved += 1;
        let path = std::mem::take(&mut self.path);
        let r = self.ex.solve(&path, &[(c.e, false)], &self.model);
        self.path = path;
        match r {
            Res::Sat(m) => {
                let model = self.patched(&m);
                self.found.push(Found { id, kind: "check", msg: String::new(), model, notes: String::new() });
            }
            Res::Unsat => {}
            Res::Unknown => {
                let ev = self.nev;
                return self.give_up(ev, c.e);
            }
        }
        let mut path = std::mem::take(&mut self.path);
        self.ex.add(&mut path, c.e, true);
        self.path = path;
        Ok(())
    }

    // ------------------------------------------------------------ running

    fn reset(&mut self) {
        unsafe {
            for b in self.flagged.drain(..) {
                *self.flags.add(b as usize) = 0;
                std::ptr::write_bytes(self.shadow.add(b as usize * 64), 0, 64);
            }
            let m = &self.sh.m;
            let wf = m.writable_from as usize;
            let off = wf - GLOBAL_BASE as usize;
            std::ptr::copy_nonoverlapping(m.image.as_ptr().add(off), self.mem.add(wf), m.image.len() - off);
        }
        self.frames.clear();
        self.trys.clear();
        let stack_lo = (self.sh.m.end + 0xffff) & !0xffff;
        self.sp = stack_lo;
        self.heap_base = stack_lo + STACK_SIZE;
        self.heap = self.heap_base;
        for f in &mut self.free {
            f.clear();
        }
        self.path = Path::default();
        self.nvars = 0;
        self.ndec = 0;
        self.nev = 0;
        self.hash = 0;
        self.executed = 0;
        self.notes.clear();
        self.stdout.clear();
        self.stderr.clear();
        self.covers_seen.clear();
        self.fs = Default::default();
        self.allow_all = false;
        self.errno = 0;
        self.ex.maybe_reset();
        let n = self.sh.m.ncov.load(std::sync::atomic::Ordering::SeqCst) as usize;
        if self.cov.len() < n + 65536 {
            self.cov.resize(n + 131072, 0);
        }
    }

    /// run one path; new work is in self.out, violations in self.found
    pub fn run_path(&mut self, item: Item) -> Stop {
        self.reset();
        self.item = item;
        let sh = self.sh.clone();
        let args: Vec<V> = sh.entry_args.iter().map(|x| V::k(*x)).collect();
        let r = match self.push_call(sh.main, &args, 0, 0, false) {
            Ok(()) => {
                let mut r = self.interp();
                loop {
                    match r {
                        Err(Stop::Abort) | Err(Stop::Exit(_)) if !self.trys.is_empty() => {
                            let kind = if let Err(Stop::Exit(c)) = &r {
                                self.last_exit = *c;
                                2
                            } else {
                                self.st.caught_aborts += 1;
                                1
                            };
                            let t = self.trys.pop().unwrap();
                            self.frames.truncate(t.frames);
                            self.sp = t.sp;
                            unsafe {
                                let wf = sh.m.writable_from as usize;
                                std::ptr::copy_nonoverlapping(t.globals.as_ptr(), self.mem.add(wf), t.globals.len());
                                if !t.gshadow.is_empty() {
                                    std::ptr::copy_nonoverlapping(t.gshadow.as_ptr(), self.shadow.add(wf), t.gshadow.len());
                                }
                            }
                            self.regs[(t.base + t.dst) as usize] = V::k(kind);
                            r = self.interp();
                        }
                        _ => break,
                    }
                }
                match r {
                    Ok(()) => Stop::Done,
                    Err(s) => s,
                }
            }
            Err(s) => s,
        };
        self.st.paths += 1;
        self.st.instrs += self.executed;
        self.st.max_instrs = self.st.max_instrs.max(self.executed);
        self.st.decisions += self.ndec as u64;
        self.st.max_decisions = self.st.max_decisions.max(self.ndec as u64);
        self.st.max_vars = self.st.max_vars.max(self.nvars as u64);
        for c in self.covers_seen.drain(..) {
            self.st.covers[c as usize & 255] += 1;
        }
        // a path that ended before reaching its expansion point lost coverage: report it
        if self.item.from != usize::MAX >> 1 && self.ndec < self.item.from && !matches!(r, Stop::Fault(_) | Stop::Unsupported(_)) {
            return Stop::Fault(format!("path ended before its branch point ({} < {}): {:?}", self.ndec, self.item.from, r));
        }
        r
    }

    fn push_call(&mut self, f: u32, args: &[V], ret_d: u32, base_from: u32, try_mark: bool) -> R<()> {
        let sh = self.sh.clone();
        let fu: &Func = sh.m.func(f);
        self.fdone[f as usize] = 1;
        let base = base_from;
        if base as usize + fu.nslots as usize + 64 > self.regs.len() {
            return Err(Stop::Fault("stack overflow (registers)".into()));
        }
        if self.frames.len() > 20000 {
            return Err(Stop::Fault("stack overflow (frames)".into()));
        }
        for (i, a) in args.iter().enumerate() {
            self.regs[base as usize + i] = *a;
        }
        self.frames.push(Frame { f: fu as *const Func, fidx: f, pc: 0, base, sp: self.sp, ret_d, try_mark });
        Ok(())
    }

    pub fn begin_try(&mut self, f: u64, arg: V) -> R<()> {
        // called from an external call site: the caller's frame is on top with pc already advanced
        let fi = ((f - FN_BASE) / 16) as u32;
        let fr = self.frames.last().unwrap();
        let (base, fu) = (fr.base, fr.f);
        let dst = self.pending_dst;
        let sh = self.sh.clone();
        let wf = sh.m.writable_from as usize;
        let n = sh.m.end as usize - wf;
        let globals = unsafe { std::slice::from_raw_parts(self.mem.add(wf), n).to_vec() };
        let gshadow = unsafe {
            if self.any_flag(wf as u64, n as u64) {
                std::slice::from_raw_parts(self.shadow.add(wf), n).to_vec()
            } else {
                vec![]
            }
        };
        self.trys.push(TrySave { frames: self.frames.len(), globals, gshadow, dst, base, sp: self.sp });
        let nb = base + unsafe { (*fu).nslots };
        self.push_call(fi, &[arg], dst, nb, true)
    }
}

impl Vm {
    fn interp(&mut self) -> R<()> {
        let sh = self.sh.clone();
        let cap = sh.cap;
        unsafe {
            'frame: loop {
                let fr = self.frames.last().unwrap();
                let f: &Func = &*fr.f;
                let base = fr.base as usize;
                let mut pc = fr.pc as usize;
                let fidx = fr.fidx;
                let code = f.code.as_ptr();
                let consts = f.consts.as_ptr();
                let regs: *mut V = self.regs.as_mut_ptr().add(base);
                macro_rules! val {
                    ($o:expr) => {{
                        let o = $o;
                        if o >= 0 {
                            *regs.add(o as usize)
                        } else {
                            V { c: *consts.add((-o - 1) as usize), e: 0 }
                        }
                    }};
                }
                macro_rules! set {
                    ($d:expr, $v:expr) => {{
                        let v = $v;
                        *regs.add($d as usize) = v;
                    }};
                }
                macro_rules! jump {
                    ($e:expr) => {{
                        let e: &Edge = $e;
                        *self.cov.as_mut_ptr().add(e.cov as usize) = 1;
                        if !e.copies.is_empty() {
                            if e.hazard {
                                let mut tmp: [V; 16] = [V { c: 0, e: 0 }; 16];
                                if e.copies.len() <= 16 {
                                    for (i, (_, s)) in e.copies.iter().enumerate() {
                                        tmp[i] = val!(*s);
                                    }
                                    for (i, (d, _)) in e.copies.iter().enumerate() {
                                        set!(*d, tmp[i]);
                                    }
                                } else {
                                    let t: Vec<V> = e.copies.iter().map(|(_, s)| val!(*s)).collect();
                                    for (i, (d, _)) in e.copies.iter().enumerate() {
                                        set!(*d, t[i]);
                                    }
                                }
                            } else {
                                for (d, s) in e.copies.iter() {
                                    set!(*d, val!(*s));
                                }
                            }
                        }
                        pc = e.pc as usize;
                        continue;
                    }};
                }
                macro_rules! sync {
                    () => {
                        self.frames.last_mut().unwrap_unchecked().pc = pc as u32;
                    };
                }
                loop {
                    self.executed += 1;
                    let i = &*code.add(pc);
                    pc += 1;
                    match i {
                        I::Bin { op, w, d, a, b } => {
                            let (x, y) = (val!(*a), val!(*b));
                            if x.e | y.e == 0 {
                                let c = match op {
                                    Bop::Add => mask(x.c.wrapping_add(y.c), *w),
                                    Bop::Sub => mask(x.c.wrapping_sub(y.c), *w),
                                    Bop::And => x.c & y.c,
                                    Bop::Or => x.c | y.c,
                                    Bop::Xor => x.c ^ y.c,
                                    _ => eval_bin(*op, *w, x.c, y.c),
                                };
                                set!(*d, V::k(c));
                            } else {
                                let y = if matches!(op, Bop::UDiv | Bop::URem | Bop::SDiv | Bop::SRem) && y.e != 0 {
                                    V::k(self.conc(y, *w)?)
                                } else {
                                    y
                                };
                                let r = self.bin(*op, *w, x, y);
                                set!(*d, r);
                            }
                        }
                        I::Icmp { p, w, d, a, b } => {
                            let (x, y) = (val!(*a), val!(*b));
                            if x.e | y.e == 0 {
                                set!(*d, V::k(eval_icmp(*p, *w, x.c, y.c) as u64));
                            } else {
                                let r = self.icmp(*p, *w, x, y);
                                set!(*d, r);
                            }
                        }
                        I::Load { d, a, w } => {
                            let x = val!(*a);
                            let v = if x.e == 0 { self.load(x.c, *w)? } else { self.load_sym(x, *w)? };
                            set!(*d, v);
                        }
                        I::Store { a, v, w } => {
                            let x = val!(*a);
                            let x = if x.e == 0 { x.c } else { self.conc(x, 64)? };
                            let v = val!(*v);
                            self.store(x, v, *w)?;
                        }
                        I::Gep { d, b, off, t } => {
                            let x = val!(*b);
                            let mut c = x.c.wrapping_add(*off as u64);
                            let mut e = x.e;
                            for (o, s, w) in t.iter() {
                                let y = val!(*o);
                                e |= y.e;
                                c = c.wrapping_add((sext(y.c, *w) as i64).wrapping_mul(*s) as u64);
                            }
                            if e == 0 {
                                set!(*d, V::k(c));
                            } else {
                                let mut acc = self.bin(Bop::Add, 64, x, V::k(*off as u64));
                                for (o, s, w) in t.iter() {
                                    let y = val!(*o);
                                    let y = if *w < 64 { self.sext_v(y, *w, 64) } else { y };
                                    let y = self.bin(Bop::Mul, 64, y, V::k(*s as u64));
                                    acc = self.bin(Bop::Add, 64, acc, y);
                                }
                                set!(*d, acc);
                            }
                        }
                        I::Br(e) => {
                            if self.executed > cap {
                                sync!();
                                return Err(Stop::Hang);
                            }
                            jump!(e)
                        }
                        I::CondBr { c, t, f } => {
                            let x = val!(*c);
                            let b = if x.e == 0 { x.c & 1 != 0 } else { self.truth_sym(x)? };
                            if self.executed > cap {
                                sync!();
                                return Err(Stop::Hang);
                            }
                            if b {
                                jump!(t)
                            } else {
                                jump!(f)
                            }
                        }
                        I::Switch { v, w, cases, def, edges } => {
                            let x = val!(*v);
                            let k = match cases.binary_search_by_key(&x.c, |c| c.0) {
                                Ok(i) => cases[i].1,
                                Err(_) => *def,
                            };
                            if x.e != 0 {
                                self.switch_sym(x, *w, cases, *def, k)?;
                            }
                            jump!(&edges[k as usize])
                        }
                        I::Call { f: callee, args, d, n } => {
                            if let Some(ext) = *sh.ext.get_unchecked(*callee as usize) {
                                let mut av = [V { c: 0, e: 0 }; 16];
                                for (i, o) in args.iter().enumerate() {
                                    av[i & 15] = val!(*o);
                                }
                                sync!();
                                self.pending_dst = *d;
                                let nf = self.frames.len();
                                let r = ext(self, &av[..args.len().min(16)])?;
                                if self.frames.len() != nf {
                                    continue 'frame;
                                }
                                if *n > 0 {
                                    set!(*d, r[0]);
                                }
                                if *n > 1 {
                                    set!(*d + 1, r[1]);
                                }
                            } else {
                                let fu: &Func = sh.m.func(*callee);
                                *self.fdone.as_mut_ptr().add(*callee as usize) = 1;
                                let nb = base + f.nslots as usize;
                                if nb + fu.nslots as usize + 64 > self.regs.len() || self.frames.len() > 20000 {
                                    return Err(Stop::Fault("stack overflow".into()));
                                }
                                for (i, o) in args.iter().enumerate() {
                                    *regs.add(f.nslots as usize + i) = val!(*o);
                                }
                                sync!();
                                if self.trace_calls {
                                    eprintln!("{}{}", " ".repeat(self.frames.len()), sh.m.funcs[*callee as usize].name);
                                }
                                self.frames.push(Frame {
                                    f: fu as *const Func,
                                    fidx: *callee,
                                    pc: 0,
                                    base: nb as u32,
                                    sp: self.sp,
                                    ret_d: *d,
                                    try_mark: false,
                                });
                                continue 'frame;
                            }
                        }
                        I::CallInd { f: fp, args, d, n } => {
                            let x = val!(*fp);
                            let x = self.conc(x, 64)?;
                            if x < FN_BASE || (x - FN_BASE) % 16 != 0 || ((x - FN_BASE) / 16) as usize >= sh.m.funcs.len() {
                                return Err(Stop::Fault(format!("call of {x:#x} in {}", self.where_())));
                            }
                            let callee = ((x - FN_BASE) / 16) as u32;
                            let mut av = [V { c: 0, e: 0 }; 16];
                            for (i, o) in args.iter().enumerate() {
                                av[i & 15] = val!(*o);
                            }
                            sync!();
                            if let Some(ext) = sh.ext[callee as usize] {
                                self.pending_dst = *d;
                                let nf = self.frames.len();
                                let r = ext(self, &av[..args.len().min(16)])?;
                                if self.frames.len() != nf {
                                    continue 'frame;
                                }
                                if *n > 0 {
                                    set!(*d, r[0]);
                                }
                                if *n > 1 {
                                    set!(*d + 1, r[1]);
                                }
                            } else {
                                let nb = base as u32 + f.nslots;
                                self.push_call(callee, &av[..args.len().min(16)], *d, nb, false)?;
                                continue 'frame;
                            }
                        }
                        I::Ret(vs) => {
                            let fr = self.frames.pop().unwrap();
                            self.sp = fr.sp;
                            if self.frames.is_empty() {
                                return Ok(());
                            }
                            let caller = self.frames.last().unwrap();
                            let cb = caller.base as usize;
                            if fr.try_mark {
                                self.trys.pop();
                                self.regs[cb + fr.ret_d as usize] = V::k(0);
                                continue 'frame;
                            }
                            let cr = self.regs.as_mut_ptr().add(cb + fr.ret_d as usize);
                            // regs of this frame lie above the caller's, so no overlap
                            for (k, o) in vs.iter().enumerate() {
                                *cr.add(k) = val!(*o);
                            }
                            continue 'frame;
                        }
                        I::Copy { d, a } => set!(*d, val!(*a)),
                        I::Copies { c } => {
                            if c.len() <= 16 {
                                let mut tmp = [V { c: 0, e: 0 }; 16];
                                for (i, (_, s)) in c.iter().enumerate() {
                                    tmp[i] = val!(*s);
                                }
                                for (i, (d, _)) in c.iter().enumerate() {
                                    set!(*d, tmp[i]);
                                }
                            } else {
                                let t: Vec<V> = c.iter().map(|(_, s)| val!(*s)).collect();
                                for (i, (d, _)) in c.iter().enumerate() {
                                    set!(*d, t[i]);
                                }
                            }
                        }
                        I::Zext { f: fw, t, d, a } => {
                            let x = val!(*a);
                            let r = if x.e == 0 { x } else { self.zext(x, *fw, *t) };
                            set!(*d, r);
                        }
                        I::Sext { f: fw, t, d, a } => {
                            let x = val!(*a);
                            let r = self.sext_v(x, *fw, *t);
                            set!(*d, r);
                        }
                        I::Trunc { t, d, a } => {
                            let x = val!(*a);
                            let r = if x.e == 0 { V::k(mask(x.c, *t)) } else { self.trunc(x, *t) };
                            set!(*d, r);
                        }
                        I::Select { d, c, ab, ptr } => {
                            let x = val!(*c);
                            if x.e == 0 || *ptr || ab.len() > 1 {
                                let t = if x.e == 0 { x.c & 1 != 0 } else { self.truth_sym(x)? };
                                if ab.len() == 1 {
                                    let r = if t { val!(ab[0].0) } else { val!(ab[0].1) };
                                    set!(*d, r);
                                } else {
                                    let v: Vec<V> =
                                        ab.iter().map(|(p, q, _)| if t { val!(*p) } else { val!(*q) }).collect();
                                    for (k, r) in v.into_iter().enumerate() {
                                        set!(*d + k as u32, r);
                                    }
                                }
                            } else {
                                let (p, q) = (val!(ab[0].0), val!(ab[0].1));
                                let r = self.ite(x, p, q, ab[0].2);
                                set!(*d, r);
                            }
                        }
                        I::LoadN { d, a, l } => {
                            let x = val!(*a);
                            let x = self.conc(x, 64)?;
                            for (k, (o, w)) in l.iter().enumerate() {
                                let v = self.load(x + o, *w)?;
                                set!(*d + k as u32, v);
                            }
                        }
                        I::StoreN { a, l } => {
                            let x = val!(*a);
                            let x = self.conc(x, 64)?;
                            for (o, w, v) in l.iter() {
                                let v = val!(*v);
                                self.store(x + o, v, *w)?;
                            }
                        }
                        I::Alloca { d, size, align, n } => {
                            let k = val!(*n).c;
                            let a = (self.sp + align - 1) & !(align - 1);
                            self.sp = a + size * k;
                            if self.sp > self.heap_base - 4096 {
                                return Err(Stop::Fault("stack overflow (memory)".into()));
                            }
                            set!(*d, V::k(a));
                        }
                        I::Intr { k, w, args, d } => {
                            let mut av = [V { c: 0, e: 0 }; 32];
                            for (i, o) in args.iter().enumerate() {
                                av[i & 31] = val!(*o);
                            }
                            sync!();
                            let r = self.intr(*k, *w, &av[..args.len().min(32)])?;
                            match k {
                                Intr::Memcpy | Intr::Memmove | Intr::Memset => {}
                                Intr::UAddO | Intr::USubO | Intr::UMulO | Intr::SAddO | Intr::SSubO | Intr::SMulO => {
                                    set!(*d, r[0]);
                                    set!(*d + 1, r[1]);
                                }
                                _ => set!(*d, r[0]),
                            }
                        }
                        I::BinN { op, w, d, ab } => {
                            let v: Vec<(V, V)> = ab.iter().map(|(p, q)| (val!(*p), val!(*q))).collect();
                            for (k, (p, q)) in v.into_iter().enumerate() {
                                let r = self.bin(*op, *w, p, q);
                                set!(*d + k as u32, r);
                            }
                        }
                        I::IcmpN { p, w, d, ab } => {
                            let v: Vec<(V, V)> = ab.iter().map(|(p, q)| (val!(*p), val!(*q))).collect();
                            for (k, (x, y)) in v.into_iter().enumerate() {
                                let r = self.icmp(*p, *w, x, y);
                                set!(*d + k as u32, r);
                            }
                        }
                        I::CastN { k, f: fw, t, d, a } => {
                            let v: Vec<V> = a.iter().map(|p| val!(*p)).collect();
                            for (j, x) in v.into_iter().enumerate() {
                                let r = match k {
                                    0 => self.zext(x, *fw, *t),
                                    1 => self.sext_v(x, *fw, *t),
                                    _ => self.trunc(x, *t),
                                };
                                set!(*d + j as u32, r);
                            }
                        }
                        I::PackBits { d, a } => {
                            let mut r = 0u64;
                            for (j, p) in a.iter().enumerate() {
                                let x = val!(*p);
                                if self.truth(x)? {
                                    r |= 1 << j;
                                }
                            }
                            set!(*d, V::k(r));
                        }
                        I::LoadBits { d, a, n } => {
                            let x = val!(*a);
                            let x = self.conc(x, 64)?;
                            for j in 0..*n {
                                let v = self.load(x + (j / 8) as u64, 8)?;
                                let v = V::k(self.conc(v, 8)?);
                                set!(*d + j, V::k(v.c >> (j % 8) & 1));
                            }
                        }
                        I::StoreBits { a, v } => {
                            let x = val!(*a);
                            let x = self.conc(x, 64)?;
                            let mut bytes = vec![0u8; (v.len() + 7) / 8];
                            for (j, o) in v.iter().enumerate() {
                                let y = val!(*o);
                                if self.truth(y)? {
                                    bytes[j / 8] |= 1 << (j % 8);
                                }
                            }
                            self.write_bytes(x, &bytes)?;
                        }
                        I::ExtractDyn { d, base: b, i } => {
                            let x = val!(*i);
                            let x = self.conc(x, 64)?;
                            let r = val!(b[(x as usize) % b.len()]);
                            set!(*d, r);
                        }
                        I::AtomicRmw { op, w, d, a, v } => {
                            let x = val!(*a);
                            let x = self.conc(x, 64)?;
                            let old = self.load(x, *w)?;
                            let v = val!(*v);
                            let new = match op {
                                0 => v,
                                1 => self.bin(Bop::Add, *w, old, v),
                                2 => self.bin(Bop::Sub, *w, old, v),
                                3 => self.bin(Bop::And, *w, old, v),
                                4 => self.bin(Bop::Or, *w, old, v),
                                5 => self.bin(Bop::Xor, *w, old, v),
                                6 => V::k(old.c.max(v.c)),
                                7 => V::k(old.c.min(v.c)),
                                _ => return Err(Stop::Unsupported("atomicrmw".into())),
                            };
                            self.store(x, new, *w)?;
                            set!(*d, old);
                        }
                        I::CmpXchg { w, d, a, c, n } => {
                            let x = val!(*a);
                            let x = self.conc(x, 64)?;
                            let old = self.load(x, *w)?;
                            let cv = val!(*c);
                            let eq = self.icmp(Pred::Eq, *w, old, cv);
                            let ok = self.truth(eq)?;
                            if ok {
                                let nv = val!(*n);
                                self.store(x, nv, *w)?;
                            }
                            set!(*d, old);
                            set!(*d + 1, V::k(ok as u64));
                        }
                        I::Wide { op, d, a, b, w } => {
                            let x = [val!(a[0]), val!(a[1])];
                            let y = [val!(b[0]), val!(b[1])];
                            let r = self.wide(*op, x, y, *w)?;
                            set!(*d, r[0]);
                            if !matches!(op, WideOp::Icmp(_) | WideOp::Trunc(_)) {
                                set!(*d + 1, r[1]);
                            }
                        }
                        I::Unreachable => {
                            return Err(Stop::Fault(format!("unreachable executed in {}", sh.m.funcs[fidx as usize].name)));
                        }
                        I::Unsupported(s) => {
                            return Err(Stop::Unsupported(format!("{} in {}", s, sh.m.funcs[fidx as usize].name)));
                        }
                    }
                }
            }
        }
    }

    fn wide(&mut self, op: WideOp, x: [V; 2], y: [V; 2], w: u32) -> R<[V; 2]> {
        let z = V::k(0);
        Ok(match op {
            WideOp::Bin(b @ (Bop::And | Bop::Or | Bop::Xor)) => [self.bin(b, 64, x[0], y[0]), self.bin(b, 64, x[1], y[1])],
            WideOp::Icmp(p @ (Pred::Eq | Pred::Ne)) => {
                let a = self.icmp(Pred::Eq, 64, x[0], y[0]);
                let b = self.icmp(Pred::Eq, 64, x[1], y[1]);
                let r = self.bin(Bop::And, 1, a, b);
                [if p == Pred::Eq { r } else { self.bin(Bop::Xor, 1, r, V::k(1)) }, z]
            }
            WideOp::Zext(f) => [self.zext(x[0], f, 64), z],
            WideOp::Trunc(t) => [self.trunc(x[0], t), z],
            _ => {
                if x[0].e | x[1].e | y[0].e | y[1].e != 0 {
                    return Err(Stop::Unsupported("symbolic 128-bit arithmetic".into()));
                }
                let a = (x[1].c as u128) << 64 | x[0].c as u128;
                let b = (y[1].c as u128) << 64 | y[0].c as u128;
                let m: u128 = if w >= 128 { u128::MAX } else { (1u128 << w) - 1 };
                match op {
                    WideOp::Bin(k) => {
                        let r = match k {
                            Bop::Add => a.wrapping_add(b),
                            Bop::Sub => a.wrapping_sub(b),
                            Bop::Mul => a.wrapping_mul(b),
                            Bop::UDiv => a.checked_div(b).unwrap_or(0),
                            Bop::URem => a.checked_rem(b).unwrap_or(0),
                            Bop::Shl => {
                                if b >= 128 {
                                    0
                                } else {
                                    a << b
                                }
                            }
                            Bop::LShr => {
                                if b >= 128 {
                                    0
                                } else {
                                    a >> b
                                }
                            }
                            _ => return Err(Stop::Unsupported("128-bit op".into())),
                        } & m;
                        [V::k(r as u64), V::k((r >> 64) as u64)]
                    }
                    WideOp::Icmp(p) => {
                        let r = match p {
                            Pred::Ult => a < b,
                            Pred::Ule => a <= b,
                            Pred::Ugt => a > b,
                            Pred::Uge => a >= b,
                            _ => return Err(Stop::Unsupported("128-bit compare".into())),
                        };
                        [V::k(r as u64), z]
                    }
                    _ => unreachable!(),
                }
            }
        })
    }

    fn load_sym(&mut self, a: V, w: u8) -> R<V> {
        if let Some(v) = self.ex.single(a.e) {
            let d = self.path.dom[v as usize];
            let n = (w as u64 + 7) / 8;
            let mut t = [0u64; 256];
            let mut ok = true;
            for i in bits(&d) {
                let ad = self.ex.tab_get(a.e, i);
                if ad < GLOBAL_BASE || ad + 8 > ARENA as u64 {
                    ok = false;
                    break;
                }
                unsafe {
                    if self.flag(ad) || self.flag(ad + n - 1) {
                        let mut any = false;
                        for k in 0..n {
                            any |= *self.shadow.add((ad + k) as usize) != 0;
                        }
                        if any {
                            ok = false;
                            break;
                        }
                    }
                    t[i] = mask((self.mem.add(ad as usize) as *const u64).read_unaligned(), w);
                }
            }
            if ok {
                let c = t[self.model[v as usize] as usize];
                // values outside the domain never occur on this path
                let f = c;
                for i in 0..256 {
                    if !has(&d, i) {
                        t[i] = f;
                    }
                }
                return Ok(self.ex.table(v, w, &t, c));
            }
        }
        let x = self.conc(a, 64)?;
        self.load(x, w)
    }

    fn switch_sym(&mut self, x: V, w: u8, cases: &[(u64, u32)], def: u32, k: u32) -> R<()> {
        // condition "edge o is taken"
        let cases2 = cases;
        let mk = &mut |vm: &mut Vm, o: u64| -> (u32, bool) {
            let z = V { c: 0, e: x.e };
            let mut acc: Option<V> = None;
            if o as u32 == def {
                // none of the cases that go elsewhere
                for (c, t) in cases2 {
                    if *t != def {
                        let q = vm.ex.op(O::Icmp(Pred::Eq, w), 1, z, V::k(*c), V::k(0), 0);
                        if q.e == 0 {
                            continue;
                        }
                        acc = Some(match acc {
                            None => q,
                            Some(a) => vm.ex.op(O::Bin(Bop::Or), 1, a, q, V::k(0), 0),
                        });
                    }
                }
                match acc {
                    None => (0, true),
                    Some(a) => (a.e, false),
                }
            } else {
                for (c, t) in cases2 {
                    if *t == o as u32 {
                        let q = vm.ex.op(O::Icmp(Pred::Eq, w), 1, z, V::k(*c), V::k(0), 0);
                        if q.e == 0 {
                            continue;
                        }
                        acc = Some(match acc {
                            None => q,
                            Some(a) => vm.ex.op(O::Bin(Bop::Or), 1, a, q, V::k(0), 0),
                        });
                    }
                }
                match acc {
                    None => (0, false),
                    Some(a) => (a.e, true),
                }
            }
        };
        let c = mk(self, k as u64);
        if c.0 == 0 {
            return Ok(());
        }
        if self.ex.implied(c.0, &self.path) == Some(c.1) {
            return Ok(());
        }
        if self.event(x.e) {
            return self.spell(x.e);
        }
        let ev = self.nev;
        if !self.decide(k as u64, false, mk)? {
            self.give_up(ev, x.e)?;
        }
        Ok(())
    }

    fn intr(&mut self, k: Intr, w: u8, a: &[V]) -> R<[V; 2]> {
        let z = V::k(0);
        let conc = a.iter().all(|v| v.e == 0);
        Ok(match k {
            Intr::Memcpy | Intr::Memmove => {
                let d = self.conc(a[0], 64)?;
                let s = self.conc(a[1], 64)?;
                let n = self.conc(a[2], 64)?;
                self.copy(d, s, n)?;
                self.executed += n / 16;
                [z, z]
            }
            Intr::Memset => {
                let d = self.conc(a[0], 64)?;
                let n = self.conc(a[2], 64)?;
                self.fill(d, a[1], n)?;
                self.executed += n / 16;
                [z, z]
            }
            Intr::UAddO => {
                let r = self.bin(Bop::Add, w, a[0], a[1]);
                if conc {
                    return Ok([r, V::k((a[0].c as u128 + a[1].c as u128 > mask(u64::MAX, w) as u128) as u64)]);
                }
                let o = if w < 64 {
                    let x = self.zext(a[0], w, 64);
                    let y = self.zext(a[1], w, 64);
                    let s = self.bin(Bop::Add, 64, x, y);
                    self.icmp(Pred::Ugt, 64, s, V::k(mask(u64::MAX, w)))
                } else if r.e != 0 && self.ex.n[r.e as usize].exact && self.ex.n[r.e as usize].lo >= 0 && matches!(self.ex.n[r.e as usize].k, K::Lin { .. }) {
                    z
                } else {
                    self.icmp(Pred::Ult, 64, r, a[0])
                };
                [r, o]
            }
            Intr::USubO => {
                let r = self.bin(Bop::Sub, w, a[0], a[1]);
                let o = self.icmp(Pred::Ult, w, a[0], a[1]);
                [r, o]
            }
            Intr::UMulO => {
                if conc {
                    let p = a[0].c as u128 * a[1].c as u128;
                    return Ok([V::k(mask(p as u64, w)), V::k((p > mask(u64::MAX, w) as u128) as u64)]);
                }
                let (x, y) = if a[1].e != 0 { (a[1], a[0]) } else { (a[0], a[1]) };
                let y = V::k(self.conc(y, w)?);
                let r = self.bin(Bop::Mul, w, x, y);
                let o = if y.c == 0 { z } else { self.icmp(Pred::Ugt, w, x, V::k(mask(u64::MAX, w) / y.c)) };
                [r, o]
            }
            Intr::SAddO | Intr::SSubO | Intr::SMulO => {
                let x = V::k(self.conc(a[0], w)?);
                let y = V::k(self.conc(a[1], w)?);
                let (p, q) = (sext(x.c, w) as i64 as i128, sext(y.c, w) as i64 as i128);
                let r = match k {
                    Intr::SAddO => p + q,
                    Intr::SSubO => p - q,
                    _ => p * q,
                };
                let t = mask(r as u64, w);
                [V::k(t), V::k(((sext(t, w) as i64 as i128) != r) as u64)]
            }
            Intr::UMax | Intr::UMin | Intr::SMax | Intr::SMin => {
                let p = match k {
                    Intr::UMax => Pred::Ugt,
                    Intr::UMin => Pred::Ult,
                    Intr::SMax => Pred::Sgt,
                    _ => Pred::Slt,
                };
                let c = self.icmp(p, w, a[0], a[1]);
                [self.ite(c, a[0], a[1], w), z]
            }
            Intr::USubSat => {
                let c = self.icmp(Pred::Ult, w, a[0], a[1]);
                let r = self.bin(Bop::Sub, w, a[0], a[1]);
                [self.ite(c, z, r, w), z]
            }
            Intr::UAddSat => {
                let [r, o] = self.intr(Intr::UAddO, w, a)?;
                [self.ite(o, V::k(mask(u64::MAX, w)), r, w), z]
            }
            Intr::UnOp(u) => {
                let x = a[0];
                let x = if x.e != 0 && self.ex.single(x.e).is_none() { V::k(self.conc(x, w)?) } else { x };
                let c = eval_un(u, w, x.c);
                if x.e == 0 {
                    [V::k(c), z]
                } else {
                    [self.ex.op(O::Un(u), w, x, z, z, c), z]
                }
            }
            Intr::Fshl | Intr::Fshr => {
                let s = self.conc(a[2], w)? % w as u64;
                let s = if k == Intr::Fshl { s } else { (w as u64 - s) % w as u64 };
                if s == 0 {
                    return Ok([if k == Intr::Fshl { a[0] } else { a[1] }, z]);
                }
                let hi = self.bin(Bop::Shl, w, a[0], V::k(s));
                let lo = self.bin(Bop::LShr, w, a[1], V::k(w as u64 - s));
                [self.bin(Bop::Or, w, hi, lo), z]
            }
            Intr::UCmp | Intr::SCmp => {
                let rw = a[2].c as u8;
                let lt = self.icmp(if k == Intr::UCmp { Pred::Ult } else { Pred::Slt }, w, a[0], a[1]);
                let eq = self.icmp(Pred::Eq, w, a[0], a[1]);
                let i = self.ite(eq, V::k(0), V::k(1), rw);
                [self.ite(lt, V::k(mask(u64::MAX, rw)), i, rw), z]
            }
            Intr::Trap => return Err(Stop::Abort),
            Intr::VReduce(op) => {
                let mut r = a[0];
                for x in &a[1..] {
                    r = self.bin(op, w, r, *x);
                }
                [r, z]
            }
            _ => return Err(Stop::Unsupported(format!("{:?}", k))),
        })
    }
}
