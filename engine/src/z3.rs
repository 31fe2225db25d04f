//! Minimal binding to the system libz3 (C API).
use crate::expr::{has, FxMap, Set, Tab};
use crate::ir::{mask, Bop, Pred};
use std::ffi::{c_char, c_int, c_uint, c_void, CString};

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_del_config(c: P);
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, s: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_extract(c: P, h: c_uint, l: c_uint, a: P) -> P;
    fn Z3_mk_solver(c: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, a: P, completion: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, v: *mut u64) -> bool;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_get_full_version() -> *const c_char;
    fn Z3_get_sort(c: P, a: P) -> P;
    fn Z3_get_sort_kind(c: P, s: P) -> c_int;
}

pub fn version() -> String {
    unsafe { std::ffi::CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

extern "C" fn on_error(_c: P, e: c_int) {
    eprintln!("z3 error {e}");
    std::process::exit(3);
}

pub struct Z3 {
    c: P,
    s: P,
    bv: Vec<P>,
    vars: Vec<P>,
    ast: Vec<P>,
    pub cache: FxMap<u32, usize>,
    tabc: FxMap<(u16, u8, usize), usize>,
}

unsafe impl Send for Z3 {}

impl Drop for Z3 {
    fn drop(&mut self) {
        if !self.c.is_null() {
            unsafe {
                Z3_solver_dec_ref(self.c, self.s);
                Z3_del_context(self.c);
            }
        }
    }
}

impl Z3 {
    pub fn null() -> Z3 {
        Z3 {
            c: std::ptr::null_mut(),
            s: std::ptr::null_mut(),
            bv: vec![],
            vars: vec![],
            ast: vec![],
            cache: FxMap::default(),
            tabc: FxMap::default(),
        }
    }
    pub fn new() -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let t = CString::new("timeout").unwrap();
            let v = CString::new("5000").unwrap();
            Z3_set_param_value(cfg, t.as_ptr(), v.as_ptr());
            let c = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(c, Some(on_error));
            let s = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, s);
            let mut bv = vec![std::ptr::null_mut(); 65];
            for w in 1..65 {
                bv[w] = Z3_mk_bv_sort(c, w as c_uint);
            }
            let _ = (Z3_mk_solver, Z3_mk_solver_for_logic);
            Z3 { c, s, bv, vars: vec![std::ptr::null_mut(); 256], ast: vec![], cache: FxMap::default(), tabc: FxMap::default() }
        }
    }
    pub fn size(&self) -> usize {
        self.ast.len()
    }
    fn put(&mut self, a: P) -> usize {
        self.ast.push(a);
        self.ast.len() - 1
    }
    fn is_bool(&self, a: P) -> bool {
        unsafe { Z3_get_sort_kind(self.c, Z3_get_sort(self.c, a)) == 1 }
    }
    fn var(&mut self, v: u16) -> P {
        if self.vars[v as usize].is_null() {
            unsafe {
                let n = CString::new(format!("b{v}")).unwrap();
                let s = Z3_mk_string_symbol(self.c, n.as_ptr());
                self.vars[v as usize] = Z3_mk_const(self.c, s, self.bv[8]);
            }
        }
        self.vars[v as usize]
    }
    pub fn push(&mut self) {
        unsafe { Z3_solver_push(self.c, self.s) }
    }
    pub fn pop(&mut self) {
        unsafe { Z3_solver_pop(self.c, self.s, 1) }
    }
    pub fn check(&mut self) -> i32 {
        unsafe { Z3_solver_check(self.c, self.s) }
    }
    fn in_set(&mut self, v: u16, s: &Set) -> P {
        unsafe {
            let x = self.var(v);
            let mut parts = vec![];
            let mut i = 0;
            while i < 256 {
                if has(s, i) {
                    let mut j = i;
                    while j + 1 < 256 && has(s, j + 1) {
                        j += 1;
                    }
                    let lo = Z3_mk_unsigned_int64(self.c, i as u64, self.bv[8]);
                    let hi = Z3_mk_unsigned_int64(self.c, j as u64, self.bv[8]);
                    parts.push(if i == j {
                        Z3_mk_eq(self.c, x, lo)
                    } else if i == 0 {
                        Z3_mk_bvule(self.c, x, hi)
                    } else if j == 255 {
                        Z3_mk_bvule(self.c, lo, x)
                    } else {
                        let a = [Z3_mk_bvule(self.c, lo, x), Z3_mk_bvule(self.c, x, hi)];
                        Z3_mk_and(self.c, 2, a.as_ptr())
                    });
                    i = j + 1;
                } else {
                    i += 1;
                }
            }
            match parts.len() {
                0 => Z3_mk_false(self.c),
                1 => parts[0],
                n => Z3_mk_or(self.c, n as c_uint, parts.as_ptr()),
            }
        }
    }
    pub fn assert_domain(&mut self, v: u16, s: &Set) {
        let a = self.in_set(v, s);
        unsafe { Z3_solver_assert(self.c, self.s, a) }
    }
    pub fn assert_bool(&mut self, a: usize, want: bool) {
        unsafe {
            let a = self.ast[a];
            let a = if want { a } else { Z3_mk_not(self.c, a) };
            Z3_solver_assert(self.c, self.s, a)
        }
    }
    pub fn model(&mut self, vs: &[u16]) -> Vec<Option<u8>> {
        unsafe {
            let m = Z3_solver_get_model(self.c, self.s);
            Z3_model_inc_ref(self.c, m);
            let mut o = vec![];
            for v in vs {
                let x = self.var(*v);
                let mut r: P = std::ptr::null_mut();
                let mut n = 0u64;
                if Z3_model_eval(self.c, m, x, false, &mut r) && Z3_get_numeral_uint64_safe(self.c, r, &mut n) {
                    o.push(Some(n as u8));
                } else {
                    o.push(None);
                }
            }
            Z3_model_dec_ref(self.c, m);
            o
        }
    }
    pub fn num(&mut self, c: u64, w: u8) -> usize {
        unsafe {
            let a = if w == 1 {
                if c != 0 {
                    Z3_mk_true(self.c)
                } else {
                    Z3_mk_false(self.c)
                }
            } else {
                Z3_mk_unsigned_int64(self.c, c, self.bv[w as usize])
            };
            self.put(a)
        }
    }
    /// convert Bool-sorted to a 1-bit vector
    pub fn to_bv(&mut self, a: usize, w: u8) -> usize {
        if w == 1 && self.is_bool(self.ast[a]) {
            unsafe {
                let one = Z3_mk_unsigned_int64(self.c, 1, self.bv[1]);
                let zero = Z3_mk_unsigned_int64(self.c, 0, self.bv[1]);
                let r = Z3_mk_ite(self.c, self.ast[a], one, zero);
                self.put(r)
            }
        } else {
            a
        }
    }
    pub fn table(&mut self, v: u16, w: u8, t: &Tab) -> usize {
        if w == 1 {
            if let Tab::B(s) = t {
                let a = self.in_set(v, s);
                return self.put(a);
            }
        }
        self.table_w(v, w, t)
    }
    pub fn table_w(&mut self, v: u16, w: u8, t: &Tab) -> usize {
        let key = (v, w, t as *const Tab as usize);
        let _ = &self.tabc;
        let _ = key;
        unsafe {
            let x = self.var(v);
            if (0..256).all(|i| t.get(i) == i as u64) && w >= 8 {
                let a = if w == 8 { x } else { Z3_mk_zero_ext(self.c, w as c_uint - 8, x) };
                return self.put(a);
            }
            // each output bit an xor of input bits
            let d: Vec<u64> = (0..8).map(|b| mask(t.get(1 << b) ^ t.get(0), w)).collect();
            let affine = (0..256).all(|i| {
                let mut y = mask(t.get(0), w);
                for b in 0..8 {
                    if i >> b & 1 != 0 {
                        y ^= d[b];
                    }
                }
                y == mask(t.get(i), w)
            });
            if affine {
                let mut a = Z3_mk_unsigned_int64(self.c, mask(t.get(0), w), self.bv[w as usize]);
                for b in 0..8 {
                    if d[b] != 0 {
                        let bit = Z3_mk_extract(self.c, b as c_uint, b as c_uint, x);
                        let one = Z3_mk_unsigned_int64(self.c, 1, self.bv[1]);
                        let c = Z3_mk_eq(self.c, bit, one);
                        let y = Z3_mk_unsigned_int64(self.c, d[b], self.bv[w as usize]);
                        let zero = Z3_mk_unsigned_int64(self.c, 0, self.bv[w as usize]);
                        let y = Z3_mk_ite(self.c, c, y, zero);
                        a = Z3_mk_bvxor(self.c, a, y);
                    }
                }
                return self.put(a);
            }
            // runs of equal values
            let so = self.bv[w as usize];
            let mut runs: Vec<(usize, usize, u64)> = vec![];
            for i in 0..256 {
                let y = mask(t.get(i), w);
                if let Some(r) = runs.last_mut() {
                    if r.2 == y {
                        r.1 = i;
                        continue;
                    }
                }
                runs.push((i, i, y));
            }
            let last = runs.pop().unwrap();
            let mut a = Z3_mk_unsigned_int64(self.c, last.2, so);
            for r in runs.iter().rev() {
                let hi = Z3_mk_unsigned_int64(self.c, r.1 as u64, self.bv[8]);
                let c = Z3_mk_bvule(self.c, x, hi);
                let y = Z3_mk_unsigned_int64(self.c, r.2, so);
                a = Z3_mk_ite(self.c, c, y, a);
            }
            self.put(a)
        }
    }
    pub fn bin(&mut self, op: Bop, w: u8, a: usize, b: usize) -> usize {
        unsafe {
            let (x, y) = (self.ast[a], self.ast[b]);
            let c = self.c;
            if w == 1 && self.is_bool(x) && self.is_bool(y) {
                let l = [x, y];
                let r = match op {
                    Bop::And | Bop::Mul => Z3_mk_and(c, 2, l.as_ptr()),
                    Bop::Or => Z3_mk_or(c, 2, l.as_ptr()),
                    Bop::Xor | Bop::Add | Bop::Sub => Z3_mk_xor(c, x, y),
                    _ => panic!("1-bit {:?}", op),
                };
                return self.put(r);
            }
            let r = match op {
                Bop::Add => Z3_mk_bvadd(c, x, y),
                Bop::Sub => Z3_mk_bvsub(c, x, y),
                Bop::Mul => Z3_mk_bvmul(c, x, y),
                Bop::UDiv => Z3_mk_bvudiv(c, x, y),
                Bop::SDiv => Z3_mk_bvsdiv(c, x, y),
                Bop::URem => Z3_mk_bvurem(c, x, y),
                Bop::SRem => Z3_mk_bvsrem(c, x, y),
                Bop::Shl => Z3_mk_bvshl(c, x, y),
                Bop::LShr => Z3_mk_bvlshr(c, x, y),
                Bop::AShr => Z3_mk_bvashr(c, x, y),
                Bop::And => Z3_mk_bvand(c, x, y),
                Bop::Or => Z3_mk_bvor(c, x, y),
                Bop::Xor => Z3_mk_bvxor(c, x, y),
            };
            self.put(r)
        }
    }
    pub fn icmp(&mut self, p: Pred, a: usize, b: usize) -> usize {
        unsafe {
            let (x, y) = (self.ast[a], self.ast[b]);
            let c = self.c;
            let r = match p {
                Pred::Eq => Z3_mk_eq(c, x, y),
                Pred::Ne => Z3_mk_not(c, Z3_mk_eq(c, x, y)),
                Pred::Ult => Z3_mk_bvult(c, x, y),
                Pred::Ule => Z3_mk_bvule(c, x, y),
                Pred::Ugt => Z3_mk_bvult(c, y, x),
                Pred::Uge => Z3_mk_bvule(c, y, x),
                Pred::Slt => Z3_mk_bvslt(c, x, y),
                Pred::Sle => Z3_mk_bvsle(c, x, y),
                Pred::Sgt => Z3_mk_bvslt(c, y, x),
                Pred::Sge => Z3_mk_bvsle(c, y, x),
            };
            self.put(r)
        }
    }
    pub fn zext(&mut self, a: usize, f: u8, t: u8) -> usize {
        let a = self.to_bv(a, f);
        self.zext_bv(a, f, t)
    }
    pub fn zext_bv(&mut self, a: usize, f: u8, t: u8) -> usize {
        if f == t {
            return a;
        }
        unsafe {
            let r = Z3_mk_zero_ext(self.c, (t - f) as c_uint, self.ast[a]);
            self.put(r)
        }
    }
    pub fn sext(&mut self, a: usize, f: u8, t: u8) -> usize {
        let a = self.to_bv(a, f);
        if f == t {
            return a;
        }
        unsafe {
            let r = Z3_mk_sign_ext(self.c, (t - f) as c_uint, self.ast[a]);
            self.put(r)
        }
    }
    pub fn extract_bv(&mut self, a: usize, h: u32, l: u32) -> usize {
        unsafe {
            let r = Z3_mk_extract(self.c, h, l, self.ast[a]);
            self.put(r)
        }
    }
    pub fn extract(&mut self, a: usize, h: u32, l: u32, w: u8) -> usize {
        let r = self.extract_bv(a, h, l);
        if w == 1 {
            unsafe {
                let one = Z3_mk_unsigned_int64(self.c, 1, self.bv[1]);
                let b = Z3_mk_eq(self.c, self.ast[r], one);
                return self.put(b);
            }
        }
        r
    }
    pub fn ite(&mut self, a: usize, b: usize, d: usize) -> usize {
        unsafe {
            let r = Z3_mk_ite(self.c, self.ast[a], self.ast[b], self.ast[d]);
            self.put(r)
        }
    }
}

#[allow(non_snake_case)]
unsafe fn Z3_get_numeral_uint64_safe(c: P, a: P, v: &mut u64) -> bool {
    // an unassigned constant evaluates to itself
    extern "C" {
        fn Z3_is_numeral_ast(c: P, a: P) -> bool;
    }
    Z3_is_numeral_ast(c, a) && Z3_get_numeral_uint64(c, a, v)
}
