//! Hash-consed expressions over symbolic bytes.
//!
//! Nodes over one byte variable are stored as their complete value table; linear
//! 64-bit sums over several bytes are kept in normal form; everything else is an
//! operator node. Conditions are decided by domain narrowing where one byte or
//! interval reasoning is enough and by z3 (QF_BV) otherwise.
use crate::ir::{mask, sext, Bop, Pred, Un};
use crate::z3::Z3;
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut x = 0u64;
            for (i, v) in c.iter().enumerate() {
                x |= (*v as u64) << (8 * i);
            }
            self.write_u64(x);
        }
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_u16(&mut self, x: u16) {
        self.write_u64(x as u64)
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct V {
    pub c: u64,
    pub e: u32,
}
impl V {
    #[inline(always)]
    pub fn k(c: u64) -> V {
        V { c, e: 0 }
    }
}

pub type Set = [u64; 4];
pub const EMPTY: Set = [0; 4];
pub fn has(s: &Set, i: usize) -> bool {
    s[i >> 6] >> (i & 63) & 1 == 1
}
pub fn put(s: &mut Set, i: usize) {
    s[i >> 6] |= 1 << (i & 63)
}
pub fn or(a: &Set, b: &Set) -> Set {
    [a[0] | b[0], a[1] | b[1], a[2] | b[2], a[3] | b[3]]
}
pub fn and(a: &Set, b: &Set) -> Set {
    [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]]
}
pub fn andn(a: &Set, b: &Set) -> Set {
    [a[0] & !b[0], a[1] & !b[1], a[2] & !b[2], a[3] & !b[3]]
}
pub fn is_empty(a: &Set) -> bool {
    a[0] | a[1] | a[2] | a[3] == 0
}
pub fn count(a: &Set) -> u32 {
    a.iter().map(|x| x.count_ones()).sum()
}
pub fn first(a: &Set) -> Option<usize> {
    for i in 0..4 {
        if a[i] != 0 {
            return Some(i * 64 + a[i].trailing_zeros() as usize);
        }
    }
    None
}
pub struct Bits {
    s: Set,
    i: usize,
}
pub fn bits(s: &Set) -> Bits {
    Bits { s: *s, i: 0 }
}
impl Iterator for Bits {
    type Item = usize;
    fn next(&mut self) -> Option<usize> {
        while self.i < 4 {
            if self.s[self.i] != 0 {
                let t = self.s[self.i].trailing_zeros() as usize;
                self.s[self.i] &= self.s[self.i] - 1;
                return Some(self.i * 64 + t);
            }
            self.i += 1;
        }
        None
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum O {
    Bin(Bop),
    Icmp(Pred, u8),
    Zext,
    Sext(u8),
    Trunc,
    Byte(u8),
    Ite,
    Un(Un),
}

pub enum Tab {
    B(Set),
    T8(Box<[u8; 256]>),
    T64(Box<[u64; 256]>),
}
impl Tab {
    #[inline]
    pub fn get(&self, i: usize) -> u64 {
        match self {
            Tab::B(s) => has(s, i) as u64,
            Tab::T8(t) => t[i] as u64,
            Tab::T64(t) => t[i],
        }
    }
}

pub enum K {
    Null,
    Tab { v: u16, t: Tab },
    Op { o: O, a: V, b: V, c: V },
    Lin { k: i64, t: Box<[(u32, i64)]> },
    /// bitwise or of a constant and of tables over different variables with disjoint bits
    Cat { k: u64, p: Box<[u32]> },
    Pos(u32),
    Zero(u32),
}

pub struct Node {
    pub k: K,
    pub w: u8,
    pub vars: Set,
    pub lo: i64,
    pub hi: i64,
    pub exact: bool,
    /// how often wrapping arithmetic mixes symbolic words (see `hard`)
    pub mix: u8,
}

/// Expressions that mix words this often (hash functions) are not given to the solver: the
/// bytes in them are enumerated instead.
pub const HARD: u8 = 8;

#[derive(Default, Clone, Debug)]
pub struct QStats {
    pub queries: u64,
    pub z3: u64,
    pub cached: u64,
    pub domain: u64,
    pub sat: u64,
    pub unsat: u64,
    pub gave_up: u64,
    pub z3_ns: u64,
    pub cross: u64,
    pub cross_bad: u64,
}

pub struct Exprs {
    pub n: Vec<Node>,
    opc: FxMap<(O, u8, V, V, V), V2>,
    tabs: FxMap<u64, Vec<u32>>,
    lins: FxMap<(i64, Box<[(u32, i64)]>), u32>,
    unary: FxMap<(u8, u32), u32>,
    cats: FxMap<(u8, u64, Box<[u32]>), u32>,
    pub z3: Z3,
    qcache: FxMap<Vec<u64>, Option<Vec<(u16, u8)>>>,
    pub st: QStats,
    pub cross_every: u64,
    pub debug: bool,
}

/// result of an operator: either a constant function (value computed from concrete side) or node
#[derive(Clone, Copy)]
enum V2 {
    Const(u64),
    E(u32),
}

pub const LIM: i128 = 1 << 62;

pub fn eval_bin(op: Bop, w: u8, x: u64, y: u64) -> u64 {
    let r = match op {
        Bop::Add => x.wrapping_add(y),
        Bop::Sub => x.wrapping_sub(y),
        Bop::Mul => x.wrapping_mul(y),
        Bop::UDiv => {
            if y == 0 {
                0
            } else {
                x / y
            }
        }
        Bop::URem => {
            if y == 0 {
                0
            } else {
                x % y
            }
        }
        Bop::SDiv => {
            let (a, b) = (sext(x, w) as i64, sext(y, w) as i64);
            if b == 0 {
                0
            } else {
                a.wrapping_div(b) as u64
            }
        }
        Bop::SRem => {
            let (a, b) = (sext(x, w) as i64, sext(y, w) as i64);
            if b == 0 {
                0
            } else {
                a.wrapping_rem(b) as u64
            }
        }
        Bop::Shl => {
            if y >= w as u64 {
                0
            } else {
                x << y
            }
        }
        Bop::LShr => {
            if y >= w as u64 {
                0
            } else {
                x >> y
            }
        }
        Bop::AShr => {
            let s = sext(x, w) as i64;
            (s >> y.min(63)) as u64
        }
        Bop::And => x & y,
        Bop::Or => x | y,
        Bop::Xor => x ^ y,
    };
    mask(r, w)
}
pub fn eval_icmp(p: Pred, w: u8, x: u64, y: u64) -> bool {
    match p {
        Pred::Eq => x == y,
        Pred::Ne => x != y,
        Pred::Ugt => x > y,
        Pred::Uge => x >= y,
        Pred::Ult => x < y,
        Pred::Ule => x <= y,
        _ => {
            let (a, b) = (sext(x, w) as i64, sext(y, w) as i64);
            match p {
                Pred::Sgt => a > b,
                Pred::Sge => a >= b,
                Pred::Slt => a < b,
                _ => a <= b,
            }
        }
    }
}
pub fn eval_un(u: Un, w: u8, x: u64) -> u64 {
    let r = match u {
        Un::Ctlz => {
            if x == 0 {
                w as u64
            } else {
                (x.leading_zeros() as u64) - (64 - w as u64)
            }
        }
        Un::Cttz => {
            if x == 0 {
                w as u64
            } else {
                x.trailing_zeros() as u64
            }
        }
        Un::Ctpop => x.count_ones() as u64,
        Un::Bswap => x.swap_bytes() >> (64 - w),
        Un::Bitrev => x.reverse_bits() >> (64 - w),
        Un::Abs => (sext(x, w) as i64).wrapping_abs() as u64,
    };
    mask(r, w)
}
pub fn eval_op(o: O, w: u8, a: u64, b: u64, c: u64) -> u64 {
    match o {
        O::Bin(op) => eval_bin(op, w, a, b),
        O::Icmp(p, ow) => eval_icmp(p, ow, a, b) as u64,
        O::Zext => a,
        O::Sext(f) => mask(sext(a, f), w),
        O::Trunc => mask(a, w),
        O::Byte(i) => a >> (8 * i as u32) & 0xff,
        O::Ite => {
            if a != 0 {
                b
            } else {
                c
            }
        }
        O::Un(u) => eval_un(u, w, a),
    }
}

/// Constraints of the current path.
#[derive(Clone, Default)]
pub struct Path {
    pub dom: Vec<Set>,
    pub multi: Vec<(u32, bool)>,
}

enum Cl {
    True,
    False,
    Unit(u32, bool),
    Open,
}

pub enum Res {
    Unsat,
    Sat(Vec<(u16, u8)>),
    Unknown,
}

impl Exprs {
    pub fn new() -> Self {
        Exprs {
            n: vec![Node { k: K::Null, w: 0, vars: EMPTY, lo: 0, hi: 0, exact: false, mix: 0 }],
            opc: FxMap::default(),
            tabs: FxMap::default(),
            lins: FxMap::default(),
            unary: FxMap::default(),
            cats: FxMap::default(),
            z3: Z3::new(),
            qcache: FxMap::default(),
            st: QStats::default(),
            cross_every: 0,
            debug: std::env::var("SYMVM_DEBUG").is_ok(),
        }
    }
    /// forget everything (between runs) when the tables have grown large
    pub fn maybe_reset(&mut self) {
        if self.n.len() > 400_000 || self.qcache.len() > 300_000 {
            self.n.truncate(1);
            self.opc.clear();
            self.tabs.clear();
            self.lins.clear();
            self.unary.clear();
            self.cats.clear();
            self.qcache.clear();
            self.z3 = Z3::new();
        } else if self.z3.size() > 600_000 {
            self.z3 = Z3::new();
        }
    }

    pub fn var(&mut self, i: u16) -> u32 {
        let mut t = [0u8; 256];
        for k in 0..256 {
            t[k] = k as u8;
        }
        match self.mk_tab(i, 8, |k| t[k] as u64) {
            V2::E(e) => e,
            _ => unreachable!(),
        }
    }

    fn mk_tab(&mut self, v: u16, w: u8, f: impl Fn(usize) -> u64) -> V2 {
        let mut t = [0u64; 256];
        let mut mx = 0;
        let mut mn = u64::MAX;
        for k in 0..256 {
            t[k] = f(k);
            mx = mx.max(t[k]);
            mn = mn.min(t[k]);
        }
        if mx == mn {
            return V2::Const(mx);
        }
        let mut h = Fx::default();
        h.write_u16(v);
        h.write_u8(w);
        for k in 0..256 {
            h.write_u64(t[k]);
        }
        let h = h.finish();
        if let Some(c) = self.tabs.get(&h) {
            for &e in c {
                let n = &self.n[e as usize];
                if n.w == w {
                    if let K::Tab { v: v2, t: t2 } = &n.k {
                        if *v2 == v && (0..256).all(|k| t2.get(k) == t[k]) {
                            return V2::E(e);
                        }
                    }
                }
            }
        }
        let tab = if w == 1 {
            let mut s = EMPTY;
            for k in 0..256 {
                if t[k] != 0 {
                    put(&mut s, k);
                }
            }
            Tab::B(s)
        } else if mx < 256 {
            let mut x = Box::new([0u8; 256]);
            for k in 0..256 {
                x[k] = t[k] as u8;
            }
            Tab::T8(x)
        } else {
            Tab::T64(Box::new(t))
        };
        let mut vars = EMPTY;
        put(&mut vars, v as usize);
        let e = self.n.len() as u32;
        let exact = (mx as i128) < LIM;
        self.n.push(Node {
            k: K::Tab { v, t: tab },
            w,
            vars,
            lo: if exact { mn as i64 } else { 0 },
            hi: if exact { mx as i64 } else { 0 },
            exact,
            mix: 0,
        });
        self.tabs.entry(h).or_default().push(e);
        V2::E(e)
    }

    /// table node built from explicit values (used for loads at symbolic addresses)
    pub fn table(&mut self, v: u16, w: u8, t: &[u64; 256], conc: u64) -> V {
        match self.mk_tab(v, w, |k| t[k]) {
            V2::Const(_) => V::k(conc),
            V2::E(e) => V { c: conc, e },
        }
    }

    #[inline]
    fn vars_of(&self, v: V) -> Set {
        if v.e == 0 {
            EMPTY
        } else {
            self.n[v.e as usize].vars
        }
    }
    fn tv(&self, v: V, i: usize) -> u64 {
        if v.e == 0 {
            v.c
        } else {
            match &self.n[v.e as usize].k {
                K::Tab { t, .. } => t.get(i),
                _ => unreachable!(),
            }
        }
    }
    pub fn single(&self, e: u32) -> Option<u16> {
        match &self.n[e as usize].k {
            K::Tab { v, .. } => Some(*v),
            _ => None,
        }
    }
    pub fn tab_get(&self, e: u32, i: usize) -> u64 {
        match &self.n[e as usize].k {
            K::Tab { t, .. } => t.get(i),
            _ => panic!("tab_get"),
        }
    }

    fn fin(&self, r: V2, conc: u64) -> V {
        match r {
            V2::Const(_) => V::k(conc),
            V2::E(e) => V { c: conc, e },
        }
    }

    /// Generic operator; `conc` is the concrete result.
    pub fn op(&mut self, o: O, w: u8, a: V, b: V, c: V, conc: u64) -> V {
        // the cache key must not depend on the concrete side of symbolic operands
        let z = |v: V| if v.e == 0 { v } else { V { c: 0, e: v.e } };
        let key = (o, w, z(a), z(b), z(c));
        if let Some(r) = self.opc.get(&key) {
            return self.fin(*r, conc);
        }
        let vars = or(&or(&self.vars_of(a), &self.vars_of(b)), &self.vars_of(c));
        let r = if count(&vars) == 1 {
            let v = first(&vars).unwrap() as u16;
            let mut t = [0u64; 256];
            for k in 0..256 {
                t[k] = eval_op(o, w, self.tv(a, k), self.tv(b, k), self.tv(c, k));
            }
            self.mk_tab(v, w, |k| t[k])
        } else {
            self.multi(o, w, z(a), z(b), z(c), vars)
        };
        self.opc.insert(key, r);
        self.fin(r, conc)
    }

    fn push_node(&mut self, k: K, w: u8, vars: Set, b: Option<(i64, i64)>) -> u32 {
        let e = self.n.len() as u32;
        let (lo, hi, exact) = match b {
            Some((l, h)) => (l, h, true),
            None if w < 62 => (0, (1i64 << w) - 1, true),
            None => (0, 0, false),
        };
        let m = |e: u32| self.n[e as usize].mix;
        let mix = match &k {
            K::Null | K::Tab { .. } | K::Cat { .. } => 0,
            K::Pos(e) | K::Zero(e) => m(*e),
            K::Lin { t, .. } => t.iter().map(|(e, _)| m(*e)).max().unwrap_or(0),
            K::Op { o, a, b, c } => {
                let x = m(a.e).max(m(b.e)).max(m(c.e));
                let both = a.e != 0 && b.e != 0;
                match o {
                    O::Bin(Bop::Add | Bop::Sub | Bop::Xor) if w >= 32 && both => x.saturating_add(1),
                    O::Bin(Bop::Mul) if w >= 32 && both => x.saturating_add(4),
                    O::Bin(Bop::Mul) if w >= 32 && !(if a.e == 0 { a.c } else { b.c }).is_power_of_two() => x.saturating_add(2),
                    O::Bin(Bop::UDiv | Bop::URem | Bop::SDiv | Bop::SRem) if w >= 32 => x.saturating_add(2),
                    _ => x,
                }
            }
        };
        self.n.push(Node { k, w, vars, lo, hi, exact, mix });
        e
    }

    fn lin_of(&self, v: V) -> Option<(i64, Vec<(u32, i64)>)> {
        if v.e == 0 {
            let x = v.c as i64;
            if (x as i128).abs() < LIM {
                Some((x, vec![]))
            } else {
                None
            }
        } else {
            let n = &self.n[v.e as usize];
            match &n.k {
                K::Lin { k, t } => Some((*k, t.to_vec())),
                K::Cat { k, p } if n.exact && n.lo >= 0 => Some((*k as i64, p.iter().map(|e| (*e, 1)).collect())),
                _ if n.exact && n.lo >= 0 => Some((0, vec![(v.e, 1)])),
                _ => None,
            }
        }
    }

    fn lin_bounds(&self, k: i64, t: &[(u32, i64)]) -> Option<(i64, i64)> {
        let mut lo = k as i128;
        let mut hi = k as i128;
        for (e, c) in t {
            let n = &self.n[*e as usize];
            let (a, b) = (n.lo as i128 * *c as i128, n.hi as i128 * *c as i128);
            lo += a.min(b);
            hi += a.max(b);
        }
        if lo > -LIM && hi < LIM {
            Some((lo as i64, hi as i64))
        } else {
            None
        }
    }

    fn comb(&self, a: &(i64, Vec<(u32, i64)>), ca: i64, b: &(i64, Vec<(u32, i64)>), cb: i64) -> Option<(i64, Vec<(u32, i64)>)> {
        let k = a.0.checked_mul(ca)?.checked_add(b.0.checked_mul(cb)?)?;
        let mut t: Vec<(u32, i64)> = Vec::with_capacity(a.1.len() + b.1.len());
        let (mut i, mut j) = (0, 0);
        while i < a.1.len() || j < b.1.len() {
            if j >= b.1.len() || (i < a.1.len() && a.1[i].0 < b.1[j].0) {
                t.push((a.1[i].0, a.1[i].1.checked_mul(ca)?));
                i += 1;
            } else if i >= a.1.len() || b.1[j].0 < a.1[i].0 {
                t.push((b.1[j].0, b.1[j].1.checked_mul(cb)?));
                j += 1;
            } else {
                let c = a.1[i].1.checked_mul(ca)?.checked_add(b.1[j].1.checked_mul(cb)?)?;
                if c != 0 {
                    t.push((a.1[i].0, c));
                }
                i += 1;
                j += 1;
            }
        }
        Some((k, t))
    }

    fn mk_lin(&mut self, k: i64, t: Vec<(u32, i64)>) -> Option<V2> {
        let b = self.lin_bounds(k, &t)?;
        if t.is_empty() {
            return Some(V2::Const(k as u64));
        }
        let mut vars = EMPTY;
        for (e, _) in &t {
            vars = or(&vars, &self.n[*e as usize].vars);
        }
        if count(&vars) == 1 {
            let v = first(&vars).unwrap() as u16;
            let mut tab = [0u64; 256];
            for i in 0..256 {
                let mut s = k;
                for (e, c) in &t {
                    s = s.wrapping_add((self.tv(V { c: 0, e: *e }, i) as i64).wrapping_mul(*c));
                }
                tab[i] = s as u64;
            }
            return Some(self.mk_tab(v, 64, |i| tab[i]));
        }
        if t.len() == 1 && t[0].1 == 1 && k == 0 {
            return Some(V2::E(t[0].0));
        }
        let bx = t.into_boxed_slice();
        if let Some(&e) = self.lins.get(&(k, bx.clone())) {
            return Some(V2::E(e));
        }
        let e = self.push_node(K::Lin { k, t: bx.clone() }, 64, vars, Some(b));
        self.lins.insert((k, bx), e);
        Some(V2::E(e))
    }

    /// boolean node for lin > 0 (kind 0) or lin == 0 (kind 1)
    fn mk_cmp(&mut self, kind: u8, k: i64, t: Vec<(u32, i64)>) -> Option<V2> {
        let (lo, hi) = self.lin_bounds(k, &t)?;
        if kind == 0 {
            if lo > 0 {
                return Some(V2::Const(1));
            }
            if hi <= 0 {
                return Some(V2::Const(0));
            }
        } else {
            if lo > 0 || hi < 0 {
                return Some(V2::Const(0));
            }
            if lo == 0 && hi == 0 {
                return Some(V2::Const(1));
            }
        }
        let l = self.mk_lin(k, t)?;
        let e = match l {
            V2::Const(c) => return Some(V2::Const(if kind == 0 { (c as i64 > 0) as u64 } else { (c == 0) as u64 })),
            V2::E(e) => e,
        };
        if let K::Tab { v, t } = &self.n[e as usize].k {
            let v = *v;
            let mut tab = [0u64; 256];
            for i in 0..256 {
                let x = t.get(i) as i64;
                tab[i] = if kind == 0 { (x > 0) as u64 } else { (x == 0) as u64 };
            }
            return Some(self.mk_tab(v, 1, |i| tab[i]));
        }
        if let Some(&r) = self.unary.get(&(kind, e)) {
            return Some(V2::E(r));
        }
        let vars = self.n[e as usize].vars;
        let r = self.push_node(if kind == 0 { K::Pos(e) } else { K::Zero(e) }, 1, vars, None);
        self.unary.insert((kind, e), r);
        Some(V2::E(r))
    }

    fn bounds(&self, v: V) -> Option<(i64, i64)> {
        if v.e == 0 {
            if (v.c as i64) >= 0 && (v.c as i128) < LIM {
                Some((v.c as i64, v.c as i64))
            } else {
                None
            }
        } else {
            let n = &self.n[v.e as usize];
            if n.exact {
                Some((n.lo, n.hi))
            } else {
                None
            }
        }
    }

    /// constant and single-variable parts of a value, if it has that shape
    fn parts(&self, v: V) -> Option<(u64, Vec<u32>)> {
        if v.e == 0 {
            return Some((v.c, vec![]));
        }
        match &self.n[v.e as usize].k {
            K::Tab { .. } => Some((0, vec![v.e])),
            K::Cat { k, p } => Some((*k, p.to_vec())),
            _ => None,
        }
    }
    fn tab_mask(&self, e: u32) -> u64 {
        let t = match &self.n[e as usize].k {
            K::Tab { t, .. } => t,
            _ => unreachable!(),
        };
        let mut m = 0;
        for i in 0..256 {
            m |= t.get(i);
        }
        m
    }
    fn tab_var(&self, e: u32) -> u16 {
        match &self.n[e as usize].k {
            K::Tab { v, .. } => *v,
            _ => unreachable!(),
        }
    }

    /// or of the constant and the tables; None if bits of different variables overlap
    fn mk_cat(&mut self, w: u8, k: u64, parts: &[u32]) -> Option<V2> {
        let mut by: Vec<(u16, [u64; 256])> = vec![];
        for &e in parts {
            let v = self.tab_var(e);
            let i = match by.iter().position(|x| x.0 == v) {
                Some(i) => i,
                None => {
                    by.push((v, [0; 256]));
                    by.len() - 1
                }
            };
            for j in 0..256 {
                by[i].1[j] |= self.tv(V { c: 0, e }, j) & !k;
            }
        }
        by.sort_by_key(|x| x.0);
        let mut used = k;
        let mut kk = k;
        let mut ps: Vec<u32> = vec![];
        let mut vars = EMPTY;
        for (v, t) in by.iter_mut() {
            let m = t.iter().fold(0, |a, b| a | b);
            if used & m != 0 {
                return None;
            }
            used |= m;
            // bits that are always set belong to the constant
            let c = t.iter().fold(u64::MAX, |a, b| a & b);
            kk |= c;
            for x in t.iter_mut() {
                *x &= !c;
            }
            match self.mk_tab(*v, w, |i| t[i]) {
                V2::Const(0) => {}
                V2::Const(_) => unreachable!(),
                V2::E(e) => {
                    ps.push(e);
                    put(&mut vars, *v as usize);
                }
            }
        }
        if ps.is_empty() {
            return Some(V2::Const(kk));
        }
        if ps.len() == 1 {
            let e = ps[0];
            let v = self.tab_var(e);
            let mut t = [0u64; 256];
            for i in 0..256 {
                t[i] = self.tv(V { c: 0, e }, i) | kk;
            }
            return Some(self.mk_tab(v, w, |i| t[i]));
        }
        let bx = ps.into_boxed_slice();
        if let Some(&e) = self.cats.get(&(w, kk, bx.clone())) {
            return Some(V2::E(e));
        }
        let b = if used < 1 << 62 { Some((kk as i64, used as i64)) } else { None };
        let e = self.push_node(K::Cat { k: kk, p: bx.clone() }, w, vars, b);
        if b.is_none() {
            self.n[e as usize].exact = false;
        }
        self.cats.insert((w, kk, bx), e);
        Some(V2::E(e))
    }

    /// apply a bitwise-distributive function to every part
    fn map_cat(&mut self, w: u8, k: u64, parts: &[u32], f: impl Fn(u64) -> u64) -> Option<V2> {
        let mut ps = vec![];
        let mut kk = f(k);
        for &e in parts {
            let v = self.tab_var(e);
            let mut t = [0u64; 256];
            for i in 0..256 {
                t[i] = f(self.tv(V { c: 0, e }, i));
            }
            match self.mk_tab(v, w, |i| t[i]) {
                V2::Const(c) => kk |= c,
                V2::E(e) => ps.push(e),
            }
        }
        self.mk_cat(w, kk, &ps)
    }

    fn conj(&mut self, l: Vec<V2>) -> V2 {
        let mut acc: Option<u32> = None;
        for x in l {
            match x {
                V2::Const(0) => return V2::Const(0),
                V2::Const(_) => {}
                V2::E(e) => {
                    acc = Some(match acc {
                        None => e,
                        Some(a) => {
                            let r = self.op(O::Bin(Bop::And), 1, V { c: 0, e: a }, V { c: 0, e }, V::k(0), 0);
                            if r.e == 0 {
                                return V2::Const(0);
                            }
                            r.e
                        }
                    })
                }
            }
        }
        acc.map_or(V2::Const(1), V2::E)
    }
    fn neg(&mut self, x: V2) -> V2 {
        match x {
            V2::Const(c) => V2::Const(1 - c),
            V2::E(e) => {
                let r = self.op(O::Bin(Bop::Xor), 1, V { c: 0, e }, V::k(1), V::k(0), 0);
                V2::E(r.e)
            }
        }
    }

    fn cat_op(&mut self, o: O, w: u8, a: V, b: V) -> Option<V2> {
        if w == 1 && !matches!(o, O::Icmp(..)) {
            return None;
        }
        match o {
            O::Bin(op @ (Bop::Or | Bop::Xor | Bop::Add)) => {
                if op == Bop::Add && w == 64 {
                    return None;
                }
                if op == Bop::Xor && (a.e == 0 || b.e == 0) {
                    let (x, m) = if a.e == 0 { (b, a.c) } else { (a, b.c) };
                    let (k, p) = self.parts(x)?;
                    let mut kk = k ^ m;
                    let mut ps = vec![];
                    for e in p {
                        let tm = self.tab_mask(e);
                        kk &= !tm;
                        let v = self.tab_var(e);
                        let mut t = [0u64; 256];
                        for i in 0..256 {
                            t[i] = self.tv(V { c: 0, e }, i) ^ (m & tm);
                        }
                        match self.mk_tab(v, w, |i| t[i]) {
                            V2::Const(c) => kk |= c,
                            V2::E(e) => ps.push(e),
                        }
                    }
                    return self.mk_cat(w, kk, &ps);
                }
                let (k1, mut p1) = self.parts(a)?;
                let (k2, p2) = self.parts(b)?;
                if op != Bop::Or {
                    let m1 = p1.iter().fold(k1, |m, e| m | self.tab_mask(*e));
                    let m2 = p2.iter().fold(k2, |m, e| m | self.tab_mask(*e));
                    if m1 & m2 != 0 {
                        return None;
                    }
                }
                p1.extend(p2);
                self.mk_cat(w, k1 | k2, &p1)
            }
            O::Bin(Bop::And) => {
                let (x, m) = if a.e == 0 { (b, a.c) } else if b.e == 0 { (a, b.c) } else { return None };
                let (k, p) = self.parts(x)?;
                self.map_cat(w, k, &p, |y| y & m)
            }
            O::Bin(op @ (Bop::Shl | Bop::LShr)) if b.e == 0 && b.c < w as u64 => {
                let (k, p) = self.parts(a)?;
                self.map_cat(w, k, &p, |y| eval_bin(op, w, y, b.c))
            }
            O::Zext | O::Trunc | O::Byte(_) => {
                let (k, p) = self.parts(a)?;
                self.map_cat(w, k, &p, |y| eval_op(o, w, y, 0, 0))
            }
            O::Un(Un::Bswap) => {
                let (k, p) = self.parts(a)?;
                self.map_cat(w, k, &p, |y| eval_un(Un::Bswap, w, y))
            }
            O::Icmp(p @ (Pred::Eq | Pred::Ne), ow) if ow > 1 => {
                // x | y == 0
                if a.e != 0 && b.e == 0 && b.c == 0 {
                    if let K::Op { o: O::Bin(Bop::Or), a: x, b: y, .. } = &self.n[a.e as usize].k {
                        let (x, y) = (*x, *y);
                        if x.e != 0 && y.e != 0 {
                            let mut l = vec![];
                            for q in [x, y] {
                                let r = self.op(O::Icmp(Pred::Eq, ow), 1, q, V::k(0), V::k(0), u64::MAX);
                                if r.e == 0 {
                                    // never zero on both concrete sides: keep the generic node
                                    return None;
                                }
                                l.push(V2::E(r.e));
                            }
                            let r = self.conj(l);
                            return Some(if p == Pred::Ne { self.neg(r) } else { r });
                        }
                    }
                }
                let (k1, p1) = self.parts(a)?;
                let (k2, p2) = self.parts(b)?;
                let mut l = vec![];
                if p2.is_empty() || p1.is_empty() {
                    let (k, ps, c) = if p2.is_empty() { (k1, p1, k2) } else { (k2, p2, k1) };
                    if ps.len() < 2 {
                        return None;
                    }
                    let all = ps.iter().fold(k, |m, e| m | self.tab_mask(*e));
                    if c & !all != 0 || k & !c != 0 {
                        return Some(V2::Const((p == Pred::Ne) as u64));
                    }
                    for e in ps {
                        let m = self.tab_mask(e);
                        let r = self.op(O::Icmp(Pred::Eq, ow), 1, V { c: 0, e }, V::k(c & m), V::k(0), 0);
                        if r.e == 0 {
                            // constant: decide from any table entry
                            if self.tv(V { c: 0, e }, 0) != c & m {
                                l.push(V2::Const(0));
                            }
                        } else {
                            l.push(V2::E(r.e));
                        }
                    }
                } else {
                    let m1: Vec<u64> = p1.iter().map(|e| self.tab_mask(*e)).collect();
                    let m2: Vec<u64> = p2.iter().map(|e| self.tab_mask(*e)).collect();
                    if k1 != k2 || p1.len() != p2.len() || p1.len() < 2 {
                        return None;
                    }
                    for (i, e) in p1.iter().enumerate() {
                        let j = m2.iter().position(|m| *m == m1[i])?;
                        let r = self.op(O::Icmp(Pred::Eq, ow), 1, V { c: 0, e: *e }, V { c: 0, e: p2[j] }, V::k(0), 0);
                        if r.e == 0 {
                            return None;
                        }
                        l.push(V2::E(r.e));
                    }
                }
                let r = self.conj(l);
                Some(if p == Pred::Ne { self.neg(r) } else { r })
            }
            _ => None,
        }
    }

    fn multi(&mut self, o: O, w: u8, a: V, b: V, c: V, vars: Set) -> V2 {
        if let Some(r) = self.cat_op(o, w, a, b) {
            return r;
        }
        match o {
            O::Bin(Bop::Add | Bop::Sub) if w == 64 => {
                if let (Some(x), Some(y)) = (self.lin_of(a), self.lin_of(b)) {
                    let s = if o == O::Bin(Bop::Add) { 1 } else { -1 };
                    if let Some((k, t)) = self.comb(&x, 1, &y, s) {
                        if let Some(r) = self.mk_lin(k, t) {
                            return r;
                        }
                    }
                }
            }
            O::Bin(Bop::Add) if w < 62 => {
                // no wrap: keep as a linear sum in 64 bits is not done; generic node
            }
            O::Bin(Bop::Mul | Bop::Shl) if w == 64 && b.e == 0 => {
                let f = if o == O::Bin(Bop::Mul) { b.c as i64 } else if b.c < 40 { 1i64 << b.c } else { 0 };
                if f > 0 && f < 1 << 40 {
                    if let Some(x) = self.lin_of(a) {
                        if let Some((k, t)) = self.comb(&x, f, &(0, vec![]), 1) {
                            if let Some(r) = self.mk_lin(k, t) {
                                return r;
                            }
                        }
                    }
                }
            }
            O::Bin(Bop::Xor) if w == 1 && b.e == 0 && b.c == 1 => {
                // not (not x) = x
                if let K::Op { o: O::Bin(Bop::Xor), a: a2, b: b2, .. } = &self.n[a.e as usize].k {
                    if b2.e == 0 && b2.c == 1 {
                        return V2::E(a2.e);
                    }
                }
            }
            O::Bin(Bop::And) => {
                for (x, y) in [(a, b), (b, a)] {
                    if x.e == 0 {
                        if x.c == 0 {
                            return V2::Const(0);
                        }
                        if x.c == mask(u64::MAX, w) {
                            return V2::E(y.e);
                        }
                        if let Some((lo, hi)) = self.bounds(y) {
                            // mask that covers the whole range
                            if lo >= 0 && (x.c & (x.c.wrapping_add(1))) == 0 && (hi as u64) <= x.c {
                                return V2::E(y.e);
                            }
                        }
                    }
                }
                if a.e == b.e {
                    return V2::E(a.e);
                }
            }
            O::Bin(Bop::Or) => {
                for (x, y) in [(a, b), (b, a)] {
                    if x.e == 0 {
                        if x.c == 0 {
                            return V2::E(y.e);
                        }
                        if x.c == mask(u64::MAX, w) {
                            return V2::Const(x.c);
                        }
                    }
                }
                if a.e == b.e {
                    return V2::E(a.e);
                }
            }
            O::Bin(Bop::LShr) if b.e == 0 => {
                if b.c == 0 {
                    return V2::E(a.e);
                }
                if let Some((lo, hi)) = self.bounds(a) {
                    if lo >= 0 && b.c < 63 && hi >> b.c == 0 {
                        return V2::Const(0);
                    }
                }
            }
            O::Icmp(p, ow) => {
                if a == b {
                    return V2::Const(matches!(p, Pred::Eq | Pred::Uge | Pred::Ule | Pred::Sge | Pred::Sle) as u64);
                }
                if ow == 1 && b.e == 0 && matches!(p, Pred::Eq | Pred::Ne) {
                    let neg = (p == Pred::Eq) == (b.c == 0);
                    if !neg {
                        return V2::E(a.e);
                    }
                    let r = self.op(O::Bin(Bop::Xor), 1, a, V::k(1), V::k(0), 0);
                    return if r.e != 0 { V2::E(r.e) } else { V2::Const(0) };
                }
                // comparisons of a widened boolean
                if b.e == 0 && matches!(p, Pred::Eq | Pred::Ne) {
                    if let K::Op { o: O::Zext, a: x, .. } = &self.n[a.e as usize].k {
                        let x = *x;
                        if self.n[x.e as usize].w == 1 {
                            if b.c > 1 {
                                return V2::Const((p == Pred::Ne) as u64);
                            }
                            let r = V2::E(x.e);
                            return if (p == Pred::Eq) == (b.c == 1) { r } else { self.neg(r) };
                        }
                    }
                }
                // range tests written as x - c < n
                if b.e == 0 && matches!(p, Pred::Ult | Pred::Ule | Pred::Ugt | Pred::Uge) {
                    let n = match p {
                        Pred::Ult | Pred::Uge => b.c as i128,
                        _ => b.c as i128 + 1,
                    };
                    let pos = matches!(p, Pred::Ult | Pred::Ule);
                    let wrap = 1i128 << ow;
                    let mut rng: Option<(i64, Vec<(u32, i64)>)> = None;
                    match &self.n[a.e as usize].k {
                        K::Op { o: O::Bin(Bop::Add), a: x, b: c, .. } if c.e == 0 && x.e != 0 => {
                            let nx = &self.n[x.e as usize];
                            let c = wrap - c.c as i128;
                            if nx.exact && nx.lo >= 0 && c > 0 && c < 1 << 40 && n <= wrap - c {
                                let t = match &nx.k {
                                    K::Cat { k, p } => (*k as i64, p.iter().map(|e| (*e, 1)).collect()),
                                    _ => (0, vec![(x.e, 1)]),
                                };
                                rng = Some((t.0 - c as i64, t.1));
                            }
                        }
                        K::Lin { k, t } if ow == 64 && self.n[a.e as usize].lo < 0 && n < 1 << 62 => {
                            rng = Some((*k, t.to_vec()));
                        }
                        _ => {}
                    }
                    if let Some((k, t)) = rng {
                        if n <= 0 {
                            return V2::Const(!pos as u64);
                        }
                        // k + t >= 0 and k + t < n
                        let lo = self.mk_cmp(0, k + 1, t.clone());
                        let tn: Vec<(u32, i64)> = t.iter().map(|(e, c)| (*e, -*c)).collect();
                        let hi = self.mk_cmp(0, n as i64 - k, tn);
                        if let (Some(lo), Some(hi)) = (lo, hi) {
                            let r = self.conj(vec![lo, hi]);
                            return if pos { r } else { self.neg(r) };
                        }
                    }
                }
                let ok = if ow == 64 {
                    true
                } else {
                    // narrower values: usable when exact and non-negative in their width
                    true
                };
                if ok {
                    let wide = matches!(p, Pred::Eq | Pred::Ne | Pred::Ult | Pred::Ule | Pred::Ugt | Pred::Uge);
                    let la = if ow == 64 { self.lin_of(a) } else { self.lin_narrow(a, ow, wide) };
                    let lb = if ow == 64 { self.lin_of(b) } else { self.lin_narrow(b, ow, wide) };
                    if let (Some(x), Some(y)) = (la, lb) {
                        let ba = self.lin_bounds(x.0, &x.1);
                        let bb = self.lin_bounds(y.0, &y.1);
                        if let (Some(ba), Some(bb)) = (ba, bb) {
                            let signed = matches!(p, Pred::Sgt | Pred::Sge | Pred::Slt | Pred::Sle);
                            let eq = matches!(p, Pred::Eq | Pred::Ne);
                            if (ba.0 >= 0 && bb.0 >= 0) || (ow == 64 && (signed || eq)) {
                                let r = match p {
                                    Pred::Eq | Pred::Ne => self.comb(&x, 1, &y, -1).and_then(|(k, t)| self.mk_cmp(1, k, t)),
                                    Pred::Ugt | Pred::Sgt | Pred::Ule | Pred::Sle => {
                                        self.comb(&x, 1, &y, -1).and_then(|(k, t)| self.mk_cmp(0, k, t))
                                    }
                                    _ => self.comb(&y, 1, &x, -1).and_then(|(k, t)| self.mk_cmp(0, k, t)),
                                };
                                if let Some(r) = r {
                                    let neg = matches!(p, Pred::Ne | Pred::Ule | Pred::Sle | Pred::Uge | Pred::Sge);
                                    return match (r, neg) {
                                        (r, false) => r,
                                        (V2::Const(c), true) => V2::Const(1 - c),
                                        (V2::E(e), true) => {
                                            let r = self.op(O::Bin(Bop::Xor), 1, V { c: 0, e }, V::k(1), V::k(0), 0);
                                            if r.e != 0 {
                                                V2::E(r.e)
                                            } else {
                                                V2::Const(0)
                                            }
                                        }
                                    };
                                }
                            }
                        }
                    }
                }
            }
            O::Trunc if w == 1 => {
                if let K::Op { o, a: x, b: y, .. } = &self.n[a.e as usize].k {
                    let (o, x, y) = (*o, *x, *y);
                    match o {
                        O::Zext if self.n[x.e as usize].w == 1 => return V2::E(x.e),
                        O::Bin(Bop::And | Bop::Or | Bop::Xor) if x.e != 0 && y.e != 0 => {
                            let x = self.op(O::Trunc, 1, V { c: 0, e: x.e }, V::k(0), V::k(0), 0);
                            let y = self.op(O::Trunc, 1, V { c: 0, e: y.e }, V::k(0), V::k(0), 0);
                            if x.e != 0 && y.e != 0 {
                                let r = self.op(o, 1, x, y, V::k(0), 0);
                                if r.e != 0 {
                                    return V2::E(r.e);
                                }
                            }
                        }
                        _ => {}
                    }
                }
            }
            O::Ite => {
                if b == c {
                    return if b.e == 0 { V2::Const(b.c) } else { V2::E(b.e) };
                }
                if w == 1 && b.e == 0 && c.e == 0 {
                    if b.c == 1 {
                        return V2::E(a.e);
                    }
                    let r = self.op(O::Bin(Bop::Xor), 1, a, V::k(1), V::k(0), 0);
                    return V2::E(r.e);
                }
            }
            _ => {}
        }
        let bd = match o {
            O::Zext => self.bounds(a),
            O::Ite => match (self.bounds(b), self.bounds(c)) {
                (Some(x), Some(y)) => Some((x.0.min(y.0), x.1.max(y.1))),
                _ => None,
            },
            O::Bin(Bop::And) if a.e == 0 && a.c < 1 << 62 => Some((0, a.c as i64)),
            O::Bin(Bop::And) if b.e == 0 && b.c < 1 << 62 => Some((0, b.c as i64)),
            O::Bin(Bop::Or | Bop::Xor) => match (self.bounds(a), self.bounds(b)) {
                (Some(x), Some(y)) if x.0 >= 0 && y.0 >= 0 => {
                    let m = (x.1 | y.1) as u64;
                    let m = if m == 0 { 0 } else { u64::MAX >> m.leading_zeros() };
                    if m < 1 << 62 {
                        Some((0, m as i64))
                    } else {
                        None
                    }
                }
                _ => None,
            },
            O::Bin(Bop::Add) if w < 62 => match (self.bounds(a), self.bounds(b)) {
                (Some(x), Some(y)) if x.0 >= 0 && y.0 >= 0 && x.1 + y.1 < 1 << w => Some((x.0 + y.0, x.1 + y.1)),
                _ => None,
            },
            _ => None,
        };
        V2::E(self.push_node(K::Op { o, a, b, c }, w, vars, bd))
    }

    fn lin_narrow(&self, v: V, w: u8, unsigned: bool) -> Option<(i64, Vec<(u32, i64)>)> {
        if v.e == 0 {
            return Some((v.c as i64, vec![]));
        }
        let n = &self.n[v.e as usize];
        if n.exact && n.lo >= 0 && (unsigned || (n.hi as u64) < (1u64 << (w - 1).min(62))) {
            match &n.k {
                K::Cat { k, p } => Some((*k as i64, p.iter().map(|e| (*e, 1)).collect())),
                _ => Some((0, vec![(v.e, 1)])),
            }
        } else {
            None
        }
    }

    pub fn not(&mut self, e: u32, conc: bool) -> V {
        self.op(O::Bin(Bop::Xor), 1, V { c: conc as u64, e }, V::k(1), V::k(0), !conc as u64)
    }

    // ---------------------------------------------------------------- solving

    /// flatten e == want into literals
    fn literals(&self, e: u32, want: bool, out: &mut Vec<(u32, bool)>) {
        if let K::Op { o: O::Bin(op), a, b, .. } = &self.n[e as usize].k {
            if self.n[e as usize].w == 1 {
                match (op, want) {
                    (Bop::And, true) | (Bop::Or, false) => {
                        if a.e != 0 && b.e != 0 {
                            self.literals(a.e, want, out);
                            self.literals(b.e, want, out);
                            return;
                        }
                    }
                    (Bop::Xor, _) if b.e == 0 && b.c == 1 => {
                        self.literals(a.e, !want, out);
                        return;
                    }
                    _ => {}
                }
            }
        }
        out.push((e, want));
    }

    fn iv(&self, e: u32, dom: &[Set]) -> (i64, i64) {
        let n = &self.n[e as usize];
        match &n.k {
            K::Tab { v, t } => {
                let mut lo = i64::MAX;
                let mut hi = i64::MIN;
                for i in bits(&dom[*v as usize]) {
                    let x = t.get(i) as i64;
                    lo = lo.min(x);
                    hi = hi.max(x);
                }
                (lo, hi)
            }
            K::Lin { k, t } => {
                let (mut lo, mut hi) = (*k, *k);
                for (x, c) in t.iter() {
                    let (a, b) = self.iv(*x, dom);
                    if a > b {
                        return (0, 0);
                    }
                    let (p, q) = (a * c, b * c);
                    lo += p.min(q);
                    hi += p.max(q);
                }
                (lo, hi)
            }
            _ => (n.lo, n.hi),
        }
    }

    /// Narrow domains by the literal; returns None if contradictory, Some(true) if the literal is now implied.
    fn narrow(&self, e: u32, want: bool, dom: &mut [Set]) -> Option<bool> {
        match &self.n[e as usize].k {
            K::Tab { v, t } => {
                let v = *v as usize;
                let s = match t {
                    Tab::B(s) => *s,
                    _ => unreachable!(),
                };
                dom[v] = if want { and(&dom[v], &s) } else { andn(&dom[v], &s) };
                if is_empty(&dom[v]) {
                    None
                } else {
                    Some(true)
                }
            }
            K::Pos(l) | K::Zero(l) => {
                let zero = matches!(self.n[e as usize].k, K::Zero(_));
                // required interval for the sum
                let (rlo, rhi) = match (zero, want) {
                    (false, true) => (1i64, i64::MAX),
                    (false, false) => (i64::MIN, 0),
                    (true, true) => (0, 0),
                    (true, false) => {
                        let (lo, hi) = self.iv(*l, dom);
                        if lo == 0 && hi == 0 {
                            return None;
                        }
                        return Some(lo > 0 || hi < 0);
                    }
                };
                let (lo, hi) = self.iv(*l, dom);
                if lo > rhi || hi < rlo {
                    return None;
                }
                if lo >= rlo && hi <= rhi {
                    return Some(true);
                }
                let single;
                let (k, t): (i64, &[(u32, i64)]) = match &self.n[*l as usize].k {
                    K::Lin { k, t } => (*k, t),
                    _ => {
                        single = [(*l, 1i64)];
                        (0, &single)
                    }
                };
                let _ = k;
                let mut changed = true;
                let mut rounds = 0;
                while changed && rounds < 4 {
                    changed = false;
                    rounds += 1;
                    let (lo, hi) = self.iv(*l, dom);
                    if lo > rhi || hi < rlo {
                        return None;
                    }
                    for (x, c) in t.iter() {
                        if let K::Tab { v, t: tab } = &self.n[*x as usize].k {
                            let v = *v as usize;
                            let (a, b) = self.iv(*x, dom);
                            let (tlo, thi) = ((a * c).min(b * c), (a * c).max(b * c));
                            let (olo, ohi) = (lo - tlo, hi - thi);
                            let mut nd = dom[v];
                            for i in bits(&dom[v]) {
                                let y = (tab.get(i) as i64) * c;
                                // y + [olo,ohi] must meet [rlo,rhi]
                                if y.saturating_add(olo) > rhi || y.saturating_add(ohi) < rlo {
                                    nd[i >> 6] &= !(1 << (i & 63));
                                }
                            }
                            if nd != dom[v] {
                                if is_empty(&nd) {
                                    return None;
                                }
                                dom[v] = nd;
                                changed = true;
                                break;
                            }
                        }
                    }
                }
                let (lo, hi) = self.iv(*l, dom);
                Some(lo >= rlo && hi <= rhi)
            }
            _ => Some(false),
        }
    }

    /// Is the truth value of e fixed by the domains alone?
    pub fn implied(&self, e: u32, p: &Path) -> Option<bool> {
        self.implied_d(e, &p.dom)
    }
    fn implied_d(&self, e: u32, pdom: &[Set]) -> Option<bool> {
        match &self.n[e as usize].k {
            K::Tab { v, t: Tab::B(s) } => {
                let d = &pdom[*v as usize];
                if is_empty(&andn(d, s)) {
                    Some(true)
                } else if is_empty(&and(d, s)) {
                    Some(false)
                } else {
                    None
                }
            }
            K::Pos(l) => {
                let (lo, hi) = self.iv(*l, pdom);
                if lo > 0 {
                    Some(true)
                } else if hi <= 0 {
                    Some(false)
                } else {
                    None
                }
            }
            K::Zero(l) => {
                let (lo, hi) = self.iv(*l, pdom);
                if lo > 0 || hi < 0 {
                    Some(false)
                } else if lo == 0 && hi == 0 {
                    Some(true)
                } else {
                    None
                }
            }
            K::Op { o: O::Bin(Bop::Xor), a, b, .. } if self.n[e as usize].w == 1 && b.e == 0 && b.c == 1 => {
                self.implied_d(a.e, pdom).map(|x| !x)
            }
            K::Op { o: O::Bin(op @ (Bop::And | Bop::Or)), a, b, .. } if self.n[e as usize].w == 1 && a.e != 0 && b.e != 0 => {
                let x = self.implied_d(a.e, pdom);
                let y = self.implied_d(b.e, pdom);
                let dom = *op == Bop::Or; // dominating value
                if x == Some(dom) || y == Some(dom) {
                    Some(dom)
                } else if x == Some(!dom) && y == Some(!dom) {
                    Some(!dom)
                } else {
                    None
                }
            }
            _ => None,
        }
    }

    /// Add e == want to the path; the caller guarantees that it is satisfiable.
    pub fn add(&mut self, p: &mut Path, e: u32, want: bool) {
        if e == 0 {
            return;
        }
        let mut l = vec![];
        self.literals(e, want, &mut l);
        let mut work = l;
        loop {
            let before: Vec<Set> = p.dom.clone();
            for (e, w) in work.drain(..) {
                match self.narrow(e, w, &mut p.dom) {
                    Some(true) => {}
                    Some(false) => {
                        if !p.multi.contains(&(e, w)) {
                            p.multi.push((e, w))
                        }
                    }
                    None => panic!("contradictory path constraint"),
                }
            }
            // propagate into linear constraints whose variables changed
            let mut ch = EMPTY;
            for (i, d) in p.dom.iter().enumerate() {
                if before[i] != *d {
                    put(&mut ch, i);
                }
            }
            if is_empty(&ch) {
                break;
            }
            let mut i = 0;
            while i < p.multi.len() {
                let (e, w) = p.multi[i];
                if !is_empty(&and(&self.n[e as usize].vars, &ch)) {
                    if matches!(self.n[e as usize].k, K::Pos(_) | K::Zero(_)) {
                        work.push((e, w));
                        p.multi.swap_remove(i);
                        continue;
                    }
                    if self.implied(e, p) == Some(w) {
                        p.multi.swap_remove(i);
                        continue;
                    }
                }
                i += 1;
            }
            if work.is_empty() {
                break;
            }
        }
    }

    /// Can the path be extended by all the given literals?
    pub fn solve(&mut self, p: &Path, lits: &[(u32, bool)], cur: &[u8]) -> Res {
        self.st.queries += 1;
        let mut l = vec![];
        for (e, w) in lits {
            // node 0 stands for the constant true
            if *e == 0 {
                if !*w {
                    self.st.domain += 1;
                    self.st.unsat += 1;
                    return Res::Unsat;
                }
                continue;
            }
            self.literals(*e, *w, &mut l);
        }
        let mut dom = p.dom.clone();
        let mut rest: Vec<(u32, bool)> = vec![];
        let mut unsat = false;
        for (e, w) in &l {
            match self.narrow(*e, *w, &mut dom) {
                None => {
                    unsat = true;
                    break;
                }
                Some(true) => {}
                Some(false) => rest.push((*e, *w)),
            }
        }
        let cross = self.cross_every != 0 && self.st.queries % self.cross_every == 0;
        if unsat {
            self.st.domain += 1;
            self.st.unsat += 1;
            if cross {
                self.st.cross += 1;
                let r = self.z3_full(p, &l);
                if !matches!(r, Res::Unsat) {
                    self.st.cross_bad += 1;
                }
            }
            return Res::Unsat;
        }
        let mut rel = EMPTY;
        for (e, _) in &l {
            rel = or(&rel, &self.n[*e as usize].vars);
        }
        for i in 0..dom.len() {
            if dom[i] != p.dom[i] {
                put(&mut rel, i);
            }
        }
        // connected constraints
        let mut used = vec![false; p.multi.len()];
        loop {
            let mut ch = false;
            for (i, (e, w)) in p.multi.iter().enumerate() {
                if !used[i] && !is_empty(&and(&self.n[*e as usize].vars, &rel)) {
                    used[i] = true;
                    if !rest.contains(&(*e, *w)) {
                        rest.push((*e, *w));
                    }
                    rel = or(&rel, &self.n[*e as usize].vars);
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        if rest.is_empty() {
            self.st.domain += 1;
            self.st.sat += 1;
            let mut m = vec![];
            for v in bits(&rel) {
                let d = &dom[v];
                let c = cur[v] as usize;
                m.push((v as u16, if has(d, c) { c as u8 } else { first(d).unwrap() as u8 }));
            }
            if cross {
                self.st.cross += 1;
                if !matches!(self.z3_full(p, &l), Res::Sat(_)) {
                    self.st.cross_bad += 1;
                }
            }
            return Res::Sat(m);
        }
        rest.sort();
        // clauses over single bytes: unit propagation
        let mut ch = true;
        while ch {
            ch = false;
            let mut i = 0;
            while i < rest.len() {
                let (e, w) = rest[i];
                match self.clause(e, w, &dom) {
                    Cl::True => {
                        rest.swap_remove(i);
                        ch = true;
                        continue;
                    }
                    Cl::False => {
                        self.st.domain += 1;
                        self.st.unsat += 1;
                        return Res::Unsat;
                    }
                    Cl::Unit(e2, w2) => {
                        if self.narrow(e2, w2, &mut dom).is_none() {
                            self.st.domain += 1;
                            self.st.unsat += 1;
                            return Res::Unsat;
                        }
                        rest.swap_remove(i);
                        ch = true;
                        continue;
                    }
                    Cl::Open => {}
                }
                i += 1;
            }
        }
        // candidates: the current values moved into the domains, then the first and the last values
        let mut cand = cur.to_vec();
        if cand.len() < dom.len() {
            cand.resize(dom.len(), 0);
        }
        for pass in 0..3 {
            for v in bits(&rel) {
                let d = &dom[v];
                if pass == 1 {
                    cand[v] = first(d).unwrap() as u8;
                } else if pass == 2 {
                    cand[v] = bits(d).last().unwrap() as u8;
                } else if !has(d, cand[v] as usize) {
                    cand[v] = first(d).unwrap() as u8;
                }
            }
            let mut memo = FxMap::default();
            if rest.iter().all(|(e, w)| (self.eval(*e, &cand, &mut memo) & 1 == 1) == *w) {
                self.st.domain += 1;
                self.st.sat += 1;
                return Res::Sat(bits(&rel).map(|v| (v as u16, cand[v])).collect());
            }
        }
        rest.sort();
        let mut key: Vec<u64> = rest.iter().map(|(e, w)| (*e as u64) << 1 | *w as u64).collect();
        key.push(u64::MAX);
        for v in bits(&rel) {
            key.push(v as u64);
            key.extend_from_slice(&dom[v]);
        }
        if let Some(r) = self.qcache.get(&key) {
            self.st.cached += 1;
            return match r {
                None => {
                    self.st.unsat += 1;
                    Res::Unsat
                }
                Some(m) => {
                    self.st.sat += 1;
                    Res::Sat(m.clone())
                }
            };
        }
        self.st.z3 += 1;
        if self.debug && self.st.z3 % 500 == 1 {
            for (e, w) in &rest {
                eprintln!("  {} {}", w, self.show(*e, 6));
            }
            eprintln!("  ---- {:?}", bits(&rel).map(|v| (v, count(&dom[v]))).collect::<Vec<_>>());
        }
        let t0 = std::time::Instant::now();
        let r = self.z3_query(&rest, &rel, &dom);
        self.st.z3_ns += t0.elapsed().as_nanos() as u64;
        match &r {
            Res::Unsat => {
                self.st.unsat += 1;
                self.qcache.insert(key, None);
            }
            Res::Sat(m) => {
                self.st.sat += 1;
                self.qcache.insert(key, Some(m.clone()));
            }
            Res::Unknown => self.st.gave_up += 1,
        }
        r
    }

    /// readable form of a node, for debugging
    pub fn show(&self, e: u32, d: u32) -> String {
        let n = &self.n[e as usize];
        if d == 0 {
            return "..".into();
        }
        let v = |x: &V| if x.e == 0 { format!("{}", x.c) } else { self.show(x.e, d - 1) };
        match &n.k {
            K::Null => "null".into(),
            K::Tab { v, t } => match t {
                Tab::B(s) => format!("v{}in{}", v, if count(s) < 6 { format!("{:?}", bits(s).collect::<Vec<_>>()) } else { format!("#{}", count(s)) }),
                _ => format!("tab{}(v{})", n.w, v),
            },
            K::Lin { k, t } => format!("({}{})", k, t.iter().map(|(e, c)| format!("+{}*{}", c, self.show(*e, d - 1))).collect::<String>()),
            K::Cat { k, p } => format!("cat({}{})", k, p.iter().map(|e| format!("|{}", self.show(*e, d - 1))).collect::<String>()),
            K::Pos(l) => format!("{}>0", self.show(*l, d - 1)),
            K::Zero(l) => format!("{}==0", self.show(*l, d - 1)),
            K::Op { o, a, b, c } => format!("{:?}:{}({}, {}, {})", o, n.w, v(a), v(b), v(c)),
        }
    }

    /// status of a literal that is a disjunction of other literals
    fn clause(&self, e: u32, w: bool, dom: &[Set]) -> Cl {
        let mut l = vec![];
        if !self.disj(e, w, &mut l, 0) {
            return Cl::Open;
        }
        let mut open = None;
        let mut n = 0;
        for (x, y) in l {
            match self.implied_d(x, dom) {
                Some(b) if b == y => return Cl::True,
                Some(_) => {}
                None => {
                    n += 1;
                    open = Some((x, y));
                }
            }
        }
        match (n, open) {
            (0, _) => Cl::False,
            (1, Some((x, y))) if matches!(self.n[x as usize].k, K::Tab { .. }) => Cl::Unit(x, y),
            _ => Cl::Open,
        }
    }
    fn disj(&self, e: u32, w: bool, out: &mut Vec<(u32, bool)>, d: u32) -> bool {
        if d > 64 {
            return false;
        }
        if let K::Op { o: O::Bin(op), a, b, .. } = &self.n[e as usize].k {
            if self.n[e as usize].w == 1 {
                match (op, w) {
                    (Bop::And, false) | (Bop::Or, true) if a.e != 0 && b.e != 0 => {
                        return self.disj(a.e, w, out, d + 1) && self.disj(b.e, w, out, d + 1);
                    }
                    (Bop::Xor, _) if b.e == 0 && b.c == 1 => return self.disj(a.e, !w, out, d + 1),
                    _ => {}
                }
            }
        }
        out.push((e, w));
        true
    }

    /// concrete value under an assignment
    pub fn eval(&self, e: u32, m: &[u8], memo: &mut FxMap<u32, u64>) -> u64 {
        let n = &self.n[e as usize];
        if let K::Tab { v, t } = &n.k {
            return t.get(m[*v as usize] as usize);
        }
        if let Some(x) = memo.get(&e) {
            return *x;
        }
        let r = match &n.k {
            K::Null | K::Tab { .. } => unreachable!(),
            K::Lin { k, t } => {
                let mut s = *k;
                for (x, c) in t.iter() {
                    s = s.wrapping_add((self.eval(*x, m, memo) as i64).wrapping_mul(*c));
                }
                s as u64
            }
            K::Cat { k, p } => p.iter().fold(*k, |s, x| s | self.eval(*x, m, memo)),
            K::Pos(l) => (self.eval(*l, m, memo) as i64 > 0) as u64,
            K::Zero(l) => (self.eval(*l, m, memo) == 0) as u64,
            K::Op { o, a, b, c } => {
                let mut f = |v: &V| if v.e == 0 { v.c } else { self.eval(v.e, m, memo) };
                let (x, y, q) = (f(a), f(b), f(c));
                eval_op(*o, n.w, x, y, q)
            }
        };
        memo.insert(e, r);
        r
    }

    fn z3_full(&mut self, p: &Path, l: &[(u32, bool)]) -> Res {
        let mut rest: Vec<(u32, bool)> = p.multi.clone();
        rest.extend_from_slice(l);
        let mut rel = EMPTY;
        for (e, _) in &rest {
            rel = or(&rel, &self.n[*e as usize].vars);
        }
        let t0 = std::time::Instant::now();
        let r = self.z3_query(&rest, &rel, &p.dom.clone());
        self.st.z3_ns += t0.elapsed().as_nanos() as u64;
        r
    }

    fn z3_query(&mut self, rest: &[(u32, bool)], rel: &Set, dom: &[Set]) -> Res {
        let mut z = std::mem::replace(&mut self.z3, Z3::null());
        z.push();
        for v in bits(rel) {
            z.assert_domain(v as u16, &dom[v]);
        }
        for (e, w) in rest {
            let a = self.enc(&mut z, *e, dom);
            z.assert_bool(a, *w);
        }
        let r = z.check();
        let res = match r {
            -1 => Res::Unsat,
            1 => {
                let vs: Vec<u16> = bits(rel).map(|v| v as u16).collect();
                let m = z.model(&vs);
                let mut out = vec![];
                for (v, x) in vs.iter().zip(m) {
                    let d = &dom[*v as usize];
                    let x = match x {
                        Some(x) => x,
                        None => first(d).unwrap() as u8,
                    };
                    out.push((*v, x));
                }
                Res::Sat(out)
            }
            _ => Res::Unknown,
        };
        z.pop();
        self.z3 = z;
        res
    }

    fn enc_v(&self, z: &mut Z3, v: V, w: u8, dom: &[Set]) -> usize {
        if v.e == 0 {
            z.num(v.c, w)
        } else {
            self.enc(z, v.e, dom)
        }
    }

    /// z3 term for the node (booleans are Bool-sorted, others bit-vectors)
    fn enc(&self, z: &mut Z3, e: u32, dom: &[Set]) -> usize {
        if let Some(a) = z.cache.get(&e) {
            return *a;
        }
        let n = &self.n[e as usize];
        let a = match &n.k {
            K::Null => panic!(),
            K::Tab { v, t } => z.table(*v, n.w, t),
            K::Lin { .. } => self.enc_lin(z, e, 64, dom),
            K::Cat { k, p } => {
                let mut s = z.num(*k, n.w);
                for x in p.iter() {
                    let a = self.enc(z, *x, dom);
                    s = z.bin(Bop::Or, n.w, s, a);
                }
                s
            }
            K::Pos(l) | K::Zero(l) => {
                let (lo, hi) = (self.n[*l as usize].lo, self.n[*l as usize].hi);
                let m = (lo.unsigned_abs()).max(hi.unsigned_abs());
                let w = (64 - m.leading_zeros() + 1).max(2) as u8;
                let x = self.enc_lin(z, *l, w, dom);
                let zero = z.num(0, w);
                if matches!(n.k, K::Pos(_)) {
                    z.icmp(Pred::Sgt, x, zero)
                } else {
                    z.icmp(Pred::Eq, x, zero)
                }
            }
            K::Op { o, a, b, c } => match o {
                O::Bin(op) => {
                    let x = self.enc_v(z, *a, n.w, dom);
                    let y = self.enc_v(z, *b, n.w, dom);
                    z.bin(*op, n.w, x, y)
                }
                O::Icmp(p, ow) => {
                    let x = self.enc_v(z, *a, *ow, dom);
                    let y = self.enc_v(z, *b, *ow, dom);
                    if *ow == 1 {
                        let (x, y) = (z.to_bv(x, 1), z.to_bv(y, 1));
                        z.icmp(*p, x, y)
                    } else {
                        z.icmp(*p, x, y)
                    }
                }
                O::Zext => {
                    let f = self.n[a.e as usize].w;
                    let x = self.enc(z, a.e, dom);
                    z.zext(x, f, n.w)
                }
                O::Sext(f) => {
                    let x = self.enc(z, a.e, dom);
                    z.sext(x, *f, n.w)
                }
                O::Trunc => {
                    let x = self.enc(z, a.e, dom);
                    z.extract(x, n.w as u32 - 1, 0, n.w)
                }
                O::Byte(i) => {
                    let f = self.n[a.e as usize].w;
                    let x = self.enc(z, a.e, dom);
                    let lo = 8 * *i as u32;
                    if f as u32 >= lo + 8 {
                        z.extract(x, lo + 7, lo, 8)
                    } else {
                        // short top byte
                        let x = z.to_bv(x, f);
                        let y = if lo > 0 || (f as u32) < 8 {
                            let y = z.extract_bv(x, f as u32 - 1, lo);
                            y
                        } else {
                            x
                        };
                        z.zext_bv(y, (f as u32 - lo) as u8, 8)
                    }
                }
                O::Ite => {
                    let x = self.enc(z, a.e, dom);
                    let y = self.enc_v(z, *b, n.w, dom);
                    let y2 = self.enc_v(z, *c, n.w, dom);
                    z.ite(x, y, y2)
                }
                O::Un(_) => panic!("unary operator over several bytes"),
            },
        };
        z.cache.insert(e, a);
        a
    }

    fn enc_lin(&self, z: &mut Z3, e: u32, w: u8, dom: &[Set]) -> usize {
        let single;
        let (k, t): (i64, &[(u32, i64)]) = match &self.n[e as usize].k {
            K::Lin { k, t } => (*k, t),
            _ => {
                single = [(e, 1i64)];
                (0, &single)
            }
        };
        let mut s = z.num(mask(k as u64, w), w);
        for (x, c) in t.iter() {
            let n = &self.n[*x as usize];
            let a = match &n.k {
                K::Tab { v, t } => z.table_w(*v, w, t),
                _ => {
                    let a = self.enc(z, *x, dom);
                    let a = z.to_bv(a, n.w);
                    if n.w > w {
                        z.extract_bv(a, w as u32 - 1, 0)
                    } else {
                        z.zext_bv(a, n.w, w)
                    }
                }
            };
            let cc = z.num(mask(*c as u64, w), w);
            let m = if *c == 1 { a } else { z.bin(Bop::Mul, w, a, cc) };
            s = z.bin(Bop::Add, w, s, m);
        }
        s
    }
}
