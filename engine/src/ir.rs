//! Textual LLVM IR (as written by the toolchain's llvm-dis) -> compact code for the VM.
//! Function bodies are lowered on first use.
use std::collections::HashMap;
use std::sync::OnceLock;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Fp(u32),
    Arr(u64, Box<Ty>),
    Vec(u64, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Label,
    Meta,
}

fn align_up(x: u64, a: u64) -> u64 {
    (x + a - 1) / a * a
}

impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Label | Ty::Meta => 0,
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                align_up(b, self.align())
            }
            Ty::Ptr => 8,
            Ty::Fp(w) => (*w as u64) / 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => match **t {
                Ty::Int(w) => (n * w as u64 + 7) / 8,
                _ => n * t.size(),
            },
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f {
                    if !packed {
                        o = align_up(o, t.align());
                    }
                    o += t.size();
                }
                if !packed {
                    o = align_up(o, self.align());
                }
                o
            }
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr => 8,
            Ty::Fp(w) => (*w as u64) / 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.size().next_power_of_two(),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !packed {
                        o = align_up(o, t.align());
                    }
                    if k == i {
                        return o;
                    }
                    o += t.size();
                }
                panic!("field index")
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => t.size() * i as u64,
            _ => panic!("field_off"),
        }
    }
    pub fn field(&self, i: usize) -> &Ty {
        match self {
            Ty::Struct(f, _) => &f[i],
            Ty::Arr(_, t) | Ty::Vec(_, t) => t,
            _ => panic!("field"),
        }
    }
    pub fn nslots(&self) -> usize {
        match self {
            Ty::Void | Ty::Label | Ty::Meta => 0,
            Ty::Int(w) => {
                if *w > 64 {
                    2
                } else {
                    1
                }
            }
            Ty::Ptr | Ty::Fp(_) => 1,
            Ty::Arr(n, t) | Ty::Vec(n, t) => *n as usize * t.nslots(),
            Ty::Struct(f, _) => f.iter().map(|t| t.nslots()).sum(),
        }
    }
    /// (offset, width in bits) of each slot
    pub fn leaves(&self, off: u64, out: &mut Vec<(u64, u8)>) {
        match self {
            Ty::Void | Ty::Label | Ty::Meta => {}
            Ty::Int(w) => {
                if *w > 64 {
                    out.push((off, 64));
                    out.push((off + 8, (*w - 64) as u8));
                } else {
                    out.push((off, *w as u8));
                }
            }
            Ty::Ptr => out.push((off, 64)),
            Ty::Fp(w) => out.push((off, (*w).min(64) as u8)),
            Ty::Vec(n, t) => {
                for i in 0..*n {
                    t.leaves(off + i * t.size(), out)
                }
            }
            Ty::Arr(n, t) => {
                for i in 0..*n {
                    t.leaves(off + i * t.size(), out)
                }
            }
            Ty::Struct(f, _) => {
                for (i, t) in f.iter().enumerate() {
                    t.leaves(off + self.field_off(i), out)
                }
            }
        }
    }
    /// slot index of field i within the flattened aggregate
    pub fn slot_of(&self, i: usize) -> usize {
        match self {
            Ty::Struct(f, _) => f[..i].iter().map(|t| t.nslots()).sum(),
            Ty::Arr(_, t) | Ty::Vec(_, t) => i * t.nslots(),
            _ => panic!("slot_of"),
        }
    }
}

pub type Op = i32; // >=0 register slot, <0 constant -(k+1)

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
#[repr(u8)]
pub enum Bop {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
#[repr(u8)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Un {
    Ctlz,
    Cttz,
    Ctpop,
    Bswap,
    Bitrev,
    Abs,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Intr {
    Memcpy,
    Memmove,
    Memset,
    UAddO,
    USubO,
    UMulO,
    SAddO,
    SSubO,
    SMulO,
    UMax,
    UMin,
    SMax,
    SMin,
    USubSat,
    UAddSat,
    UnOp(Un),
    Fshl,
    Fshr,
    UCmp,
    SCmp,
    IsConst,
    Assume,
    Trap,
    Ident,
    Nop,
    VReduce(Bop),
    MaskedNop,
}

#[derive(Debug)]
pub struct Edge {
    pub pc: u32,
    pub cov: u32,
    pub copies: Box<[(u32, Op)]>,
    /// copies read registers written by earlier copies
    pub hazard: bool,
}

#[derive(Debug)]
pub enum I {
    Bin { op: Bop, w: u8, d: u32, a: Op, b: Op },
    Icmp { p: Pred, w: u8, d: u32, a: Op, b: Op },
    Zext { f: u8, t: u8, d: u32, a: Op },
    Sext { f: u8, t: u8, d: u32, a: Op },
    Trunc { t: u8, d: u32, a: Op },
    Copy { d: u32, a: Op },
    Copies { c: Box<[(u32, Op)]> },
    Select { d: u32, c: Op, ab: Box<[(Op, Op, u8)]>, ptr: bool },
    Load { d: u32, a: Op, w: u8 },
    LoadN { d: u32, a: Op, l: Box<[(u64, u8)]> },
    Store { a: Op, v: Op, w: u8 },
    StoreN { a: Op, l: Box<[(u64, u8, Op)]> },
    LoadBits { d: u32, a: Op, n: u32 },
    StoreBits { a: Op, v: Box<[Op]> },
    Gep { d: u32, b: Op, off: i64, t: Box<[(Op, i64, u8)]> },
    Alloca { d: u32, size: u64, align: u64, n: Op },
    Call { f: u32, args: Box<[Op]>, d: u32, n: u8 },
    CallInd { f: Op, args: Box<[Op]>, d: u32, n: u8 },
    Intr { k: Intr, w: u8, args: Box<[Op]>, d: u32 },
    BinN { op: Bop, w: u8, d: u32, ab: Box<[(Op, Op)]> },
    IcmpN { p: Pred, w: u8, d: u32, ab: Box<[(Op, Op)]> },
    CastN { k: u8, f: u8, t: u8, d: u32, a: Box<[Op]> },
    PackBits { d: u32, a: Box<[Op]> },
    Wide { op: WideOp, d: u32, a: [Op; 2], b: [Op; 2], w: u32 },
    Br(Box<Edge>),
    CondBr { c: Op, t: Box<Edge>, f: Box<Edge> },
    Switch { v: Op, w: u8, cases: Box<[(u64, u32)]>, def: u32, edges: Box<[Edge]> },
    Ret(Box<[Op]>),
    AtomicRmw { op: u8, w: u8, d: u32, a: Op, v: Op },
    CmpXchg { w: u8, d: u32, a: Op, c: Op, n: Op },
    Unreachable,
    Unsupported(String),
    ExtractDyn { d: u32, base: Box<[Op]>, i: Op },
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum WideOp {
    Bin(Bop),
    Icmp(Pred),
    Zext(u8),
    Trunc(u8),
}

#[derive(Debug)]
pub struct Func {
    pub code: Vec<I>,
    pub consts: Vec<u64>,
    pub nslots: u32,
    pub nparams: u32,
}

pub struct FuncDecl {
    pub name: String,
    pub params: Vec<(String, Ty)>,
    pub ret: Ty,
    pub body: Option<(usize, usize)>,
    pub func: OnceLock<Func>,
    pub idx: u32,
}

#[derive(Clone)]
pub struct Global {
    pub name: String,
    pub addr: u64,
    pub size: u64,
    pub constant: bool,
}

pub const FN_BASE: u64 = 0x0100_0000_0000;
pub const GLOBAL_BASE: u64 = 0x1_0000;

pub struct Module {
    pub text: String,
    pub funcs: Vec<FuncDecl>,
    pub fidx: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub gidx: HashMap<String, usize>,
    pub image: Vec<u8>, // from GLOBAL_BASE; constants first, writable after
    pub writable_from: u64,
    pub end: u64,
    pub types: HashMap<String, Ty>,
    pub aliases: HashMap<String, String>,
    pub ncov: std::sync::atomic::AtomicU32,
    pub covinfo: std::sync::Mutex<Vec<(u32, u32)>>, // (func, block)
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum T<'a> {
    Word(&'a str),
    Local(&'a str),
    Global(&'a str),
    Num(&'a str),
    Str(&'a str), // contents between quotes, raw
    CStr(&'a str),
    Meta(&'a str),
    Attr,
    P(u8),
    Eof,
}

#[derive(Clone)]
struct Lx<'a> {
    s: &'a str,
    p: usize,
}

fn is_id(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl<'a> Lx<'a> {
    fn next(&mut self) -> T<'a> {
        let b = self.s.as_bytes();
        loop {
            while self.p < b.len() && (b[self.p] == b' ' || b[self.p] == b'\n' || b[self.p] == b'\t') {
                self.p += 1;
            }
            if self.p < b.len() && b[self.p] == b';' {
                while self.p < b.len() && b[self.p] != b'\n' {
                    self.p += 1;
                }
            } else {
                break;
            }
        }
        if self.p >= b.len() {
            return T::Eof;
        }
        let st = self.p;
        let c = b[st];
        let ident = |p: &mut usize| -> &'a str {
            if *p < b.len() && b[*p] == b'"' {
                let s = *p + 1;
                let mut e = s;
                while b[e] != b'"' {
                    e += 1;
                }
                *p = e + 1;
                &self.s[s..e]
            } else {
                let s = *p;
                while *p < b.len() && is_id(b[*p]) {
                    *p += 1;
                }
                &self.s[s..*p]
            }
        };
        match c {
            b'%' => {
                let mut p = st + 1;
                let r = ident(&mut p);
                self.p = p;
                T::Local(r)
            }
            b'@' => {
                let mut p = st + 1;
                let r = ident(&mut p);
                self.p = p;
                T::Global(r)
            }
            b'!' => {
                let mut p = st + 1;
                let r = ident(&mut p);
                self.p = p;
                T::Meta(r)
            }
            b'#' => {
                let mut p = st + 1;
                let _ = ident(&mut p);
                self.p = p;
                T::Attr
            }
            b'"' => {
                let mut p = st;
                let r = ident(&mut p);
                self.p = p;
                T::Str(r)
            }
            b'c' if st + 1 < b.len() && b[st + 1] == b'"' => {
                let mut p = st + 1;
                let r = ident(&mut p);
                self.p = p;
                T::CStr(r)
            }
            b'0'..=b'9' | b'-' => {
                let mut p = st + 1;
                while p < b.len() && (is_id(b[p]) || (b[p] == b'+' && (b[p - 1] == b'e'))) {
                    p += 1;
                }
                self.p = p;
                T::Num(&self.s[st..p])
            }
            _ if c.is_ascii_alphabetic() || c == b'_' || c == b'.' || c == b'$' => {
                let mut p = st;
                while p < b.len() && is_id(b[p]) {
                    p += 1;
                }
                self.p = p;
                T::Word(&self.s[st..p])
            }
            _ => {
                self.p += 1;
                T::P(c)
            }
        }
    }
    fn peek(&self) -> T<'a> {
        let mut c = self.clone();
        c.next()
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.peek() == T::P(c) {
            self.next();
            true
        } else {
            false
        }
    }
    fn eatw(&mut self, w: &str) -> bool {
        if self.peek() == T::Word(w) {
            self.next();
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: u8) {
        let st = self.p;
        let t = self.next();
        if t != T::P(c) {
            panic!("expected '{}' found {:?} near: {}", c as char, t, self.ctx(st));
        }
    }
    fn ctx(&self, p: usize) -> String {
        let a = p.saturating_sub(120);
        let mut a2 = a;
        while !self.s.is_char_boundary(a2) {
            a2 += 1;
        }
        let mut e = (p + 200).min(self.s.len());
        while !self.s.is_char_boundary(e) {
            e -= 1;
        }
        self.s[a2..e].to_string()
    }
    fn skip_parens(&mut self) {
        self.expect(b'(');
        let mut d = 1;
        while d > 0 {
            match self.next() {
                T::P(b'(') => d += 1,
                T::P(b')') => d -= 1,
                T::Eof => panic!("eof in parens"),
                _ => {}
            }
        }
    }
    fn ty(&mut self, types: &HashMap<String, Ty>) -> Ty {
        let st = self.p;
        match self.next() {
            T::Word("void") => Ty::Void,
            T::Word("ptr") => {
                if self.eatw("addrspace") {
                    self.skip_parens();
                }
                Ty::Ptr
            }
            T::Word("label") => Ty::Label,
            T::Word("metadata") | T::Word("token") => Ty::Meta,
            T::Word("float") => Ty::Fp(32),
            T::Word("double") => Ty::Fp(64),
            T::Word("half") | T::Word("bfloat") => Ty::Fp(16),
            T::Word("fp128") | T::Word("x86_fp80") => Ty::Fp(128),
            T::Word("opaque") => Ty::Void,
            T::Word(w) if w.starts_with('i') && w[1..].chars().all(|c| c.is_ascii_digit()) => {
                Ty::Int(w[1..].parse().unwrap())
            }
            T::Local(n) => types.get(n).cloned().unwrap_or(Ty::Void),
            T::P(b'[') => {
                let n = self.num() as u64;
                assert!(self.eatw("x"));
                let t = self.ty(types);
                self.expect(b']');
                Ty::Arr(n, Box::new(t))
            }
            T::P(b'{') => {
                let mut v = vec![];
                if !self.eat(b'}') {
                    loop {
                        v.push(self.ty(types));
                        if !self.eat(b',') {
                            break;
                        }
                    }
                    self.expect(b'}');
                }
                Ty::Struct(v, false)
            }
            T::P(b'<') => {
                if self.eat(b'{') {
                    let mut v = vec![];
                    if !self.eat(b'}') {
                        loop {
                            v.push(self.ty(types));
                            if !self.eat(b',') {
                                break;
                            }
                        }
                        self.expect(b'}');
                    }
                    self.expect(b'>');
                    Ty::Struct(v, true)
                } else {
                    let n = self.num() as u64;
                    assert!(self.eatw("x"));
                    let t = self.ty(types);
                    self.expect(b'>');
                    Ty::Vec(n, Box::new(t))
                }
            }
            t => panic!("type expected, found {:?} near {}", t, self.ctx(st)),
        }
    }
    fn num(&mut self) -> i128 {
        match self.next() {
            T::Num(n) => parse_num(n),
            t => panic!("number expected {:?}", t),
        }
    }
    /// skip parameter/return attributes
    fn attrs(&mut self) {
        loop {
            match self.peek() {
                T::Attr | T::Str(_) => {
                    self.next();
                    if self.peek() == T::P(b'=') {
                        self.next();
                        self.next();
                    }
                }
                T::Word(w) => {
                    if matches!(
                        w,
                        "noundef" | "noalias" | "nonnull" | "readonly" | "readnone" | "writeonly" | "writable"
                            | "nocapture" | "zeroext" | "signext" | "inreg" | "returned" | "nofree" | "immarg"
                            | "dead_on_unwind" | "allocptr" | "allocalign" | "nest" | "swiftself" | "swifterror"
                            | "noext" | "dead_on_return" | "unnamed_addr" | "local_unnamed_addr" | "nofpclass"
                            | "fastcc" | "coldcc" | "ccc" | "tail" | "musttail" | "notail" | "internal" | "private"
                            | "dso_local" | "hidden" | "protected" | "default" | "external" | "weak" | "linkonce_odr"
                            | "available_externally" | "extern_weak" | "linkonce" | "weak_odr" | "nsz" | "nnan" | "ninf" | "preserve_mostcc" | "cold" | "noreturn" | "nounwind" | "willreturn" | "mustprogress"
                    ) {
                        self.next();
                        if w == "nofpclass" || (w == "dead_on_return" && self.peek() == T::P(b'(')) {
                            self.skip_parens();
                        }
                    } else if matches!(w, "align" ) {
                        self.next();
                        if self.peek() == T::P(b'(') {
                            self.skip_parens();
                        } else {
                            self.next();
                        }
                    } else if matches!(
                        w,
                        "dereferenceable" | "dereferenceable_or_null" | "captures" | "range" | "initializes" | "sret"
                            | "byval" | "byref" | "elementtype" | "memory" | "alignstack" | "inalloca" | "allockind" | "allocsize" | "addrspace" | "section" | "comdat" | "partition"
                    ) {
                        self.next();
                        if self.peek() == T::P(b'(') {
                            self.skip_parens();
                        } else if let T::Str(_) = self.peek() {
                            self.next();
                        }
                    } else {
                        return;
                    }
                }
                _ => return,
            }
        }
    }
}

fn parse_num(n: &str) -> i128 {
    if let Ok(v) = n.parse::<i128>() {
        return v;
    }
    if let Ok(v) = n.parse::<u128>() {
        return v as i128;
    }
    if let Some(h) = n.strip_prefix("0x") {
        if let Ok(v) = u128::from_str_radix(h, 16) {
            return v as i128;
        }
        return 0; // exotic float
    }
    if let Ok(f) = n.parse::<f64>() {
        return f.to_bits() as i128;
    }
    panic!("number {n}")
}

pub fn unescape(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut o = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' && b[i + 1] == b'\\' {
            o.push(b'\\');
            i += 2;
        } else if b[i] == b'\\' {
            let h = u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap();
            o.push(h);
            i += 3;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}

/// constant as a list of slot values
type CV = Vec<u64>;

impl Module {
    pub fn load(text: String) -> Module {
        let mut m = Module {
            text: String::new(),
            funcs: vec![],
            fidx: HashMap::new(),
            globals: vec![],
            gidx: HashMap::new(),
            image: vec![],
            writable_from: 0,
            end: 0,
            types: HashMap::new(),
            aliases: HashMap::new(),
            ncov: std::sync::atomic::AtomicU32::new(1),
            covinfo: std::sync::Mutex::new(vec![(0, 0)]),
        };
        // pass 1: split into top-level entities
        let mut globs: Vec<(String, bool, Ty, usize, usize, u64)> = vec![];
        let mut decls: Vec<(usize, usize)> = vec![]; // header offsets
        let mut bodies: Vec<Option<(usize, usize)>> = vec![];
        {
            let s = text.as_str();
            let mut p = 0;
            let b = s.as_bytes();
            let mut typelines = vec![];
            let mut globlines = vec![];
            while p < b.len() {
                let e = s[p..].find('\n').map(|x| p + x).unwrap_or(b.len());
                let line = &s[p..e];
                if line.starts_with("define ") {
                    let end = s[e..].find("\n}").map(|x| e + x).unwrap();
                    decls.push((p, e));
                    bodies.push(Some((e + 1, end + 1)));
                    p = end + 3;
                    continue;
                } else if line.starts_with("declare ") {
                    decls.push((p, e));
                    bodies.push(None);
                } else if line.starts_with('@') {
                    globlines.push((p, e));
                } else if line.starts_with('%') && line.contains(" = type ") {
                    typelines.push((p, e));
                }
                p = e + 1;
            }
            // named types may refer to each other: iterate
            for _ in 0..4 {
                for &(p, e) in &typelines {
                    let mut lx = Lx { s: &s[..e], p };
                    let n = match lx.next() {
                        T::Local(n) => n.to_string(),
                        _ => panic!(),
                    };
                    lx.next();
                    lx.next();
                    let t = lx.ty(&m.types);
                    m.types.insert(n, t);
                }
            }
            for (i, &(p, e)) in decls.iter().enumerate() {
                let mut lx = Lx { s: &s[..e], p };
                lx.next(); // define/declare
                lx.attrs();
                let ret = lx.ty(&m.types);
                lx.attrs();
                let name = match lx.next() {
                    T::Global(n) => n.to_string(),
                    t => panic!("fn name {:?}", t),
                };
                lx.expect(b'(');
                let mut params = vec![];
                let mut k = 0;
                if !lx.eat(b')') {
                    loop {
                        if lx.peek() == T::P(b'.') || matches!(lx.peek(), T::Word(w) if w.starts_with("...")) {
                            lx.next();
                            lx.expect(b')');
                            break;
                        }
                        let t = lx.ty(&m.types);
                        lx.attrs();
                        let n = match lx.peek() {
                            T::Local(n) => {
                                lx.next();
                                n.to_string()
                            }
                            _ => format!("{k}"),
                        };
                        k += 1;
                        params.push((n, t));
                        if lx.eat(b',') {
                            continue;
                        }
                        lx.expect(b')');
                        break;
                    }
                }
                let idx = m.funcs.len() as u32;
                m.fidx.insert(name.clone(), idx);
                m.funcs.push(FuncDecl { name, params, ret, body: bodies[i], func: OnceLock::new(), idx });
            }
            for &(p, e) in &globlines {
                let mut lx = Lx { s: &s[..e], p };
                let name = match lx.next() {
                    T::Global(n) => n.to_string(),
                    _ => panic!(),
                };
                lx.expect(b'=');
                let mut constant = false;
                let mut ext = false;
                let mut alias = false;
                loop {
                    match lx.peek() {
                        T::Word("global") => {
                            lx.next();
                            break;
                        }
                        T::Word("constant") => {
                            lx.next();
                            constant = true;
                            break;
                        }
                        T::Word("alias") | T::Word("ifunc") => {
                            lx.next();
                            alias = true;
                            break;
                        }
                        T::Word("external") | T::Word("extern_weak") => {
                            ext = true;
                            lx.next();
                        }
                        T::Word("thread_local") | T::Word("addrspace") => {
                            lx.next();
                            if lx.peek() == T::P(b'(') {
                                lx.skip_parens();
                            }
                        }
                        T::Word(_) => {
                            lx.next();
                        }
                        t => panic!("global {:?} {}", t, lx.ctx(p)),
                    }
                }
                let ty = lx.ty(&m.types);
                if alias {
                    lx.expect(b',');
                    lx.ty(&m.types);
                    if let T::Global(t) = lx.next() {
                        m.aliases.insert(name, t.to_string());
                    }
                    continue;
                }
                let mut al = ty.align();
                if let Some(x) = s[p..e].rfind(", align ") {
                    let d: String = s[p + x + 8..e].chars().take_while(|c| c.is_ascii_digit()).collect();
                    al = al.max(d.parse().unwrap_or(1));
                }
                globs.push((name, constant, ty, lx.p, if ext { 0 } else { e }, al));
            }
        }
        m.text = text;
        // assign addresses: constants first
        let mut addr = GLOBAL_BASE;
        for pass in 0..2 {
            if pass == 1 {
                addr = align_up(addr, 4096);
                m.writable_from = addr;
            }
            for g in &globs {
                if g.1 == (pass == 0) {
                    addr = align_up(addr, g.5.max(1));
                    let size = g.2.size();
                    m.gidx.insert(g.0.clone(), m.globals.len());
                    m.globals.push(Global { name: g.0.clone(), addr, size, constant: g.1 });
                    addr += size.max(1);
                }
            }
        }
        m.end = align_up(addr, 4096);
        m.image = vec![0; (m.end - GLOBAL_BASE) as usize];
        let text = std::mem::take(&mut m.text);
        for g in &globs {
            if g.4 == 0 {
                continue;
            }
            let mut lx = Lx { s: &text[..g.4], p: g.3 };
            let v = m.constant(&mut lx, &g.2);
            let mut leaves = vec![];
            g.2.leaves(0, &mut leaves);
            assert_eq!(v.len(), leaves.len(), "global {}", g.0);
            let a = m.globals[m.gidx[&g.0]].addr - GLOBAL_BASE;
            for ((o, w), v) in leaves.iter().zip(v) {
                let n = (*w as usize + 7) / 8;
                let at = (a + o) as usize;
                m.image[at..at + n].copy_from_slice(&v.to_le_bytes()[..n]);
            }
        }
        m.text = text;
        m
    }

    pub fn resolve<'b>(&'b self, n: &'b str) -> &'b str {
        let mut n = n;
        while let Some(a) = self.aliases.get(n) {
            n = a;
        }
        n
    }

    fn gaddr(&self, n: &str) -> u64 {
        let n = self.resolve(n);
        if let Some(&g) = self.gidx.get(n) {
            self.globals[g].addr
        } else if let Some(&f) = self.fidx.get(n) {
            FN_BASE + f as u64 * 16
        } else {
            panic!("unknown global {n}")
        }
    }

    fn constant(&self, lx: &mut Lx, ty: &Ty) -> CV {
        let st = lx.p;
        let zero = || vec![0u64; ty.nslots()];
        let t = lx.next();
        match t {
            T::Word("zeroinitializer") | T::Word("undef") | T::Word("poison") | T::Word("null") | T::Word("none") => zero(),
            T::Word("true") => vec![1],
            T::Word("false") => vec![0],
            T::Num(n) => {
                let v = parse_num(n);
                match ty {
                    Ty::Int(w) if *w > 64 => vec![v as u64, mask((v >> 64) as u64, (*w - 64) as u8)],
                    Ty::Int(w) => vec![mask(v as u64, *w as u8)],
                    Ty::Fp(32) => vec![if n.starts_with("0x") { (f64::from_bits(v as u64) as f32).to_bits() as u64 } else { (f64::from_bits(v as u64) as f32).to_bits() as u64 }],
                    _ => vec![v as u64],
                }
            }
            T::CStr(s) => unescape(s).into_iter().map(|b| b as u64).collect(),
            T::Global(n) => vec![self.gaddr(n)],
            T::Word("splat") => {
                lx.expect(b'(');
                let et = lx.ty(&self.types);
                let v = self.constant(lx, &et);
                lx.expect(b')');
                let mut o = vec![];
                if let Ty::Vec(n, _) = ty {
                    for _ in 0..*n {
                        o.extend_from_slice(&v);
                    }
                }
                o
            }
            T::P(b'[') | T::P(b'{') | T::P(b'<') => {
                let mut close = match t {
                    T::P(b'[') => vec![b']'],
                    T::P(b'{') => vec![b'}'],
                    _ => vec![b'>'],
                };
                if t == T::P(b'<') && lx.eat(b'{') {
                    close = vec![b'}', b'>'];
                }
                let mut o = vec![];
                if lx.peek() != T::P(close[0]) {
                    loop {
                        let et = lx.ty(&self.types);
                        lx.attrs();
                        o.extend(self.constant(lx, &et));
                        if !lx.eat(b',') {
                            break;
                        }
                    }
                }
                for c in close {
                    lx.expect(c);
                }
                o
            }
            T::Word("getelementptr") => {
                loop {
                    match lx.peek() {
                        T::Word("inbounds") | T::Word("nuw") | T::Word("nusw") => {
                            lx.next();
                        }
                        T::Word("inrange") => {
                            lx.next();
                            lx.skip_parens();
                        }
                        _ => break,
                    }
                }
                lx.expect(b'(');
                let st = lx.ty(&self.types);
                lx.expect(b',');
                lx.ty(&self.types);
                let mut a = self.constant(lx, &Ty::Ptr)[0];
                let mut cur = st;
                let mut first = true;
                while lx.eat(b',') {
                    let it = lx.ty(&self.types);
                    let i = sext(self.constant(lx, &it)[0], if let Ty::Int(w) = it { w as u8 } else { 64 }) as i64;
                    if first {
                        a = a.wrapping_add((cur.size() as i64 * i) as u64);
                        first = false;
                    } else {
                        a = a.wrapping_add(cur.field_off(i as usize));
                        cur = cur.field(i as usize).clone();
                    }
                }
                lx.expect(b')');
                vec![a]
            }
            T::Word(w @ ("ptrtoint" | "inttoptr" | "trunc" | "bitcast" | "zext" | "ptrtoaddr")) => {
                let _ = w;
                while !lx.eat(b'(') {
                    lx.next();
                }
                let st = lx.ty(&self.types);
                let v = self.constant(lx, &st);
                assert!(lx.eatw("to"));
                let dt = lx.ty(&self.types);
                lx.expect(b')');
                match dt {
                    Ty::Int(w) if w <= 64 => vec![mask(v[0], w as u8)],
                    _ => v,
                }
            }
            T::Word(w @ ("add" | "sub" | "xor" | "mul" | "and" | "or" | "shl" | "lshr")) => {
                while !lx.eat(b'(') {
                    lx.next();
                }
                let t1 = lx.ty(&self.types);
                let a = self.constant(lx, &t1)[0];
                lx.expect(b',');
                let t2 = lx.ty(&self.types);
                let b = self.constant(lx, &t2)[0];
                lx.expect(b')');
                let w8 = if let Ty::Int(w) = t1 { w as u8 } else { 64 };
                let r = match w {
                    "add" => a.wrapping_add(b),
                    "sub" => a.wrapping_sub(b),
                    "mul" => a.wrapping_mul(b),
                    "xor" => a ^ b,
                    "and" => a & b,
                    "or" => a | b,
                    "shl" => a << b,
                    _ => a >> b,
                };
                vec![mask(r, w8)]
            }
            t => panic!("constant {:?} near {}", t, lx.ctx(st)),
        }
    }

    pub fn func(&self, i: u32) -> &Func {
        self.funcs[i as usize].func.get_or_init(|| {
            let fd = &self.funcs[i as usize];
            Lower::new(self, fd).run()
        })
    }
}

#[inline(always)]
pub fn mask(v: u64, w: u8) -> u64 {
    if w >= 64 {
        v
    } else {
        v & ((1u64 << w) - 1)
    }
}
#[inline(always)]
pub fn sext(v: u64, w: u8) -> u64 {
    if w >= 64 || w == 0 {
        v
    } else {
        (((v << (64 - w)) as i64) >> (64 - w)) as u64
    }
}

struct Lower<'a> {
    m: &'a Module,
    fd: &'a FuncDecl,
    slots: HashMap<&'a str, (u32, Ty)>,
    nslots: u32,
    consts: Vec<u64>,
    cidx: HashMap<u64, i32>,
    code: Vec<I>,
    /// phis per block: (dst slot base, type, incoming [(block, operand slots)])
    phis: HashMap<&'a str, Vec<PhiP<'a>>>,
    blocks: HashMap<&'a str, (u32, u32)>, // label -> (pc, ordinal)
}

struct PhiP<'a> {
    d: u32,
    inc: Vec<(&'a str, Vec<Op>)>,
}

#[derive(Clone, Copy)]
enum Pending {
    None,
}

impl<'a> Lower<'a> {
    fn new(m: &'a Module, fd: &'a FuncDecl) -> Self {
        Lower {
            m,
            fd,
            slots: HashMap::new(),
            nslots: 0,
            consts: vec![],
            cidx: HashMap::new(),
            code: vec![],
            phis: HashMap::new(),
            blocks: HashMap::new(),
        }
    }
    fn slot(&mut self, n: &'a str, ty: &Ty) -> u32 {
        if let Some((s, t)) = self.slots.get(n) {
            if *t != *ty && t.nslots() != ty.nslots() {
                panic!("slot type mismatch for {n} in {}", self.fd.name);
            }
            return *s;
        }
        let s = self.nslots;
        self.nslots += ty.nslots() as u32;
        self.slots.insert(n, (s, ty.clone()));
        s
    }
    fn konst(&mut self, v: u64) -> Op {
        if let Some(&k) = self.cidx.get(&v) {
            return k;
        }
        self.consts.push(v);
        let k = -(self.consts.len() as i32);
        self.cidx.insert(v, k);
        k
    }
    /// operand of the given type -> one Op per slot
    fn opnd(&mut self, lx: &mut Lx<'a>, ty: &Ty) -> Vec<Op> {
        match lx.peek() {
            T::Local(n) => {
                lx.next();
                let s = self.slot(n, ty);
                (0..ty.nslots() as u32).map(|i| (s + i) as Op).collect()
            }
            T::Meta(_) => {
                lx.next();
                if lx.peek() == T::P(b'(') {
                    lx.skip_parens();
                }
                vec![]
            }
            _ => {
                if matches!(ty, Ty::Meta) {
                    // metadata ptr %x etc.
                    let t = lx.ty(&self.m.types);
                    return { let _ = self.opnd(lx, &t); vec![] };
                }
                let v = self.m.constant(lx, ty);
                v.into_iter().map(|x| self.konst(x)).collect()
            }
        }
    }
    fn one(&mut self, lx: &mut Lx<'a>, ty: &Ty) -> Op {
        let v = self.opnd(lx, ty);
        assert!(v.len() == 1, "one: {:?} in {}", ty, self.fd.name);
        v[0]
    }
    fn typed(&mut self, lx: &mut Lx<'a>) -> (Ty, Vec<Op>) {
        let t = lx.ty(&self.m.types);
        lx.attrs();
        let v = self.opnd(lx, &t);
        (t, v)
    }
    fn label(&mut self, lx: &mut Lx<'a>) -> &'a str {
        assert!(lx.eatw("label"));
        match lx.next() {
            T::Local(n) => n,
            t => panic!("label {:?}", t),
        }
    }
    fn run(mut self) -> Func {
        let (bs, be) = self.fd.body.expect("no body");
        let text: &'a str = &self.m.text[..be];
        for (n, t) in &self.fd.params {
            let n: &'a str = n.as_str();
            self.slot(n, t);
        }
        let nparams = self.nslots;
        // split into blocks: labels at line starts
        let mut lx = Lx { s: text, p: bs };
        // the entry block may be unlabelled
        let mut blocks: Vec<(&'a str, usize, usize)> = vec![];
        let body = &text[bs..be];
        let mut cur: &'a str = "";
        let mut start = bs;
        let mut off = bs;
        let mut unl = true;
        for line in body.split_inclusive('\n') {
            let b = line.as_bytes();
            if !b.is_empty() && b[0] != b' ' && b[0] != b'}' && b[0] != b'\n' && b[0] != b';' {
                if let Some(e) = if b[0] == b'"' { line[1..].find('"').map(|x| x + 2) } else { line.find(':') } {
                    if !unl || start != off || !blocks.is_empty() {
                        blocks.push((cur, start, off));
                    }
                    cur = &text[off..off + e];
                    cur = cur.trim_matches('"');
                    start = off + e + 1;
                    unl = false;
                }
            }
            off += line.len();
        }
        blocks.push((cur, start, be));
        if blocks[0].0.is_empty() {
            // implicit label: number of params
            let n: &'a str = Box::leak(format!("{}", self.fd.params.len()).into_boxed_str());
            blocks[0].0 = n;
        }
        // (cur block, terminator pcs needing edges)
        struct Fix<'a> {
            pc: usize,
            from: &'a str,
            targets: Vec<&'a str>,
        }
        let mut fixes: Vec<Fix<'a>> = vec![];
        for (ord, &(name, s, e)) in blocks.iter().enumerate() {
            self.blocks.insert(name, (self.code.len() as u32, ord as u32));
            lx.p = s;
            let mut l2 = Lx { s: &text[..e], p: s };
            while l2.peek() != T::Eof && l2.peek() != T::P(b'}') {
                let ist = l2.p;
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.instr(&mut l2, name)));
                match r {
                    Ok(Some(targets)) => {
                        fixes.push(Fix { pc: self.code.len() - 1, from: name, targets });
                    }
                    Ok(None) => {}
                    Err(err) => {
                        let msg = err.downcast_ref::<String>().cloned().unwrap_or_default();
                        panic!("lowering {}: {} at: {}", self.fd.name, msg, &text[ist..(ist + 200).min(text.len())]);
                    }
                }
                // trailing metadata
                loop {
                    if l2.peek() == T::P(b',') {
                        let mut c = l2.clone();
                        c.next();
                        if let T::Meta(_) = c.peek() {
                            l2 = c;
                            l2.next();
                            l2.next();
                            if l2.peek() == T::P(b'{') {
                                while !l2.eat(b'}') {
                                    l2.next();
                                }
                            }
                            continue;
                        }
                        if c.peek() == T::Word("align") {
                            l2 = c;
                            l2.next();
                            l2.next();
                            continue;
                        }
                    }
                    break;
                }
            }
        }
        // edges
        let base = self
            .m
            .ncov
            .fetch_add(blocks.len() as u32, std::sync::atomic::Ordering::SeqCst);
        {
            let mut ci = self.m.covinfo.lock().unwrap();
            let need = (base as usize) + blocks.len();
            if ci.len() < need {
                ci.resize(need, (0, 0));
            }
            for k in 0..blocks.len() {
                ci[base as usize + k] = (self.fd.idx, k as u32);
            }
        }
        for fx in fixes {
            let mut edges: Vec<Edge> = vec![];
            for t in &fx.targets {
                let (pc, ord) = self.blocks[t];
                let mut copies = vec![];
                if let Some(ps) = self.phis.get(t) {
                    for ph in ps {
                        let inc = ph
                            .inc
                            .iter()
                            .find(|(b, _)| *b == fx.from)
                            .unwrap_or_else(|| panic!("phi edge {} -> {} in {}", fx.from, t, self.fd.name));
                        for (k, o) in inc.1.iter().enumerate() {
                            if *o != (ph.d + k as u32) as Op {
                                copies.push((ph.d + k as u32, *o));
                            }
                        }
                    }
                }
                let mut hazard = false;
                for i in 0..copies.len() {
                    for j in i + 1..copies.len() {
                        if copies[j].1 == copies[i].0 as Op {
                            hazard = true;
                        }
                    }
                }
                edges.push(Edge { pc, cov: base + ord, copies: copies.into_boxed_slice(), hazard });
            }
            match &mut self.code[fx.pc] {
                I::Br(e) => **e = edges.pop().unwrap(),
                I::CondBr { t, f, .. } => {
                    **f = edges.pop().unwrap();
                    **t = edges.pop().unwrap();
                }
                I::Switch { edges: es, .. } => *es = edges.into_boxed_slice(),
                x => panic!("fix {:?}", x),
            }
        }
        let _ = Pending::None;
        Func { code: self.code, consts: self.consts, nslots: self.nslots, nparams }
    }

    fn dummy_edge() -> Box<Edge> {
        Box::new(Edge { pc: 0, cov: 0, copies: Box::new([]), hazard: false })
    }

    fn width(t: &Ty) -> u8 {
        match t {
            Ty::Int(w) => (*w).min(255) as u8,
            Ty::Ptr => 64,
            Ty::Fp(w) => (*w).min(64) as u8,
            Ty::Vec(_, t) => Self::width(t),
            _ => panic!("width of {:?}", t),
        }
    }

    fn instr(&mut self, lx: &mut Lx<'a>, block: &'a str) -> Option<Vec<&'a str>> {
        let mut dst: Option<&'a str> = None;
        let mut t = lx.next();
        if let T::Local(n) = t {
            dst = Some(n);
            lx.expect(b'=');
            t = lx.next();
        }
        let w = match t {
            T::Word(w) => w,
            t => panic!("instr {:?}", t),
        };
        let bop = match w {
            "add" => Some(Bop::Add),
            "sub" => Some(Bop::Sub),
            "mul" => Some(Bop::Mul),
            "udiv" => Some(Bop::UDiv),
            "sdiv" => Some(Bop::SDiv),
            "urem" => Some(Bop::URem),
            "srem" => Some(Bop::SRem),
            "shl" => Some(Bop::Shl),
            "lshr" => Some(Bop::LShr),
            "ashr" => Some(Bop::AShr),
            "and" => Some(Bop::And),
            "or" => Some(Bop::Or),
            "xor" => Some(Bop::Xor),
            _ => None,
        };
        if let Some(op) = bop {
            while matches!(lx.peek(), T::Word("nuw" | "nsw" | "exact" | "disjoint")) {
                lx.next();
            }
            let ty = lx.ty(&self.m.types);
            let a = self.opnd(lx, &ty);
            lx.expect(b',');
            let b = self.opnd(lx, &ty);
            let d = self.slot(dst.unwrap(), &ty);
            let i = match &ty {
                Ty::Int(w) if *w <= 64 => I::Bin { op, w: *w as u8, d, a: a[0], b: b[0] },
                Ty::Int(w) => I::Wide { op: WideOp::Bin(op), d, a: [a[0], a[1]], b: [b[0], b[1]], w: *w },
                Ty::Vec(_, et) if et.nslots() == 1 => {
                    I::BinN { op, w: Self::width(et), d, ab: a.into_iter().zip(b).collect() }
                }
                _ => I::Unsupported(format!("{w} {:?}", ty)),
            };
            self.code.push(i);
            return None;
        }
        match w {
            "icmp" => {
                if lx.eatw("samesign") {}
                let p = match lx.next() {
                    T::Word(p) => match p {
                        "eq" => Pred::Eq,
                        "ne" => Pred::Ne,
                        "ugt" => Pred::Ugt,
                        "uge" => Pred::Uge,
                        "ult" => Pred::Ult,
                        "ule" => Pred::Ule,
                        "sgt" => Pred::Sgt,
                        "sge" => Pred::Sge,
                        "slt" => Pred::Slt,
                        "sle" => Pred::Sle,
                        x => panic!("pred {x}"),
                    },
                    x => panic!("pred {:?}", x),
                };
                let p = if p == Pred::Eq && false { Pred::Ne } else { p };
                let ty = lx.ty(&self.m.types);
                let a = self.opnd(lx, &ty);
                lx.expect(b',');
                let b = self.opnd(lx, &ty);
                match &ty {
                    Ty::Vec(n, et) => {
                        let d = self.slot(dst.unwrap(), &Ty::Vec(*n, Box::new(Ty::Int(1))));
                        self.code.push(I::IcmpN { p, w: Self::width(et), d, ab: a.into_iter().zip(b).collect() });
                    }
                    Ty::Int(w) if *w > 64 => {
                        let d = self.slot(dst.unwrap(), &Ty::Int(1));
                        self.code.push(I::Wide { op: WideOp::Icmp(p), d, a: [a[0], a[1]], b: [b[0], b[1]], w: *w });
                    }
                    _ => {
                        let d = self.slot(dst.unwrap(), &Ty::Int(1));
                        self.code.push(I::Icmp { p, w: Self::width(&ty), d, a: a[0], b: b[0] });
                    }
                }
            }
            "zext" | "sext" | "trunc" | "ptrtoint" | "inttoptr" | "bitcast" | "ptrtoaddr" | "fptosi" | "fptoui" | "sitofp" | "uitofp"
            | "fpext" | "fptrunc" => {
                while matches!(lx.peek(), T::Word("nuw" | "nsw" | "nneg" | "fast")) {
                    lx.next();
                }
                let (st, a) = self.typed(lx);
                assert!(lx.eatw("to"));
                let dt = lx.ty(&self.m.types);
                let d = self.slot(dst.unwrap(), &dt);
                let i = match (w, &st, &dt) {
                    ("zext", Ty::Int(f), Ty::Int(t)) if *t <= 64 => I::Zext { f: *f as u8, t: *t as u8, d, a: a[0] },
                    ("sext", Ty::Int(f), Ty::Int(t)) if *t <= 64 => I::Sext { f: *f as u8, t: *t as u8, d, a: a[0] },
                    ("trunc", Ty::Int(f), Ty::Int(t)) if *f <= 64 => I::Trunc { t: *t as u8, d, a: a[0] },
                    ("zext", Ty::Int(f), Ty::Int(_)) if *f <= 64 => {
                        I::Wide { op: WideOp::Zext(*f as u8), d, a: [a[0], a[0]], b: [a[0], a[0]], w: 128 }
                    }
                    ("trunc", Ty::Int(_), Ty::Int(t)) if *t <= 64 => {
                        I::Wide { op: WideOp::Trunc(*t as u8), d, a: [a[0], a[1]], b: [a[0], a[0]], w: 128 }
                    }
                    ("ptrtoint" | "ptrtoaddr", Ty::Ptr, Ty::Int(t)) if *t <= 64 => I::Trunc { t: *t as u8, d, a: a[0] },
                    ("inttoptr", Ty::Int(f), Ty::Ptr) if *f <= 64 => I::Zext { f: *f as u8, t: 64, d, a: a[0] },
                    ("bitcast", Ty::Vec(n, et), Ty::Int(t)) if **et == Ty::Int(1) && *n == *t as u64 && *t <= 64 => {
                        I::PackBits { d, a: a.into_boxed_slice() }
                    }
                    ("zext" | "sext" | "trunc", Ty::Vec(_, f), Ty::Vec(_, t)) => I::CastN {
                        k: match w {
                            "zext" => 0,
                            "sext" => 1,
                            _ => 2,
                        },
                        f: Self::width(f),
                        t: Self::width(t),
                        d,
                        a: a.into_boxed_slice(),
                    },
                    _ => I::Unsupported(format!("{w} {:?} to {:?}", st, dt)),
                };
                self.code.push(i);
            }
            "freeze" => {
                let (t, a) = self.typed(lx);
                let d = self.slot(dst.unwrap(), &t);
                self.copies(d, &a);
            }
            "select" => {
                let (ct, c) = self.typed(lx);
                lx.expect(b',');
                let (t, a) = self.typed(lx);
                lx.expect(b',');
                let (_, b) = self.typed(lx);
                let d = self.slot(dst.unwrap(), &t);
                if let Ty::Vec(..) = ct {
                    self.code.push(I::Unsupported("vector select".into()));
                } else {
                    let mut l = vec![];
                    t.leaves(0, &mut l);
                    let ab = a.iter().zip(&b).zip(&l).map(|((x, y), l)| (*x, *y, l.1)).collect();
                    let ptr = match &t {
                        Ty::Int(_) => false,
                        _ => true,
                    };
                    self.code.push(I::Select { d, c: c[0], ab, ptr });
                }
            }
            "load" => {
                while matches!(lx.peek(), T::Word("volatile" | "atomic")) {
                    lx.next();
                }
                let t = lx.ty(&self.m.types);
                lx.expect(b',');
                let (_, a) = self.typed(lx);
                while matches!(lx.peek(), T::Word("monotonic" | "acquire" | "seq_cst" | "unordered" | "syncscope")) {
                    lx.next();
                }
                let d = self.slot(dst.unwrap(), &t);
                if let Ty::Vec(n, et) = &t {
                    if let Ty::Int(1) = **et {
                        self.code.push(I::LoadBits { d, a: a[0], n: *n as u32 });
                        return None;
                    }
                }
                let mut l = vec![];
                t.leaves(0, &mut l);
                if l.len() == 1 {
                    self.code.push(I::Load { d, a: a[0], w: l[0].1 });
                } else {
                    self.code.push(I::LoadN { d, a: a[0], l: l.into_boxed_slice() });
                }
            }
            "store" => {
                while matches!(lx.peek(), T::Word("volatile" | "atomic")) {
                    lx.next();
                }
                let (t, v) = self.typed(lx);
                lx.expect(b',');
                let (_, a) = self.typed(lx);
                while matches!(lx.peek(), T::Word("monotonic" | "release" | "seq_cst" | "unordered")) {
                    lx.next();
                }
                if let Ty::Vec(_, et) = &t {
                    if let Ty::Int(1) = **et {
                        self.code.push(I::StoreBits { a: a[0], v: v.into_boxed_slice() });
                        return None;
                    }
                }
                let mut l = vec![];
                t.leaves(0, &mut l);
                if l.len() == 1 {
                    self.code.push(I::Store { a: a[0], v: v[0], w: l[0].1 });
                } else {
                    let l = l.iter().zip(v).map(|(l, v)| (l.0, l.1, v)).collect();
                    self.code.push(I::StoreN { a: a[0], l });
                }
            }
            "getelementptr" => {
                loop {
                    match lx.peek() {
                        T::Word("inbounds") | T::Word("nuw") | T::Word("nusw") => {
                            lx.next();
                        }
                        T::Word("inrange") => {
                            lx.next();
                            lx.skip_parens();
                        }
                        _ => break,
                    }
                }
                let mut cur = lx.ty(&self.m.types);
                lx.expect(b',');
                let (bt, b) = self.typed(lx);
                if bt != Ty::Ptr {
                    panic!("vector gep");
                }
                let mut off = 0i64;
                let mut terms = vec![];
                let mut first = true;
                loop {
                    let mut c = lx.clone();
                    if !c.eat(b',') {
                        break;
                    }
                    if let T::Meta(_) = c.peek() {
                        break;
                    }
                    *lx = c;
                    let (it, i) = self.typed(lx);
                    let iw = Self::width(&it);
                    let i = i[0];
                    let cv = if i < 0 { Some(sext(self.consts[(-i - 1) as usize], iw) as i64) } else { None };
                    if first {
                        first = false;
                        let sz = cur.size() as i64;
                        match cv {
                            Some(k) => off += k * sz,
                            None => terms.push((i, sz, iw)),
                        }
                    } else {
                        match &cur {
                            Ty::Struct(..) => {
                                let k = cv.unwrap() as usize;
                                off += cur.field_off(k) as i64;
                                cur = cur.field(k).clone();
                            }
                            _ => {
                                let et = cur.field(0).clone();
                                let sz = et.size() as i64;
                                match cv {
                                    Some(k) => off += k * sz,
                                    None => terms.push((i, sz, iw)),
                                }
                                cur = et;
                            }
                        }
                    }
                }
                let d = self.slot(dst.unwrap(), &Ty::Ptr);
                self.code.push(I::Gep { d, b: b[0], off, t: terms.into_boxed_slice() });
            }
            "alloca" => {
                lx.eatw("inalloca");
                let t = lx.ty(&self.m.types);
                let mut n = self.konst(1);
                let mut align = t.align().max(16);
                loop {
                    let mut c = lx.clone();
                    if !c.eat(b',') {
                        break;
                    }
                    match c.peek() {
                        T::Word("align") => {
                            c.next();
                            align = align.max(c.num() as u64);
                            *lx = c;
                        }
                        T::Word("addrspace") => {
                            c.next();
                            c.skip_parens();
                            *lx = c;
                        }
                        T::Meta(_) => break,
                        _ => {
                            *lx = c;
                            n = self.typed(lx).1[0];
                        }
                    }
                }
                let d = self.slot(dst.unwrap(), &Ty::Ptr);
                self.code.push(I::Alloca { d, size: t.size(), align, n });
            }
            "phi" => {
                let t = lx.ty(&self.m.types);
                let d = self.slot(dst.unwrap(), &t);
                let mut inc = vec![];
                loop {
                    lx.expect(b'[');
                    let v = self.opnd(lx, &t);
                    lx.expect(b',');
                    let b = match lx.next() {
                        T::Local(n) => n,
                        x => panic!("phi {:?}", x),
                    };
                    lx.expect(b']');
                    inc.push((b, v));
                    let mut c = lx.clone();
                    if c.eat(b',') && c.peek() == T::P(b'[') {
                        *lx = c;
                        continue;
                    }
                    break;
                }
                self.phis.entry(block).or_default().push(PhiP { d, inc });
            }
            "br" => {
                if lx.peek() == T::Word("label") {
                    let l = self.label(lx);
                    self.code.push(I::Br(Self::dummy_edge()));
                    return Some(vec![l]);
                }
                let (_, c) = self.typed(lx);
                lx.expect(b',');
                let a = self.label(lx);
                lx.expect(b',');
                let b = self.label(lx);
                self.code.push(I::CondBr { c: c[0], t: Self::dummy_edge(), f: Self::dummy_edge() });
                return Some(vec![a, b]);
            }
            "switch" => {
                let (t, v) = self.typed(lx);
                lx.expect(b',');
                let d = self.label(lx);
                lx.expect(b'[');
                let mut cases = vec![];
                let mut targets = vec![d];
                while !lx.eat(b']') {
                    let ct = lx.ty(&self.m.types);
                    let k = self.m.constant(lx, &ct);
                    lx.expect(b',');
                    let l = self.label(lx);
                    let ti = match targets.iter().position(|x| *x == l) {
                        Some(i) => i,
                        None => {
                            targets.push(l);
                            targets.len() - 1
                        }
                    };
                    cases.push((k[0], ti as u32));
                }
                cases.sort();
                if v.len() != 1 {
                    self.code.push(I::Unsupported("wide switch".into()));
                    return None;
                }
                self.code.push(I::Switch { v: v[0], w: Self::width(&t), cases: cases.into_boxed_slice(), def: 0, edges: Box::new([]) });
                return Some(targets);
            }
            "ret" => {
                let t = lx.ty(&self.m.types);
                let v = if t == Ty::Void { vec![] } else { self.opnd(lx, &t) };
                self.code.push(I::Ret(v.into_boxed_slice()));
            }
            "unreachable" => self.code.push(I::Unreachable),
            "extractvalue" => {
                let (t, v) = self.typed(lx);
                let mut cur = &t;
                let mut s = 0;
                loop {
                    let mut c = lx.clone();
                    if !c.eat(b',') {
                        break;
                    }
                    if let T::Num(_) = c.peek() {
                        *lx = c;
                        let i = lx.num() as usize;
                        s += cur.slot_of(i);
                        cur = cur.field(i);
                    } else {
                        break;
                    }
                }
                let d = self.slot(dst.unwrap(), cur);
                let n = cur.nslots();
                let src: Vec<Op> = v[s..s + n].to_vec();
                self.copies(d, &src);
            }
            "insertvalue" => {
                let (t, v) = self.typed(lx);
                lx.expect(b',');
                let (_, x) = self.typed(lx);
                let mut cur = &t;
                let mut s = 0;
                loop {
                    let mut c = lx.clone();
                    if !c.eat(b',') {
                        break;
                    }
                    if let T::Num(_) = c.peek() {
                        *lx = c;
                        let i = lx.num() as usize;
                        s += cur.slot_of(i);
                        cur = cur.field(i);
                    } else {
                        break;
                    }
                }
                let d = self.slot(dst.unwrap(), &t);
                let mut src = v.clone();
                for (k, o) in x.iter().enumerate() {
                    src[s + k] = *o;
                }
                self.copies(d, &src);
            }
            "extractelement" => {
                let (t, v) = self.typed(lx);
                lx.expect(b',');
                let (_, i) = self.typed(lx);
                let et = t.field(0).clone();
                let d = self.slot(dst.unwrap(), &et);
                if i[0] < 0 {
                    let k = self.consts[(-i[0] - 1) as usize] as usize;
                    self.copies(d, &v[k..k + 1]);
                } else {
                    self.code.push(I::ExtractDyn { d, base: v.into_boxed_slice(), i: i[0] });
                }
            }
            "insertelement" => {
                let (t, v) = self.typed(lx);
                lx.expect(b',');
                let (_, x) = self.typed(lx);
                lx.expect(b',');
                let (_, i) = self.typed(lx);
                let d = self.slot(dst.unwrap(), &t);
                if i[0] < 0 {
                    let k = self.consts[(-i[0] - 1) as usize] as usize;
                    let mut src = v.clone();
                    src[k] = x[0];
                    self.copies(d, &src);
                } else {
                    self.code.push(I::Unsupported("insertelement dyn".into()));
                }
            }
            "shufflevector" => {
                let (t, a) = self.typed(lx);
                lx.expect(b',');
                let (_, b) = self.typed(lx);
                lx.expect(b',');
                let mt = lx.ty(&self.m.types);
                // undef/poison lanes read as 0, which is fine
                let mk = self.m.constant(lx, &mt);
                let et = t.field(0).clone();
                let d = self.slot(dst.unwrap(), &Ty::Vec(mk.len() as u64, Box::new(et)));
                let mut all = a.clone();
                all.extend(b);
                let src: Vec<Op> = mk.iter().map(|k| all[(*k as usize).min(all.len() - 1)]).collect();
                self.copies(d, &src);
            }
            "fence" => {
                while let T::Word(x) = lx.peek() {
                    if matches!(x, "acquire" | "release" | "seq_cst" | "acq_rel" | "syncscope") {
                        lx.next();
                        if lx.peek() == T::P(b'(') {
                            lx.skip_parens();
                        }
                    } else {
                        break;
                    }
                }
            }
            "atomicrmw" => {
                lx.eatw("volatile");
                let op = match lx.next() {
                    T::Word(w) => match w {
                        "xchg" => 0u8,
                        "add" => 1,
                        "sub" => 2,
                        "and" => 3,
                        "or" => 4,
                        "xor" => 5,
                        "umax" => 6,
                        "umin" => 7,
                        _ => 255,
                    },
                    _ => panic!(),
                };
                let (_, a) = self.typed(lx);
                lx.expect(b',');
                let (t, v) = self.typed(lx);
                lx.next(); // ordering
                let d = self.slot(dst.unwrap(), &t);
                self.code.push(I::AtomicRmw { op, w: Self::width(&t), d, a: a[0], v: v[0] });
            }
            "cmpxchg" => {
                while matches!(lx.peek(), T::Word("weak" | "volatile")) {
                    lx.next();
                }
                let (_, a) = self.typed(lx);
                lx.expect(b',');
                let (t, c) = self.typed(lx);
                lx.expect(b',');
                let (_, n) = self.typed(lx);
                lx.next();
                lx.next();
                let d = self.slot(dst.unwrap(), &Ty::Struct(vec![t.clone(), Ty::Int(1)], false));
                self.code.push(I::CmpXchg { w: Self::width(&t), d, a: a[0], c: c[0], n: n[0] });
            }
            "tail" | "musttail" | "notail" | "call" | "invoke" => {
                if w != "call" && w != "invoke" {
                    lx.next();
                }
                return self.call(lx, dst, w == "invoke");
            }
            "landingpad" => {
                let t = lx.ty(&self.m.types);
                loop {
                    match lx.peek() {
                        T::Word("cleanup") => {
                            lx.next();
                        }
                        T::Word("catch") | T::Word("filter") => {
                            lx.next();
                            self.typed(lx);
                        }
                        _ => break,
                    }
                }
                self.slot(dst.unwrap(), &t);
                self.code.push(I::Unsupported("landingpad".into()));
            }
            "resume" => {
                self.typed(lx);
                self.code.push(I::Unsupported("resume".into()));
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                while matches!(lx.peek(), T::Word("fast" | "nnan" | "ninf" | "nsz" | "contract" | "reassoc" | "arcp" | "afn")) {
                    lx.next();
                }
                let t = lx.ty(&self.m.types);
                self.opnd(lx, &t);
                lx.expect(b',');
                self.opnd(lx, &t);
                self.slot(dst.unwrap(), &t);
                self.code.push(I::Unsupported(w.into()));
            }
            "fneg" => {
                let (t, _) = self.typed(lx);
                self.slot(dst.unwrap(), &t);
                self.code.push(I::Unsupported(w.into()));
            }
            "fcmp" => {
                while let T::Word(x) = lx.peek() {
                    if x == "double" || x == "float" {
                        break;
                    }
                    lx.next();
                }
                let t = lx.ty(&self.m.types);
                self.opnd(lx, &t);
                lx.expect(b',');
                self.opnd(lx, &t);
                self.slot(dst.unwrap(), &Ty::Int(1));
                self.code.push(I::Unsupported(w.into()));
            }
            x => panic!("unknown instruction {x}"),
        }
        None
    }

    fn copies(&mut self, d: u32, src: &[Op]) {
        let c: Vec<(u32, Op)> =
            src.iter().enumerate().map(|(i, o)| (d + i as u32, *o)).filter(|(a, b)| *a as Op != *b).collect();
        if c.len() == 1 {
            self.code.push(I::Copy { d: c[0].0, a: c[0].1 });
        } else if !c.is_empty() {
            self.code.push(I::Copies { c: c.into_boxed_slice() });
        }
    }

    fn call(&mut self, lx: &mut Lx<'a>, dst: Option<&'a str>, invoke: bool) -> Option<Vec<&'a str>> {
        lx.attrs();
        while matches!(lx.peek(), T::Word("fast" | "nnan" | "ninf" | "nsz" | "contract" | "reassoc" | "arcp" | "afn")) {
            lx.next();
        }
        let ret = lx.ty(&self.m.types);
        lx.attrs();
        if lx.peek() == T::P(b'(') {
            lx.skip_parens(); // vararg function type
        }
        enum Callee<'b> {
            Direct(&'b str),
            Ind(Op),
            Asm(String, String),
        }
        let cal = match lx.peek() {
            T::Global(n) => {
                lx.next();
                Callee::Direct(n)
            }
            T::Word("asm") => {
                lx.next();
                while let T::Word(_) = lx.peek() {
                    lx.next();
                }
                let code = format!("{:?}", lx.next());
                lx.expect(b',');
                let cons = format!("{:?}", lx.next());
                Callee::Asm(code, cons)
            }
            _ => Callee::Ind(self.one(lx, &Ty::Ptr)),
        };
        lx.expect(b'(');
        let mut args: Vec<(Ty, Vec<Op>)> = vec![];
        if !lx.eat(b')') {
            loop {
                args.push(self.typed(lx));
                if lx.eat(b',') {
                    continue;
                }
                lx.expect(b')');
                break;
            }
        }
        loop {
            match lx.peek() {
                T::Attr => {
                    lx.next();
                }
                T::P(b'[') => {
                    // operand bundles
                    lx.next();
                    let mut d = 1;
                    while d > 0 {
                        match lx.next() {
                            T::P(b'[') => d += 1,
                            T::P(b']') => d -= 1,
                            _ => {}
                        }
                    }
                }
                T::Word("nounwind") | T::Word("noreturn") => {
                    lx.next();
                }
                _ => break,
            }
        }
        let mut res = None;
        if invoke {
            assert!(lx.eatw("to"));
            let n = self.label(lx);
            assert!(lx.eatw("unwind"));
            self.label(lx);
            res = Some(vec![n]);
        }
        let n = ret.nslots();
        let d = match dst {
            Some(x) => self.slot(x, &ret),
            None => {
                // discarded result still needs room
                let s = self.nslots;
                self.nslots += n as u32;
                s
            }
        };
        let flat: Vec<Op> = args.iter().flat_map(|(_, v)| v.iter().cloned()).collect();
        match cal {
            Callee::Asm(code, cons) => {
                // an empty asm is an optimisation barrier; anything else we cannot run
                let empty = code.ends_with("(\"\")");
                if empty && n == 0 {
                } else if empty && flat.len() == n && cons.contains("=r,0") {
                    self.copies(d, &flat);
                } else {
                    self.code.push(I::Unsupported(format!("inline asm {code}")));
                }
            }
            Callee::Ind(f) => self.code.push(I::CallInd { f, args: flat.into_boxed_slice(), d, n: n as u8 }),
            Callee::Direct(name) => {
                let name = self.m.resolve(name);
                if let Some(rest) = name.strip_prefix("llvm.") {
                    let i = self.intrinsic(rest, &ret, &args, flat, d);
                    if let Some(i) = i {
                        self.code.push(i);
                    }
                } else {
                    let f = *self.m.fidx.get(name).unwrap_or_else(|| panic!("callee {name}"));
                    self.code.push(I::Call { f, args: flat.into_boxed_slice(), d, n: n as u8 });
                }
            }
        }
        if invoke {
            self.code.push(I::Br(Self::dummy_edge()));
        }
        res
    }

    fn intrinsic(&mut self, n: &str, ret: &Ty, args: &[(Ty, Vec<Op>)], flat: Vec<Op>, d: u32) -> Option<I> {
        let st = |p: &str| n.starts_with(p);
        let scalar = !args.is_empty() && args[0].1.len() == 1;
        let k = if st("memcpy.") {
            Intr::Memcpy
        } else if st("memmove.") {
            Intr::Memmove
        } else if st("memset.") {
            Intr::Memset
        } else if st("uadd.with") {
            Intr::UAddO
        } else if st("usub.with") {
            Intr::USubO
        } else if st("umul.with") {
            Intr::UMulO
        } else if st("sadd.with") {
            Intr::SAddO
        } else if st("ssub.with") {
            Intr::SSubO
        } else if st("smul.with") {
            Intr::SMulO
        } else if st("umax.") {
            Intr::UMax
        } else if st("umin.") {
            Intr::UMin
        } else if st("smax.") {
            Intr::SMax
        } else if st("smin.") {
            Intr::SMin
        } else if st("usub.sat") {
            Intr::USubSat
        } else if st("uadd.sat") {
            Intr::UAddSat
        } else if st("ctlz.") {
            Intr::UnOp(Un::Ctlz)
        } else if st("cttz.") {
            Intr::UnOp(Un::Cttz)
        } else if st("ctpop.") {
            Intr::UnOp(Un::Ctpop)
        } else if st("bswap.") {
            Intr::UnOp(Un::Bswap)
        } else if st("bitreverse.") {
            Intr::UnOp(Un::Bitrev)
        } else if st("abs.") {
            Intr::UnOp(Un::Abs)
        } else if st("fshl.") {
            Intr::Fshl
        } else if st("fshr.") {
            Intr::Fshr
        } else if st("ucmp.") {
            Intr::UCmp
        } else if st("scmp.") {
            Intr::SCmp
        } else if st("is.constant") {
            Intr::IsConst
        } else if st("vector.reduce.or") {
            Intr::VReduce(Bop::Or)
        } else if st("vector.reduce.and") {
            Intr::VReduce(Bop::And)
        } else if st("vector.reduce.add") {
            Intr::VReduce(Bop::Add)
        } else if st("trap") || st("ubsantrap") {
            Intr::Trap
        } else if st("threadlocal.address") || st("expect") || st("ptr.annotation") || st("launder") || st("strip.inv") || st("ssa.copy") {
            Intr::Ident
        } else if st("assume")
            || st("lifetime")
            || st("experimental.noalias")
            || st("dbg")
            || st("x86.sse2.pause")
            || st("prefetch")
            || st("donothing")
            || st("invariant")
            || st("va_")
            || st("fake.use")
        {
            return None;
        } else {
            return Some(I::Unsupported(format!("llvm.{n}")));
        };
        let w = match k {
            Intr::Memcpy | Intr::Memmove | Intr::Memset => 64,
            Intr::VReduce(_) => Self::width(&args[0].0),
            Intr::Ident => {
                return Some(I::Copy { d, a: flat[0] });
            }
            Intr::IsConst => {
                let z = self.konst(0);
                return Some(I::Copy { d, a: z });
            }
            Intr::Trap => return Some(I::Intr { k, w: 0, args: Box::new([]), d }),
            _ => {
                if !scalar {
                    return Some(I::Unsupported(format!("llvm.{n} on {:?}", args[0].0)));
                }
                Self::width(&args[0].0)
            }
        };
        let w2 = match k {
            Intr::UCmp | Intr::SCmp => w,
            _ => w,
        };
        let mut fl = flat;
        if matches!(k, Intr::UCmp | Intr::SCmp) {
            let rw = Self::width(ret) as u64;
            let c = self.konst(rw);
            fl.push(c);
        }
        Some(I::Intr { k, w: w2, args: fl.into_boxed_slice(), d })
    }
}
