//! Text family: the whole of `parse` and `pretty_print`, lexer included, on a text with symbolic bytes.
//!
//! p0 property, p1 template (255: any), p2 alphabet, p3 number of symbolic bytes, p4 if not 0: how often they are
//! repeated, p5 if not 0: length of a part of the program
use crate::lexh::{positions, scan, wide, Scan};
use crate::kinds::WORDS;
use crate::parseh::place_of;
use crate::recog::Recognizer;
use crate::rt::*;
use mofmt::verif::ModelicaToken as K;
use mofmt::SyntaxKind;

/// `?`: where the symbolic bytes go
const TEXTS: &[&str] = &[
    "?",
    "model A\n?\nend A;\n",
    "model A Real x?; end A;",
    "model A\nequation\n  x = ?;\nend A;\n",
    "model A\nequation\n  x = 1?2;\nend A;",
    "model A\nalgorithm\n  x?1;\nend A;",
    "model A?end A;",
    "?model A end A;",
    "model A \"s?\" end A;",
    "model A\n  Real x; //?\n  Real y;\nend A;",
    "model A\n  Real x; /*?*/\n  Real y;\nend A;",
    "model A\n  Real 'q?;\nend A;",
    "model A\n  Real x = f(1,?2);\nend A;",
    "model A\nequation\n  if b then\n    x = 1?;\n  end if;\nend A;\n",
    "model A end A?",
    "model A\n  M m(a=?);\nend A;",
    "model A\n  Real x(start = 1 /*?*/, min = 2);\nend A;",
    "model A\nequation\n  x = 1; //?\n\nend A;",
    "model A\n  Real x[2](each start=1?) \"s\" annotation(a);\nend A;",
    "model A\n  import B.{a,?c};\nend A;",
    "model A\nalgorithm\n  (a,?) := f(x);\nend A;",
    "type E = enumeration(a?);",
    "model A\nequation\n  if b then?elseif c then else end if;\nend A;\n",
    "//?\nmodel A end A;",
];

/// Programs with a part that is repeated until something exceeds 16 bits: lines, columns, lexemes, comments, length
const HUGE: &[(&str, &str, &str)] = &[
    ("", "\n", "model A?end A;"),
    ("model A", " ", "Real x?; end A;"),
    ("model A\n  Real x;", "\n", "?  Real y;\nend A;"),
    ("model A\n", "x y;\n", "?end A;"),
    ("model A ", "/**/", "?\nend A;"),
    ("model A\n", "//\n", "?\nend A;"),
    ("model A \"", "\n", "\"?\nend A;"),
    ("model A Real a", "a", "?;\nend A;"),
    ("model A /*", "\n", "*/?end A;"),
];

fn alphabet(mode: u64) -> Set {
    match mode {
        0 => Set::new().range(0, 127),
        1 => Set::of(b" \n\t\r/*\"a;"),
        2 => Set::of(b"+-*/^<>=:.,;()[]{}1a \n"),
        3 => Set::of(b"0123456789.eE+-x_ "),
        4 => Set::of(b"\"'\\\n a?/*\x07"),
        5 => Set::of(b" \n/*a"),
        _ => Set::of(b" \n/*a\""),
    }
}

fn source() -> Vec<u8> {
    let a = alphabet(param(2));
    let mut r = Vec::with_capacity(160);
    let huge;
    let t = if param(5) > 0 {
        let (a, b, c) = HUGE[pick(HUGE.len())];
        // three lexemes in one
        let n = if b.starts_with('x') { param(5) / 3 + 1 } else { param(5) } as usize;
        huge = [a, &b.repeat(n), c].concat();
        &huge[..]
    } else if param(1) == 255 {
        TEXTS[pick(TEXTS.len())]
    } else {
        TEXTS[param(1) as usize]
    };
    for b in t.as_bytes() {
        if *b == b'?' {
            let from = r.len();
            for _ in 0..param(3) {
                if param(2) == 6 && pick(2) == 1 {
                    wide(&mut r);
                } else {
                    r.push(a.sym());
                }
            }
            let to = r.len();
            for _ in 1..param(4) {
                r.extend_from_within(from..to);
            }
        } else {
            r.push(*b);
        }
    }
    r
}

static mut SRC: Vec<u8> = Vec::new();
static mut RES: Option<(Vec<String>, Option<String>)> = None;

fn run(_: u64) {
    unsafe {
        let s = &*std::ptr::addr_of!(SRC);
        let p = mofmt::parse("n", std::str::from_utf8_unchecked(s), SyntaxKind::StoredDefinition);
        RES = Some((p.errors, None));
        let r = (*std::ptr::addr_of_mut!(RES)).as_mut().unwrap();
        if r.0.is_empty() {
            r.1 = Some(mofmt::pretty_print(p.tokens, p.comments, p.events));
        }
    }
}

enum Res {
    Errors(Vec<String>),
    Text(Vec<u8>),
    Crash,
}

fn process(src: Vec<u8>) -> Res {
    unsafe {
        SRC = src;
        RES = None;
        out_clear();
        if attempt(run, 0) == 0 {
            let (e, t) = (*std::ptr::addr_of_mut!(RES)).take().unwrap();
            return match t {
                Some(t) => Res::Text(t.into_bytes()),
                None => Res::Errors(e),
            };
        }
    }
    Res::Crash
}

pub struct Lexeme {
    pub kind: K,
    pub from: usize,
    pub to: usize,
}

/// The kind of a whole word
fn word(w: &[u8]) -> K {
    for (k, t) in WORDS {
        if t.len() == w.len() && t.as_bytes() == w {
            return *k;
        }
    }
    K::Identifier
}

/// The lexemes of a text, comments included, up to the first malformed one
pub fn split(b: &[u8]) -> (Vec<Lexeme>, Option<usize>) {
    let mut r = Vec::with_capacity(64);
    let mut i = 0;
    while i < b.len() {
        if matches!(b[i], b' ' | b'\t' | b'\n' | b'\r' | 0x0c) {
            i += 1;
            continue;
        }
        let (kind, to) = match scan(b, i) {
            Scan::Tok(k, e) => (k, e),
            Scan::Word(e) => (word(&b[i..e]), e),
            Scan::Bad => return (r, Some(i)),
        };
        r.push(Lexeme { kind, from: i, to });
        i = to;
    }
    (r, None)
}

pub fn comment(k: K) -> bool {
    k == K::LineComment || k == K::BlockComment
}

#[no_mangle]
pub extern "C" fn h_text() {
    let src = source();
    note(&src);
    let r = process(src.clone());
    chk(10, 4, !matches!(r, Res::Crash));
    if deciding(10) {
        return cover(10);
    }
    if matches!(r, Res::Crash) {
        prune(1)
    }
    let (lexemes, bad) = split(&src);
    let pos = positions(&src);
    let mut valid = bad.is_none();
    if valid {
        let mut rec = Recognizer::new();
        for l in &lexemes {
            if !comment(l.kind) && !rec.step(l.kind, false) {
                valid = false;
                break;
            }
        }
        valid = valid && rec.end();
    }
    if !valid {
        chk(9, 2, !matches!(r, Res::Text(_)));
        cover(3);
        if deciding(16) {
            let Res::Errors(e) = &r else { prune(2) };
            for m in e {
                let p = place_of(m.as_bytes());
                chk(16, 5, p.is_some_and(|p| pos.contains(&p)));
            }
            if let Some(i) = bad {
                // the first malformed lexeme is reported where it begins
                let here = e.iter().filter_map(|m| place_of(m.as_bytes())).any(|p| p == pos[i]);
                chk(16, 6, here);
                cover(6);
            }
            cover(16);
        }
        return;
    }
    chk(8, 4, matches!(r, Res::Text(_)));
    cover(2);
    let Res::Text(t) = r else {
        for p in 1..8 {
            chk(p, 10, false);
        }
        prune(3)
    };
    if NATIVE {
        note(&t);
    }
    if deciding(1) || deciding(3) {
        let (got, bad) = split(&t);
        chk(1, 4, bad.is_none());
        chk(3, 3, bad.is_none());
        if bad.is_some() {
            prune(4)
        }
        let a: Vec<&Lexeme> = lexemes.iter().filter(|l| !comment(l.kind)).collect();
        let b: Vec<&Lexeme> = got.iter().filter(|l| !comment(l.kind)).collect();
        chk(1, 5, a.len() == b.len());
        if a.len() != b.len() {
            prune(5)
        }
        for (x, y) in a.iter().zip(&b) {
            chk(1, 6, x.kind == y.kind && src[x.from..x.to] == t[y.from..y.to]);
        }
        if deciding(3) {
            comments(&src, &lexemes, &t, &got);
        }
    }
    if deciding(2) {
        match process(t.clone()) {
            Res::Text(u) => {
                if NATIVE {
                    note(&u);
                }
                chk(2, 6, u == t)
            }
            _ => chk(2, 5, false),
        }
    }
    if deciding(5) {
        // white space of the output, outside the lexemes
        let (got, _) = split(&t);
        let mut i = 0;
        for k in 0..=got.len() {
            let e = if k < got.len() { got[k].from } else { t.len() };
            let gap = &t[i..e];
            chk(5, 6, gap.iter().all(|b| *b == b' ' || *b == b'\n'));
            if k == got.len() {
                chk(5, 7, gap.is_empty());
                break;
            }
            match gap.iter().rposition(|b| *b == b'\n') {
                // nothing but line breaks, then the indentation
                Some(p) => chk(5, 8, gap[..p].iter().all(|b| *b == b'\n')),
                None => chk(5, 9, gap.len() <= 1),
            }
            i = got[k].to;
        }
    }
    cover(1);
}

/// Every comment that borders on a line break of the output is there, between the same tokens
fn comments(src: &[u8], a: &[Lexeme], t: &[u8], b: &[Lexeme]) {
    let groups = |l: &[Lexeme]| {
        // comments before each token
        let mut r: Vec<Vec<(usize, usize)>> = vec![vec![]];
        for x in l {
            if comment(x.kind) {
                r.last_mut().unwrap().push((x.from, x.to));
            } else {
                r.push(vec![]);
            }
        }
        r
    };
    let (ga, gb) = (groups(a), groups(b));
    let ends: Vec<(usize, usize)> = b.iter().filter(|l| !comment(l.kind)).map(|l| (l.from, l.to)).collect();
    for k in 0..ga.len() {
        // what is there comes from here, in order
        let mut j = 0;
        for (f, e) in &gb[k] {
            while j < ga[k].len() && src[ga[k][j].0..ga[k][j].1] != t[*f..*e] {
                j += 1;
            }
            chk(3, 4, j < ga[k].len());
            j += 1;
        }
        if gb[k].len() < ga[k].len() {
            let from = if k == 0 { 0 } else { ends[k - 1].1 };
            let to = if k < ends.len() { ends[k].0 } else { t.len() };
            let outside = k == 0 || k == ends.len();
            chk(3, 5, !outside && !t[from..to].contains(&b'\n'));
        }
    }
}

/// Programs for `h_space`; white space between the lexemes does not matter here
const SPACED: &[&str] = &[
    "within A.B; final model A \"d\" Real x(start=1,min=-2)=3 \"e\"; end A;",
    "model A equation x=f(1,y+2)*(3-z); connect(a.b,c[1:2,:]); annotation(Icon(a=b)); end A;",
    "model A /*a*/ Real 'x y'; // b\nend A;",
    "model A algorithm if a<>b then x:=1; elseif not c then for i in 1:3 loop f(); end for; else return; end if; end A;",
    "model A=B(redeclare C d,each e=f) \"s\" annotation(g);",
    "function f input Real x; protected Integer i; external \"C\" y=g(x); end f;",
    "// c\nmodel A end A; /*d\ne*/ model B extends A; import C.*; import D.{e,f}; end B; // g\n",
    "type E=enumeration(a \"b\",c); record R=der(F,x);",
    "model A Real x=if a then {1,2} elseif b then [1,2;3,4] else .B.c[1].d+der(x); end A;",
];

/// Any white space of n symbolic bytes that holds the same number of line breaks up to 2 as the original
fn blank(n: u64, breaks: usize) -> Vec<u8> {
    let a = Set::of(b" \t\n\r\x0c");
    let mut r = Vec::with_capacity(n as usize + 2);
    for _ in 0..n {
        r.push(a.sym());
    }
    let mut k = 0;
    for i in 0..r.len() {
        k += (r[i] == b'\n' || (r[i] == b'\r' && r.get(i + 1) != Some(&b'\n'))) as usize;
    }
    assume(k.min(2) == breaks);
    r
}

/// White space family: two texts that differ in the white space at one place, or at every second place, but neither
/// in the tokens nor in their lines (nor in whether there is an empty line).
///
/// p0 property, p1 number of symbolic bytes, p2 0: one place, 1: many places, p3 how often what is put in is repeated
/// (more than 1000: only its last character)
#[no_mangle]
pub extern "C" fn h_space() {
    let src = SPACED[pick(SPACED.len())].as_bytes();
    let (lexemes, bad) = split(src);
    chk(17, 20, bad.is_none());
    let n = lexemes.len();
    let (at, breaks) = (pick(n + 1), pick(3));
    let many = param(2) == 1;
    if many {
        assume(at < 2);
    }
    let w = blank(param(1), breaks);
    let rest = [&b""[..], b" ", b"\n", b" \n\n"][pick(4)];
    if param(3) > 1000 {
        let last = w[w.len() - 1];
        assume((breaks != 1) | ((last != b'\n') & (last != b'\r')));
    } else {
        assume(param(3) == 0 || breaks != 1);
    }
    let short = [&b""[..], b"\n", b"\n\n"][breaks];
    // the plain text and the other one
    let (mut a, mut b) = (Vec::with_capacity(300), Vec::with_capacity(900));
    for i in 0..=n {
        let line = i > 0 && lexemes[i - 1].kind == K::LineComment;
        if i == at || (many && i % 2 == at) {
            // a line comment reaches to the end of its line
            assume(!line || (breaks > 0 && (w[0] == b'\n' || w[0] == b'\r')));
            a.extend(short);
            if breaks == 0 {
                a.push(b' ');
            }
            let k = param(3).max(1);
            if k > 1000 {
                // only the last character is repeated
                b.extend(&w[..w.len() - 1]);
                for _ in 0..k - 1000 {
                    b.push(w[w.len() - 1]);
                }
            } else {
                for _ in 0..k {
                    b.extend(&w);
                }
            }
        } else {
            let c = if line && !rest.contains(&b'\n') { b"\n" } else { rest };
            a.extend(c);
            b.extend(c);
        }
        if i < n {
            a.extend(&src[lexemes[i].from..lexemes[i].to]);
            b.extend(&src[lexemes[i].from..lexemes[i].to]);
        }
    }
    note(&a);
    note(&b);
    if w.is_empty() || rest.is_empty() {
        // signs that merge, or slashes that begin a comment
        let text = |s: &[u8]| split(s).0.iter().map(|l| s[l.from..l.to].to_vec()).collect::<Vec<_>>();
        let (x, y) = (text(&a), text(&b));
        if x.len() != n || x != y {
            prune(1)
        }
    }
    match (process(a), process(b)) {
        (Res::Text(s), Res::Text(t)) => {
            if NATIVE {
                note(&s);
                note(&t);
            }
            chk(17, 21, s == t);
        }
        _ => chk(17, 22, false),
    }
    cover(1);
}
