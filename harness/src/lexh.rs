//! Lexer family: the source text is symbolic.
//!
//! p0 property, p1 alphabet, p2 number of characters, p3 how many of them may be outside ASCII, p4 if not 0: how
//! often what stands between the first and the last character is repeated, p5 if not 0: length of a text in front of
//! it all, of any of these kinds
use crate::kinds::{FIXED, WORDS};
use crate::rt::*;
use mofmt::verif::{lex, ModelicaToken as K, Token};

fn alphabet(mode: u64) -> Set {
    match mode {
        0 => Set::new().range(0, 127),
        1 => Set::of(b":=<>.+-*/^1a \n"),
        2 => Set::of(b"09.eE+-x \n"),
        3 => Set::of(b"_").range(b'a', b'z').range(b'0', b'9').range(b'A', b'Z'),
        4 => Set::of(b"\"'\\a\n ?\x07!"),
        _ => Set::of(b"/*\r\n \"a"),
    }
}

/// One character outside ASCII, all of them symbolic except for the surrogates' neighbourhood
pub fn wide(s: &mut Vec<u8>) {
    match pick(3) {
        0 => {
            s.push(sym(0xc2, 0xdf));
            s.push(sym(0x80, 0xbf));
        }
        1 => {
            let (a, b) = (sym(0xe0, 0xef), sym(0x80, 0xbf));
            // no overlong forms, no surrogates
            assume(((a != 0xe0) | (b >= 0xa0)) & ((a != 0xed) | (b < 0xa0)));
            s.push(a);
            s.push(b);
            s.push(sym(0x80, 0xbf));
        }
        _ => {
            let (a, b) = (sym(0xf0, 0xf4), sym(0x80, 0xbf));
            assume(((a != 0xf0) | (b >= 0x90)) & ((a != 0xf4) | (b < 0x90)));
            s.push(a);
            s.push(b);
            s.push(sym(0x80, 0xbf));
            s.push(sym(0x80, 0xbf));
        }
    }
}

/// Texts that exceed 16 bits: in lines, columns, lexemes, length of a lexeme
const LONG: &[(&[u8], &[u8], &[u8])] = &[
    (b"", b"\n", b""),
    (b"", b" ", b""),
    (b"", b";", b""),
    (b"", b"/**/", b""),
    (b"a", b"a", b" "),
    (b"", b"1", b" "),
    (b"\"", b"a", b"\""),
    (b"\"", b"\n", b"\""),
    (b"/*", b"\r\n", b"*/"),
    (b"//", b"/", b"\n"),
    (b"'", b"a", b"'"),
    (b"\"", b"\xc3\xa9", b"\""),
];

pub fn source() -> Vec<u8> {
    let mut s = Vec::with_capacity(64);
    if param(5) > 0 {
        let (a, b, c) = LONG[pick(LONG.len())];
        s.extend_from_slice(a);
        for _ in 0..param(5) {
            s.extend_from_slice(b);
        }
        s.extend_from_slice(c);
    }
    s.extend_from_slice(&part());
    s
}

fn part() -> Vec<u8> {
    let (mode, n, mut w) = (param(1), param(2), param(3));
    let a = alphabet(mode);
    let mut s = Vec::with_capacity(64);
    let mut starts = Vec::with_capacity(16);
    for i in 0..n {
        starts.push(s.len());
        if w > 0 && pick(2) == 1 {
            w -= 1;
            wide(&mut s);
        } else if mode == 3 && i == 0 {
            s.push(Set::of(b"_").range(b'a', b'z').range(b'A', b'Z').sym());
        } else {
            s.push(a.sym());
        }
    }
    if param(4) > 0 {
        let n = starts.len();
        let mut r = s[..starts[1]].to_vec();
        for _ in 0..param(4) {
            r.extend_from_slice(&s[starts[1]..starts[n - 1]]);
        }
        r.extend_from_slice(&s[starts[n - 1]..]);
        return r;
    }
    s
}

fn space(b: u8) -> bool {
    matches!(b, b' ' | b'\t' | b'\n' | b'\r' | 0x0c)
}
fn digit(b: u8) -> bool {
    b.is_ascii_digit()
}
fn word_part(b: u8) -> bool {
    b == b'_' || b.is_ascii_digit() || b.is_ascii_lowercase() || b.is_ascii_uppercase()
}

pub enum Scan {
    /// token kind and end
    Tok(K, usize),
    /// end of an identifier or keyword
    Word(usize),
    /// malformed lexeme
    Bad,
}

fn digits(b: &[u8], mut i: usize) -> usize {
    while i < b.len() && digit(b[i]) {
        i += 1;
    }
    i
}

/// The lexeme that starts at `i` (not at whitespace) according to the specification
pub fn scan(b: &[u8], i: usize) -> Scan {
    let c = b[i];
    let next = |k: usize| b.get(i + k).copied();
    if digit(c) || (c == b'.' && next(1).map_or(false, digit)) {
        let mut real = false;
        let mut e = digits(b, i);
        if e < b.len() && b[e] == b'.' {
            real = true;
            e = digits(b, e + 1);
        }
        if e < b.len() && (b[e] == b'e' || b[e] == b'E') {
            real = true;
            let mut f = e + 1;
            if f < b.len() && (b[f] == b'+' || b[f] == b'-') {
                f += 1;
            }
            let g = digits(b, f);
            if g == f {
                return Scan::Bad;
            }
            e = g;
        }
        return Scan::Tok(if real { K::UReal } else { K::UInt }, e);
    }
    if word_part(c) {
        let mut e = i + 1;
        while e < b.len() && word_part(b[e]) {
            e += 1;
        }
        return Scan::Word(e);
    }
    if c == b'"' || c == b'\'' {
        let mut e = i + 1;
        while e < b.len() {
            let d = b[e];
            if d == b'\\' {
                e += 1;
                // skip the whole escaped character
                if e < b.len() {
                    e += 1;
                    while e < b.len() && b[e] & 0xc0 == 0x80 {
                        e += 1;
                    }
                }
            } else if d == c {
                return Scan::Tok(if c == b'"' { K::String } else { K::Identifier }, e + 1);
            } else if c == b'\'' && !word_part(d) && !b"!#$%&()*+,-./:;<>=?@[]^{}|~ \"".contains(&d) {
                return Scan::Bad;
            } else {
                e += 1;
            }
        }
        return Scan::Bad;
    }
    if c == b'/' && next(1) == Some(b'/') {
        let mut e = i + 2;
        while e < b.len() && b[e] != b'\n' && b[e] != b'\r' {
            e += 1;
        }
        return Scan::Tok(K::LineComment, e);
    }
    if c == b'/' && next(1) == Some(b'*') {
        let mut e = i + 2;
        while e + 1 < b.len() {
            if b[e] == b'*' && b[e + 1] == b'/' {
                return Scan::Tok(K::BlockComment, e + 2);
            }
            e += 1;
        }
        return Scan::Bad;
    }
    let mut best = None;
    for (k, t) in FIXED {
        let t = t.as_bytes();
        if i + t.len() <= b.len() && &b[i..i + t.len()] == t && best.map_or(true, |(_, n)| t.len() > n) {
            best = Some((*k, t.len()));
        }
    }
    match best {
        Some((k, n)) => Scan::Tok(k, i + n),
        None => Scan::Bad,
    }
}

/// Is `k` the right kind for the whole word `w`?
fn word_kind(w: &[u8], k: K) -> bool {
    let mut is = false;
    let mut any = false;
    for (q, t) in WORDS {
        if t.len() == w.len() {
            let same = t.as_bytes() == w;
            any |= same;
            is |= same & (*q == k);
        }
    }
    is | ((k == K::Identifier) & !any)
}

/// line and column (in characters) of every byte offset
pub fn positions(b: &[u8]) -> Vec<(usize, usize)> {
    let mut r = Vec::with_capacity(b.len() + 1);
    let (mut l, mut c) = (1, 1);
    for i in 0..b.len() {
        r.push((l, c));
        // counted when the last byte of the character has been passed
        if i + 1 < b.len() && b[i + 1] & 0xc0 == 0x80 {
            continue;
        }
        // a lone carriage return ends a line, too
        if b[i] == b'\n' || (b[i] == b'\r' && b.get(i + 1) != Some(&b'\n')) {
            l += 1;
            c = 1;
        } else {
            c += 1;
        }
    }
    r.push((l, c));
    r
}

/// line and column of a diagnostic `name:l:c: ...`
pub fn diag(e: &[u8], name: &[u8]) -> Option<(usize, usize)> {
    if e.len() <= name.len() || &e[..name.len()] != name || e[name.len()] != b':' {
        return None;
    }
    let mut i = name.len() + 1;
    let mut v = [0usize; 2];
    for k in 0..2 {
        let s = i;
        while i < e.len() && digit(e[i]) {
            v[k] = v[k] * 10 + (e[i] - b'0') as usize;
            i += 1;
        }
        if i == s || i >= e.len() || e[i] != b':' {
            return None;
        }
        i += 1;
    }
    if i < e.len() && e[i] == b' ' && i + 1 < e.len() {
        Some((v[0], v[1]))
    } else {
        None
    }
}

static mut SRC: Vec<u8> = Vec::new();
static mut RES: Option<(Vec<Token>, Vec<Token>, Vec<String>)> = None;

fn run_lex(_: u64) {
    unsafe {
        let s = &*std::ptr::addr_of!(SRC);
        RES = Some(lex("n", std::str::from_utf8_unchecked(s)));
    }
}

/// Lexes a symbolic text; None if the lexer crashed
pub fn lexed(src: Vec<u8>) -> Option<(Vec<Token>, Vec<Token>, Vec<String>)> {
    unsafe {
        SRC = src;
        RES = None;
        if attempt(run_lex, 0) != 0 {
            return None;
        }
        (*std::ptr::addr_of_mut!(RES)).take()
    }
}

#[no_mangle]
pub extern "C" fn h_lex() {
    let src = source();
    note(&src);
    let r = lexed(src.clone());
    chk(10, 1, r.is_some());
    let Some((tokens, comments, errors)) = r else { prune(1) };
    if deciding(10) {
        return cover(1);
    }
    let b = &src[..];
    let pos = positions(b);
    let errs: Vec<Option<(usize, usize)>> = errors.iter().map(|e| diag(e.as_bytes(), b"n")).collect();
    let mut eoff = Vec::with_capacity(errs.len());
    for e in &errs {
        let o = e.and_then(|e| pos.iter().position(|p| *p == e));
        chk(16, 1, e.is_some());
        chk(16, 2, o.is_some());
        chk(11, 1, o.is_some());
        eoff.push(o.unwrap_or(usize::MAX));
    }
    // everything in source order
    let mut all: Vec<(&Token, bool)> = Vec::with_capacity(tokens.len() + comments.len());
    let (mut i, mut j) = (0, 0);
    while i < tokens.len() || j < comments.len() {
        let t = tokens.get(i).map_or(usize::MAX, |t| t.start.pos);
        let c = comments.get(j).map_or(usize::MAX, |t| t.start.pos);
        if t <= c {
            all.push((&tokens[i], false));
            i += 1;
        } else {
            all.push((&comments[j], true));
            j += 1;
        }
    }
    if deciding(11) {
        lossless(b, &pos, &all, &eoff);
    } else {
        classify(b, &all, &errs, &pos);
    }
    cover(2);
}

fn lossless(b: &[u8], pos: &[(usize, usize)], all: &[(&Token, bool)], eoff: &[usize]) {
    let mut end = 0;
    for k in 0..=all.len() {
        let stop = if k < all.len() { all[k].0.start.pos } else { b.len() };
        check_that(2, stop >= end && stop <= b.len());
        if stop < end || stop > b.len() {
            return;
        }
        // between two items: whitespace up to the first diagnostic
        let from = eoff.iter().copied().filter(|o| *o >= end && *o < stop).min().unwrap_or(stop);
        for q in end..from {
            check_that(3, space(b[q]));
        }
        if from < stop {
            check_that(4, !space(b[from]));
        }
        if k == all.len() {
            break;
        }
        let t = all[k].0;
        check_that(5, t.idx == k);
        check_that(6, t.end.pos > t.start.pos && t.end.pos <= b.len());
        if t.end.pos <= t.start.pos || t.end.pos > b.len() {
            return;
        }
        check_that(7, t.text.as_bytes() == &b[t.start.pos..t.end.pos]);
        check_that(8, (t.start.line, t.start.col) == pos[t.start.pos]);
        check_that(9, (t.end.line, t.end.col) == pos[t.end.pos]);
        check_that(10, !space(b[t.start.pos]));
        end = t.end.pos;
    }
    // every diagnostic starts outside the items
    for o in eoff {
        for (t, _) in all {
            check_that(11, *o < t.start.pos || *o >= t.end.pos);
        }
    }
}
fn check_that(n: u32, c: bool) {
    chk(11, n, c)
}

/// Compares with the specification's lexemes up to the first malformed one
fn classify(b: &[u8], all: &[(&Token, bool)], errs: &[Option<(usize, usize)>], pos: &[(usize, usize)]) {
    let mut at = 0;
    let mut k = 0;
    loop {
        while at < b.len() && space(b[at]) {
            at += 1;
        }
        if at == b.len() {
            chk(12, 1, k == all.len());
            chk(12, 2, errs.is_empty());
            chk(16, 3, errs.is_empty());
            return;
        }
        match scan(b, at) {
            Scan::Bad => {
                chk(12, 3, !errs.is_empty());
                chk(16, 4, !errs.is_empty() && errs[0] == Some(pos[at]));
                return;
            }
            Scan::Word(end) => {
                chk(12, 4, k < all.len());
                if k >= all.len() {
                    return;
                }
                let t = all[k].0;
                chk(12, 5, t.start.pos == at && t.end.pos == end);
                chk(12, 8, word_kind(&b[at..end], t.kind) && !all[k].1);
                at = end;
                k += 1;
            }
            Scan::Tok(kind, end) => {
                chk(12, 4, k < all.len());
                if k >= all.len() {
                    return;
                }
                let t = all[k].0;
                chk(12, 5, t.start.pos == at && t.end.pos == end);
                chk(12, 6, t.kind == kind);
                chk(12, 7, all[k].1 == (kind == K::LineComment || kind == K::BlockComment));
                at = end;
                k += 1;
            }
        }
    }
}
