//! Formatter family: a sentence of the grammar, with symbolic line breaks, symbolic terminals and comments, goes
//! through the real parser and the real formatter; the result is compared with the layout that the sentence carries.
//!
//! p0 property, p1 root, p2 budget, p3 number of comments, p4 flags (1 fixed kinds, 2 strings with line breaks,
//! 4 no symbolic line breaks, 8 the same number of line breaks everywhere, 16 no symbolic texts), p5 and p6 if not 0:
//! repetitions of loops and recursions, p7 if not 0: long and odd texts
use crate::gen::*;
use crate::rt::*;
use mofmt::verif::{events, ModelicaToken as K, Position, SyntaxEvent, Token};
use mofmt::{pretty_print, SyntaxKind};

pub struct Item {
    pub kind: K,
    pub any: bool,
    pub comment: bool,
    /// line breaks before and inside
    pub gap: usize,
    pub inner: usize,
    pub start: usize,
    pub end: usize,
    /// more blanks than necessary before it
    pub pad: usize,
    /// texts: in the source and for comparison
    pub text: String,
}

pub struct Source {
    pub gen: Gen,
    pub items: Vec<Item>,
    /// item of each token
    pub at: Vec<usize>,
}

/// What the style says about an item: separator before it and indentation
#[derive(Clone, Copy, PartialEq)]
pub enum Ctx {
    Plain,
    Struct,
    List,
    Expr,
    Comment,
}
#[derive(Clone, Copy)]
pub struct Want {
    pub item: usize,
    pub nl: usize,
    pub sp: usize,
    pub ctx: Ctx,
}

pub fn source(root: u64, budget: u64, comments: u64, flags: u64) -> Source {
    let mut g = Gen::new(budget as usize);
    g.kinds = flags & 1 == 0;
    g.tall = flags & 2 != 0;
    g.live = flags & 4 == 0;
    g.laps = param(5) as usize;
    g.depth = param(6) as usize;
    g.root(root);
    if g.laps > 0 {
        // long and deep sentences: the same line break before every token, but one
        assume(g.repeated);
        let every = [0, 1, 2, 70_000][pick(4)];
        let live: Vec<usize> = (0..g.toks.len()).filter(|i| g.toks[*i].live).collect();
        for i in &live {
            g.toks[*i].gap = every;
        }
        if comments == 0 && flags & 8 == 0 {
            let one = live[pick(live.len())];
            g.toks[one].gap = sym(0, 3) as u32;
        }
    }
    // texts that hold what the positions say
    let style = if param(7) > 0 { 1 + pick(2) } else { 0 };
    let plain = style > 0 || flags & 16 != 0 || NATIVE;
    // comments before token `c`, in source order
    let n = g.toks.len();
    let mut places: Vec<usize> = vec![];
    let mut spots: Vec<usize> = (0..n).filter(|i| g.toks[*i].live || *i == 0 || g.toks[*i - 1].live).collect();
    spots.push(n);
    let mut low = 0;
    for _ in 0..comments {
        low += pick(spots.len() - low);
        places.push(spots[low]);
    }
    let mut items: Vec<Item> = Vec::with_capacity(n + places.len());
    let mut at = Vec::with_capacity(n);
    let mut p = 0;
    let mut line = 1;
    for i in 0..=n {
        // the line break before the token follows the last comment
        while p < places.len() && places[p] == i {
            p += 1;
            let mut s = Set::new();
            s.put(K::LineComment as u8);
            s.put(K::BlockComment as u8);
            let kind: K = unsafe { std::mem::transmute::<u8, K>(s.sym()) };
            let gap = sym(0, 3) as usize;
            let inner = sym(0, 2) as usize;
            let (kind, inner) = if plain {
                (unsafe { std::mem::transmute::<u8, K>(conc(kind as u64) as u8) }, conc(inner as u64) as usize)
            } else {
                (kind, inner)
            };
            assume((kind == K::BlockComment) | (inner == 0));
            let start = line + gap;
            line = start + inner;
            let text = if style > 0 {
                spell_odd(kind, items.len(), inner, style)
            } else {
                spell(kind, items.len(), !plain, inner, plain)
            };
            items.push(Item { kind, any: true, comment: true, gap, inner, start, end: line, pad: 0, text });
        }
        if i == n {
            break;
        }
        let t = &g.toks[i];
        let (mut gap, inner) = (t.gap as usize, t.inner as usize);
        if let Some(c) = items.last() {
            if c.comment {
                // the end of a line comment is the end of its line
                if !t.live || g.laps > 0 {
                    gap = sym(0, 3) as usize;
                }
                assume((c.kind == K::BlockComment) | (gap > 0));
            }
        }
        let start = line + gap;
        line = start + inner;
        let inner = if plain { conc(inner as u64) as usize } else { inner };
        at.push(items.len());
        let kind = if plain { unsafe { std::mem::transmute::<u8, K>(conc(t.kind as u64) as u8) } } else { t.kind };
        let text = if style > 0 {
            spell_odd(kind, items.len(), inner, style)
        } else {
            spell(kind, items.len(), t.any && !plain, if plain { inner } else { 0 }, plain)
        };
        items.push(Item { kind, any: t.any, comment: false, gap, inner, start, end: line, pad: 0, text });
    }
    // two comments in a row
    for i in 1..items.len() {
        if items[i].comment && items[i - 1].comment {
            assume((items[i - 1].kind == K::BlockComment) | (items[i].gap > 0));
        }
    }
    Source { gen: g, items, at }
}

/// The layout that the code style prescribes
pub fn layout(s: &Source) -> Vec<Want> {
    let g = &s.gen;
    let multi: Vec<bool> = g
        .groups
        .iter()
        .map(|q| q.must || s.items[s.at[q.first]].start < s.items[s.at[q.last]].end)
        .collect();
    let mut wrapped = vec![false; g.exprs];
    let mut r: Vec<Want> = Vec::with_capacity(s.items.len());
    let mut indent = 0;
    let (mut nl, mut sp, mut ctx) = (0, 0, Ctx::Plain);
    let mut next = 0;
    for (k, op) in g.ops.iter().enumerate() {
        let mut brk = None;
        match *op {
            Op::Tok(t) => {
                r.push(Want { item: s.at[t], nl, sp, ctx });
                next = t + 1;
            }
            Op::Space => sp = 1,
            Op::In => indent += 1,
            Op::Out => indent -= 1,
            Op::InG(q) => indent += multi[q] as usize,
            Op::OutG(q) => indent -= multi[q] as usize,
            Op::Break(b) => brk = Some((b, Ctx::Struct)),
            Op::Wrap(q, space) => {
                if multi[q] {
                    brk = Some((Blank::Illegal, Ctx::List));
                } else {
                    sp = space as usize;
                    ctx = Ctx::List;
                }
            }
            Op::Operator(e) => {
                ctx = Ctx::Expr;
                // line of the operand behind the operator
                if s.items[s.at[next + 1]].start > s.items[s.at[next - 1]].end {
                    if !wrapped[e] {
                        wrapped[e] = true;
                        indent += 1;
                    }
                    brk = Some((Blank::Illegal, Ctx::Expr));
                } else {
                    sp = 1;
                }
            }
            Op::EndExpr(e) => indent -= wrapped[e] as usize,
        }
        if let Some((b, c)) = brk {
            nl = break_before(s, next, b, indent, &mut r);
            ctx = c;
            sp = if nl > 0 { 2 * indent } else { 0 };
        }
        if let Op::Tok(_) = *op {
            nl = 0;
            sp = 0;
            ctx = Ctx::Plain;
        }
        let _ = k;
    }
    // comments behind the last token
    let n = g.toks.len();
    let first = if n == 0 { 0 } else { s.at[n - 1] + 1 };
    let mut line = if n == 0 { 1 } else { s.items[first - 1].end };
    let last = line;
    for i in first..s.items.len() {
        let c = &s.items[i];
        if c.start == last {
            r.push(Want { item: i, nl: 0, sp: (i > 0) as usize, ctx: Ctx::Comment });
        } else {
            let nl = if i == 0 { 0 } else { 1 + (c.start - line > 1) as usize };
            r.push(Want { item: i, nl, sp: 0, ctx: Ctx::Comment });
        }
        line = c.end;
    }
    r
}

/// The comments before token `t`, which starts a line; returns the line breaks before the token
fn break_before(s: &Source, t: usize, b: Blank, indent: usize, r: &mut Vec<Want>) -> usize {
    let first = if t == 0 { 0 } else { s.at[t - 1] + 1 };
    let stop = s.at[t];
    let prev = if t == 0 { 1 } else { s.items[first - 1].end };
    let mut line = prev;
    let mut own = false;
    for i in first..stop {
        let c = &s.items[i];
        if c.start == prev {
            // stays behind the previous token
            r.push(Want { item: i, nl: 0, sp: (i > 0) as usize, ctx: Ctx::Comment });
        } else {
            let far = c.start - line > 1;
            let nl = if i == 0 {
                0
            } else if b == Blank::Required && !own {
                2
            } else {
                1 + far as usize
            };
            r.push(Want { item: i, nl, sp: 2 * indent, ctx: Ctx::Comment });
            own = true;
        }
        line = c.end;
    }
    if stop == 0 {
        return 0;
    }
    let far = s.items[stop].start - line > 1;
    match b {
        Blank::Required if !own => 2,
        Blank::Illegal => 1,
        _ => 1 + far as usize,
    }
}

/// Source text (for the replay against the real lexer)
pub fn text(s: &Source) -> String {
    text_of(&s.items)
}
pub fn text_of(s: &[Item]) -> String {
    let mut o = String::new();
    for i in s {
        for _ in 0..i.gap {
            o.push('\n');
        }
        if i.gap == 0 && !o.is_empty() {
            o.push(' ');
        }
        for k in 0..i.pad {
            o.push(if k == 1 { '\t' } else { ' ' });
        }
        o.push_str(&i.text);
    }
    o.push('\n');
    o
}

pub struct Lexed {
    pub tokens: Vec<Token>,
    pub comments: Vec<Token>,
}

/// The tokens as the lexer would deliver them
pub fn tokens(items: &[Item]) -> Lexed {
    let mut l = Lexed { tokens: Vec::with_capacity(items.len()), comments: Vec::with_capacity(4) };
    let (mut pos, mut col) = (0, 1);
    for (idx, i) in items.iter().enumerate() {
        let n = i.text.len();
        let t = Token {
            idx,
            text: i.text.clone(),
            kind: i.kind,
            start: Position { pos, line: i.start, col },
            end: Position { pos: pos + n, line: i.end, col: col + n },
        };
        pos += n + 1;
        col += n + 1;
        if i.comment {
            l.comments.push(t)
        } else {
            l.tokens.push(t)
        }
    }
    l
}

/// The tokens with their exact positions; kinds have to be fixed
pub fn placed(items: &[Item]) -> Lexed {
    let mut l = Lexed { tokens: Vec::with_capacity(items.len()), comments: Vec::with_capacity(4) };
    let (mut pos, mut col) = (0usize, 1usize);
    for (idx, i) in items.iter().enumerate() {
        let blanks = i.pad + ((idx > 0) & (i.gap == 0)) as usize;
        pos += i.gap + blanks;
        col = if_then(i.gap > 0, 1, col) + blanks;
        let start = Position { pos, line: i.start, col };
        let n = i.text.len() + i.inner - i.text.bytes().filter(|b| *b == b'\n').count();
        // text behind the last line break of the token
        let tail = if i.kind == K::String { 1 } else { 2 };
        pos += n;
        col = if_then(i.inner > 0, 1 + tail, col + i.text.len());
        let t = Token { idx, text: i.text.clone(), kind: i.kind, start, end: Position { pos, line: i.end, col } };
        if i.comment {
            l.comments.push(t)
        } else {
            l.tokens.push(t)
        }
    }
    l
}
fn if_then(c: bool, a: usize, b: usize) -> usize {
    let m = (c as usize).wrapping_neg();
    (a & m) | (b & !m)
}

pub static mut IN: Option<Lexed> = None;
pub static mut EVENTS: Option<(Vec<SyntaxEvent>, Vec<String>)> = None;
pub static mut OUT: Option<String> = None;
pub static mut ENTRY: SyntaxKind = SyntaxKind::StoredDefinition;

pub fn run_parse(_: u64) {
    unsafe {
        let l = (*std::ptr::addr_of!(IN)).as_ref().unwrap();
        EVENTS = Some(events("n", &l.tokens, ENTRY));
    }
}
pub fn run_print(_: u64) {
    unsafe {
        let l = (*std::ptr::addr_of_mut!(IN)).take().unwrap();
        let e = (*std::ptr::addr_of_mut!(EVENTS)).take().unwrap();
        OUT = Some(pretty_print(l.tokens, l.comments, e.0));
    }
}

/// None: crashed. Some(None): rejected
pub fn format(l: Lexed) -> Option<Option<String>> {
    unsafe {
        IN = Some(l);
        EVENTS = None;
        OUT = None;
        if attempt(run_parse, 0) != 0 {
            return None;
        }
        if !(*std::ptr::addr_of!(EVENTS)).as_ref().unwrap().1.is_empty() {
            return Some(None);
        }
        if attempt(run_print, 0) != 0 {
            return None;
        }
        Some((*std::ptr::addr_of_mut!(OUT)).take())
    }
}

#[cfg(feature = "native")]
pub fn native_lex(s: &Source) -> Lexed {
    let t = text(s);
    note(t.as_bytes());
    let (tokens, comments, errors) = mofmt::verif::lex("n", &t);
    let want = tokens_of(&s.items);
    let same = |a: &[Token], b: &[Token]| {
        a.len() == b.len()
            && a.iter().zip(b).all(|(x, y)| {
                x.kind == y.kind && x.text == y.text && x.idx == y.idx && x.start.line == y.start.line && x.end.line == y.end.line
            })
    };
    if !errors.is_empty() || !same(&tokens, &want.tokens) || !same(&comments, &want.comments) {
        note(b"the lexer does not deliver the tokens of this text");
        chk(1, 90, false);
        chk(8, 90, false);
        prune(9);
    }
    Lexed { tokens, comments }
}
#[cfg(feature = "native")]
pub fn native_place(s: &[Item]) -> Lexed {
    let t = text_of(s);
    note(t.as_bytes());
    let (tokens, comments, errors) = mofmt::verif::lex("n", &t);
    let want = placed(s);
    let same = |a: &[Token], b: &[Token]| {
        let p = |x: &Position, y: &Position| x.pos == y.pos && x.line == y.line && x.col == y.col;
        a.len() == b.len()
            && a.iter().zip(b).all(|(x, y)| {
                x.kind == y.kind && x.text == y.text && x.idx == y.idx && p(&x.start, &y.start) && p(&x.end, &y.end)
            })
    };
    if !errors.is_empty() || !same(&tokens, &want.tokens) || !same(&comments, &want.comments) {
        note(b"the lexer does not deliver the tokens of this text");
        prune(9);
    }
    Lexed { tokens, comments }
}
fn place(s: &[Item]) -> Lexed {
    #[cfg(feature = "native")]
    return native_place(s);
    #[cfg(not(feature = "native"))]
    placed(s)
}

/// C17: two layouts of the same lines
#[no_mangle]
pub extern "C" fn h_layout() {
    let mut s = source(root_param(), param(2), param(3), param(4) | 1);
    let mut line = 1;
    let wide = if s.gen.laps > 0 { [3, 250][pick(2)] } else { 0 };
    let mut two: Vec<Item> = Vec::with_capacity(s.items.len());
    for i in s.items.iter_mut() {
        // another number of empty lines, another indentation
        let (more, pad);
        if s.gen.laps > 0 {
            more = i.gap;
            pad = wide;
        } else {
            i.pad = sym(0, 250) as usize;
            more = sym(0, 3) as usize;
            assume(((i.gap < 2) & (more == i.gap)) | ((i.gap > 1) & (more > 1)));
            pad = sym(0, 250) as usize;
        }
        let start = line + more;
        line = start + i.inner;
        two.push(Item {
            kind: i.kind,
            any: i.any,
            comment: i.comment,
            gap: more,
            inner: i.inner,
            start,
            end: line,
            pad,
            text: i.text.clone(),
        });
    }
    let a = format(place(&s.items));
    let b = format(place(&two));
    // a crash or a wrong rejection is a matter of C08
    let (Some(Some(a)), Some(Some(b))) = (&a, &b) else {
        chk(17, 1, a.is_none() == b.is_none());
        chk(17, 2, matches!(a, Some(None)) == matches!(b, Some(None)));
        prune(1)
    };
    if NATIVE {
        note(a.as_bytes());
        note(b.as_bytes());
    }
    chk(17, 3, a == b);
    cover(1);
}

#[cfg(feature = "native")]
fn tokens_of(i: &[Item]) -> Lexed {
    tokens(i)
}

fn deliver(s: &Source) -> Lexed {
    #[cfg(feature = "native")]
    return native_lex(s);
    #[cfg(not(feature = "native"))]
    tokens(&s.items)
}

/// One item found in the output
pub struct Got {
    pub item: usize,
    pub nl: usize,
    pub sp: usize,
    /// anything but line breaks followed by blanks
    pub odd: bool,
}

/// Splits the output into the items of the source, in order; comments may be missing
pub fn split(s: &Source, out: &[u8]) -> Option<(Vec<Got>, bool)> {
    let mut r = Vec::with_capacity(s.items.len());
    let mut p = 0;
    let mut i = 0;
    loop {
        let (mut nl, mut sp, mut odd) = (0, 0, false);
        while p < out.len() && matches!(out[p], b' ' | b'\n' | b'\t' | b'\r') {
            match out[p] {
                b'\n' => {
                    odd |= sp > 0;
                    nl += 1;
                    sp = 0;
                }
                b' ' => sp += 1,
                _ => odd = true,
            }
            p += 1;
        }
        if p == out.len() {
            // every token must have been there
            return if s.items[i..].iter().all(|x| x.comment) { Some((r, nl + sp > 0 || odd)) } else { None };
        }
        loop {
            if i == s.items.len() {
                return None;
            }
            let t = s.items[i].text.as_bytes();
            if p + t.len() <= out.len() && &out[p..p + t.len()] == t {
                p += t.len();
                r.push(Got { item: i, nl, sp, odd });
                i += 1;
                break;
            }
            if !s.items[i].comment {
                return None;
            }
            i += 1;
        }
    }
}

fn wordlike(k: K) -> bool {
    if k == K::Identifier || k == K::UInt || k == K::UReal {
        return true;
    }
    crate::kinds::text(k).as_bytes().first().map_or(false, |c| c.is_ascii_alphabetic())
}

/// Would the two tokens become one, or something else, without white space between them?
fn fuses(a: K, b: K) -> bool {
    if wordlike(a) && wordlike(b) {
        return true;
    }
    if (a == K::UInt) & matches!(b, K::Dot | K::DotPlus | K::DotMinus | K::DotStar | K::DotSlash | K::DotFlex) {
        return true;
    }
    let (x, y) = (crate::kinds::text(a), crate::kinds::text(b));
    matches!((x, y), (":", "=") | ("<", ">") | ("<", "=") | (">", "=") | ("=", "=") | (".", "*") | (".", "+") | (".", "-") | (".", "/") | (".", "^") | ("/", "/") | ("/", "*") | ("/", ".*") | ("<", "==") | (">", "=="))
}

#[no_mangle]
pub extern "C" fn h_fmt() {
    let s = source(root_param(), param(2), param(3), param(4));
    let want = layout(&s);
    if !NATIVE && deciding(0) {
        note(text(&s).as_bytes());
    }
    let r = format(deliver(&s));
    // C08: accepted
    chk(8, 1, r.is_some());
    let Some(r) = r else {
        // no formatted text with any of the properties exists
        for p in 1..8 {
            chk(p, 9, false);
        }
        prune(1);
    };
    chk(8, 2, r.is_some());
    let Some(out) = r else { prune(2) };
    if deciding(8) {
        return cover(8);
    }
    if NATIVE {
        note(out.as_bytes());
    }
    compare(&s, &want, &out);
    if deciding(2) {
        again(s, &out);
    }
    cover(1);
}

fn compare(s: &Source, want: &[Want], out: &str) {
    let b = out.as_bytes();
    let got = split(s, b);
    chk(1, 1, got.is_some());
    let Some((got, tail)) = got else {
        // C01 is broken; nothing else can be said about this text
        prune(3)
    };
    chk(5, 1, !tail);
    if deciding(1) {
        for k in 1..got.len() {
            let (x, y) = (&s.items[got[k - 1].item], &s.items[got[k].item]);
            let none = got[k].nl == 0 && got[k].sp == 0;
            if none && !x.comment && !y.comment && !x.any && !y.any {
                chk(1, 2, !fuses(x.kind, y.kind));
            } else if none && !x.comment && !y.comment {
                // a symbolic terminal: number, word or operator
                let w = |i: &Item| if i.any { wordlike_any(i.kind) } else { wordlike(i.kind) };
                chk(1, 2, !(w(x) & w(y)));
            }
            if x.comment && got[k].nl == 0 {
                chk(1, 3, x.kind != K::LineComment);
            }
        }
    }
    if deciding(3) {
        // a comment that belongs to a line break in the output must be there
        let mut k = 0;
        for (i, it) in s.items.iter().enumerate() {
            while k < got.len() && got[k].item < i {
                k += 1;
            }
            if !it.comment || (k < got.len() && got[k].item == i) {
                continue;
            }
            // lost: the gap between the tokens around it has to be without a line break
            let first = !got[..k].iter().any(|g| !s.items[g.item].comment);
            let last = !got[k..].iter().any(|g| !s.items[g.item].comment);
            chk(3, 1, !first && !last);
            let mut nl = 0;
            let mut j = k;
            while j < got.len() {
                nl += got[j].nl;
                if !s.items[got[j].item].comment {
                    break;
                }
                j += 1;
            }
            let mut j = k;
            while j > 0 && s.items[got[j - 1].item].comment {
                j -= 1;
                nl += got[j].nl;
            }
            chk(3, 2, nl == 0);
        }
    }
    // the layout, item by item
    let mut g = 0;
    let mut broken = false;
    for w in want {
        while g < got.len() && got[g].item < w.item {
            // a comment that the style leaves out; harmless where it is kept
            g += 1;
        }
        if g == got.len() || got[g].item != w.item {
            // a lost comment belongs to C03
            continue;
        }
        let q = &got[g];
        g += 1;
        match w.ctx {
            Ctx::Plain => {
                chk(5, 2, q.nl == 0 && q.sp == w.sp && !q.odd);
                chk(7, 1, q.nl == 0);
                broken |= q.nl != 0;
            }
            Ctx::Struct => {
                chk(6, 1, (q.nl == 0) == (w.nl == 0));
                chk(6, 2, q.nl == w.nl);
                broken |= (q.nl == 0) != (w.nl == 0);
            }
            Ctx::List | Ctx::Expr => {
                chk(7, 2, (q.nl == 0) == (w.nl == 0));
                chk(6, 3, q.nl <= 1);
                broken |= (q.nl == 0) != (w.nl == 0);
                if w.nl == 0 && q.nl == 0 {
                    chk(5, 3, q.sp == w.sp && !q.odd);
                }
            }
            Ctx::Comment => {
                chk(6, 4, q.nl == w.nl);
                if w.nl == 0 && q.nl == 0 {
                    chk(5, 4, q.sp == w.sp && !q.odd);
                }
                broken |= (q.nl == 0) != (w.nl == 0);
            }
        }
        chk(5, 5, !q.odd);
        if q.nl > 0 && w.nl > 0 && !broken {
            chk(4, 1, q.sp == w.sp);
        }
    }
}
/// every symbolic set is either words and numbers or operators
fn wordlike_any(k: K) -> bool {
    let mut r = k == K::UInt;
    r |= k == K::UReal;
    r |= k == K::Bool;
    for (w, _) in crate::kinds::WORDS {
        r |= k == *w;
    }
    r
}

/// C02: the output goes through the parser and the formatter once more
fn again(s: Source, out: &str) {
    let Some((got, _)) = split(&s, out.as_bytes()) else { prune(4) };
    let mut items: Vec<Item> = Vec::with_capacity(got.len());
    let mut line = 1;
    for g in &got {
        let i = &s.items[g.item];
        let start = line + g.nl;
        line = start + i.inner;
        items.push(Item {
            kind: i.kind,
            any: i.any,
            comment: i.comment,
            gap: g.nl,
            inner: i.inner,
            start,
            end: line,
            pad: 0,
            text: i.text.clone(),
        });
    }
    let l = if NATIVE { relex(out) } else { tokens(&items) };
    let r = format(l);
    chk(2, 1, r.is_some());
    let Some(r) = r else { prune(5) };
    chk(2, 2, r.is_some());
    let Some(twice) = r else { prune(6) };
    if NATIVE {
        note(twice.as_bytes());
    }
    chk(2, 3, twice == out);
}

fn relex(out: &str) -> Lexed {
    let (tokens, comments, errors) = mofmt::verif::lex("n", out);
    chk(2, 4, errors.is_empty());
    Lexed { tokens, comments }
}
