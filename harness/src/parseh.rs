//! Parser family: a sentence of the grammar in which tokens are removed and others put in, whose kinds are symbolic.
//!
//! p0 property, p1 root, p2 budget, p3 change: tokens removed + 10 * tokens put in + 100 * (1: drop the rest), p4 1:
//! changes anywhere, 0: in the part below the root, +2: kinds and texts are concrete, p5 and p6 if not 0: repetitions of loops and recursions
use crate::fmth::{run_parse, Lexed, ENTRY, EVENTS, IN};
use crate::gen::*;
use crate::kinds::{FIXED, WORDS};
use crate::recog::Recognizer;
use crate::rt::*;
use mofmt::verif::{ModelicaToken as K, Position, Token};
use mofmt::SyntaxKind;

/// Any kind of token that the lexer delivers
pub fn any_kind() -> K {
    let mut s = Set::new();
    for (k, _) in FIXED {
        s.put(*k as u8);
    }
    for (k, _) in WORDS {
        s.put(*k as u8);
    }
    for k in [K::Identifier, K::String, K::UInt, K::UReal] {
        s.put(k as u8);
    }
    let k = s.sym();
    unsafe { std::mem::transmute::<u8, K>(if param(4) & 2 != 0 { conc(k as u64) as u8 } else { k }) }
}

/// One token per line, so that a line number names a token
fn lexed(ks: &[(K, bool)]) -> Lexed {
    let mut l = Lexed { tokens: Vec::with_capacity(ks.len()), comments: vec![] };
    for (idx, (kind, _)) in ks.iter().enumerate() {
        l.tokens.push(Token {
            idx,
            text: if param(4) & 2 != 0 { spell(*kind, idx, false, 0, true) } else { String::new() },
            kind: *kind,
            start: Position { pos: 2 * idx, line: idx + 1, col: 1 },
            end: Position { pos: 2 * idx + 1, line: idx + 1, col: 2 },
        });
    }
    #[cfg(feature = "native")]
    {
        let mut t = String::new();
        for (i, (k, _)) in ks.iter().enumerate() {
            t.push_str(&spell(*k, i, false, 0, true));
            t.push('\n');
        }
        note(t.replace('\n', " ").as_bytes());
        let (tokens, comments, errors) = mofmt::verif::lex("n", &t);
        let same = tokens.len() == l.tokens.len()
            && tokens.iter().zip(&l.tokens).all(|(a, b)| a.kind == b.kind && a.start.line == b.start.line);
        if !same || !errors.is_empty() || !comments.is_empty() {
            note(b"the lexer does not deliver the tokens of this text");
            prune(9);
        }
        return Lexed { tokens, comments };
    }
    #[cfg(not(feature = "native"))]
    l
}

fn number(s: &[u8], p: &mut usize) -> Option<usize> {
    let from = *p;
    let mut r = 0;
    while *p < s.len() && s[*p].is_ascii_digit() {
        r = 10 * r + (s[*p] - b'0') as usize;
        *p += 1;
    }
    if *p == from {
        None
    } else {
        Some(r)
    }
}

/// line and column of `n:line:column: message`
pub fn place_of(s: &[u8]) -> Option<(usize, usize)> {
    if s.len() < 2 || s[0] != b'n' || s[1] != b':' {
        return None;
    }
    let mut p = 2;
    let l = number(s, &mut p)?;
    if p >= s.len() || s[p] != b':' {
        return None;
    }
    p += 1;
    let c = number(s, &mut p)?;
    if p + 1 < s.len() && s[p] == b':' && s[p + 1] == b' ' {
        Some((l, c))
    } else {
        None
    }
}

pub enum Outcome {
    /// diagnostics
    Done(Vec<String>),
    Crash,
}

/// Runs the parser from one of its entry points
pub fn parse_tokens(l: Lexed, entry: SyntaxKind) -> Outcome {
    unsafe {
        IN = Some(l);
        EVENTS = None;
        ENTRY = entry;
        out_clear();
        if attempt(run_parse, 0) == 0 {
            return Outcome::Done((*std::ptr::addr_of_mut!(EVENTS)).take().unwrap().1);
        }
    }
    Outcome::Crash
}

#[no_mangle]
pub extern "C" fn h_parse() {
    let mut g = Gen::new(param(2) as usize);
    g.kinds = false;
    g.live = false;
    g.laps = param(5) as usize;
    g.depth = param(6) as usize;
    g.root(root_param());
    if g.laps > 0 {
        assume(g.repeated);
    }
    let (remove, put, cut) = ((param(3) % 10) as usize, (param(3) / 10 % 10) as usize, param(3) / 100 != 0);
    let n = g.toks.len();
    let free = |i: usize| i < n && g.toks[i].free;
    let spots: Vec<usize> = (0..=n)
        .filter(|i| param(4) & 1 != 0 || free(*i) || (*i > 0 && free(*i - 1)))
        .filter(|i| *i + remove <= n)
        .collect();
    if spots.is_empty() {
        prune(7)
    }
    let at = if remove + put > 0 || cut { spots[pick(spots.len())] } else { n };
    let mut ks: Vec<(K, bool)> = Vec::with_capacity(n + put);
    for t in &g.toks[..at] {
        ks.push((t.kind, false));
    }
    for i in 0..put {
        let k = any_kind();
        // otherwise it is no change
        if remove == 1 && i == 0 && put == 1 {
            assume(k != g.toks[at].kind);
        }
        ks.push((k, true));
    }
    if !cut {
        for t in &g.toks[at + remove..] {
            ks.push((t.kind, false));
        }
    }
    decide(&ks, SyntaxKind::StoredDefinition, true);
}

/// p0 property, p1 entry point (255: any), p2 number of tokens
#[no_mangle]
pub extern "C" fn h_seq() {
    let mut ks = Vec::with_capacity(8);
    for _ in 0..param(2) {
        ks.push((any_kind(), true));
    }
    let entries = entries();
    let e = if param(1) == 255 { pick(entries.len()) } else { param(1) as usize };
    decide(&ks, entries[e], e == 0);
}

fn decide(ks: &[(K, bool)], entry: SyntaxKind, grammar: bool) {
    let r = parse_tokens(lexed(ks), entry);
    chk(10, 1, !matches!(r, Outcome::Crash));
    if deciding(10) {
        if let Outcome::Done(e) = &r {
            // every diagnostic names a place
            for m in e {
                let p = place_of(m.as_bytes());
                chk(10, 3, p.is_some_and(|p| p.0 >= 1 && p.0 <= ks.len().max(1) && p.1 == 1));
            }
        }
        cover(10);
        return;
    }
    if !grammar {
        prune(8)
    }
    let mut rec = Recognizer::new();
    let mut bad = None;
    for (i, (k, s)) in ks.iter().enumerate() {
        if !rec.step(*k, *s) {
            bad = Some(i);
            break;
        }
    }
    let valid = bad.is_none() && rec.end();
    if valid {
        chk(8, 3, matches!(&r, Outcome::Done(e) if e.is_empty()));
        cover(2);
        return;
    }
    chk(9, 1, !matches!(&r, Outcome::Done(e) if e.is_empty()));
    cover(3);
    if deciding(16) {
        let Outcome::Done(e) = &r else { prune(6) };
        let Some(first) = e.first() else { prune(5) };
        let p = place_of(first.as_bytes());
        chk(16, 1, p.is_some());
        let Some((line, col)) = p else { prune(5) };
        chk(16, 2, col == 1);
        let want = match bad {
            Some(i) => i,
            None => ks.len().max(1) - 1,
        };
        let mut ok = line == want + 1;
        if want > 0 && line == want && bad.is_some() {
            ok |= ks[want - 1].0 == K::Dot;
            ok |= ks[want - 1].0 == K::Initial;
            ok |= ks[want].0 == K::Equal;
        }
        chk(16, 3, ok);
        cover(16);
    }
}

pub fn entries() -> Vec<SyntaxKind> {
    use SyntaxKind::*;
    vec![
        StoredDefinition, ClassDefinition, ClassPrefixes, ClassSpecifier, LongClassSpecifier, ShortClassSpecifier,
        DerClassSpecifier, BasePrefix, EnumList, EnumerationLiteral, Composition, LanguageSpecification,
        ExternalFunctionCall, ElementList, Element, ImportClause, ImportList, ExtendsClause, ConstrainingClause,
        ClassOrInheritanceModification, ArgumentOrInheritanceModificationList, InheritanceModification,
        ComponentClause, TypePrefix, ComponentList, ComponentDeclaration, ConditionAttribute, Declaration,
        Modification, ModificationExpression, ClassModification, ArgumentList, Argument,
        ElementModificationOrReplaceable, ElementModification, ElementRedeclaration, ElementReplaceable,
        ComponentClause1, ComponentDeclaration1, ShortClassDefinition, EquationSection, AlgorithmSection, Equation,
        Statement, IfEquation, IfStatement, ForEquation, ForStatement, ForIndices, ForIndex, WhileStatement,
        WhenEquation, WhenStatement, ConnectEquation, Expression, SimpleExpression, LogicalExpression, LogicalTerm,
        LogicalFactor, Relation, RelationalOperator, ArithmeticExpression, AddOperator, Term, MulOperator, Factor,
        Primary, TypeSpecifier, Name, ComponentReference, ResultReference, FunctionCallArgs, FunctionArguments,
        FunctionArgumentsNonFirst, ArrayArguments, ArrayArgumentsNonFirst, NamedArguments, NamedArgument,
        FunctionArgument, FunctionPartialApplication, OutputExpressionList, ExpressionList, ArraySubscripts,
        Subscript, Description, DescriptionString, AnnotationClause,
    ]
}
