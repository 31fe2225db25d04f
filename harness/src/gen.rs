//! Sentences of the Modelica 3.7 grammar together with the layout that the code style (code-style.md) gives them.
//!
//! Every optional or alternative part that is not the smallest one costs one unit of the budget, so that a run covers
//! every derivation with at most that many non-minimal choices below its root. Written from the grammar and the code
//! style, not from the formatter: a sentence is a token sequence plus a program of layout operations.
use crate::kinds::text;
use crate::rt::*;
use mofmt::verif::ModelicaToken as K;

#[derive(Clone, Copy, PartialEq)]
pub enum Blank {
    /// an empty line always
    Required,
    /// an empty line if the source has one
    Legal,
    /// never an empty line
    Illegal,
}

#[derive(Clone, Copy)]
pub enum Op {
    Tok(usize),
    Space,
    In,
    Out,
    /// one level deeper, if the group is wrapped
    InG(usize),
    OutG(usize),
    /// line break
    Break(Blank),
    /// line break if the group is wrapped, otherwise one space or nothing
    Wrap(usize, bool),
    /// before the binary operator: line break if the source has one around it, first one indents the expression
    Operator(usize),
    /// end of the expression
    EndExpr(usize),
}

pub struct Tk {
    pub kind: K,
    /// the kind is symbolic
    pub any: bool,
    /// line breaks inside the token
    pub inner: u8,
    /// line breaks before the token
    pub gap: u32,
    pub live: bool,
    /// part of what the run explores
    pub free: bool,
}

/// Tokens `first..=last`; wrapped if they are on more than one line or if `must`
pub struct Group {
    pub first: usize,
    pub last: usize,
    pub must: bool,
}

pub struct Gen {
    pub toks: Vec<Tk>,
    pub ops: Vec<Op>,
    pub groups: Vec<Group>,
    pub budget: usize,
    pub exprs: usize,
    /// line breaks are symbolic
    pub live: bool,
    /// kinds of interchangeable terminals are symbolic
    pub kinds: bool,
    /// strings may contain line breaks
    pub tall: bool,
    quiet: bool,
    /// subscripts around
    subs: usize,
    /// choices so far, and how many of them have been made
    trace: Vec<u8>,
    at: usize,
    /// non-terminals around, each with the number of choices before it
    open: Vec<(u8, usize)>,
    /// how often loops and recursions are repeated
    pub laps: usize,
    pub depth: usize,
    pub repeated: bool,
    /// line breaks that the layout forces so far
    forced: usize,
}

/// Non-terminals that a run may start from
pub const ROOTS: &[&str] = &[
    "stored definition", "class definition", "composition", "element", "component clause", "modification", "equation",
    "statement", "expression", "primary", "extends clause", "description", "external", "class specifier",
    "list of elements", "if/for/when/while blocks", "nested call arguments", "component list",
];

impl Gen {
    pub fn new(budget: usize) -> Gen {
        Gen {
            toks: Vec::with_capacity(64),
            ops: Vec::with_capacity(128),
            groups: Vec::with_capacity(16),
            budget,
            exprs: 0,
            live: true,
            kinds: true,
            tall: false,
            quiet: false,
            subs: 0,
            trace: Vec::with_capacity(64),
            at: 0,
            open: Vec::with_capacity(32),
            laps: 0,
            depth: 0,
            repeated: false,
            forced: 0,
        }
    }

    // choices

    fn opt(&mut self) -> bool {
        self.alt(2) == 1
    }
    fn alt(&mut self, n: usize) -> usize {
        if let Some(k) = self.replayed() {
            return k;
        }
        let k = if self.budget == 0 { 0 } else { pick(n) };
        self.budget -= (k > 0) as usize;
        self.made(k)
    }
    /// A choice that costs nothing
    fn choose(&mut self, n: usize) -> usize {
        match self.replayed() {
            Some(k) => k,
            None => self.made(pick(n)),
        }
    }
    fn replayed(&mut self) -> Option<usize> {
        let k = *self.trace.get(self.at)?;
        self.at += 1;
        Some(k as usize)
    }
    fn made(&mut self, k: usize) -> usize {
        self.trace.push(k as u8);
        self.at += 1;
        k
    }

    // repetition: once the budget is used up, the choices that led from one visit of a place to the next are made
    // again and again

    /// At the head of a loop
    fn lap(&mut self, last: &mut usize) {
        if *last != usize::MAX {
            let n = self.laps;
            self.repeat(*last, n);
        }
        *last = self.at;
    }
    fn next(&mut self, last: &mut usize) -> bool {
        self.lap(last);
        self.opt()
    }
    /// On entry of a non-terminal
    fn enter(&mut self, site: u8) -> usize {
        if let Some(x) = self.open.iter().rev().find(|x| x.0 == site) {
            let (from, n) = (x.1, self.depth);
            self.repeat(from, n);
        }
        self.open.push((site, self.at));
        self.open.len() - 1
    }
    fn leave(&mut self, mark: usize) {
        self.open.truncate(mark)
    }
    fn repeat(&mut self, from: usize, n: usize) {
        if self.budget > 0 || self.repeated || self.quiet {
            return;
        }
        let to = self.trace.len();
        self.repeated = n > 0;
        for _ in 0..n {
            for k in from..to {
                let c = self.trace[k];
                self.trace.push(c);
            }
        }
    }

    // tokens and layout

    fn push(&mut self, kind: K, any: bool) {
        let gap = if self.live && self.laps == 0 { sym(0, 3) as u32 } else { 0 };
        let inner = if self.tall && self.laps == 0 && kind == K::String && !any && self.live { sym(0, 1) } else { 0 };
        self.ops.push(Op::Tok(self.toks.len()));
        self.toks.push(Tk { kind, any, inner, gap, live: self.live, free: !self.quiet });
    }
    pub fn t(&mut self, k: K) {
        self.push(k, false)
    }
    fn id(&mut self) {
        self.push(K::Identifier, false)
    }
    fn string(&mut self) {
        self.push(K::String, false)
    }
    /// A terminal out of a set of interchangeable ones
    fn one_of(&mut self, ks: &[K]) {
        if !self.kinds || ks.len() == 1 {
            return self.push(ks[0], false);
        }
        let mut s = Set::new();
        for k in ks {
            s.put(*k as u8);
        }
        let k: K = unsafe { std::mem::transmute::<u8, K>(s.sym()) };
        self.push(k, true)
    }
    /// As `one_of`; any but the first costs one unit
    fn pref(&mut self, ks: &[K]) {
        if ks.len() > 1 && self.opt() {
            self.one_of(&ks[1..])
        } else {
            self.push(ks[0], false)
        }
    }
    fn sp(&mut self) {
        self.ops.push(Op::Space)
    }
    fn ts(&mut self, k: K) {
        self.t(k);
        self.sp()
    }
    fn indent(&mut self) {
        self.ops.push(Op::In)
    }
    fn dedent(&mut self) {
        self.ops.push(Op::Out)
    }
    pub fn brk(&mut self, b: Blank) {
        self.forced += 1;
        self.ops.push(Op::Break(b))
    }
    fn open(&mut self) -> usize {
        self.groups.push(Group { first: self.toks.len(), last: self.forced, must: false });
        self.groups.len() - 1
    }
    fn close(&mut self, g: usize) {
        let before = self.groups[g].last;
        self.groups[g].must = self.forced > before;
        self.groups[g].last = self.toks.len() - 1;
    }
    fn wrap(&mut self, g: usize, space: bool) {
        self.ops.push(Op::Wrap(g, space))
    }
    /// comma, then the next item of a list
    fn comma(&mut self, g: usize) {
        self.t(K::Comma);
        self.wrap(g, true)
    }

    // A.2.1 stored definition

    pub fn stored_definition(&mut self) {
        let mut within = false;
        if self.opt() {
            within = true;
            self.ops.push(Op::Break(Blank::Illegal));
            self.ts(K::Within);
            if self.opt() {
                self.name()
            }
            self.t(K::Semicolon);
        }
        // an empty file and a file with only a within clause are sentences, too
        if self.alt(2) == 1 {
            return;
        }
        let _ = within;
        let mut lap = usize::MAX;
        loop {
            self.lap(&mut lap);
            self.ops.push(Op::Break(Blank::Legal));
            if self.opt() {
                self.ts(K::Final)
            }
            self.class_definition();
            self.t(K::Semicolon);
            if !self.opt() {
                break;
            }
        }
    }

    // A.2.2 class definition

    fn class_definition(&mut self) {
        let m = self.enter(3);
        let r = self.class_definition_one();
        self.leave(m);
        r
    }
    fn class_definition_one(&mut self) {
        if self.opt() {
            self.ts(K::Encapsulated)
        }
        self.class_prefixes();
        self.sp();
        self.class_specifier();
    }
    fn class_prefixes(&mut self) {
        if self.opt() {
            self.ts(K::Partial)
        }
        match self.alt(8) {
            0 => self.t(K::Model),
            1 => self.one_of(&[K::Class, K::Block, K::Type, K::Package, K::Record, K::Connector, K::Function]),
            2 => {
                self.ts(K::Expandable);
                self.t(K::Connector)
            }
            3 => self.t(K::Operator),
            4 => {
                self.ts(K::Operator);
                self.t(K::Record)
            }
            5 => {
                self.ts(K::Operator);
                self.t(K::Function)
            }
            6 => {
                self.one_of(&[K::Pure, K::Impure]);
                self.sp();
                self.t(K::Function)
            }
            _ => {
                self.one_of(&[K::Pure, K::Impure]);
                self.sp();
                self.ts(K::Operator);
                self.t(K::Function)
            }
        }
    }
    fn class_specifier(&mut self) {
        match self.alt(4) {
            0 => self.long(false),
            1 => self.short_class_specifier(),
            2 => self.der_class_specifier(),
            _ => self.long(true),
        }
    }
    fn long(&mut self, extends: bool) {
        if extends {
            self.ts(K::Extends);
            self.id();
            if self.opt() {
                self.class_modification()
            }
        } else {
            self.id();
        }
        self.opt_string();
        self.composition();
        self.brk(Blank::Required);
        self.ts(K::End);
        self.id();
    }
    fn short_class_specifier(&mut self) {
        self.id();
        self.sp();
        self.ts(K::Equal);
        if self.alt(2) == 0 {
            if self.opt() {
                self.one_of(&[K::Input, K::Output]);
                self.sp();
            }
            self.type_specifier();
            if self.opt() {
                self.array_subscripts()
            }
            if self.opt() {
                self.class_modification()
            }
        } else {
            self.t(K::Enumeration);
            let g = self.open();
            self.t(K::LParen);
            match self.alt(3) {
                0 => {
                    self.indent();
                    self.wrap(g, false);
                    let mut lap = usize::MAX;
                    loop {
                        self.lap(&mut lap);
                        self.id();
                        self.opt_description();
                        if !self.opt() {
                            break;
                        }
                        self.comma(g);
                    }
                    self.dedent();
                }
                1 => (),
                _ => self.t(K::Colon),
            }
            self.t(K::RParen);
            self.close(g);
        }
        self.opt_description();
    }
    fn der_class_specifier(&mut self) {
        self.id();
        self.sp();
        self.ts(K::Equal);
        self.t(K::Der);
        let g = self.open();
        self.t(K::LParen);
        self.indent();
        self.wrap(g, false);
        self.type_specifier();
        self.comma(g);
        self.id();
        let mut lap = usize::MAX;
        while self.next(&mut lap) {
            self.comma(g);
            self.id();
        }
        self.dedent();
        self.t(K::RParen);
        self.close(g);
        self.opt_description();
    }
    fn composition(&mut self) {
        self.element_list();
        let mut lap = usize::MAX;
        loop {
            self.lap(&mut lap);
            match self.alt(5) {
                0 => break,
                1 => {
                    self.brk(Blank::Required);
                    self.one_of(&[K::Public, K::Protected]);
                    self.element_list();
                }
                2 => self.section(K::Equation, 0),
                3 => self.section(K::Algorithm, 0),
                _ => {
                    let k = if self.choose(2) == 0 { K::Equation } else { K::Algorithm };
                    self.brk(Blank::Required);
                    self.ts(K::Initial);
                    self.t(k);
                    self.items(k, 0);
                }
            }
        }
        if self.opt() {
            self.external()
        }
        if self.opt() {
            self.class_annotation()
        }
    }
    fn class_annotation(&mut self) {
        self.indent();
        self.brk(Blank::Required);
        self.annotation_clause();
        self.dedent();
        self.t(K::Semicolon);
    }
    fn external(&mut self) {
        self.brk(Blank::Required);
        self.t(K::External);
        if self.opt() {
            self.sp();
            self.string();
        }
        if self.opt() {
            self.indent();
            self.brk(Blank::Required);
            self.indent();
            if self.opt() {
                self.component_reference();
                self.sp();
                self.ts(K::Equal);
            }
            self.id();
            let g = self.open();
            self.t(K::LParen);
            if self.opt() {
                self.wrap(g, false);
                self.expression_list(g);
            }
            self.t(K::RParen);
            self.close(g);
            self.dedent();
            self.dedent();
        }
        if self.opt() {
            self.indent();
            self.indent();
            self.brk(Blank::Illegal);
            self.annotation_clause();
            self.dedent();
            self.dedent();
        }
        self.t(K::Semicolon);
    }
    fn element_list(&mut self) {
        let mut first = true;
        let mut lap = usize::MAX;
        while self.next(&mut lap) {
            if first {
                self.indent();
                self.brk(Blank::Required);
            } else {
                self.brk(Blank::Legal);
            }
            first = false;
            self.element();
            self.t(K::Semicolon);
        }
        if !first {
            self.dedent();
        }
    }
    fn element(&mut self) {
        match self.alt(4) {
            0 => self.component_clause(),
            1 => self.import_clause(),
            2 => self.extends_clause(),
            _ => {
                // any of the prefixes, at least one of the things below
                for k in [K::Redeclare, K::Final, K::Inner, K::Outer] {
                    if self.opt() {
                        self.ts(k)
                    }
                }
                let replaceable = self.opt();
                if replaceable {
                    self.ts(K::Replaceable)
                }
                if self.choose(2) == 0 {
                    self.component_clause()
                } else {
                    self.class_definition()
                }
                if replaceable && self.opt() {
                    self.constraining_clause();
                    self.opt_description();
                }
            }
        }
    }
    fn import_clause(&mut self) {
        self.ts(K::Import);
        match self.alt(4) {
            0 => self.name(),
            1 => {
                self.id();
                self.sp();
                self.ts(K::Equal);
                self.name();
            }
            2 => {
                self.name();
                self.t(K::DotStar);
            }
            _ => {
                self.name();
                self.t(K::Dot);
                let g = self.open();
                self.t(K::LCurly);
                self.indent();
                self.wrap(g, false);
                self.id();
                let mut lap = usize::MAX;
                while self.next(&mut lap) {
                    self.comma(g);
                    self.id();
                }
                self.dedent();
                self.t(K::RCurly);
                self.close(g);
            }
        }
        self.opt_description();
    }

    // A.2.3 extends

    fn extends_clause(&mut self) {
        self.ts(K::Extends);
        self.type_specifier();
        if self.opt() {
            let g = self.open();
            self.indent();
            self.t(K::LParen);
            if self.alt(2) == 0 {
                self.wrap(g, false);
                let mut lap = usize::MAX;
                loop {
                    self.lap(&mut lap);
                    match self.alt(3) {
                        0 => self.argument(),
                        1 => {
                            self.ts(K::Break);
                            self.id();
                        }
                        _ => {
                            self.ts(K::Break);
                            self.connect_equation();
                        }
                    }
                    if !self.opt() {
                        break;
                    }
                    self.comma(g);
                }
            }
            self.t(K::RParen);
            self.dedent();
            self.close(g);
        }
        if self.opt() {
            self.indent();
            self.brk(Blank::Illegal);
            self.annotation_clause();
            self.dedent();
        }
    }
    fn constraining_clause(&mut self) {
        self.indent();
        self.brk(Blank::Illegal);
        self.ts(K::Constrainedby);
        self.type_specifier();
        if self.opt() {
            self.class_modification()
        }
        self.dedent();
    }

    // A.2.4 component clause

    fn type_prefix(&mut self) {
        for ks in [&[K::Flow, K::Stream][..], &[K::Parameter, K::Discrete, K::Constant], &[K::Input, K::Output]] {
            if self.opt() {
                self.one_of(ks);
                self.sp();
            }
        }
    }
    fn component_clause(&mut self) {
        self.type_prefix();
        self.type_specifier();
        if self.opt() {
            self.array_subscripts()
        }
        self.component_list();
    }
    fn component_list(&mut self) {
        // the layout of the first item depends on whether there is a second one
        let at = self.ops.len();
        self.ops.push(Op::Space);
        let g = self.open();
        let mut n = 0;
        let mut lap = usize::MAX;
        loop {
            self.lap(&mut lap);
            self.declaration();
            if self.opt() {
                self.sp();
                self.ts(K::If);
                self.expression();
            }
            self.opt_description();
            n += 1;
            if !self.opt() {
                break;
            }
            self.comma(g);
        }
        self.close(g);
        if n > 1 {
            self.ops[at] = Op::Wrap(g, true);
            self.ops.insert(at, Op::InG(g));
            self.ops.push(Op::OutG(g));
        }
    }
    fn declaration(&mut self) {
        self.id();
        if self.opt() {
            self.array_subscripts()
        }
        if self.opt() {
            self.modification()
        }
    }

    // A.2.5 modification

    fn modification(&mut self) {
        match self.alt(5) {
            0 => self.assigned(&[K::Equal]),
            1 => self.assigned(&[K::Assign]),
            2 => self.class_modification(),
            3 => {
                self.class_modification();
                self.assigned(&[K::Equal]);
            }
            _ => {
                self.sp();
                self.ts(K::Equal);
                self.t(K::Break);
            }
        }
    }
    fn assigned(&mut self, ks: &[K]) {
        self.sp();
        self.t(ks[0]);
        self.right_side();
    }
    /// an expression after `=` or `:=`: an if expression on several lines starts on its own line
    fn right_side(&mut self) {
        let at = self.ops.len();
        self.sp();
        let g = self.open();
        let is_if = self.expression();
        self.close(g);
        if is_if {
            self.ops[at] = Op::Wrap(g, true);
            self.ops.insert(at, Op::InG(g));
            self.ops.push(Op::OutG(g));
        }
    }
    fn class_modification(&mut self) {
        let m = self.enter(4);
        let r = self.class_modification_one();
        self.leave(m);
        r
    }
    fn class_modification_one(&mut self) {
        let g = self.open();
        self.indent();
        self.t(K::LParen);
        if self.alt(2) == 0 {
            self.wrap(g, false);
            let mut lap = usize::MAX;
            loop {
                self.lap(&mut lap);
                self.argument();
                if !self.opt() {
                    break;
                }
                self.comma(g);
            }
        }
        self.t(K::RParen);
        self.dedent();
        self.close(g);
    }
    fn argument(&mut self) {
        match self.alt(3) {
            0 => self.element_modification(),
            1 => {
                if self.opt() {
                    self.ts(K::Each)
                }
                if self.opt() {
                    self.ts(K::Final)
                }
                if self.alt(2) == 0 {
                    self.element_modification()
                } else {
                    self.element_replaceable()
                }
            }
            _ => {
                self.ts(K::Redeclare);
                if self.opt() {
                    self.ts(K::Each)
                }
                if self.opt() {
                    self.ts(K::Final)
                }
                match self.alt(3) {
                    0 => self.component_clause1(),
                    1 => self.short_class_definition(),
                    _ => self.element_replaceable(),
                }
            }
        }
    }
    fn element_modification(&mut self) {
        self.name();
        if self.opt() {
            self.modification()
        }
        self.opt_string();
    }
    fn element_replaceable(&mut self) {
        self.ts(K::Replaceable);
        if self.alt(2) == 0 {
            self.component_clause1()
        } else {
            self.short_class_definition()
        }
        if self.opt() {
            self.constraining_clause()
        }
    }
    fn component_clause1(&mut self) {
        self.type_prefix();
        self.type_specifier();
        self.sp();
        self.declaration();
        self.opt_description();
    }
    fn short_class_definition(&mut self) {
        self.class_prefixes();
        self.sp();
        self.short_class_specifier();
    }

    // A.2.6 equations

    fn section(&mut self, k: K, least: usize) {
        self.brk(Blank::Required);
        self.t(k);
        self.items(k, least)
    }
    fn items(&mut self, k: K, least: usize) {
        self.indent();
        let mut n = 0;
        while n < least || self.opt() {
            self.brk(if n == 0 { Blank::Required } else { Blank::Legal });
            self.item(k);
            self.t(K::Semicolon);
            n += 1;
        }
        self.dedent();
    }
    fn item(&mut self, k: K) {
        if k == K::Equation {
            self.equation()
        } else {
            self.statement()
        }
    }
    /// the items of a branch or loop
    fn body(&mut self, k: K) {
        let mut lap = usize::MAX;
        while self.next(&mut lap) {
            self.indent();
            self.brk(Blank::Legal);
            self.item(k);
            self.t(K::Semicolon);
            self.dedent();
        }
    }
    fn equation(&mut self) {
        let m = self.enter(1);
        let r = self.equation_one();
        self.leave(m);
        r
    }
    fn equation_one(&mut self) {
        match self.alt(6) {
            0 => {
                let e = self.frame();
                self.simple_expression(e);
                // code-style: the left side has no wrapping of its own
                self.end_expr(e);
                self.assigned(&[K::Equal]);
            }
            1 => {
                self.component_reference();
                self.function_call_args();
            }
            2 => self.connect_equation(),
            3 => self.if_block(K::Equation),
            4 => self.for_block(K::Equation),
            _ => self.when_block(K::Equation),
        }
        self.opt_description();
    }
    fn statement(&mut self) {
        let m = self.enter(2);
        let r = self.statement_one();
        self.leave(m);
        r
    }
    fn statement_one(&mut self) {
        match self.alt(8) {
            0 => {
                self.component_reference();
                self.assigned(&[K::Assign]);
            }
            1 => {
                self.component_reference();
                self.function_call_args();
            }
            2 => {
                self.t(K::LParen);
                let e = self.frame();
                self.output_expression_list(e);
                self.end_expr(e);
                self.t(K::RParen);
                self.sp();
                self.ts(K::Assign);
                self.component_reference();
                self.function_call_args();
            }
            3 => self.one_of(&[K::Break, K::Return]),
            4 => self.if_block(K::Algorithm),
            5 => self.for_block(K::Algorithm),
            6 => self.when_block(K::Algorithm),
            _ => {
                self.ts(K::While);
                self.expression();
                self.sp();
                self.t(K::Loop);
                self.body(K::Algorithm);
                self.end_of(K::While);
            }
        }
        self.opt_description();
    }
    fn end_of(&mut self, k: K) {
        self.brk(Blank::Legal);
        self.ts(K::End);
        self.t(k);
    }
    fn if_block(&mut self, k: K) {
        self.ts(K::If);
        self.expression();
        self.sp();
        self.t(K::Then);
        self.body(k);
        let mut lap = usize::MAX;
        while self.next(&mut lap) {
            self.brk(Blank::Legal);
            self.ts(K::ElseIf);
            self.expression();
            self.sp();
            self.t(K::Then);
            self.body(k);
        }
        if self.opt() {
            self.brk(Blank::Legal);
            self.t(K::Else);
            self.body(k);
        }
        self.end_of(K::If);
    }
    fn for_block(&mut self, k: K) {
        self.ts(K::For);
        self.for_indices();
        self.sp();
        self.t(K::Loop);
        self.body(k);
        self.end_of(K::For);
    }
    fn when_block(&mut self, k: K) {
        self.ts(K::When);
        self.expression();
        self.sp();
        self.t(K::Then);
        self.body(k);
        let mut lap = usize::MAX;
        while self.next(&mut lap) {
            self.brk(Blank::Legal);
            self.ts(K::ElseWhen);
            self.expression();
            self.sp();
            self.t(K::Then);
            self.body(k);
        }
        self.end_of(K::When);
    }
    fn for_indices(&mut self) {
        let mut lap = usize::MAX;
        loop {
            self.lap(&mut lap);
            self.id();
            if self.opt() {
                self.sp();
                self.ts(K::In);
                self.expression();
            }
            if !self.opt() {
                break;
            }
            self.ts(K::Comma);
        }
    }
    fn connect_equation(&mut self) {
        let g = self.open();
        self.t(K::Connect);
        self.indent();
        self.t(K::LParen);
        self.wrap(g, false);
        self.component_reference();
        self.comma(g);
        self.component_reference();
        self.t(K::RParen);
        self.dedent();
        self.close(g);
    }

    // A.2.7 expressions

    fn frame(&mut self) -> usize {
        self.exprs += 1;
        self.exprs - 1
    }
    fn end_expr(&mut self, e: usize) {
        self.ops.push(Op::EndExpr(e))
    }
    /// Returns whether it is an if expression
    fn expression(&mut self) -> bool {
        let e = self.frame();
        let r = self.expression_in(e);
        self.end_expr(e);
        r
    }
    fn expression_in(&mut self, e: usize) -> bool {
        let m = self.enter(0);
        let r = self.expression_in_one(e);
        self.leave(m);
        r
    }
    fn expression_in_one(&mut self, e: usize) -> bool {
        if self.alt(2) == 0 {
            self.simple_expression(e);
            return false;
        }
        let g = self.open();
        self.ts(K::If);
        self.expression();
        self.sp();
        self.t(K::Then);
        self.branch(g);
        self.wrap(g, true);
        let mut lap = usize::MAX;
        while self.next(&mut lap) {
            self.ts(K::ElseIf);
            self.expression();
            self.sp();
            self.t(K::Then);
            self.branch(g);
            self.wrap(g, true);
        }
        self.t(K::Else);
        self.branch(g);
        self.close(g);
        true
    }
    fn branch(&mut self, g: usize) {
        self.indent();
        self.wrap(g, true);
        self.expression();
        self.dedent();
    }
    fn simple_expression(&mut self, e: usize) {
        self.logical(e);
        if self.opt() {
            self.sp();
            self.ts(K::Colon);
            self.logical(e);
            if self.opt() {
                self.sp();
                self.ts(K::Colon);
                self.logical(e);
            }
        }
    }
    /// binary operator in the expression
    fn operator(&mut self, e: usize, ks: &[K]) {
        self.ops.push(Op::Operator(e));
        self.pref(ks);
        self.sp();
    }
    /// logical-expression and everything below: operands joined by operators of any precedence; the layout does not
    /// depend on the precedence
    fn logical(&mut self, e: usize) {
        // logical-factor
        let mut lap = usize::MAX;
        loop {
            self.lap(&mut lap);
            if self.opt() {
                self.ts(K::Not)
            }
            self.arithmetic(e);
            if self.opt() {
                self.operator(e, &[K::Les, K::Leq, K::Gre, K::Geq, K::Eq, K::Neq]);
                self.arithmetic(e);
            }
            match self.alt(3) {
                0 => break,
                1 => self.operator(e, &[K::And]),
                _ => self.operator(e, &[K::Or]),
            }
        }
    }
    fn arithmetic(&mut self, e: usize) {
        if self.opt() {
            self.pref(&[K::Minus, K::Plus, K::DotPlus, K::DotMinus]);
        }
        let mut lap = usize::MAX;
        loop {
            self.lap(&mut lap);
            self.primary(e);
            match self.alt(4) {
                0 => break,
                1 => self.operator(e, &[K::Plus, K::Minus, K::DotPlus, K::DotMinus]),
                2 => self.operator(e, &[K::Star, K::Slash, K::DotStar, K::DotSlash]),
                _ => {
                    self.operator(e, &[K::Flex, K::DotFlex]);
                    self.primary(e);
                    match self.alt(3) {
                        0 => break,
                        1 => self.operator(e, &[K::Minus, K::Plus, K::DotPlus, K::DotMinus]),
                        _ => self.operator(e, &[K::Slash, K::Star, K::DotStar, K::DotSlash]),
                    }
                }
            }
        }
    }
    fn primary(&mut self, e: usize) {
        match self.alt(9) {
            // `end` has a meaning in subscripts only
            0 if self.subs > 0 => self.one_of(&[K::UInt, K::UReal, K::Bool, K::End]),
            0 => self.one_of(&[K::UInt, K::UReal, K::Bool]),
            1 => self.component_reference(),
            2 => {
                self.component_reference();
                self.function_call_args();
            }
            3 => {
                self.one_of(&[K::Der, K::Initial, K::Pure]);
                self.function_call_args();
            }
            4 => {
                self.t(K::LParen);
                self.output_expression_list(e);
                self.t(K::RParen);
                if self.opt() {
                    self.array_subscripts()
                }
            }
            5 => {
                let g = self.open();
                self.t(K::LBracket);
                self.indent();
                self.wrap(g, false);
                let mut rows = vec![];
                let mut lap = usize::MAX;
                loop {
                    self.lap(&mut lap);
                    let r = self.open();
                    let at = self.ops.len();
                    self.expression_list(r);
                    self.close(r);
                    rows.push((r, at, self.ops.len()));
                    if !self.opt() {
                        break;
                    }
                    self.t(K::Semicolon);
                    self.wrap(g, true);
                }
                self.dedent();
                self.t(K::RBracket);
                self.close(g);
                if rows.len() == 1 {
                    // a single row wraps with the brackets
                    let (r, at, end) = rows[0];
                    for o in &mut self.ops[at..end] {
                        if let Op::Wrap(q, s) = *o {
                            if q == r {
                                *o = Op::Wrap(g, s);
                            }
                        }
                    }
                }
            }
            6 => {
                let g = self.open();
                self.t(K::LCurly);
                self.indent();
                self.wrap(g, false);
                self.expression();
                if self.opt() {
                    if self.choose(2) == 0 {
                        let mut lap = usize::MAX;
                        loop {
                            self.lap(&mut lap);
                            self.comma(g);
                            self.expression();
                            if !self.opt() {
                                break;
                            }
                        }
                    } else {
                        self.wrap(g, true);
                        self.ts(K::For);
                        self.for_indices();
                    }
                }
                self.dedent();
                self.t(K::RCurly);
                self.close(g);
            }
            7 => self.string(),
            _ => {
                self.id();
                let g = self.open();
                self.indent();
                self.t(K::LBracket);
                self.wrap(g, false);
                self.t(K::End);
                self.t(K::RBracket);
                self.dedent();
                self.close(g);
            }
        }
    }
    fn type_specifier(&mut self) {
        if self.opt() {
            self.t(K::Dot)
        }
        self.name();
    }
    fn name(&mut self) {
        self.id();
        let mut lap = usize::MAX;
        while self.next(&mut lap) {
            self.t(K::Dot);
            self.id();
        }
    }
    fn component_reference(&mut self) {
        if self.opt() {
            self.t(K::Dot)
        }
        self.id();
        let mut lap = usize::MAX;
        loop {
            self.lap(&mut lap);
            match self.alt(3) {
                0 => return,
                1 => (),
                _ => {
                    self.array_subscripts();
                    if !self.opt() {
                        return;
                    }
                }
            }
            self.t(K::Dot);
            self.id();
        }
    }
    fn function_call_args(&mut self) {
        let g = self.open();
        self.indent();
        self.t(K::LParen);
        // a call without arguments does not look different when it is on several lines
        match self.alt(4) {
            0 => {
                self.wrap(g, false);
                self.function_argument();
                if self.opt() {
                    self.more_arguments(g);
                }
            }
            1 => (),
            2 => {
                self.wrap(g, false);
                self.expression();
                self.wrap(g, true);
                self.ts(K::For);
                self.for_indices();
            }
            _ => {
                self.wrap(g, false);
                self.named_arguments(g);
            }
        }
        self.t(K::RParen);
        self.dedent();
        self.close(g);
    }
    fn more_arguments(&mut self, g: usize) {
        let mut lap = usize::MAX;
        loop {
            self.lap(&mut lap);
            self.comma(g);
            if self.alt(2) == 1 {
                return self.named_arguments(g);
            }
            self.function_argument();
            if !self.opt() {
                return;
            }
        }
    }
    fn function_argument(&mut self) {
        if self.alt(2) == 0 {
            self.expression();
        } else {
            self.partial_application();
        }
    }
    fn partial_application(&mut self) {
        self.ts(K::Function);
        self.type_specifier();
        let g = self.open();
        self.indent();
        self.t(K::LParen);
        if self.opt() {
            self.wrap(g, false);
            self.named_arguments(g);
        }
        self.t(K::RParen);
        self.dedent();
        self.close(g);
    }
    fn named_arguments(&mut self, g: usize) {
        let mut lap = usize::MAX;
        loop {
            self.lap(&mut lap);
            self.id();
            self.sp();
            self.t(K::Equal);
            if self.alt(2) == 0 {
                self.right_side();
            } else {
                self.sp();
                self.partial_application();
            }
            if !self.opt() {
                break;
            }
            self.comma(g);
        }
    }
    /// belongs to the expression around it
    fn output_expression_list(&mut self, e: usize) {
        let mut first = true;
        let mut lap = usize::MAX;
        loop {
            self.lap(&mut lap);
            // an empty slot is written as a space
            if self.alt(2) == 0 {
                self.expression_in(e);
                first = false;
            } else if first {
                // nothing at all between the parentheses, or a slot
                if !self.opt() {
                    return;
                }
                self.sp();
                self.ts(K::Comma);
                first = false;
                continue;
            }
            if !self.opt() {
                break;
            }
            self.ts(K::Comma);
        }
    }
    fn expression_list(&mut self, g: usize) {
        let mut lap = usize::MAX;
        loop {
            self.lap(&mut lap);
            self.expression();
            if !self.opt() {
                break;
            }
            self.comma(g);
        }
    }
    fn array_subscripts(&mut self) {
        let g = self.open();
        self.indent();
        self.t(K::LBracket);
        self.wrap(g, false);
        self.subs += 1;
        let mut lap = usize::MAX;
        loop {
            self.lap(&mut lap);
            match self.alt(2) {
                0 => _ = self.expression(),
                _ => self.t(K::Colon),
            }
            if !self.opt() {
                break;
            }
            self.comma(g);
        }
        self.subs -= 1;
        self.t(K::RBracket);
        self.dedent();
        self.close(g);
    }
    fn strings(&mut self) {
        let g = self.open();
        self.indent();
        self.string();
        let mut lap = usize::MAX;
        while self.next(&mut lap) {
            self.wrap(g, true);
            self.ts(K::Plus);
            self.string();
        }
        self.dedent();
        self.close(g);
    }
    /// description-string on its own line
    fn opt_string(&mut self) {
        if self.opt() {
            self.indent();
            self.brk(Blank::Illegal);
            self.strings();
            self.dedent();
        }
    }
    fn opt_description(&mut self) {
        let k = self.alt(4);
        if k == 0 {
            return;
        }
        self.indent();
        if k != 2 {
            self.brk(Blank::Illegal);
            self.strings();
        }
        if k != 1 {
            self.brk(Blank::Illegal);
            self.annotation_clause();
        }
        self.dedent();
    }
    fn annotation_clause(&mut self) {
        self.ts(K::Annotation);
        self.class_modification();
    }

    // roots

    fn quiet(&mut self, f: impl FnOnce(&mut Gen)) {
        let (l, b, q) = (self.live, self.budget, self.quiet);
        self.live = false;
        self.quiet = true;
        self.budget = 0;
        f(self);
        self.live = l;
        self.budget = b;
        self.quiet = q;
    }

    /// A whole file in which only the part below the root is chosen freely
    pub fn root(&mut self, root: u64) {
        if root == 0 {
            return self.stored_definition();
        }
        self.ops.push(Op::Break(Blank::Legal));
        if root == 1 {
            self.class_definition();
            return self.quiet(|g| g.t(K::Semicolon));
        }
        if root == 13 {
            self.quiet(|g| g.ts(K::Type));
            match self.choose(4) {
                0 => self.short_class_specifier(),
                1 => self.der_class_specifier(),
                2 => self.long(true),
                _ => self.long(false),
            }
            return self.quiet(|g| g.t(K::Semicolon));
        }
        self.quiet(|g| {
            g.ts(K::Model);
            g.id();
        });
        match root {
            2 => self.composition(),
            12 => {
                self.external();
                if self.opt() {
                    self.class_annotation()
                }
            }
            14 => {
                self.indent();
                self.brk(Blank::Required);
                self.element();
                self.t(K::Semicolon);
                self.brk(Blank::Legal);
                self.element();
                self.t(K::Semicolon);
                self.dedent();
            }
            3 | 4 | 5 | 10 | 11 | 17 => {
                self.indent();
                self.quiet(|g| g.brk(Blank::Required));
                match root {
                    3 => self.element(),
                    4 => self.component_clause(),
                    5 => {
                        self.quiet(|g| {
                            g.type_specifier();
                            g.sp();
                            g.id();
                        });
                        self.class_modification();
                        if self.opt() {
                            self.assigned(&[K::Equal])
                        }
                    }
                    10 => self.extends_clause(),
                    11 => {
                        self.quiet(|g| {
                            g.type_specifier();
                            g.sp();
                            g.id();
                        });
                        self.indent();
                        self.brk(Blank::Illegal);
                        self.strings();
                        if self.opt() {
                            self.brk(Blank::Illegal);
                            self.annotation_clause();
                        }
                        self.dedent();
                    }
                    _ => {
                        self.quiet(|g| g.type_specifier());
                        // at least two components
                        let at = self.ops.len();
                        let g = self.open();
                        self.declaration();
                        self.opt_description();
                        self.comma(g);
                        let mut lap = usize::MAX;
                        loop {
                            self.lap(&mut lap);
                            self.declaration();
                            self.opt_description();
                            if !self.opt() {
                                break;
                            }
                            self.comma(g);
                        }
                        self.close(g);
                        self.ops.insert(at, Op::Wrap(g, true));
                        self.ops.insert(at, Op::InG(g));
                        self.ops.push(Op::OutG(g));
                    }
                }
                self.quiet(|g| g.t(K::Semicolon));
                self.dedent();
            }
            _ => {
                let k = if root == 7 || (root == 15 && self.choose(2) == 1) { K::Algorithm } else { K::Equation };
                self.quiet(|g| {
                    g.brk(Blank::Required);
                    g.t(k);
                });
                self.indent();
                self.quiet(|g| g.brk(Blank::Required));
                match root {
                    6 => self.equation(),
                    7 => self.statement(),
                    15 => {
                        match self.choose(4) {
                            0 => self.if_block(k),
                            1 => self.for_block(k),
                            2 => self.when_block(k),
                            _ => self.statement_while(k),
                        };
                        self.opt_description();
                    }
                    8 => {
                        self.quiet(|g| {
                            g.id();
                        });
                        self.assigned(&[K::Equal]);
                    }
                    9 | 16 => {
                        self.quiet(|g| {
                            g.id();
                            g.sp();
                            g.ts(K::Equal);
                        });
                        let e = self.frame();
                        if root == 9 {
                            self.primary(e);
                        } else {
                            self.id();
                            self.function_call_args();
                        }
                        self.end_expr(e);
                    }
                    _ => unreachable!(),
                }
                self.quiet(|g| {
                    g.t(K::Semicolon);
                    // another item shows whether the indentation came back
                    g.brk(Blank::Legal);
                    if k == K::Equation {
                        g.equation()
                    } else {
                        g.statement()
                    }
                    g.t(K::Semicolon);
                });
                self.dedent();
            }
        }
        self.quiet(|g| {
            g.brk(Blank::Required);
            g.ts(K::End);
            g.id();
            g.t(K::Semicolon);
        });
    }
    fn statement_while(&mut self, k: K) {
        if k == K::Equation {
            return self.if_block(k);
        }
        self.ts(K::While);
        self.expression();
        self.sp();
        self.t(K::Loop);
        self.body(k);
        self.end_of(K::While);
    }
}

/// Source spelling of token `i`; an arbitrary one while the kind is symbolic
pub fn spell(k: K, i: usize, any: bool, lines: usize, native: bool) -> String {
    if any && !native {
        return format_num("?", i);
    }
    let t = text(k);
    if !t.is_empty() && k != K::Bool {
        return String::from(t);
    }
    match k {
        K::Identifier => format_num("x", i),
        K::UInt => format_num("1", i),
        K::UReal => format_num("0.5", i),
        K::Bool => String::from(if i % 2 == 0 { "true" } else { "false" }),
        K::String => {
            let mut s = format_num("\"s", i);
            for _ in 0..lines {
                s.push('\n');
            }
            s.push('"');
            s
        }
        K::LineComment => format_num("//c", i),
        _ => {
            let mut s = format_num("/*c", i);
            for _ in 0..lines {
                s.push('\n');
            }
            s.push_str("*/");
            s
        }
    }
}
/// Texts that are long (1) or hold what looks like something else (2)
pub fn spell_odd(k: K, i: usize, lines: usize, style: usize) -> String {
    let long = style == 1;
    let (p, q) = match k {
        K::Identifier => if long { ("x", "abcdefghij_klmnopqrstuvwxyz_ABCDEFGHIJ_0123456789_abcdefghij_klmnopqrstuvwxyz_end") } else { ("'x", " // \"a\\' /* ;'") },
        K::UInt => if long { ("1", "0000000000000000000000000000000000000000000000000000000000000000000000000000000000000") } else { ("00", "") },
        K::UReal => if long { ("0.5", "0000000000000000000000000000000000000000000000000000000000000000000000000000000000001e300") } else { (".1", "E+0") },
        K::String => if long { ("\"s", " one two three four five six seven eight nine ten eleven twelve thirteen fourteen fifteen") } else { ("\"\\\"  s", "\t/* // ' end; \u{e9}\u{1f600} ") },
        K::LineComment => if long { ("// c", " one two three four five six seven eight nine ten eleven twelve thirteen fourteen fifteen") } else { ("//\tc", " */ \" ' // /* \u{e9}\u{1f600} end A;  \t") },
        K::BlockComment => if long { ("/* c", " one two three four five six seven eight nine ten eleven twelve thirteen fourteen fifteen") } else { ("/*\t**c", "// \" ' /* * / \u{e9}\u{1f600} ") },
        _ => return spell(k, i, false, lines, true),
    };
    let mut s = format_num(p, i);
    s.push_str(q);
    for n in 0..lines {
        s.push('\n');
        if !long {
            s.push_str(if n == 0 { "   x" } else { "\t" });
        }
    }
    match k {
        K::String => s.push('"'),
        K::BlockComment => s.push_str("*/"),
        _ => {}
    }
    s
}
/// `format!` without its machinery
fn format_num(p: &str, n: usize) -> String {
    let mut s = String::from(p);
    if n >= 100 {
        s.push((b'0' + (n / 100 % 10) as u8) as char);
    }
    if n >= 10 {
        s.push((b'0' + (n / 10 % 10) as u8) as char);
    }
    s.push((b'0' + (n % 10) as u8) as char);
    s
}
