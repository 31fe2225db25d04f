#!/usr/bin/env python3
"""Reference grammar (Modelica Specification 3.7, appendix A.2) -> harness/src/table.rs: a recursive transition
network. UPPER: terminal, lower: non-terminal, [ ] optional, { } repetition, | alternative, ( ) group, 'x' operators.
Documented simplification of mofmt: an equation may be any simple expression; `:=` in modifications and `end` as a
primary come from the specification, but `end` never begins an equation: there it closes the section or branch. The
rules with a 0 leave it out as the first token."""
import os, re

G = r'''
stored_definition: [Within [name] ';'] { [Final] class_definition ';' }
class_definition: [Encapsulated] class_prefixes class_specifier
class_prefixes: [Partial] ( Class | Model | Record | Operator Record | Block | Connector | Expandable Connector | Type | Package | [Pure | Impure] [Operator] Function | Operator )
class_specifier: long_class_specifier | short_class_specifier | der_class_specifier
long_class_specifier: Identifier description_string composition End Identifier | Extends Identifier [class_modification] description_string composition End Identifier
short_class_specifier: Identifier '=' base_prefix type_specifier [array_subscripts] [class_modification] description | Identifier '=' Enumeration '(' ( [enum_list] | ':' ) ')' description
der_class_specifier: Identifier '=' Der '(' type_specifier ',' Identifier { ',' Identifier } ')' description
base_prefix: [Input | Output]
enum_list: enumeration_literal { ',' enumeration_literal }
enumeration_literal: Identifier description
composition: element_list { Public element_list | Protected element_list | equation_section | algorithm_section } [External [language_specification] [external_function_call] [annotation_clause] ';'] [annotation_clause ';']
language_specification: String
external_function_call: [component_reference '='] Identifier '(' [expression_list] ')'
element_list: { element ';' }
element: import_clause | extends_clause | [Redeclare] [Final] [Inner] [Outer] ( class_definition | component_clause | Replaceable ( class_definition | component_clause ) [constraining_clause description] )
import_clause: Import ( Identifier '=' name | name [ '.*' | '.' '{' import_list '}' ] ) description
import_list: Identifier { ',' Identifier }
extends_clause: Extends type_specifier [class_or_inheritance_modification] [annotation_clause]
constraining_clause: Constrainedby type_specifier [class_modification]
class_or_inheritance_modification: '(' [argument_or_inheritance { ',' argument_or_inheritance }] ')'
argument_or_inheritance: argument | Break ( connect_equation | Identifier )
component_clause: type_prefix type_specifier [array_subscripts] component_list
type_prefix: [Flow | Stream] [Discrete | Parameter | Constant] [Input | Output]
component_list: component_declaration { ',' component_declaration }
component_declaration: declaration [condition_attribute] description
condition_attribute: If expression
declaration: Identifier [array_subscripts] [modification]
modification: class_modification ['=' modification_expression] | '=' modification_expression | ':=' modification_expression
modification_expression: expression | Break
class_modification: '(' [argument { ',' argument }] ')'
argument: [Each] [Final] ( element_modification | element_replaceable ) | Redeclare [Each] [Final] ( short_class_definition | component_clause1 | element_replaceable )
element_modification: name [modification] description_string
element_replaceable: Replaceable ( short_class_definition | component_clause1 ) [constraining_clause]
component_clause1: type_prefix type_specifier declaration description
short_class_definition: class_prefixes short_class_specifier
equation_section: [Initial] Equation { equation ';' }
algorithm_section: [Initial] Algorithm { statement ';' }
equation: ( simple_expression0 ['=' expression] | if_equation | for_equation | connect_equation | when_equation ) description
statement: ( component_reference ( ':=' expression | function_call_args ) | '(' output_expression_list ')' ':=' component_reference function_call_args | Break | Return | if_statement | for_statement | while_statement | when_statement ) description
if_equation: If expression Then { equation ';' } { ElseIf expression Then { equation ';' } } [Else { equation ';' }] End If
if_statement: If expression Then { statement ';' } { ElseIf expression Then { statement ';' } } [Else { statement ';' }] End If
for_equation: For for_indices Loop { equation ';' } End For
for_statement: For for_indices Loop { statement ';' } End For
for_indices: for_index { ',' for_index }
for_index: Identifier [In expression]
while_statement: While expression Loop { statement ';' } End While
when_equation: When expression Then { equation ';' } { ElseWhen expression Then { equation ';' } } End When
when_statement: When expression Then { statement ';' } { ElseWhen expression Then { statement ';' } } End When
connect_equation: Connect '(' component_reference ',' component_reference ')'
expression: simple_expression | If expression Then expression { ElseIf expression Then expression } Else expression
simple_expression: logical_expression [':' logical_expression [':' logical_expression]]
logical_expression: logical_term { Or logical_term }
logical_term: logical_factor { And logical_factor }
logical_factor: [Not] relation
relation: arithmetic_expression [ ( '<' | '<=' | '>' | '>=' | '==' | '<>' ) arithmetic_expression ]
arithmetic_expression: [add_operator] term { add_operator term }
add_operator: '+' | '-' | '.+' | '.-'
term: factor { ( '*' | '/' | '.*' | './' ) factor }
factor: primary [ ( '^' | '.^' ) primary ]
primary: UInt | UReal | String | Bool | component_reference [function_call_args] | ( Der | Initial | Pure ) function_call_args | '(' output_expression_list ')' [array_subscripts] | '[' expression_list { ';' expression_list } ']' | '{' array_arguments '}' | End
simple_expression0: logical_expression0 [':' logical_expression [':' logical_expression]]
logical_expression0: logical_term0 { Or logical_term }
logical_term0: logical_factor0 { And logical_factor }
logical_factor0: Not relation | relation0
relation0: arithmetic_expression0 [ ( '<' | '<=' | '>' | '>=' | '==' | '<>' ) arithmetic_expression ]
arithmetic_expression0: add_operator term { add_operator term } | term0 { add_operator term }
term0: factor0 { ( '*' | '/' | '.*' | './' ) factor }
factor0: primary0 [ ( '^' | '.^' ) primary ]
primary0: UInt | UReal | String | Bool | component_reference [function_call_args] | ( Der | Initial | Pure ) function_call_args | '(' output_expression_list ')' [array_subscripts] | '[' expression_list { ';' expression_list } ']' | '{' array_arguments '}'
type_specifier: ['.'] name
name: Identifier { '.' Identifier }
component_reference: ['.'] Identifier [array_subscripts] { '.' Identifier [array_subscripts] }
function_call_args: '(' [function_arguments] ')'
function_arguments: expression [ ',' non_first_arguments | For for_indices ] | function_partial_application [ ',' non_first_arguments ] | named_arguments
non_first_arguments: function_argument [ ',' non_first_arguments ] | named_arguments
named_arguments: named_argument { ',' named_argument }
named_argument: Identifier '=' function_argument
function_argument: function_partial_application | expression
function_partial_application: Function type_specifier '(' [named_arguments] ')'
array_arguments: expression [ ',' expression { ',' expression } | For for_indices ]
output_expression_list: [expression] { ',' [expression] }
expression_list: expression { ',' expression }
array_subscripts: '[' subscript { ',' subscript } ']'
subscript: ':' | expression
description: description_string [annotation_clause]
description_string: [String { '+' String }]
annotation_clause: Annotation class_modification
'''
OPS = {',': 'Comma', '.': 'Dot', ';': 'Semicolon', ':': 'Colon', '(': 'LParen', ')': 'RParen', '{': 'LCurly',
       '}': 'RCurly', '[': 'LBracket', ']': 'RBracket', '=': 'Equal', ':=': 'Assign', '+': 'Plus', '-': 'Minus',
       '*': 'Star', '/': 'Slash', '^': 'Flex', '.+': 'DotPlus', '.-': 'DotMinus', '.*': 'DotStar', './': 'DotSlash',
       '.^': 'DotFlex', '>': 'Gre', '>=': 'Geq', '<': 'Les', '<=': 'Leq', '<>': 'Neq', '==': 'Eq'}
rules = {}
for line in G.strip().splitlines():
    n, b = line.split(':', 1)
    rules[n] = re.findall(r"'[^']+'|\w+|[\[\]{}()|]", b)
NT = list(rules)
ACCEPT, SET, CALL, ALT = 0, 1, 2, 3
nodes, sets = [], []


def node(*a):
    nodes.append(a)
    return len(nodes) - 1


def set_of(ts):
    ts = sorted(ts)
    if ts not in sets:
        sets.append(ts)
    return sets.index(ts)


def parse(ts):
    """alternatives of sequences"""
    alts, seq = [], []
    while ts and ts[0] not in (')', ']', '}'):
        t = ts.pop(0)
        if t == '|':
            alts.append(('seq', seq))
            seq = []
        elif t in '([{':
            r = parse(ts)
            ts.pop(0)
            seq.append({'(': r, '[': ('opt', r), '{': ('rep', r)}[t])
        elif t[0] == "'":
            seq.append(('t', [OPS[t[1:-1]]]))
        elif t[0].isupper():
            seq.append(('t', [t]))
        else:
            assert t in rules, t
            seq.append(('n', t))
    alts.append(('seq', seq))
    return ('alt', alts)


def build(e, nxt):
    """node that recognises e and goes on with nxt"""
    k, x = e
    if k == 't':
        return node(SET, set_of(x), nxt)
    if k == 'n':
        return node(CALL, NT.index(x), nxt)
    if k == 'seq':
        for y in reversed(x):
            nxt = build(y, nxt)
        return nxt
    if k == 'alt':
        # alternatives of single terminals are one set
        ts = [a[1][0][1][0] for a in x if a[0] == 'seq' and len(a[1]) == 1 and a[1][0][0] == 't']
        rest = [a for a in x if not (a[0] == 'seq' and len(a[1]) == 1 and a[1][0][0] == 't')]
        r = [build(a, nxt) for a in rest] + ([node(SET, set_of(ts), nxt)] if ts else [])
        while len(r) > 1:
            b, a = r.pop(), r.pop()
            r.append(node(ALT, a, b))
        return r[0]
    if k == 'opt':
        return node(ALT, build(x, nxt), nxt)
    if k == 'rep':
        l = node(ALT, 0, nxt)
        nodes[l] = (ALT, build(x, l), nxt)
        return l
    assert False, e


starts = {}
acc = node(ACCEPT, 0, 0)
for n in NT:
    starts[n] = build(parse(list(rules[n])), acc)
first, nullable = {n: set() for n in NT}, {n: False for n in NT}
change = True
while change:
    change = False
    for n in NT:
        f, nu, todo, seen = set(), False, [starts[n]], set()
        while todo:
            i = todo.pop()
            if i in seen:
                continue
            seen.add(i)
            k, a, b = nodes[i]
            if k == ACCEPT:
                nu = True
            elif k == SET:
                f |= set(sets[a])
            elif k == ALT:
                todo += [a, b]
            else:
                f |= first[NT[a]]
                if nullable[NT[a]]:
                    todo.append(b)
        if f != first[n] or nu != nullable[n]:
            first[n], nullable[n] = f, nu
            change = True
fs = {n: set_of(first[n]) for n in NT}
out = '''//! Written by tools/gen_grammar.py: the reference grammar as a recursive transition network.
use mofmt::verif::ModelicaToken as K;

const fn mask(k: &[K]) -> [u64; 2] {
    let mut r = [0; 2];
    let mut i = 0;
    while i < k.len() {
        r[k[i] as usize / 64] |= 1 << (k[i] as usize % 64);
        i += 1;
    }
    r
}

pub const ACCEPT: u8 = 0;
pub const SET: u8 = 1;
pub const CALL: u8 = 2;
pub const ALT: u8 = 3;

/// Sets of terminals
pub static SETS: &[[u64; 2]] = &[
'''
for s in sets:
    out += '    mask(&[' + ', '.join('K::' + t for t in s) + ']),\n'
out += '];\n/// (kind, set or non-terminal or first way, next node or second way)\npub static NODES: &[(u8, u16, u16)] = &[\n'
for a in nodes:
    out += f'    ({a[0]}, {a[1]}, {a[2]}),\n'
out += '];\n/// (start node, set of first terminals, can be empty)\npub static NT: &[(u16, u16, bool)] = &[\n'
for n in NT:
    out += f'    ({starts[n]}, {fs[n]}, {str(nullable[n]).lower()}), // {n}\n'
out += '];\n'
open(os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + '/harness/src/table.rs', 'w').write(out)
print(len(nodes), 'nodes', len(sets), 'sets')
