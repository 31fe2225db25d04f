"""What each check runs: harness entry, parameters (bounds) and time limits."""


CAP, HUGE = 60_000_000, 4_000_000_000


def L(p, alpha, n, wide, laps, about, t=240, **kw):
    return dict(main='h_lex', params=[p, alpha, n, wide, laps], time=t, about=about, **kw)


ALPHA = ['all of ASCII', 'operator characters', 'digits . e E + - x', 'letters digits _', 'quotes, backslash, control',
         '/ * CR LF blank quote a']


def lex(p, levels):
    """levels: (alphabet, length, characters outside ASCII[, repetitions])"""
    return [L(p, a, n, w, k[0] if k else 0, f'every text of {n} characters over {ALPHA[a]}' +
              (f', up to {w} of them any 2-4 byte characters' if w else '') +
              (f', all but the first and the last one {k[0]} times over' if k else '')) for a, n, w, *k in levels]


ROOTS = ['stored definition', 'class definition', 'composition', 'element', 'component clause', 'modification',
         'equation', 'statement', 'expression', 'primary', 'extends clause', 'description', 'external',
         'class specifier', 'list of elements', 'if/for/when/while blocks', 'nested call arguments', 'component list']
SMALL = [0, 1, 2, 5, 9, 10, 11, 12, 13, 17]
MID = [3, 4, 8]
LARGE = [6, 7, 14, 15, 16]


def mask(roots):
    return (1 << 20) + sum(1 << r for r in roots)


def names(roots):
    return ', '.join(ROOTS[r] for r in roots)


def groups(roots):
    """small ones explored together"""
    s = [r for r in roots if r not in LARGE]
    return ([s] if s else []) + [[r] for r in roots if r in LARGE]


def fmt(p, levels, time):
    """levels: (roots, budget, comments, flags)"""
    r = []
    for roots, b, c, fl in levels:
        for ks in groups(roots):
            k, t = (mask(ks), 2 * time) if len(ks) > 1 else (ks[0], time)
            about = (f'{names(ks)}: every sentence with at most {b} non-minimal grammar choices, '
                     f'{"any" if fl & 4 == 0 else "no"} number of line breaks (0 to 3) between the tokens'
                     + (', strings with up to one line break' if fl & 2 else '')
                     + (f', {c} comment(s) of either kind at any place' if c else ''))
            r.append(dict(main='h_fmt', params=[p, k, b, c, fl], time=t, about=about,
                          covers=[8 if p == 8 else 1]))
    return r


def F(p, comments=True):
    quick = [(SMALL + MID, 3, 0, 2), (LARGE, 2, 0, 2)]
    thorough = [(SMALL, 4, 0, 2), (MID + LARGE, 3, 0, 2)]
    if comments:
        quick += [(SMALL + MID, 2, 1, 0), (SMALL + MID + LARGE, 1, 1, 2), (SMALL, 1, 2, 0)]
        thorough += [(SMALL, 3, 1, 2), (MID + LARGE, 2, 1, 2), (SMALL + MID, 2, 2, 0), (LARGE, 1, 2, 0)]
    else:
        quick[1:] = [([6, 7, 14, 16], 3, 0, 2), ([15], 2, 0, 2)]
    return {'quick': fmt(p, quick, 60), 'thorough': fmt(p, thorough, 240)}


CHANGES = {1: 'one token removed', 10: 'one token of any kind put in', 11: 'one token replaced by one of any other kind',
           100: 'everything after some token cut off', 110: 'cut off after some token, then one token of any kind',
           12: 'two tokens replaced by one of any kind', 21: 'one token replaced by two of any kinds',
           20: 'two tokens of any kinds put in', 22: 'two tokens replaced by two of any kinds', 2: 'two tokens removed',
           120: 'cut off after some token, then two tokens of any kinds', 0: 'unchanged'}
# the text of debug messages does not matter, and would split every path by the kind of token
STUBS = ['ModelicaToken*Debug3fmt']
WITNESS = {8: [2], 9: [3], 10: [10], 16: [16]}


def parse(p, levels, time):
    """levels: (roots, budget, changes)"""
    r = []
    for roots, b, ch in levels:
        for c in ch:
            if p == 8 and c >= 100:
                continue
            for ks in groups(roots):
                k, t = (mask(ks), 2 * time) if len(ks) > 1 else (ks[0], time)
                covers = WITNESS[p] if p != 8 or len(ks) > 1 else []
                r.append(dict(main='h_parse', params=[p, k, b, c, 1], time=t, stubs=STUBS, covers=covers,
                              about=f'{names(ks)}: every sentence with at most {b} non-minimal grammar choices, '
                                    f'{CHANGES[c]}, at any place; every kind of token'))
    return r


def seq(p, entries, ns, t):
    return [dict(main='h_seq', params=[p, e, n], time=t, stubs=STUBS,
                 about=f'every sequence of {n} tokens of any kinds, entry point no. {e}') for n in ns for e in entries]


NOT7 = [0, 1, 2, 3, 4, 5, 9, 10, 11, 12, 13, 17]
BIG = [6, 7, 8, 14, 16]
ONE = [1, 10, 11, 100, 110]
TWO = [12, 21, 20, 22, 120, 2]


def G(p):
    return {'quick': parse(p, [(NOT7, 2, ONE[:4]), (NOT7, 1, ONE[4:]), (BIG, 1, ONE), (NOT7 + BIG, 0, TWO)], 60),
            'thorough': parse(p, [(NOT7 + BIG, 2, ONE), (NOT7 + BIG, 1, TWO)], 120) + seq(p, [0], [1, 2, 3, 4], 60)}


TEXTA = ['all of ASCII', 'blank, line ends, / * quote a ;', 'operator and bracket characters', 'digits . e E + - x _',
         'quotes, backslash, control, comment marks', 'blank, line end, / * a', 'any 2-4 byte characters and blank, line end, / * a quote']
TEXTW = {1: [1, 2], 2: [1, 2], 3: [1, 2], 5: [1, 2], 8: [2], 9: [3], 10: [10], 16: [6, 16]}


def text(p, levels, t=60):
    return [dict(main='h_text', params=[p, 255, a, n, k[0] if k else 0], time=t, stubs=STUBS, covers=TEXTW[p],
                 about=f'24 programs, each with {n} symbolic characters at one place'
                       + (f', {k[0]} times over' if k else '') + f', over {TEXTA[a]}; '
                       f'lexer, parser and formatter together') for a, n, *k in levels]


TEXT_QUICK = [(0, 2), (1, 4), (2, 3), (3, 4), (4, 4), (5, 5), (6, 3),
              (0, 1, 200), (1, 3, 40), (2, 2, 60), (3, 2, 100), (4, 3, 40), (5, 4, 30), (6, 1, 80)]
TEXT_THOROUGH = [(0, 3), (1, 5), (2, 4), (3, 5), (4, 5), (5, 7), (6, 4),
                 (0, 2, 100), (1, 4, 100), (2, 3, 100), (3, 3, 200), (4, 4, 100), (5, 5, 100), (6, 2, 80)]


def cli(p, scenarios, mode, t=60):
    """scenarios: (number, sizes)"""
    r = []
    for s, sizes in scenarios:
        for n in sizes:
            r.append(dict(main='h_cli', params=[p, s, n, mode], time=t, cap=HUGE if n >= 300 else CAP, stubs=STUBS, covers=[1],
                          about=f'{"check" if mode else "format"} mode: ' + [
                              f'one file with any content of {n} bytes',
                              f'one file near its formatted form, template {n}, with symbolic white space',
                              f'{n} arguments, each a file of any of 11 natures (missing, unreadable, other type, '
                              f'formatted or not, with errors, not UTF-8, empty)',
                              f'a file whose name has {n} symbolic characters, named or in a directory',
                              f'{n} files of any of 5 types of name anywhere in a tree of depth 3, 4 ways to select',
                              f'{n} files of any of 9 natures in a directory',
                              f'{n} arguments, each any of 9 files and directories, also twice',
                              f'{n} files of any two of 8 natures by turns and one more of any: named, in a directory, '
                              f'or each in another level of a tree' if n <= 100 else
                              f'{n} files of any of 8 natures and one more of the same or of two others, named, in a directory, or '
                              f'(of one nature) each in another level of a tree',
                              f'{n} arguments, each any of 8 files and directories, some of which cannot be written, '
                              f'listed or found',
                              f'a directory whose name has {n} symbolic characters, named or in a directory',
                              f'a file whose name has {n} symbolic bytes (any but / and NUL), named or in a directory',
                              f'a file with {n} declarations and any of 4 ends, and another one',
                              f'two files whose names have {n} symbolic characters, named, in one directory or in two',
                              f'a file with a comment or string of {n} kilobytes and any of 3 ends, and another one'][s]))
    return r


def options():
    return [dict(main='h_cli_options', params=[15, n, f], time=60, stubs=STUBS,
                 about=('every documented option' if n == 0 else 'an option with one character changed' if n == 10
                        else f'- and {n} symbolic characters') + (' and a file' if f else ''))
            for n in (0, 1, 2, 3, 4, 10) for f in (0, 1)]


CLI_QUICK = [(0, [0, 1, 2, 3]), (1, range(8)), (2, [1, 2, 3]), (3, [1, 2, 3]), (4, [1, 2, 3]), (5, [1, 2, 3]), (6, [1, 2, 3, 4]), (7, [20, 300]),
             (8, [1, 2, 3]), (9, [1, 2, 3]), (10, [1, 2]), (11, [300, 6000]),
             (12, [1, 2]), (13, [1100])]
CLI_THOROUGH = [(0, [0, 1, 2, 3, 4]), (1, range(8)), (2, [1, 2, 3, 4]), (3, [1, 2, 3, 4]), (4, [1, 2, 3, 4]),
                (5, [1, 2, 3, 4, 5]), (6, [1, 2, 3, 4, 5]), (7, [5, 40, 80, 600]),
                (8, [1, 2, 3, 4]), (9, [1, 2, 3, 4]), (10, [1, 2, 3]), (11, [300, 1500, 30000]),
                (12, [1, 2, 3]), (13, [1100, 4200])]


def again(scenarios, t=60):
    """C02 on the command line; scenarios as for cli()"""
    return [dict(r, main='h_cli_again', about=r['about'].replace('format mode', 'formatted, checked, formatted again'),
                 covers=[1] if r['params'][1] not in (0,) else [])
            for r in cli(2, scenarios, 0, t)]


def wide(p, levels, t=60):
    """levels: (alphabet, characters)"""
    return [dict(main='h_text', params=[p, 255, a, n, 0, 70_000], time=t, stubs=STUBS, covers=TEXTW[p][:1], cap=HUGE,
                 about=f'9 programs with 70000 lines, columns, tokens or comments and {n} symbolic characters over '
                       f'{TEXTA[a]}; lexer, parser and formatter together') for a, n in levels]


def wider(p, levels, t=60):
    """levels: (alphabet, characters)"""
    return [dict(main='h_lex', params=[p, a, n, 0, 0, 70_000], time=t, cap=HUGE,
                 about=f'70000 lines, columns, lexemes, comments or characters of one lexeme, then every text of {n} '
                       f'characters over {ALPHA[a]}') for a, n in levels]


def space(levels, t=60):
    """levels: (characters, many places, repetitions)"""
    return [dict(main='h_space', params=[17, n, m, k], time=t, stubs=STUBS, covers=[1],
                 about=f'9 programs in 4 layouts of their lines: at {"every second gap" if m else "any one gap"} between '
                       f'lexemes any white space of {n} characters (blank, tab, form feed, CR, LF)'
                       + (f', the last one {k - 1000} times' if k > 1000 else f' {k} times over' if k else '')
                       + ' against the plainest one with as many line breaks')
            for n, m, k in levels]


def lay(levels, time):
    r = []
    for roots, b, c, fl in levels:
        for ks in groups(roots):
            k, t = (mask(ks), 2 * time) if len(ks) > 1 else (ks[0], time)
            about = (f'{names(ks)}: every sentence with at most {b} non-minimal grammar choices, '
                     f'any number of line breaks (0 to 3) between the tokens, twice, with independent columns and '
                     f'independent numbers of empty lines'
                     + (f', {c} comment(s) of either kind at any place' if c else ''))
            r.append(dict(main='h_layout', params=[17, k, b, c, fl], time=t, about=about, covers=[1]))
    return r


ALL = (1 << 20) + (1 << 18) - 1


def big(p, levels, t=120):
    """levels: (budget, comments, flags, laps, depth)"""
    r = []
    for b, c, fl, laps, depth in levels:
        about = (f'every start symbol: every sentence in which, after at most {b} non-minimal grammar choices, the '
                 f'choices since the last visit of a loop or of a recursive rule are repeated {laps} or {depth} '
                 f'times; 0, 1, 2 or 70000 line breaks before every token'
                 + ('' if fl & 8 or c else ', and 0 to 3 before any one of them')
                 + (f', {c} comment(s) of either kind at any place' if c else '')
                 + (', columns apart by 3 or by 60 characters' if p == 17 else ''))
        r.append(dict(main='h_layout' if p == 17 else 'h_fmt', params=[p, ALL, b, c, fl, laps, depth], time=t, about=about,
                      covers=[8 if p == 8 else 1]))
    return r


def odd(p, levels, t=60):
    """levels: (budget, comments, flags[, laps, depth])"""
    r = []
    for b, c, fl, *ld in levels:
        about = (f'every start symbol: every sentence with at most {b} non-minimal grammar choices'
                 + (f', the choices since the last visit of a loop or of a recursive rule repeated {ld[0]} or {ld[1]} times'
                    if ld else '') +
                 f'; identifiers, numbers, strings and comments either longer than 80 characters or holding comment '
                 f'marks, quotes, blanks, keywords and multi-byte characters; any number of line breaks'
                 + (f', {c} comment(s) of either kind at any place' if c else ''))
        r.append(dict(main='h_fmt', params=[p, ALL, b, c, fl] + (list(ld) or [0, 0]) + [1], time=t, about=about, covers=[1]))
    return r


def bigparse(p, levels, t=120):
    """levels: (budget, change, laps, depth)"""
    return [dict(main='h_parse', params=[p, ALL, b, c, 1, laps, depth], time=t, stubs=STUBS, covers=WITNESS[p],
                 about=f'every start symbol: every sentence in which, after at most {b} non-minimal grammar choices, the '
                       f'choices since the last visit of a loop or of a recursive rule are repeated {laps} or {depth} '
                       f'times; {CHANGES[c]}, at any place; every kind of token') for b, c, laps, depth in levels]


PLAN = {
    'C01': F(1), 'C02': F(2), 'C03': F(3), 'C04': F(4), 'C05': F(5), 'C06': F(6), 'C07': F(7, False), 'C08': F(8, False),
    'C09': G(9), 'C16': G(16),
    'C17': {'quick': lay([(SMALL + MID, 3, 0, 0), (LARGE, 2, 0, 0), (SMALL + MID, 2, 1, 0), (LARGE, 1, 1, 0)], 60),
            'thorough': lay([(SMALL + MID, 3, 0, 0), (LARGE, 3, 0, 0), (SMALL + MID + LARGE, 2, 1, 0), (SMALL + MID, 1, 2, 0)], 180)},
    'C11': {'quick': lex(11, [(0, 3, 1), (0, 4, 0), (4, 5, 1), (5, 5, 1), (0, 3, 1, 100), (0, 3, 0, 300), (5, 5, 0, 100)]),
            'thorough': lex(11, [(0, 4, 1), (0, 5, 0), (4, 7, 1), (5, 7, 1), (2, 7, 0), (0, 3, 1, 300),
                                   (0, 4, 0, 300), (5, 6, 0, 300)])},
    'C12': {'quick': lex(12, [(0, 3, 1), (0, 4, 0), (1, 5, 0), (2, 6, 0), (3, 13, 0), (4, 5, 1), (5, 5, 1), (0, 3, 1, 100),
                                (0, 3, 0, 300), (4, 5, 0, 100), (5, 5, 0, 100)]),
            'thorough': lex(12, [(0, 4, 1), (0, 5, 0), (1, 7, 0), (2, 7, 0), (3, 15, 0), (4, 7, 1), (5, 7, 1), (0, 3, 1, 300),
                                   (0, 4, 0, 300), (4, 6, 0, 300), (5, 6, 0, 300)])},
}
PLAN['C08']['quick'] += parse(8, [(SMALL, 2, [1, 10, 11]), (MID + BIG, 1, [1, 10, 11])], 60)
PLAN['C08']['thorough'] += parse(8, [(NOT7 + BIG, 2, [1, 10, 11]), (NOT7 + BIG, 1, [12, 20, 21, 22])], 120)
for p in (1, 2, 3, 5, 8, 9, 10, 16):
    i = f'C{p:02}'
    if i not in PLAN:
        PLAN[i] = {'quick': [], 'thorough': []}
    PLAN[i]['quick'] += text(p, TEXT_QUICK)
    PLAN[i]['thorough'] += text(p, TEXT_THOROUGH, 240)
PLAN['C10']['quick'] += seq(10, [255], [0, 1, 2, 3], 60) + parse(10, [(NOT7, 2, ONE[:4]), (NOT7, 1, ONE[4:]), (BIG, 1, ONE)], 60)
PLAN['C10']['thorough'] += (seq(10, [255], [0, 1, 2, 3, 4], 240)
                            + parse(10, [(NOT7 + BIG, 2, ONE), (NOT7 + BIG, 1, TWO)], 120))
PLAN['C10']['quick'] += bigparse(10, [(1, 0, 100, 60), (1, 0, 400, 200)])
PLAN['C10']['quick'] += lex(10, [(0, 4, 0), (0, 3, 1), (0, 3, 1, 100)])
PLAN['C10']['thorough'] += lex(10, [(0, 5, 0), (0, 4, 1), (0, 4, 0, 300)])
PLAN['C16']['quick'] += cli(16, [(2, [2]), (6, [2])], 0)
PLAN['C16']['thorough'] += cli(16, [(0, [2, 3]), (2, [2, 3]), (6, [2, 3])], 0) + cli(16, [(2, [2, 3])], 1)
PLAN['C13'] = {'quick': cli(13, CLI_QUICK, 1), 'thorough': cli(13, CLI_THOROUGH, 1, 240)}
PLAN['C14'] = {'quick': cli(14, CLI_QUICK, 0), 'thorough': cli(14, CLI_THOROUGH, 0, 240)}
PLAN['C15'] = {'quick': options() + cli(15, CLI_QUICK[2:], 0) + cli(15, CLI_QUICK[2:], 1),
               'thorough': options() + cli(15, CLI_THOROUGH[2:], 0, 240) + cli(15, CLI_THOROUGH[2:], 1, 240)}
LONG = [(1, 0, 0, 24, 12), (2, 0, 9, 24, 12), (1, 0, 9, 100, 60)]
LONGER = [(1, 0, 0, 60, 30), (2, 0, 1, 12, 6), (3, 0, 9, 12, 6), (1, 0, 9, 250, 150)]
for p in range(1, 9):
    i = f'C{p:02}'
    PLAN[i]['quick'] += big(p, LONG)
    PLAN[i]['thorough'] += big(p, LONGER, 300)
    if p in (1, 2, 3, 6):
        PLAN[i]['quick'] += big(p, [(1, 1, 1, 12, 6)])
        PLAN[i]['thorough'] += big(p, [(1, 1, 1, 40, 20), (2, 1, 1, 8, 4)], 300)
PLAN['C17']['quick'] += big(17, [(1, 0, 1, 24, 12), (2, 0, 9, 24, 12)])
PLAN['C17']['thorough'] += big(17, [(1, 0, 1, 60, 30), (2, 0, 9, 60, 30), (1, 1, 1, 12, 6)], 300)
PLAN['C08']['quick'] += bigparse(8, [(2, 0, 24, 12), (1, 0, 100, 60), (1, 1, 24, 12)])
PLAN['C08']['thorough'] += bigparse(8, [(3, 0, 24, 12), (2, 0, 250, 150), (2, 1, 12, 6), (1, 10, 24, 12), (1, 11, 24, 12)], 300)
for p in (9, 10, 16):
    i = f'C{p:02}'
    PLAN[i]['quick'] += bigparse(p, [(1, 1, 24, 12), (1, 1, 100, 60), (1, 100, 24, 12), (1, 10, 8, 4), (1, 11, 8, 4)])
    PLAN[i]['thorough'] += bigparse(p, [(1, 10, 24, 12), (1, 11, 24, 12), (1, 110, 24, 12), (2, 1, 12, 6), (1, 1, 100, 60)], 300)
AGAIN = [(0, [1, 2, 3]), (1, range(8)), (2, [1, 2]), (3, [1, 2]), (4, [1, 2]), (5, [1, 2]), (6, [1, 2, 3]), (7, [8])]
PLAN['C02']['quick'] += again(AGAIN)
PLAN['C02']['thorough'] += again(AGAIN + [(2, [3]), (4, [3]), (5, [3]), (6, [4]), (7, [40])], 240)
PLAN['C17']['quick'] += space([(0, 0, 0), (3, 0, 0), (5, 1, 0), (2, 0, 200), (2, 1, 40), (3, 0, 1250)])
PLAN['C17']['thorough'] += space([(5, 0, 0), (7, 1, 0), (3, 0, 200), (4, 1, 40), (4, 0, 1250)], 240)
for p in range(1, 8):
    i = f'C{p:02}'
    PLAN[i]['quick'] += odd(p, [(1, 0, 2), (0, 1, 0), (1, 0, 9, 24, 12)])
    PLAN[i]['thorough'] += odd(p, [(2, 0, 2), (1, 1, 2), (0, 2, 0), (1, 0, 8, 60, 30)], 240)
    if p != 4 and p != 6 and p != 7:
        PLAN[i]['quick'] += wide(p, [(1, 1)])
        PLAN[i]['thorough'] += wide(p, [(1, 2), (2, 1)], 240)
for p in (8, 9, 10, 16):
    PLAN[f'C{p:02}']['quick'] += wide(p, [(1, 1)])
    PLAN[f'C{p:02}']['thorough'] += wide(p, [(1, 2), (2, 1)], 240)
for p in (11, 12):
    PLAN[f'C{p:02}']['quick'] += wider(p, [(0, 1), (5, 1)])
    PLAN[f'C{p:02}']['thorough'] += wider(p, [(0, 2), (5, 2)], 240)
ASSUME = {
    '*': ['LLVM IR of the release profile with overflow checks on, produced by the pinned rustc from the working '
          'tree of /repo; every value within the stated bounds, nothing outside them'],
}
MEANING = {}
LEVEL_NOTE = {
    '*': 'Every value of the symbolic bytes within the bounds listed in the evidence file; the code encoded is the '
         'LLVM IR that rustc makes of /repo and std on this run. Trusted: rustc front end, LLVM O1 passes, the '
         'executor engine/ (cross-checked against z3 and by native replay), z3, and the reference specification in '
         'harness/src.',
}
NOT_APPLICABLE = {}
