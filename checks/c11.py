"""C11: conditional-assembly programs against a reference interpreter."""
from vf import Violation
from hl import Src, quote

TARGETS = ['drv_an']
FAST = True
TECHNIQUE = 'property-based testing: generated programs against a reference interpreter'
EXAMPLES = {'quick': 4000, 'thorough': 150000}
RULE = ('case = a program of open code, source macros, library macros and nested macro definitions with SETx/AIF/AGO/ANOP/ACTR/MEXIT/GBLx/LCLx/EQU, macro calls and statements in error (which must be reported and change nothing); oracle = an independent '
        'interpreter comparing the executed trace (with variable values at each trace point), final values, defined symbols and number of errors; non-trivial = at least one taken branch and six trace points')
ASSUMPTIONS = ['every variable is declared or set in its scope before use', 'after the ACTR limit is exceeded in a macro the calling macro continues (as the code documents in its tests)',
               'programs whose execution exceeds 700 statements, or with values beyond 2**30 or strings beyond 60 characters, are not run']

LABELS = ['A', 'B', 'C', 'D', 'E']
AV, BV, CV = ['A1', 'A2'], ['B1'], ['C1', 'C2']
ARR = {'RA': 'A', 'RB': 'B', 'RC': 'C'}
GL = ['G1', 'G2', 'GR', 'GC']  # A, A, A-array, C: global or local depending on the scope


class Discard(Exception):
    pass


class Over(Exception):
    pass


# -------------------------------------------------------------- generator
def a0(r):
    k = r.weighted([(4, 'n'), (6, 'v'), (3, 'el'), (1, 'N'), (1, 'K'), (1, 'P'), (1, 'NEST')])
    if k == 'n':
        return ['n', r.int(-3, 9)]
    if k == 'v':
        return ['v', r.pick(AV + ['G1', 'G2'])]
    if k == 'el':
        return ['el', r.pick(['RA', 'GR']), ['n', r.int(1, 4)]]
    if k == 'N':
        return ['N', r.pick(['RA', 'GR', 'RB', 'RC'])]
    if k == 'K':
        return ['K', r.pick(CV + ['GC'])]
    return [k]


def a1(r):
    k = r.weighted([(5, 0), (3, 1), (1, 2), (1, 3)])
    if k == 0:
        return a0(r)
    if k == 1:
        return [r.pick('+-'), a0(r), a0(r)]
    return ['el', r.pick(['RA', 'GR']), ['v', 'IX'] if k == 2 else ['+', ['v', 'IX'], ['n', 1]]]


def c0(r):
    def part():
        k = r.weighted([(3, 's'), (4, 'v'), (1, 'P'), (2, 'el')])
        if k == 's':
            return ['s', r.text('ABxy1', 1, 2)]
        if k == 'v':
            return ['v', r.pick(AV + CV + BV + ['G1', 'GC'])]
        if k == 'el':
            return ['el', r.pick(['RA', 'RC', 'RB']), ['n', r.int(1, 3)]]
        return [k]
    return r.list(0, 2, part)


def b0(r):
    k = r.weighted([(1, 'b'), (6, 'rel'), (2, 'crel'), (2, 'vb'), (2, 'eb')])
    if k == 'rel':
        return ['rel', r.pick(['EQ', 'NE', 'LT', 'LE', 'GT', 'GE']), a1(r), a1(r)]
    if k == 'crel':
        return ['crel', r.pick(['EQ', 'NE']), c0(r), c0(r)]
    if k == 'b':
        return ['b', r.int(0, 1)]
    if k == 'vb':
        return ['vb', 'B1']
    return ['eb', r.int(1, 3)]


def b1(r):
    k = r.weighted([(5, ''), (1, 'AND'), (1, 'OR'), (1, 'XOR'), (1, 'NOT')])
    if not k:
        return b0(r)
    return [k, b0(r)] if k == 'NOT' else [k, b0(r), b0(r)]


def lbl(r):
    return r.pick(LABELS) if r.chance(25) else None


def tgt(r):
    return r.int(0, 40)


def arr(r, *names):
    return ['el', r.pick(names), ['n', r.int(1, 4)] if r.chance(60) else ['v', 'IX']]


# statements in error: reported, and without any effect. The name &P is a parameter in a macro and a SETA symbol outside
WRONG = [('&A1(1)', 'SETA', '7'), ('&A2(3)', 'SETA', '7,8'), ('&RA', 'SETA', '7'), ('&C1(1)', 'SETC', "'x'"), ('&C2(2)', 'SETC', "'x'"), ('&B1(1)', 'SETB', '(1)'), ('&RB', 'SETB', '(1)'), ('&RC', 'SETC', "'x'"), ('&A1', 'SETC', "'x'"),
         ('&C1', 'SETA', '5'), ('&B1', 'SETA', '1'), ('&A2', 'SETB', '(1)'), ('&RC(1)', 'SETA', '7'), ('&RA(2)', 'SETC', "'7'"), ('&RA(0)', 'SETA', '7'), ('&RC(-1)', 'SETC', "'7'"), ('', 'LCLA', '&A1'), ('', 'GBLA', '&A2'), ('', 'LCLC', '&A2'),
         ('', 'LCLB', '&RA(3)'), ('', 'GBLC', '&C1'), ('', 'LCLC', '&RC(2)'), ('', 'LCLA', '&C2,&A1'), ('', 'GBLB', '&B1'), ('&P', 'SETC', "'x'"), ('', 'LCLC', '&P'), ('', 'GBLA', '&P'), ('&A1', 'SETA', ''), ('&C1', 'SETC', ''), ('&RA(1,2)', 'SETA', '7')]


def one(r, calls, depth):
    if r.wrong and r.chance(8):
        return ['wrong', r.int(0, len(WRONG) - 1)]
    alts = [(2, 'anop'), (3, 'seta'), (2, 'setarr'), (1, 'setm'), (2, 'setb'), (3, 'setc'), (1, 'seti'), (1, 'setx'), (3, 'tr'), (3, 'aif'), (2, 'agoc'), (1, 'equ'), (1, 'ds')]
    if calls:
        alts.append((5 if not depth else 3, 'call'))
    if depth:
        alts += [(1, 'mexit'), (1, 'ago')]
    k = r.weighted(alts)
    if k == 'seta':
        return ['seta', ['v', r.pick(AV + ['G1', 'G2'])], a1(r)]
    if k == 'setarr':
        return ['seta', arr(r, 'RA', 'GR'), a1(r)]
    if k == 'setm':
        return ['setm', r.pick(['RA', 'GR']), r.int(1, 4), r.list(2, 3, lambda: a0(r))]
    if k == 'setb':
        return ['setb', ['v', 'B1'] if r.chance(50) else arr(r, 'RB'), b1(r)]
    if k == 'setc':
        return ['setc', ['v', r.pick(CV + ['GC'])] if r.chance(60) else arr(r, 'RC'), c0(r)]
    if k == 'seti':
        return ['seti', r.int(0, 4)]
    if k == 'setx':
        return ['setx', r.int(1, 2), a1(r)]
    if k == 'tr':
        def what():
            w = r.weighted([(5, 'v'), (3, 'el'), (1, 'P'), (1, 'NDX'), (1, 'NEST')])
            if w == 'v':
                return ['v', r.pick(AV + BV + CV + ['G1', 'G2', 'GC'])]
            if w == 'el':
                return ['el', r.pick(['RA', 'RB', 'RC', 'GR']), ['n', r.int(1, 4)]]
            return [w]
        return ['tr', r.list(1, 3, what)]
    if k == 'aif':
        return ['aif', lbl(r), r.list(1, r.weighted([(7, 2), (3, 6)]), lambda: [b1(r), tgt(r)])]
    if k == 'ago':
        return ['ago', lbl(r), tgt(r)]
    if k == 'agoc':
        n = r.weighted([(5, 3), (3, 7)])
        return ['agoc', lbl(r), a1(r) if r.chance(40) else ['n', r.int(0, n + 1)], r.list(1, n, lambda: tgt(r))]
    if k == 'anop':
        return ['anop', r.pick(LABELS)]
    if k == 'equ':
        return ['equ']
    if k == 'ds':
        return ['ds', lbl(r)]
    if k == 'call':
        return ['call', lbl(r), r.int(0, 30), a0(r)]
    return ['mexit', lbl(r)]


def stmts(r, maxn, calls, depth):
    def chunk():
        k = r.weighted([(8, 0), (1, 1), (1, 2)])
        if k == 0:
            return one(r, calls, depth)
        if k == 1:
            return ['LOOP', r.pick(AV + ['G1']), r.int(1, 4), r.list(1, 4, lambda: one(r, calls, depth))]
        return ['IF', b1(r), r.list(1, 4, lambda: one(r, calls, depth))]
    return fix(flat(r.list(1, maxn, chunk)), calls)


def flat(chunks):
    out = []
    for i, c in enumerate(chunks):
        if c[0] == 'LOOP':
            l = 'L%d' % i
            out += [['seta', ['v', c[1]], ['n', 0]], ['anop', l]] + c[3] + [['seta', ['v', c[1]], ['+', ['v', c[1]], ['n', 1]]], ['aif', None, [[['rel', 'LT', ['v', c[1]], ['n', c[2]]], l]]]]
        elif c[0] == 'IF':
            l = 'F%d' % i
            out += [['aif', None, [[c[1], l]]]] + c[2] + [['anop', l]]
        else:
            out.append(c)
    return out


def fix(body, calls):
    """a sequence symbol is defined once per scope (later definitions lose theirs); targets and macros become names, mostly defined ones"""
    seen, out = set(), []
    for s in body:
        s = list(s)
        li = 1 if s[0] in ('aif', 'ago', 'agoc', 'anop', 'ds', 'call', 'mexit') else None
        if li and s[li] is not None:
            if s[li] in seen:
                s[li] = None
            else:
                seen.add(s[li])
        out.append(s)
    ls = sorted(seen) or ['Z']

    def tgt(i):
        return i if isinstance(i, str) else 'Z' if i == 40 else ls[i % len(ls)]
    for s in out:
        if s[0] == 'aif':
            s[2] = [[b, tgt(t)] for b, t in s[2]]
        elif s[0] == 'ago':
            s[2] = tgt(s[2])
        elif s[0] == 'agoc':
            s[3] = [tgt(t) for t in s[3]]
        elif s[0] == 'call':
            s[2] = 'QQ' if s[2] == 30 or not calls else calls[s[2] % len(calls)]
            if s[2] == 'QQ':
                s[1] = None
    return out


def scope(r):
    return {'g': [bool(r.int(0, 1)) for _ in range(4)], 'lcl': r.chance(50), 'actr': r.weighted([(3, 1), (1, 0)]) and r.int(8, 60) or r.int(0, 8)}


def macro(r, name, calls):
    return {'n': name, 's': scope(r), 'b': stmts(r, 8, calls, 1)}


def gen(r, tier):
    r.wrong = r.chance(25)
    names = ['MA', 'MB', 'MC'][:r.int(1, 3)]
    haslib, hasin = r.chance(50), r.chance(40)
    calls = names + (['LIBM'] if haslib else []) + (['IN'] if hasin else [])
    ms = [macro(r, n, calls) for n in names]
    lib = macro(r, 'LIBM', calls) if haslib else None
    inner = macro(r, 'IN', names) if hasin else None
    redef = macro(r, 'MA', calls) if r.chance(25) else None
    body = stmts(r, 16, calls, 0)
    pos = [r.int(0, len(body)) for _ in ms] if r.chance(25) else [0] * len(ms)
    return {'m': ms, 'lib': lib, 'inner': inner, 'iw': r.int(0, 2), 'redef': redef, 'rp': r.int(0, len(body)), 'pos': pos, 'b': body, 's': scope(r), 'fuel': r.weighted([(1, 3), (4, 16)]) and r.int(1, 16)}


# ------------------------------------------------------------------ program text and the flattened form for the interpreter
def labelled(s):
    return s[0] in ('aif', 'ago', 'agoc', 'anop', 'ds', 'call') and s[1] is not None


class Prog:
    def __init__(self, case):
        self.case = case
        self.k = 0
        self.equs = []
        self.macros = {}
        self.libtext = {}
        case = self.case
        ms = {m['n']: m for m in case['m']}
        inner_host = case['m'][min(case['iw'], len(case['m']) - 1)]['n'] if case['inner'] else None
        items = []  # open code: ('def', macro) or ('s', stmt)
        opening = self.prologue(case['s'], None) + [['fuel', case['fuel']]]
        at = {}
        for m, p in zip(case['m'], case['pos']):
            at.setdefault(p, []).append(self.mdef(m, case['inner'] if m['n'] == inner_host else None))
        if case['redef']:
            at.setdefault(case['rp'], []).append(self.mdef(case['redef'], None))
        body = []
        for i in range(len(case['b']) + 1):
            for d in at.get(i, ()):
                body.append(['def', d])
            if i < len(case['b']):
                body.append(self.number(case['b'][i]))
                if labelled(case['b'][i]):
                    body += self.trace()
        self.open = opening + body + self.trace()
        self.lib = self.mdef(case['lib'], None) if case['lib'] else None

    def trace(self):
        return [self.number(['tr', [['v', 'A1'], ['v', 'G1']]])]

    def number(self, s):
        self.k += 1
        s = list(s) + [self.k]
        if s[0] == 'equ':
            self.equs.append('E%d' % self.k)
        return s

    def mdef(self, m, inner):
        b = self.prologue(m['s'], m)
        body = self.trace() + [x for s in m['b'] for x in [self.number(s)] + (self.trace() if labelled(s) else [])] + self.trace()
        if inner:
            b = b + [['def', self.mdef(inner, None)]]
        return {'n': m['n'], 'b': b + body}

    def prologue(self, s, m):
        out = [['decl', s, m is not None], ['actr', s['actr']]]
        if m is not None:
            out.append(['fuelchk'])
        return out


def ra(e):
    k = e[0]
    if k == 'n':
        return str(e[1])
    if k == 'v':
        return '&' + e[1]
    if k == 'el':
        return '&%s(%s)' % (e[1], ra(e[2]))
    if k == 'dyn':
        return '&%s(%s)' % (e[1], ra(e[2]))
    if k == 'N':
        return "N'&" + e[1]
    if k == 'K':
        return "K'&" + e[1]
    if k == 'P':
        return '&P'
    if k == 'NEST':
        return '&NS'
    if k == 'NDX':
        return '&ND'
    return '(%s%s%s)' % (ra(e[1]), k, ra(e[2]))


def rc(c):
    return "'" + ''.join(x[1] if x[0] == 's' else ra(x) + '.' for x in c) + "'"


def rb(e):
    k = e[0]
    if k == 'rel':
        return '(%s %s %s)' % (ra(e[2]), e[1], ra(e[3]))
    if k == 'crel':
        return '(%s %s %s)' % (rc(e[2]), e[1], rc(e[3]))
    if k == 'b':
        return str(e[1])
    if k == 'vb':
        return '&B1'
    if k == 'eb':
        return '&RB(%d)' % e[1]
    if k == 'NOT':
        return '(NOT %s)' % rb(e[1])
    return '(%s %s %s)' % (rb(e[1]), k, rb(e[2]))


def seq(l):
    return '.' + l if l else ''


def emit(src, body, inmac):
    for s in body:
        k = s[0]
        if k == 'decl':
            sc = s[1]
            ga = [n for n, g in zip(['G1', 'G2'], sc['g']) if g]
            la = [n for n, g in zip(['G1', 'G2'], sc['g']) if not g]
            src.stmt('', 'GBLA', '&SQ,&FUEL' + ''.join(',&' + n for n in ga) + (',&GR(1)' if sc['g'][2] else ''))
            src.stmt('', 'GBLC', '&TR(1)' + (',&GC' if sc['g'][3] else ''))
            src.stmt('', 'LCLA', ','.join(['&' + n for n in la] + ['&A1,&A2,&RA(1)'] + (['&GR(5)'] if not sc['g'][2] else [])))
            if sc['lcl']:
                src.stmt('', 'LCLB', '&B1,&RB(3)')
            else:
                src.stmt('&B1', 'SETB', '0')
                src.stmt('', 'LCLB', '&RB(1)')
            src.stmt('', 'LCLC', '&C1,&C2,&RC(2)' + (',&GC' if not sc['g'][3] else ''))
            src.stmt('&IX', 'SETA', '1')
            src.stmt('&ND', 'SETC', "'&SYSNDX'" if inmac else "'0'")
            src.stmt('&NS', 'SETA', '&SYSNEST' if inmac else '0')
            if not inmac:
                src.stmt('&P', 'SETA', '2')
        elif k == 'actr':
            src.stmt('', 'ACTR', str(s[1]))
        elif k == 'fuel':
            src.stmt('&FUEL', 'SETA', str(s[1]))
        elif k == 'fuelchk':
            src.stmt('&FUEL', 'SETA', '&FUEL-1')
            src.stmt('', 'AIF', '(&FUEL GE 0).OK')
            src.stmt('', 'MEXIT')
            src.stmt('.OK', 'ANOP')
        elif k == 'def':
            m = s[1]
            src.stmt('', 'MACRO')
            src.stmt('', m['n'], '&P')
            emit(src, m['b'], True)
            src.stmt('', 'MEND')
        elif k in ('seta',):
            src.stmt(ra(s[1]), 'SETA', ra(s[2]))
        elif k == 'setm':
            src.stmt('&%s(%d)' % (s[1], s[2]), 'SETA', ','.join(ra(x) for x in s[3]))
        elif k == 'setb':
            src.stmt(ra(s[1]), 'SETB', '(%s)' % rb(s[2]))
        elif k == 'setc':
            src.stmt(ra(s[1]), 'SETC', rc(s[2]))
        elif k == 'seti':
            src.stmt('&IX', 'SETA', str(s[1]) if s[1] else '&IX+1')
        elif k == 'setx':
            src.stmt('&X', 'SETC', "'A%d'" % s[1])
            src.stmt('&(&X)', 'SETA', ra(s[2]))
        elif k == 'tr':
            src.stmt('&SQ', 'SETA', '&SQ+1')
            src.stmt('&TR(&SQ)', 'SETC', "'%d" % s[-1] + ''.join(':' + ra(x) + '.' for x in s[1]) + "'")
        elif k == 'aif':
            src.stmt(seq(s[1]), 'AIF', ','.join('(%s).%s' % (rb(b), t) for b, t in s[2]))
        elif k == 'ago':
            src.stmt(seq(s[1]), 'AGO', '.' + s[2])
        elif k == 'agoc':
            src.stmt(seq(s[1]), 'AGO', '(%s)' % ra(s[2]) + ','.join('.' + t for t in s[3]))
        elif k == 'anop':
            src.stmt(seq(s[1]), 'ANOP')
        elif k == 'wrong':
            src.stmt(*WRONG[s[1]])
        elif k == 'equ':
            src.stmt('E%d' % s[-1], 'EQU', str(s[-1]))
        elif k == 'ds':
            src.stmt(seq(s[1]), 'DS', '0H')
        elif k == 'call':
            src.stmt(seq(s[1]), s[2], aval_text(s[3]))
        elif k == 'mexit':
            src.stmt(seq(s[1]), 'MEXIT')
        else:
            raise AssertionError(s)


def aval_text(e):
    # a macro operand is text: an expression would be passed unevaluated
    return ra(e) if e[0] in ('n', 'v', 'el', 'P', 'NEST') else '1'


# ---------------------------------------------------------------------- interpreter
class Scope:
    def __init__(self, g, body, param, nest, ndx):
        self.g, self.body, self.pc, self.p, self.nest, self.ndx = g, body, 0, param, nest, ndx
        self.ctr = 4096
        self.v = {}
        self.isg = {}
        self.labels = {}
        for i, s in enumerate(body):
            li = 1 if s[0] in ('aif', 'ago', 'agoc', 'anop', 'ds', 'call', 'mexit') else None
            if li and s[li]:
                self.labels.setdefault(s[li], i)

    def slot(self, name):
        return self.g if self.isg.get(name) else self.v


class Interp:
    def __init__(self, prog):
        self.prog = prog
        self.g = {'SQ': 0, 'TR': [], 'G1': 0, 'G2': 0, 'GR': {}, 'GC': '', 'FUEL': 0}
        self.macros = {}
        self.errors = 0
        self.steps = 0
        self.taken = 0
        self.equ = {}
        self.ndx = 0
        self.stack = []
        self.cov = set()

    def a(self, e, sc):
        k = e[0]
        if k == 'n':
            return e[1]
        if k == 'v':
            return sc.slot(e[1])[e[1]]
        if k in ('el', 'dyn'):
            i = self.a(e[2], sc)
            if i < 1:
                raise Discard()
            return sc.slot(e[1])[e[1]].get(i, 0 if e[1] not in ('RC',) else '')
        if k == 'N':
            d = sc.slot(e[1])[e[1]]
            return max(d) if d else 0
        if k == 'K':
            return len(sc.slot(e[1])[e[1]])
        if k == 'P':
            return int(sc.p)
        if k == 'NEST':
            return sc.nest
        x, y = self.a(e[1], sc), self.a(e[2], sc)
        r = x + y if k == '+' else x - y
        if abs(r) > 2 ** 30:
            raise Discard()
        return r

    def cpart(self, x, sc):
        if x[0] == 's':
            return x[1]
        if x[0] == 'NDX':
            return sc.ndx
        if x[0] == 'P':
            return str(sc.p)
        val = sc.slot(x[1])[x[1]] if x[0] == 'v' else self.a(x, sc)
        if isinstance(val, str):
            return val
        return str(abs(int(val)))

    def c(self, c, sc):
        r = ''.join(self.cpart(x, sc) for x in c)
        if len(r) > 60:
            raise Discard()
        return r

    def b(self, e, sc):
        k = e[0]
        if k == 'rel':
            x, y = self.a(e[2], sc), self.a(e[3], sc)
            return {'EQ': x == y, 'NE': x != y, 'LT': x < y, 'LE': x <= y, 'GT': x > y, 'GE': x >= y}[e[1]]
        if k == 'crel':
            x, y = self.c(e[2], sc), self.c(e[3], sc)
            return (x == y) == (e[1] == 'EQ')
        if k == 'b':
            return bool(e[1])
        if k == 'vb':
            return bool(sc.v['B1'])
        if k == 'eb':
            return bool(sc.v['RB'].get(e[1], 0))
        if k == 'NOT':
            return not self.b(e[1], sc)
        x, y = self.b(e[1], sc), self.b(e[2], sc)
        return (x and y) if k == 'AND' else (x or y) if k == 'OR' else x != y

    def macro_of(self, n):
        return self.macros.get(n) or (self.prog.lib if n == 'LIBM' else None)

    def jump(self, sc, t):
        if t not in sc.labels:
            self.errors += 1
            self.cov.add('undefined target')
            return
        tgt = sc.labels[t]
        if sc.body[tgt][0] == 'call' and self.macro_of(sc.body[tgt][2]) is None:
            raise Discard()  # a branch to a statement with an undefined operation
        self.cov.add(('back' if tgt < sc.pc else 'fwd') + (':mac' if sc.nest else ':open'))
        if any(s[0] == 'def' for s in sc.body[min(tgt, sc.pc):max(tgt, sc.pc)]):
            self.cov.add('jump over definition')
        sc.pc = tgt
        sc.ctr -= 1
        self.taken += 1

    def run(self):
        sc = Scope(self.g, self.prog.open, 2, 0, '0')
        self.stack.append(sc)
        while self.stack:
            sc = self.stack[-1]
            if sc.pc >= len(sc.body):
                if sc.nest and sc.ctr < 0:
                    self.errors += 1  # the MEND statement itself is where it is noticed
                self.stack.pop()
                continue
            if sc.ctr < 0:
                self.errors += 1
                self.cov.add('ACTR:' + ('mac' if sc.nest else 'open'))
                self.stack.pop()
                if not self.stack:
                    break
                continue
            self.steps += 1
            if self.steps > 700:
                raise Discard()
            s = sc.body[sc.pc]
            sc.pc += 1
            self.step(sc, s)
        self.final = sc

    def step(self, sc, s):
        k = s[0]
        if k == 'decl':
            d = s[1]
            for n, g, z in zip(GL, d['g'], (0, 0, None, '')):
                sc.isg[n] = g
                if not g:
                    sc.v[n] = {} if n == 'GR' else z
            sc.isg['SQ'] = sc.isg['TR'] = sc.isg['FUEL'] = True
            for n in AV:
                sc.v[n] = 0
            sc.v['B1'] = 0
            sc.v['IX'] = 1
            for n in CV:
                sc.v[n] = ''
            for n in ARR:
                sc.v[n] = {}
        elif k == 'actr':
            sc.ctr = s[1]
        elif k == 'fuel':
            self.g['FUEL'] = s[1]
        elif k == 'fuelchk':
            self.g['FUEL'] -= 1
            if self.g['FUEL'] < 0:
                self.stack.pop()
            else:
                sc.ctr -= 1  # AIF ... .OK
        elif k == 'def':
            self.macros[s[1]['n']] = s[1]
            self.cov.add('def:' + ('mac' if sc.nest else 'open'))
        elif k == 'seta':
            v = self.a(s[2], sc)
            self.assign(sc, s[1], v)
        elif k == 'setm':
            base = sc.slot(s[1])[s[1]]
            for i, x in enumerate(s[3]):
                base[s[2] + i] = self.a(x, sc)
        elif k == 'setb':
            self.assign(sc, s[1], self.b(s[2], sc))
        elif k == 'setc':
            self.assign(sc, s[1], self.c(s[2], sc))
        elif k == 'seti':
            sc.v['IX'] = s[1] or sc.v['IX'] + 1
        elif k == 'setx':
            sc.v['A%d' % s[1]] = self.a(s[2], sc)
        elif k == 'tr':
            self.g['SQ'] += 1
            self.g['TR'].append(':'.join([str(s[-1])] + [self.cpart(x, sc) for x in s[1]]))
        elif k == 'aif':
            for b, t in s[2]:
                if self.b(b, sc):
                    self.jump(sc, t)
                    break
        elif k == 'ago':
            self.jump(sc, s[2])
        elif k == 'agoc':
            i = self.a(s[2], sc)
            if 1 <= i <= len(s[3]):
                self.jump(sc, s[3][i - 1])
        elif k in ('anop', 'ds'):
            pass
        elif k == 'wrong':
            self.errors += 1
            self.cov.add('in error: ' + ' '.join(WRONG[s[1]][:2]).strip())
        elif k == 'equ':
            n = 'E%d' % s[-1]
            if n in self.equ:
                self.errors += 1
            self.equ[n] = s[-1]
        elif k == 'mexit':
            self.stack.pop()
        elif k == 'call':
            m = self.macro_of(s[2])
            if m is not None:
                self.macros[s[2]] = m
            if m is None:
                if s[1]:
                    raise Discard()  # whether the sequence symbol of an undefined operation counts is left open
                self.errors += 1
                self.cov.add('undefined operation')
                return
            t = aval_text(s[3])
            v = self.a(s[3], sc) if s[3][0] in ('n', 'v', 'el', 'P', 'NEST') else 1
            # a SETA value is substituted without its sign
            if s[3][0] in ('v', 'el', 'NEST') or (s[3][0] == 'P' and not sc.nest):
                v = abs(v)
            self.stack.append(Scope(self.g, m['b'], v, len(self.stack), '%04d' % self.ndx))
            self.ndx += 1
            self.cov.add('call:' + ('lib' if s[2] == 'LIBM' else 'inner' if s[2] == 'IN' else 'src') + (':nested' if len(self.stack) > 2 else ''))
        else:
            raise AssertionError(s)

    def assign(self, sc, lhs, v):
        if lhs[0] == 'v':
            sc.slot(lhs[1])[lhs[1]] = v
        else:
            i = self.a(lhs[2], sc)
            if i < 1:
                raise Discard()
            sc.slot(lhs[1])[lhs[1]][i] = v


def run(case, env):
    prog = Prog(case)
    it = Interp(prog)
    try:
        it.run()
    except Discard:
        return {'labels': ['not run']}
    src = Src()
    emit(src, prog.open, False)
    libs = {}
    if prog.lib:
        ls = Src()
        emit(ls, [['def', prog.lib]], True)
        libs['LIBM'] = ls.text()
    text = src.text()
    fin = it.final
    vs = ['SQ', 'TR', 'A1', 'A2', 'B1', 'C1', 'C2', 'RA', 'RB', 'RC', 'G1', 'G2', 'GR', 'GC']
    r = env.drv('drv_an').call({'text': text, 'libs': libs, 'vars': vs, 'syms': prog.equs})

    def bad(msg):
        raise Violation('%s\nerrors reported: %s\n%s%s' % (msg, [(d['code'], d['r'][0], d['msg']) for d in r['diags']][:6], text, ''.join('--- %s\n%s' % kv for kv in libs.items())))
    got = r['vars']['TR']
    gl = [got['v'].get(str(i + 1)) for i in range(len(it.g['TR']) + 1)] if got else []
    want = it.g['TR'] + [None]
    if got is None or gl != want or r['vars']['SQ']['v'] != len(it.g['TR']):
        bad('executed trace differs\nexpected %s\ngot      %s' % (want, gl))
    for n in vs[2:]:
        w = fin.slot(n)[n]
        g = r['vars'][n]
        g = g['v'] if g else None
        if isinstance(w, dict):
            w = {str(i): x for i, x in w.items()}
        if g != w:
            bad('final value of &%s: expected %r, got %r' % (n, w, g))
    for n in prog.equs:
        g = r['syms'][n]
        if (n in it.equ) != (g is not None):
            bad('symbol %s: statement %s but symbol %s' % (n, 'executed' if n in it.equ else 'not executed', g))
        if g is not None and g.get('v') != it.equ[n]:
            bad('symbol %s has value %s' % (n, g))
    if (it.errors > 0) != (len(r['diags']) > 0):
        bad('expected %d errors' % it.errors)
    return {'nontrivial': it.taken > 0 and len(it.g['TR']) >= 6, 'labels': sorted(it.cov), 'sample': {'text': text, 'libs': libs, 'trace': it.g['TR']}}
