"""C18: ordinary symbols, their order of definition and relocatability."""
from vf import Violation
from hl import Src, diags_in, ebc

TARGETS = ['drv_an']
FAST = True
TECHNIQUE = 'property-based testing: generated graphs of symbol definitions in a random order against a reference evaluator of relocatable expressions'
EXAMPLES = {'quick': 16000, 'thorough': 80000}
RULE = ('case = up to ten EQU symbols with expressions over constants, self-defining terms, labels in up to three sections (some behind storage whose size is defined later), the location counter, length '
        'attributes and each other, in a random order, with undefined references, cycles and duplicate definitions; oracle = a reference evaluator of absolute and (complexly) relocatable values; '
        'non-trivial = at least three symbols that refer to symbols defined later and have a definite value')
ASSUMPTIONS = ['no intermediate value exceeds 31 bits', 'the value of a symbol that takes part in a cycle or depends on an error is not compared']
BIN = '+-*/'


def gen_expr(r, names, d):
    k = r.weighted([(4, 'n'), (7, 's'), (1, 'sd'), (1, '*'), (1, 'L')] + ([(8, 'b'), (2, 'neg'), (2, 'par')] if d else []))
    if k == 'n':
        return ['n', r.pick([0, 1, 2, 3, 7, 10, 100, 255, 4096])]
    if k == 's':
        return ['s', r.pick(names)]
    if k == 'sd':
        return ['sd'] + r.pick([["X'1F'", 31], ["B'101'", 5], ["C'A'", 0xC1], ["X'00FF'", 255], ["C'&&'", 0x50], ["C'''A'", 0x7DC1]])
    if k == '*':
        return ['*']
    if k == 'L':
        return ['L', r.pick(['D0', 'D1', 'D2', 'D3'])]
    if k == 'b':
        return ['b', r.weighted([(5, '+'), (6, '-'), (3, '*'), (2, '/')]), gen_expr(r, names, d - 1), gen_expr(r, names, d - 1)]
    return [k, gen_expr(r, names, d - 1)]


def write(e, top=True):
    k = e[0]
    if k == 'n':
        return str(e[1])
    if k in ('s', 'sd'):
        return e[1]
    if k == '*':
        return '*'
    if k == 'L':
        return "L'" + e[1]
    if k == 'neg':
        x = write(e[1])
        return '-' + ('(%s)' % x if e[1][0] in ('b', 'neg') else x)
    if k == 'par':
        return '(%s)' % write(e[1])
    # left associative; the right side of the same or lower strength is written in parentheses
    p = {'+': 1, '-': 1, '*': 2, '/': 2}
    l, rr = write(e[2]), write(e[3])
    if e[2][0] == 'b' and p[e[2][1]] < p[e[1]]:
        l = '(%s)' % l
    if e[3][0] == 'neg' or e[3][0] == 'b' and (p[e[3][1]] <= p[e[1]]):
        rr = '(%s)' % rr
    if e[1] in '*/' and e[2][0] == '*':
        l = '(%s)' % l
    if e[1] in '*/' and e[3][0] == '*':
        rr = '(%s)' % rr
    return l + e[1] + rr


def gen(r, tier):
    ne = r.int(1, 12)
    eq = ['E%d' % i for i in range(ne)]
    labs = ['D%d' % i for i in range(4)]
    errs = r.chance(35)
    st = []
    dag = r.chance(75)
    for i, n in enumerate(eq):
        names = (eq[:i] if dag else eq) + labs + (['U0', 'U1'] if errs and r.chance(30) else [])
        names += [x for x in names if x[0] == 'E'] * 2
        st.append(['equ', n, gen_expr(r, names, r.int(0, 3)), r.pick([None, None, None, 0, 1, 4, 65535, 300]), r.pick([None, None, None, 'A', 'F', 'Z'])])
    for n in labs:
        st.append(['ds', n, r.int(1, 20), None])
    for _ in range(r.int(0, 3)):
        st.append(['ds', '', r.int(1, 9), r.pick(['K0', 'K1', 'K2'])])
    for k, v in (('K0', 3), ('K1', 0), ('K2', 17)):
        st.append(['equ', k, ['n', v], None, None])
    for _ in range(r.int(0, 2) if errs else 0):
        st.append(r.pick([['equ', r.pick(eq + labs), ['n', 77], None, None], ['ds', r.pick(eq + labs), 2, None], ['use', gen_expr(r, ['U0', 'U1', 'E0', 'D0'], 1)]]))
    for _ in range(r.int(0, 2)):
        st.append(['use', ['b', '+', ['s', r.pick(eq + labs)], ['n', 1]]])
    st = r.shuffle(st)
    for _ in range(r.int(0, 4)):
        st.insert(r.int(0, len(st)), ['sect', r.pick(['S0', 'S1', 'S2'])])
    return {'st': st}


class Err(Exception):
    """kind: direct (an error in this statement), poisoned (depends on one), cycle"""


class Discard(Exception):
    pass


def add(a, b, s):
    base = dict(a[1])
    for k, c in b[1].items():
        base[k] = base.get(k, 0) + s * c
    return (a[0] + s * b[0], {k: c for k, c in base.items() if c})


class Model:
    def __init__(self, case):
        self.defs = {}
        self.first = {}
        self.dup = set()
        self.lens = {}
        sect = ''
        loc = {}
        kval = {'K0': 3, 'K1': 0, 'K2': 17}
        self.locs = []
        for i, s in enumerate(case['st']):
            if s[0] == 'sect':
                sect = s[1]
            here = (loc.get(sect, 0), {sect: 1})
            self.locs.append(here)
            if s[0] == 'use':
                loc[sect] = (loc.get(sect, 0) + 3) // 4 * 4 + 4
                self.locs[-1] = (loc[sect] - 4, {sect: 1})
            n = s[1] if s[0] in ('equ', 'ds') else ''
            if n:
                if n in self.first:
                    self.dup.add(i)
                else:
                    self.first[n] = i
                    self.defs[n] = ('v', here) if s[0] == 'ds' else ('e', s[2], here)
                    if s[0] == 'ds':
                        self.lens[n] = s[2]
            if s[0] == 'ds':
                loc[sect] = loc.get(sect, 0) + s[2] * (kval[s[3]] if s[3] else 1)
        self.memo = {}
        self.busy = []
        self.cyclic = []

    def sym(self, n):
        if n not in self.defs:
            raise Err('direct')
        if n in self.memo:
            v = self.memo[n]
            if isinstance(v, str):
                raise Err('poisoned')
            return v
        if n in self.busy:
            self.cyclic.append(self.busy[self.busy.index(n):])
            raise Err('cycle')
        self.busy.append(n)
        d = self.defs[n]
        try:
            v = d[1] if d[0] == 'v' else self.ev(d[1], d[2])
            self.memo[n] = v
            return v
        except Err as e:
            self.memo[n] = str(e)
            raise Err('poisoned')
        finally:
            self.busy.pop()

    def ev(self, e, here):
        """evaluates every part, so that a cycle or an error anywhere is seen"""
        k = e[0]
        if k == 'n':
            return (e[1], {})
        if k == 'sd':
            return (e[2], {})
        if k == '*':
            return here
        if k == 's':
            return self.sym(e[1])
        if k == 'L':
            if e[1] not in self.lens:
                raise Err('poisoned')  # the label is an EQU here
            return (self.lens[e[1]], {})
        if k == 'par':
            return self.ev(e[1], here)
        if k == 'neg':
            return add((0, {}), self.ev(e[1], here), -1)
        vs, errs = [], []
        for x in e[2:]:
            try:
                vs.append(self.ev(x, here))
            except Err as z:
                errs.append(str(z))
        if errs:
            raise Err('direct' if 'direct' in errs else errs[0])
        a, b = vs
        if e[1] in '+-':
            v = add(a, b, 1 if e[1] == '+' else -1)
        else:
            if a[1] or b[1]:
                raise Err('direct')
            if e[1] == '*':
                v = (a[0] * b[0], {})
            else:
                v = (0 if b[0] == 0 else (abs(a[0]) // abs(b[0])) * (1 if (a[0] < 0) == (b[0] < 0) else -1), {})
        if abs(v[0]) > 2 ** 30:
            raise Discard
        return v


def syms(e):
    return [e[1]] if e[0] == 's' else sum([syms(x) for x in e[1:] if isinstance(x, list)], [])


def leftmost(e):
    return e if e[0] in ('n', 's', 'sd', '*', 'L') else leftmost(e[2] if e[0] == 'b' else e[1])


def run(case, env):
    m = Model(case)
    try:
        status = {}
        for n in m.defs:
            try:
                m.sym(n)
            except Err:
                pass
            status[n] = m.memo[n]
        uses = []
        for i, s in enumerate(case['st']):
            if s[0] == 'use':
                try:
                    m.ev(s[1], m.locs[i])
                    uses.append((i, None))
                except Err as e:
                    uses.append((i, 'direct' if any(x not in m.defs for x in syms(s[1])) else str(e)))
    except Discard:
        return {'nontrivial': False, 'labels': ['discarded']}
    src = Src()
    idx = []
    for s in case['st']:
        if s[0] == 'sect':
            idx.append(src.stmt(s[1], 'CSECT'))
        elif s[0] == 'equ':
            x = write(s[2]) + (',%s' % ('' if s[3] is None else s[3]) if s[3] is not None or s[4] else '') + (",C'%s'" % s[4] if s[4] else '')
            idx.append(src.stmt(s[1], 'EQU', x))
        elif s[0] == 'ds':
            idx.append(src.stmt(s[1], 'DS', ('(%s)' % s[3] if s[3] else '') + 'XL%d' % s[2]))
        else:
            idx.append(src.stmt('', 'DC', 'A(%s)' % write(s[1])))
    text = src.text()
    out = env.drv('drv_an').call({'text': text, 'syms': list(m.defs)})
    err = lambda i: [d for d in diags_in(out['diags'], src.spans[idx[i]], sev=1)]
    line = lambda i: src.lines[src.spans[idx[i]][0]]
    direct_undef = lambda e: any(x not in m.defs for x in syms(e))
    cyc = set(sum(m.cyclic, []))
    for c in m.cyclic:
        if not any(err(m.first[n]) for n in c):
            raise Violation('the cycle %s is not reported\n%s' % (c, text))
    late = 0
    for i, s in enumerate(case['st']):
        if i in m.dup:
            if not err(i):
                raise Violation('a duplicate definition is not reported: %s\n%s' % (line(i), text))
            continue
        n = s[1] if s[0] in ('equ', 'ds') else ''
        v = status.get(n) if n and m.first[n] == i else None
        if s[0] == 'use':
            v = dict(uses)[i]
            if v is None and err(i):
                raise Violation('a valid statement is reported: %s\n%s\n%s' % (line(i), err(i)[0], text))
            if v == 'direct' and not err(i):
                raise Violation('an undefined symbol is not reported: %s\n%s' % (line(i), text))
        elif isinstance(v, str):
            if (v == 'direct' or s[0] == 'equ' and direct_undef(s[2])) and n not in cyc and not err(i):
                raise Violation('a wrong expression is not reported: %s\n%s' % (line(i), text))
        else:
            if err(i):
                raise Violation('a valid statement is reported: %s\n%s\n%s' % (line(i), err(i)[0], text))
            if not n:
                continue
            g = out['syms'].get(n)
            want = {'k': 'A', 'v': v[0]} if not v[1] else {'k': 'R', 'v': v[0], 'b': v[1], 'u': False}
            if not g or any(g.get(k) != x for k, x in want.items()):
                raise Violation('%s has the value %s, expected %s: %s\n%s' % (n, g, want, line(i), text))
            if s[0] == 'equ':
                if g['T'] != (s[4] or 'U'):
                    raise Violation('%s has the type %s: %s\n%s' % (n, g['T'], line(i), text))
                l = s[3]
                if l is None:
                    t = leftmost(s[2])
                    l = 1 if t[0] != 's' else m.lens[t[1]] if t[1] in m.lens and m.first[t[1]] < i else 1 if t[1] in m.first and m.first[t[1]] > i else None
                if l is not None and g.get('L') != l:
                    raise Violation('%s has the length %s, expected %s: %s\n%s' % (n, g.get('L'), l, line(i), text))
                late += any(x in m.first and m.first[x] > i for x in syms(s[2]))
    return {'nontrivial': late >= 3, 'sample': text, 'labels': ['cycle'] * bool(m.cyclic) + ['duplicate'] * bool(m.dup) + ['relocatable'] * any(not isinstance(v, str) and v[1] for v in status.values()) + ['undefined'] * ('direct' in status.values())}
