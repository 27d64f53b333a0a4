"""C16: the layout and spelling of statements do not matter."""
import re
from vf import Violation
import prog

TARGETS = ['drv_an']
FAST = True
TECHNIQUE = 'property-based metamorphic testing: generated programs are analysed as written canonically and as rewritten in another layout and spelling; values, problems and mapped positions must agree'
EXAMPLES = {'quick': 8000, 'thorough': 120000}
RULE = ('case = a program of machine, assembler, conditional-assembly and macro statements (with errors) and, per statement, a layout: gaps, continuation column split at any operand position, alternate format, remarks, '
        'comment lines before it, sequence field, letter case, continuation character; line ends LF, CR LF or CR; oracle = the same program in canonical layout; non-trivial = three statements continued, remarked or respelled, and a symbol, variable or problem to compare')
ASSUMPTIONS = ['the operation is complete on the first line', 'alternate format only for macro calls, prototypes and conditional assembly', 'letter case of macro operands and strings is kept', 'AREAD, *PROCESS and ICTL are not generated',
               'a reported range may end anywhere between the end of the corresponding text and the end of its statement when it ends with the statement']
REM = ['remark', "it's", 'a,b  c', '&X (y', "'quoted'", 'X', '..', "L'x = &", '* star', 'rem' * 12]
COM = ['* comment', '*', "* it's &x", '.* internal', '* ' + 'c' * 69, '*comment, continued?', '.*']


def layout(r, s, in_macro, prev):
    L = {}
    a = s['a']
    if r.chance(35):
        L['case'] = r.int(1, 7)
    if r.chance(40):
        L['g1'] = r.weighted([(3, 1), (2, 2), (1, r.int(1, 20))])
    if r.chance(40):
        L['g2'] = r.weighted([(3, 1), (2, 2), (1, r.int(1, 20))])
    can = 1 + len(s['l']) + 1
    if a and r.chance(35):
        # make column 72 fall at a chosen place of the operand
        p = r.int(0, len(a))
        used = len(s['l']) + (L.get('g1') or max(1, 9 - len(s['l']))) + len(s['o'])
        if 71 - p - used >= 1:
            L['g2'] = 71 - p - used
    if s['k'] in ('call', 'proto', 'ca') and a and r.chance(35):
        c = prog.commas(a)
        b = [x for x in c if x < len(a) and r.chance(60)]
        if b:
            L['brk'] = [[x, r.pick(REM + ['', '', ''])] for x in b]
    if a and not s.get('x') and r.chance(40):
        L['rem'] = r.pick(REM)
    if r.chance(25) and not (prev and prev['o'] == 'MACRO'):
        L['before'] = r.list(1, 2, lambda: r.pick(COM))
    if r.chance(40):
        L['seq'] = 1
    if r.chance(30):
        L['cc'] = r.pick('*-+1Cx,')
    return L


def gen(r, tier):
    p = prog.Prog(r, errors=r.pick([0, 15, 35]), syntax=r.pick([0, 0, 10]))
    lay, prev = [], None
    for s in p.body:
        lay.append(layout(r, s, False, prev))
        prev = s
    return {'st': p.body, 'lay': lay, 'eol': r.weighted([(4, '\n'), (3, '\r\n'), (1, '\r')]), 'seqs': r.int(0, 2), 'last': r.chance(80)}


def spell(L):
    n = L.get('case', 0)

    def f(s, field, i, ch):
        if s['k'] in ('call', 'proto') and field != 'o' or s['k'] in ('call', 'proto') and field == 'l':
            return ch
        if field == 'a' and f.strs[i]:
            return ch
        up = {1: False, 2: True, 3: i % 2 == 0, 4: field != 'o', 5: field == 'o', 6: i % 3 == 0, 7: field == 'l'}[n]
        return ch.upper() if up else ch.lower()
    return f if n else None


def make(case):
    def lay(i, s):
        L = dict(case['lay'][i])
        f = spell(L)
        if f:
            f.strs = prog.in_string(s['a'])
        L['case'] = f
        L['brk'] = {p: t for p, t in L.get('brk', [])}
        if L.get('seq'):
            L['seq'] = lambda n: ['%08d' % (n * 10), 'seq', "'(,X&"][case['seqs']]
        return L
    return prog.write(case['st'], lay, case['eol'], case['last'])


class Map:
    """positions of a written program in terms of statements and their characters"""

    def __init__(self, where):
        self.where = where
        self.stmt_of = {}
        self.at = {}
        for i, (a, b, place) in enumerate(where):
            for n in range(a, b + 1):
                self.stmt_of[n] = i
            for k, p in place.items():
                self.at[p] = (i, k)

    def norm(self, l, c):
        """the same place, not at a line break inside a statement"""
        i = self.stmt_of.get(l)
        return l, c


def describe(m, l, c, end):
    """what a position of the canonical text denotes"""
    i = m.stmt_of.get(l)
    if i is None:
        return None
    a, b, place = m.where[i]
    if (l, c) == (a, 0):
        return i, 'start', None
    here, before = m.at.get((l, c)), m.at.get((l, c - 1))
    if c == 15 and l > a and not before:
        before = m.at.get((l - 1, 70))
    if end:
        x = before and ('after', before[1]) or here and ('before', here[1])
    else:
        x = here and ('before', here[1]) or before and ('after', before[1])
    return (i,) + x if x else (i, 'gap', None)


def places(m, d, end):
    """where that may be in the other text: list of positions, or a predicate"""
    i, kind, k = d
    a, b, place = m.where[i]
    if kind == 'start':
        return [(a, 0)]
    if kind == 'gap':
        return [(l, None) for l in range(a, b + 1)]
    l, c = place[k]
    if kind == 'before':
        out = [(l, c)]
        if c == 15 and l > a:
            out += [(l - 1, x) for x in range(0, 72)] if end else [(l - 1, 71)]
        return out
    out = [(l, c + 1)]
    f, n = k
    nxt = place.get((f, n + 1))
    if nxt and nxt[0] > l:
        out += [nxt, (l, 71)]
    if (f == 'a' and n + 1 not in [x for g, x in place if g == 'a']) or (f == 'o' and ('a', 0) not in place) or end:
        # the end of the statement
        if (f, n + 1) not in place and (f == 'a' or f == 'o' and ('a', 0) not in place):
            out += [(x, None) for x in range(l, b + 1)]
    return out


def canon(case):
    return prog.write(case['st'], lambda i, s: {})


WH = re.compile(r'\((\d+)\)')


def relkey(m, rel):
    return tuple((m.stmt_of.get(x[1][0]), re.sub(r'\d+', '#', x[2])) for x in rel)


def key(m, d):
    if d['code'].startswith('S0'):
        return ('syntax', 0, '', m.stmt_of.get(d['r'][0], -1), relkey(m, d['rel']))  # which syntax error it is depends on where the text ends
    return (d['code'], d['sev'], d['msg'].upper(), m.stmt_of.get(d['r'][0], -1), relkey(m, d['rel']))


def run(case, env):
    if not case['st']:
        return {'nontrivial': False, 'sample': '', 'labels': []}
    t0, w0 = canon(case)
    t1, w1 = make(case)
    if any(b - a > 9 for a, b, _ in w0 + w1):
        return {'nontrivial': False, 'sample': t1, 'labels': ['too long']}
    lines = t1.replace('\r\n', '\n').replace('\r', '\n').split('\n')
    for s, L, (_, _, place) in zip(case['st'], case['lay'], w1):
        for p, t in L.get('brk', []):
            l = place[('a', p)][0]
            if s['a'][p] == "'" and re.match(r'.{69}[^A-Za-z0-9@#$_&][DOIKLNSTdoiklnst].$', lines[l - 1][:72]):
                return {'nontrivial': False, 'sample': t1, 'labels': ['known finding']}
    drv = env.drv('drv_an')
    rq = {'syms': prog.SYMS, 'vars': prog.VARS}
    o0 = drv.call(dict(rq, text=t0))
    o1 = drv.call(dict(rq, text=t1))
    show = 'canonical:\n%s\nrewritten:\n%s' % (t0, t1.replace('\r\n', '\n').replace('\r', '\n'))
    m0, m1 = Map(w0), Map(w1)
    for n in prog.VARS:
        if o0['vars'][n] != o1['vars'][n]:
            raise Violation('variable &%s: %s in the canonical, %s in the rewritten program\n%s' % (n, o0['vars'][n], o1['vars'][n], show))
    nsym = 0
    for n in prog.SYMS:
        a, b = o0['syms'][n], o1['syms'][n]
        x, y = [v and {k: v[k] for k in v if k != 'at'} for v in (a, b)]
        nsym += bool(a)
        if x != y or a and m0.stmt_of.get(a['at'][1][0]) != m1.stmt_of.get(b['at'][1][0]):
            raise Violation('symbol %s: %s in the canonical, %s in the rewritten program\n%s' % (n, a, b, show))
    d0, d1 = sorted(o0['diags'], key=lambda d: (key(m0, d), d['r'])), sorted(o1['diags'], key=lambda d: (key(m1, d), d['r']))
    d0, d1 = [[d for i, d in enumerate(ds) if not i or not d['code'].startswith('S0') or key(m, d) != key(m, ds[i - 1])] for ds, m in ((d0, m0), (d1, m1))]
    k0, k1 = [key(m0, d) for d in d0], [key(m1, d) for d in d1]
    if k0 != k1:
        x = next((k for k in k0 + k1 if k0.count(k) != k1.count(k)))
        raise Violation('problem %s: %d times in the canonical, %d times in the rewritten program\n%s' % (x, k0.count(x), k1.count(x), show))
    for a, b in zip(d0, d1):
        if a['code'].startswith('S0'):
            continue
        for j, end in ((0, False), (2, True)):
            d = describe(m0, a['r'][j], a['r'][j + 1], end)
            if d is None:
                continue
            ps = places(m1, d, end)
            if not any((l == b['r'][j] and (c is None or c == b['r'][j + 1])) for l, c in ps):
                raise Violation('%s of %s (%s): at %s in the canonical program, so expected at %s in the rewritten one, but at %s\n%s' % (['start', 'end'][end], a['code'], a['msg'], a['r'], ps[:4], b['r'], show))
    changed = sum(1 for L in case['lay'] if set(L) - {'seq', 'before'})
    return {'nontrivial': changed >= 3 and (nsym > 0 or bool(d0)), 'sample': t1, 'labels': ['problems %d' % min(len(d0), 5)] + [k for L in case['lay'] for k in L]}
