"""C13: location counters."""
from vf import Violation
from hl import Src, diags_in
import layout as la

TARGETS = ['drv_an']
FAST = True
TECHNIQUE = 'property-based testing: generated section layouts against a reference location counter'
EXAMPLES = {'quick': 5000, 'thorough': 80000}
RULE = ('case = 8 to 45 statements over up to four control, dummy, read-only and common sections and up to three LOCTR segments per section, interleaved at random: data definitions, machine '
        'instructions of 2, 4 and 6 bytes, EQU of *, labels and label differences, ORG to labels with offset, boundary and displacement, ORG to the highest location, symbols that define lengths '
        'before or after their use, and up to two forbidden statements; oracle = a recursive model of every location counter, section of each label, an error on exactly the forbidden statements; '
        'non-trivial = two or more counters are resumed or an ORG moves the counter, and ten or more labels are compared')
ASSUMPTIONS = ['a LOCTR segment starts right behind the highest location of the previous segment of its section', 'layouts with a circular definition are discarded']
SYMS = {'NA': 3, 'NB': 1, 'NC': 8}
MACH = [('LR', '1,2', 2), ('BR', '14', 2), ('L', '1,0(2)', 4), ('LA', '3,8(1,2)', 4), ('MVC', '0(4,1),0(2)', 6), ('LG', '1,0(2)', 6), ('LGR', '4,5', 4)]
TY = ['C', 'X', 'H', 'F', 'D', 'A', 'B', 'P', 'FD', 'LQ', 'S', 'AD', 'L']
KINDS = ['CSECT', 'DSECT', 'CSECT', 'RSECT', 'COM']


def gen(r, tier):
    nsect = r.weighted([(3, 1), (3, 2), (1, 4)])
    sects = [[('S%d' % i), r.pick(KINDS)] for i in range(nsect)]
    org = r.pick([0, 5, 14])
    fwd = r.pick([0, 0, 10, 40])
    nloc = r.pick([1, 4, 4])
    st, labs, loctrs = [], {}, {}
    cur = None
    k = 0

    def switch():
        nonlocal cur
        s = r.pick(sects)
        lo = loctrs.setdefault(s[0], [s[0]])
        if r.chance(60) or s[0] not in labs and not cur:
            st.append({'k': 'sect', 'n': s[0], 'op': s[1]})
            labs.setdefault(s[0], s[0])
            cur = (s[0], labs[s[0]])
        else:
            # resume or start a location counter
            mine = cur[0]
            if r.chance(50) and len(loctrs[mine]) < nloc:
                n = 'T%s%d' % (mine[1:], len(loctrs[mine]))
                loctrs[mine].append(n)
            else:
                mine = r.pick([x for x in loctrs if x in labs])
                n = r.pick(loctrs[mine])
            st.append({'k': 'loctr', 'n': n})
            labs[mine] = n
            cur = (mine, n)
    switch()
    here = {}  # loctr -> labels
    diffs = []
    orged = {}
    for _ in range(r.int(8, 45)):
        x = r.weighted([(10, 'ds'), (4, 'mach'), (3, 'equ'), (org, 'org'), (4, 'switch'), (2, 'diff')])
        lab = 'L%d' % k
        k += 1
        mine = here.setdefault(cur[1], [])
        if x == 'switch':
            switch()
        elif x == 'ds':
            ds = r.chance(60)
            ops = r.list(1, 3, lambda: la.operand(r, ds, {n: v for n, v in SYMS.items()} if r.chance(40) else {}, TY, small=True))
            s = {'k': 'ds', 'op': 'DS' if ds else 'DC', 'lab': lab, 'ops': ops, 'ref': None}
            if fwd and r.chance(fwd) and (ds or ops[0]['nom'] is not None):
                s['ref'] = r.int(0, 9)  # the first operand is repeated by a label difference
            st.append(s)
            mine.append(lab)
        elif x == 'mach':
            st.append({'k': 'mach', 'm': r.pick(MACH), 'lab': lab})
            mine.append(lab)
        elif x == 'equ':
            st.append({'k': 'equ', 'lab': lab, 'to': r.pick(['*'] + [m for v in here.values() for m in v]), 'd': r.int(-3, 20)})
            if st[-1]['to'] == '*' or st[-1]['to'] in mine:
                mine.append(lab)
        elif x == 'diff' and len(mine) > 1:
            a, b = r.pick(mine), r.pick(mine)
            st.append({'k': 'diff', 'lab': lab, 'a': a, 'b': b, 'd': r.int(0, 3)})
            diffs.append(lab)
        elif x == 'org':
            b = r.weighted([(5, 0), (1, 2), (1, 8), (1, 16), (1, 64)])
            o = r.weighted([(5, 0), (1, 1), (1, 12), (1, -2), (1, -8)])
            sym = r.pick(list(SYMS)) if r.chance(fwd) else None
            if sym:
                b = 0  # known finding: boundary with a symbol defined later
            if b and o < 0 and cur[1][0] == 'T':
                o = 0  # known finding: reported as below the segment
            to = r.pick(mine + ['*']) if r.chance(65) else None
            if orged.get(cur[1]) or any(orged.values()) and any(x.get('sym') for x in st):
                sym = None  # known finding: a symbol defined later in one of several ORGs
            orged[cur[1]] = True
            st.append({'k': 'org', 'to': to, 'd': r.weighted([(3, 0), (2, r.int(-4, 9)), (1, 40)]), 'b': b, 'o': o,
                       'lab': lab if r.chance(30) else '', 'sym': sym})
            if st[-1]['lab']:
                mine.append(lab)
    # move the definitions of differences to later places so that they are referenced before
    out, late = [], []
    for s in st:
        (late if s['k'] == 'diff' and r.chance(50) else out).append(s)
    bads = r.list(0, 2, lambda: r.pick(['orgabs', 'orgother', 'orglow', 'loctrdup', 'sectdup', 'sectkind', 'bound', 'labdup', 'orgcomplex']))
    return {'st': out + late, 'before': sorted(n for n in SYMS if not fwd or r.chance(60)), 'bad': bads}


class Cycle(Exception):
    pass


class Model:
    def __init__(self, case):
        self.sects, self.kind, self.cur, self.curl = {}, {}, {}, None  # section -> list of counters
        self.ops, self.where, self.val = {}, {}, {}
        self.memo, self.busy = {}, set()
        self.refs = [s['lab'] for s in case['st'] if s['k'] == 'diff']
        for s in case['st']:
            k = s['k']
            if k == 'sect':
                if s['n'] not in self.sects:
                    self.sects[s['n']] = [s['n']]
                    self.ops[s['n']] = []
                    self.where[s['n']] = (s['n'], 0, 0)
                    self.cur[s['n']] = s['n']
                self.curl = self.cur[s['n']]
            elif k == 'loctr':
                sec = next((x for x, l in self.sects.items() if s['n'] in l), None)
                if sec is None:
                    sec = next(x for x, l in self.sects.items() if self.curl in l)
                    self.sects[sec].append(s['n'])
                    self.ops[s['n']] = []
                    self.where[s['n']] = (s['n'], 0, 0)
                self.cur[sec] = self.curl = s['n']
            elif k in ('ds', 'mach', 'org'):
                o = self.ops[self.curl]
                o.append(s)
                if s['lab']:
                    self.where[s['lab']] = (self.curl, len(o) - (1 if k == 'org' else 0), 'start' if k != 'org' else 0) if k != 'org' else (self.curl, len(o) - 1, 0)
            elif k == 'equ':
                if s['to'] == '*':
                    self.where[s['lab']] = (self.curl, len(self.ops[self.curl]), s['d'])
                else:
                    self.val[s['lab']] = ('rel', s['to'], s['d'])
            else:
                self.val[s['lab']] = ('abs', s['a'], s['b'], s['d'])

    def section(self, l):
        return next(x for x, c in self.sects.items() if l in c)

    def base(self, l):
        sec = self.sects[self.section(l)]
        i = sec.index(l)
        if i == 0:
            return 0
        p = sec[i - 1]
        st = self.loc(p, len(self.ops[p]))
        if st[1] != st[2]:
            raise Cycle()
        return st[1]

    def loc(self, l, i):
        """(location, lowest and highest possible maximum) in front of operation i"""
        key = (l, i)
        if key in self.memo:
            return self.memo[key]
        if key in self.busy:
            raise Cycle()
        self.busy.add(key)
        if i == 0:
            b = self.base(l)
            res = (b, b, b)
        else:
            res = self.apply(l, self.ops[l][i - 1], self.loc(l, i - 1))
        self.busy.discard(key)
        self.memo[key] = res
        return res

    def dsops(self, s):
        ops = s['ops']
        if s['ref'] is not None and self.refs:
            n = self.value(self.refs[s['ref'] % len(self.refs)])
            if not 0 <= n <= 400:
                raise Cycle()
            ops = [dict(ops[0], dup=[n, ''])] + ops[1:]
        return ops

    def apply(self, l, s, st):
        loc, lo, hi = st
        if s['k'] == 'ds':
            loc = la.place(loc, self.dsops(s))[1]
        elif s['k'] == 'mach':
            loc = la.up(loc, 2) + s['m'][2]
        else:
            base = self.base(l)
            if s['to'] is None:
                if lo != hi:
                    raise Cycle()
                x = lo
            elif s['to'] == '*':
                x = loc + s['d'] + (SYMS[s['sym']] if s['sym'] else 0)
            else:
                x = self.value(s['to'])[1] + s['d'] + (SYMS[s['sym']] if s['sym'] else 0)
            if x < base or (s['sym'] and x - s['d'] - SYMS[s['sym']] + min(0, s['o']) < base):
                raise Cycle()
            y = la.up(x, s['b']) if s['b'] else x
            loc = y + s['o']
            if loc < base:
                raise Cycle()
            if s['o'] < 0:
                lo, hi = max(lo, loc), max(hi, y)
                return loc, lo, hi
        return loc, max(lo, loc), max(hi, loc)

    def value(self, n):
        if n in self.val:
            v = self.val[n]
            if n in self.busy:
                raise Cycle()
            self.busy.add(n)
            a = self.value(v[1])
            res = (a[0], a[1] + v[2]) if v[0] == 'rel' else a[1] - self.value(v[2])[1] + v[3]
            self.busy.discard(n)
            return res
        l, i, d = self.where[n]
        if d == 'start':
            s = self.ops[l][i - 1]
            loc = self.loc(l, i - 1)[0]
            if s['k'] == 'mach':
                return self.section(l), la.up(loc, 2)
            return self.section(l), la.place(loc, self.dsops(s))[0]
        return self.section(l), self.loc(l, i)[0] + d


def run(case, env):
    src = Src()
    for n in case['before']:
        src.stmt(n, 'EQU', str(SYMS[n]))
    m = Model(case)
    try:
        exp = {n: m.value(n) for n in list(m.where) + list(m.val)}
        for l in m.ops:
            m.loc(l, len(m.ops[l]))
    except Cycle:
        return {'nontrivial': False, 'labels': ['discarded']}
    refs = m.refs
    moved = 0
    ok = []
    for s in case['st']:
        k = s['k']
        if k == 'sect':
            ok.append(src.stmt(s['n'], s['op']))
        elif k == 'loctr':
            ok.append(src.stmt(s['n'], 'LOCTR'))
        elif k == 'ds':
            ops = s['ops']
            if s['ref'] is not None and refs:
                ops = [dict(ops[0], dup=[0, '(%s)' % refs[s['ref'] % len(refs)]])] + ops[1:]
            ok.append(src.stmt(s['lab'], s['op'], ','.join(la.write_op(o) for o in ops)))
        elif k == 'mach':
            ok.append(src.stmt(s['lab'], s['m'][0], s['m'][1]))
        elif k == 'equ':
            ok.append(src.stmt(s['lab'], 'EQU', s['to'] + ('%+d' % s['d'] if s['d'] else '')))
        elif k == 'diff':
            ok.append(src.stmt(s['lab'], 'EQU', '%s-%s%+d' % (s['a'], s['b'], s['d'])))
        else:
            x = (s['to'] + ('%+d' % s['d'] if s['d'] else '') + ('+' + s['sym'] if s['sym'] else '')) if s['to'] else ''
            if s['b'] or s['o']:
                x += ',' + (str(s['b']) if s['b'] else '') + (',%d' % s['o'] if s['o'] else '')
            ok.append(src.stmt(s['lab'], 'ORG', x or ','))
            moved += 1
    for n in SYMS:
        if n not in case['before']:
            src.stmt(n, 'EQU', str(SYMS[n]))
    src.stmt('REL', 'CSECT')
    src.stmt('REL2', 'DS', 'F')
    wrong = []
    for i, b in enumerate(case['bad']):
        src.stmt('ZS%d' % i, 'CSECT')
        src.stmt('ZL%d' % i, 'DS', 'CL4')
        w = {'orgabs': ('', 'ORG', '5'), 'orgother': ('', 'ORG', 'REL2'), 'orglow': ('', 'ORG', 'ZL%d-1' % i), 'loctrdup': ('ZL%d' % i, 'LOCTR', ''), 'sectdup': ('ZL%d' % i, 'CSECT', ''),
             'sectkind': ('REL', 'DSECT', ''), 'bound': ('', 'ORG', 'ZL%d,3' % i), 'labdup': ('ZL%d' % i, 'DS', 'F'), 'orgcomplex': ('', 'ORG', 'ZL%d+REL2' % i)}[b]
        wrong.append(src.stmt(*w))
        src.stmt('ZA%d' % i, 'DS', 'C')
    text = src.text()
    out = env.drv('drv_an').call({'text': text, 'syms': list(exp) + ['ZA%d' % i for i in range(len(case['bad']))]})
    for k in ok:
        e = diags_in(out['diags'], src.spans[k], sev=1)
        if e:
            raise Violation('a valid statement is reported\n%s\n%s' % (e[0], text))
    for k, b in zip(wrong, case['bad']):
        if not diags_in(out['diags'], src.spans[k], sev=1):
            raise Violation('a wrong statement (%s) is not reported\n%s\n%s' % (b, src.lines[src.spans[k][0]], text))
    for n, v in exp.items():
        s = out['syms'].get(n)
        if isinstance(v, int):
            if not s or s['k'] != 'A' or s['v'] != v:
                raise Violation('value of %s is %s, expected %d\n%s' % (n, s, v, text))
        elif not s or s['k'] != 'R' or s['v'] != v[1] or s['b'] != {v[0]: 1} or s['u']:
            raise Violation('address of %s is %s, expected %s\n%s' % (n, s, v, text))
    sw = sum(s['k'] in ('sect', 'loctr') for s in case['st']) - len(m.ops)
    return {'nontrivial': len(exp) >= 10 and (sw >= 2 or moved > 0), 'sample': text,
            'labels': ['org'] * bool(moved) + ['loctr'] * any(s['k'] == 'loctr' for s in case['st']) + ['bad ' + b for b in case['bad']]
            + ['later length'] * any(s.get('ref') is not None for s in case['st']) * bool(refs)}
