"""C15: operands of machine instructions."""
import json, os
from vf import Violation, V
from hl import Src, diags_in

TARGETS = ['drv_an']
FAST = True
TECHNIQUE = 'property-based testing: generated machine statements with exactly one or no violated operand rule against a table of instruction formats; several spellings of each value'
EXAMPLES = {'quick': 24000, 'thorough': 600000}
RULE = ('case = up to eight statements of instructions and extended mnemonics drawn from the whole table, each with operands in range (biased to the bounds) or with exactly one violated rule, each value spelled as '
        'a decimal, hexadecimal or binary term, an expression, a symbol defined before or after, a SET symbol or a macro parameter; oracle = the format table: error on exactly the wrong statements, and the '
        'distance of the labels around; non-trivial = three statements of which one is wrong or one uses a symbol or variable')
ASSUMPTIONS = ['operand counts, kinds and ranges of the format table lib/instr.json', 'vector registers from 16 to 31 are not generated (known finding)', 'relocatable operands only where an address or a relative operand is expected']
T = json.load(open(os.path.join(V, 'lib/instr.json')))
NAMES = sorted(T['mach']) + sorted(T['mnem'])


def rng(p):
    """bounds of a part such as R4, I16S, D20S, L8"""
    k = p.rstrip('0123456789S')
    n = int(p[len(k):].rstrip('S'))
    if k == 'L':
        return 0, 1 << n
    if p.endswith('S'):
        return -(1 << n - 1) + (n == 32), (1 << n - 1) - 1
    return 0, (1 << n) - 1


def form(name):
    """(length in bytes, operand formats to be written, how many of them may be left out)"""
    if name in T['mach']:
        n, opt, ops = T['mach'][name]
        return n, ops, opt
    base, rep = T['mnem'][name]
    n, opt, ops = T['mach'][base]
    at = {p for p, v in rep}
    keep = [i for i in range(len(ops)) if i not in at]
    return n, [ops[i] for i in keep], sum(i >= len(ops) - opt for i in keep)


def inside(r, p):
    lo, hi = rng(p)
    return r.weighted([(2, lo), (3, hi), (2, min(hi, max(lo, r.pick([0, 1, 2, 15, 100])))), (2, r.int(lo, hi))])


def outside(r, p):
    lo, hi = rng(p)
    c = [lo - 1] + ([hi + 1] if not p.startswith('V') else [32]) + [lo - 1000, hi + 1000]
    return r.pick([x for x in c if -(1 << 31) < x < (1 << 31)])


def value(r, v):
    """how a value is written: [kind, value, detail]"""
    k = r.weighted([(6, 'dec'), (2, 'hex'), (1, 'bin'), (2, 'expr'), (2, 'before'), (2, 'after'), (2, 'set'), (2, 'par'), (1, 'chr')])
    if v < 0 and k in ('hex', 'bin', 'chr') or k == 'chr' and v != 0xC1 or k == 'bin' and v > 65535:
        k = 'dec'
    return [k, v, r.int(1, 9)]


def address(r, f, disp=None, idx='', base='', shape=None):
    """an address operand: ['a', displacement, first or None, second or None]"""
    d, x, b = f.split(' ')
    disp = inside(r, d) if disp is None else disp
    if x == '-':
        shape = shape or r.pick(['D', 'D(B)'])
    else:
        shape = shape or r.pick(['D', 'D(X)', 'D(,B)', 'D(X,B)'])
    xx = value(r, inside(r, x) if idx == '' else idx) if 'X' in shape else None
    bb = value(r, inside(r, b) if base == '' else base) if 'B' in shape else None
    return ['a', shape, value(r, disp), xx, bb]


def good(r, f):
    if ' ' in f:
        if r.chance(7):
            return ['lab']
        return address(r, f)
    if f.startswith('RI') and r.chance(25):
        return ['lab']
    return ['v', value(r, inside(r, f))]


def gen_stmt(r):
    name = r.pick(NAMES)
    n, ops, opt = form(name)
    k = len(ops) - (r.int(0, opt) if r.chance(50) else 0)
    st = [good(r, f) for f in ops[:k]]
    bad = None
    if ops and r.chance(45):
        i = r.int(0, k - 1) if k else 0
        kinds = ['extra']
        if len(ops) - opt > 0:
            kinds += ['missing', 'empty']
        if k:
            f = ops[i]
            if ' ' in f:
                kinds += ['disp', 'base', 'trail'] + (['idx', 'idx1'] if f.split(' ')[1] != '-' else ['two'])
            else:
                kinds += ['value', 'value', 'value', 'addr']
        bad = r.pick(kinds)
        if bad == 'extra':
            st = [good(r, f) for f in ops] + [['v', ['dec', 0, 1]]]
        elif bad == 'missing':
            st = st[:len(ops) - opt - 1]
            if not st:
                bad = None
                st = [good(r, f) for f in ops]
        elif bad == 'empty':
            j = r.int(0, len(ops) - opt - 1)
            if j == 0 and len(st) == 1:
                bad = None
            else:
                st[j] = ['e']
        elif bad == 'disp':
            st[i] = address(r, f, disp=outside(r, f.split(' ')[0]))
        elif bad == 'base':
            st[i] = address(r, f, base=outside(r, 'B4'), shape=r.pick(['D(,B)', 'D(X,B)']) if f.split(' ')[1] != '-' else 'D(B)')
        elif bad in ('idx', 'idx1'):
            st[i] = address(r, f, idx=outside(r, f.split(' ')[1]), shape='D(X)' if bad == 'idx1' else 'D(X,B)')
        elif bad == 'two':
            st[i] = ['a', 'D(X,B)', value(r, 0), value(r, 1), value(r, 2)]
        elif bad == 'trail':
            st[i] = ['a', 'D(X,)', value(r, 0), value(r, 1), None]
        elif bad == 'value':
            if f in ('I32S', 'RI32S'):
                bad = None
            else:
                st[i] = ['v', value(r, outside(r, f))]
        elif bad == 'addr':
            st[i] = ['a', 'D(X,B)', value(r, 0), value(r, 1), value(r, 2)]
    return {'n': name, 'ops': st, 'bad': bad, 'odd': r.chance(20), 'lc': r.chance(15)}


def gen(r, tier):
    return {'st': r.list(1, 8, lambda: gen_stmt(r)), 'macro': r.chance(40)}


class Writer:
    def __init__(self, macro):
        self.macro = macro
        self.before, self.after, self.sets, self.pars = {}, {}, {}, {}

    def val(self, v):
        k, n, d = v
        if k == 'hex':
            return "X'%X'" % n
        if k == 'bin':
            return "B'%s'" % bin(n)[2:]
        if k == 'chr':
            return "C'A'"
        if k == 'expr':
            return ['%d+%d' % (n - d, d) if n >= d else '%d-%d' % (n + d, d) if n >= 0 else '0-%d' % -n, '%d*%d/%d' % (n, d, d) if 0 <= n < 2 ** 27 else '%d' % n][d % 2]
        if k == 'before':
            return self.before.setdefault(n, 'B%d' % len(self.before))
        if k == 'after':
            return self.after.setdefault(n, 'A%d' % len(self.after))
        if k == 'set' or k == 'par' and not self.macro:
            return '&' + self.sets.setdefault(n, 'S%d' % len(self.sets))
        if k == 'par':
            return '&' + self.pars.setdefault(n, 'P%d' % len(self.pars))
        return str(n)

    def op(self, o):
        if o[0] == 'e':
            return ''
        if o[0] == 'lab':
            return 'TARGET'
        if o[0] == 'v':
            return self.val(o[1])
        d = self.val(o[2])
        if d.startswith('&') and o[1] != 'D':
            d += '.'
        x = self.val(o[3]) if o[3] else ''
        b = self.val(o[4]) if o[4] else ''
        return {'D': d, 'D(X)': '%s(%s)' % (d, x), 'D(B)': '%s(%s)' % (d, b), 'D(,B)': '%s(,%s)' % (d, b), 'D(X,B)': '%s(%s,%s)' % (d, x, b), 'D(X,)': '%s(%s,)' % (d, x)}[o[1]]


def run(case, env):
    w = Writer(case['macro'])
    body = [(s, ','.join(w.op(o) for o in s['ops'])) for s in case['st']]
    src = Src()
    for n, x in w.before.items():
        src.stmt(x, 'EQU', str(n))
    if case['macro']:
        src.stmt('', 'MACRO')
        src.stmt('', 'TESTER', ','.join('&' + x for x in w.pars.values()))
    for n, x in w.sets.items():
        src.stmt('&' + x, 'SETC' if n < 0 else 'SETA', "'%d'" % n if n < 0 else str(n))
    idx = []
    src.stmt('TARGET', 'DS', '0H')
    for i, (s, t) in enumerate(body):
        if s['odd']:
            src.stmt('', 'DS', 'C')
        idx.append(src.stmt('L%d' % i, s['n'].lower() if s['lc'] else s['n'], t))
        src.stmt('E%d' % i, 'DS', '0C')
    if case['macro']:
        src.stmt('', 'MEND')
        src.stmt('', 'TESTER', ','.join(str(n) for n in w.pars))
    for n, x in w.after.items():
        src.stmt(x, 'EQU', str(n))
    text = src.text()
    out = env.drv('drv_an').call({'text': text, 'syms': [a + str(i) for i in range(len(body)) for a in 'LE']})
    at = 0
    for i, (s, t) in enumerate(body):
        e = diags_in(out['diags'], src.spans[idx[i]])
        if s['bad'] is None and e:
            raise Violation('valid operands are reported: %s %s\n%s\n%s' % (s['n'], t, e[0], text))
        if s['bad'] and not any(d['sev'] == 1 for d in e):
            raise Violation('wrong operands (%s) are not reported: %s %s (format %s)\n%s' % (s['bad'], s['n'], t, form(s['n'])[1], text))
        at += s['odd']
        at += at % 2
        a, b = out['syms'].get('L%d' % i), out['syms'].get('E%d' % i)
        n = form(s['n'])[0]
        if not a or not b or a['k'] != 'R' or b['k'] != 'R' or a['v'] != at or b['v'] != at + n:
            raise Violation('%s is at %s to %s, expected %d to %d\n%s' % (s['n'], a and a.get('v'), b and b.get('v'), at, at + n, text))
        if a['L'] != n or a['T'] != 'I':
            raise Violation('the label of %s has length %s and type %s\n%s' % (s['n'], a['L'], a['T'], text))
        at += n
    return {'nontrivial': len(body) >= 3 and (any(s['bad'] for s in case['st']) or bool(w.before or w.after or w.sets or w.pars)), 'sample': text,
            'labels': ['wrong ' + s['bad'] for s in case['st'] if s['bad']] + ['macro'] * case['macro']}
