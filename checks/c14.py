"""C14: data definitions."""
from vf import Violation
from hl import Src, diags_in
import layout as la

TARGETS = ['drv_an']
FAST = True
TECHNIQUE = 'property-based testing: generated data definitions against a reference model of the type table'
EXAMPLES = {'quick': 4200, 'thorough': 60000}
RULE = ('case = up to 12 DC/DS statements of one to four operands over all 37 types with duplication factors, byte and bit lengths, scale and exponent modifiers '
        '(literal, symbolic, defined before or after), nominal values, starting at a misaligned location, and up to three statements with exactly one violated rule; '
        'oracle = a table-driven model of length, alignment and attributes, and the presence of an error on exactly the wrong statements; non-trivial = four or more '
        'operands of which one has an explicit length or a bit length or several values')
ASSUMPTIONS = ['limits and alignments per type as documented in the type table of the code (QD aligned to a quadword)', 'nominal values fit the field; (MAX), (MIN), (INF) special floating-point values are not used']
SYMS = {'NA': 3, 'NB': 1, 'NC': 8, 'ND': 16}


def bad(r):
    """a statement with one violated rule: (op, operand text)"""
    ds = r.chance(40)
    k = r.pick(['len0', 'lenhi', 'bitna', 'bithi', 'sc', 'schi', 'ex', 'exhi', 'dup', 'nonom', 'form', 'char', 'ext', 'type', 'odd', 'disp', 'single', 'empty'])
    T = la.TYPES
    if k in ('nonom', 'empty'):
        ds = False

    def good(t, ds):
        return la.write_nominal(t, la.nominal(r, t)) if not ds or r.chance(50) else ''
    absn = lambda t: "(1)" if T[t][7] == 'A' else None
    if k in ('len0', 'lenhi'):
        t = r.pick([x for x in la.NAMES if T[x][7] != 'A' or not ds])
        if k == 'len0':
            n = 0
        else:
            b = T[t][2]
            n = (T[t][3] if ds and T[t][3] else b[-1]) + (2 if t in ('CU', 'G') else 1)
        x = t + 'L%d' % n + (absn(t) or good(t, ds))
    elif k == 'bitna':
        t = r.pick([x for x in la.NAMES if T[x][4] is None])
        x = t + 'L.8' + good(t, ds)
    elif k == 'bithi':
        t = r.pick([x for x in la.NAMES if T[x][4] and not (T[x][7] == 'A' and ds)])
        lo, hi = T[t][4]
        n = hi + 1
        if ds and T[t][3] and t in ('C', 'CA', 'CE', 'X'):
            n = T[t][3] * 8 + 1
        elif lo > 1 and r.chance(40):
            n = lo - 1
        x = t + 'L.%d' % n + (absn(t) or good(t, ds))
    elif k == 'sc':
        t = r.pick([x for x in la.NAMES if T[x][5] is None])
        x = t + 'S1' + good(t, ds)
    elif k == 'schi':
        t = r.pick([x for x in la.NAMES if T[x][5] and T[x][5] != 'ign'])
        x = t + r.pick(['S%d' % (T[t][5][1] + 1), 'S(%d)' % (T[t][5][0] - 1)]) + good(t, ds)
    elif k == 'ex':
        t = r.pick([x for x in la.NAMES if T[x][6] is None and x not in ('C',)])
        x = t + 'L4E1' + good(t, ds) if False else t + 'E1' + good(t, ds)
        if t == 'C':
            x = 'XE1' + good('X', ds)
    elif k == 'exhi':
        t = r.pick([x for x in la.NAMES if T[x][6]])
        x = t + r.pick(['E76', 'E(-86)']) + good(t, ds)
    elif k == 'dup':
        t = r.pick(la.NAMES)
        x = '(-1)' + t + good(t, ds)
    elif k == 'nonom':
        t = r.pick(la.NAMES)
        x = r.pick(['', '2']) + t
    elif k == 'form':
        t = r.pick(la.NAMES)
        x = t + ("'1'" if T[t][7] in 'ASV' else '(1)')
    elif k in ('char', 'empty'):
        kk = {'char': {'B': ['2', '01A', '1,,0', ',1', '1,'], 'X': ['G', '0X', 'A,,B', 'A,'], 'F': ['A', '1A', '1..2', '1,', ',1', '+', '1E', '--1'], 'P': ['A', '1E1', '1.2.3', '1,', '+'],
                       'E': ['A', '1..', '1E', '1,', '-']},
              'empty': {'B': [''], 'X': [''], 'F': [''], 'P': [''], 'E': ['']}}[k]
        t = r.pick([x for x in la.NAMES if T[x][7] in kk])
        x = t + "'" + r.pick(kk[T[t][7]]) + "'"
    elif k == 'ext':
        x = r.pick(["XD'1'", "BA'1'", "PD'1'", "HD'1'", "YD(1)", "FH'1'", "VY(REL)", "AY(1)"])
    elif k == 'type':
        x = r.pick(["K'1'", "I'1'", "M(1)", "N'1'", "T'1'", "W'1'"])
        if x[0] in 'NITK':
            x = "W'1'"
    elif k == 'odd':
        t = r.pick(['CU', 'G'])
        x = t + 'L%d' % r.pick([1, 3, 255]) + good(t, True)
    elif k == 'disp':
        x = r.pick(['S(4096(1))', 'S(0(16))', 'S(4096)', 'SY(524288(1))', 'SY(-524289(1))', 'SY(0(16))'])
    else:
        x = r.pick(['R(REL+1)', 'Q(1)', 'V(REL+1)', 'VD(2)', 'J(REL-1)', 'RD(1)'])
    return {'k': k, 'i': 'DS' if ds else 'DC', 'x': x, 'pos': r.int(0, 2)}


def gen(r, tier):
    before = {k for k in SYMS if r.chance(60)}
    st = []
    for _ in range(r.int(2, 12)):
        ds = r.chance(45)
        ops = r.list(1, 4, lambda: la.operand(r, ds, SYMS, la.SIMPLE if r.chance(50) else None))
        st.append({'i': 'DS' if ds else 'DC', 'ops': ops})
    return {'before': sorted(before), 'start': r.int(0, 9), 'st': st, 'bad': r.list(0, 3, lambda: bad(r)), 'case': r.chance(15)}


def run(case, env):
    src = Src()
    src.stmt('SECT', 'CSECT')
    src.stmt('REL', 'DS', '0D')
    src.stmt('REL2', 'EQU', 'REL+8')
    for n in case['before']:
        src.stmt(n, 'EQU', str(SYMS[n]))
    loc = case['start']
    if loc:
        src.stmt('', 'DS', 'CL%d' % loc)
    exp, ok = [], []
    for i, s in enumerate(case['st']):
        t = ','.join(la.write_op(o) for o in s['ops'])
        if case['case'] and "L'REL" not in t:  # letters outside of quotes in lower case
            q = t.split("'")
            t = "'".join(x.lower() if j % 2 == 0 else x for j, x in enumerate(q))
        ok.append(src.stmt('L%d' % i, s['i'], t))
        adr, loc = la.place(loc, s['ops'])
        a = la.attrs(s['ops'][0])
        if any(m and any(n not in case['before'] and n in m[1] for n in SYMS) for m in (s['ops'][0]['len'], s['ops'][0]['sc'])):
            a['I'] = None  # known finding: computed before the modifier is known
        exp.append((adr, a))
    src.stmt('LEND', 'DS', '0C')
    wrong = []
    for i, b in enumerate(case['bad']):
        src.stmt('B%d' % i, 'CSECT')
        ops = ["F'1'", "C'A'"]
        ops.insert(b['pos'], b['x'])
        wrong.append(src.stmt('', b['i'], ','.join(ops)))
    for n in SYMS:
        if n not in case['before']:
            src.stmt(n, 'EQU', str(SYMS[n]))
    text = src.text()
    out = env.drv('drv_an').call({'text': text, 'syms': ['L%d' % i for i in range(len(exp))] + ['LEND']})
    for k in ok:
        e = diags_in(out['diags'], src.spans[k], sev=1)
        if e:
            raise Violation('a valid data definition is reported\n%s\n%s' % (e[0], text))
    for k, b in zip(wrong, case['bad']):
        if not diags_in(out['diags'], src.spans[k], sev=1):
            raise Violation('a wrong data definition (%s) is not reported\n%s\n%s' % (b['k'], src.lines[src.spans[k][0]], text))
    for i, (adr, at) in enumerate(exp + [(loc, None)]):
        n = 'L%d' % i if at else 'LEND'
        s = out['syms'][n]
        if not s or s['k'] != 'R' or s['v'] != adr or s['u']:
            raise Violation('address of %s is %s, expected %d\n%s' % (n, s, adr, text))
        if at is None:
            break
        for a in 'TLSI':
            if at[a] is None or (a in 'SI' and at['T'] not in 'DEFGHKLPZ'):
                continue
            if s.get(a) is None or (s[a] - at[a]) % 2**32 if a == 'I' else s.get(a) != at[a]:
                raise Violation("%s'%s is %r, expected %r\n%s" % (a, n, s.get(a), at[a], text))
    allops = [o for s in case['st'] for o in s['ops']]
    return {'nontrivial': len(allops) >= 4 and any(o['len'] or (o['nom'] and len(o['nom']) > 1) for o in allops), 'sample': text,
            'labels': ['type ' + o['t'] for o in allops] + ['bad ' + b['k'] for b in case['bad']] + (['bit length'] if any(o['bit'] for o in allops) else [])}
