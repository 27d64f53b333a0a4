"""C12: macro call operands against a text-level model of HLASM macro parameters."""
from vf import Violation
from hl import Src, quote

TARGETS = ['drv_an']
FAST = True
TECHNIQUE = 'property-based testing: generated macro prototypes and calls against a text-level reference model'
EXAMPLES = {'quick': 4500, 'thorough': 200000}
RULE = ('case = a macro prototype (name field, positional, omitted, keyword parameters with defaults), a call with nested sublists, strings, attribute quotes, literals, variable symbols and continuation lines, and inner '
        'calls that pass the parameters on; oracle = a model that splits the substituted operand text; every parameter and &SYSLIST is read at many subscripts with its N\', K\' and T\'; non-trivial = some operand has a sublist or a string or a variable symbol, and ten or more values are compared')
ASSUMPTIONS = ['no ampersand in operand text other than variable symbols', 'a variable symbol inside a sublist has a value without commas, parentheses and quotes', 'empty parentheses are not written']

SYMS = {'LH': ('H', 2), 'LF': ('F', 4), 'LC': ('C', 3)}  # ordinary symbols known before the call
SIMPLE = ['A', 'X9', 'lh', 'LF', '12', '', 'B+1', '*', '#$']


# ----------------------------------------------------------------- generator: operands as lists of pieces: str or ['v', name]
def atom(r, d):
    k = r.weighted([(6, 'id'), (2, 'num'), (3, 'sp'), (3, 'str'), (1, 'attr'), (2, 'sd'), (2, 'call'), (1, 'sym')])
    if k == 'id':
        return r.text('ABCxyz019', 1, 4)
    if k == 'num':
        return str(r.int(0, 300))
    if k == 'sp':
        return r.pick(['A+1', '*', '*+4', '-1', 'A.B', '$#@', 'A-B', '#', '<A>', 'A/2', '_x', 'A*B', '+', '.A', 'A|B', '?', ':', 'A;B', '%x', '!', '"'])
    if k == 'str':
        return "'" + r.pick(['', 'A', 'A,B', ')', '(', 'A B', ' ', "''", "A''B", '(A,B)', ',', "),''(", 'x=y', "''''"]) + "'"
    if k == 'attr':
        return r.pick(["L'", "T'", "l'"]) + r.pick(['LH', 'LF'])
    if k == 'sd':
        return r.pick(["C'A'", "X'1F'", "B'101'", "C'A,B'", "C'('", "c'''x'", "CL2'x y'", "A'x'", "3X'0'"])
    if k == 'call':
        return r.pick(['A', '8', '', "C'x'"]) + '(' + ','.join(elem_text(r, d + 2) for _ in range(r.int(1, 2))) + ')' + r.pick(['', 'B', '(1)', "'q)'"]) if d < 2 else 'D'
    return r.pick(list(SYMS))


def elem_text(r, d):
    """text of an element, no variable symbols; never just '()'"""
    k = r.weighted([(5, 'a'), (1, 'aa'), (1, 'e'), (3 if d < 3 else 0, 's'), (1, '=')])
    if k == 'a':
        return atom(r, d)
    if k == 'aa':
        return atom(r, d) + '/' + atom(r, d)
    if k == 'e':
        return '' if d == 0 else 'E'
    if k == '=':
        return r.pick(["=F'1'", "=C'A,B'", "=A(1,2)", "=X'0'"])
    return sub_text(r, d)


def sub_text(r, d):
    xs = r.list(1, 3, lambda: '' if r.chance(15) else elem_text(r, d + 1))
    if xs == ['']:
        xs = ['A']
    return '(' + ','.join(xs) + ')'


def operand(r, vs):
    """pieces of an operand without a leading keyword"""
    k = r.weighted([(5, 'text'), (4, 'sub'), (2, 'var'), (3, 'conc'), (2, 'subv'), (2, 'empty'), (1, 'par')])
    if k == 'text':
        return [elem_text(r, 0)]
    if k == 'sub':
        return [sub_text(r, 0)]
    if k == 'var':
        return [['v', r.pick(vs)]]
    if k == 'conc':
        def p():
            return r.pick(['A', '1', 'x', "'q,'", '+', '(A,B)C']) if r.chance(50) else ['v', r.pick(['V1', 'V2'])]
        return r.list(1, 3, p)
    if k == 'subv':
        def p():
            return [r.pick(['A', '12', "'x,y'", ''])] if r.chance(50) else [r.pick(['A', '1', '']), ['v', r.pick(['V1', 'V2'])], r.pick(['', 'B', '+'])]
        out = ['(']
        xs = r.list(1, 3, p)
        if all(x == [''] for x in xs):
            xs = [['A']]
        for i, x in enumerate(xs):
            out += ([','] if i else []) + x
        return out + [')']
    if k == 'par':
        return [r.pick(['(A)(B)', '(A)B', '(A,B)C', '(A)+(B)', "(A)'x'", '(A,B)(C,D)', "('a)',B)", '(A(1),B)', '((A))', "(L'LH,B)", "(L'LH)", "(A'x,y',B)", '(A,)', '(,A)', '(,)', '(A,,B)', '((A,),B)', '((A,B)C,D)', "((A)'x,y',D)", "((A,B),(C,D))"])]
    return []


def call(r, keys, vs, npos):
    n = r.int(0, npos + 2)
    ops = [['p', operand(r, vs)] for _ in range(n)]
    for k in keys:
        if r.chance(50):
            ops.insert(r.int(0, len(ops)), ['k', k, operand(r, vs)])
    if r.chance(8):
        ops.insert(r.int(0, len(ops)), ['u', r.pick(['UK', 'Zed']), operand(r, ['V1', 'V2'])])
    while ops and ops[-1][0] == 'p' and all(x == '' for x in ops[-1][1]):
        ops.pop()
    return {'lab': r.weighted([(3, None), (2, 'NM'), (1, '.SQ'), (1, ['v', 'V4'])]), 'ops': ops, 'lay': [r.int(0, 9) for _ in ops], 'rem': r.chance(30)}


def reads(r, names, n):
    def subs():
        return r.list(1, 3, lambda: r.int(1, 4))

    def one():
        k = r.pick(['V', 'V', 'N', 'K', 'T'])
        nm = r.pick(names)
        s = [] if r.chance(30) and nm != 'SYSLIST' else subs()
        if nm == 'SYSLIST':
            if k == 'N' and r.chance(30):
                s = []
            elif r.chance(15) and k != 'N':
                s = [0]
            elif s:
                s[0] = r.int(1, 5)
        if nm == 'AR':
            s = [] if k == 'N' else [r.int(1, 4)]
        return [k, nm, s, r.chance(20)]
    return r.list(1, n, one)


def macro(r, tag):
    npos = r.int(0, 4)
    ps = []
    for i in range(npos):
        ps.append(None if r.chance(12) else 'P%d' % (i + 1))
    keys = ['K%d' % i for i in range(r.int(0, 3))]
    proto = [['p', p] for p in ps]
    for k in keys:
        proto.insert(r.int(0, len(proto)), ['k', k, r.weighted([(2, ''), (2, 'D'), (1, "'a,b'"), (2, '(X,Y)'), (1, "((1,2),3)"), (1, "(A,'x,y')"), (1, '(A,)'), (1, "L'LF"), (1, "=F'1'")])])
    while proto and proto[-1] == ['p', None]:
        proto.pop()
    ps = [x[1] for x in proto if x[0] == 'p']
    names = [p for p in ps if p] + keys + ['SYSLIST'] * 2 + ['AR']
    lab = r.chance(60)
    if lab:
        names.append('LAB')
    return {'n': tag, 'lab': lab, 'proto': proto, 'reads': reads(r, names, 16), 'ar': [None if r.chance(30) else r.pick(SIMPLE) for _ in range(r.int(0, 3))] + [r.pick(SIMPLE)]}


def gen(r, tier):
    m = macro(r, 'OUT')
    inner = macro(r, 'INN')
    outer_vs = ['V1', 'V2', 'V3', 'V4']
    pn = [x[1] for x in m['proto'] if x[1]]
    inner_call = call(r, [x[1] for x in inner['proto'] if x[0] == 'k'], pn + ['V1'] if pn else ['V1'], 4)
    if inner_call['lab'] == ['v', 'V4']:
        inner_call['lab'] = None
    m['inner'] = [inner_call] if r.chance(60) else []
    return {'v': {'V1': r.pick(SIMPLE), 'V2': r.pick(SIMPLE), 'V3': r.pick(['', 'A,B']) if r.chance(20) else '' .join(x for x in operand_text(r)), 'V4': r.pick(['NMX', '@L1', ''])},
            'out': m, 'inn': inner, 'calls': r.list(1, 2, lambda: call(r, [x[1] for x in m['proto'] if x[0] == 'k'], outer_vs, 4)), 'lib': r.chance(30)}


def operand_text(r):
    return [sub_text(r, 0)] if r.chance(70) else [elem_text(r, 0)]


# --------------------------------------------------------------------------- model
class Sub(list):
    pass


def split_top(t):
    """elements of a text at top-level commas, or None when quotes or parentheses do not match"""
    out, cur, depth, i = [], '', 0, 0
    while i < len(t):
        c = t[i]
        if c == "'":
            if attr_quote(t, i):
                cur += c
                i += 1
                continue
            j = t.find("'", i + 1)
            if j < 0:
                return None
            cur += t[i:j + 1]
            i = j + 1
            continue
        if c == '(':
            depth += 1
        elif c == ')':
            depth -= 1
            if depth < 0:
                return None
        if c == ',' and depth == 0:
            out.append(cur)
            cur = ''
        else:
            cur += c
        i += 1
    return None if depth else out + [cur]


def attr_quote(t, i):
    """an apostrophe of an attribute reference: a single attribute letter before it, and a symbol after it"""
    return i > 0 and t[i - 1].upper() in 'LTISDONK' and not (i > 1 and (t[i - 2].isalnum() or t[i - 2] in '$#@_')) and i + 1 < len(t) and (t[i + 1].isalpha() or t[i + 1] in '$#@_&')


def closes_at_end(t):
    if not (t.startswith('(') and t.endswith(')')):
        return False
    return split_top(t[1:-1]) is not None and not crosses(t)


def crosses(t):
    """the parenthesis opened first is closed before the end, as in (A)(B)"""
    depth, i = 0, 0
    while i < len(t):
        c = t[i]
        if c == "'" and not attr_quote(t, i):
            j = t.find("'", i + 1)
            if j < 0:
                return True
            i = j + 1
            continue
        if c == '(':
            depth += 1
        elif c == ')':
            depth -= 1
            if depth == 0 and i != len(t) - 1:
                return True
        i += 1
    return False


def sel(t, subs):
    """text of the element of t selected by subscripts"""
    for s in subs:
        if closes_at_end(t):
            xs = split_top(t[1:-1])
            t = xs[s - 1] if s <= len(xs) else ''
        else:
            t = t if s == 1 else ''
    return t


def num(t):
    if closes_at_end(t):
        return len(split_top(t[1:-1]))
    return 1 if t else 0


class Skip(Exception):
    pass


def typ(t):
    while closes_at_end(t):
        t = split_top(t[1:-1])[0]
    if not t:
        return 'O'
    if t.isdigit():
        return 'N' if int(t) < 2 ** 31 else None
    if t.upper() in SYMS:
        return SYMS[t.upper()][0]
    if t.upper() in ('NM', 'NMX'):
        return None  # name of a macro call
    if t.isalnum() and t[0].isalpha():
        return 'U'
    if t in ("C'A'", "X'1F'", "B'101'"):
        return 'N'
    return None  # not decided


def subst(pieces, env):
    return ''.join(p if isinstance(p, str) else env[p[1]] for p in pieces)


def write(pieces):
    out = ''
    for p in pieces:
        if isinstance(p, str):
            # an unambiguous end of the variable's name
            if out.endswith('\0'):
                out = out[:-1] + ('.' if p and (p[0].isalnum() or p[0] in '.($#@_') else '')
            out += p
        else:
            out = out.rstrip('\0') + '&' + p[1] + '\0'
    return out.replace('\0', '')


def layout(src, head, ops, c):
    """writes the operands; a break in the alternate format may follow a comma"""
    lines, cur = [], head
    first = True
    for i, o in enumerate(ops):
        t = o + (',' if i < len(ops) - 1 else '')
        brk = i > 0 and c['lay'][i] < 2 and len(cur) <= 70 and cur.endswith(',')
        if brk:
            rem = ' REMARK' if c['rem'] and len(cur) <= 60 else ''
            lines.append(('%-71s' % (cur + rem)) + 'X')
            cur = ' ' * 15
        cur += t
        while len(cur) > 71:
            lines.append(cur[:71] + 'X')
            cur = ' ' * 15 + cur[71:]
    if cur.strip() or not lines:
        lines.append(cur)
    else:
        return None
    for l in lines:
        src.raw(l)
    return True


class Run:
    def __init__(self, case):
        self.case, self.exp, self.ndx, self.w014 = case, [], 0, 0

    def invoke(self, mac, c, env, depth):
        self.ndx += 1
        ndx = self.ndx
        lab = c['lab']
        labt = '' if lab is None or lab == '.SQ' else lab if isinstance(lab, str) else env[lab[1]]
        pos, keys = [], {}
        for o in c['ops']:
            if o[0] == 'p':
                pos.append(subst(o[1], env))
            elif o[0] == 'k':
                keys[o[1]] = subst(o[2], env)
            else:
                self.w014 += 1
                pos.append(o[1] + '=' + subst(o[2], env))
        val = {'LAB': labt}
        i = 0
        for p in mac['proto']:
            if p[0] == 'p':
                if p[1]:
                    val[p[1]] = pos[i] if i < len(pos) else ''
                i += 1
            else:
                val[p[1]] = keys.get(p[1], p[2])
        self.exp.append(('X', ndx))
        self.exp.append(('N', str(depth)))
        for k, nm, s, dyn in mac['reads']:
            if nm == 'SYSLIST':
                if not s:
                    self.exp.append((k, str(len(pos))))
                    continue
                t = labt if s[0] == 0 else pos[s[0] - 1] if s[0] <= len(pos) else ''
                t = sel(t, s[1:])
            elif nm == 'AR':
                if not s:
                    self.exp.append((k, str(len(mac['ar']))))
                    continue
                t = (mac['ar'][s[0] - 1] if s[0] <= len(mac['ar']) else '') or ''
            else:
                t = sel(val[nm], s)
            v = t if k == 'V' else str(num(t)) if k == 'N' else str(len(t)) if k == 'K' else typ(t)
            self.exp.append((k, v))
        for ic in mac.get('inner', ()):
            self.invoke(self.case['inn'], ic, dict(val, V1=self.case['v']['V1'], V2=self.case['v']['V2']), depth + 1)


def emit_macro(src, m, case):
    src.stmt('', 'MACRO')
    src.stmt('&LAB' if m['lab'] else '', m['n'], ','.join(('&' + p[1] if p[1] else '') if p[0] == 'p' else '&%s=%s' % (p[1], p[2]) for p in m['proto']))
    src.stmt('', 'GBLC', '&T(1)')
    src.stmt('', 'GBLA', '&Q')
    src.stmt('', 'GBLC', '&V1,&V2')
    for i, v in enumerate(m['ar']):
        if v is not None:
            src.stmt('&AR(%d)' % (i + 1), 'SETC', quote(v))

    def tr(e, arith):
        src.stmt('&Q', 'SETA', '&Q+1')
        if arith:
            src.stmt('&X', 'SETA', e)
            src.stmt('&T(&Q)', 'SETC', "'&X'")
        else:
            src.stmt('&T(&Q)', 'SETC', e)
    tr("'&SYSNDX'", False)
    tr("'&SYSNEST'", False)
    for k, nm, s, dyn in m['reads']:
        if dyn and s:
            src.stmt('&S', 'SETA', str(s[0]))
            v = '&%s(%s)' % (nm, ','.join(['&S'] + [str(x) for x in s[1:]]))
        else:
            v = '&' + nm + ('(%s)' % ','.join(map(str, s)) if s else '')
        if k == 'V':
            tr("'%s'" % v, False)
        elif k == 'T':
            tr("T'" + v, False)
        else:
            tr(k + "'" + v, True)
    ok = True
    for ic in m.get('inner', ()):
        ok = emit_call(src, 'INN', ic) and ok
    src.stmt('', 'MEND')
    return ok


def emit_call(src, name, c):
    lab = c['lab']
    l = '' if lab is None else lab if isinstance(lab, str) else '&' + lab[1]
    ops = [write(o[1]) if o[0] == 'p' else o[1] + '=' + write(o[2]) for o in c['ops']]
    return layout(src, '%-8s %-5s ' % (l, name) if ops else '%-8s %s' % (l, name), ops, c)


def run(case, env):
    m, inn = case['out'], case['inn']
    src = Src()
    libs = {}
    ok = True
    if case['lib']:
        for x in (inn, m):
            s2 = Src()
            ok = emit_macro(s2, x, case) and ok
            libs[x['n']] = s2.text()
    else:
        ok = emit_macro(src, inn, case) and ok
        ok = emit_macro(src, m, case) and ok
    src.stmt('', 'GBLC', '&T(1)')
    src.stmt('', 'GBLA', '&Q')
    src.stmt('', 'GBLC', '&V1,&V2')
    for k, v in case['v'].items():
        src.stmt('&' + k, 'SETC', quote(v))
    src.stmt('LH', 'DS', 'H')
    src.stmt('LF', 'DS', 'F')
    src.stmt('LC', 'DS', 'CL3')
    for c in case['calls']:
        c2 = dict(c)
        if c['lab'] == '.SQ' and c is not case['calls'][0]:
            c2['lab'] = None
        ok = emit_call(src, 'OUT', c2) and ok
    if not ok:
        return {'labels': ['not written']}
    R = Run(case)
    for c in case['calls']:
        R.invoke(m, c, case['v'], 1)
    out = env.drv('drv_an').call({'op': 'an', 'text': src.text(), 'libs': libs, 'vars': ['T', 'Q']})
    errs = [d for d in out['diags'] if 'Undefined keyword' not in d['msg']]
    txt = src.text() + ''.join('\n--%s--\n%s' % x for x in libs.items())
    if errs:
        raise Violation('unexpected diagnostics %s\n%s' % ([(d['code'], d['r'], d['msg']) for d in errs[:4]], txt))
    w = len([d for d in out['diags'] if 'Undefined keyword' in d['msg']])
    if w != R.w014:
        raise Violation('%d W014 warnings, expected %d\n%s' % (w, R.w014, txt))
    q = out['vars']['Q']
    n = q['v'] if q else 0
    if n != len(R.exp):
        raise Violation('executed %s reads, expected %d\n%s' % (n, len(R.exp), txt))
    t = out['vars']['T']['v']
    cmpd, ndx = 0, []
    for i, (k, e) in enumerate(R.exp):
        if e is None:
            continue
        cmpd += 1
        g = t.get(str(i + 1))
        if k == 'X':
            if not (len(g) >= 4 and g.isdigit()) or g in ndx:
                raise Violation('&SYSNDX is %r, earlier calls %s' % (g, ndx))
            ndx.append(g)
            continue
        if g != e:
            raise Violation('read %d (%s) is %r, expected %r\n%s' % (i + 1, k, g, e, txt))
    s = ''.join(write(o[-1]) for c in case['calls'] for o in c['ops'])
    return {'nontrivial': cmpd >= 10 and any(x in s for x in "('&"), 'sample': txt}
