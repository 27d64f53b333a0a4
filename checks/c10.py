"""C10: conditional-assembly expressions against a reference evaluator."""
from hypothesis import strategies as st
from vf import Violation
from hl import Src, diags_in, quote, E2A, A2E

TARGETS = ['drv_an']
FAST = True
TECHNIQUE = 'property-based testing: generated expressions against a reference evaluator'
EXAMPLES = {'quick': 15000, 'thorough': 600000}
RULE = ('case = values for a fixed set of variable symbols and 1..8 SETA/SETB/SETC statements over generated typed expression trees; oracle = an independent evaluator; '
        'non-trivial = at least one statement with two or more nested operators or functions that the reference evaluates without error')
ASSUMPTIONS = ['ASCII letters, digits and specials in string literals; EBCDIC table as documented by the project']
MAXS = 4064
I32 = 2 ** 31


class Err(Exception):
    pass


class Skip(Exception):
    """the language leaves it open: only absence of a crash is checked"""


# ------------------------------------------------------------------ generator
CH = "ABCXYZabcxyz019 $#@_.,;:=+-*/()%<>?!\""
LIT = st.text(CH + "'", max_size=8)
BITS = st.text('01', max_size=12) | st.text('01', min_size=29, max_size=34)
HEX = st.text('0123456789ABCDEFabcdef', max_size=10)
HEXBAD = st.text('0123456789ABCDEFGZ+- ', max_size=6)
DEC = st.one_of(st.integers(-I32 - 3, I32 + 2).map(str), st.integers(0, 2000).map(lambda n: '+%d' % n), st.sampled_from(['', '+', '-', '--1', '+-1', '2147483647', '2147483648', '-2147483648', '-2147483649', '00000000012', '1A', '5-']), st.text('0123456789', max_size=12))
SYM = st.sampled_from(['', 'A', 'A1', '1A', '$X', '#', '@_9', 'A B', 'A' * 63, 'A' * 64, '_', 'A-', 'ab9'])
EDGE = [0, 1, 2, 3, 5, 7, 8, 10, 31, 32, 33, 63, 64, 65, 255, 256, 1000, 65535, 65536, 2 ** 30, I32 - 1, I32 - 2]
NUM = st.sampled_from(EDGE) | st.integers(0, I32 - 1) | st.integers(0, 40)
SNUM = st.sampled_from(EDGE + [-x for x in EDGE] + [-I32]) | st.integers(-I32, I32 - 1)


def a_expr(depth):
    leaf = st.one_of(
        NUM.map(lambda n: ['n', n]),
        st.text('0123456789ABCDEF', min_size=1, max_size=8).map(lambda s: ['x', s]),
        st.text('01', min_size=1, max_size=32).map(lambda s: ['b', s]),
        st.text("ABCZabz019$#@%/,.=<", min_size=1, max_size=4).map(lambda s: ['c', s]),
        st.integers(1, 4).map(lambda i: ['va', i]),
        st.integers(1, 2).map(lambda i: ['vb', i]),
        st.just(['vcd']),
        st.integers(1, 4).map(lambda i: ['arr', ['n', i]]),
        st.integers(1, 3).map(lambda i: ['K', i]),
    )
    if depth == 0:
        return leaf
    sub = a_expr(depth - 1)
    c = c_lit(depth - 1)
    return st.one_of(
        leaf,
        st.tuples(st.sampled_from('+-*/'), sub, sub).map(list),
        st.tuples(st.sampled_from('+-*/'), sub, sub).map(list),
        st.tuples(st.sampled_from(['neg', 'pos', 'par', 'lnot']), sub).map(list),
        st.tuples(st.sampled_from(['AND', 'OR', 'XOR']), sub, sub).map(list),
        st.tuples(st.sampled_from(['SLA', 'SLL', 'SRA', 'SRL']), sub, NUM.map(lambda n: ['n', n % 70]) | sub).map(list),
        st.tuples(st.just('fn'), st.just('B2A'), BITS.map(lambda s: ['s', [s]])).map(list),
        st.tuples(st.just('fn'), st.sampled_from(['X2A', 'ISHEX']), (HEX | HEXBAD).map(lambda s: ['s', [s]])).map(list),
        st.tuples(st.just('fn'), st.sampled_from(['D2A', 'ISDEC']), DEC.map(lambda s: ['s', [s]])).map(list),
        st.tuples(st.just('fn'), st.just('C2A'), LIT.map(lambda s: ['s', [s[:5]]])).map(list),
        st.tuples(st.just('fn'), st.sampled_from(['ISBIN']), BITS.map(lambda s: ['s', [s]]) | LIT.map(lambda s: ['s', [s]])).map(list),
        st.tuples(st.just('fn'), st.sampled_from(['ISSYM']), SYM.map(lambda s: ['s', [s]]) | LIT.map(lambda s: ['s', [s]])).map(list),
        st.tuples(st.just('fn'), st.just('DCLEN'), c).map(list),
        st.tuples(st.sampled_from(['INDEX', 'FIND']), st.booleans(), c, c).map(lambda t: [t[0] + ('f' if t[1] else ''), t[2], t[3]]),
    )


def c_lit(depth):
    """a quoted string with variable symbols inside"""
    part = st.one_of(LIT, LIT, st.integers(1, 3).map(lambda i: ['vc', i]), st.integers(1, 4).map(lambda i: ['va', i]), st.integers(1, 2).map(lambda i: ['vb', i]))
    return st.lists(part, max_size=3).map(lambda p: ['s', p])


def c_expr(depth):
    lit = c_lit(depth)
    small = st.integers(0, 6).map(lambda n: ['n', n])
    num = st.one_of(small, small, a_expr(0)) if depth else small
    sub = st.tuples(st.just('sub'), lit, num, num | st.just('*')).map(list)
    if depth == 0:
        return st.one_of(lit, lit, sub)
    inner = c_expr(depth - 1)
    a = a_expr(depth - 1)
    strfn = st.one_of(
        st.tuples(st.just('fn'), st.sampled_from(['UPPER', 'LOWER', 'DOUBLE', 'DEQUOTE', 'DCVAL']), inner).map(list),
        st.tuples(st.just('op'), st.sampled_from(['UPPER', 'LOWER', 'DOUBLE']), lit).map(list),
        st.tuples(st.just('op'), st.sampled_from(['SIGNED', 'BYTE']), a_expr(0)).map(list),
        st.tuples(st.just('fn'), st.sampled_from(['A2B', 'A2D', 'A2X', 'SIGNED', 'A2C', 'BYTE']), a).map(list),
        st.tuples(st.just('fn'), st.just('BYTE'), st.integers(-1, 256).map(lambda n: ['n', n] if n >= 0 else ['neg', ['n', -n]])).map(list),
        st.tuples(st.just('fn'), st.sampled_from(['B2C', 'B2D', 'B2X']), (BITS | st.text('012', max_size=5)).map(lambda s: ['s', [s]])).map(list),
        st.tuples(st.just('fn'), st.sampled_from(['C2B', 'C2D', 'C2X']), LIT.map(lambda s: ['s', [s]])).map(list),
        st.tuples(st.just('fn'), st.sampled_from(['D2B', 'D2C', 'D2X']), DEC.map(lambda s: ['s', [s]])).map(list),
        st.tuples(st.just('fn'), st.sampled_from(['X2B', 'X2C', 'X2D']), (HEX | HEXBAD).map(lambda s: ['s', [s]])).map(list),
    )
    dupn = st.integers(0, 4).map(lambda n: ['n', n]) | st.sampled_from([['n', 500], ['n', 1016], ['n', 2000], ['neg', ['n', 1]], ['va', 1]])
    dup = st.tuples(st.just('dup'), dupn, lit | sub).map(list)
    return st.one_of(
        lit, sub, sub, strfn, strfn,
        st.tuples(st.just('cat'), lit | sub | dup, lit | sub).map(list),
        dup, st.tuples(st.just('dup'), dupn, strfn.filter(lambda e: e[0] == 'fn')).map(list),
    )


def b_expr(depth):
    rels = st.sampled_from(['EQ', 'NE', 'LE', 'LT', 'GE', 'GT'])
    a0 = a_expr(0) | a_expr(1) if depth else a_expr(0)
    leaf = st.one_of(
        st.integers(0, 1).map(lambda n: ['l', n]), st.integers(1, 2).map(lambda i: ['vb', i]),
        st.tuples(st.just('rel'), rels, st.just('A'), a0, a0).map(list),
        st.tuples(st.just('rel'), rels, st.just('C'), c_lit(0), c_lit(0)).map(list),
        st.tuples(st.just('rel'), rels, st.just('C'), LIT, LIT).map(lambda t: [t[0], t[1], t[2], ['s', [t[3]]], ['s', [t[4]]]]),
    )
    if depth == 0:
        return leaf
    sub = b_expr(depth - 1)
    return st.one_of(leaf, st.tuples(st.sampled_from(['AND', 'OR', 'XOR', 'AND', 'OR', 'XOR', 'ANDNOT', 'ORNOT', 'XORNOT']), sub, sub).map(list),
                     st.tuples(st.sampled_from(['AND', 'OR', 'XOR']), sub, sub).map(list), st.tuples(st.sampled_from(['NOT', 'par']), sub).map(list))


def strategy(tier):
    vals = st.fixed_dictionaries({'A': st.lists(SNUM, min_size=4, max_size=4), 'B': st.lists(st.integers(0, 1), min_size=2, max_size=2),
                                  'C': st.lists(LIT, min_size=3, max_size=3), 'D': NUM, 'R': st.lists(SNUM, min_size=3, max_size=3)})
    d = 4 if tier == 'thorough' else 3
    s = st.one_of(st.tuples(st.just('A'), a_expr(d - 1)), st.tuples(st.just('A'), a_expr(d)), st.tuples(st.just('B'), b_expr(d)), st.tuples(st.just('B'), b_expr(d)),
                  st.tuples(st.just('C'), c_expr(2)), st.tuples(st.just('C'), c_expr(1))).map(list)
    return st.fixed_dictionaries({'v': vals, 's': st.lists(s, min_size=1, max_size=8), 'tight': st.booleans()})


# ------------------------------------------------------------------ rendering
def ra(e, prec=0):
    k = e[0]
    if k == 'n':
        return str(e[1])
    if k in 'xbc' and len(k) == 1:
        return k.upper() + "'" + e[1] + "'"
    if k == 'va':
        return '&A%d' % e[1]
    if k == 'vb':
        return '&B%d' % e[1]
    if k == 'vcd':
        return '&CD'
    if k == 'arr':
        return '&R(%s)' % ra(e[1])
    if k == 'K':
        return "K'&C%d" % e[1]
    if k in '+-':
        s = ra(e[1], 1) + k + ra(e[2], 2)
        return '(' + s + ')' if prec > 1 else s
    if k in '*/':
        s = ra(e[1], 2) + k + ra(e[2], 3)
        return '(' + s + ')' if prec > 2 else s
    if k == 'neg':
        return '-' + ra(e[1], 4) if prec <= 3 else '(-' + ra(e[1], 4) + ')'
    if k == 'pos':
        return '+' + ra(e[1], 4) if prec <= 3 else '(+' + ra(e[1], 4) + ')'
    if k == 'par':
        return '(' + ra(e[1]) + ')'
    if k == 'lnot':
        return '(NOT ' + ra(e[1], 0) + ')'
    if k in ('AND', 'OR', 'XOR', 'SLA', 'SLL', 'SRA', 'SRL'):
        return '(' + ra(e[1]) + ' ' + k + ' ' + ra(e[2]) + ')'
    if k == 'fn':
        return e[1] + '(' + rc(e[2]) + ')'
    if k in ('INDEX', 'FIND'):
        return '(' + rc(e[1]) + ' ' + k + ' ' + rc(e[2]) + ')'
    if k in ('INDEXf', 'FINDf'):
        return k[:-1] + '(' + rc(e[1]) + ',' + rc(e[2]) + ')'
    raise AssertionError(e)


def rc(e):
    k = e[0]
    if k == 's':
        out = ''
        for i, p in enumerate(e[1]):
            if isinstance(p, str):
                # a letter or digit after a variable symbol is separated by the concatenation dot
                if out.endswith('~'):
                    out = out[:-1] + '.'
                out += p.replace("'", "''")
            else:
                if out.endswith('~'):
                    out = out[:-1]
                out += {'vc': '&C', 'va': '&A', 'vb': '&B'}[p[0]] + str(p[1]) + '~'
        if out.endswith('~'):
            out = out[:-1]
        return "'" + out + "'"
    if k == 'sub':
        return rc(e[1]) + '(' + ra(e[2]) + ',' + (e[3] if e[3] == '*' else ra(e[3])) + ')'
    if k == 'dup':
        return '(' + ra(e[1]) + ')' + rc(e[2])
    if k == 'cat':
        return rc(e[1]) + '.' + rc(e[2])
    if k == 'fn':
        return e[1] + '(' + (ra(e[2]) if e[1] in AFN else rc(e[2])) + ')'
    if k == 'op':
        return '(' + e[1] + ' ' + (ra(e[2]) if e[1] in AFN else rc(e[2])) + ')'
    raise AssertionError(e)


AFN = ('A2B', 'A2C', 'A2D', 'A2X', 'BYTE', 'SIGNED')
LEVEL = {'AND': 2, 'ANDNOT': 2, 'OR': 3, 'ORNOT': 3, 'XOR': 4, 'XORNOT': 4}


def rb(e, prec=9, tight=False):
    k = e[0]
    if k == 'l':
        return str(e[1])
    if k == 'vb':
        return '&B%d' % e[1]
    if k == 'par':
        return '(' + rb(e[1], 9, tight) + ')'
    if k == 'rel':
        f = ra if e[2] == 'A' else rc
        s = f(e[3]) + ' ' + e[1] + ' ' + f(e[4])
        return s if prec >= 1 else '(' + s + ')'
    if k == 'NOT':
        x = e[1]
        s = 'NOT ' + (rb(x, 1, tight) if x[0] == 'rel' else rb(x, 0, tight))
        return s if prec >= 1 else '(' + s + ')'
    l = LEVEL[k]
    left = rb(e[1], l, tight)
    # 'A AND NOT B' is one operator: to keep its reach unambiguous, its right side is atomic or a relation
    if k.endswith('NOT'):
        right = 'NOT ' + rb(e[2], 0, tight)
        op = k[:-3]
    else:
        right = rb(e[2], l - 1, tight)
        if right.startswith('NOT '):
            right = '(' + right + ')'
        op = k
    a = '' if tight and left.endswith(')') else ' '
    b = '' if tight and right.startswith('(') and not right.startswith('((') else ' '
    s = left + a + op + b + right
    return s if prec >= l else '(' + s + ')'


# ------------------------------------------------------------------ reference
def wrap(v):
    v &= 0xffffffff
    return v - 2 ** 32 if v >= I32 else v


def chk(v):
    if not -I32 <= v < I32:
        raise Err('overflow')
    return v


def ev_a(e, v):
    k = e[0]
    if k == 'n':
        return e[1]
    if k == 'x':
        return wrap(int(e[1], 16))
    if k == 'b':
        return wrap(int(e[1], 2))
    if k == 'c':
        r = 0
        for c in e[1]:
            r = r * 256 + A2E[ord(c)]
        return wrap(r)
    if k == 'va':
        return v['A'][e[1] - 1]
    if k == 'vb':
        return v['B'][e[1] - 1]
    if k == 'vcd':
        return v['D']
    if k == 'arr':
        i = ev_a(e[1], v)
        return v['R'][i - 1] if i <= 3 else 0
    if k == 'K':
        return len(v['C'][e[1] - 1])
    if k in ('neg', 'pos', 'par', 'lnot'):
        x = ev_a(e[1], v)
        return chk(-x) if k == 'neg' else ~x if k == 'lnot' else x
    if k in ('+', '-', '*', '/'):
        a, b = ev_a(e[1], v), ev_a(e[2], v)
        if k == '+':
            return chk(a + b)
        if k == '-':
            return chk(a - b)
        if k == '*':
            return chk(a * b)
        if b == 0:
            return 0
        q = abs(a) // abs(b)
        return chk(q if (a < 0) == (b < 0) else -q)
    if k in ('AND', 'OR', 'XOR'):
        a, b = ev_a(e[1], v), ev_a(e[2], v)
        return {'AND': a & b, 'OR': a | b, 'XOR': a ^ b}[k]
    if k in ('SLA', 'SLL', 'SRA', 'SRL'):
        a, n = ev_a(e[1], v), ev_a(e[2], v) & 63
        u = a & 0xffffffff
        if k == 'SRA':
            return a >> n
        if k == 'SRL':
            return wrap(u >> n)
        if k == 'SLL':
            return wrap(u << n)
        # SLA: the sign bit stays, the 31 others are shifted
        return wrap((u & 0x80000000) | ((u << n) & 0x7fffffff))
    if k in ('INDEX', 'INDEXf'):
        a, b = ev_c(e[1], v), ev_c(e[2], v)
        if not a or not b:
            raise Skip
        return a.find(b) + 1
    if k in ('FIND', 'FINDf'):
        a, b = ev_c(e[1], v), ev_c(e[2], v)
        if not a or not b:
            raise Skip
        for i, c in enumerate(a):
            if c in b:
                return i + 1
        return 0
    if k == 'fn':
        return fa(e[1], ev_c(e[2], v))
    raise AssertionError(e)


def d2a(s):
    if s == '':
        return 0
    t = s[1:] if s[0] in '+-' else s
    if len(s) > 11 or not t or not all(c in '0123456789' for c in t):
        raise Err('D2A')
    return chk(-int(t) if s[0] == '-' else int(t))


def fa(f, s):
    if f == 'B2A':
        if len(s) > 32 or any(c not in '01' for c in s):
            raise Err(f)
        return wrap(int(s, 2)) if s else 0
    if f == 'X2A':
        if len(s) > 8 or any(c not in '0123456789ABCDEFabcdef' for c in s):
            raise Err(f)
        return wrap(int(s, 16)) if s else 0
    if f == 'C2A':
        if len(s) > 4:
            raise Err(f)
        r = 0
        for c in s:
            r = r * 256 + A2E[ord(c)]
        return wrap(r)
    if f == 'D2A':
        return d2a(s)
    if f == 'DCLEN':
        return len(dcval(s))
    if s == '':
        raise Err(f)
    if f == 'ISBIN':
        return int(len(s) <= 32 and all(c in '01' for c in s))
    if f == 'ISHEX':
        return int(len(s) <= 8 and all(c in '0123456789ABCDEFabcdef' for c in s))
    if f == 'ISDEC':
        return int(len(s) <= 10 and all(c in '0123456789' for c in s) and int(s) < I32)
    if f == 'ISSYM':
        return int(len(s) <= 63 and not s[0].isdigit() and all(c.isalnum() or c in '$#@_' for c in s))
    raise AssertionError(f)


def dcval(s):
    out, i = '', 0
    while i < len(s):
        if s[i] in "'&" and s[i + 1:i + 2] == s[i]:
            i += 1
        out += s[i]
        i += 1
    return out


def to_chars(bs):
    return ''.join(chr(E2A[b]) for b in bs)


def ev_c(e, v):
    k = e[0]
    if k == 's':
        out = ''
        for p in e[1]:
            if isinstance(p, str):
                out += p
            elif p[0] == 'vc':
                out += v['C'][p[1] - 1]
            elif p[0] == 'va':
                out += str(abs(v['A'][p[1] - 1]))  # the sign is not part of the substituted value
            else:
                out += str(v['B'][p[1] - 1])
        return out
    if k == 'sub':
        s = ev_c(e[1], v)
        a = ev_a(e[2], v)
        if e[3] == '*':
            if a == len(s) + 1:
                raise Skip
            if a < 1 or a > len(s):
                raise Err('sub')
            return s[a - 1:]
        n = ev_a(e[3], v)
        if a < 0 or n < 0:
            raise Err('sub')
        if n == 0:
            if a > len(s):
                raise Skip
            return ''
        if a == 0 or a > len(s):
            raise Err('sub')
        return s[a - 1:a - 1 + n]
    if k == 'dup':
        s = ev_c(e[2], v)
        n = ev_a(e[1], v)
        if n < 0 or len(s) * n > MAXS:
            raise Err('dup')
        if len(s.encode()) * n > MAXS:
            raise Skip  # known finding: the limit counts bytes
        return s * n
    if k == 'cat':
        s = ev_c(e[1], v) + ev_c(e[2], v)
        if len(s) > MAXS:
            raise Err('cat')
        if len(s.encode()) > MAXS:
            raise Skip
        return s
    if k in ('fn', 'op'):
        f = e[1]
        if f in AFN:
            a = ev_a(e[2], v)
            return fca(f, a)
        s = ev_c(e[2], v)
        if any(ord(c) > 127 or ord(c) == 0 for c in s):
            raise Skip
        return fcc(f, s)
    raise AssertionError(e)


def fca(f, a):
    u = a & 0xffffffff
    if f == 'A2B':
        return format(u, '032b')
    if f == 'A2X':
        return format(u, '08X')
    if f == 'A2D':
        return '%+d' % a
    if f == 'SIGNED':
        return str(a)
    if f == 'A2C':
        return to_chars(u.to_bytes(4, 'big'))
    if f == 'BYTE':
        if not 0 <= a <= 255:
            raise Err(f)
        return chr(E2A[a])
    raise AssertionError(f)


def fcc(f, s):
    if f in ('UPPER', 'LOWER'):
        return s.upper() if f == 'UPPER' else s.lower()
    if f == 'DOUBLE':
        r = s.replace("'", "''").replace('&', '&&')
        if len(r) > MAXS:
            raise Err(f)
        return r
    if f == 'DCVAL':
        return dcval(s)
    if f == 'DEQUOTE':
        if s[:1] == "'":
            s = s[1:]
        if s[-1:] == "'":
            s = s[:-1]
        return s
    if f[0] == 'B':
        if any(c not in '01' for c in s):
            raise Err(f)
        if f == 'B2D':
            return '%+d' % fa('B2A', s)
        if f == 'B2X':
            return format(int(s, 2), '0%dX' % ((len(s) + 3) // 4)) if s else ''
        n = (len(s) + 7) // 8
        return to_chars(int(s, 2).to_bytes(n, 'big')) if s else ''
    if f[0] == 'C':
        if f == 'C2D':
            return '%+d' % fa('C2A', s)
        if len(s) * (8 if f == 'C2B' else 2) > MAXS:
            raise Err(f)
        return ''.join(format(A2E[ord(c)], '08b' if f == 'C2B' else '02X') for c in s)
    if f[0] == 'D':
        if s == '':
            if f == 'D2B':
                return ''
            raise Err(f)
        a = d2a(s)
        return fca({'D2B': 'A2B', 'D2C': 'A2C', 'D2X': 'A2X'}[f], a)
    if any(c not in '0123456789ABCDEFabcdef' for c in s):
        raise Err(f)
    if f == 'X2D':
        return '%+d' % fa('X2A', s)
    if f == 'X2B':
        if len(s) * 4 > MAXS:
            raise Err(f)
        return ''.join(format(int(c, 16), '04b') for c in s)
    if f == 'X2C':
        return to_chars(bytes.fromhex(('0' if len(s) % 2 else '') + s))
    raise AssertionError(f)


def cmpkey(s):
    return (len(s), [A2E[ord(c)] for c in s])


def ev_b(e, v):
    k = e[0]
    if k == 'l':
        return bool(e[1])
    if k == 'vb':
        return bool(v['B'][e[1] - 1])
    if k == 'par':
        return ev_b(e[1], v)
    if k == 'NOT':
        return not ev_b(e[1], v)
    if k == 'rel':
        if e[2] == 'A':
            a, b = ev_a(e[3], v), ev_a(e[4], v)
        else:
            a, b = cmpkey(ev_c(e[3], v)), cmpkey(ev_c(e[4], v))
        return {'EQ': a == b, 'NE': a != b, 'LE': a <= b, 'LT': a < b, 'GE': a >= b, 'GT': a > b}[e[1]]
    a, b = ev_b(e[1], v), ev_b(e[2], v)
    if k.endswith('NOT'):
        b = not b
        k = k[:-3]
    return (a and b) if k == 'AND' else (a or b) if k == 'OR' else a != b


def size(e):
    return 1 + sum(size(x) for x in e if isinstance(x, list)) if isinstance(e, list) else 0


def ops(e):
    if not isinstance(e, list):
        return 0
    here = 1 if e and isinstance(e[0], str) and e[0] not in ('n', 'x', 'b', 'c', 'va', 'vb', 'vc', 'vcd', 'arr', 'K', 's', 'l', 'par', 'pos') else 0
    return here + sum(ops(x) for x in e)


def run(case, env):
    v = case['v']
    src = Src()
    for i, a in enumerate(v['A']):
        if a == -I32:
            src.stmt('&A%d' % (i + 1), 'SETA', '-%d-1' % (I32 - 1))
        else:
            src.stmt('&A%d' % (i + 1), 'SETA', str(a))
    for i, b in enumerate(v['B']):
        src.stmt('&B%d' % (i + 1), 'SETB', str(b))
    for i, c in enumerate(v['C']):
        src.stmt('&C%d' % (i + 1), 'SETC', quote(c))
    src.stmt('&CD', 'SETC', "'%d'" % v['D'])
    for i, a in enumerate(v['R']):
        src.stmt('&R(%d)' % (i + 1), 'SETA', str(a) if a != -I32 else '-%d-1' % (I32 - 1))
    npre = len(src.spans)
    todo = []
    for i, (t, e) in enumerate(case['s']):
        if t == 'A':
            x = ra(e)
        elif t == 'B':
            x = '(' + rb(e, 9, case.get('tight', False)) + ')'
        else:
            x = rc(e)
        todo.append((src.stmt('&X%d' % i, 'SET' + t, x), t, e, x))
    r = env.drv('drv_an').call({'text': src.text(), 'vars': ['X%d' % i for i in range(len(todo))]})
    if any(d for d in r['diags'] if d['r'][0] < src.spans[npre - 1][1] + 1):
        raise Violation('setting plain values was reported as an error: %s\n%s' % (r['diags'][:2], src.text()))
    nontrivial = False
    labels = []
    for i, (idx, t, e, x) in enumerate(todo):
        ds = diags_in(r['diags'], src.spans[idx])
        got = r['vars'].get('X%d' % i)
        try:
            want = {'A': ev_a, 'B': ev_b, 'C': ev_c}[t](e, v)
        except Skip:
            labels.append('open')
            continue
        except Err as er:
            labels.append('error:' + t)
            if not ds:
                raise Violation('%s: error (%s) not reported; value %s\n%s' % (x, er, got, src.text()))
            continue
        if ds:
            raise Violation('%s: expected value %r but reported %s\n%s' % (x, want, ds[0], src.text()))
        if got is None or got['t'] != t or got['v'] != want:
            raise Violation('%s: expected %r, got %r\n%s' % (x, want, got, src.text()))
        labels.append('ok:' + t)
        if ops(e) >= 2:
            nontrivial = True
    return {'nontrivial': nontrivial, 'labels': labels, 'sample': [x for _, _, _, x in todo]}
