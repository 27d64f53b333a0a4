"""Generated programs of all kinds of statements, as data, so that they can be written in different layouts.
A statement is {'l': label, 'o': operation, 'a': operands, 'k': kind}; kinds: mach, asm, ca, call, proto, def (MACRO, MEND).
Branches only lead forward and macros only call macros defined before them, so every program ends."""


class Prog:
    def __init__(self, r, errors=25, syntax=4, nmac=2, seqs=True):
        self.r, self.errors, self.syntax, self.seqs = r, errors, syntax, seqs
        self.ns = 0
        self.macros = []          # (name, number of positionals)
        self.body = []
        for i in range(r.int(0, nmac)):
            self.body += self.macro('M%d' % i)
        self.body += self.block(2, 14, 0)
        if r.chance(25) and self.macros:
            self.body += self.macro('M9') + self.block(1, 4, 0)

    # -- terms
    def sym(self):
        return 'SYM%d' % self.r.int(0, 7)

    def avar(self):
        return '&A%d' % self.r.int(0, 2)

    def num(self):
        r = self.r
        return r.weighted([(4, str(r.int(0, 15))), (1, "X'%X'" % r.int(0, 255)), (1, "C'A'"), (1, "B'101'"), (2, self.sym()), (1, "L'" + self.sym()), (1, '*')])

    def expr(self):
        r = self.r
        e = self.num()
        for _ in range(r.weighted([(5, 0), (3, 1), (1, 2)])):
            e = r.pick(['%s+%s', '%s-%s', '(%s+%s)', '%s*(%s)']) % (e, self.num())
        return e

    def string(self):
        r = self.r
        return "'" + ''.join(r.list(0, 4, lambda: r.pick(['a', 'B', ' ', "''", '&&', ',', '(', 'xyz', '1', '&C0', '&C1.x', '&A0']))) + "'"

    def cterm(self):
        r = self.r
        return r.weighted([(4, self.string()), (1, "'ABCDEF'(2,%d)" % r.int(0, 6)), (1, "(UPPER '%s')" % r.pick(['aB', 'x'])), (1, '(%d)%s' % (r.int(0, 3), "'ab'")), (1, "T'" + self.sym())])

    def aexpr(self):
        r = self.r
        t = lambda: r.weighted([(4, str(r.int(0, 20))), (3, self.avar()), (1, "K'&C0"), (1, "N'&A1"), (1, "(&A1+1)"), (1, "L'" + self.sym()), (1, "DCLEN('&C0')"), (1, "X'1F'")])
        e = t()
        for _ in range(r.weighted([(4, 0), (3, 1), (1, 2)])):
            e += r.pick(['+', '-', '*', '/']) + t()
        return e

    def bexpr(self):
        r = self.r
        t = lambda: r.weighted([(3, '&B0'), (1, '1'), (1, '0'), (4, '%s %s %s' % (self.avar(), r.pick(['EQ', 'NE', 'LT', 'GE']), r.int(0, 5))), (2, "'&C0' %s '%s'" % (r.pick(['EQ', 'GT']), r.pick(['A', 'ab', '']))),
                                (1, "T'%s EQ 'U'" % self.sym())])
        e = t()
        for _ in range(r.weighted([(5, 0), (2, 1)])):
            e = '%s %s %s' % (e, r.pick(['AND', 'OR', 'AND NOT']), t())
        return '(' + e + ')'

    # -- statements
    def stmt(self, depth, macro):
        r = self.r
        if r.chance(self.errors):
            return self.wrong(macro)
        k = r.weighted([(4, 'mach'), (4, 'ds'), (3, 'equ'), (2, 'asm'), (5, 'set'), (2, 'if'), (1, 'ago'), (3 if self.macros else 0, 'call'), (1, 'decl')])
        lab = (lambda p: self.sym() if r.chance(p) else '')
        P = (lambda s: r.pick(['&P1', '&P2', '&K']) if macro and r.chance(15) else s)
        if k == 'mach':
            o, a = r.pick([('LR', '%s,%s' % (r.int(0, 15), self.num())), ('LA', '%d,%s' % (r.int(0, 15), self.expr())), ('LA', '%d,%d(%d,%d)' % (r.int(0, 15), r.int(0, 4095), r.int(0, 15), r.int(0, 15))),
                           ('MVC', '%d(%d,%d),%s' % (r.int(0, 99), r.int(1, 256), r.int(0, 15), self.expr())), ('AHI', '%d,%s' % (r.int(0, 15), self.num())), ('MVI', "0(1),C'%s'" % r.pick(['A', ' ', "''", ','])),
                           ('BCR', '15,14'), ('J', self.sym()), ('ST', '%d,%s' % (r.int(0, 15), self.sym())), ('LM', '14,12,%d(13)' % r.int(0, 99)), ('L', "1,=F'%d'" % r.int(0, 9))])
            return [dict(l=lab(40), o=o, a=P(a), k='mach')]
        if k == 'ds':
            a = lambda: r.pick(['F', 'CL%d' % r.int(1, 20), "XL2'%X'" % r.int(0, 255), "C" + self.string().replace('&C', 'C').replace('&A', 'A'), "%dH'%d'" % (r.int(0, 3), r.int(0, 9)), "A(%s)" % self.expr(), "AL2(%s,%s)" % (self.expr(), self.num()),
                                "P'-12.5'", "Y(%s)" % self.num(), "FL(%d)'1,2'" % r.int(1, 4), "D'1.5E3'"])
            return [dict(l=lab(60), o='DC', a=','.join(x if not x.endswith("C''") else "C' '" for x in r.list(1, 3, a)), k='asm')]
        if k == 'equ':
            return [dict(l=self.sym(), o='EQU', a=r.pick([self.expr(), '*', '%s,%d' % (self.expr(), r.int(1, 9)), "%s,,C'%s'" % (self.expr(), r.pick(['A', 'Z']))]), k='asm')]
        if k == 'asm':
            o, l, a = r.pick([('CSECT', r.pick(['S1', 'S2']), ''), ('DSECT', 'D1', ''), ('ORG', '', '*+%d' % r.int(0, 20)), ('ORG', '', ''), ('USING', '', '*,%d' % r.int(1, 15)), ('DROP', '', str(r.int(1, 15))), ('PRINT', '', 'NOGEN'),
                              ('TITLE', '', "'some title'"), ('MNOTE', '', "4,'note, (text)'"), ('ENTRY', '', self.sym()), ('EXTRN', '', 'EXT%d' % r.int(0, 3)), ('LTORG', '', ''), ('EJECT', '', ''), ('DS', lab(50), '0D'), ('DS', lab(50), '%dXL%d' % (r.int(0, 3), r.int(1, 9)))])
            return [dict(l=l, o=o, a=a, k='asm')]
        if k == 'set':
            o, l, a = r.pick([('SETA', self.avar(), self.aexpr()), ('SETB', '&B%d' % r.int(0, 1), self.bexpr()), ('SETC', '&C%d' % r.int(0, 1), self.cterm()), ('SETC', '&C%d' % r.int(0, 1), self.cterm() + r.pick(['.', '']) + self.string()),
                              ('SETA', '&ARR(%d)' % r.int(1, 3), ','.join(r.list(1, 3, self.aexpr))), ('SETA', '&(A&N)', self.aexpr())])
            return [dict(l=l, o=o, a=a, k='ca')]
        if k == 'if' and self.seqs:
            self.ns += 1
            s = '.S%d' % self.ns
            inner = self.block(0, 3, depth + 1, macro) if depth < 2 else []
            a = self.bexpr() + s
            if r.chance(30):
                a += ',' + self.bexpr() + s
            return [dict(l='', o='AIF', a=a, k='ca')] + inner + [dict(l=s, o='ANOP', a='', k='ca')]
        if k == 'ago' and self.seqs:
            self.ns += 1
            s = '.S%d' % self.ns
            inner = self.block(0, 2, depth + 1, macro) if depth < 2 else []
            return [dict(l='', o='AGO', a=r.pick([s, '(%s)%s,%s' % (self.avar(), s, s)]), k='ca')] + inner + [dict(l=s, o='ANOP', a='', k='ca')]
        if k == 'call':
            return [self.call(macro)]
        if k == 'decl':
            o, a = r.pick([('GBLA', '&G%d' % r.int(0, 2)), ('LCLC', '&L%d,&LX(5)' % r.int(0, 2)), ('LCLA', '&L%dA,&L%dB' % (r.int(0, 1), r.int(0, 1))), ('GBLC', '&H%d' % r.int(0, 1))])
            return [dict(l='', o=o, a=a, k='ca')]
        return [dict(l=lab(50), o='DS', a='F', k='asm')]

    def wrong(self, macro):
        r = self.r
        if r.chance(self.syntax):
            o, a, k = r.pick([('LR', '1,,', 'mach'), ('LA', '1,(2', 'mach'), ('DC', 'A(', 'asm'), ('LR', '1,)', 'mach'), ('DC', "C'abc", 'asm'), ('SETA', '1+', 'ca'), ('AIF', '(1', 'ca'), ('SETC', "'abc", 'ca'), ('AIF', '.X', 'ca'), ('EQU', '1+', 'asm')])
            l = {'SETA': '&A0', 'SETC': '&C0', 'EQU': self.sym()}.get(o, '')
            return [dict(l=l, o=o, a=a, k=k, x=1)]
        o, l, a, k = r.pick([('LR', '', '1', 'mach'), ('LR', '', '1,2,3', 'mach'), ('LA', '', '1,%d(2)' % r.int(4096, 9999), 'mach'), ('NOSUCH', self.sym(), '1,2', 'mach'), ('LR', '', '1,UNDEF%d' % r.int(0, 3), 'mach'),
                             ('DC', self.sym(), "X'GG'", 'asm'), ('DC', '', 'F', 'asm'), ('DC', '', "H'999999'", 'asm'), ('EQU', self.sym(), 'UNDEF1+%s' % self.num(), 'asm'), ('EQU', '', '1', 'asm'), ('SETA', '&A0', "'x'", 'ca'),
                             ('SETA', '&A1', '&UNDEF+1', 'ca'), ('SETC', '&C0', "'AB'(5,1)", 'ca'), ('AGO', '', '.NOWHERE', 'ca'), ('ORG', '', '5', 'asm'), ('SETB', '&A0', '(1)', 'ca'), ('LR', '', '&UNDEF,1', 'mach'),
                             ('DS', self.sym(), "0CL(UNDEF2)", 'asm'), ('MVC', '', '0(300,1),2', 'mach'), ('SETA', '&C0', '1', 'ca'), ('ANOP', '.DUP' if self.seqs else '', '', 'ca'), ('USING', '', '1', 'asm'), ('SETA', '&A0', "(NOFUN '1')", 'ca'), ('DROP', '', '1,2,99', 'asm')])
        return [dict(l=l, o=o, a=a, k=k)]

    def call(self, macro):
        r = self.r
        name, n = r.pick(self.macros)
        op = lambda: r.pick(['1', 'abc', '(1,2,(3))', "'a b,c'", '&A0', 'X&C0', '', self.sym(), "C'it''s'", 'L\'' + self.sym(), '(a,b)', '&C1', '*+4', "A(1)"] + (['&P1', '&SYSLIST(2)'] if macro else []))
        ops = r.list(0, 4, op)
        if r.chance(40):
            ops.insert(r.int(0, len(ops)), 'K=' + op())
        while ops and ops[-1] == '':
            ops.pop()
        if r.chance(4):
            ops.append('NOKEY=1')
        return dict(l=self.sym() if r.chance(30) else '', o=name, a=','.join(ops), k='call')

    def macro(self, name):
        r = self.r
        proto = dict(l='&NM' if r.chance(60) else '', o=name, a=','.join(['&P1', '&P2', '&K=' + r.pick(['', '5', 'abc', "'x y'", '(1,2)'])]), k='proto')
        old, self.ns = self.ns, self.ns
        body = self.block(0, 6, 1, True)
        if r.chance(30):
            body.insert(r.int(0, len(body)), dict(l='', o='SETC', a="'&P1'.'&K'", k='ca') | {'l': '&C0'})
        if r.chance(40) and proto['l']:
            body.insert(0, dict(l='&NM', o='DS', a='0H', k='asm'))
        if r.chance(20):
            body.insert(0, dict(l='X&P1', o='EQU', a='&P2', k='asm'))
        if r.chance(15):
            self.ns += 1
            body.append(dict(l='', o='MEXIT', a='', k='ca'))
        self.macros.append((name, 2))
        return [dict(l='', o='MACRO', a='', k='def'), proto] + body + [dict(l='', o='MEND', a='', k='def')]

    def block(self, lo, hi, depth, macro=False):
        out = []
        for b in self.r.list(lo, hi, lambda: self.stmt(depth, macro)):
            out += b
        return out


SYMS = ['SYM%d' % i for i in range(8)] + ['XABC', 'X1', 'XA', 'S1', 'S2', 'D1'] + ['EXT%d' % i for i in range(4)] + ['UNDEF1']
VARS = ['A0', 'A1', 'A2', 'B0', 'B1', 'C0', 'C1', 'ARR', 'G0', 'G1', 'G2', 'L0', 'L1', 'L2', 'LX', 'H0', 'H1', 'L0A', 'L1B', 'A']


def in_string(a):
    """for every character of an operand text: is it inside (or a delimiter of) a quoted string"""
    out, i, q = [], 0, False
    while i < len(a):
        c = a[i]
        if q:
            out.append(True)
            if c == "'":
                if a[i + 1:i + 2] == "'":
                    out.append(True)
                    i += 1
                else:
                    q = False
        elif c == "'":
            attr = i > 0 and a[i - 1].upper() in 'LTKNDISO' and (i < 2 or not (a[i - 2].isalnum() or a[i - 2] in '&@#$_')) and i + 1 < len(a) and (a[i + 1] == '&' or a[i + 1].isalpha())
            out.append(not attr)
            q = not attr
        else:
            out.append(False)
        i += 1
    return out


def commas(a):
    """positions behind commas outside strings and parentheses"""
    s, d, out = in_string(a), 0, []
    for i, c in enumerate(a):
        if s[i]:
            continue
        d += (c == '(') - (c == ')')
        if c == ',' and d == 0:
            out.append(i + 1)
    return out


def write(stmts, lay, eol='\n', last=True):
    """lay(i, stmt) -> dict with the layout of one statement: g1, g2 (spaces), up (function of a character), rem (remark or None),
    brk (set of operand positions to continue at, with remarks), before (comment lines), seq (sequence fields), cc.
    Returns text, and for every statement its first and last line and the place of each of its characters."""
    lines, where = [], []
    for i, s in enumerate(stmts):
        L = lay(i, s)
        for c in L.get('before', ()):
            lines.append(c)
        first = len(lines)
        place = {}
        cur, col = '', 0
        brk = L.get('brk', {})
        seq = L.get('seq')
        cc = L.get('cc', 'X')
        f = L.get('case')

        def put(ch, ident=None):
            nonlocal cur
            if len(cur) == 71:
                cont()
            if ident is not None:
                place[ident] = (len(lines), len(cur))
            cur += ch

        def cont():
            nonlocal cur
            lines.append(cur.ljust(71) + cc + (seq(len(lines)) if seq else ''))
            cur = ' ' * 15
        a = s['a']
        for n, ch in enumerate(s['l']):
            put(f(s, 'l', n, ch) if f else ch, ('l', n))
        g1 = L.get('g1')
        for _ in range(max(1, 9 - len(cur)) if g1 is None else g1):
            put(' ')
        for n, ch in enumerate(s['o']):
            put(f(s, 'o', n, ch) if f else ch, ('o', n))
        if a or L.get('rem') is not None:
            g2 = L.get('g2')
            for _ in range(max(1, 15 - len(cur)) if g2 is None else g2):
                put(' ')
        for n, ch in enumerate(a):
            if n in brk:
                if brk[n]:
                    if len(cur) < 71:
                        for x in (' ' + brk[n])[:71 - len(cur)]:
                            put(x)
                cont()
            put(f(s, 'a', n, ch) if f else ch, ('a', n))
        if L.get('rem') is not None:
            for x in ' ' + L['rem']:
                put(x)
        lines.append((cur.ljust(72) + seq(len(lines))) if seq else cur)
        where.append((first, len(lines) - 1, place))
    return eol.join(lines) + (eol if last else ''), where
