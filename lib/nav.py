"""Programs that know every symbol they write: where it is written, in which scope, what it denotes.

Every piece of a statement is text or (kind, name); the writer records the place of each piece.  Kinds: ord, var, seq,
mac (name of a macro), ins (name of a built-in operation), copy.  A record in occ:
  k kind, n name (upper case) or the unique id of a macro, s scope (variable and sequence symbols), f file, l line,
  c column, w width, need: ids of the macros that have to be executed for this occurrence to be seen ('#': never)."""

ORDS = ['O%d' % i for i in range(6)] + ['LABEL7', '#X', 'A_1', 'B']
AV = ['V0', 'V1', 'NUM_1']
CV = ['C0', 'C1', 'TEXT']
BV = ['B0']
WV = ['W0', 'W1']
TYPE = dict([(n, 'A') for n in AV + WV] + [(n, 'C') for n in CV] + [(n, 'B') for n in BV])
SEQS = ['S0', 'S1', 'X', 'LOOP']
BRK = object()


class Scope:
    def __init__(self, uid, inmacro):
        self.uid, self.inmacro = uid, inmacro
        self.vars, self.params, self.seqs, self.glob = {}, [], [], []
        self.fresh = 0


class File:
    def __init__(self, name):
        self.name, self.lines = name, []


class Nav:
    def __init__(self, r, big=1):
        self.r = r
        self.files, self.occ, self.defs, self.hov, self.blank, self.fields = {}, [], {}, {}, [], []
        self.calls, self.macros, self.scopes, self.ends = [], {}, {}, {}
        self.slices = []          # (file, first line, last line, scope) of everything written
        self.undef = list(ORDS)
        self.values = {}
        self.mems, self.libn, self.nmac = 0, 0, 0
        self.callable, self.budget = [], r.int(10, 40) * big
        self.lib_pending = []
        self.case_noise = r.pick([0, 0, 25])
        self.main = self.file('PROG')
        self.open = Scope('open', False)
        self.scopes['open'] = self.open
        self.body(self.main, self.open, [], r.int(4, 22), 0)
        for o in self.undef[:]:
            if r.chance(60):
                self.define(self.main, self.open, [], o)
        if r.chance(30):
            self.st(self.main, self.open, [], [], ('ins', 'END'), [])

    def file(self, name):
        f = File(name)
        self.files[name] = f
        return f

    # ---- writing
    def spell(self, n):
        if self.case_noise and self.r.chance(self.case_noise):
            return ''.join(c.lower() if self.r.chance(50) else c for c in n)
        return n

    def put(self, f, line, kind, name, scope, need, model, width_text):
        self.occ.append({'k': kind, 'n': name, 's': scope.uid, 'f': f.name, 'l': line, 'c': len(f.lines[line]), 'w': len(width_text), 'need': ['#'] if model else need})

    def st(self, f, scope, need, label, op, operands, remark=None, kind='ca', skipped=False, inner_only=False, opneed=None):
        """need: macros that have to run for VAR and SEQ to be collected; ORD and INSTR need the macro itself too"""
        r = self.r
        # comment lines before
        while r.chance(8):
            f.lines.append(r.pick(['*', '.*']) + ' ' + r.pick(['O0 remark &V0', 'COPY MEM1', 'a comment', '.S0 LA 1,O1']))
            self.blank.append([f.name, len(f.lines) - 1, r.int(1, len(f.lines[-1]) - 1)])
            self.fields.append({'f': f.name, 'l': len(f.lines) - 1, 'c': 0, 'w': len(f.lines[-1]), 't': 'comment', 'need': []})
        base = list(need)
        own = base + ([scope.uid] if scope.inmacro else [])
        if skipped:
            own = ['#']
            if not scope.inmacro:
                base = ['#']
        model = kind not in ('ca', 'mac') and any(isinstance(p, tuple) and p[0] == 'var' for p in label + operands)
        f.lines.append('')
        first = len(f.lines) - 1
        stmt = {'need': own}

        def piece(p, field):
            cur = len(f.lines) - 1
            if isinstance(p, str):
                if p.strip():
                    self.fields.append({'f': f.name, 'l': cur, 'c': len(f.lines[cur]), 'w': len(p), 't': field, 'text': p, 'need': base})
                f.lines[cur] += p
                return
            k, n = p[0], p[1]
            text = {'var': '&', 'seq': '.'}.get(k, '') + self.spell(n)
            if k == 'mac':
                text = self.spell(self.macros[n]['name'])
            self.fields.append({'f': f.name, 'l': cur, 'c': len(f.lines[cur]), 'w': len(text), 't': field, 'k': k, 'need': base})
            if k in ('var', 'seq'):
                nd = base
            elif k == 'copy':
                nd = base
            else:
                nd = own if opneed is None or field != 'op' else opneed
            self.put(f, cur, k, n, scope, nd, model and k == 'ord', text)
            f.lines[cur] += text
        for p in label:
            piece(p, 'label')
        if op is not None:
            f.lines[-1] += ' ' * r.weighted([(5, 1), (2, 2), (1, 5)])
            piece(op, 'op')
        if operands:
            brk = [i for i, p in enumerate(operands) if p is BRK]
            at = r.pick(brk) if brk and r.chance(12) else -1
            gap = r.weighted([(5, 1), (2, 2), (1, 4)])
            if at >= 0 and not (kind in ('ca', 'mac') and r.chance(50)):
                # the text before the break ends in column 71
                w = sum(len(p) if isinstance(p, str) else len(p[1]) + (p[0] in ('var', 'seq')) for p in operands[:at] if p is not BRK)
                gap = max(gap, 71 - len(f.lines[-1]) - w)
            f.lines[-1] += ' ' * gap
            for pi, p in enumerate(operands):
                if p is BRK:
                    if pi == at and len(f.lines[-1]) <= 71:
                        cur = len(f.lines) - 1
                        f.lines[-1] = f.lines[-1].ljust(71) + 'X'
                        self.fields.append({'f': f.name, 'l': cur, 'c': 71, 'w': 1, 't': 'cont', 'need': []})
                        f.lines.append(' ' * 15)
                    continue
                piece(p, 'operand')
            if remark is None and r.chance(15):
                remark = r.pick(['remark', 'O0', 'O1 and O2', 'LA 1,O0', 'COPY'])
            if remark and len(f.lines[-1]) + len(remark) + 2 < 71:
                f.lines[-1] += ' ' * r.int(1, 3)
                cur = len(f.lines) - 1
                c = len(f.lines[-1])
                if c + len(remark) < 71:
                    f.lines[-1] += remark
                    self.blank.append([f.name, cur, c + r.int(0, len(remark) - 1)])
                    self.fields.append({'f': f.name, 'l': cur, 'c': c, 'w': len(remark), 't': 'remark', 'need': base})
        if r.chance(4) and len(f.lines[-1]) < 70:
            cur = len(f.lines) - 1
            f.lines[-1] = f.lines[-1].ljust(72) + 'SEQ%05d' % r.int(0, 99999)
            self.fields.append({'f': f.name, 'l': cur, 'c': 72, 'w': 8, 't': 'seqno', 'need': []})
        self.slices.append([f.name, first, len(f.lines) - 1, scope.uid, base])
        self.ok = all(len(l) <= 80 and (len(l) <= 71 or l[71] in 'X ') for l in f.lines[first:])
        if not self.ok:
            self.bad = True
        return first

    bad = False

    # ---- terms
    def num(self):
        return str(self.r.int(0, 15))

    def ordt(self):
        return ('ord', self.r.pick(ORDS))

    def aterm(self, scope, depth=0):
        r = self.r
        a = [v for v in scope.vars if TYPE.get(v) == 'A' and v not in WV]
        w = [v for v in scope.vars if v in WV]
        c = [v for v in scope.vars if TYPE.get(v) == 'C']
        k = r.weighted([(2, 'n'), (4 if a else 0, 'v'), (2 if w and depth < 2 else 0, 'w'), (1, 'attr'), (1 if c else 0, 'k'), (1 if scope.params else 0, 'p'), (1 if depth < 2 else 0, 'f')])
        if k == 'n':
            return [self.num()]
        if k == 'v':
            return [('var', r.pick(a))]
        if k == 'w':
            return [('var', r.pick(w)), '('] + self.aterm(scope, depth + 1) + ['+1)' if r.chance(30) else ')']
        if k == 'attr':
            return [r.pick(["L'", "L'"]), self.ordt()]
        if k == 'k':
            return ["K'", ('var', r.pick(c))]
        if k == 'p':
            if r.chance(25):
                return ["N'", ('var', 'SYSLIST')]
            return [r.pick(["N'", "K'"]), ('var', r.pick(scope.params))]
        return ['('] + self.aterm(scope, depth + 1) + [r.pick(['+', '-', '*']), *self.aterm(scope, depth + 1), ')']

    def aexpr(self, scope):
        out = self.aterm(scope)
        for _ in range(self.r.int(0, 2)):
            out = out + [self.r.pick(['+', '-', '*'])] + self.aterm(scope)
        return out

    def cterm(self, scope):
        r = self.r
        c = [v for v in scope.vars if TYPE.get(v) == 'C'] + scope.params
        k = r.weighted([(2, 's'), (4 if c else 0, 'v'), (2 if c else 0, 'sub'), (1 if c else 0, 'up'), (1, 'a')])
        if k == 's':
            return ["'" + r.pick(['abc', 'O0', '', 'x y']) + "'"]
        if k == 'v':
            return ["'", ('var', r.pick(c)), r.pick(["'", ".O1'", " x'"])]
        if k == 'a':
            a = [v for v in scope.vars if v in AV]
            return ["'x", ('var', r.pick(a)), "'"] if a else ["''"]
        if k == 'up':
            return ["(UPPER '", ('var', r.pick(c)), "')"]
        return ["'abc", ('var', r.pick(c)), "'(1,"] + self.aterm(scope, 1) + [')']

    def cexpr(self, scope):
        out = self.cterm(scope)
        while self.r.chance(25) and not (out[0] if isinstance(out[0], str) else '').startswith('('):
            nxt = self.cterm(scope)
            if isinstance(nxt[0], str) and nxt[0].startswith('('):
                break
            out = out + ['.'] + nxt
        return out

    # ---- statements
    def mark(self, f, scope, name):
        if name not in scope.vars:
            scope.vars[name] = None

    def set_def(self, f, scope, name, line, col, typ, glob=False):
        if name not in scope.vars:
            scope.vars[name] = typ
            self.defs['var/%s/%s' % (scope.uid, name)] = [f.name, line, col]
            self.hov['var/%s/%s' % (scope.uid, name)] = 'SET%s variable' % typ

    def last(self, kind, name):
        for o in reversed(self.occ):
            if o['k'] == kind and o['n'] == name:
                return o

    def define(self, f, scope, need, name, model_ok=False):
        r = self.r
        self.undef.remove(name)
        k = r.weighted([(3, 'equ'), (2, 'ds'), (1, 'la'), (1, 'dc')])
        if k == 'equ':
            v = r.int(0, 4000)
            self.st(f, scope, need, [('ord', name)], ('ins', 'EQU'), [str(v)], kind='asm')
            self.values[name] = ['abs', v, 'L: 1', 'T: U']
        elif k == 'ds':
            t, n = r.pick([('F', 4), ('H', 2), ('D', 8), ('CL7', 7)])
            self.st(f, scope, need, [('ord', name)], ('ins', 'DS'), [t], kind='asm')
            self.values[name] = ['rel', None, 'L: %d' % n, 'T: ' + t[0]]
        elif k == 'la':
            self.st(f, scope, need, [('ord', name)], ('ins', 'LA'), ['1,', BRK, self.ordt()], kind='mach')
            self.values[name] = ['rel', None, 'L: 4', 'T: I']
        else:
            self.st(f, scope, need, [('ord', name)], ('ins', 'DC'), ['A(', self.ordt(), ',', BRK, self.ordt(), '-', self.ordt(), ')'], kind='asm')
            self.values[name] = ['rel', None, 'L: 4', 'T: A']
        o = self.last('ord', name) if k in ('equ', 'ds') else next(o for o in reversed(self.occ) if o['k'] == 'ord' and o['n'] == name and o['c'] == 0)
        self.defs['ord/' + name] = [f.name, o['l'], 0]
        self.values[name].append(list(need) + ([scope.uid] if scope.inmacro else []))

    def body(self, f, scope, need, n, depth, once=True):
        r = self.r
        for _ in range(n):
            if self.budget <= 0:
                return
            self.budget -= 1
            self.one(f, scope, need, depth, once)

    def one(self, f, scope, need, depth, once):
        r = self.r
        inm = scope.inmacro
        free = self.undef if once else []
        newseq = [s for s in SEQS if s not in scope.seqs]
        k = r.weighted([(4 if free else 0, 'def'), (4, 'mach'), (2, 'data'), (6, 'set'), (2, 'lcl'), (3, 'aif'), (2 if newseq else 0, 'seq'),
                        (3 if depth < 2 and not (inm and not once) else 0, 'macro'), (5 if self.callable else 0, 'call'), (2 if depth < 3 and self.mems < 4 and not (inm and self.macros[scope.uid]['outer'] not in ([], [scope.uid])) else 0, 'copy'),
                        (1, 'skip'), (1, 'created'), (2, 'model'), (1 if self.libn < 2 else 0, 'lib')])
        if k == 'def':
            self.define(f, scope, need, r.pick(free))
        elif k == 'mach':
            self.mach(f, scope, need)
        elif k == 'data':
            self.st(f, scope, need, [], ('ins', 'DC'), r.pick([['A(', self.ordt(), ')'], ['(', self.ordt(), ')X', "'00'"], ['CL(', self.ordt(), ')', "'A'"], ["A(L'", self.ordt(), ',', BRK, self.ordt(), '+4)'], ['Y(', self.ordt(), '-', self.ordt(), ')']]), kind='asm')
        elif k == 'set':
            self.setst(f, scope, need)
        elif k == 'lcl':
            self.lcl(f, scope, need)
        elif k == 'aif':
            self.st(f, scope, need, self.seqlabel(f, scope, newseq, 10), ('ins', 'AIF'), self.false(scope) + [('seq', r.pick(SEQS))] + ([',', BRK] + self.false(scope) + [('seq', r.pick(SEQS))] if r.chance(20) else []))
            self.fixseq(f, scope)
        elif k == 'seq':
            self.st(f, scope, need, self.seqlabel(f, scope, newseq, 100), ('ins', 'ANOP'), [])
            self.fixseq(f, scope)
        elif k == 'macro':
            self.macro(f, need + ([scope.uid] if inm else []), depth + 1, inm)
        elif k == 'lib':
            self.lib(f, scope, need)
        elif k == 'call':
            self.call(f, scope, need, r.pick(self.callable))
        elif k == 'copy':
            self.copy(f, scope, need, depth, once)
        elif k == 'skip':
            self.skip(f, scope, need, newseq)
        elif k == 'created':
            a = [v for v in scope.vars if v in AV]
            if a:
                self.st(f, scope, need, ['&(Q', ('var', r.pick(a)), ')'], ('ins', 'SETA'), self.aexpr(scope))
        elif k == 'model':
            vs = [v for v in scope.vars if v not in WV] + scope.params
            w = [v for v in scope.vars if v in WV]
            if vs:
                k2 = r.int(0, 4)
                v = ('var', r.pick(vs))
                if k2 == 0:
                    self.st(f, scope, need, [], ('ins', 'LA'), [v, ',', BRK, '4'], kind='mach')
                elif k2 == 1 and w:
                    self.st(f, scope, need, [], ('ins', 'LA'), [('var', r.pick(w)), '(', v, '),', BRK, '4'], kind='mach')
                elif k2 == 2:
                    self.st(f, scope, need, [], ('ins', 'LA'), ['1,', BRK, self.ordt(), '+', v], kind='mach')
                elif k2 == 3:
                    self.st(f, scope, need, [], ('ins', 'DC'), ['C' + r.pick(["'x", "' y "]), v, "',A(1)"], kind='asm')
                else:
                    self.st(f, scope, need, [], ('ins', 'DC'), ['F', "'5',", 'A(', v, '+1)'], kind='asm')

    def seqlabel(self, f, scope, newseq, pct):
        self.seqnew = None
        if newseq and self.r.chance(pct):
            self.seqnew = self.r.pick(newseq)
            return [('seq', self.seqnew)]
        return []

    def fixseq(self, f, scope):
        if self.seqnew:
            o = next(o for o in reversed(self.occ) if o['k'] == 'seq' and o['n'] == self.seqnew and o['c'] == 0)
            scope.seqs.append(self.seqnew)
            self.defs['seq/%s/%s' % (scope.uid, self.seqnew)] = [f.name, o['l'], 0]
            self.seqnew = None

    def false(self, scope):
        r = self.r
        a = [v for v in scope.vars if v in AV]
        c = [v for v in scope.vars if TYPE.get(v) == 'C'] + scope.params
        k = r.weighted([(1, 'n'), (2 if a else 0, 'a'), (2 if c else 0, 'c')])
        if k == 'a':
            v = r.pick(a)
            return ['(', ('var', v), ' NE ', ('var', v), ')']
        if k == 'c':
            v = r.pick(c)
            return ["('", ('var', v), "' NE '", ('var', v), "')"]
        return ['(0)']

    def mach(self, f, scope, need, skipped=False):
        r = self.r
        op, ops = r.pick([('LA', ['1,', BRK, self.ordt()]), ('LA', ['1,', self.ordt(), '(2,', BRK, '3)']), ('MVC', [self.ordt(), '(', self.num(), '),', BRK, self.ordt()]), ('MVC', [self.ordt(), '(', self.ordt(), '),', self.ordt()]),
                          ('LR', ['1,', self.ordt()]), ('L', ['2,', BRK, self.ordt(), '+', self.ordt(), '*2']), ('B', [self.ordt()]), ('LA', ['3,L', "'", self.ordt(), '(', self.num(), ')'])])
        self.st(f, scope, need, [], ('ins', op), ops, kind='mach', skipped=skipped)

    def setst(self, f, scope, need, skipped=False):
        r = self.r
        if skipped:
            names = list(scope.vars)
            if not names:
                return
            v = r.pick(names)
        else:
            v = r.pick(AV + CV + BV + WV)
        t = TYPE[v]
        lab = [('var', v)] + (['('] + self.aterm(scope, 1) + [')'] if v in WV else [])
        ops = {'A': self.aexpr, 'C': self.cexpr, 'B': lambda s: r.pick([['1'], self.false(s)])}[t](scope)
        ln = self.st(f, scope, need, lab, ('ins', 'SET' + t), ops, skipped=skipped)
        self.set_def(f, scope, v, ln, 0, t)

    def lcl(self, f, scope, need):
        r = self.r
        t = r.pick('ABC')
        g = r.chance(40)
        names = r.sample([n for n in TYPE if TYPE[n] == t and n not in scope.vars and n not in scope.params and (n not in scope.glob)], 2)
        if not names:
            return
        ops = []
        for n in names[:r.int(1, 2)]:
            if ops:
                ops += [',', BRK]
            ops.append(('var', n))
            if n in WV:
                ops.append('(10)')
        self.st(f, scope, need, [], ('ins', ('GBL' if g else 'LCL') + t), ops)
        for o in list(self.occ)[-len([p for p in ops if isinstance(p, tuple)]):]:
            if o['k'] == 'var':
                self.set_def(f, scope, o['n'], o['l'], o['c'], t)

    def skip(self, f, scope, need, newseq):
        r = self.r
        if not newseq:
            return
        s = r.pick(newseq)
        self.st(f, scope, need, [], ('ins', 'AGO'), [('seq', s)])
        for _ in range(r.int(0, 2)):
            if r.chance(60):
                self.mach(f, scope, need, True)
            else:
                self.setst(f, scope, need, True)
        self.seqnew = s
        self.st(f, scope, need, [('seq', s)], ('ins', 'ANOP'), [])
        self.fixseq(f, scope)

    def copy(self, f, scope, need, depth, once):
        r = self.r
        self.mems += 1
        name = r.pick(['MEM', 'CPY', 'LONGNM']) + str(self.mems)
        self.st(f, scope, need, [], ('ins', 'COPY'), [('copy', name)], kind='asm', opneed=['#'])
        m = self.file(name)
        self.defs['copy/' + name] = [name, None, None]
        self.body(m, scope, need, r.int(1, 4), depth + 1, once)
        if not m.lines:
            self.st(m, scope, need, [], ('ins', 'ANOP'), [])

    def macro(self, f, outer, depth, nested, lib=None):
        """definition; outer: macros that have to run for the definition to be met"""
        r = self.r
        self.nmac += 1
        uid = 'm%d' % self.nmac
        redefinable = not nested and not lib and r.chance(25)
        name = lib or ('RDEF' if redefinable else 'M%d' % self.nmac)
        if redefinable:
            self.callable = [u for u in self.callable if self.macros[u]['name'] != 'RDEF']
        sc = Scope(uid, True)
        self.scopes[uid] = sc
        self.macros[uid] = {'name': name, 'file': f.name, 'outer': outer, 'once': False, 'inner': []}
        if nested:
            self.macros[outer[-1]]['inner'].append(uid)
        self.st(f, Scope('?' + uid, False), outer, [], ('ins', 'MACRO'), [], opneed=['#'])
        params = r.sample(['P1', 'P2', 'P3', 'C0', 'V0'], r.int(0, 3))
        label = [('var', 'LBL')] if r.chance(30) else []
        ops = []
        kw = []
        for i, p in enumerate(params):
            if ops:
                ops += [',', BRK]
            if r.chance(8):
                ops.append(',')  # a positional parameter without a name
            ops.append(('var', p))
            if i == len(params) - 1 and r.chance(30):
                dv = r.pick(['', 'ABC', '(1,2)', 'O1'])
                kw.append([p, dv])
                ops.append('=' + dv)
        pneed = outer if not lib else outer
        # parameters live in the scope of the macro; the name is known when the definition is
        n0 = len(self.occ)
        doc_before = []
        l0 = len(f.lines)
        ln = self.st(f, sc, pneed, label, ('mac', uid), ops, kind='mac', opneed=pneed)
        for o in self.occ[n0:]:
            if o['k'] == 'var':
                sc.params.append(o['n'])
                self.defs['var/%s/%s' % (uid, o['n'])] = [f.name, o['l'], o['c']]
                self.hov['var/%s/%s' % (uid, o['n'])] = 'MACRO parameter'
            elif o['k'] == 'mac':
                self.defs['mac/' + uid] = [f.name, o['l'], o['c']]
        # names of parameters are not used for SET symbols here
        for o in self.occ[n0:]:
            if o['k'] == 'ord':
                o['need'] = ['#']
        self.macros[uid]['params'] = params
        self.macros[uid]['kw'] = kw
        self.macros[uid]['label'] = bool(label)
        sc.shadow = set(params)
        saved = dict(TYPE)
        for p in params:
            TYPE.pop(p, None)
        lists = [(L, list(L)) for L in (AV, CV, BV, WV)]
        for L in (AV, CV, BV, WV):
            L[:] = [x for x in L if x not in params]
        once = not lib and r.chance(60)
        try:
            self.macros[uid]['once'] = once
            self.body(f, sc, outer, r.int(0, 6), depth, once)
            if self.macros[uid]['inner']:
                self.macros[uid]['once'] = True
        finally:
            TYPE.clear()
            TYPE.update(saved)
            for L, v in lists:
                L[:] = v
        self.st(f, sc, outer, self.seqlabel(f, sc, [s for s in SEQS if s not in sc.seqs], 10), ('ins', 'MEND'), [], opneed=['#'])
        self.fixseq(f, sc)
        if not lib and not nested:
            self.callable.append(uid)
        if r.chance(60) and not lib and not nested and f.name == 'PROG':
            self.call(f, self.open, [], uid)
        return uid

    def lib(self, f, scope, need):
        self.libn += 1
        name = 'LIBM%d' % self.libn
        m = self.file(name)
        uid = 'm%d' % (self.nmac + 1)
        self.macro(m, [uid], 2, False, lib=name)
        self.callable.append(uid)
        self.call(f, scope, need, uid)

    def call(self, f, scope, need, uid):
        r = self.r
        mac = self.macros[uid]
        own = need + ([scope.uid] if scope.inmacro else [])
        if scope.inmacro and (mac['name'] == 'RDEF' or uid == scope.uid or mac['outer'] and mac['outer'] != [uid] or mac['once']):
            return
        if mac['once']:
            if any(c[0] == uid for c in self.calls):
                return
        ops = []
        vs = [v for v in scope.vars if v not in WV] + scope.params
        for p in mac['params']:
            if ops:
                ops += [',', BRK]
            if any(p == x[0] for x in mac['kw']):
                ops.append(p + '=')
            k = r.weighted([(3, 'o'), (3 if vs else 0, 'v'), (1, 'l'), (1, 'n'), (1 if vs else 0, 's')])
            ops += {'o': lambda: [self.ordt()], 'v': lambda: [('var', r.pick(vs))], 'l': lambda: ['(', self.ordt(), ',', self.ordt(), ')'], 'n': lambda: [self.num()], 's': lambda: ["'a ", ('var', r.pick(vs)), "'"]}[k]()
        label = []
        self.st(f, scope, need, label, ('mac', uid), ops, kind='mac')
        self.calls.append([uid, own])
        if not scope.inmacro and not need:
            for u in mac['inner']:
                if u not in self.callable:
                    self.callable.append(u)

    # ---- result
    def result(self):
        called = set()
        while True:
            n = len(called)
            for u, own in self.calls:
                if all(x in called for x in own):
                    called.add(u)
            if len(called) == n:
                break
        libs = {f: '\n'.join(self.files[f].lines) + '\n' for f in self.files if f != 'PROG'}

        def seen(need):
            return all(x in called for x in need)
        occ = []
        for o in self.occ:
            d = {k: v for k, v in o.items() if k != 'need'}
            d['must'] = seen(o['need'])
            d['maybe'] = True
            occ.append(d)
        scopes = {}
        for uid, s in self.scopes.items():
            scopes[uid] = {'vars': {v: self.hov.get('var/%s/%s' % (uid, v)) for v in list(s.vars) + s.params}, 'seqs': s.seqs}
        macs = {}
        for u, m in self.macros.items():
            known = all(x in called for x in m['outer'])
            macs[u] = {'name': m['name'], 'known': known, 'called': u in called, 'file': m['file'], 'params': m['params'], 'kw': m['kw'], 'label': m['label']}
        return {'text': '\n'.join(self.main.lines) + '\n', 'libs': libs, 'occ': occ, 'defs': self.defs, 'hov': self.hov, 'blank': self.blank, 'scopes': scopes,
                'macros': macs, 'values': {k: v[:-1] + [seen(v[-1])] for k, v in self.values.items()}, 'slices': [s[:4] + [seen(s[4])] for s in self.slices], 'called': sorted(called), 'bad': self.bad,
                'fields': [{k: (v if k != 'need' else seen(v)) for k, v in x.items()} for x in self.fields]}
