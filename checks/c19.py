"""C19: looking ahead."""
from vf import Violation

TARGETS = ['drv_an']
FAST = True
TECHNIQUE = 'property-based testing: generated programs with attribute references and branches ahead of their targets against a model that knows all definitions'
EXAMPLES = {'quick': 6000, 'thorough': 250000}
RULE = ('case = open code with copy members, macros, attribute references to symbols defined before, behind, in members or nowhere, forward branches, OPSYN, AREAD records and decoy definitions; '
        'oracle = a model that executes the flattened statements with every definition known: executed trace with attribute values, symbols defined, problems; '
        'non-trivial = at least two searches and four trace points')
ASSUMPTIONS = ['a symbol whose definition was skipped before it is referred to is known if a search passed it', 'every symbol and sequence symbol is defined by one statement only']

FORMS = [('DS F', 'F', 4), ('DC XL7\'1\'', 'X', 7), ('DC CL3\'A\'', 'C', 3), ('DS 3H', 'H', 2), ('EQU 5,12,C\'Q\'', 'Q', 12), ('EQU 5', 'U', 1), ('LR 1,2', 'I', 2), ('LA 1,2', 'I', 4), ('MVC 0(4,1),0(2)', 'I', 6),
         ('DS 0D', 'D', 8), ('DC A(0)', 'A', 4), ('DC AL3(0)', 'R', 3), ('DC FL3\'1\'', 'G', 3), ('DS PL4', 'P', 4), ('DS C', 'C', 1), ('DS CL256', 'C', 256), ('DC C\'ABCDE\'', 'C', 5), ('DC X\'ABC\',F\'1\'', 'X', 2), ('BR 14', 'I', 2), ('DS 2XL(3+2)', 'X', 5)]
ALIAS = {'DS': 'DSX', 'EQU': 'EQX', 'LR': 'LRX', 'DC': 'DCX'}


class G:
    def __init__(self, r):
        self.r = r
        self.names = ['D%d' % i for i in range(r.int(2, 9))]
        self.todo = list(self.names)
        self.nseq, self.pend, self.nmem, self.members, self.ntr, self.decoys = 0, [], 0, {}, 0, 0
        self.alias = r.chance(25)
        self.ops = ['MA', 'MB']
        self.items = self.block(r.int(3, 22), 0)
        for s in self.pend:
            if self.r.chance(90):
                self.items.insert(self.r.int(s[1] and len(self.items) or len(self.items), len(self.items)), ['seq', s[0]])
        self.pend = []
        for n in self.todo:
            if r.chance(50):
                self.items.append(self.defi(n))

    def defi(self, n):
        return ['def', n, self.r.int(0, len(FORMS) - 1), self.r.weighted([(8, 0), (1, 1), (1, 2)])]

    def seq(self):
        r = self.r
        if r.chance(3):
            return 'NOWHERE%d' % r.int(0, 1)
        if self.pend and r.chance(25):
            return r.pick(self.pend)[0]
        self.nseq += 1
        s = 'S%d' % self.nseq
        self.pend.append([s, 0])
        return s

    def ref(self):
        return self.r.pick(self.names)

    def block(self, n, depth):
        r = self.r
        out = []
        for _ in range(n):
            # labels wanted by branches before
            if self.pend and r.chance(35):
                i = r.int(0, len(self.pend) - 1)
                out.append(['seq', self.pend.pop(i)[0]])
            k = r.weighted([(4 if self.todo else 0, 'def'), (5, 'q'), (3, 'aif'), (2, 'ago'), (4, 'tr'), (2 if depth < 2 else 0, 'copy'), (3, 'mq'), (2, 'op'), (2, 'call'), (2 if depth == 0 else 0, 'aread'), (2, 'decoy'), (1, 'rem')])
            if k == 'def':
                out.append(self.defi(self.todo.pop(r.int(0, len(self.todo) - 1))))
            elif k == 'q':
                out.append(['q', r.pick(['T', 'L', 'TV', 'ACC', 'TWO']), self.ref(), self.ref()])
            elif k == 'aif':
                f = r.pick(FORMS)
                out.append(['aif', self.ref(), r.pick(['T', 'L']), f[1], f[2], r.chance(30), self.seq()])
            elif k == 'ago':
                out.append(['ago', self.seq()])
            elif k == 'tr':
                self.ntr += 1
                out.append(['tr', 't%d' % self.ntr])
            elif k == 'copy':
                self.nmem += 1
                name = 'CP%d' % self.nmem
                self.members[name] = self.block(r.int(0, 5), depth + 1)
                out.append(['copy', name])
            elif k == 'mq':
                out.append(['mq', self.ref(), r.pick(['MT', 'ML', 'MTT', 'MN'])])
            elif k == 'op':
                new = r.pick(['MA', 'MB', 'X1', 'X2'])
                old = r.pick(['MA', 'MB', 'X1', 'X2', ''])
                out.append(['op', new, old])
            elif k == 'call':
                out.append(['call', r.pick(['MA', 'MB', 'X1', 'X2'])])
            elif k == 'aread':
                q = r.pick([None, self.ref()])
                kind = r.pick(['plain', 'def', 'q'])
                self.decoys += 1
                rec = {'plain': 'some text %d' % self.decoys, 'def': 'R%d DS F' % self.decoys, 'macro': 'x MACRO', 'q': 'R%d EQU 1' % self.decoys}[kind]
                out.append(['aread', rec, q, self.ref() if r.chance(30) else None])
            elif k == 'decoy':
                self.decoys += 1
                out.append(['decoy', self.decoys, self.ref(), r.pick([0, 0, 1]), r.pick(self.pend)[0] if self.pend and r.chance(40) else 'Z%d' % self.decoys])
            else:
                out.append(['rem', r.pick(['* D1 DS F', '.*', '*', '* .S1 ANOP'])])
        return out


def gen(r, tier):
    g = G(r)
    return {'items': g.items, 'members': g.members, 'alias': g.alias, 'tail': r.chance(20)}


HEAD = """ GBLA &K,&Y
 GBLC &TR(300)
 MACRO
 MA
 GBLA &K
 GBLC &TR(300)
&K SETA &K+1
&TR(&K) SETC 'a'
 MEND
 MACRO
 MB
 GBLA &K
 GBLC &TR(300)
&K SETA &K+1
&TR(&K) SETC 'b'
 MEND
 MACRO
 MT &P
 GBLA &K
 GBLC &TR(300)
&K SETA &K+1
&TR(&K) SETC T'&P
 MEND
 MACRO
 ML &P
 LCLA &X
 GBLA &K
 GBLC &TR(300)
&K SETA &K+1
 AIF (T'&P EQ 'U' OR T'&P EQ 'M').N
&X SETA L'&P
.N ANOP
&TR(&K) SETC '&X'
 MEND
 MACRO
 MTT &P
 GBLA &K
 GBLC &TR(300)
&K SETA &K+1
 AIF (T'&P EQ 'I').I
&TR(&K) SETC 'other'
 MEXIT
.I ANOP
&TR(&K) SETC 'machine'
 MEND
 MACRO
 MN &P
 MT &P
 MEND
 MACRO
 AR &P,&Q
 GBLA &K
 GBLC &TR(300)
&K SETA &K+1
 AIF ('&Q' EQ '').A
&TR(&K) SETC T'&Q
&K SETA &K+1
.A ANOP
&R AREAD
&TR(&K) SETC '&R'(1,12)
 AIF ('&P' EQ '').E
&K SETA &K+1
&TR(&K) SETC T'&P
.E MEND
"""


def emit(case):
    libs = {}

    def block(items, out):
        for it in items:
            k = it[0]
            if k == 'def':
                f = FORMS[it[2]][0]
                if case['alias']:
                    o, _, rest = f.partition(' ')
                    f = ALIAS.get(o, o) + ' ' + rest
                s = '%s %s' % (it[1], f)
                if it[3] == 1:
                    s = (s + ' remark').ljust(71) + 'X\n' + ' ' * 15 + 'D0 DS F'
                elif it[3] == 2:
                    s += ' D0 DS F'
                out.append(s)
            elif k == 'q':
                v, a, b = it[1:]
                out.append('&K SETA &K+1')
                if v == 'T':
                    out.append("&TR(&K) SETC T'%s" % a)
                elif v == 'TV':
                    out.append("&V SETC '%s'" % a)
                    out.append("&TR(&K) SETC T'&V")
                elif v == 'L':
                    out.append("&X SETA L'%s" % a)
                    out.append("&TR(&K) SETC '&X'")
                elif v == 'ACC':
                    out.append("&Y SETA &Y+L'%s" % a)
                    out.append("&TR(&K) SETC '&Y'")
                else:
                    out.append("&B SETB (T'%s EQ T'%s)" % (a, b))
                    out.append("&TR(&K) SETC '&B'")
            elif k == 'aif':
                c = "T'%s EQ '%s'" % (it[1], it[3]) if it[2] == 'T' else "L'%s EQ %d" % (it[1], it[4])
                out.append(' AIF (%s%s%s).%s' % ('NOT (' if it[5] else '', c, ')' if it[5] else '', it[6]))
            elif k == 'ago':
                out.append(' AGO .%s' % it[1])
            elif k == 'seq':
                out.append('.%s ANOP' % it[1])
            elif k == 'tr':
                out.append('&K SETA &K+1')
                out.append("&TR(&K) SETC '%s'" % it[1])
            elif k == 'copy':
                out.append(' COPY ' + it[1])
                m = []
                block(case['members'][it[1]], m)
                libs[it[1]] = '\n'.join(m) + '\n'
            elif k == 'mq':
                out.append(' %s %s' % (it[2], it[1]))
            elif k == 'op':
                out.append('%s OPSYN %s' % (it[1], it[2]))
            elif k == 'call':
                out.append(' ' + it[1])
            elif k == 'aread':
                out.append(' AR %s,%s' % (it[2] or '', it[3] or ''))
                out.append(it[1])
            elif k == 'decoy':
                out += [' MACRO', ' DEC%d' % it[1]]
                if it[3]:
                    out += [' MACRO', ' INN%d' % it[1], '%s DS XL99' % it[2], ' MEND']
                out += ['.%s ANOP' % it[4], '%s DS XL98' % it[2], ' MEND']
            else:
                out.append(it[1])
    out = HEAD.split('\n')[:-1]
    if case['alias']:
        out += ['%s OPSYN %s' % (v, k) for k, v in ALIAS.items()]
    block(case['items'], out)
    return '\n'.join(out) + '\n', libs


class Model:
    def __init__(self, case):
        self.flat = []
        self.flatten(case, case['items'])
        self.seqs = {it[1]: i for i, it in enumerate(self.flat) if it[0] == 'seq'}
        self.known, self.seq_known = set(), set()
        self.trace, self.errs, self.executed, self.searches = [], [], {}, 0
        self.ops = {'MA': 'a', 'MB': 'b'}
        self.y = 0
        self.open = False

    def flatten(self, case, items):
        for it in items:
            if it[0] == 'copy':
                self.flatten(case, case['members'][it[1]])
            elif it[0] == 'aread':
                self.flat.append(it)
                self.flat.append(['rec', it[1]])
            else:
                self.flat.append(it)

    def search(self, pos, want=None, seq=None):
        """passes statements from pos; returns the index where seq is"""
        self.searches += 1
        want = set(want or [])
        for i in range(pos, len(self.flat)):
            it = self.flat[i]
            if it[0] == 'seq':
                self.seq_known.add(it[1])
                if it[1] == seq:
                    return i
            if it[0] == 'def':
                self.known.add(it[1])
                want.discard(it[1])
                if seq is None and not want:
                    return i
        for n in want:
            self.known.add('?' + n)

    def attr(self, n, pos):
        d = next((it for it in self.flat if it[0] == 'def' and it[1] == n), None)
        if n in self.executed or n in self.known:
            return FORMS[d[2]][1:]
        if '?' + n in self.known:
            # looked for and not found: found later only if the definition comes to be executed
            return ('U', None)
        self.search(pos, [n])
        if n in self.known:
            return FORMS[d[2]][1:]
        return ('U', None)

    def jump(self, s, pos):
        if s in self.seqs and s in self.seq_known:
            return self.seqs[s]
        i = self.search(pos, seq=s)
        if i is None:
            self.errs.append('E047')
            return pos
        return i

    def run(self):
        pc = 0
        while pc < len(self.flat):
            it = self.flat[pc]
            pc += 1
            k = it[0]
            if k == 'def':
                self.executed[it[1]] = 1
            elif k == 'seq':
                self.seq_known.add(it[1])
            elif k == 'q':
                v, a, b = it[1:]
                if v in ('T', 'TV'):
                    self.trace.append(self.attr(a, pc)[0])
                elif v == 'TWO':
                    x = [n for n in (a, b) if n not in self.executed and n not in self.known and '?' + n not in self.known]
                    if x:
                        self.search(pc, x)
                    self.trace.append(str(int(self.attr(a, pc)[0] == self.attr(b, pc)[0])))
                else:
                    l = self.attr(a, pc)[1]
                    if l is None:
                        self.errs.append('W013')
                        l = 1
                    if v == 'ACC':
                        self.y += l
                        l = self.y
                    self.trace.append(str(l))
            elif k == 'aif':
                t, l = self.attr(it[1], pc)
                if it[2] == 'L' and l is None:
                    self.errs.append('W013')
                    l = 1
                if ((t == it[3]) if it[2] == 'T' else (l == it[4])) != it[5]:
                    pc = self.jump(it[6], pc)
            elif k == 'ago':
                pc = self.jump(it[1], pc)
            elif k == 'tr':
                self.trace.append(it[1])
            elif k == 'mq':
                t, l = self.attr(it[1], pc)
                self.trace.append({'MT': t, 'MN': t, 'ML': str(l if t != 'U' and l else 0), 'MTT': 'machine' if t == 'I' else 'other'}[it[2]])
            elif k == 'op':
                if it[2] == '':
                    if it[1] in self.ops:
                        del self.ops[it[1]]
                    else:
                        self.errs.append('E049')
                elif it[2] in self.ops:
                    self.ops[it[1]] = self.ops[it[2]]
                else:
                    self.errs.append('A246')
            elif k == 'call':
                if it[1] in self.ops:
                    self.trace.append(self.ops[it[1]])
                else:
                    self.errs.append('E049')
            elif k == 'aread':
                if it[3]:
                    self.trace.append(self.attr(it[3], pc)[0])
                pc += 1
                self.trace.append(it[1].ljust(80)[:12])
                if it[2]:
                    self.trace.append(self.attr(it[2], pc)[0])
            elif k == 'rec':
                raise AssertionError


def run(case, env):
    text, libs = emit(case)
    m = Model(case)
    m.run()
    names = sorted({it[1] for it in m.flat if it[0] == 'def'})
    o = env.drv('drv_an').call({'text': text, 'libs': libs, 'vars': ['TR', 'K'], 'syms': names, 'limit': 6000})
    if o.get('cut'):
        raise Violation('the analysis does not end\n' + text)
    body = text[len(HEAD):] + ''.join('--- %s\n%s' % x for x in libs.items())

    def bad(s):
        raise Violation('%s\nproblems reported: %s\n%s' % (s, [(d['code'], d['r'][0]) for d in o['diags']][:6], body))
    k = o['vars']['K']['v'] if o['vars']['K'] else 0
    got = [o['vars']['TR']['v'].get(str(i + 1)) for i in range(k or 0)] if o['vars']['TR'] else []
    if got != m.trace:
        bad('executed: expected %s\ngot %s' % (m.trace, got))
    for n in names:
        s = o['syms'].get(n)
        if (n in m.executed) != bool(s):
            bad('symbol %s: statement %s but symbol %s' % (n, 'executed' if n in m.executed else 'not executed', s))
        if s:
            f = FORMS[next(it for it in m.flat if it[0] == 'def' and it[1] == n)[2]]
            if s.get('L') != f[2] or s.get('T') not in (None, f[1]):
                bad('symbol %s (%s): attributes %s' % (n, f[0], s))
    codes = sorted(d['code'] for d in o['diags'])
    if codes != sorted(m.errs):
        bad('problems expected %s, got %s' % (sorted(m.errs), codes))
    labels = {it[0] for it in m.flat} | ({'member'} if libs else set()) | ({'alias'} if case['alias'] else set())
    return {'nontrivial': m.searches > 1 and len(m.trace) > 3, 'sample': body, 'labels': sorted(labels)}
