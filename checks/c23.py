"""C23: the macro tracer against an interpreter of the traced programs."""
import json, os, shutil
import ses
from vf import Violation

TARGETS = ['drv_ls']
TECHNIQUE = 'model-based stateful testing: generated programs with macros and copy members, generated sequences of tracer actions and breakpoints; oracle: an interpreter that lists every executed statement with its call stack and variable values'
EXAMPLES = {'quick': 450, 'thorough': 15000}
RULE = 'a case is non-trivial when a macro or copy member is entered and at least five stops are compared'
ASSUMPTIONS = ['the files and the configuration do not change while a program is traced', 'traced programs have no errors in conditional assembly']
MAXT = 260


class Over(Exception):
    pass


# ---- programs: files of lines; every line carries what it does
def gen_body(r, depth, scope, cp, calls, size):
    """list of statements"""
    out = []
    for _ in range(r.int(0 if depth else 1, size)):
        k = r.weighted([(5, 'seta'), (3, 'setc'), (1, 'setb'), (2, 'arr'), (3, 'mach'), (8 if calls else 0, 'call'), (5 if cp else 0, 'copy'), (2 if depth < 2 and scope != 'C' else 0, 'loop'), (2 if depth < 2 and scope != 'C' else 0, 'skip'), (1, 'rem'), (1, 'cont'), (2, 'equ'), (1 if scope == 'M' else 0, 'mexit'), (1 if scope != 'C' else 0, 'ifmac')])
        if k == 'seta':
            out.append(['seta', r.pick(['A1', 'A2', 'G1']), r.pick([['n', r.int(-5, 99)], ['inc', r.pick(['A1', 'A2', 'G1']), r.int(1, 3)]])])
        elif k == 'setc':
            out.append(['setc', r.pick(['C1', 'GC']), r.pick(['', 'AB', "x'y", '(1,2)', 'z&&z'])])
        elif k == 'setb':
            out.append(['setb', 'B1', r.int(0, 1)])
        elif k == 'arr':
            out.append(['arr', 'RA', r.int(1, 4), r.int(0, 9)])
        elif k == 'mach':
            out.append(['mach', r.pick(['LR 1,1', 'XYZZY 1', 'DS F', 'MNOTE 0,\'a\''])])
        elif k == 'call':
            out.append(['call', r.pick(calls), r.pick([[], ['1'], ['A', 'B'], ['(1,2,3)'], ['', 'X'], ['&A1'], ['K=7'], ['(P,(Q,R))', 'K=(8,9)'], ["'s'"]]), r.chance(15)])
        elif k == 'copy':
            out.append(['copy', r.pick(cp)])
        elif k == 'loop':
            out.append(['loop', r.int(1, 3), gen_body(r, depth + 1, scope, cp, calls, 3)])
        elif k == 'skip':
            out.append(['skip', r.int(0, 1), gen_body(r, depth + 1, scope, cp, calls, 3)])
        elif k == 'rem':
            out.append(['rem', r.pick(['* comment', '', '.* comment', '   '])])
        elif k == 'cont':
            out.append(['cont', r.int(0, 2)])
        elif k == 'equ':
            out.append(['equ', r.pick([0, 1, 7, 1000, 'undef'])])
        elif k == 'mexit':
            out.append(['mexit', r.int(0, 1)])
        elif k == 'ifmac':
            out.append(['seta', 'A2', ['n', 1]])
    return out


def gen_init(r):
    out = []
    for n in ('G1', 'GC'):
        if r.chance(60):
            out.append(['glob', n])
    for n in ('A1', 'A2', 'G1'):
        if r.chance(95) and ['glob', n] not in out:
            out.append(['seta', n, ['n', r.int(0, 9)]])
    return out


def gen(r, tier):
    cps = ['CPA', 'CPB']
    macs = ['MCA', 'MCB', 'MCC']
    kinds = {m: r.pick(['lib', 'own']) for m in macs}
    copies = {'CPB': gen_body(r, 1, 'C', [], [], 3), 'CPA': gen_body(r, 1, 'C', ['CPB'], [], 3)}
    bodies = {}
    for i, m in enumerate(macs):
        bodies[m] = gen_init(r) + gen_body(r, 1, 'M', cps, macs[i + 1:], 4)
    main = gen_init(r) + [['call', r.pick(macs), [], False]] * r.int(0, 1) + gen_body(r, 0, 'O', cps, macs, 6)
    acts = r.list(4, 40, lambda: r.weighted([(6, 'stepIn'), (5, 'next'), (2, 'continue'), (0 if r.chance(80) else 1, 'disconnect')]))
    return {'kinds': kinds, 'copies': copies, 'macs': bodies, 'main': main, 'acts': acts, 'bps': [[r.pick(['p', 'CPA', 'CPB', 'MCA', 'MCB', 'MCC']), r.int(0, 14)] for _ in range(r.int(0, 4))], 'rebps': [[r.int(0, 10), r.pick(['p', 'CPA', 'MCA', 'MCB']), r.list(0, 2, lambda: r.int(0, 12))] for _ in range(r.int(0, 2))],
            'entry': r.chance(75), 'base1': r.int(0, 1), 'uri': r.chance(40), 'full': r.chance(55), 'end': r.chance(30), 'open': r.chance(70), 'misuse': r.list(0, 4, lambda: r.int(0, 13)) if r.chance(25) else [], 'rude': r.chance(6)}


class Prog:
    def __init__(self, case):
        self.files = {}
        self.code = {}
        self.lab = 0
        for c in ['CPA', 'CPB']:
            self.code[c] = self.emit(c, case['copies'][c], [])
        pre = []
        self.files['p'] = []
        self.macro = {}
        for m in ['MCA', 'MCB', 'MCC']:
            f = m if case['kinds'][m] == 'lib' else 'p'
            lines = self.files.setdefault(f, [])
            if f == 'p':
                pre.append(['macrodef', len(lines)])
            lines += [' MACRO', '&NM %s &P1,&P2,&K=5' % m]
            body = self.emit(f, case['macs'][m], [])
            lines.append(' MEND')
            body.append(['mend', len(lines) - 1])
            self.macro[m] = (f, body)
        main = self.emit('p', case['main'], [])
        if case['end']:
            self.files['p'].append(' END')
            main.append(['nop', len(self.files['p']) - 1])
        self.main = pre + main

    def emit(self, f, body, out):
        """writes the statements to the file, returns executable code [op, line, ...]"""
        lines = self.files.setdefault(f, [])
        for s in body:
            n = len(lines)
            k = s[0]
            if k == 'seta':
                e = s[2]
                lines.append('&%s SETA %s' % (s[1], e[1] if e[0] == 'n' else '&%s+%d' % (e[1], e[2])))
                if e[0] == 'n' and e[1] < 0:
                    lines[-1] = '&%s SETA %d' % (s[1], e[1])
                out.append(['seta', n, s[1], e])
            elif k == 'setc':
                lines.append("&%s SETC '%s'" % (s[1], s[2].replace("'", "''")))
                out.append(['setc', n, s[1], s[2].replace('&&', '&&')])
            elif k == 'setb':
                lines.append('&%s SETB %d' % (s[1], s[2]))
                out.append(['setb', n, s[1], s[2]])
            elif k == 'arr':
                lines.append('&%s(%d) SETA %d' % (s[1], s[2], s[3]))
                out.append(['arr', n, s[1], s[2], s[3]])
            elif k == 'mach':
                lines.append(' ' + s[1])
                out.append(['nop', n])
            elif k == 'cont':
                lines.append(' LR    1,'.ljust(71) + 'X')
                for i in range(s[1]):
                    lines.append(' ' * 15 + ' '.ljust(56) + 'X')
                lines.append(' ' * 15 + '1')
                out.append(['nop', n, n + s[1] + 1])
            elif k == 'call':
                lines.append('%s %s %s' % ('LB%d' % len(lines) if s[3] else '', s[1], ','.join(s[2])))
                out.append(['call', n, s[1], s[2], 'LB%d' % n if s[3] else ''])
            elif k == 'copy':
                lines.append(' COPY %s' % s[1])
                out.append(['copy', n, s[1]])
            elif k == 'rem':
                lines.append(s[1])
            elif k == 'equ':
                x = 'E%s%d' % (f[-1].upper(), n)
                lines.append('%s EQU %s' % (x, s[1] if s[1] != 'undef' else 'UNKNOWN+1'))
                out.append(['equ', n, x, s[1]])
            elif k == 'glob':
                lines.append(' GBL%s &%s' % ('C' if s[1] == 'GC' else 'A', s[1]))
                out.append(['glob', n, s[1]])
            elif k == 'mexit':
                self.lab += 1
                lines.append(' AIF (%d).L%d' % (s[1], self.lab))
                lines.append(' MEXIT')
                lines.append('.L%d ANOP' % self.lab)
                out.append(['mexit', n, s[1]])
            elif k == 'loop':
                self.lab += 1
                v = 'L%d' % self.lab
                l = self.lab
                lines.append('&%s SETA 0' % v)
                lines.append('.L%d ANOP' % l)
                b = []
                self.emit(f, s[2], b)
                m = len(lines)
                lines.append('&%s SETA &%s+1' % (v, v))
                lines.append(' AIF (&%s LT %d).L%d' % (v, s[1], l))
                out.append(['loop', n, v, s[1], b, m])
            elif k == 'skip':
                self.lab += 1
                l = self.lab
                lines.append((' AIF (%d).L%d' % (s[1], l)) if s[1] != 2 else ' AGO .L%d' % l)
                b = []
                self.emit(f, s[2], b)
                m = len(lines)
                lines.append('.L%d ANOP' % l)
                out.append(['skip', n, s[1], b, m])
        return out


class Exit(Exception):
    pass


def sub(v):
    """the value of a parameter and its parts"""
    if not (v.startswith('(') and v.endswith(')')):
        return v
    parts, d, cur, q = [], 0, '', False
    for c in v[1:-1]:
        if c == ',' and d == 0:
            parts.append(cur)
            cur = ''
            continue
        d += (c == '(') - (c == ')')
        cur += c
    parts.append(cur)
    return [v, [sub(p) for p in parts]]


class Interp:
    def __init__(self, prog):
        self.p = prog
        self.g = {}
        self.ord = {}
        self.trace = []
        self.stack = []  # frames: [type, file, line, scope]

    def stop(self, line, last=None):
        self.stack[-1][2] = line
        fr = []
        for t, f, l, sc in reversed(self.stack):
            vs = {}
            for n, v in sc.items():
                vs[n] = (self.g[n], 'g') if v is GLOBAL else (v if not isinstance(v, dict) else dict(v), 'l')
            fr.append([t, f, l, vs])
        self.trace.append([fr, line, last or line, dict(self.ord)])
        if len(self.trace) > MAXT:
            raise Over

    def cur(self, sc, n, d):
        v = sc.get(n, d)
        return self.g[n] if v is GLOBAL else v

    def put(self, sc, n, v):
        if sc.get(n) is GLOBAL:
            self.g[n] = v
        else:
            sc[n] = v

    def run(self, code, sc):
        for c in code:
            k, n = c[0], c[1]
            if k == 'nop':
                self.stop(n, c[2] if len(c) > 2 else None)
            elif k == 'macrodef':
                self.stop(n)
            elif k == 'mend':
                self.stop(n)
            elif k == 'seta':
                e = c[3]
                if e[0] == 'inc' and e[1] not in sc:
                    raise Over
                self.stop(n)
                self.put(sc, c[2], e[1] if e[0] == 'n' else self.cur(sc, e[1], 0) + e[2])
            elif k == 'setc':
                self.stop(n)
                self.put(sc, c[2], c[3])
            elif k == 'setb':
                self.stop(n)
                self.put(sc, c[2], bool(c[3]))
            elif k == 'arr':
                self.stop(n)
                sc.setdefault(c[2], {})[c[3]] = c[4]
            elif k == 'equ':
                self.stop(n)
                self.ord.setdefault(c[2], c[3])
            elif k == 'glob':
                if c[2] in sc:
                    raise Over
                self.stop(n)
                self.g.setdefault(c[2], '' if c[2] == 'GC' else 0)
                sc[c[2]] = GLOBAL
            elif k == 'copy':
                self.stop(n)
                self.stack.append(['COPY', c[2], None, sc])
                self.run(self.p.code[c[2]], sc)
                self.stack.pop()
            elif k == 'call':
                if any('&A1' in a for a in c[3]) and 'A1' not in sc:
                    raise Over
                self.stop(n)
                args = [a.replace('&A1', str(self.cur(sc, 'A1', 0))) if a == '&A1' else a for a in c[3]]
                if args and args[0].startswith('-'):
                    pass
                f, body = self.p.macro[c[2]]
                new = {'P1': '', 'P2': '', 'K': '5', 'NM': c[4]}
                i = 0
                for a in args:
                    if a.startswith('K='):
                        new['K'] = a[2:]
                    else:
                        i += 1
                        new['P%d' % i] = a
                pos = [a for a in args if not a.startswith('K=')]
                new['SYSLIST'] = ['(%s)' % ','.join([c[4]] + pos), 'C_TYPE', {str(j): value(('param', a)) for j, a in enumerate([c[4]] + pos)}]
                new['SYSNEST'] = [str(1 + sum(1 for x in self.stack if x[0] == 'MACRO')), 'A_TYPE']
                for x in ('P1', 'P2', 'K', 'NM'):
                    new[x] = ('param', new[x])
                self.stack.append(['MACRO', f, None, new])
                depth = len(self.stack)
                try:
                    self.run(body, new)
                except Exit:
                    pass
                del self.stack[depth - 1:]
            elif k == 'mexit':
                self.stop(n)
                if c[2]:
                    self.stop(n + 2)
                else:
                    self.stop(n + 1)
                    raise Exit
            elif k == 'loop':
                self.stop(n)
                sc[c[2]] = 0
                i = 0
                while True:
                    self.stop(n + 1)
                    self.run(c[4], sc)
                    self.stop(c[5])
                    i += 1
                    sc[c[2]] = i
                    self.stop(c[5] + 1)
                    if i >= c[3]:
                        break
            elif k == 'skip':
                self.stop(n)
                if not c[2]:
                    self.run(c[3], sc)
                self.stop(c[4])


GLOBAL = object()


def value(v):
    """as listed: [value, type, parts]"""
    if isinstance(v, tuple):
        def par(x):
            if isinstance(x, str):
                return [x, 'C_TYPE']
            return [x[0], 'C_TYPE', {str(i + 1): par(y) for i, y in enumerate(x[1])}]
        return par(sub(v[1]))
    if isinstance(v, list):
        return v
    if isinstance(v, bool):
        return ['TRUE' if v else 'FALSE', 'B_TYPE']
    if isinstance(v, int):
        return [str(v), 'A_TYPE']
    if isinstance(v, str):
        return [v, 'C_TYPE']
    return ['', 'A_TYPE', {str(i): [str(x), 'A_TYPE'] for i, x in v.items()}]


def run(case, env):
    root = env.scratch()
    w = root + '/ws'
    try:
        p = Prog(case)
        it = Interp(p)
        it.stack = [['OPENCODE', 'p', 0, {}]]
        try:
            it.run(p.main, it.stack[0][3])
        except Over:
            return {'nontrivial': False, 'labels': ['discarded'], 'sample': None}
        full = it.trace
        shutil.rmtree(w, ignore_errors=True)
        os.makedirs(w + '/.hlasmplugin')
        os.makedirs(w + '/lib')
        path = lambda f: w + ('/p' if f == 'p' else '/lib/' + f)
        for f, ls in p.files.items():
            open(path(f), 'w').write('\n'.join(ls) + '\n')
        open(w + '/.hlasmplugin/proc_grps.json', 'w').write(json.dumps({'pgroups': [{'name': 'G', 'libs': ['lib']}]}))
        open(w + '/.hlasmplugin/pgm_conf.json', 'w').write(json.dumps({'pgms': [{'program': 'p', 'pgroup': 'G'}]}))
        acts = ['stepIn'] * (len(full) + 3) if case['full'] else list(case['acts'])
        bps = {}
        for f, l in ([] if case['full'] else case['bps']):
            bps.setdefault(f, []).append(l)
        entry = case['entry'] or case['full']
        out = []
        for i, a in enumerate(acts):
            re = [x for x in case['rebps'] if x[0] == i and not case['full']]
            out.append({'do': a, 'bps': {name(case, path, x[1]): x[2] for x in re}} if re and a != 'disconnect' else a)
        # expected stops
        exp, exp_ord = [], []
        mode, depth = ('in', 0) if entry else ('cont', 0)
        cur = dict(bps)
        ended = 'terminated'
        i = 0
        for fr, first, last, ords in full:
            hit = any(first <= l <= last for l in cur.get(fr[0][1], []))
            if mode == 'in' or hit or (mode == 'next' and len(fr) <= depth):
                exp.append(fr)
                exp_ord.append(ords)
                if i >= len(acts) or acts[i] == 'disconnect':
                    ended = 'stopped'
                    break
                for x in case['rebps']:
                    if x[0] == i and not case['full']:
                        cur[x[1]] = x[2]
                mode = {'stepIn': 'in', 'next': 'next', 'continue': 'cont'}[acts[i]]
                depth = len(fr)
                i += 1
        text = '\n'.join(p.files['p']) + '\n'
        setup = [ses.init(w)] + ([ses.did_open(path('p'), text)] if case['open'] else [])
        ALL = [['next', {'threadId': 1}], ['stepIn', {'threadId': 1}], ['continue', {'threadId': 1}], ['stackTrace', {'threadId': 1}], ['scopes', {'frameId': 0}], ['variables', {'variablesReference': 1}], ['threads', {}], ['scopes', {'frameId': 99}], ['configurationDone', {}], ['setExceptionBreakpoints', {'filters': []}],
               ['launch', {'program': name(case, path, 'p'), 'stopOnEntry': False}], ['variables', {'variablesReference': 99999}], ['stepIn', {}], ['next', {}]]
        pre = [ALL[x] for x in case['misuse'][::2] if ALL[x][0] != 'launch']
        post = [ALL[x] for x in case['misuse'][1::2]]
        rq = {'op': 'dap', 'setup': setup, 'bps': {name(case, path, f): l for f, l in bps.items()}, 'program': name(case, path, 'p'), 'entry': entry, 'acts': out, 'base1': case['base1'], 'fmt': 'uri' if case['uri'] else 'path', 'wait': 30, 'pre': pre, 'post': post if ended == 'terminated' or case['rude'] else []}
        if case['rude']:
            # the client goes away without waiting for anything
            rq.update({'nowait': True, 'pause': len(case['acts']) * 37 % 500})
        if case['open']:
            q = [ses.tokens(path('p'))] + [ses.ask('hover', path('p'), l, c) for l, c in [(0, 2), (3, 1), (9, 2)]]
            rq['after'] = q
        d = env.drv('drv_ls')
        # before tracing starts a step request is only remembered: leave it out of the comparison
        a = d.call(rq)
        if a['exit'] is not True:
            raise Violation('the session did not end')
        if case['open']:
            b = d.call({'op': 'lsp', 'steps': setup + q})['r']
            for s, x, y in zip(q, a['after'], b[len(setup):]):
                if ses.result({'out': x}) != ses.result(y):
                    raise Violation('after tracing %s is answered %s, without it %s' % (json.dumps(s)[:150], json.dumps(x)[:300], json.dumps(y['out'])[:300]))
        if case['rude'] or any(x[0] in ('next', 'stepIn', 'continue') for x in pre):
            return {'nontrivial': False, 'labels': ['misused'], 'sample': None}
        if a['last'] != ended or (ended == 'terminated' and a['terminated'] != 1):
            raise Violation('tracing ended with %s after %d stops, expected %s after %d' % (a['last'], len(a['stops']), ended, len(exp)))
        names = lambda fr: [[f[0], os.path.basename(f[1]), f[2]] for f in fr]
        for i, fr in enumerate(exp):
            if i >= len(a['stops']):
                raise Violation('%d stops, expected another at %s' % (len(a['stops']), names(fr)))
            st = a['stops'][i]
            if names(st) != names(fr):
                raise Violation('stop %d is at %s, expected %s' % (i, names(st), names(fr)))
            for f, e in zip(st, fr):
                if f[1] != path(e[1]) or f[3] != f[2]:
                    raise Violation('stop %d: frame %s' % (i, f[:4]))
                if f[4]['Ordinary symbols'] != {k: ['UNDEF' if v == 'undef' else str(v), '', {'L': ['1', ''], 'T': ['U', '']}] for k, v in exp_ord[i].items()}:
                    raise Violation('stop %d: ordinary symbols %s, expected %s' % (i, json.dumps(f[4]['Ordinary symbols'], sort_keys=True), json.dumps(exp_ord[i], sort_keys=True)))
                got_l = {k: v for k, v in f[4]['Locals'].items() if not k.startswith('&SYS') or k in ('&SYSLIST', '&SYSNEST')}
                got_g = {k: v for k, v in f[4]['Globals'].items() if not k.startswith('&SYS')}
                want_l = {'&' + k: value(v) for k, (v, t) in e[3].items() if t == 'l'}
                want_g = {'&' + k: value(v) for k, (v, t) in e[3].items() if t == 'g'}
                if got_l != want_l or got_g != want_g:
                    raise Violation('stop %d, frame %s: variables %s and globals %s, expected %s and %s' % (i, names([f])[0], json.dumps(got_l, sort_keys=True), json.dumps(got_g, sort_keys=True), json.dumps(want_l, sort_keys=True), json.dumps(want_g, sort_keys=True)))
        if len(a['stops']) > len(exp):
            raise Violation('stop %d is at %s, none expected' % (len(exp), names(a['stops'][len(exp)])))
        return {'nontrivial': len(exp) >= 5 and any(len(f) > 1 for f in exp), 'labels': ['ends %s' % ended, 'depth %d' % max([len(f) for f in exp] or [0])], 'sample': {'program': p.files['p'], 'actions': acts[:12], 'stops': [names(f) for f in exp[:6]]}}
    finally:
        shutil.rmtree(w, ignore_errors=True)


def name(case, path, f):
    return ses.uri(path(f)) if case['uri'] else path(f)
