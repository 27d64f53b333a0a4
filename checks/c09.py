"""C09: an analysis is a function of its inputs."""
import json
from vf import Violation, Driver
import prog
import soup

TARGETS = ['drv_an']
FAST = True
TECHNIQUE = 'property-based differential testing: the same analysis in a new process, in a process that has analysed other generated programs before, twice in a row, and without highlighting'
EXAMPLES = {'quick': 1600, 'thorough': 60000}
RULE = ('case = a program (all kinds of statements, or arbitrary text) with members, query positions, and a list of other programs analysed before it, some sharing its symbols, macros and OPSYN definitions; '
        'oracle = full results (problems with related locations, all symbols, variables, tokens, query answers, members requested, statement counts) are equal in all runs; '
        'non-trivial = another program ran before and the results hold at least three problems, symbols or variables')
ASSUMPTIONS = ['the order of problems and of items in lists is left open (it follows addresses of objects)', 'endless programs are cut at a number of statements and discarded']

NAMES = ['SYM%d' % i for i in range(8)] + ['A', 'B', 'X', 'LAB', 'D1', 'NEW', 'UNDEF', 'LR', 'R1']
VARS = ['A0', 'A1', 'A2', 'B0', 'C0', 'C1', 'ARR', 'P1', 'X', 'N', 'G1', 'SYSPARM']


def source(r):
    if r.chance(55):
        p = prog.Prog(r, errors=r.pick([0, 10, 30]), syntax=r.pick([0, 0, 8]))
        body = list(p.body)
        names = r.sample(['LR', 'MVC', 'EQU', 'DS', 'AIF', 'SETA', 'LA', 'DC', 'M0', 'M1'], r.int(0, 2))
        for n in names:
            k = r.weighted([(3, 'opsyn'), (2, 'macro'), (2, 'delete')])
            at = r.int(0, len(body)) if k != 'macro' else 0
            if k == 'opsyn':
                st = [{'l': n, 'o': 'OPSYN', 'a': r.pick(['LR', 'MVC', 'DS', 'M0', 'SETA', 'XYZ']), 'k': 'asm'}]
            elif k == 'delete':
                st = [{'l': n, 'o': 'OPSYN', 'a': '', 'k': 'asm'}]
            else:
                st = [{'l': '', 'o': 'MACRO', 'a': '', 'k': 'def'}, {'l': '', 'o': n, 'a': '&P1', 'k': 'proto'}, {'l': '', 'o': 'GBLA', 'a': '&G1', 'k': 'ca'}, {'l': '&G1', 'o': 'SETA', 'a': '&G1+1', 'k': 'ca'}, {'l': '', 'o': 'MEND', 'a': '', 'k': 'def'}]
            depth = 0
            # not inside a definition
            for i in range(at):
                depth += {'MACRO': 1, 'MEND': -1}.get(body[i]['o'], 0)
            while depth and at < len(body):
                depth += {'MACRO': 1, 'MEND': -1}.get(body[at]['o'], 0)
                at += 1
            body[at:at] = st
        return '\n'.join('%s %s %s' % (s['l'], s['o'], s['a']) for s in body) + '\n'
    return soup.text(r)


def libs(r):
    out = {}
    if r.chance(60):
        for n in r.sample(['COPYA', 'COPYB', 'M1', 'M2', 'M0'], r.int(1, 3)):
            out[n] = '\n'.join(soup.macro(r, n)) if n[0] == 'M' else soup.text(r, 0, 5)
    return out


def gen(r, tier):
    case = {'text': source(r), 'libs': libs(r), 'q': [], 'before': [], 'sysparm': r.pick(['', 'A', 'PARM'])}
    for _ in range(r.int(0, 6)):
        case['q'].append([r.pick(['PROG'] + sorted(case['libs'])), r.int(0, 30), r.int(0, 60)])
    for _ in range(r.int(0, 3)):
        b = {'text': source(r), 'libs': libs(r)}
        if r.chance(25):
            b = {'text': soup.mutate(r, case['text']), 'libs': case['libs']}
        b['hl'] = r.chance(50)
        b['sysparm'] = r.pick(['', 'A', 'OTHER'])
        case['before'].append(b)
    return case


def request(case, hl):
    lines = case['text'].split('\n')
    qs = []
    for f, l, c in case['q']:
        ls = lines if f == 'PROG' else case['libs'].get(f, '').split('\n')
        l %= len(ls)
        c %= len(ls[l]) + 1
        for k in ('def', 'ref', 'hov', 'com'):
            q = {'k': k, 'f': f, 'l': l, 'c': c}
            if k == 'com':
                q['short'] = True
            qs.append(q)
    return {'text': case['text'], 'libs': case['libs'], 'hl': hl, 'q': qs, 'syms': NAMES, 'vars': VARS, 'metrics': True, 'limit': 3000, 'sysparm': case['sysparm']}


def norm(o):
    """order of problems and of lists in answers is left open"""
    o = dict(o)
    if 'diags' in o:
        o['diags'] = sorted(o['diags'], key=lambda d: json.dumps(d, sort_keys=True))
    if 'q' in o:
        o['q'] = [sorted(a, key=json.dumps) if isinstance(a, list) and a and isinstance(a[0], list) else a for a in o['q']]
    return o


def diff(a, b):
    for k in sorted(set(a) | set(b)):
        if a.get(k) != b.get(k):
            x, y = a.get(k), b.get(k)
            if isinstance(x, list) and isinstance(y, list):
                for i in range(max(len(x), len(y))):
                    u, v = (x[i] if i < len(x) else None), (y[i] if i < len(y) else None)
                    if u != v:
                        return '%s[%d]: %s / %s' % (k, i, json.dumps(u)[:500], json.dumps(v)[:500])
            return '%s: %s / %s' % (k, json.dumps(x)[:600], json.dumps(y)[:600])


def run(case, env):
    one, two = Driver('drv_an'), Driver('drv_an')
    try:
        base = norm(one.call(request(case, True), 60))
        if base.get('cut'):
            return {'nontrivial': False, 'labels': ['cut']}
        show = '\n'.join('--- %s\n%s' % x for x in [('PROG', case['text'])] + sorted(case['libs'].items()))[:3000]
        shown = show + ''.join('\n=== before\n' + b['text'][:800] for b in case['before'])

        def same(o, what, drop=()):
            d = diff({k: v for k, v in base.items() if k not in drop}, {k: v for k, v in o.items() if k not in drop})
            if d:
                raise Violation('%s: %s\n%s' % (what, d, shown))
        hlkeys = ('tok', 'ltok')
        if len(case['text']) % 2:
            same(norm(one.call(request(case, True), 60)), 'the second analysis in the same process differs')
        for b in case['before']:
            two.call({'text': b['text'], 'libs': b['libs'], 'hl': b['hl'], 'limit': 3000, 'sysparm': b['sysparm']}, 60)
        same(norm(two.call(request(case, True), 60)), 'the analysis after other analyses differs from the one in a new process')
        same(norm(two.call(request(case, False), 60)), 'the analysis without highlighting differs', hlkeys)
    finally:
        one.stop()
        two.stop()
    n = len(base['diags']) + sum(1 for v in base['syms'].values() if v) + sum(1 for v in base['vars'].values() if v)
    return {'nontrivial': bool(case['before']) and n >= 3, 'sample': case['text'][:500], 'labels': ['before %d' % len(case['before'])] + (['members'] if base['req'] else [])}
