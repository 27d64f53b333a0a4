"""C20: navigation."""
from vf import Violation
import nav

TARGETS = ['drv_an']
FAST = True
TECHNIQUE = 'property-based testing: generated programs that record every symbol they write (place, scope, meaning) against definition, references and hover at those places and elsewhere'
EXAMPLES = {'quick': 8000, 'thorough': 120000}
RULE = ('case = a program with ordinary, variable and sequence symbols of the same names in open code, source, nested, redefined and library macros and copy members of each, written in expressions, subscripts, strings, '
        'sublists, model statements and continuation lines; oracle = the record of what was written: definition place, exact set of references, hover text, and nothing at remarks and comments; '
        'non-trivial = at least two scopes share a name or a member or library macro is queried, and ten symbols are compared')
ASSUMPTIONS = ['ordinary symbols and operations are occurrences where a statement is executed; in statements that are skipped, never expanded, or change by substitution they are left open']


def gen(r, tier):
    n = nav.Nav(r)
    case = n.result()
    qs = []
    must = [i for i, o in enumerate(case['occ']) if o['must']]
    for i in (must if len(must) < 60 else r.sample(must, 60)):
        o = case['occ'][i]
        qs.append([i, o['f'], o['l'], o['c'] + r.pick([0, r.int(0, o['w'] - 1), o['w'] - 1])])
    for b in (case['blank'] if len(case['blank']) < 6 else r.sample(case['blank'], 6)):
        qs.append([-1] + b)
    case['q'] = qs
    return case


def key(o):
    if o['k'] in ('var', 'seq'):
        return '%s/%s/%s' % (o['k'], o['s'], o['n'])
    return o['k'] + '/' + o['n']


def run(case, env):
    if case['bad']:
        return {'nontrivial': False, 'sample': '', 'labels': ['discarded']}
    groups, optional = {}, set()
    for o in case['occ']:
        p = (o['f'], o['l'], o['c'])
        if o['must']:
            groups.setdefault(key(o), set()).add(p)
        else:
            optional.add(p)
    q = []
    for i, f, l, c in case['q']:
        for k in ('def', 'ref', 'hov'):
            q.append({'k': k, 'f': f, 'l': l, 'c': c})
    a = env.drv('drv_an').call({'text': case['text'], 'libs': case['libs'], 'q': q, 'syms': nav.ORDS, 'limit': 4000})
    if a.get('cut'):
        return {'nontrivial': False, 'sample': '', 'labels': ['discarded']}
    compared = 0
    labels = set()
    names = {}
    for n, (i, f, l, c) in enumerate(case['q']):
        d, refs, hov = a['q'][3 * n:3 * n + 3]
        where = '%s line %d column %d' % (f, l + 1, c)
        if i < 0:
            if d != [f, l, c]:
                raise Violation('%s: a remark or comment leads to %s' % (where, d))
            if refs or hov:
                raise Violation('%s: a remark or comment has references %s, hover %r' % (where, refs, hov))
            labels.add('blank')
            continue
        o = case['occ'][i]
        k = key(o)
        what = '%s (%s %s)' % (where, o['k'], o['n'])
        exp = case['defs'].get(k)
        if o['k'] == 'ord' and not case['values'].get(o['n'], [False])[-1]:
            exp = None
        if o['k'] == 'ins' or exp is None:
            if d != [f, l, c]:
                raise Violation('%s: definition leads to %s, expected the position itself' % (what, d))
        elif exp[1] is None:
            if d[0] != exp[0]:
                raise Violation('%s: definition leads to %s, expected file %s' % (what, d, exp[0]))
        elif d != exp:
            raise Violation('%s: definition leads to %s, expected %s' % (what, d, exp))
        got = set(map(tuple, refs))
        if o['k'] != 'ins' or o['n'] not in ('ANOP', 'MACRO', 'MEND', 'COPY', 'END'):
            miss = groups[k] - got
            extra = got - groups[k] - optional
            if miss:
                raise Violation('%s: references lack %s' % (what, sorted(miss)[:3]))
            if extra:
                raise Violation('%s: references include %s' % (what, sorted(extra)[:3]))
        # optional places must at least be of the same name
        allowed = {(x['f'], x['l'], x['c']) for x in case['occ'] if key(x) == k}
        wrong = [p for p in got if p in optional and p not in allowed and p not in groups[k]]
        if wrong and o['k'] != 'ins':
            raise Violation('%s: references include %s' % (what, sorted(wrong)[:3]))
        if o['k'] in ('var', 'seq'):
            e = case['hov'].get(k, '') if o['k'] == 'var' else 'Sequence symbol'
            if hov != e:
                raise Violation('%s: hover shows %r, expected %r' % (what, hov, e))
        elif o['k'] == 'ord':
            v = case['values'].get(o['n'])
            if v and v[-1]:
                lines = [x.strip() for x in hov.split('\n')]
                if v[0] == 'abs' and lines[0] != str(v[1]):
                    raise Violation('%s: hover shows value %r, expected %s' % (what, lines[0], v[1]))
                if ('Absolute Symbol' if v[0] == 'abs' else 'Relocatable Symbol') not in lines:
                    raise Violation('%s: hover shows %r for a symbol that is %s' % (what, hov, v[0]))
                for x in v[2:4]:
                    if x not in lines:
                        raise Violation('%s: hover %r lacks %s' % (what, hov, x))
                if v[0] == 'rel':
                    s = a['syms'].get(o['n']) or {}
                    off = s.get('v') if s.get('k') == 'R' else None
                    if off is not None and not lines[0].split()[-1] == str(off):
                        raise Violation('%s: hover shows %r, the address is %s' % (what, lines[0], off))
            elif hov:
                raise Violation('%s: hover of an undefined symbol shows %r' % (what, hov))
        elif o['k'] == 'mac':
            m = case['macros'][o['n']]
            src = case['libs'].get(exp[0], case['text'] if exp[0] == 'PROG' else '').split('\n')
            if src[exp[1]] not in hov:
                raise Violation('%s: hover %r lacks the prototype %r' % (what, hov, src[exp[1]]))
        elif o['k'] == 'ins' and not hov:
            raise Violation('%s: no hover' % what)
        compared += 1
        labels.add(o['k'])
        labels.add('in ' + ('PROG' if f == 'PROG' else 'library macro' if f.startswith('LIBM') else 'member'))
        names.setdefault((o['k'], o['n']), set()).add(o['s'])
    shared = any(len(s) > 1 for (k, n), s in names.items() if k in ('var', 'seq'))
    return {'nontrivial': compared >= 10 and (shared or any(l in ('in library macro', 'in member') for l in labels)), 'sample': case['text'], 'labels': sorted(labels)}
