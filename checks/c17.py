"""C17: copy members and library macros behave as if they were written in place."""
import re
from vf import Violation
import prog

TARGETS = ['drv_an']
FAST = True
TECHNIQUE = 'property-based metamorphic testing: a generated program whose statements are moved into copy members and library macros against the same program with everything written in place'
EXAMPLES = {'quick': 8000, 'thorough': 200000}
RULE = ('case = a program of all kinds of statements (with errors and forward branches) in which ranges of statements, also of macro bodies and of other members, are replaced by COPY, further members are copied several times, macro definitions '
        'are moved to library members, and optional COPY statements name a missing or recursive member; oracle = the program in place: same symbols, variables and problems, each at the corresponding file, line and columns; '
        'non-trivial = a member or library macro is used and there is a problem or five symbols to compare')
ASSUMPTIONS = ['members that are copied several times have no sequence symbols and no references to the location counter', 'library macros are called after the place where the definition was', 'problems of a library macro that is never called need not be reported',
               'a macro definition is not split between files, nor an if/else range between macro and open code']


def ranges_of(st):
    """macro definitions as ranges, open code positions"""
    out, i = [], 0
    while i < len(st):
        if st[i]['o'] == 'MACRO':
            j = i
            while st[j]['o'] != 'MEND':
                j += 1
            out.append((i, j))
            i = j + 1
        else:
            i += 1
    return out


def gen(r, tier):
    p = prog.Prog(r, errors=r.pick([0, 10, 30]), syntax=r.pick([0, 0, 8]))
    for s in p.body:
        if s.get('l') == '.DUP':
            s['l'] = ''
    st = list(p.body)
    case = {'members': {}, 'libs': [], 'extra': []}
    # members that are used several times
    for i in range(r.int(0, 2)):
        q = prog.Prog.__new__(prog.Prog)
        q.r, q.errors, q.syntax, q.seqs, q.ns, q.macros, q.body = r, 20, 0, False, 900, p.macros if r.chance(30) else [], []
        name = 'REP%d' % i
        # known finding: * in a statement of a member that is used several times, together with a symbol defined later
        body = [s for s in q.block(1, 3, 0) if not (s['o'] in ('EQU', 'ORG', 'DC', 'DS', 'USING') and re.search(r'(^|[-(+,/*])\*', s['a']))]
        if i == 1 and 'REP0' in case['members'] and r.chance(50):
            body.insert(r.int(0, len(body)), {'c': 'REP0', 'o': 'COPY'})
        case['members'][name] = body
        for _ in range(r.int(1, 3)):
            ms = ranges_of(st)
            # macro calls inside only behind the definitions
            ok = [k for k in range(len(st) + 1) if not any(a < k <= b and k < a + 2 for a, b in ms) and (k > max([b for _, b in ms] or [-1]) or not any(s.get('k') == 'call' for s in body) and not any('c' in s for s in body))]
            if ok:
                st.insert(r.pick(ok), {'c': name, 'o': 'COPY'})
    # ranges moved away
    for i in range(r.int(0, 3)):
        ms = ranges_of(st)
        a = r.int(0, len(st))
        b = min(len(st), a + r.int(1, 5))
        # no macro definition may be cut; inside a body is allowed
        for x, y in ms:
            if a <= y and b > x and not (a <= x and b > y) and not (a >= x + 2 and b <= y):
                a = b = 0
        if b <= a:
            continue
        name = 'MOV%d' % i
        case['members'][name] = st[a:b]
        st[a:b] = [{'c': name, 'o': 'COPY'}]
    # library macros
    for s in list(case['members'].items()) + [('', st)]:
        for x, y in ranges_of(s[1]):
            n = s[1][x + 1]['o']
            if r.chance(40) and (n, 2) in p.macros:
                case['libs'].append(n)
    if r.chance(25):
        k = r.pick(['missing', 'recursive', 'recursive2'])
        ms = ranges_of(st)
        at = r.int(0, len(st))
        if not any(a < at < a + 2 for a, b in ms):
            case['extra'] = [k, at, r.chance(50)]
    case['st'] = st
    return case


def expand(case, st, origin, skip=()):
    """statements in place: list of (statement, (member, index))"""
    out = []
    for i, s in enumerate(st):
        if 'c' in s:
            out += expand(case, case['members'][s['c']], s['c'], skip)
        else:
            out.append((s, (origin, i)))
    return out


def real(items):
    return [dict(l='', o='COPY', a=s['c'], k='asm') if 'c' in s else s for s in items]


def files_of(case):
    """the files of the moved program: name -> list of (statement, identity or None)"""
    files = {}
    libs = {}

    def strip(items, origin):
        out, i = [], 0
        src = [(s, (origin, k)) for k, s in enumerate(items)]
        while i < len(src):
            s, o = src[i]
            if 'c' in s:
                out.append((dict(l='', o='COPY', a=s['c'], k='asm'), None))
                i += 1
            elif s['o'] == 'MACRO' and i + 1 < len(src) and src[i + 1][0].get('o') in case['libs']:
                n = src[i + 1][0]['o']
                j = i
                lib = []
                while src[j][0].get('o') != 'MEND':
                    lib.append(src[j])
                    j += 1
                lib.append(src[j])
                libs[n] = [(dict(l='', o='COPY', a=x['c'], k='asm'), None) if 'c' in x else (x, y) for x, y in lib]
                i = j + 1
            else:
                out.append(src[i])
                i += 1
        return out
    files['PROG'] = strip(case['st'], 'PROG')
    for n, items in case['members'].items():
        files[n] = strip(items, n)
    files.update(libs)
    return files


def ident(where, ids):
    """line -> (identity, line of the statement)"""
    out = {}
    for (a, b, _), o in zip(where, ids):
        for n in range(a, b + 1):
            out[n] = (o, n - a)
    return out


def run(case, env):
    ex = expand(case, case['st'], 'PROG')
    if not ex:
        return {'nontrivial': False, 'sample': '', 'labels': []}
    t0, w0 = prog.write([s for s, _ in ex], lambda i, s: {})
    id0 = {('PROG', n): v for n, v in ident(w0, [o for _, o in ex]).items()}
    files = files_of(case)
    bad = None
    if case['extra']:
        k, at, low = case['extra']
        n = sum(1 for s in case['st'][:at])
        main = files['PROG']
        # the position is given in statements of the program before macros were moved: put it before the first statement that still has it
        pos = next((i for i, (s, o) in enumerate(main) if o is not None and o[1] >= at), len(main))
        bad = ('BAD', 0)
        if k == 'missing':
            main.insert(pos, (dict(l='', o='COPY', a='nosuch' if low else 'NOSUCH', k='asm'), bad))
        else:
            main.insert(pos, (dict(l='', o='COPY', a='RECA', k='asm'), None))
            files['RECA'] = [(dict(l='', o='COPY', a='RECA' if k == 'recursive' else 'RECB', k='asm'), bad if k == 'recursive' else None)]
            files['RECB'] = [(dict(l='', o='COPY', a='RECA', k='asm'), bad)]
    texts, id1 = {}, {}
    for f, items in files.items():
        texts[f], w = prog.write([s for s, _ in items], lambda i, s: {})
        for n, v in ident(w, [o for _, o in items]).items():
            id1[f, n] = v
    drv = env.drv('drv_an')
    rq = {'syms': prog.SYMS, 'vars': prog.VARS}
    o0 = drv.call(dict(rq, text=t0))
    o1 = drv.call(dict(rq, text=texts['PROG'], libs={f: t for f, t in texts.items() if f != 'PROG'}))
    show = 'in place:\n%s\nin files:\n%s' % (t0, '\n'.join('--- %s\n%s' % x for x in sorted(texts.items())))
    for n in prog.VARS:
        if o0['vars'][n] != o1['vars'][n]:
            raise Violation('variable &%s: %s in place, %s in files\n%s' % (n, o0['vars'][n], o1['vars'][n], show))
    nsym = 0
    for n in prog.SYMS:
        a, b = o0['syms'][n], o1['syms'][n]
        x, y = [v and {k: v[k] for k in v if k != 'at'} for v in (a, b)]
        nsym += bool(a)
        if x != y or a and id0.get((a['at'][0], a['at'][1][0])) != id1.get((b['at'][0], b['at'][1][0])):
            raise Violation('symbol %s: %s in place, %s in files\n%s' % (n, a, b, show))
    called = {f for f in o1['req']}

    syntax = {str((o, 0)) for s, o in ex if s.get('x')}

    def keys(o, ids):
        out = []
        for d in o['diags']:
            p = ids.get((d['file'], d['r'][0]))
            q = ids.get((d['file'], d['r'][2]))
            rel = [(ids.get((x[0], x[1][0])) or (None,))[0] for x in d['rel']]
            if str(p) in syntax:
                out.append(('S', 1, '', str(p), '', 0, 0, ''))  # which syntax errors are reported depends on the kind of file
                continue
            out.append((d['code'], d['sev'], d['msg'], str(p), str(q), d['r'][1], d['r'][3], str([x for x in rel if x is not None])))
        return sorted(set(out))
    k0, k1 = keys(o0, id0), keys(o1, id1)
    if bad:
        mine = [k for k in k1 if k[3] == str((bad, 0))]
        if not mine:
            # the statement may be skipped
            pass
        if len(mine) > 1 and case['extra'][0] == 'missing':
            raise Violation('COPY of a missing member is reported %d times: %s\n%s' % (len(mine), mine, show))
        k1 = [k for k in k1 if k not in mine]
    # a library macro that is never called is not looked at
    never = [n for n in case['libs'] if n not in called]
    if never:
        gone = set()
        inside = None
        for i, (s, o) in enumerate(ex):
            if s['o'] == 'MACRO':
                inside = ex[i + 1][0]['o']
            if inside in never:
                gone.add(str((o, 0))[:-2])
            if s['o'] == 'MEND':
                inside = None
        cut = lambda ks: [k for k in ks if not any(k[3].startswith(g) for g in gone)]
        k0, k1 = cut(k0), cut(k1)
    # statements of copy members are parsed when the member is read, also those that are skipped later (known finding)
    k1 = [k for k in k1 if k in k0 or k[0][:2] not in ('CE', 'S') or "'PROG'" in k[3]]
    if k0 != k1:
        x = next(k for k in k0 + k1 if k0.count(k) != k1.count(k))
        raise Violation('problem %s: %d times in place, %d times in files\n%s' % (x, k0.count(x), k1.count(x), show))
    used = set(o1['req']) - {'RECA', 'RECB'}
    return {'nontrivial': bool(used) and (bool(k0) or nsym >= 5), 'sample': '\n'.join('--- %s\n%s' % x for x in sorted(texts.items())),
            'labels': ['used ' + ('library macro' if f.startswith('M') and len(f) == 2 else f[:3]) for f in used] + case['extra'][:1]}
