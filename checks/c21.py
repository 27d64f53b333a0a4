"""C21: completion."""
import json, os
from collections import Counter
from vf import Violation
import nav

TARGETS = ['drv_an']
FAST = True
TECHNIQUE = 'property-based testing: generated programs that record scopes, symbols and fields of every line, against completion with every trigger at generated positions'
EXAMPLES = {'quick': 6000, 'thorough': 60000}
RULE = ('case = a program of the kind of C20 and up to 16 requests: & and . triggers and invocations in lines of every scope (open code, macros, nested and library macros, copy members of each), and invocations in name, operation, operand, remark '
        'and continuation fields; oracle = the record of what each scope defines, the instruction table, and the macros of the program with their prototypes; '
        'non-trivial = requests in two scopes with different variables or sequence symbols, or one with two macros')
ASSUMPTIONS = ['every macro of the program is offered at every place, also where it is defined later; a macro that is redefined is offered once per definition',
               'behind a name and blanks, instructions are only expected once a character of the operation is written']

I = json.load(open(os.path.join(os.path.dirname(nav.__file__), 'instr.json')))
OTHER = ('ACONTROL ACTR ADATA AEJECT AGO AIF AINSERT ALIAS AMODE ANOP AREAD ASPACE CATTR CCW CCW0 CCW1 CEJECT CNOP COM COPY CSECT CXD DC DROP DS DSECT DXD EJECT END ENTRY EQU EXITCTL EXTRN GBLA GBLB GBLC '
         'ICTL ISEQ LCLA LCLB LCLC LOCTR LTORG MACRO MEND MEXIT MNOTE OPSYN ORG POP PRINT PUNCH PUSH REPRO RMODE RSECT SETA SETB SETC SPACE START TITLE USING WXTRN XATTR').split()
ALL = set(I['mach']) | set(I['mnem']) | set(OTHER)
MACRO, VAR, SEQ = 3, 4, 5


def lines_of(case, f):
    return (case['text'] if f == 'PROG' else case['libs'][f]).split('\n')


def gen(r, tier):
    n = nav.Nav(r)
    case = n.result()
    qs = []
    sl = [s for s in case['slices'] if s[4] and not s[3].startswith('?')]
    for _ in range(r.int(1, 8)):
        if not sl:
            break
        f, a, b, scope, _x = r.pick(sl)
        l = r.int(a, b)
        qs.append(['trig', r.pick(['&', '.']), f, l, r.int(0, len(lines_of(case, f)[l])), scope])
    vs = [o for o in case['occ'] if o['must'] and o['k'] in ('var', 'seq')]
    for _ in range(r.int(0, 3)):
        if vs:
            o = r.pick(vs)
            qs.append(['after', '&' if o['k'] == 'var' else '.', o['f'], o['l'], o['c'] + 1, o['s']])
    fl = case['fields']
    for _ in range(r.int(1, 5)):
        if fl:
            x = r.pick(fl)
            if x['t'] == 'op' and not x['need']:
                continue
            if x['t'] == 'op':
                qs.append(['op', '', x['f'], x['l'], x['c'] + r.int(1, x['w']), r.pick(['short', 'macros', 'names'])])
            elif x['t'] in ('operand', 'remark', 'comment'):
                line = lines_of(case, x['f'])[x['l']]
                c = x['c'] + r.int(0, x['w'])
                if c == 0 or line[c - 1] not in '&.' and not (x['t'] == 'comment' and c < 2):
                    qs.append(['none', '', x['f'], x['l'], c, x['t']])
            elif x['t'] == 'label' and x['c'] == 0:
                qs.append(['none', '', x['f'], x['l'], 0, 'label'])
    case['q'] = qs
    case['names'] = r.sample(sorted(I['mnem']), 4) + r.sample(sorted(I['mach']), 4) + ['DC', 'AIF']
    return case


def doc_of(case, m, at):
    lines = lines_of(case, at[0])
    if lines and lines[-1] == '':
        lines = lines[:-1]
    i = at[1]
    proto = [lines[i]]
    while len(proto[-1]) > 71 and proto[-1][71] != ' ' and i + len(proto) < len(lines):
        proto.append(lines[i + len(proto)])
    j = i + len(proto)
    after = []
    com = lambda s: s[:1] == '*' or s[:2] == '.*'
    while j < len(lines) and com(lines[j]):
        after.append(lines[j])
        j += 1
    k = i - 1
    between = k >= 0 and com(lines[k])
    before = []
    k -= 1
    while not between and k >= 0 and com(lines[k]):
        before.insert(0, lines[k])
        k -= 1
    return proto, before, after, between


def run(case, env):
    if case['bad']:
        return {'nontrivial': False, 'sample': '', 'labels': ['discarded']}
    q = []
    for kind, ch, f, l, c, x in case['q']:
        e = {'k': 'com', 'f': f, 'l': l, 'c': c}
        if kind == 'trig':
            e['ch'] = ch
        if kind == 'op':
            e.update({'short': {'short': True}, 'macros': {'only': MACRO}, 'names': {'names': case['names']}}[x])
        if kind == 'none':
            e['short'] = True
        q.append(e)
    a = env.drv('drv_an').call({'text': case['text'], 'libs': case['libs'], 'q': q, 'limit': 4000})
    if a.get('cut'):
        return {'nontrivial': False, 'sample': '', 'labels': ['discarded']}
    macs = {u: m for u, m in case['macros'].items() if m['known']}
    labels, scopes = set(), set()
    for (kind, ch, f, l, c, x), got in zip(case['q'], a['q']):
        where = '%s line %d column %d (%s %s)' % (f, l + 1, c, kind, ch or x)
        if kind in ('trig', 'after'):
            sc = case['scopes'][x]
            if ch == '&':
                exp = sorted(['&' + v, d, '&' + v, '', VAR] for v, d in sc['vars'].items())
            else:
                exp = sorted(['.' + s, 'Sequence symbol', '.' + s, '', SEQ] for s in sc['seqs'])
            if sorted(got) != exp:
                raise Violation('%s: offered %s, expected %s' % (where, [g[:2] for g in sorted(got)], [e[:2] for e in exp]))
            labels.add(ch + (' open code' if x == 'open' else ' macro'))
            scopes.add((ch, json.dumps(exp)))
        elif kind == 'none':
            if got:
                raise Violation('%s: %d items offered, none expected' % (where, len(got)))
            labels.add('nothing in ' + x)
        elif x == 'short':
            cnt = Counter(g[0] for g in got if g[1] != MACRO)
            miss = ALL - set(cnt)
            dup = [k for k, v in cnt.items() if v > 1]
            if miss:
                raise Violation('%s: instructions %s are not offered' % (where, sorted(miss)[:5]))
            if dup:
                raise Violation('%s: %s is offered twice' % (where, dup[:3]))
            gm = sorted(g[0] for g in got if g[1] == MACRO)
            em = sorted(m['name'] for m in macs.values())
            if gm != em:
                raise Violation('%s: macros %s are offered, expected %s' % (where, gm, em))
            labels.add('instructions')
        elif x == 'macros':
            exp = []
            for u, m in macs.items():
                sig = ('&LBL ' if m['label'] else '') + m['name'] + ' '
                kw = dict(m['kw'])
                sig += ','.join(['&' + p for p in m['params'] if p not in kw] + ['&%s=%s' % (p, kw[p]) for p in m['params'] if p in kw])
                exp.append((m['name'], sig, u))
            if sorted((g[0], g[1]) for g in got) != sorted(e[:2] for e in exp):
                raise Violation('%s: macros %s are offered, expected %s' % (where, sorted((g[0], g[1]) for g in got), sorted(e[:2] for e in exp)))
            for name, sig, u in exp:
                if sum(1 for e in exp if e[0] == name) > 1:
                    continue
                g = next(g for g in got if g[0] == name)
                if g[2] != name:
                    raise Violation('%s: macro %s inserts %r' % (where, name, g[2]))
                proto, before, after, between = doc_of(case, macs[u], case['defs']['mac/' + u])
                want = proto + before + after
                have = [s for s in g[3].split('\n') if s and s != '```']
                if (not between and have != want) or any(s not in have for s in proto):
                    raise Violation('%s: macro %s is documented by %r, expected %r' % (where, name, have, want))
            labels.add('macros')
        else:
            for n in case['names']:
                g = [i for i in got if i[0] == n]
                if len(g) != 1:
                    raise Violation('%s: %s is offered %d times' % (where, n, len(g)))
                g = g[0]
                if not g[2].startswith(n):
                    raise Violation('%s: %s inserts %r' % (where, n, g[2]))
                if n in I['mnem']:
                    base, repl = I['mnem'][n]
                    if base not in g[3].split('\n')[0].split():
                        raise Violation('%s: %s is documented as %r, expected %s' % (where, n, g[3], base))
            labels.add('details')
    return {'nontrivial': len(scopes) >= 2 or ('macros' in labels and len(macs) >= 2), 'sample': case['text'], 'labels': sorted(labels)}
