"""C22: semantic tokens."""
from vf import Violation
import nav, soup, ses

TARGETS = ['drv_an', 'drv_ls']
FAST = True
TECHNIQUE = 'property-based testing: generated programs that record every field they write against the tokens of the analysis, and decoding of the encoded tokens of generated texts against the analysis of the same text'
EXAMPLES = {'quick': 5000, 'thorough': 120000}
RULE = ('case = a program of known fields (labels, operations, symbols of all kinds, strings, remarks, comments, continuations, sequence numbers in open code, macros, members) or a random text, and another document; '
        'oracle = the record of what was written (every field has a token of its kind and range, no token of these kinds elsewhere), order and bounds of tokens, equality of the decoded protocol array with the tokens of a separate analysis; '
        'non-trivial = more than five tokens')
ASSUMPTIONS = ['in statements changed by substitution only the parts that the substitution leaves alone are claimed']

NAMES = ['label', 'instruction', 'remark', 'ignored', 'comment', 'continuation', 'sequence symbol', 'variable symbol', 'operator', 'string', 'number', 'operand', 'data type', 'modifier', 'attribute', 'self-defining term', 'ordinary symbol']
LABEL, INSTR, REMARK, IGN, COMMENT, CONT, SEQ, VAR, OPER, STR, NUM, OPND, DTYPE, MOD, ATTR, SELF, ORD = range(17)


def gen(r, tier):
    k = r.weighted([(6, 'nav'), (1, 'soup')])
    other = r.pick([None, None, ' LR 1,2\n', 'X EQU 1\n*\n MACRO\n M1\n MEND\n M1\n'])
    if k == 'nav':
        c = nav.Nav(r).result()
        c = {x: c[x] for x in ('text', 'libs', 'fields', 'bad')}
        c['other'] = other
        c['ls'] = r.chance(40)
        return c
    return {'text': soup.text(r), 'libs': {}, 'fields': None, 'bad': False, 'other': other, 'ls': True}


def show(t):
    return '%s at line %d columns %d-%d' % (NAMES[t[4]] if t[4] < 17 else t[4], t[0] + 1, t[1], t[3])


def order(f, text, ts):
    ls = [text[a:a + n] for a, n in ses.lines(text)]
    for i, t in enumerate(ts):
        if t[0] != t[2] or t[1] >= t[3]:
            raise Violation('%s: the token %s is empty or longer than a line' % (f, show(t)))
        if t[0] >= len(ls) or t[3] > max(ses.u16(ls[t[0]]), 0):
            raise Violation('%s: the token %s is behind the end of the line' % (f, show(t)))
        if i and (t[0], t[1]) < tuple(ts[i - 1][:2]):
            raise Violation('%s: the token %s comes behind %s' % (f, show(t), show(ts[i - 1])))


def fields(case, f, text, ts):
    ls = text.split('\n')
    fs = [x for x in case['fields'] if x['f'] == f]
    model = set()
    at = {}
    for t in ts:
        at.setdefault(t[0], []).append(t)
    claims = {}
    for x in fs:
        claims.setdefault(x['l'], []).append(x)
    n = 0
    for x in fs:
        l, c, w = x['l'], x['c'], x['w']
        over = [t for t in at.get(l, []) if t[1] < c + w and c < t[3]]
        exact = {t[4] for t in over if t[1] == c and t[3] == c + w}
        kinds = {t[4] for t in over}
        what = '%s line %d columns %d-%d (%s %r)' % (f, l + 1, c, c + w, x['t'], ls[l][c:c + w])

        def need(kind, ok=exact):
            if kind not in ok:
                raise Violation('%s: no token of kind %s there, but %s' % (what, NAMES[kind], [show(t) for t in over]))
            extra = kinds - {kind, STR}
            if extra:
                raise Violation('%s: also tokens %s' % (what, [show(t) for t in over if t[4] in extra]))
        k = x.get('k')
        if not x['need']:
            # never collected, or collected only when a statement is executed: absent or right
            if not over:
                continue
        n += 1
        if x['t'] == 'comment':
            need(COMMENT)
        elif x['t'] == 'cont':
            need(CONT)
        elif x['t'] == 'seqno':
            need(IGN, {t[4] for t in over if t[1] <= c and t[3] >= c + w})
        elif x['t'] == 'remark':
            need(REMARK, {t[4] for t in over if t[1] <= c and t[3] >= c + w and not ls[l][t[1]:c].strip() and not ls[l][c + w:t[3]].strip()})
        elif k == 'var':
            need(VAR)
        elif k == 'seq':
            need(SEQ)
        elif x['t'] == 'op':
            need(INSTR)
        elif x['t'] == 'label' and k == 'ord' and c == 0:
            need(LABEL)
        elif k in ('ord', 'copy'):
            if over and over != [t for t in over if t[4] == STR]:
                need(ORD if ORD in kinds else OPND)
            elif not any(y['l'] == l and y.get('k') == 'var' for y in fs) and not x.get('model'):
                raise Violation('%s: no token there' % what)
        elif x['t'] in ('label', 'operand'):
            bad = kinds - {OPER, STR, NUM, OPND, DTYPE, MOD, ATTR, SELF} - ({VAR} if '&' in x.get('text', '') else set())
            if bad:
                raise Violation('%s: tokens %s' % (what, [show(t) for t in over if t[4] in bad]))
    # nothing else of these kinds
    for t in ts:
        cl = [x for x in claims.get(t[0], []) if x['c'] < t[3] and t[1] < x['c'] + x['w']]
        ok = {LABEL: lambda x: x['t'] == 'label', INSTR: lambda x: x['t'] == 'op', REMARK: lambda x: x['t'] == 'remark', COMMENT: lambda x: x['t'] == 'comment', CONT: lambda x: x['t'] == 'cont',
              SEQ: lambda x: x.get('k') == 'seq', VAR: lambda x: x.get('k') == 'var' or '&' in x.get('text', '')}.get(t[4])
        if ok and not any(map(ok, cl)):
            raise Violation('%s: the token %s covers %r, which is something else' % (f, show(t), ls[t[0]][t[1]:t[3]]))
        if t[4] not in (IGN, REMARK) and not ls[t[0]][t[1]:t[3]].strip():
            raise Violation('%s: the token %s covers blanks' % (f, show(t)))
    # overlapping: only symbols in strings
    for line in at.values():
        for i, t in enumerate(line):
            for u in line[i + 1:]:
                if u[1] < t[3] and u != t and not (t[4] == STR and u[3] <= t[3]) and not (u[4] == STR and t[1] == u[1]):
                    raise Violation('%s: the tokens %s and %s overlap' % (f, show(t), show(u)))
    return n


def decode(d):
    out, l, c = [], 0, 0
    for i in range(0, len(d), 5):
        dl, dc, w, k, _ = d[i:i + 5]
        if dl < 0 or dc < 0 or w <= 0:
            raise Violation('encoded token %s' % d[i:i + 5])
        l += dl
        c = dc + (c if dl == 0 else 0)
        out.append([l, c, l, c + w, k])
    return out


def run(case, env):
    if case['bad']:
        return {'nontrivial': False, 'sample': '', 'labels': ['discarded']}
    labels = set()
    total = 0
    if case['fields'] is not None:
        a = env.drv('drv_an').call({'text': case['text'], 'libs': case['libs'], 'hl': True, 'limit': 4000})
        if a.get('cut'):
            return {'nontrivial': False, 'sample': '', 'labels': ['discarded']}
        for f, ts in [('PROG', a['tok'])] + sorted(a['ltok'].items()):
            text = case['text'] if f == 'PROG' else case['libs'][f]
            order(f, text, ts)
            n = fields(case, f, text, ts)
            total += n
            labels.add('fields of ' + f[:3])
            labels |= {'kind ' + NAMES[t[4]] for t in ts}
    if case['ls']:
        a = env.drv('drv_an').call({'text': case['text'], 'libs': {}, 'hl': True, 'limit': 4000})
        if a.get('cut'):
            return {'nontrivial': False, 'sample': '', 'labels': ['discarded']}
        p = '/v22/p'
        steps = [ses.init()]
        if case['other'] is not None:
            steps.append(ses.did_open('/v22/other', case['other']))
        steps += [ses.did_open(p, case['text']), ses.tokens(p)]
        r = env.drv('drv_ls').call({'op': 'lsp', 'steps': steps})['r']
        got = decode((ses.result(r[-1]) or {}).get('data', []))
        exp = []
        for t in a['tok']:
            if not exp or exp[-1][:2] != t[:2]:
                exp.append(t)
        if got != exp:
            i = next((i for i in range(min(len(got), len(exp))) if got[i] != exp[i]), min(len(got), len(exp)))
            raise Violation('token %d as sent: %s; as analysed: %s' % (i, show(got[i]) if i < len(got) else None, show(exp[i]) if i < len(exp) else None))
        total += len(got)
        labels.add('protocol' + (', other document' if case['other'] else ''))
    return {'nontrivial': total > 5, 'sample': case['text'], 'labels': sorted(labels)}
