"""C04: documents after edits."""
import json
import ses
from vf import Violation

TARGETS = ['drv_ls']
FAST = True
TECHNIQUE = 'model-based testing: generated edit histories of several documents applied through the LSP message handlers and to a client-side text model'
EXAMPLES = {'quick': 9000, 'thorough': 300000}
RULE = 'a case is non-trivial when some document receives at least two ranged edits'
ASSUMPTIONS = ['edit positions are valid: within their line or behind its end (then meaning the end, as the protocol says), not inside a surrogate pair or between CR and LF']

BITS = ['A', 'LABEL', ' ', '  LR 1,2', '\n', '\r\n', '\r', '\n\n', '\u00e9', '\u20ac', '\U0001f600', '*\U0001f600x', " DC C'\u00fc'", '&V', 'X' * 71, '\t', '\u2028', '\u0085', '\u0000', "'"]


def gtext(r, lo, hi):
    return ''.join(r.list(lo, hi, lambda: r.pick(BITS)))


def gen(r, tier):
    docs = r.int(1, 3)
    ops = []
    for _ in range(r.int(2, 14)):
        d = r.int(0, docs - 1)
        k = r.weighted([(9, 'ch'), (1, 'close'), (1, 'open')])
        if k == 'ch':
            ops.append(['ch', d, r.list(1, 4, lambda: ['full', gtext(r, 0, 8)] if r.chance(10) else ['r', r.int(0, 1000), r.int(0, 1000), r.weighted([(3, 0), (5, 1), (2, 2)]), gtext(r, 0, 4), r.int(1, 9) if r.chance(15) else 0])])
        else:
            ops.append([k, d, gtext(r, 0, 12)])
    return {'docs': [gtext(r, 0, 12) for _ in range(docs)], 'ops': ops}


def run(case, env):
    d = env.drv('drv_ls')
    paths = ['/nowhere/d%d.hlasm' % i for i in range(len(case['docs']))]
    steps = [ses.init()]
    text = {}
    checks = []
    ranged = {}
    for i, t in enumerate(case['docs']):
        steps.append(ses.did_open(paths[i], t))
        text[i] = t
    for op in case['ops']:
        i = op[1]
        if op[0] == 'ch':
            if i not in text:
                continue
            t = text[i]
            chs = []
            for c in op[2]:
                if c[0] == 'full':
                    t = c[1]
                    chs.append({'text': t})
                    continue
                a = c[1] % (len(t) + 1)
                b = c[2] % (len(t) + 1) if c[3] == 2 else min(len(t), a + c[2] % 6 * c[3])
                a, b = min(a, b), max(a, b)
                if not ses.valid_off(t, a) or not ses.valid_off(t, b):
                    continue
                ch = {'range': {'start': ses.pos(t, a), 'end': ses.pos(t, b)}, 'text': c[4]}
                # positions behind the end of a line, and behind the last line, denote those ends
                past = c[5] if len(c) > 5 else 0
                for e, o in (('start', a), ('end', b)):
                    if past and o == len(t) and (past > 5 or e == 'end' or a < b):
                        ch['range'][e] = {'line': len(ses.lines(t)) - 1 + past % 3, 'character': ch['range'][e]['character'] + past if past % 3 == 0 else past // 2}
                    elif past and t[o:o + 1] in ('\r', '\n') and (e == 'end' or a < b):
                        ch['range'][e]['character'] += past
                if past and a == b:
                    ch['range']['start'] = dict(ch['range']['end'])
                if c[1] % 3 == 0:
                    ch['rangeLength'] = ses.u16(t[a:b])
                chs.append(ch)
                t = t[:a] + c[4] + t[b:]
                ranged[i] = ranged.get(i, 0) + 1
            if not chs:
                continue
            text[i] = t
            steps.append(ses.did_change(paths[i], chs, 2))
            checks.append((len(steps), i, t))
            steps.append({'text': paths[i]})
        elif op[0] == 'close':
            if i in text:
                del text[i]
                steps.append(ses.did_close(paths[i]))
        elif i not in text:
            text[i] = op[2]
            steps.append(ses.did_open(paths[i], op[2]))
    for i in text:
        checks.append((len(steps), i, text[i]))
        steps.append({'text': paths[i]})
    tok = {}
    for i in text:
        tok[i] = len(steps)
        steps.append(ses.tokens(paths[i]))
    a = d.call({'op': 'lsp', 'steps': steps})['r']
    for r in a:
        if r and 'exc' in r:
            raise Violation('exception: ' + r['exc'])
    for k, i, t in checks:
        got = a[k]['text']
        got = bytes.fromhex(got).decode('utf8', 'replace') if got is not None else None
        if got != t:
            raise Violation('document %d is %r, the client has %r' % (i, got, t))
    # what is analysed is that text
    b = d.call({'op': 'lsp', 'steps': [ses.init()] + [ses.did_open(paths[i], text[i]) for i in text] + [ses.tokens(paths[i]) for i in text]})['r']
    n = len(text)
    pa, pb = ses.published(a), ses.published(b)
    if pa != pb:
        raise Violation('diagnostics after the edits differ from those of the resulting text: %s, fresh %s' % (ses.show(pa), ses.show(pb)))
    for j, i in enumerate(text):
        ta, tb = ses.result(a[tok[i]]), ses.result(b[1 + n + j])
        if ta != tb or ta is None:
            raise Violation('tokens after the edits differ from those of the resulting text')
    return {'nontrivial': any(v > 1 for v in ranged.values()), 'labels': ['%d documents' % len(case['docs'])], 'sample': case}
