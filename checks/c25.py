"""C25: the editor client: typing in continued statements, recognising the language."""
import os, re
from vf import Violation

TARGETS = []
TECHNIQUE = 'model-based testing: generated lines, selections, commands, configurations and documents run through the client sources against a stand-in of the editor API, compared with a text model'
EXAMPLES = {'quick': 20000, 'thorough': 1500000}
RULE = 'a case is non-trivial when the edited line is continued, or when a document is decided by a wildcard or by its contents'
ASSUMPTIONS = ['the editor applies the edits of one command to the document as it was and refuses overlapping ones, as its API documents',
               'selections lie within one line and left of the continuation column; characters typed outnumber the blanks before the continuation column only where the property allows the column to move']

DRV = 'client/drv_client.js'
INSTR = ['LR', 'MVC', 'dc', 'BALR', 'Using', 'SETA', 'L', 'CSECT', 'NOP', 'ZAP', 'EQU', 'COPY']
PLAIN = ['foo bar baz', 'hello', '{"a": 1}', 'This text explains nothing', '  indented words here', 'x = y + 1;', 'LRX 1,2', ' LRX 1,2', 'A LRX 2', ' MACROS are nice', '#include "x"']


def gline(r, off):
    body = ''.join(r.list(0, 12, lambda: r.pick(['A', 'LAB', ' ', '  ', ' LR ', "C'x'", ',', '1', 'é', '+', '     '])))[:off]
    k = r.weighted([(3, 'tail'), (2, 'full'), (2, 'short'), (2, 'few')])
    if k == 'full':
        body = (body + 'ABCDEFGHIJ' * 10)[:off]
    elif k == 'few':
        n = r.int(0, 6)
        body = (body + 'ABCDEFGHIJ' * 10)[:off - n] + ' ' * n
    elif k == 'short':
        return body
    body = body.ljust(off)
    c = r.weighted([(6, 'X'), (1, '*'), (3, ' '), (1, '-')])
    return (body + c + r.weighted([(5, ''), (2, '00010000'), (1, ' '), (1, '  12')])) if r.chance(90) else body


def gname(r):
    return ''.join(r.list(1, 5, lambda: r.pick(['a', 'b', 'A', '.', 'asm', '-', '(', ')', '$', '1', '[x]', '{', 'é', '^', '|', '!', '='])))


def gpat(r, names):
    base = r.pick(names) if names and r.chance(70) else gname(r)
    out = ''.join((r.pick(['*', '?']) if r.chance(20) else c) for c in base)
    return out if r.chance(70) else '*' + out[len(out) // 2:]


def gdoc(r):
    ls = []
    for _ in range(r.int(0, 8)):
        k = r.weighted([(4, 'i'), (4, 'p'), (1, 'c'), (1, 'e'), (1, 'cont'), (1, 'long')])
        ins = r.pick(['', 'LABEL', '&X', '.SEQ']) + r.pick([' ', '\t', '   ']) + r.pick(INSTR) + r.pick([' ', '\t', '  ']) + r.pick(['1,2', '', 'A'])
        ls.append(ins if k == 'i' else r.pick(PLAIN) if k == 'p' else r.pick(['* LR 1,2', '.* comment']) if k == 'c' else '' if k == 'e' else (r.pick([ins, 'foo']).ljust(71) + r.pick('X *')) if k == 'cont' else ins.ljust(81, 'x'))
    if r.chance(8):
        ls.insert(0, r.pick([' MACRO', '\tmacro ', '  MACRO  comment', 'MACRO', 'X MACRO']))
    return '\n'.join(ls)


def gen(r, tier):
    if r.chance(75):
        off = r.weighted([(3, 71), (2, r.int(8, 30))])
        cc = r.weighted([(3, 15), (1, r.int(0, 20))])
        lines = r.list(1, 3, lambda: gline(r, off))
        return {'k': 'edit', 'off': off, 'cc': cc, 'lines': lines, 'ops': r.list(1, 5, lambda: [r.pick(['type', 'type', 'left', 'right', 'cut', 'add', 'remove']), r.int(0, 9), r.int(0, 99), r.weighted([(2, 0), (2, r.int(1, 12))]), r.int(0, 1),
                                                                                                 r.pick(['a', 'a', 'Z', ' ', '(', 'ab', 'PASTE', 'é', ',R1,R2'])])}
    names = r.list(1, 4, lambda: gname(r))
    steps = []
    for _ in range(r.int(2, 8)):
        if r.chance(30) or not steps:
            steps.append(['conf', r.list(0, 2, lambda: gpat(r, names)), r.list(0, 2, lambda: gpat(r, names)), r.list(0, 2, lambda: r.pick(['lib', 'lib/sub', 'x.y', 'l(1)'])), r.int(0, 2)])
        else:
            steps.append(['doc', r.weighted([(4, ''), (1, 'lib/'), (1, 'lib/sub/'), (1, 'x.y/'), (1, 'xzy/'), (1, 'l(1)/'), (1, '../')]) + r.pick(names), gdoc(r), r.chance(70), r.weighted([(6, 'plaintext'), (1, 'hlasm'), (1, 'json')])])
    return {'k': 'lang', 'steps': steps}


def cont(l, off):
    return off < len(l) and l[off] != ' '


def expect(cmd, lines, ln, a, b, rev, text, off, cc):
    """the lines after the command, or None where the property says nothing"""
    L = lines[ln]
    if cmd == 'add':
        if cont(L, off):
            return lines[:ln + 1] + [' ' * off + 'X'] + lines[ln + 1:]
        return lines[:ln] + [L[:off].ljust(off) + 'X', ' ' * cc + L[off + 1:]] + lines[ln + 1:]
    if cmd == 'remove':
        if ln == 0 or not cont(lines[ln - 1], off):
            return lines
        return lines[:ln - 1] + [lines[ln - 1][:off + (1 if cont(L, off) else 0)]] + lines[ln + 1:]
    if b >= off:
        return None
    n = b - a
    c = cont(L, off)
    if cmd == 'type':
        n2 = len(text)
        if n == 0:
            n2 = len(text)
        room = off <= len(L) and L[max(b, off - n2):off] == ' ' * n2
        pad = ' ' * n if c else ''
        if room:
            N = L[:a] + text + L[b:off - n2] + pad + L[off:]
        else:
            N = L[:a] + text + L[b:off] + pad + L[off:]
        return lines[:ln] + [N] + lines[ln + 1:]
    if n == 0:
        if cmd == 'cut':
            return lines
        if cmd == 'left':
            if a == 0:
                return lines if ln == 0 else lines[:ln - 1] + [lines[ln - 1] + L] + lines[ln + 1:]
            a -= 1
        else:
            if a == len(L):
                return lines if ln + 1 == len(lines) else lines[:ln] + [L + lines[ln + 1]] + lines[ln + 2:]
            b += 1
        n = 1
    return lines[:ln] + [L[:a] + L[b:off] + (' ' * n if c else '') + L[off:]] + lines[ln + 1:]


def wild(p, s):
    """does the wildcard match the whole name"""
    return re.fullmatch(''.join('.*' if c == '*' else '.' if c == '?' else re.escape(c) for c in p), s) is not None


def detected(text):
    ls = text.split('\n')
    if re.match(r'[ \t]+MACRO[ \t]*', ls[0].upper()):
        return True
    score = total = 0
    last = False
    for l in ls:
        if l == '' or l.startswith('*') or l.startswith('.*'):
            continue
        total += 1
        w = re.match(r'\S*[ \t]+(\S+)[ \t]+', l.upper())
        if (w and w.group(1) in [i.upper() for i in INSTR] or last) and len(l) <= 80:
            score += 1
            last = len(l) > 71 and l[71] != ' '
    return total > 0 and score / total > 0.4


def norm(p):
    out = []
    for x in p.split('/'):
        if x == '..':
            out.pop()
        elif x not in ('.', ''):
            out.append(x)
    return '/' + '/'.join(out)


def run(case, env):
    d = env.drv(DRV)
    if case['k'] == 'edit':
        lines, off, cc = list(case['lines']), case['off'], case['cc']
        hit = 0
        for cmd, ln, col, n, rev, text in case['ops']:
            ln %= len(lines)
            a = col % (len(lines[ln]) + 1)
            if col >= 80:
                a = max(0, min(len(lines[ln]), off - 1 - col % 4))
            b = a if cmd in ('add', 'remove') else min(len(lines[ln]), a + n)
            want = expect(cmd, lines, ln, a, b, rev, text, off, cc)
            if want is None:
                continue
            hit += cont(lines[ln], off) and cmd != 'remove' or want != lines and cmd == 'remove'
            x, y = (b, a) if rev else (a, b)
            got = d.call({'op': 'edit', 'cmd': cmd, 'lines': lines, 'sel': [ln, x, ln, y], 'text': text, 'off': off, 'cc': cc})
            if 'exc' in got:
                raise Violation('%s at %d:%d-%d (column %d) of %r failed: %s' % (cmd, ln, x, y, off, lines, got['exc']))
            if got['lines'] != want:
                raise Violation('%s%s at %d:%d-%d (column %d) of %r gives %r, expected %r' % (cmd, ' ' + repr(text) if cmd == 'type' else '', ln, x, y, off, lines, got['lines'], want))
            lines = want
        return {'nontrivial': hit > 0, 'labels': ['edit'] + sorted({o[0] for o in case['ops']}), 'sample': case}
    folder = os.path.join(env.scratch(), 'ws')
    steps, want = [], []
    pats = []
    decided = 0
    for s in case['steps']:
        if s[0] == 'conf':
            pg = {'pgms': [{'program': p, 'pgroup': 'G'} for p in s[1]], 'alwaysRecognize': s[2]}
            gr = {'pgroups': [{'name': 'G', 'libs': [x if i % 2 else {'path': x} for i, x in enumerate(s[3])]}]}
            steps.append({'conf': [pg, gr], 'saved': [None, 'pgm_conf.json', 'proc_grps.json'][s[4] if pats is not None and want else 0]})
            pats = [norm(folder + '/' + p) for p in s[1] + s[2]] + [norm(folder + '/' + x) + '/*' for x in s[3]]
        else:
            path = norm(folder + '/' + s[1])
            steps.append({'path': path, 'text': s[2], 'auto': s[3], 'lang': s[4]})
            m = any(wild(p, path) for p in pats)
            c = s[3] and detected(s[2])
            yes = m or c
            decided += s[4] == 'plaintext' and yes
            want.append([s[4] == 'hlasm' or s[4] == 'plaintext' and yes, ['hlasm'] if s[4] == 'plaintext' and yes else []])
    a = d.call({'op': 'lang', 'folder': folder, 'steps': steps})
    if 'exc' in a:
        raise Violation('recognition failed: ' + a['exc'])
    for i, (g, w) in enumerate(zip(a['r'], want)):
        if g != w:
            raise Violation('document %d recognised %r, expected %r: %r' % (i, g, w, [s for s in steps if 'path' in s][i]))
    return {'nontrivial': decided > 0, 'labels': ['language'], 'sample': case}
