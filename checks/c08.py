"""C08: any text is analysed safely, and what is reported lies within the files."""
import os
from vf import Violation
import soup

TARGETS = ['drv_an']
TECHNIQUE = 'structure-aware fuzzing of the analyzer and its queries under address and undefined-behaviour sanitizers, with bounds checks on everything reported'
EXAMPLES = {'quick': 2400, 'thorough': 200000}
RULE = ('case = source text (statements of well formed and broken pieces, near-valid programs, character-level edits of both) with library macros and copy members of the same kinds, and query positions; '
        'oracle = no crash, sanitizer report, escaped exception or missing answer, every range within an existing file and not reversed; non-trivial = at least one problem or token was reported and the text has a statement')
ASSUMPTIONS = ['texts of up to some dozens of statements; deep nesting and very long lines are sampled separately', 'a run of 60 s counts as a hang', 'a column may lie one behind the end of its line or in the card columns up to 80 (an editor takes both as the end of the line)']


def gen(r, tier):
    case = {'text': soup.text(r), 'libs': {}, 'q': []}
    if r.chance(60):
        for n in r.sample(['COPYA', 'COPYB', 'M1', 'M2'], r.int(1, 3)):
            case['libs'][n] = '\n'.join(soup.macro(r, n)) if n[0] == 'M' and not r.chance(10) else soup.text(r, 0, 5)
    if r.chance(5):
        case['big'] = [r.pick(['paren', 'long', 'cont', 'comma', 'quote', 'var', 'plus', 'concat', 'copy', 'macro', 'label', 'not']), r.pick([50, 200, 1000])]
    for _ in range(r.int(0, 10)):
        case['q'].append([r.pick(['PROG'] + sorted(case['libs'])), r.int(0, 99), r.int(0, 90), r.pick(['', '&', '.', ' '])])
    return case


def lines_of(t):
    return t.replace('\r\n', '\n').replace('\r', '\n').split('\n')


def width(s):
    return len(s.encode('utf-16-le')) // 2


def big(case):
    k, n = case['big']
    if k == 'paren':
        return '&A0 SETA ' + '(' * n + '1' + ')' * n + '\n'
    if k == 'long':
        return ' DC C\'' + 'a' * n * 10 + "'\n"
    if k == 'cont':
        return ''.join(' LR 1,'.ljust(71) + 'X\n' for _ in range(n)) + '               2\n'
    if k == 'comma':
        return ' M0 ' + ',' * n + '\n'
    if k == 'quote':
        return "&C0 SETC '" + "''" * n + "'\n"
    if k == 'var':
        return '&C0 SETC ' + '&(' * n + 'A' + ')' * n + '\n'
    if k == 'plus':
        return ' LA 1,' + '1+' * n + '1\n'
    if k == 'concat':
        return '&C0 SETC ' + "'a'." * n + "'b'\n"
    if k == 'copy':
        return ' COPY COPYA\n' * n
    if k == 'macro':
        return ' MACRO\n' * n + ' MEND\n' * (n // 2)
    if k == 'label':
        return 'A' * n + ' EQU 1\n'
    return ' AIF (' + 'NOT ' * n + '1).S1\n'


def run(case, env):
    text = case['text']
    if case.get('big'):
        text = big(case) + text
    libs = case['libs']
    files = {n: [width(x) for x in lines_of(t)] for n, t in libs.items()}
    files['PROG'] = [width(x) for x in lines_of(text)]
    qs = []
    for f, l, c, ch in case['q']:
        if f in files:
            l %= len(files[f])
            for k in ('def', 'ref', 'hov', 'com'):
                q = {'k': k, 'f': f, 'l': l, 'c': min(c, files[f][l])}
                if k == 'com':
                    q['short'] = True
                    if ch:
                        q['ch'] = ch
                qs.append(q)
    drv = env.drv('drv_an')
    o = drv.call({'text': text, 'libs': libs, 'hl': True, 'q': qs, 'limit': 2000}, int(os.environ.get('VERIF_T', 60)))
    show = '\n'.join('--- %s\n%s' % x for x in [('PROG', text)] + sorted(libs.items()))[:4000]

    if o.get('cut') and not any(w in x for w in ('AGO', 'AIF', 'MACRO', 'COPY', 'AINSERT') for x in [text.upper()] + [y.upper() for y in libs.values()]):
        raise Violation('endless analysis of a program without branches or macros\n%s' % show)

    if o.get('cut'):
        return {'nontrivial': False, 'labels': ['cut']}

    def inside(what, f, r):
        if f not in files:
            raise Violation('%s in a file that does not exist: %r\n%s' % (what, f, show))
        (a, b), (c, d) = r[:2], r[2:4]
        if (a, b) > (c, d):
            raise Violation('%s has a reversed range %s\n%s' % (what, r, show))
        for l, x in ((a, b), (c, d)):
            n = len(files[f])
            if l > n or l == n and x or l < n and x > max(files[f][l], 80) + 1:
                raise Violation('%s lies outside its file: %s %s (%d lines, %s columns)\n%s' % (what, f, r, n, files[f][l] if l < n else None, show))
    for d in o['diags']:
        inside('diagnostic %s (%s)' % (d['code'], d['msg'][:60]), d['file'], d['r'])
        for x in d['rel']:
            inside('related location of %s' % d['code'], x[0], x[1])
    for f, ts in [('PROG', o['tok'])] + list(o['ltok'].items()):
        for t in ts:
            inside('token %d' % t[4], f, t[:4])
    for q, a in zip(qs, o['q']):
        if q['k'] == 'def':
            inside('definition', a[0], a[1:] + a[1:])
        if q['k'] == 'ref':
            for x in a:
                inside('reference', x[0], x[1:] + x[1:])
    codes = {d['code'] for d in o['diags']}
    return {'nontrivial': bool(o['diags'] or o['tok']) and len(text) > 3, 'sample': text[:600], 'labels': sorted(codes) + case.get('big', [])[:1] + (['member used'] if o['req'] else [])}


def known(case, e):
    if 'lies outside its file' in str(e) and any('AINSERT' in x.upper() for x in [case['text']] + list(case['libs'].values())):
        return 'AINSERT'
    if 'memory limit exhausted' in str(e) and any('MACRO' in x.upper() for x in [case['text']] + list(case['libs'].values())):
        return 'growing operand'
