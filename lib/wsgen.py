"""Small workspaces: programs, macros and copy members that refer to each other, and their configuration."""
import json

MACS = ['MACA', 'MACB', 'MACC']
CPYS = ['CPYA', 'CPYB', 'CPYC']


def line(r, depth, macs=None, cpys=None):
    """one statement; members may use only members behind them, so nothing is recursive, and copy members (depth 1),
    which may be used twice, have no sequence symbols, so nothing loops"""
    k = r.weighted([(5, 'call'), (4, 'copy'), (3, 'equ'), (2, 'ref'), (3, 'bad'), (2, 'set'), (1, 'cont'), (2 if depth == 0 else 0, 'if'), (1, 'rem')])
    macs = MACS if macs is None else macs
    cpys = CPYS if cpys is None else cpys
    if k == 'call' and macs:
        return '%s %s %s' % (r.pick(['', 'LAB', 'X%d' % r.int(1, 9)]), r.pick(macs), r.pick(['', '1', 'A,B', 'P=3', '&V', '(1,2)']))
    if k == 'copy' and cpys:
        return ' COPY %s' % r.pick(cpys)
    if k == 'equ':
        return 'X%d EQU %s' % (r.int(1, 9), r.pick(['1', '*', 'X%d' % r.int(1, 9), 'X%d+1' % r.int(1, 9)]))
    if k == 'ref':
        return ' LR %d,X%d' % (r.int(0, 15), r.int(1, 9))
    if k == 'bad':
        return r.pick([' LR 1', ' UNKNOWN 1', ' DC F', ' LR 1,2,3', ' SETA', "&B SETA 'A'", ' DS C(', ' COPY NOSUCH', ' MNOTE', "  LR 1,'"])
    if k == 'set':
        return '&V%s SETA %d' % (r.pick(['', '1', '2']), r.int(0, 99))
    if k == 'cont':
        return (' LR 1,').ljust(71) + 'X\n' + ' ' * 15 + '%d' % r.int(0, 20)
    if k == 'if':
        n = r.int(1, 99)
        return ' AIF (&V EQ %d).S%d\n LR 1\n.S%d ANOP' % (r.int(0, 1), n, n)
    return '* remark %d' % r.int(0, 99)


def body(r, lo, hi, macs=None, cpys=None, depth=0):
    return r.list(lo, hi, lambda: line(r, depth, macs, cpys))


def program(r):
    out = body(r, 0, 6)
    if r.chance(30):
        m = r.pick(MACS + ['OWN'])
        out = [' MACRO', ' %s &P' % m] + body(r, 0, 2, [], []) + [' MEND'] + out + [' %s 5' % m]
    return '\n'.join(out) + r.pick(['', '\n'])


def member(r, name):
    """text of a member; mostly of the kind its name says"""
    if name.startswith('MAC') and not r.chance(8):
        i = MACS.index(name)
        b = body(r, 0, 4, MACS[i + 1:], CPYS)
        proto = name if not r.chance(5) else 'OTHER'
        out = [' MACRO', '&LBL %s &A,&P=2' % proto] + b + [' MEND']
        if r.chance(10):
            out = out[:-1]
        return '\n'.join(out)
    if name.startswith('CPY'):
        return '\n'.join(body(r, 0, 4, [], CPYS[CPYS.index(name) + 1:], 1))
    return '\n'.join(body(r, 0, 3, [], [], 1))


def proc_grps(r, libs=('lib1', 'lib2')):
    gs = []
    for g in ['G1', 'G2']:
        gs.append({'name': g, 'libs': r.pick([['lib1'], ['lib2'], ['lib1', 'lib2'], ['lib2', 'lib1'], []])})
    return json.dumps({'pgroups': gs})


def pgm_conf(r, pgms):
    e = []
    for p in pgms:
        if r.chance(75):
            e.append({'program': p, 'pgroup': r.pick(['G1', 'G2'])})
    if r.chance(20):
        e.append({'program': 'p*', 'pgroup': 'G1'})
    if r.chance(10):
        e.append({'program': 'p1', 'pgroup': 'NOSUCH'})
    return json.dumps({'pgms': e})
