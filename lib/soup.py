"""Arbitrary source text: near-valid programs, statements out of well formed and broken pieces, and edits of both."""
import json, os
import prog

INSTR = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'instr.json')))
MACH = sorted(INSTR['mach'])
ASM = ['ACONTROL', 'ADATA', 'AINSERT', 'ALIAS', 'AMODE', 'CATTR', 'CCW', 'CCW0', 'CCW1', 'CEJECT', 'CNOP', 'COM', 'COPY', 'CSECT', 'CXD', 'DC', 'DS', 'DROP', 'DSECT', 'DXD', 'EJECT', 'END', 'ENTRY', 'EQU', 'EXITCTL', 'EXTRN', 'ICTL', 'ISEQ', 'LOCTR',
       'LTORG', 'MNOTE', 'OPSYN', 'ORG', 'POP', 'PRINT', 'PUNCH', 'PUSH', 'REPRO', 'RMODE', 'RSECT', 'SPACE', 'START', 'TITLE', 'USING', 'WXTRN', 'XATTR', '*PROCESS']
CA = ['AIF', 'AGO', 'ANOP', 'ACTR', 'SETA', 'SETB', 'SETC', 'LCLA', 'LCLB', 'LCLC', 'GBLA', 'GBLB', 'GBLC', 'MACRO', 'MEND', 'MEXIT', 'AREAD', 'AEJECT', 'ASPACE', 'MHELP', 'AIFB', 'AGOB', 'SETAF', 'SETCF']
FUN1 = ['A2B', 'A2C', 'A2D', 'A2X', 'B2C', 'B2D', 'B2X', 'BYTE', 'C2B', 'C2D', 'C2X', 'D2B', 'D2C', 'D2X', 'DCLEN', 'DCVAL', 'DEQUOTE', 'DOUBLE', 'ESYM', 'ISBIN', 'ISDEC', 'ISHEX', 'ISSYM', 'LOWER', 'SIGNED', 'SYSATTRA', 'SYSATTRP', 'UPPER', 'X2A', 'X2B', 'X2C', 'X2D', 'C2A', 'B2A', 'D2A', 'NOT', 'B2', 'NOSUCH']
FUN2 = ['AND', 'OR', 'XOR', 'AND NOT', 'FIND', 'INDEX', 'SLA', 'SLL', 'SRA', 'SRL', 'EQ', 'NE', 'LT', 'GT', 'LE', 'GE']
ODD = ['é', 'ß', '€', '😀', '\t', '\x01', '\x7f', '¬', '\u00a0', '\x1a', '\ufeff', '\u2028', '\x0b', '\x0c', '\x85']
BITS = ["'", "''", '&', '&&', '.', ',', '(', ')', '((', '))', '=', '*', '+', '-', '/', ' ', '  ', "L'", "T'", "K'", "N'", "D'", "O'", "I'", "S'", 'C', 'X', 'B', "X'", "C'", "CA'", "CE'", "CU'", "G'", "P'", '|', '<', '>', ':', ';', '"', '#', '@', '$', '_', '%', '!', '?',
        '2147483647', '2147483648', '99999999999999999999', '-2147483648', '0', '1', 'AND', 'OR', 'NOT', 'EQ', '&SYSLIST', '&SYSNDX', '&SYSPARM', '&SYSECT', '&SYSDATE', '&SYSMAC', '&SYSLOC', '&A0', '&C0', '&B0', '&P1', '&(', '&(A&N)', '&ARR(', '.S1', '.*', '=F', '=A(', "=C'", 'SYM0', 'SYM1',
        'M0', 'COPYA', 'COPYB', '*', '**', '1.5E', 'E', 'A(', 'AL', 'F', 'SL2(', 'VL', 'J', 'Q(', 'R(', 'PL', 'ZL', 'EH', 'DB', 'LD', 'CL256', 'XL65536', 'FE', 'FS', 'HS', 'V(']


def expr(r, d=0):
    k = r.weighted([(6, 'n'), (4, 'b'), (2, 'p'), (1, 'u'), (2, 'f'), (1, 's'), (1, 'x')])
    if d > 4:
        k = 'n'
    if k == 'n':
        return r.pick(['0', '1', '2', '15', '-1', '4095', '32768', '65536', '16777216', '2147483647', '-2147483648', '2147483648', 'SYM0', 'SYM1', 'SYM2', 'SYM3', 'UNDEF', '*', '&A0', '&A1', '&A2', '&B0', '&C0', '&ARR(1)', '&ARR(&A0)', '&SYSLIST(1)', "&SYSLIST(1,2)", '&P1', '&P1(1)', '&P1(1,2,3)', '&K', '&(A&N)', '&SYSNDX',
                       "X'FF'", "X'80000000'", "B'1'", "C'AB'", "C''", "X''", "C'ABCDE'", "L'SYM0", "L'SYM5", "L'*", "T'SYM0", "T'&P1", "K'&C0", "N'&ARR", "N'&SYSLIST", "N'&SYSLIST(1)", "D'SYM1", "O'LR", "I'SYM0", "S'SYM1", "L'=F'1'", "=F'1'", "=A(*)", "=CL8'X'", "L'SYM0(2)", "T'&ARR(1)", "L'&C0"])
    if k == 'b':
        return expr(r, d + 1) + r.pick(['+', '-', '*', '/', ' AND ', ' OR ', ' XOR ', ' EQ ', ' LT ', '.', ' SLA ', ' SRL ', ' INDEX ', ' AND NOT ']) + expr(r, d + 1)
    if k == 'p':
        return '(' + expr(r, d + 1) + ')'
    if k == 'u':
        return r.pick(['+', '-', 'NOT ', '(NOT ', '--']) + expr(r, d + 1)
    if k == 'f':
        return r.pick(['%s(%s)', '(%s %s)']) % (r.pick(FUN1), expr(r, d + 1)) if r.chance(60) else r.pick(['%s(%s,%s)' % (r.pick(FUN2), expr(r, d + 1), expr(r, d + 1)), '(%s %s %s)' % (expr(r, d + 1), r.pick(FUN2), expr(r, d + 1))])
    if k == 's':
        return string(r) + r.pick(['', '', '(1,2)', '(%s,%s)' % (expr(r, d + 1), expr(r, d + 1)), '(0,*)', '.' + string(r)])
    return r.pick(BITS)


def string(r):
    return "'" + ''.join(r.list(0, 5, lambda: r.pick(['a', 'B', ' ', "''", '&&', ',', '(', ')', 'xyz', '1', '-5', 'FFFFFFFF', '&C0', '&C1.x', '&A0', '&SYSLIST(1)', '&(', '&', "L'", '.', '99999999999'] + ODD[:4]))) + "'"


def dcop(r):
    t = r.pick(['A', 'B', 'C', 'D', 'DH', 'DB', 'DD', 'E', 'EB', 'ED', 'F', 'FD', 'G', 'H', 'J', 'JD', 'L', 'LB', 'LQ', 'LD', 'P', 'Q', 'QD', 'R', 'RD', 'S', 'SY', 'SYD', 'V', 'VD', 'X', 'Y', 'YD', 'Z', 'AD', 'CA', 'CE', 'CU', 'QY', 'W', 'K', 'T'])
    dup = r.weighted([(4, ''), (2, str(r.int(0, 5))), (1, '(%s)' % expr(r, 2)), (1, r.pick(['-1', '0', '99999999', '2147483647', '2147483648']))])
    mod = ''.join(r.list(0, 3, lambda: r.pick(['L%d' % r.int(0, 20), 'L(%s)' % expr(r, 2), 'L.%d' % r.int(0, 40), 'S%d' % r.int(-3, 20), 'S(%s)' % expr(r, 3), 'E%d' % r.int(-80, 80), 'E(%s)' % expr(r, 3), 'P(%s)' % expr(r, 3), 'L', 'L65536', 'S', 'E'])))
    nom = r.weighted([(2, ''), (4, string(r)), (3, '(' + ','.join(r.list(0, 4, lambda: r.pick([expr(r, 2), expr(r, 2), '%d(%d)' % (r.int(0, 4096), r.int(0, 16)), '%s(%s)' % (expr(r, 3), expr(r, 3)), '%s(%s,%s)' % (expr(r, 3), expr(r, 3), expr(r, 3))]))) + ')'),
                      (3, "'" + ','.join(r.list(0, 3, lambda: r.pick(['1', '-1', '1.5', '1E5', '-.5E-70', '1E999', 'FF', '01', 'GG', '(MAX)', '(QNAN)', '(INF)', '1.', '.', '-', 'U5', '9' * 40, '1R', '1.5R4', '+1P']))) + "'")])
    return dup + t + mod + nom


def operands(r, o):
    if o in MACH:
        f = INSTR['mach'][o]
        ops = f[2] if isinstance(f, list) and len(f) > 2 else []
        out = []
        for x in ops:
            out.append(r.weighted([(3, str(r.int(0, 15))), (2, '%d(%s)' % (r.int(0, 5000), r.int(0, 16))), (1, '%s(%s,%s)' % (expr(r, 3), expr(r, 3), expr(r, 3))), (2, expr(r, 2)), (1, "=" + dcop(r)), (1, ''), (1, '(%s)' % expr(r, 3)), (1, '(,%s)' % expr(r, 3)), (1, '%s(,%s)' % (expr(r, 3), expr(r, 3)))]))
        for _ in range(r.weighted([(8, 0), (1, 1), (1, 2)])):
            out.insert(r.int(0, len(out)), expr(r, 2))
        if out and r.chance(10):
            out.pop()
        return ','.join(out)
    if o in ('DC', 'DS', 'DXD'):
        return ','.join(r.list(1, 3, lambda: dcop(r)))
    if o in ('AIF', 'AIFB'):
        return ','.join(r.list(0, 3, lambda: '(' + expr(r, 1) + ')' + r.pick(['.S%d' % r.int(0, 4), '.S1', 'S1', '', '.', '.S&A0'])))
    if o in ('AGO', 'AGOB'):
        return r.pick(['', '(%s)' % expr(r, 2)]) + ','.join(r.list(0, 3, lambda: '.S%d' % r.int(0, 4)))
    if o in ('LCLA', 'LCLB', 'LCLC', 'GBLA', 'GBLB', 'GBLC'):
        return ','.join(r.list(0, 3, lambda: r.pick(['&A0', '&C0', 'A1', '&ARR(5)', '&ARR(0)', '&ARR(%s)' % expr(r, 3), '&(A&N)', '&P1', '&SYSLIST', '&A0(', '&', 'A1(2)', '&G0'])))
    if o == 'COPY':
        return r.pick(['COPYA', 'COPYB', 'COPYC', 'NOSUCH', 'copya', '&C0', '', 'COPYA,COPYB', 'M0', "'COPYA'", 'COPYA  rem', 'TOOLONGNAME1'])
    if o == 'AREAD':
        return r.pick(['', 'NOSTMT', 'NOPRINT', 'CLOCKB', 'CLOCKD', 'XX', 'NOPRINT,NOSTMT', ','])
    if o == 'AINSERT':
        return r.pick(["'%s',BACK", "'%s',FRONT", "'%s'", "'%s',X", '&C0,BACK']).replace('%s', r.pick([' LR 1,2', 'SYM7 DS F', ' COPY COPYA', ' AINSERT \'\' A\'\',BACK', ' MACRO', '&C0', 'é', ' AGO .S1', '.S1 ANOP', '']))
    if o == 'OPSYN':
        return r.pick(['', 'LR', 'M0', 'DC', 'AIF', 'SETA', 'NOSUCH', 'COPY', 'MACRO', 'MEND', 'L', 'EQU', '&C0'])
    if o == 'ICTL':
        return ','.join(r.list(0, 4, lambda: str(r.int(0, 81))))
    if o == 'CNOP':
        return '%d,%d' % (r.int(0, 16), r.int(0, 32))
    return ','.join(r.list(0, 4, lambda: r.weighted([(4, expr(r, 1)), (1, 'K=' + expr(r, 3)), (1, string(r)), (1, '(%s,%s)' % (expr(r, 3), expr(r, 3))), (1, ''), (1, r.pick(['ON', 'OFF', 'GEN', 'NOGEN', 'ALL', 'PRINT', 'USING', 'A', 'ANY', '31', 'NOPRINT']))])))


def line(r):
    lab = r.weighted([(5, ''), (4, 'SYM%d' % r.int(0, 6)), (2, '.S%d' % r.int(0, 4)), (2, r.pick(['&A0', '&A1', '&B0', '&C0', '&C1', '&ARR(%d)' % r.int(-1, 5), '&ARR(%s)' % expr(r, 3), '&(A&N)', '&(&C0)', '&NEW'])), (1, r.pick(['X&C0', 'S1', 'LONGLABEL' * 8, '1A', '.', '&', '*', '.*', '-', 'A.B', '@#$_', "'", '=F', 'é'])), (1, 'D1')])
    o = r.weighted([(6, r.pick(MACH)), (6, r.pick(['DC', 'DS', 'EQU', 'ORG', 'CSECT', 'DSECT', 'USING', 'COPY'])), (5, r.pick(ASM)), (8, r.pick(['SETA', 'SETB', 'SETC', 'AIF', 'AGO', 'ANOP'])), (4, r.pick(CA)), (4, r.pick(['M0', 'M1', 'M2'])), (1, r.pick(['&C0', 'L&C0', '', 'NOSUCH', 'lr', 'LR,', "L'", 'A.B', 'é', 'L(1)', '*']))])
    s = lab + ' ' * r.weighted([(6, 1), (1, 0), (1, 9)]) + o + ' ' * r.weighted([(8, 1), (1, 0), (1, 3)]) + operands(r, o) + r.weighted([(6, ''), (1, ' remark, it''s'), (1, ' ')])
    return wrap(r, s)


def wrap(r, s):
    """long statements are continued, mostly as they should be"""
    if len(s) <= 71 or r.chance(20):
        if r.chance(5):
            s = s.ljust(71)[:71] + r.pick(['X', 'é', '-', '&']) + r.pick(['', '12345678', 'é' * 8, '😀'])
        return [s]
    out, first = [], True
    while True:
        w = 71 if first else 56
        t, s = s[:w], s[w:]
        t = t if first else ' ' * r.weighted([(12, 15), (1, 14), (1, 0)]) + t
        if not s:
            out.append(t)
            return out
        out.append(t.ljust(71)[:71] + 'X')
        first = False


def macro(r, name):
    ps = r.list(0, 4, lambda: r.pick(['&P1', '&P2', '&K=', '&K=5', "&K2='a b'", '&P1', 'P3', '', '&SYSNDX', '&K=(1,2,3)', '&A0']))
    out = [' MACRO', r.pick(['', '&NM', '&P1', 'X']) + ' ' + r.weighted([(9, name), (1, r.pick(['&X', '', 'LR', 'M0', 'AIF']))]) + ' ' + ','.join(ps)]
    for _ in range(r.int(0, 6)):
        out += line(r) if not r.chance(5) else macro(r, 'M%d' % r.int(0, 2))
    if not r.chance(5):
        out.append(r.pick(['', '.S1', 'X']) + ' MEND')
    return out


def soup(r, lo=1, hi=12):
    out = []
    for _ in range(r.int(lo, hi)):
        out += r.weighted([(12, 'l'), (2, 'm'), (1, 'c')]) == 'l' and line(r) or (macro(r, 'M%d' % r.int(0, 2)) if r.chance(70) else [r.pick(['* comment', '.* comment', '*PROCESS RENT', '', ' ', '*', '-INC COPYA', '++INCLUDE COPYB', '*' + 'x' * 90, '* é😀', '*'.ljust(71) + 'X', ' '.ljust(71) + 'X'])])
    return out


def mutate(r, t):
    n = r.int(1, 4)
    for _ in range(n):
        k = r.pick(['ins', 'del', 'dup', 'swap', 'line', 'cut', 'odd', 'nl', 'rep'])
        i = r.int(0, max(0, len(t)))
        j = min(len(t), i + r.int(1, 12))
        if k == 'ins':
            t = t[:i] + r.pick(BITS) + t[i:]
        elif k == 'del':
            t = t[:i] + t[j:]
        elif k == 'dup':
            t = t[:j] + t[i:j] * r.pick([1, 2, 8]) + t[j:]
        elif k == 'swap':
            m = r.int(0, max(0, len(t)))
            t = t[:i] + t[m:m + j - i] + t[j:]
        elif k == 'line':
            ls = t.split('\n')
            a, b = r.int(0, len(ls) - 1), r.int(0, len(ls) - 1)
            ls.insert(b, ls[a])
            t = '\n'.join(ls)
        elif k == 'cut':
            t = t[:i]
        elif k == 'odd':
            t = t[:i] + r.pick(ODD) + t[i:]
        elif k == 'nl':
            t = t[:i] + r.pick(['\n', '\r', '\r\n', '\n\r', 'X\n', '\n               ', '\n\n']) + t[i:]
        else:
            t = t[:i] + r.pick(BITS + ODD) + t[j:]
    return t


def text(r, lo=1, hi=12):
    k = r.weighted([(5, 'soup'), (3, 'prog'), (1, 'mix')])
    if k == 'soup':
        t = '\n'.join(soup(r, lo, hi))
    else:
        p = prog.Prog(r, errors=r.pick([0, 10, 30]), syntax=30)
        t = prog.write(p.body, lambda i, s: {})[0]
        if k == 'mix':
            ls = t.split('\n')
            for _ in range(r.int(1, 5)):
                i = r.int(0, len(ls))
                ls[i:i] = line(r)
            t = '\n'.join(ls)
    if r.chance(60):
        t = mutate(r, t)
    if r.chance(8):
        t = t.replace('\n', r.pick(['\r\n', '\r']))
    if r.chance(50):
        t += '\n'
    return t
