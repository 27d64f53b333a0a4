"""Reference model of HLASM data definitions: type table, generation of operands, lengths, alignment and attributes."""

# type: (implicit length or None for 'as needed', alignment, max byte length in DC (min, max), max in DS, bit length (min, max) or None,
#        scale (min, max) / None (not allowed) / 'ign', exponent (min, max) or None, kind of nominal value)
F_SC, F_EX = (-187, 346), (-85, 75)
TYPES = {
    'B': (None, 1, (1, 256), 256, (1, 2048), None, None, 'B'),
    'C': (None, 1, (1, 256), 65535, (1, 2048), None, None, 'C'),
    'CA': (None, 1, (1, 256), 65535, (1, 2048), None, None, 'C'),
    'CE': (None, 1, (1, 256), 65535, (1, 2048), None, None, 'C'),
    'CU': (None, 1, (1, 256), 256, None, None, None, 'CU'),
    'G': (None, 1, (1, 256), 65534, None, None, None, 'G'),
    'X': (None, 1, (1, 256), 65535, (1, 2048), None, None, 'X'),
    'H': (2, 2, (1, 8), 8, (1, 64), F_SC, F_EX, 'F'),
    'F': (4, 4, (1, 8), 8, (1, 64), F_SC, F_EX, 'F'),
    'FD': (8, 8, (1, 8), 8, (1, 64), F_SC, F_EX, 'F'),
    'P': (None, 1, (1, 16), 16, (1, 128), None, None, 'P'),
    'Z': (None, 1, (1, 16), 16, (1, 128), None, None, 'P'),
    'A': (4, 4, (1, 8), None, (1, 128), None, None, 'A'),
    'AD': (8, 8, (1, 8), None, (1, 128), None, None, 'A'),
    'Y': (2, 2, (1, 2), None, (1, 16), None, None, 'A'),
    'S': (2, 2, (2, 2), 2, None, None, None, 'S'),
    'SY': (3, 2, (3, 3), 3, None, None, None, 'S'),
    'R': (4, 4, (3, 4), 4, None, None, None, 'V'),
    'RD': (8, 8, (3, 4, 8), 8, None, None, None, 'V'),
    'V': (4, 4, (3, 4), 4, None, None, None, 'V'),
    'VD': (8, 8, (3, 4, 8), 8, None, None, None, 'V'),
    'Q': (4, 4, (1, 4), 4, None, None, None, 'V'),
    'QD': (8, 16, (1, 8), 8, None, None, None, 'V'),
    'QY': (3, 2, (3, 3), 3, None, None, None, 'V'),
    'J': (4, 4, (2, 3, 4, 8), 8, None, None, None, 'V'),
    'JD': (8, 8, (2, 3, 4, 8), 8, None, None, None, 'V'),
    'E': (4, 4, (1, 8), 8, (1, 64), (0, 5), F_EX, 'E'),
    'EH': (4, 4, (1, 8), 8, (12, 64), (0, 5), F_EX, 'E'),
    'ED': (4, 4, (4, 4), 4, (32, 32), 'ign', F_EX, 'E'),
    'EB': (4, 4, (4, 4), 4, (32, 32), 'ign', F_EX, 'E'),
    'D': (8, 8, (1, 8), 8, (1, 64), (0, 13), F_EX, 'E'),
    'DH': (8, 8, (1, 8), 8, (12, 64), (0, 13), F_EX, 'E'),
    'DD': (8, 8, (8, 8), 8, (64, 64), 'ign', F_EX, 'E'),
    'DB': (8, 8, (8, 8), 8, (64, 64), 'ign', F_EX, 'E'),
    'L': (16, 8, (1, 16), 16, (1, 128), (0, 27), F_EX, 'E'),
    'LH': (16, 8, (1, 16), 16, (12, 128), (0, 27), F_EX, 'E'),
    'LQ': (16, 16, (1, 16), 16, (12, 128), (0, 27), F_EX, 'E'),
    'LD': (16, 8, (16, 16), 16, (128, 128), 'ign', F_EX, 'E'),
    'LB': (16, 8, (16, 16), 16, (128, 128), 'ign', F_EX, 'E'),
}
NAMES = list(TYPES)
SIMPLE = ['C', 'X', 'H', 'F', 'D', 'B', 'P', 'A', 'FD', 'E', 'L', 'LQ', 'AD']


def length_ok(t, n, ds):
    b = TYPES[t][2]
    if len(b) > 2 or t in ('RD', 'VD', 'J', 'JD'):
        return n in b
    if t in ('CU', 'G') and n % 2:
        return False
    hi = b[1]
    if ds and TYPES[t][3]:
        hi = TYPES[t][3]
    return b[0] <= n <= hi


def nominal(r, t):
    """(list of values as written, kind). One nominal value text and what it contributes."""
    k = TYPES[t][7]
    if k == 'B':
        vs = r.list(1, 3, lambda: r.text('01', 1, r.weighted([(3, 8), (1, 20)])))
    elif k == 'X':
        vs = r.list(1, 3, lambda: r.text('0123456789ABCDEF', 1, r.weighted([(3, 5), (1, 20)])))
        if r.chance(15):
            vs = [v[:len(v) // 2] + ' ' + v[len(v) // 2:] if len(v) > 2 else v for v in vs]
    elif k in ('C', 'CU'):
        vs = [r.text("ab XY19,()'&", 1, 9)]
    elif k == 'G':
        vs = ['<' + r.text('AB', 1, 3) * 2 + '>']
    elif k == 'F':
        def one():
            s = r.pick(['', '+', '-', 'U']) + r.text('123', 1, 2)
            if r.chance(20):
                s += '.' + r.text('05', 0, 2)
            if r.chance(15):
                s += 'E' + r.pick(['', '+', '-']) + r.pick('012')
            return s
        vs = r.list(1, 3, one)
    elif k == 'P':
        vs = r.list(1, 3, lambda: r.pick(['', '+', '-']) + r.text('1234567890', 1, r.weighted([(3, 4), (1, 15)])) + ('.' + r.text('123', 0, 3) if r.chance(30) else ''))
    elif k == 'E':
        def one():
            s = r.pick(['', '+', '-']) + r.text('123', 1, 3)
            if r.chance(30):
                s += '.' + r.text('05', 0, 3)
            if r.chance(25):
                s += 'E' + r.pick(['', '+', '-']) + r.pick(['0', '1', '12'])
            if r.chance(15) and t[1:] in ('B', 'H', 'D'):
                s += 'R' + (r.pick(['8', '11', '15']) if t[1:] == 'D' else r.pick(['1', '4', '7']))
            return s
        vs = r.list(1, 3, one)
    elif k == 'A':
        vs = r.list(1, 3, lambda: r.pick(['0', '1', '-1', 'NA', 'NA+2', "X'1F'", "C'A'", '(2)', 'REL', 'REL+4', 'REL-REL2', '2*(3+NA)', "L'REL"]))
    elif k == 'S':
        vs = r.list(1, 3, lambda: r.pick(['0', '4(5)', '4095(15)', 'NA(NA)', '0(0)', '7']))
    else:
        vs = r.list(1, 3, lambda: r.pick(['REL', 'REL2']))
    return vs


def write_nominal(t, vs):
    k = TYPES[t][7]
    if k in 'ASV':
        return '(' + ','.join(vs) + ')'
    return "'" + ','.join(v.replace("'", "''").replace('&', '&&') if k[0] == 'C' else v for v in vs) + "'"


def operand(r, ds, syms, types=None, dep=15, small=False):
    """a valid operand: a dict. syms: {name: value} of absolute symbols usable in modifiers."""
    t = r.pick(types or NAMES) if not types or r.chance(85) else r.pick(NAMES)
    il, al, bb, dsmax, bits, sc, ex, kind = TYPES[t]
    op = {'t': t, 'dup': None, 'len': None, 'bit': False, 'sc': None, 'ex': None, 'nom': None}

    def num(v):
        """value with the text it is written as"""
        c = [n for n, x in syms.items() if x == v]
        if c and r.chance(60):
            return [v, '(%s)' % r.pick(c)]
        if v < 0:
            return [v, '(%d)' % v]
        n = r.pick(list(syms)) if syms and r.chance(dep) else None
        if n:
            d = v - syms[n]
            return [v, '(%s%+d)' % (n, d)]
        return [v, str(v)]
    if r.chance(40):
        op['dup'] = num(r.weighted([(2, 0), (3, 2), (3, 3), (1, 1), (1, 7)]))
    if not ds or r.chance(40):
        op['nom'] = nominal(r, t)
        if not ds and op['dup'] and op['dup'][0] == 0 and r.chance(60):
            op['nom'] = None
    if r.chance(40):
        if bits and r.chance(30) and not (kind == 'A' and any('REL' in v and v not in ('REL-REL2', "L'REL") for v in op['nom'] or [])):
            lo, hi = bits
            op['bit'] = True
            op['len'] = num(r.pick(sorted({lo, hi, min(hi, lo + 4), min(hi, lo + 7), max(lo, min(hi, 13)), max(lo, min(hi, 24)), (lo + hi) // 2})))
        else:
            opts = [n for n in (1, 2, 3, 4, 5, 7, 8, 11, 16, 80, 256, 300, 65534, 65535) if length_ok(t, n, ds) and (not small or n < 300)]
            if kind == 'A' and any('REL' in v and v not in ('REL-REL2', "L'REL") for v in op['nom'] or []):
                opts = {'A': [2, 3, 4], 'AD': [2, 3, 4, 8], 'Y': [2]}[t]
            op['len'] = num(r.pick(opts))
    if sc and r.chance(25):
        lo, hi = sc if sc != 'ign' else (0, 5)
        op['sc'] = num(r.pick(sorted({0, lo, hi, 1, min(hi, 8), max(lo, -4)})))
        if sc == 'ign':
            op['sc'] = None
    if ex and r.chance(15):
        op['ex'] = num(r.pick([0, ex[0], ex[1], 1, -1]))
    return op


def write_op(op):
    s = ''
    if op['dup']:
        s += op['dup'][1]
    s += op['t']
    if op['len']:
        s += 'L' + ('.' if op['bit'] else '') + op['len'][1]
    if op['sc']:
        s += 'S' + op['sc'][1]
    if op['ex']:
        s += 'E' + op['ex'][1]
    if op['nom'] is not None:
        s += write_nominal(op['t'], op['nom'])
    return s


def value_len(t, v):
    """length in bytes of one nominal value when no length is written"""
    k = TYPES[t][7]
    if k == 'B':
        return (len(v.replace(' ', '')) + 7) // 8
    if k == 'X':
        return (len(v.replace(' ', '')) + 1) // 2
    if k == 'C':
        return len(v)
    if k == 'CU':
        return 2 * len(v)
    if k == 'G':
        return len(v) - 2
    d = sum(c.isdigit() for c in v)
    return d // 2 + 1 if t == 'P' else d


def bit_length(op):
    t = op['t']
    il = TYPES[t][0]
    n = len(op['nom']) if op['nom'] is not None else 1
    if op['len']:
        b = op['len'][0] * (1 if op['bit'] else 8) * n
    elif il is None:
        b = 8 * (sum(value_len(t, v) for v in op['nom']) if op['nom'] is not None else {'CU': 2, 'G': 2}.get(t, 1))
    else:
        b = 8 * il * n
    return b * (op['dup'][0] if op['dup'] else 1)


def align_of(op):
    return 1 if op['len'] else TYPES[op['t']][1]


def up(x, b):
    return -(-x // b) * b


def place(loc, ops):
    """(address of the statement's label, location after the statement)"""
    adr = None
    bits = loc * 8
    for op in ops:
        if not op['bit']:
            bits = up(bits, 8 * align_of(op))
        if adr is None:
            adr = bits // 8
        bits += bit_length(op)
    return (loc if adr is None else adr), up(bits, 8) // 8


def attrs(op):
    t = op['t']
    il = TYPES[t][0]
    if op['len']:
        L = -(-op['len'][0] // 8) if op['bit'] else op['len'][0]
    elif il is None:
        L = value_len(t, op['nom'][0]) if op['nom'] is not None else {'CU': 2, 'G': 2}.get(t, 1)
    else:
        L = il
    b = t[0]
    if b in 'BCPXZ':
        T = b
    elif b == 'G':
        T = '@'
    elif op['len']:
        T = 'G' if b in 'FH' else 'K' if b in 'EDL' else 'R'
    else:
        T = {'J': 'A', 'R': 'V'}.get(b, b)
    S = op['sc'][0] if op['sc'] else 0
    if b in 'PZ' and op['nom'] is not None and not op['sc'] and '.' in op['nom'][0]:
        S = len(op['nom'][0].split('.')[1])
    I = None
    if b in 'HF':
        I = 8 * L - S - 1
    elif b in 'EDL':
        I = 0 if t[1:] in ('D', 'B') else 2 * (L - 1) - S - (2 if L > 8 else 0)
    elif b == 'P':
        I = 2 * L - S - 1
    elif b == 'Z':
        I = L - S
    return {'L': L, 'T': T, 'S': S, 'I': I}
