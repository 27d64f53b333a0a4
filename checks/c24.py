"""C24: text encodings."""
import json, re, os
import ses
from vf import Violation

TARGETS = ['drv_ls']
TECHNIQUE = 'property-based testing: generated byte strings, characters and statements against independent decoders (Python codecs) and UTF-16 arithmetic; code tables enumerated completely'
EXAMPLES = {'quick': 12000, 'thorough': 400000}
RULE = 'a case is non-trivial when it contains a multi-byte character or an invalid sequence'
ASSUMPTIONS = ['how many replacement characters stand for one invalid sequence is left open']

SEQ = ['41', '20', '0a', 'c3a9', 'e282ac', 'f09f9880', 'c080', 'c1bf', 'c2', 'e2', 'e282', 'f09f', 'f09f98', '80', 'bf', 'ff', 'fe', 'eda080', 'edbfbf', 'ed9fbf', 'ee8080', 'f4908080', 'f48fbfbf', 'f0808080',
       'f0908080', 'e08080', 'e0a080', 'e09f80', 'e09080', 'e080bf', 'f08fbfbf', 'f0bfbfbf', 'ed8080', 'c2bf', 'f5808080', 'f8888080', 'efbfbd', '00', 'c280', 'dfbf', 'efbfbf']
UNI = ['a', 'B', '1', ' ', '\u00e9', '\u00ff', '\u0100', '\u20ac', '\u4e2d', '\U0001f600', '\U0010ffff', '\ud7ff', '\ue000', '\uffff', '\u0080', '\u00a0', '\u0416', '-', '.']


def gen(r, tier):
    k = r.weighted([(4, 'san'), (2, 'disk'), (2, 'ebc'), (6, 'pos')])
    if k in ('san', 'disk'):
        return {k: [''.join(r.list(0, 12, lambda: r.pick(SEQ) if r.chance(80) else '%02x' % r.int(0, 255))) for _ in range(6 if k == 'san' else 1)]}
    if k == 'ebc':
        return {k: [''.join(r.list(0, 8, lambda: r.pick(UNI) if r.chance(70) else chr(r.int(1, 300)))) for _ in range(6)]}
    stmts = []
    for _ in range(r.int(1, 6)):
        f = r.pick(['dc', 'dc', 'dc2', 'rem', 'com', 'mac', 'setc', 'und'])
        u = ''.join(r.list(0, 7, lambda: r.pick(UNI) if r.chance(80) else r.pick([chr(r.int(0xa1, 0x2fff)), chr(r.int(0x10000, 0x1ffff))])))
        v = ''.join(r.list(0, 4, lambda: r.pick(UNI)))
        stmts.append([f, u, v])
    return {'pos': stmts}


def valid_parts(b):
    """the characters of a byte string, None for a byte that belongs to none"""
    out = []
    i = 0
    while i < len(b):
        for n in (1, 2, 3, 4):
            try:
                c = b[i:i + n].decode('utf8')
            except UnicodeDecodeError:
                continue
            if len(c) == 1:
                out.append(c)
                i += n
                break
        else:
            out.append(None)
            i += 1
    return out


def check_san(b, o):
    want = valid_parts(b)
    try:
        got = o.decode('utf8')
    except UnicodeDecodeError:
        raise Violation('%s became %s, not valid UTF-8' % (b.hex(), o.hex()))
    if None not in want:
        if o != b:
            raise Violation('valid text %s was changed to %s' % (b.hex(), o.hex()))
        return
    # each run of invalid bytes is one to run-length replacement characters
    rx = ''
    j = 0
    while j < len(want):
        if want[j] is not None:
            rx += re.escape(want[j])
            j += 1
        else:
            n = 0
            while j < len(want) and want[j] is None:
                n += 1
                j += 1
            rx += '\ufffd{1,%d}' % n
    if not re.fullmatch(rx, got, re.S):
        raise Violation('%s became %s: not only the invalid bytes were replaced' % (b.hex(), o.hex()))


def run(case, env):
    d = env.drv('drv_ls')
    if 'san' in case:
        a = d.call({'op': 'enc', 'san': case['san']})['san']
        for h, o in zip(case['san'], a):
            check_san(bytes.fromhex(h), bytes.fromhex(o))
        return {'nontrivial': any(len(h) > 4 for h in case['san']), 'labels': ['bytes'], 'sample': case}
    if 'disk' in case:
        # a member on disk with any bytes: the program that uses it is analysed and answered
        s = env.scratch()
        body = bytes.fromhex(case['disk'][0]).replace(b'\n', b'').replace(b'\r', b'').replace(b'\x00', b'')
        mem = b'*' + body[:60] + b'\n L1 EQU 5\nL2 EQU 6\n'
        steps = [{'w': [s + '/.hlasmplugin/proc_grps.json', json.dumps({'pgroups': [{'name': 'G', 'libs': ['lib']}]})]},
                 {'w': [s + '/.hlasmplugin/pgm_conf.json', json.dumps({'pgms': [{'program': 'p', 'pgroup': 'G'}]})]},
                 {'wx': [s + '/lib/M', mem.hex()]}, ses.init(s), ses.did_open(s + '/p', ' COPY M\nX EQU L2\n'), ses.ask('definition', s + '/p', 1, 7), ses.tokens(s + '/p')]
        a = d.call({'op': 'lsp', 'steps': steps})['r']
        for r in a:
            if r and r.get('exc'):
                raise Violation('exception: ' + r['exc'])
        g = ses.result(a[5])
        if not g or g['uri'] != ses.uri(s + '/lib/M') or g['range']['start'] != {'line': 2, 'character': 0}:
            raise Violation('symbol of a member with bytes %s not found: %s' % (body.hex(), json.dumps(g)))
        if ses.result(a[6]) is None:
            raise Violation('no tokens')
        return {'nontrivial': None in valid_parts(body), 'labels': ['member'], 'sample': case}
    if 'ebc' in case:
        a = d.call({'op': 'enc', 'toe': [x.encode('utf8', 'replace').hex() for x in case['ebc']], 'tables': True})
        code = {bytes.fromhex(x): i for i, x in enumerate(a['e2a'])}
        if len(code) != 256:
            raise Violation('two EBCDIC codes denote the same character')
        for i, bk in enumerate(a['back']):
            if bk != i and bytes.fromhex(a['e2a'][i]) != b'\0':
                raise Violation('EBCDIC code %02X becomes %s and returns as %02X' % (i, a['e2a'][i], bk))
        for i in range(256):
            c = bytes([i]).decode('cp037')
            if c.isalnum() and ord(c) < 128 or c in " .<(+&*);-/,%_>?:'=\"#@$":
                if code.get(c.encode()) != i:
                    raise Violation('character %r has EBCDIC code %s, not %02X' % (c, code.get(c.encode()), i))
        for x, h in zip(case['ebc'], a['toe']):
            x = x.encode('utf8', 'replace').decode('utf8')
            want = bytes(code[c.encode()] if c.encode() in code else 0x3f for c in x)
            if bytes.fromhex(h) != want:
                raise Violation('%r has EBCDIC codes %s, expected %s' % (x, h, want.hex()))
        return {'nontrivial': any(ord(c) > 127 for x in case['ebc'] for c in x), 'labels': ['ebcdic'], 'sample': case}
    # positions
    text = ' MACRO\n MAC &P,&Q\n MEND\nSYM EQU 1\n'
    exp = []  # line, column, length of SYM or of the undefined symbol
    n = 4
    und = []
    for f, u, v in case['pos']:
        u = u.replace("'", '').replace('&', '').encode('utf8', 'replace').decode()
        v = v.replace("'", '').replace('&', '').encode('utf8', 'replace').decode()
        if f == 'dc':
            pre = " DC C'%s',A(" % (u or 'x')
        elif f == 'dc2':
            pre = " DC CL8'%s',C'%s',A(" % (u or 'x', v or 'y')
        elif f == 'setc':
            text += "&C SETC '%s'\n" % u
            n += 1
            pre = ' DC A('
        elif f == 'mac':
            text += " MAC '%s',Q='%s'   %s\n" % (u, v, u) if False else " MAC '%s','%s'   %s\n" % (u, v, u)
            n += 1
            pre = ' DC A('
        elif f == 'com':
            text += '*%s\n' % u
            n += 1
            pre = " DC C'%s',A(" % (v or 'z')
        elif f == 'und':
            pre = " DC C'%s',A(" % (u or 'x')
            text += pre + 'NOPE)  ' + v + '\n'
            und.append((n, ses.u16(pre), 4))
            n += 1
            continue
        else:
            pre = " DC C'%s',A(" % (u or 'z')
        text += pre + 'SYM)' + (' ' + u if f == 'rem' else '') + '\n'
        exp.append((n, ses.u16(pre), 3))
        n += 1
    p = '/nowhere/u.hlasm'
    steps = [ses.init(), ses.did_open(p, text), ses.tokens(p), ses.ask('references', p, 3, 1, context={'includeDeclaration': True})] + [ses.ask('definition', p, l, c + 1) for l, c, _ in exp]
    a = d.call({'op': 'lsp', 'steps': steps})['r']
    for r in a:
        if r and r.get('exc'):
            raise Violation('exception: ' + r['exc'])
    tl = []
    line = col = 0
    data = ses.result(a[2])['data']
    for i in range(0, len(data), 5):
        dl, dc, ln, k, _ = data[i:i + 5]
        line, col = line + dl, (dc if dl else col + dc)
        tl.append((line, col, ln, k))
    toks = {(l, c, n_) for l, c, n_, k in tl if k in (11, 16)}
    lens = [ses.u16(x) for x in text.split('\n')]
    for l, c, n_, k in tl:
        if c + n_ > lens[l]:
            raise Violation('token %s beyond its line of %d units\n%s' % ((l, c, n_, k), lens[l], text))
    for e in exp + und:
        if e not in toks:
            raise Violation('no token for the symbol at %s, tokens of the line %s\n%s' % (e, [t for t in tl if t[0] == e[0]], text))
    refs = sorted((x['range']['start']['line'], x['range']['start']['character']) for x in ses.result(a[3]))
    want = sorted([(3, 0)] + [e[:2] for e in exp])
    if refs != want:
        raise Violation('references %s, expected %s\n%s' % (refs, want, text))
    for i, e in enumerate(exp):
        g = ses.result(a[4 + i])
        if g['range']['start'] != {'line': 3, 'character': 0}:
            raise Violation('definition from %s leads to %s\n%s' % (e, g['range']['start'], text))
    dg = {}
    for r in a:
        for o in (r or {}).get('out', []):
            if o.get('method') == 'textDocument/publishDiagnostics':
                dg = o['params']['diagnostics']
    got = sorted((x['range']['start']['line'], x['range']['start']['character'], x['range']['end']['character'] - x['range']['start']['character']) for x in dg or [] if x['severity'] == 1)
    if [g for g in got if g[0] in [u[0] for u in und]] and not all(any(g[0] == u[0] and u[1] <= g[1] + g[2] and g[1] <= u[1] for g in got) for u in und):
        raise Violation('errors at %s, undefined symbols at %s\n%s' % (got, und, text))
    return {'nontrivial': any(ord(c) > 127 for c in text), 'labels': ['positions'], 'sample': text}
