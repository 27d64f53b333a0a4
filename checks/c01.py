"""C01: framing of the base protocol, read and write side, against an independent framer."""
import json
from vf import Violation

TARGETS = ['drv_ls']
TECHNIQUE = 'property-based testing: generated message streams (with malformed frames, header variants, cuts, end of input) against an independent framer and deframer'
EXAMPLES = {'quick': 24000, 'thorough': 120000}
RULE = 'a case is non-trivial when its stream carries at least two messages, or one message and a malformed frame'
ASSUMPTIONS = ['a frame whose declared length is missing, zero, unreadable or above the limit carries no body (the protocol has no way to resynchronise otherwise)']

WORDS = ['textDocument/didOpen', '', 'a', ' ', '\r\n', '\r\n\r\n', 'Content-Length: 5\r\n\r\n', '\n', '\u00e9', '\u20ac', '\U0001f600', '"', '\\', '\u0000', '\u2028', 'x' * 70, '{', '}']


def gstr(r):
    if r.chance(10):
        return r.pick(['x', '\u00e9', '\U0001f600', '\n']) * r.pick([100, 1000, 4095, 4096, 8192, 65536])
    return ''.join(r.list(0, 6, lambda: r.pick(WORDS)))


def gjson(r, d=0):
    k = r.int(0, 8 if d < 3 else 5)
    if k == 0:
        return r.pick([None, True, False])
    if k == 1:
        return r.pick([0, 1, -1, 2 ** 31, -2 ** 31, 2 ** 53, -2 ** 63, 2 ** 64 - 1, r.int(-1000, 1000)])
    if k == 2:
        return r.pick([0.5, -1.25, 1e10, 1.5e-5])
    if k <= 5:
        return gstr(r)
    if k == 6:
        return r.list(0, 4, lambda: gjson(r, d + 1))
    return {gstr(r)[:40]: gjson(r, d + 1) for _ in range(r.int(0, 4))}


def gen(r, tier):
    if r.chance(20):
        return {'write': [r.list(1, 8, lambda: gjson(r)) for _ in range(r.int(1, 4))]}
    items = r.list(1, 10, lambda: item(r))
    data_len = sum(len(frame(i)) for i in items)
    case = {'read': items, 'cuts': r.list(0, 60, lambda: r.pick([1, 1, 2, 3, 7, 16, 64, 1000, 4096]))}
    if r.chance(30):
        case['end'] = r.int(0, data_len)
    return case


def item(r):
    k = r.weighted([(10, 'm'), (2, 'bad'), (1, 'zero'), (1, 'none'), (1, 'huge')])
    hdr = []
    if r.chance(30):
        hdr = r.list(1, 3, lambda: r.pick(['Content-Type: application/vscode-jsonrpc; charset=utf-8', 'X-Extra: 1', 'Content-Lengthy: 3', 'content: Content-Length: 4', 'X: ']))
    at = r.int(0, len(hdr))
    if k == 'm':
        style = {'ascii': r.chance(50), 'indent': r.pick([None, None, None, 1]), 'pad': r.pick([0, 0, 0, 3]), 'dup': r.pick([None, None, None, None, 1, 100000]), 'tail': r.pick(['', '', '', '\n', '\r\n', '  '])}
        return [k, gjson(r), style, hdr, at]
    if k == 'bad':
        return [k, r.pick(['{', '{"a":}', 'abc', '\r\n', '{"a":1}x', '[1,]', "{'a':1}", '"\\q"', '\n\n', 'ff', 'c328', 'Content-Length: 2\r\n\r\n{}']), {}, hdr, at]
    return [k, r.pick(['1073741825', '99999999999', '18446744073709551616', '99999999999999999999999999']) if k == 'huge' else None, {}, hdr, at]


def frame(i):
    k, v, st, hdr, at = i
    if k == 'm':
        body = (json.dumps(v, ensure_ascii=st['ascii'], indent=st['indent']) + st['tail']).encode('utf8', 'surrogatepass')
    elif k == 'bad':
        body = bytes.fromhex(v) if v in ('ff', 'c328') else v.encode()
    else:
        body = b''
    h = list(hdr)
    if k != 'none':
        n = v if k == 'huge' else '0' * st.get('pad', 0) + str(len(body))
        h.insert(at, 'Content-Length: ' + n)
    if st.get('dup'):
        h.insert(0, 'Content-Length: %d' % st['dup'])
    return ''.join(x + '\r\n' for x in h).encode() + b'\r\n' + body


def same(a, b):
    return json.dumps(a, sort_keys=True) == json.dumps(b, sort_keys=True)


def deframe(b):
    out = []
    i = 0
    while i < len(b):
        j = b.find(b'\r\n\r\n', i)
        if j < 0:
            raise Violation('output: no header end at byte %d' % i)
        n = None
        for h in b[i:j].split(b'\r\n'):
            if h.startswith(b'Content-Length: '):
                t = h[16:].decode()
                if not t.isdigit():
                    raise Violation('output: bad length %r' % t)
                n = int(t)
        if n is None:
            raise Violation('output: no Content-Length')
        body = b[j + 4:j + 4 + n]
        if len(body) != n:
            raise Violation('output: body shorter than declared')
        try:
            out.append(json.loads(body.decode('utf8')))
        except ValueError as e:
            raise Violation('output: body is not JSON: %r' % body[:200])
        i = j + 4 + n
    return out


def run(case, env):
    d = env.drv('drv_ls')
    if 'write' in case:
        got = deframe(bytes.fromhex(d.call({'op': 'frame_write', 'threads': case['write']})['data']))
        want = [json.dumps(m, sort_keys=True) for t in case['write'] for m in t]
        if sorted(json.dumps(m, sort_keys=True) for m in got) != sorted(want):
            raise Violation('written messages differ: wrote %d, read back %d' % (len(want), len(got)))
        for t in case['write']:
            it = iter(got)
            if not all(any(same(m, g) for g in it) for m in t):
                raise Violation('order of the messages of one writer not kept')
        return {'nontrivial': len(want) > 1, 'labels': ['write'], 'sample': case}
    data = b''
    want = []
    end = case.get('end')
    for i in case['read']:
        data += frame(i)
        if i[0] == 'm' and (end is None or len(data) <= end):
            want.append(i[1])
        elif i[0] == 'm' and len(data) - len(i[2]['tail']) <= end:
            want = None  # cut within white space behind the value: not a whole message, nothing is said
            break
    if want is None:
        return {}
    if end is not None:
        data = data[:end]
    a = d.call({'op': 'frame_read', 'data': data.hex(), 'cuts': case['cuts']})
    if a.get('after_end'):
        raise Violation('a message after the end of input was reported')
    if not same(a['msgs'], want):
        raise Violation('messages received differ\nsent %s\ngot  %s\nstream %r' % (json.dumps(want)[:600], json.dumps(a['msgs'])[:600], data[:600]))
    kinds = {i[0] for i in case['read']}
    return {'nontrivial': len(want) > 1 or (len(want) and len(kinds) > 1), 'labels': sorted(kinds) + (['cut'] if end is not None else []), 'sample': case}
