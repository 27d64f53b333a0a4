"""LSP session scripts for drv_ls."""
import json, re
from urllib.parse import quote as _q, unquote as _uq


def uri(path):
    return 'file://' + _q(path, safe="/.;=-_~")


def path(uri):
    return _uq(uri[7:]) if uri.startswith('file://') else uri


def msg(method, params, id=None):
    m = {'jsonrpc': '2.0', 'method': method, 'params': params}
    if id is not None:
        m['id'] = id
    return {'m': m}


def init(root=None, folders=None):
    p = {'processId': 1, 'capabilities': {}, 'rootUri': uri(root) if root else None}
    if folders is not None:
        p = {'processId': 1, 'rootUri': None, 'capabilities': {'workspace': {'workspaceFolders': True}}, 'workspaceFolders': [{'name': n, 'uri': uri(f)} for n, f in folders]}
    return msg('initialize', p, 1)


def did_open(path, text, version=1):
    return msg('textDocument/didOpen', {'textDocument': {'uri': uri(path), 'languageId': 'hlasm', 'version': version, 'text': text}})


def did_change(path, changes, version=2):
    return msg('textDocument/didChange', {'textDocument': {'uri': uri(path), 'version': version}, 'contentChanges': changes})


def did_close(path):
    return msg('textDocument/didClose', {'textDocument': {'uri': uri(path)}})


def watched(paths, t=2):
    return msg('workspace/didChangeWatchedFiles', {'changes': [{'uri': uri(p), 'type': t} for p in paths]})


def ask(method, path, line=None, col=None, id=7, **kw):
    p = {'textDocument': {'uri': uri(path)}}
    if line is not None:
        p['position'] = {'line': line, 'character': col}
    p.update(kw)
    return msg('textDocument/' + method, p, id)


def tokens(path):
    return ask('semanticTokens/full', path)


def result(r):
    """the result answered by a request step"""
    for o in r['out']:
        if o.get('id') == 7 and 'result' in o:
            return o['result']
    return None


def norm_diag(d):
    d = dict(d)
    return json.dumps(d, sort_keys=True)


def published(rs):
    """file -> diagnostics published last over the answers of a session, empty ones left out"""
    p = {}
    for r in rs:
        for o in (r or {}).get('out', []):
            if o.get('method') == 'textDocument/publishDiagnostics':
                p[o['params']['uri']] = o['params']['diagnostics']
    return {k: sorted(norm_diag(x) for x in v) for k, v in p.items() if v}


def show(d):
    return {k: ['%s %s' % (json.loads(x)['code'], json.loads(x)['range']['start']) for x in v] for k, v in d.items()}


# ---- client-side text
def lines(text):
    """start offsets of lines (in characters) and the length of each line without its ending"""
    out = []
    start = 0
    for m in re.finditer('\r\n|\n|\r', text):
        out.append((start, m.start() - start))
        start = m.end()
    out.append((start, len(text) - start))
    return out


def u16(s):
    return len(s.encode('utf-16-le', 'surrogatepass')) // 2


def pos(text, off):
    """character offset -> LSP position, the offset not being between CR and LF"""
    ls = lines(text)
    for i in range(len(ls) - 1, -1, -1):
        if off >= ls[i][0]:
            return {'line': i, 'character': u16(text[ls[i][0]:off])}


def valid_off(text, off):
    return not (0 < off < len(text) and text[off - 1] == '\r' and text[off] == '\n')
