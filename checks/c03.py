"""C03: requests are answered once, and nothing stops the server."""
import copy, json, os, select, shutil, subprocess, tempfile, time
import ses, vf, wsgen
from vf import Violation

TARGETS = ['language_server']
TECHNIQUE = 'stateful fuzzing of the language server process with generated client conversations, valid and malformed; oracle: protocol model (one matching answer per request) and differential against the same conversation without the malformed messages'
EXAMPLES = {'quick': 400, 'thorough': 12000}
RULE = 'a case is non-trivial when the conversation has at least three answered requests and at least one malformed or unsupported message between them'
ASSUMPTIONS = ['request ids are unique within a conversation', 'initialize comes first', 'a malformed edit sent without waiting may cancel the pending analysis of its document']

METHODS = ['definition', 'references', 'hover', 'completion', 'semanticTokens/full']
JUNK = [None, 5, -1, 1.5, True, '', 'x', [], {}, [1], {'a': 1}, 2 ** 63, -2 ** 40, 'ž', [[]], {'line': {}}]
BADURI = ['', 'x', 'http://a/b', '%', 'file:', 'file://', '//', 'untitled:', 'file:///%', 'file:///%zz', '\u0000', 'fi le:///a b', 'file:///a\\b?c#d', ':', 'http:', '1:2', 'file://[', 'file://h:x/']
DOCS = ['p1', 'p2', 'p 3', 'lib1/MACA']


def place(r):
    return {'line': r.weighted([(8, r.int(0, 8)), (1, r.pick([1000, 2 ** 31 - 1, 2 ** 31]))]), 'character': r.weighted([(8, r.int(0, 20)), (1, r.pick([1000, 2 ** 31 - 1, 2 ** 31]))])}


def good(r, doc):
    """a well-formed message: [kind, message without id]"""
    td = {'uri': 'DOC:' + doc}
    k = r.weighted([(4, 'open'), (4, 'change'), (2, 'close'), (8, 'ask'), (1, 'save'), (1, 'watched'), (1, 'config'), (1, 'other')])
    if k == 'open':
        td.update({'languageId': 'hlasm', 'version': 1, 'text': wsgen.member(r, 'MACA') if 'MACA' in doc else wsgen.program(r)})
        return ['n', {'method': 'textDocument/didOpen', 'params': {'textDocument': td}}]
    if k == 'change':
        td['version'] = r.int(2, 99)
        def one():
            if r.chance(50):
                return {'text': wsgen.program(r)}
            a, b = r.int(0, 5), r.int(0, 9)
            return {'range': {'start': {'line': a, 'character': b}, 'end': {'line': a + r.int(0, 1), 'character': b + r.int(0, 9)}}, 'text': r.pick(['', ' ', '\n', ' LR 1\n', 'A', '😀'])}
        return ['n', {'method': 'textDocument/didChange', 'params': {'textDocument': td, 'contentChanges': r.list(0, 3, one)}}]
    if k == 'close':
        return ['n', {'method': 'textDocument/didClose', 'params': {'textDocument': td}}]
    if k == 'ask':
        m = r.pick(METHODS)
        p = {'textDocument': td}
        if m != 'semanticTokens/full':
            p['position'] = place(r)
        if m == 'completion' and r.chance(70):
            p['context'] = r.pick([{'triggerKind': 1}, {'triggerKind': 2, 'triggerCharacter': '&'}, {'triggerKind': 2, 'triggerCharacter': '.'}, {'triggerKind': 3}, {'triggerKind': 2}])
        if m == 'references':
            p['context'] = {'includeDeclaration': bool(r.int(0, 1))}
        return ['r', {'method': 'textDocument/' + m, 'params': p}]
    if k == 'save':
        return ['n', {'method': r.pick(['textDocument/didSave', 'textDocument/willSave', '$/setTrace', '$/cancelRequest', 'initialized', 'unknown']), 'params': r.pick([{'textDocument': td}, {}, {'id': 3}, None])}]
    if k == 'watched':
        return ['n', {'method': 'workspace/didChangeWatchedFiles', 'params': {'changes': r.list(0, 2, lambda: {'uri': 'DOC:' + r.pick(DOCS), 'type': r.int(1, 3)})}}]
    if k == 'config':
        return ['n', {'method': 'workspace/didChangeConfiguration', 'params': {'settings': r.pick([None, {}])}}]
    return ['o', {'method': r.pick(['unknown', 'textDocument/formatting', 'textDocument/unknown', 'workspace/symbol', 'textDocument/rename', '']), 'params': {'textDocument': td}}]


REQUIRED = {
    'textDocument/didOpen': [('textDocument',), ('textDocument', 'uri'), ('textDocument', 'text'), ('textDocument', 'version')],
    'textDocument/didChange': [('textDocument',), ('textDocument', 'uri'), ('contentChanges', 0, 'text'), ('contentChanges', 0, 'range', 'start'), ('contentChanges', 0, 'range', 'end', 'line'), ('contentChanges',)],
    'textDocument/didClose': [('textDocument',), ('textDocument', 'uri')],
    'workspace/didChangeWatchedFiles': [('changes',), ('changes', 0, 'uri')],
}
for _m in METHODS:
    REQUIRED['textDocument/' + _m] = [('textDocument',), ('textDocument', 'uri')] + ([('position',), ('position', 'line'), ('position', 'character')] if _m != 'semanticTokens/full' else [])


def bad(r, doc):
    """a message that asks for nothing that can be done: [kind 'b', message, as a request]"""
    k = r.weighted([(6, 'field'), (2, 'uri'), (2, 'shape'), (2, 'reply'), (1, 'dap'), (1, 'folders'), (1, 'raw')])
    if k in ('field', 'uri'):
        for _ in range(20):
            kind, m = good(r, doc)
            if m['method'] in REQUIRED:
                break
        else:
            return ['b', {'method': 5}]
        m = copy.deepcopy(m)
        if k == 'uri' and 'textDocument' in m['params']:
            m['params']['textDocument']['uri'] = r.pick(BADURI)
            return [kind + 'b', m]
        path = r.pick(REQUIRED[m['method']])
        if r.chance(15):
            if r.chance(50):
                del m['params']
            else:
                m['params'] = r.pick(JUNK)
            return [kind + 'b', m]
        x = m['params']
        for s in path[:-1]:
            if isinstance(s, int) and not (isinstance(x, list) and x):
                return ['b', {'method': 'textDocument/didChange', 'params': []}]
            if not isinstance(s, int) and s not in x:
                return ['b', {'method': 'textDocument/didClose'}]
            x = x[s]
        if r.chance(40):
            x.pop(path[-1], None)
        else:
            j = r.pick(JUNK)
            l = path[-1]
            # what would still be a text, a list without changes or a number is left out
            if l in ('uri', 'text') and isinstance(j, str) or l in ('changes', 'contentChanges') and isinstance(j, (list, dict, type(None))) or l in ('line', 'character', 'version') and isinstance(j, (int, float)):
                j = ['y']
                if l in ('changes', 'contentChanges'):
                    j = 7
            x[l] = j
        if m['method'].endswith('didChange') and path[-1] == 'contentChanges' and 'contentChanges' in m['params'] and isinstance(m['params']['contentChanges'], (list, dict)):
            m['params']['contentChanges'] = 7
        return [kind + 'b', m]
    if k == 'shape':
        return r.pick([['b', {}], ['b', {'method': None, 'params': {}}], ['b', {'method': [1], 'params': {}}], ['b', {'params': {'textDocument': {}}}], ['b', {'method': {}, 'id': []}], ['b', {'method': 'shutdow', 'params': 1}],
                       ['b', 5], ['b', None], ['b', []], ['b', [{'jsonrpc': '2.0'}]], ['b', 'exit'], ['b', {'id': None}], ['b', {'method': 'textDocument'}], ['b', {'method': 'textDocument/', 'params': None}], ['b', {'jsonrpc': 1, 'method': ''}]])
    if k == 'reply':
        i = r.pick(['register1', 'config_request_0', 'config_request_1', 7, None, {}, [], 'x'])
        m = {'id': i}
        if r.chance(10):
            del m['id']
        if r.chance(60):
            m['result'] = r.pick([None, 1, 'x', [5], [None], [{'diagnosticsSuppressLimit': 'x'}], [{'diagnosticsSuppressLimit': None}], [[]], {'a': 1}, True, []])
        else:
            m['error'] = r.pick([None, 1, {}, {'code': 1}, {'message': 'm'}, {'message': {}}, []])
        return ['b', m]
    if k == 'dap':
        s = r.int(1, 2)
        return ['b', r.pick([{'method': 'hlasm/dap_tunnel', 'params': r.pick([s, s, None, 'x', -1, {}])},
                             {'method': 'hlasm/dap_tunnel/%d' % s, 'params': r.pick([None, 1, {}, {'type': 'request'}, {'type': 'request', 'command': 5}, {'type': 'request', 'command': 'initialize', 'seq': 1},
                                                                                  {'type': 'request', 'command': 'launch', 'seq': 1, 'arguments': {}},
                                                                                  {'type': 'request', 'command': 'initialize', 'seq': 1, 'arguments': {'linesStartAt1': True, 'columnsStartAt1': True, 'pathFormat': 'uri'}},
                                                                                  {'type': 'request', 'command': 'launch', 'seq': 2, 'arguments': {'program': '%', 'stopOnEntry': True}},
                                                                                  {'type': 'request', 'command': r.pick(['next', 'stackTrace', 'variables', 'scopes', 'continue', 'setBreakpoints', 'threads', 'disconnect', 'stepIn']), 'seq': 3, 'arguments': r.pick(JUNK)},
                                                                                  {'type': 'request', 'command': 'scopes', 'seq': 3, 'arguments': {'frameId': 77}}, {'type': 'request', 'command': 'variables', 'seq': 3, 'arguments': {'variablesReference': 77}},
                                                                                  {'type': 'request', 'command': 'setBreakpoints', 'seq': 3, 'arguments': {'source': {'path': ':'}, 'breakpoints': [{}]}}])}])]
    if k == 'folders':
        return ['b', {'method': 'workspace/didChangeWorkspaceFolders', 'params': r.pick([None, {}, {'event': None}, {'event': {}}, {'event': {'added': [{}], 'removed': []}}, {'event': {'added': [{'name': 'x'}], 'removed': []}}, {'event': {'added': [], 'removed': [{}]}}, {'event': {'added': [5], 'removed': []}}, {'event': {'removed': []}}, {'event': {'added': []}}, {'event': {'added': [{'name': 'n', 'uri': '%'}], 'removed': []}}])}]
    return ['raw', r.pick(['{', '', '{"jsonrpc":', 'nul', '[1,', '\u0001', '"', '{"a":1}}'])]


def gen(r, tier):
    disk = {'.hlasmplugin/proc_grps.json': wsgen.proc_grps(r), '.hlasmplugin/pgm_conf.json': wsgen.pgm_conf(r, ['p1', 'p2'])}
    for m in wsgen.MACS + wsgen.CPYS:
        if r.chance(50):
            disk['lib1/' + m] = wsgen.member(r, m)
    seq = []
    for _ in range(r.int(3, 18)):
        doc = r.pick(DOCS)
        x = good(r, doc) if r.chance(60) else bad(r, doc)
        seq.append([x[0], x[1], r.pick(['n', 's', 'neg', 'big'])])
    return {'disk': disk, 'seq': seq, 'init': r.weighted([(6, 'root'), (2, 'folders'), (1, 'null'), (1, 'bad')]), 'badinit': r.pick([None, {}, {'capabilities': None}, {'capabilities': {'workspace': {'workspaceFolders': True}}}, {'capabilities': {'workspace': 5}}, {'capabilities': {}, 'rootUri': 5}, {'capabilities': {}, 'rootUri': '%'}, {'capabilities': {}, 'rootUri': None, 'rootPath': None}]),
            'burst': r.chance(40), 'end': r.pick(['open', 'close']), 'params': r.pick(['null', 'none'])}


class Server:
    def __init__(self, cwd):
        self.err = tempfile.TemporaryFile()
        e = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99', UBSAN_OPTIONS='print_stacktrace=1:exitcode=99')
        self.p = subprocess.Popen([vf.bin_path('language_server')], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, cwd=cwd, env=e)
        self.buf = b''
        self.msgs = []
        self.eof = False

    def send(self, body):
        b = body.encode('utf8', 'surrogatepass')
        data = b'Content-Length: %d\r\n\r\n' % len(b) + b
        fd = self.p.stdin.fileno()
        try:
            while data:
                _, w, _ = select.select([], [fd], [], 0)
                if w:
                    n = os.write(fd, data[:4096])
                    data = data[n:]
                else:
                    self.pump(0.01)
        except BrokenPipeError:
            self.dead('the server ended during the conversation')

    def pump(self, t):
        fd = self.p.stdout.fileno()
        r, _, _ = select.select([fd], [], [], t)
        if r:
            c = os.read(fd, 1 << 16)
            if not c:
                self.eof = True
                return
            self.buf += c
            while True:
                i = self.buf.find(b'\r\n\r\n')
                if i < 0:
                    break
                n = int([h for h in self.buf[:i].split(b'\r\n') if h.lower().startswith(b'content-length:')][0].split(b':')[1])
                if len(self.buf) < i + 4 + n:
                    break
                self.msgs.append(json.loads(self.buf[i + 4:i + 4 + n]))
                self.buf = self.buf[i + 4 + n:]

    def wait(self, cond, what):
        end = time.time() + 60
        k = 0
        while True:
            while k < len(self.msgs):
                if cond(self.msgs[k]):
                    return
                k += 1
            if self.eof:
                self.dead('the server ended before ' + what)
            if time.time() > end:
                self.p.kill()
                self.dead('no ' + what + ' within 60 s')
            self.pump(0.5)

    def dead(self, why):
        try:
            self.p.wait(timeout=30)
        except subprocess.TimeoutExpired:
            self.p.kill()
        self.err.seek(0)
        e = self.err.read().decode('utf8', 'replace')
        raise Violation('%s (exit %s): %s' % (why, self.p.returncode, e[-1500:]))

    def kill(self):
        self.p.kill()
        self.p.wait()
        for f in (self.p.stdin, self.p.stdout, self.err):
            try:
                f.close()
            except OSError:
                pass


def converse(case, w, skip_bad, burst):
    """one conversation; returns answers by id and what was published last"""
    s = Server(w)
    try:
        asked = {}
        conv = lambda x: json.loads(json.dumps(x).replace('"DOC:p 3"', '"DOC:p%203"').replace('DOC:', 'file://' + w + '/'))
        ip = {'processId': 1, 'capabilities': {}, 'rootUri': ses.uri(w)}
        if case['init'] == 'folders':
            ip = {'processId': 1, 'rootUri': None, 'capabilities': {'workspace': {'workspaceFolders': True}}, 'workspaceFolders': [{'name': 'w', 'uri': ses.uri(w)}]}
        if case['init'] == 'null':
            ip = {'processId': None, 'capabilities': {}, 'rootUri': None}
        if case['init'] == 'bad':
            ip = case['badinit']
        s.send(json.dumps({'jsonrpc': '2.0', 'id': 'init', 'method': 'initialize', 'params': ip}))
        asked['"init"'] = 'exactly' if case['init'] != 'bad' else 'most'
        nb = 0

        def barrier():
            nonlocal nb
            nb += 1
            i = 'barrier%d' % nb
            asked[json.dumps(i)] = 'exactly'
            s.send(json.dumps({'jsonrpc': '2.0', 'id': i, 'method': 'textDocument/hover', 'params': {'textDocument': {'uri': 'untitled:none'}, 'position': {'line': 0, 'character': 0}}}))
            s.wait(lambda m: m.get('id') == i and 'method' not in m, 'answer to a request after %d messages' % len(asked))
        barrier()
        for n, (k, m, form) in enumerate(case['seq']):
            if skip_bad and 'b' in k.replace('raw', 'b'):
                continue
            if k == 'raw':
                s.send(m)
            else:
                m = conv(m)
                if k[0] in 'ro' or (k[0] == 'n' and form == 's' and 'b' in k):
                    i = {'n': n, 's': 'id%d' % n, 'neg': -n - 1, 'big': 2 ** 40 + n}[form]
                    m['id'] = i
                    asked[json.dumps(i)] = 'exactly' if k == 'r' else 'most'
                if isinstance(m, dict):
                    m.setdefault('jsonrpc', '2.0')
                    if isinstance(m.get('id'), (int, str)) and 'method' in m and not isinstance(m['method'], str):
                        asked.setdefault(json.dumps(m['id']), 'most')
                s.send(json.dumps(m))
            if not burst:
                barrier()
        barrier()
        end = {'jsonrpc': '2.0', 'id': 'end', 'method': 'shutdown'}
        ex = {'jsonrpc': '2.0', 'method': 'exit'}
        if case['params'] == 'null':
            end['params'] = ex['params'] = None
        asked['"end"'] = 'exactly'
        s.send(json.dumps(end))
        s.wait(lambda m: m.get('id') == 'end', 'answer to shutdown')
        s.send(json.dumps(ex))
        if case['end'] == 'close':
            s.p.stdin.close()
        t = time.time() + 60
        while not s.eof:
            if time.time() > t:
                s.p.kill()
                s.dead('the process did not end after exit')
            s.pump(0.5)
        try:
            rc = s.p.wait(timeout=60)
        except subprocess.TimeoutExpired:
            s.p.kill()
            s.dead('the process did not end after exit')
        if rc:
            s.dead('after shutdown and exit the process ended with %s' % rc)
        answers, pub = {}, {}
        for m in s.msgs:
            if 'method' in m:
                if m['method'] == 'textDocument/publishDiagnostics':
                    pub[m['params']['uri']] = sorted(json.dumps(x, sort_keys=True) for x in m['params']['diagnostics'])
                continue
            i = json.dumps(m.get('id'))
            if i not in asked:
                raise Violation('an answer nobody asked for: ' + json.dumps(m)[:300])
            if i in answers:
                raise Violation('a second answer to %s: %s' % (i, json.dumps(m)[:300]))
            if ('result' in m) == ('error' in m):
                raise Violation('an answer with neither or both of result and error: ' + json.dumps(m)[:300])
            answers[i] = m.get('result', m.get('error'))
        for i, how in asked.items():
            if how == 'exactly' and i not in answers:
                raise Violation('no answer to request ' + i)
        # what was sent for other than the workspace's documents is nobody's concern
        return answers, {k: v for k, v in pub.items() if v and k.startswith(ses.uri(w))}
    finally:
        s.kill()


def run(case, env):
    root = env.scratch()
    w = root + '/ws'
    try:
        shutil.rmtree(w, ignore_errors=True)
        os.makedirs(w + '/.hlasmplugin')
        os.makedirs(w + '/lib1')
        os.makedirs(w + '/lib2')
        for f, t in case['disk'].items():
            open(w + '/' + f, 'w').write(t)
        a, pa = converse(case, w, False, case['burst'])
        nbad = sum(1 for k, _, _ in case['seq'] if k == 'raw' or 'b' in k)
        nreq = sum(1 for k, _, _ in case['seq'] if k == 'r')
        if nbad or case['burst']:
            # without waiting, a malformed edit may cancel the pending analysis of its document
            b, pb = converse(case, w, True, False)
            late = case['burst'] and any('b' in k and isinstance(m, dict) and m.get('method') in ('textDocument/didOpen', 'textDocument/didChange') for k, m, _ in case['seq'])
            if pa != pb and not late:
                raise Violation('last published %s, without the malformed messages %s' % (json.dumps(ses.show({k: v for k, v in pa.items() if pb.get(k) != v})), json.dumps(ses.show({k: v for k, v in pb.items() if pa.get(k) != v}))))
            if not case['burst']:
                for i, v in b.items():
                    if not i.startswith('"barrier') and a.get(i) != v:
                        raise Violation('request %s answered %s, without the malformed messages %s' % (i, json.dumps(a.get(i))[:300], json.dumps(v)[:300]))
        return {'nontrivial': nreq >= 3 and nbad >= 1, 'labels': ['burst' if case['burst'] else 'lockstep', 'initialize ' + case['init']], 'sample': [[k, m if not isinstance(m, dict) else m.get('method')] for k, m, _ in case['seq']]}
    finally:
        shutil.rmtree(w, ignore_errors=True)
