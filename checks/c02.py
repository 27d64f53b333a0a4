"""C02: the request manager under scripted and free schedules."""
import json
from vf import Violation

TARGETS = ['drv_ls']
TECHNIQUE = 'model-based testing of generated request histories and schedules (every delivery held at a gate so that the script decides the interleaving; plus free-running producers) against a queue model'
EXAMPLES = {'quick': 5600, 'thorough': 40000}
RULE = 'a case is non-trivial when at least two requests are queued at once or a session is ended while requests are queued or running'
ASSUMPTIONS = ['requests name their document in params.textDocument.uri', 'a session ends while nobody queues requests for it']

METHODS = ['textDocument/didOpen', 'textDocument/didChange', 'textDocument/hover', 'textDocument/didClose', 'textDocument/semanticTokens/full', 'workspace/didChangeWatchedFiles', 'initialize', None]


def msg(r, n):
    m = r.weighted([(3, 0), (6, 1), (3, 2), (1, 3), (1, 4), (1, 5), (1, 6), (1, 7)])
    f = r.pick(['file:///a', 'file:///a', 'file:///b', 'file:///c'])
    out = {'n': n}
    if METHODS[m]:
        out['method'] = METHODS[m]
        out['params'] = {'textDocument': {'uri': f}} if m < 5 else {}
        if m >= 5 and r.chance(50):
            out['params'] = {'textDocument': {'uri': f}}
    else:
        out['result'] = None
    return out


def gen(r, tier):
    if r.chance(15):
        n = [0]

        def one():
            n[0] += 1
            return [r.int(0, 2), msg(r, n[0])]
        return {'producers': [r.list(1, 40, one) for _ in range(r.int(1, 4))]}
    sc = []
    n = 0
    fin = 0
    for _ in range(r.int(2, 22)):
        k = r.weighted([(10, 'add'), (6, 'run'), (1, 'finish')])
        if k == 'add':
            n += 1
            sc.append(['add', r.weighted([(5, 0), (2, 1), (1, 2)]), msg(r, n)])
        elif k == 'run':
            sc.append(['run'])
        elif fin < 2:
            fin += 1
            sc.append(['finish', r.weighted([(5, 0), (2, 1), (1, 2)])])
    if r.chance(50):
        sc.append(['end'])
    return {'script': sc}


def fileof(m):
    return m['params']['textDocument']['uri'] if m.get('method', '').startswith('textDocument') else ''


def edits(m):
    return m.get('method') in ('textDocument/didOpen', 'textDocument/didChange')


def run(case, env):
    d = env.drv('drv_ls')
    if 'producers' in case:
        a = d.call({'op': 'reqstress', 'producers': case['producers']})
        order = []
        open_ = 0
        for e in a['log']:
            if e[0] == 'start':
                if e[4] != 1:
                    raise Violation('two requests executed at the same time')
                order.append((e[1], e[2]))
        want = sorted((s, m['n']) for p in case['producers'] for s, m in p)
        if sorted(order) != want:
            raise Violation('requests queued %s, executed %s' % (want, sorted(order)))
        pos = {x[1]: i for i, x in enumerate(order)}
        for p in case['producers']:
            ns = [pos[m['n']] for _, m in p]
            if ns != sorted(ns):
                raise Violation('the order of one producer was not kept: %s' % ns)
        return {'nontrivial': len(want) > 1, 'labels': ['free'], 'sample': case}
    a = d.call({'op': 'reqmgr', 'script': case['script']}, timeout=90)
    log = a['log']
    if a['stuck']:
        raise Violation('the manager got stuck: %s' % json.dumps(log)[-800:])
    msgs = {s[2]['n']: s[2] for s in case['script'] if s[0] == 'add'}
    srv = {s[2]['n']: s[1] for s in case['script'] if s[0] == 'add'}
    queue = []
    running = None
    finishing = None
    ended = False
    startedf = set()
    busy = 0
    sup = set()      # requests behind which an edit of the same document was queued
    must = set()
    shut = set()     # requests that were running or queued when a session was ended
    for e in log:
        if e[0] == 'added':
            pass
    # 'added' is logged after the worker may have started: take the order of additions from the script
    adds = [s[2]['n'] for s in case['script'] if s[0] == 'add']
    done = []
    started = []
    # replay the log; additions are known to precede the next log entry of the script thread
    it = iter(log)
    script = [s for s in case['script']]
    si = 0
    nadd = 0

    def add_until(n):
        """queue requests up to and including number n"""
        nonlocal nadd
        while nadd < len(adds):
            m = adds[nadd]
            if n is not None and m > n:
                break
            for q in queue + ([running] if running else []):
                if edits(msgs[m]) and fileof(msgs[q]) and fileof(msgs[q]) == fileof(msgs[m]):
                    sup.add(q)
            if running and edits(msgs[m]) and fileof(msgs[running]) and fileof(msgs[running]) == fileof(msgs[m]):
                must.add(running)
            queue.append(m)
            nadd += 1
    for e in log:
        if e[0] == 'added':
            if e[2] not in adds[:nadd]:
                add_until(e[2])
        elif e[0] == 'start':
            n = e[2]
            add_until(n)
            if e[4] != 1 and not finishing:
                raise Violation('two requests executed at the same time')
            if ended:
                raise Violation('request %d executed after the manager was shut down' % n)
            if n in started:
                raise Violation('request %d executed twice' % n)
            if e[1] != srv[n]:
                raise Violation('request %d executed by another session' % n)
            started.append(n)
            if finishing is not None and e[1] == finishing[0]:
                own = [q for q in queue if srv[q] == finishing[0]]
                if not own or own[0] != n:
                    raise Violation('ending a session executed %s, next of it was %s' % (n, own[:1]))
            elif queue[0] != n:
                raise Violation('request %d executed before %d' % (n, queue[0]))
            queue.remove(n)
            if finishing is None or e[1] != finishing[0]:
                running = n
            if e[3] and n not in sup and n not in shut:
                raise Violation('request %d was cancelled although no later edit of its document was queued' % n)
        elif e[0] == 'end':
            n = e[2]
            if e[3] and n not in sup and n not in shut:
                raise Violation('request %d was cancelled while running although no later edit of its document was queued' % n)
            if not e[3] and n in must:
                raise Violation('request %d was not cancelled although a later edit of its document was queued while it was running' % n)
            done.append(n)
            if running == n:
                running = None
        elif e[0] == 'finishing':
            busy = 1
            finishing = (e[1], list(queue), running)
            shut.update(queue + ([running] if running else []))
        elif e[0] == 'finished':
            left = [q for q in finishing[1] + ([finishing[2]] if finishing[2] else []) if srv[q] == finishing[0] and q not in done]
            if left:
                raise Violation('ending session %d returned before its requests %s were executed to the end' % (finishing[0], left))
            finishing = None
        elif e[0] == 'ended':
            ended = True
    if not ended and set(done) != set(adds):
        raise Violation('requests never executed: %s' % sorted(set(adds) - set(done)))
    if ended and len(done) != len(started):
        raise Violation('shut down left a request unfinished')
    return {'nontrivial': any(len(x) > 0 for x in [sup, shut]) or len(adds) > 2, 'labels': ['scripted'] + (['superseded'] if sup else []) + (['session ended'] if busy else []), 'sample': case}
