"""C05: the end of a history against a fresh session."""
import itertools, json, os, shutil
import ses, wsgen
from vf import Violation

TARGETS = ['drv_ls']
FAST = True
TECHNIQUE = 'stateful testing: generated histories of document, file and configuration events in a workspace of programs, macros and copy members; differential oracle: a fresh session on the same files and open documents'
EXAMPLES = {'quick': 5000, 'thorough': 100000}
RULE = 'a case is non-trivial when the history has at least four events, a program uses a member at the end, and something is published'
ASSUMPTIONS = ['a change on disk is followed by its notification before the next event', 'configuration files are well-formed', 'a document is opened and closed in turn']

PGMS = ['p1', 'p2', 'q1']
LIBS = ['lib1', 'lib2']
FILES = PGMS + ['%s/%s' % (l, m) for l in LIBS for m in wsgen.MACS + wsgen.CPYS]
CONF = ['.hlasmplugin/proc_grps.json', '.hlasmplugin/pgm_conf.json']


def content(r, f):
    if f == CONF[0]:
        return wsgen.proc_grps(r)
    if f == CONF[1]:
        return wsgen.pgm_conf(r, PGMS)
    if '/' not in f:
        return wsgen.program(r)
    return wsgen.member(r, f.split('/')[1])


def focused(r):
    """all programs use the same few members and are open while those members change"""
    macs, cpys = r.list(1, 2, lambda: r.pick(wsgen.MACS)), r.list(1, 2, lambda: r.pick(wsgen.CPYS))
    mem = ['%s/%s' % (r.pick(LIBS), m) for m in macs + cpys]

    def text(f):
        if '/' in f:
            return content(r, f)
        return '\n'.join(r.list(1, 3, lambda: r.pick(['X%d EQU 1' % r.int(1, 9), ' LR 1', '&V SETA %d' % r.int(0, 9)]))) + '\n' + '\n'.join(r.list(1, 3, lambda: r.weighted([(2, ' ' + r.pick(macs)), (2, ' COPY ' + r.pick(cpys)), (1, ' LR 1,X%d' % r.int(1, 9))])))
    disk = {CONF[0]: json.dumps({'pgroups': [{'name': g, 'libs': r.pick([['lib1', 'lib2'], ['lib2', 'lib1']])} for g in ('G1', 'G2')]}),
            CONF[1]: json.dumps({'pgms': [{'program': p, 'pgroup': r.pick(['G1', 'G1', 'G2'])} for p in PGMS]})}
    for f in PGMS + mem:
        disk[f] = text(f)
    ev = [['open', f, '', 1, 0] for f in PGMS if r.chance(90)]
    ev += [['open', f, text(f), r.int(0, 1), 0] for f in mem if r.chance(50)]
    for _ in range(r.int(1, 8)):
        f = r.pick(mem) if r.chance(75) else r.pick(PGMS)
        ev.append([r.weighted([(3, 'open'), (5, 'edit'), (3, 'close'), (4, 'write'), (1, 'delete'), (5, 'tweak'), (3, 'wtweak')]), f, text(f), r.int(0, 2), r.int(0, 30)])
    return disk, ev


def tweaked(t, at):
    """one digit, or letter of a register or number, of the text changed: same length"""
    d = [i for i, c in enumerate(t) if c.isdigit()]
    if not d:
        return t
    i = d[at % len(d)]
    return t[:i] + str((int(t[i]) + 1 + at % 7) % 10) + t[i + 1:]


def gen(r, tier):
    if r.chance(45):
        disk, ev = focused(r)
        return {'disk': disk, 'ev': ev, 'ask': r.list(3, 8, lambda: [r.int(0, 5), r.int(0, 14), r.int(0, 24), r.pick(['definition', 'references', 'hover', 'completion'])])}
    disk = {f: content(r, f) for f in CONF}
    for f in FILES:
        if r.chance(60):
            disk[f] = content(r, f)
    ev = []
    live = set()
    for _ in range(r.int(2, 14)):
        k = r.weighted([(6, 'open'), (6, 'edit'), (3, 'close'), (4, 'write'), (2, 'delete'), (1, 'conf')])
        pool = PGMS * 3 + FILES
        if k == 'conf':
            f = r.pick(CONF)
            k = r.pick(['write', 'open', 'edit', 'close'])
        else:
            f = r.pick(pool)
        if k == 'delete':
            f = r.pick(FILES)
        ev.append([k, f, content(r, f), r.int(0, 2), r.int(0, 30)])
    return {'disk': disk, 'ev': ev, 'ask': r.list(3, 8, lambda: [r.int(0, 5), r.int(0, 14), r.int(0, 24), r.pick(['definition', 'references', 'hover', 'completion'])])}


def strip(x, root):
    return json.loads(json.dumps(x).replace(root, ''))


def queries(case, docs):
    out = [ses.tokens(p) for p in docs]
    for i, l, c, m in case['ask']:
        if docs:
            p = docs[i % len(docs)]
            out.append(ses.ask(m, p, l, c, **({'context': {'triggerKind': 1}} if m == 'completion' else {'context': {'includeDeclaration': True}} if m == 'references' else {})))
    return out


def norm(s, r):
    x = ses.result(r)
    if isinstance(x, list) and s['m']['method'].endswith('references'):
        x = sorted(map(json.dumps, x))
    if isinstance(x, dict) and isinstance(x.get('items'), list):
        x['items'] = sorted(json.dumps(i, sort_keys=True) for i in x['items'])
    return x


def differ(pa, qa, b, fresh, q, root):
    for r in b:
        if r and 'exc' in r:
            raise Violation('exception: ' + r['exc'])
    pb = strip(ses.published(b), root)
    if pa != pb:
        return 'last published %s, a fresh session %s' % (json.dumps(ses.show({k: v for k, v in pa.items() if pb.get(k) != v})), json.dumps(ses.show({k: v for k, v in pb.items() if pa.get(k) != v})))
    for i, s in enumerate(q):
        rb = norm(s, b[len(fresh) + i])
        if qa[i] != rb:
            return '%s answers %s, a fresh session %s' % (s['m']['method'] + json.dumps(s['m']['params'])[:200], json.dumps(qa[i])[:300], json.dumps(rb)[:300])
    return None


def run(case, env, cancels=None):
    root = env.scratch()
    w = root + '/ws'
    full = lambda f: w + '/' + f
    try:
        def reset_disk():
            shutil.rmtree(w, ignore_errors=True)
            for f in LIBS + ['.hlasmplugin']:
                os.makedirs(full(f))
            for f, t in case['disk'].items():
                open(full(f), 'w').write(t)
        reset_disk()
        disk = dict(case['disk'])
        opened = {}
        steps = [ses.init(w)]
        n = 0
        pending = set()
        for j, (k, f, t, how, at) in enumerate(case['ev']):
            p = full(f)
            mark = len(steps)
            if k == 'tweak':
                if f not in opened:
                    continue
                k, how, t = 'edit', 0, tweaked(opened[f], at)
            elif k == 'wtweak':
                if f not in disk:
                    continue
                k, t = 'write', tweaked(disk[f], at)
            if k == 'open':
                if f in opened:
                    continue
                if how and f in disk:
                    t = disk[f]
                opened[f] = t
                steps.append(ses.did_open(p, t))
            elif k == 'edit':
                if f not in opened:
                    continue
                old = opened[f]
                ls = ses.lines(old)
                if how == 0 or f in CONF:
                    steps.append(ses.did_change(p, [{'text': t}]))
                    opened[f] = t
                else:
                    i = at % len(ls)
                    new = t.split('\n')[0] if how == 1 else t.split('\n')[-1]
                    a, b = ls[i][0], ls[i][0] + ls[i][1]
                    steps.append(ses.did_change(p, [{'range': {'start': ses.pos(old, a), 'end': ses.pos(old, b)}, 'text': new}]))
                    opened[f] = old[:a] + new + old[b:]
            elif k == 'close':
                if f not in opened:
                    continue
                del opened[f]
                steps.append(ses.did_close(p))
            elif k == 'write':
                c = 2 if f in disk else 1
                disk[f] = t
                steps.append({'w': [p, t]})
                steps.append(ses.watched([p], c))
            elif k == 'delete':
                if f not in disk:
                    continue
                del disk[f]
                steps.append({'d': p})
                steps.append(ses.watched([p], 3))
            n += 1
            if cancels and k in ('open', 'edit') and f not in CONF:
                pending.discard(f)
                c = cancels.get(str(j))
                if c is not None:
                    steps[mark].update({'cancelled': True} if c == 0 else {'cancel': c})
                    pending.add(f)
                    steps += queries(case, [p])
            if k == 'close':
                pending.discard(f)
        for f in FILES:
            if f in pending:
                steps.append(ses.did_change(full(f), [{'text': opened[f]}]))
        docs = [full(f) for f in PGMS + FILES[len(PGMS):] if f in opened]
        q = queries(case, docs)
        d = env.drv('drv_ls')
        a = d.call({'op': 'lsp', 'steps': steps + q})['r']
        for r in a:
            if r and 'exc' in r:
                raise Violation('exception: ' + r['exc'])
        pa = strip(ses.published(a), root)
        qa = [norm(q[i], a[len(steps) + i]) for i in range(len(q))]
        # a member used by several programs shows what its last analysis found: any order of the programs will do
        pg = [f for f in PGMS if f in opened]
        err = None
        if cancels:
            u = [{k: v for k, v in st.items() if k not in ('cancel', 'cancelled')} for st in steps]
            reset_disk()
            b = d.call({'op': 'lsp', 'steps': u + q})['r']
            err = differ(pa, qa, b, u, q, root)
        for perm in itertools.permutations(pg) if not cancels or err else [None]:
            if perm is None:
                break
            fresh = [ses.init(w)] + [ses.did_open(full(f), opened[f]) for f in CONF if f in opened]
            # members first: opening one analyses the programs that use it again
            fresh += [ses.did_open(full(f), opened[f]) for f in FILES[len(PGMS):] if f in opened]
            fresh += [ses.did_open(full(f), opened[f]) for f in perm]
            b = d.call({'op': 'lsp', 'steps': fresh + q})['r']
            e = differ(pa, qa, b, fresh, q, root)
            if e is None:
                break
            err = err or e
        else:
            raise Violation(err)
        stopped = sum(1 for s, r in zip(steps, a) if ('cancel' in s and r['cancelled']) or 'cancelled' in s)
        nt = n >= 4 and bool(pa) and any(x in opened[f] for f in PGMS if f in opened for x in ('MAC', 'CPY'))
        if cancels is not None:
            nt = stopped > 0
        return {'nontrivial': nt, 'labels': ['%d open' % len(opened)] + (['%d interrupted' % stopped] if cancels else []), 'sample': {'events': [e[:2] for e in case['ev']], 'open': sorted(opened)}}
    finally:
        shutil.rmtree(root, ignore_errors=True)
