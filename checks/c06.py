"""C06: the configuration decides where members come from."""
import json, os, re, shutil
import ses
from vf import Violation

TARGETS = ['drv_ls']
FAST = True
TECHNIQUE = 'model-based property testing: generated workspaces with configuration files, libraries and programs; the members a program gets are revealed by diagnostics inside each member file and compared with a reference model of the configuration'
EXAMPLES = {'quick': 10000, 'thorough': 80000}
RULE = 'a case is non-trivial when a program covered by the configuration takes a member from one of at least two libraries'
ASSUMPTIONS = ['library files with the same member name in one library: any of them may be taken', 'program entries name workspace-relative normalised paths']

MACS = ['MACA', 'MACB', 'MACC', 'MD#1', 'Q']
CPYS = ['CPYA', 'CPYB', 'CPYC']
EXTS = ['.mac', '.asm', 'hlasm', '', '.m', '.mac.asm', '.MAC', '.a+b']
LIBS = ['lib1', 'lib2', 'a b/c', 'L+1', '.hid', 'lib1/in', 'lib[1]', 'l%41', 'lib#?']
PGMS = ['p1', 'p2', 'P1', 'src/p1', 'src/p2.asm', 'a+b.x', 'abb.x', 'src/deep/x(1).asm', 'src p', 'p1.asm', 'q$1', 'srcp1', 'p%31']
WILD = ['*', 'p*', '*.asm', 'src/*', 'src/?1', '?1', '*p1', 'src*', 'a+*', '*.x', 'src/*/*', 'P?', 'q$*', 'x(*', '*(1).*', '??', 'src/**.asm', '[p]*', 'p|*', 'a?b.x', '*\\d', '^p*', 'a.*']
SUFFIX = ['', '.mac', '.asm', '.hlasm', '.m', '.mac.asm', '.MAC', '.a+b', '.txt', '.a']


def spelled(r, n):
    return r.pick([n, n.lower(), n.capitalize(), n])


def gen_conf(r, dirs, pgms, wild):
    gs = []
    for _ in range(r.weighted([(1, 0), (3, 1), (4, 2), (2, 3)])):
        libs = []
        for _ in range(r.weighted([(1, 0), (1, 1), (4, 2), (3, 3), (2, 4)])):
            p = r.pick(dirs + ['nolib', 'afile'] if r.chance(50) else dirs)
            p = r.weighted([(5, p), (2, p + '/'), (1, './' + p), (1, 'ABS:' + p), (1, 'x/../' + p)])
            if r.chance(50):
                libs.append(p)
            else:
                o = {'path': p}
                if r.chance(50):
                    o['optional'] = bool(r.int(0, 1))
                if r.chance(40):
                    o['macro_extensions'] = r.list(0, 3, lambda: r.pick(EXTS))
                libs.append(o)
        g = {'name': r.pick(['G1', 'G2', 'G3', 'g 4']), 'libs': libs}
        if r.chance(40):
            g['asm_options'] = r.pick([{'SYSPARM': 'QQ'}, {'SYSPARM': 'ZZ9'}, {}, {'PROFILE': 'CPYA'}, {'SYSPARM': 'A' * 256}])
        gs.append(g)
    proc = {'pgroups': gs}
    if r.chance(35):
        proc['macro_extensions'] = r.list(0, 3, lambda: r.pick(EXTS))
    e = []
    for _ in range(0 if r.chance(6) else r.int(1, 6)):
        e.append({'program': r.pick(pgms) if r.chance(50) else '*' if r.chance(20) else r.pick(wild), 'pgroup': r.weighted([(4, gs[r.int(0, len(gs) - 1)]['name'] if gs else 'G1'), (1, r.pick(['G1', 'G2', 'G3', 'NOSUCH', 'g1']))])})
    conf = {'pgms': e}
    if r.chance(20):
        conf['alwaysRecognize'] = r.list(0, 2, lambda: r.pick(['*.mac', '*.asm', 'x/*.m', '*', 'p1']))
    if r.chance(30):
        conf['diagnosticsSuppressLimit'] = r.pick([0, 1, 2, 5, 100])
    bad = lambda: r.pick(['', '{', '[]', '{}', '{"pgroups":[{"name":1,"libs":[]}]}', '{"pgms":[{"program":"p1"}]}', '{"pgroups":[{"name":"G1","libs":[1]}],"pgms":3}', 'null', '\xff', '{"pgroups":[],"pgms":[]', '{"pgroups":{},"pgms":[{}]}'])
    return [bad() if r.chance(7) else None if r.chance(3) else json.dumps(proc), bad() if r.chance(7) else None if r.chance(3) else json.dumps(conf)]


def gen(r, tier):
    pool = r.list(2, 4, lambda: r.pick(PGMS))
    shape = r.weighted([(5, ['ws']), (2, ['ws', 'ws2']), (2, ['ws', 'ws/sub']), (1, ['ws', 'other']), (1, ['w s+1']), (1, ['w%20@'])])
    wss = []
    for w in shape:
        dirs = r.list(1, 4, lambda: r.pick(LIBS))
        wss.append({'path': w, 'dirs': dirs, 'conf': gen_conf(r, dirs + ['../shared'], pool, WILD)})
    files = {}
    n = 0
    for w in wss:
        for d in w['dirs'] + ['../shared']:
            for _ in range(r.int(2, 6)):
                m = r.pick(MACS + CPYS)
                f = os.path.normpath(w['path'] + '/' + d + '/' + spelled(r, m) + r.weighted([(10, ''), (6, r.pick(SUFFIX))]))
                n += 1
                files[f] = [m, 'U%d' % n, r.pick(MACS[MACS.index(m) + 1:] + CPYS) if m in MACS and r.chance(40) else r.pick(CPYS[CPYS.index(m) + 1:] + [None]) if m in CPYS and r.chance(30) else None]
    pg = []
    for _ in range(r.int(1, 4)):
        w = r.pick(shape + (['outside'] if r.chance(20) else []))
        body = r.list(1, 6, lambda: r.pick(MACS + CPYS))
        pg.append([w + '/' + r.pick(pool), body, [r.pick(MACS)] if r.chance(15) else [], r.int(0, 3)])
    again = None
    if r.chance(40):
        i = r.int(0, len(wss) - 1)
        again = [i, gen_conf(r, wss[i]['dirs'] + ['../shared'], pool, WILD), r.pick([None, None, 'open', 'both'])]
    return {'ws': wss, 'files': files, 'pgms': pg, 'again': again, 'glob': r.pick([None, None, 0, 1, 3, 50])}


# ---- the model
def wild_match(p, s):
    return re.fullmatch(''.join('.*' if c == '*' else '.' if c == '?' else re.escape(c) for c in p), s, re.S) is not None


def valid_proc(t):
    try:
        d = json.loads(t)
    except ValueError:
        return None
    try:
        for g in d['pgroups']:
            if not isinstance(g['name'], str):
                return None
            for l in g['libs']:
                if not isinstance(l, (str, dict)):
                    return None
        return d if isinstance(d['pgroups'], list) else None
    except (KeyError, TypeError):
        return None


def valid_conf(t):
    try:
        d = json.loads(t)
    except ValueError:
        return None
    try:
        for p in d['pgms']:
            p['program'], p['pgroup']
        return d
    except (KeyError, TypeError):
        return None


class Conf:
    """what a workspace is configured to"""

    def __init__(self, root, w, conf, files):
        self.base = root + '/' + w
        self.codes = []
        self.groups = {}
        self.exact = {}
        self.wild = []
        self.limit = None
        self.files = files
        self.ok = False
        proc = None
        if conf[0] is not None:
            proc = valid_proc(conf[0])
            if proc is None:
                self.codes.append(('proc_grps.json', 'W0002'))
        if proc is None:
            return
        for g in proc['pgroups']:
            if len(g.get('asm_options', {}).get('SYSPARM', '')) > 255:
                self.codes.append(('proc_grps.json', 'W0005'))
        if conf[1] is None:
            return
        pc = valid_conf(conf[1])
        if pc is None:
            self.codes.append(('pgm_conf.json', 'W0003'))
            return
        self.ok = True
        self.limit = pc.get('diagnosticsSuppressLimit')
        compat = sorted({x[x.rfind('*.') + 1:] for x in pc.get('alwaysRecognize', []) if '*.' in x})
        for g in proc['pgroups']:
            if g['name'] in self.groups:
                continue
            libs = []
            for l in g['libs']:
                o = {'path': l} if isinstance(l, str) else l
                p = o['path']
                p = os.path.normpath(self.base + '/' + p) if not p.startswith('/') else os.path.normpath(p)
                ext = o.get('macro_extensions') or proc.get('macro_extensions') or None
                if not ext and compat:
                    ext = compat + ['']
                libs.append([p, bool(o.get('optional')), ext])
            self.groups[g['name']] = {'libs': libs, 'parm': g.get('asm_options', {}).get('SYSPARM', '')}
        for e in pc['pgms']:
            if e['pgroup'] not in self.groups:
                self.codes.append(('pgm_conf.json', 'W0004'))
            elif '*' in e['program'] or '?' in e['program']:
                self.wild.append((e['program'], e['pgroup']))
            else:
                self.exact.setdefault(e['program'], e['pgroup'])

    def group(self, rel):
        g = self.exact.get(rel)
        if g is None:
            g = next((g for p, g in self.wild if wild_match(p, rel)), None)
        return None if g is None else self.groups[g]

    def members(self, lib, name):
        """files of a library that may be the member"""
        p, _, ext = lib
        out = []
        for f in self.files:
            if os.path.dirname(f) != p:
                continue
            b = os.path.basename(f)
            if not ext:
                if b.upper() == name:
                    out.append(f)
                continue
            for x in sorted({'.' + x if x and x[0] != '.' else x for x in ext}, key=lambda x: -len(x)):
                if len(b) > len(x) and b.endswith(x):
                    if b[:len(b) - len(x)].upper() == name:
                        out.append(f)
                    break
        return out


class Skip(Exception):
    pass


def expect(grp, conf, pgm, path, nested):
    """diagnostics of a program, in the order found, and members used"""
    own = set(pgm[2])
    parm = grp['parm'] if grp else ''
    out = [(path, 'E049 P' + parm[:4], 4 * len(own))]
    used = []
    known = {}

    def resolve(name):
        for i, l in enumerate(grp['libs'] if grp else []):
            m = conf.members(l, name)
            if len(m) > 1:
                raise Skip
            if m:
                used.append((i, m[0]))
                return m[0]
        return None

    def use(name, where, line):
        if name in MACS:
            if name in own:
                out.append((path, 'E049 OWN', 2))
                return
            f = known.get(name) or resolve(name)
            if f is None:
                out.append((where, 'E049 ' + name, line))
                return
            known[name] = f
        else:
            f = resolve(name)
            if f is None:
                out.append((where, 'E058', line))
                return
        m, u, nx = conf.files[f]
        out.append((f, 'E049 ' + u, 2 if m in MACS else 0))
        if nested and nx:
            use(nx, f, 3 if m in MACS else 1)

    for i, b in enumerate(pgm[1]):
        use(b, path, 4 * len(own) + 1 + i)
    return out, used


def text(pgm):
    out = []
    for m in pgm[2]:
        out += [' MACRO', ' %s' % m, ' OWN 1', ' MEND']
    out.append(' P&SYSPARM 1')
    for i, b in enumerate(pgm[1]):
        n = b.lower() if (pgm[3] + i) % 4 == 1 else b
        out.append((' COPY %s' % n) if b in CPYS else ' %s' % n)
    return '\n'.join(out)


def member(f, v, nested):
    m, u, nx = v
    b = [' %s 1' % u]
    if nested and nx:
        b.append((' COPY %s' % nx) if nx in CPYS else ' %s' % nx)
    return '\n'.join([' MACRO', ' %s' % m] + b + [' MEND'] if m in MACS else b)


def observed(rs, root):
    cfg, lib, dg = [], set(), {}
    p = {}
    for r in rs:
        if r and 'exc' in r:
            raise Violation('exception: ' + r['exc'])
        for o in (r or {}).get('out', []):
            if o.get('method') == 'textDocument/publishDiagnostics':
                p[o['params']['uri']] = o['params']['diagnostics']
    for u, ds in p.items():
        f = ses.path(u)
        for d in ds:
            c, m = d['code'], d['message']
            if c[0] == 'W':
                cfg.append((f, c))
            elif c == 'L0002':
                lib.add(os.path.normpath(re.match(r'Unable to load library: (.*)\. Error', m).group(1)))
            elif c[0] == 'L':
                pass
            else:
                m = m.rpartition(' - ')[2].upper() if c == 'E049' else ''
                dg.setdefault(f, set()).add(((c + ' ' + (m[:5] if m[:1] == 'P' else m)).strip(), d['range']['start']['line']))
    return sorted(cfg), lib, dg


def run(case, env):
    root = env.scratch()
    try:
        # with several programs open at once, members do not use members: their problems would depend on the program
        many = len(case['pgms']) > 1 and case['pgms'][0][3] % 2 == 0
        files = {root + '/' + f: v for f, v in case['files'].items()}
        fix = lambda t: None if t is None else re.sub(r'ABS:([^"]*)', lambda m: root + '/' + case['ws'][0]['path'] + '/' + m.group(1), t)
        dirs = set()
        for w in case['ws']:
            os.makedirs(root + '/' + w['path'] + '/.hlasmplugin', exist_ok=True)
            for d in w['dirs'] + ['../shared']:
                os.makedirs(os.path.normpath(root + '/' + w['path'] + '/' + d), exist_ok=True)
        for w in case['ws']:
            open(root + '/' + w['path'] + '/afile', 'w').write(' LR 1')
        for f, v in files.items():
            if os.path.isdir(f):
                raise Skip
            open(f, 'w').write(member(f, v, not many))
        for dp, _, _ in os.walk(root):
            dirs.add(dp)
        CN = ['proc_grps.json', 'pgm_conf.json']
        confs = {}
        for w in case['ws']:
            c = [fix(x) for x in w['conf']]
            for n, t in zip(CN, c):
                if t is not None:
                    open(root + '/' + w['path'] + '/.hlasmplugin/' + n, 'w').write(t)
            confs[w['path']] = Conf(root, w['path'], c, files)
        steps = [ses.init(folders=[[w['path'], root + '/' + w['path']] for w in case['ws']])]
        if case['glob'] is not None:
            steps.append({'m': {'jsonrpc': '2.0', 'id': 'config_request_0', 'result': [{'diagnosticsSuppressLimit': case['glob']}]}})
        checks = []
        opened = []
        searched = set()

        def wsof(p):
            c = [w for w in confs if p.startswith(root + '/' + w + '/')]
            return max(c, key=len) if c else None

        state = {'stale': set()}

        def model(pgm):
            p = root + '/' + pgm[0]
            w = wsof(p)
            cf = confs.get(w)
            grp = cf.group(os.path.relpath(p, root + '/' + w)) if w else None
            out, used = expect(grp, cf, pgm, p, not many)
            lim = cf.limit if cf and cf.limit is not None else case['glob'] if case['glob'] is not None else 10
            if grp is None and len(out) > lim:
                out = []
            miss = {l[0] for l in grp['libs'] if not l[1] and l[0] not in dirs} if grp else set()
            if grp and any(l[0] == '' for l in grp['libs']):
                raise Skip
            return out, used, miss, grp, w

        def snapshot(stage):
            exp, lib = {}, set(searched)
            for g in opened:
                out, used, miss, grp, w = model(g)
                for f, c, n in out:
                    exp.setdefault(f, set()).add((c, n))
            checks.append((len(steps), stage, exp, {w: list(c.codes) for w, c in confs.items()}, set(lib), set(state['stale'])))

        seen = set()
        nontriv = False
        labels = set()
        for pgm in case['pgms']:
            if pgm[0] in seen or any(os.path.dirname(root + '/' + pgm[0]) == os.path.dirname(f) for f in files):
                continue
            seen.add(pgm[0])
            p = root + '/' + pgm[0]
            out, used, miss, grp, w = model(pgm)
            searched |= miss
            if grp and len(grp['libs']) >= 2 and used:
                nontriv = True
            labels.add('no group' if not grp else 'group')
            if any(i for i, _ in used):
                labels.add('from a later library')
            steps.append(ses.did_open(p, text(pgm)))
            opened.append(pgm)
            snapshot(pgm[0])
            if not many:
                steps.append(ses.did_close(p))
                opened.remove(pgm)
        if case['again'] and opened or case['again'] and not many and seen:
            i, c, how = case['again']
            w = case['ws'][i]['path']
            c = [fix(x) for x in c]
            old = confs[w]
            new = Conf(root, w, c, files)
            # a configuration that cannot be read leaves the one before in place, and a file is not deleted
            if None not in c:
                for n, t in zip(CN, c):
                    q = root + '/' + w + '/.hlasmplugin/' + n
                    steps.append({'w': [q, t]})
                steps.append(ses.watched([root + '/' + w + '/.hlasmplugin/' + n for n in CN]))
                labels.add('configuration changed')
                if new.ok:
                    confs[w] = new
                    searched = set()
                    for g in opened:
                        searched |= model(g)[2]
                    state['stale'] |= {x for x in confs if x != w}
                    snapshot('configuration changed')
                else:
                    labels.add('configuration broken')
                    state['stale'] = set(confs)
                    old.codes = new.codes
                    snapshot('configuration broken')
                    if not opened:
                        pgm = next(g for g in case['pgms'] if g[0] in seen)
                        steps.append(ses.did_open(root + '/' + pgm[0], text(pgm)))
                        opened.append(pgm)
                    else:
                        for g in opened:
                            steps.append(ses.did_change(root + '/' + g[0], [{'text': text(g)}]))
                    snapshot('after broken configuration')
        d = env.drv('drv_ls')
        a = d.call({'op': 'lsp', 'steps': steps})['r']
        for at, stage, exp, codes, lib, stale in checks:
            cfg, l2, dg = observed(a[:at], root)
            want = sorted((root + '/' + w + '/.hlasmplugin/' + f, c) for w, cs in codes.items() for f, c in cs)
            if cfg != want:
                raise Violation('%s: configuration problems reported %s, expected %s' % (stage, cfg, want))
            if not stale and l2 != lib:
                raise Violation('%s: libraries reported missing %s, expected %s' % (stage, sorted(l2), sorted(lib)))
            for f in set(exp) | set(dg):
                if exp.get(f, set()) != dg.get(f, set()):
                    raise Violation('%s: %s has %s, expected %s' % (stage, f.replace(root, ''), sorted(dg.get(f, set())), sorted(exp.get(f, set()))))
        return {'nontrivial': nontriv, 'labels': sorted(labels), 'sample': {'ws': [[w['path'], w['conf']] for w in case['ws']], 'programs': [p[:2] for p in case['pgms']], 'files': sorted(case['files'])}}
    except Skip:
        return {'nontrivial': False, 'labels': ['discarded'], 'sample': None}
    finally:
        shutil.rmtree(root, ignore_errors=True)

