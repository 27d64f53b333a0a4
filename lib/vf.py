"""Common parts of the checks: driver processes, the generated-case runner, evidence and replay files."""
import hashlib, importlib, json, multiprocessing as mp, os, random, re, select, signal, subprocess, sys, tempfile, time, traceback

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = [os.environ.get('VERIF_BUILD', os.path.join(V, '.build'))]
SAN = {
    'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=99:hard_rss_limit_mb=3500:detect_stack_use_after_return=0:handle_abort=1',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=99',
}

ONLY = os.environ.get('VERIF_ONLY')  # development: look at failures with this text only
SURVEY = os.environ.get('VERIF_SURVEY')  # development: list failures instead of shrinking the first one


class Violation(Exception):
    """The property does not hold on this case."""


class Crash(Violation):
    pass


class Hang(Violation):
    pass


class Infra(Exception):
    """The machinery itself failed (not a statement about the property)."""


def bin_path(name):
    return os.path.join(BUILD[0], 'bin', name)


def build(mod):
    targets = (['--fast'] if getattr(mod, 'FAST', False) else []) + list(mod.TARGETS)
    if os.environ.get('VERIF_NOBUILD') or not mod.TARGETS:
        return
    r = subprocess.run(['bash', os.path.join(V, 'harness/build.sh')] + targets, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        print(r.stdout[-4000:])
        raise Infra('build failed')


class Driver:
    """A driver process speaking one JSON object per line; restarted when it dies."""

    def __init__(self, exe, timeout=60, args=()):
        self.exe, self.timeout, self.args, self.p, self.calls = exe, timeout, list(args), None, 0

    def start(self):
        self.err = tempfile.TemporaryFile()
        env = dict(os.environ, **SAN)
        cmd = ['node', os.path.join(V, 'harness', self.exe)] if self.exe.endswith('.js') else [bin_path(self.exe)]
        self.p = subprocess.Popen(cmd + self.args, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=env)
        self.buf = b''

    def stop(self):
        if self.p:
            try:
                self.p.kill()
                self.p.wait()
                self.p.stdin.close()
            except Exception:
                pass
            try:
                self.p.stdout.close()
                self.err.close()
            except Exception:
                pass
            self.p = None

    def _death(self, why, cls):
        try:
            self.p.wait(timeout=20)
        except Exception:
            pass
        self.err.seek(0)
        e = self.err.read().decode('utf8', 'replace')
        rc = self.p.returncode
        self.stop()
        if 'hard rss limit exhausted' in e:
            raise Hang('memory limit exhausted')
        m = re.search(r'(ERROR: AddressSanitizer[^\n]*|[^\n]*runtime error:[^\n]*|terminate called[^\n]*\n[^\n]*)', e)
        raise cls('%s (exit %s): %s\n%s' % (why, rc, m.group(1) if m else '', e[:3000]))

    def call(self, rq, timeout=None):
        if self.p is None or self.p.poll() is not None or self.calls > 500:
            self.stop()
            self.start()
            self.calls = 0
        self.calls += 1
        data = (json.dumps(rq) + '\n').encode()
        end = time.time() + (timeout or self.timeout)
        try:
            self.p.stdin.write(data)
            self.p.stdin.flush()
        except BrokenPipeError:
            self._death('driver died', Crash)
        fd = self.p.stdout.fileno()
        while b'\n' not in self.buf:
            left = end - time.time()
            if left <= 0:
                self.p.kill()
                self._death('no answer within %s s' % (timeout or self.timeout), Hang)
            r, _, _ = select.select([fd], [], [], min(left, 5))
            if r:
                c = os.read(fd, 1 << 20)
                if not c:
                    self._death('driver died', Crash)
                self.buf += c
        line, self.buf = self.buf.split(b'\n', 1)
        out = json.loads(line)
        if 'exception' in out and len(out) == 1:
            raise Crash('exception escaped: ' + str(out['exception']))
        return out


class Env:
    """What a case may use: drivers by name, a scratch directory, counters."""

    def __init__(self):
        self.drivers = {}
        self._scratch = None
        self.labels = {}

    def drv(self, name, timeout=60):
        if name not in self.drivers:
            self.drivers[name] = Driver(name, timeout)
        return self.drivers[name]

    def scratch(self):
        if not self._scratch:
            self._scratch = tempfile.mkdtemp(prefix='vf_')
        return self._scratch

    def label(self, *ls):
        for l in ls:
            self.labels[l] = self.labels.get(l, 0) + 1

    def close(self):
        for d in self.drivers.values():
            d.stop()
        if self._scratch:
            subprocess.run(['rm', '-rf', self._scratch])


def case_hash(x):
    return hashlib.sha1(json.dumps(x, sort_keys=True, default=str).encode()).hexdigest()[:16]


def load(cid):
    sys.path.insert(0, os.path.join(V, 'checks'))
    mod = importlib.import_module(cid.lower())
    if getattr(mod, 'FAST', False) and 'VERIF_BUILD' not in os.environ:
        BUILD[0] = os.path.join(V, '.fast')
    return mod


def known_findings():
    p = os.path.join(V, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else []


def run_case(mod, case, env):
    try:
        return mod.run(case, env) or {}
    except (Violation, Infra, KeyboardInterrupt):
        raise
    except Exception as e:
        # the code answered with something that the oracle cannot even read
        if type(e).__module__.startswith('hypothesis'):
            raise
        raise Violation('unreadable answer: ' + traceback.format_exc()[-1500:])


# ---------------------------------------------------------------- worker

def own_generator(mod, tier, seed, idx, n, deadline, st, one, env):
    """cases drawn through recorded choices (choice.R); the first failure is shrunk by editing the record"""
    import choice
    g = lambda r: mod.gen(r, tier)
    for k in range(n):
        if time.time() > deadline:
            break
        r = choice.R(seed='%d/%d/%d' % (seed, idx, k))
        try:
            case = g(r)
        except choice.Stop:
            st['invalid'] += 1
            continue
        try:
            one(case)
        except Violation as e:
            kind = str(e)[:20]
            box = {}

            def fails(c):
                try:
                    run_case(mod, c, env)
                except Violation as e2:
                    if str(e2)[:20] == kind and not (hasattr(mod, 'known') and mod.known(c, e2)):
                        box[id(c)] = str(e2)
                        return True
                return False
            c2, _ = choice.shrink(g, r.rec, fails)
            if c2 is not None:
                st['fail'] = (c2, box.get(id(c2), str(e)), 0)
            break


def hypothesis_runs(mod, tier, seed, idx, n, deadline, st, one):
    from hypothesis import given, settings, HealthCheck, Phase, seed as hseed
    strat = mod.strategy(tier)
    # several independent hypothesis runs: one run's generation is correlated and slows down with its length
    chunk = getattr(mod, 'CHUNK', 400)
    done = 0
    k = 0
    while done < n and time.time() < deadline and not st['fail']:
        m = min(chunk, n - done)
        f = given(strat)(lambda case: one(case))
        f = settings(max_examples=m, deadline=None, database=None, phases=[Phase.generate, Phase.shrink], print_blob=False,
                     suppress_health_check=list(HealthCheck), report_multiple_bugs=False, derandomize=False)(f)
        f = hseed(seed * 1000003 + idx * 10007 + k)(f)
        try:
            f()
        except Violation:
            pass
        except BaseException as e:
            if not st['fail']:
                raise
        done += m
        k += 1


def worker(cid, tier, seed, idx, n, deadline, q):
    import warnings
    warnings.filterwarnings('ignore')
    os.setpgrp()
    mod = load(cid)
    env = Env()
    st = {'n': 0, 'nontrivial': set(), 'samples': [], 'fail': None, 'first_fail': None, 'invalid': 0, 'known': {}, 'survey': []}
    shrink_s = int(os.environ.get("VERIF_SHRINK", 45))

    def one(case):
        if st['first_fail'] and time.time() - st['first_fail'] > shrink_s:
            return
        if not st['first_fail'] and time.time() > deadline:
            return
        st['n'] += 1
        try:
            info = run_case(mod, case, env)
        except Violation as e:
            kf = mod.known(case, e) if hasattr(mod, 'known') else None
            if kf:
                st['known'][kf] = st['known'].get(kf, 0) + 1
                return
            if ONLY and ONLY not in str(e):
                return
            if SURVEY:
                st['survey'].append((len(json.dumps(case, default=str)), str(e)[:int(SURVEY)]))
                return
            size = len(json.dumps(case, default=str))
            if st['fail'] is None or size <= st['fail'][2]:
                st['fail'] = (case, str(e), size)
            if st['first_fail'] is None:
                st['first_fail'] = time.time()
            raise
        for l in info.get('labels', ()):
            env.label(l)
        if info.get('nontrivial'):
            h = case_hash(case)
            if h not in st['nontrivial']:
                st['nontrivial'].add(h)
                k = len(st['nontrivial'])
                if k in (1, 20, 100) and len(st['samples']) < 3:
                    st['samples'].append(info.get('sample', case))

    err = None
    try:
        if hasattr(mod, 'gen'):
            own_generator(mod, tier, seed, idx, n, deadline, st, one, env)
        else:
            hypothesis_runs(mod, tier, seed, idx, n, deadline, st, one)
    except BaseException as e:
        err = traceback.format_exc()
    env.close()
    q.put({'idx': idx, 'n': st['n'], 'nontrivial': list(st['nontrivial']), 'samples': st['samples'], 'fail': st['fail'] and st['fail'][:2],
           'labels': env.labels, 'err': err, 'known': st['known'], 'survey': sorted(st['survey'])[:40]})


def replay(cid, case, times=3):
    """Runs a case in fresh drivers; the message when it fails every time, else None."""
    mod = load(cid)
    msg = None
    for _ in range(times):
        env = Env()
        try:
            run_case(mod, case, env)
            return None
        except Violation as e:
            if hasattr(mod, 'known') and mod.known(case, e):
                return None
            msg = str(e)
        finally:
            env.close()
    return msg


def shorten(x, n=1500):
    s = json.dumps(x, default=str)
    return x if len(s) <= n else s[:n] + '...'


def main(cid):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    mod = load(cid)
    if len(sys.argv) > 2 and sys.argv[2] == '--replay':
        build(mod)
        d = json.load(open(sys.argv[3]))
        m = replay(cid, d['case'], 1)
        print(m or 'holds')
        return 1 if m else 0
    try:
        build(mod)
    except Infra as e:
        print('BUILD FAILED', e)
        return 3
    tb = time.time() - t0
    failures = []
    ev = {'evaluations': 0}
    # 1. saved cases
    saved = 0
    cdir = os.path.join(V, 'corpus', cid)
    if os.path.isdir(cdir):
        for f in sorted(os.listdir(cdir)):
            case = json.load(open(os.path.join(cdir, f)))['case']
            saved += 1
            m = replay(cid, case)
            if m:
                failures.append((case, m))
    # 2. generated cases
    nw = int(os.environ.get('VERIF_WORKERS', getattr(mod, 'WORKERS', 8)))
    n = mod.EXAMPLES[tier]
    n = int(n * float(os.environ.get('VERIF_SCALE', '1')))
    limit = {'quick': getattr(mod, 'LIMIT_QUICK', 240), 'thorough': getattr(mod, 'LIMIT_THOROUGH', 3600)}[tier]
    deadline = time.time() + limit
    labels, nontriv, samples, total, errs, known = {}, set(), [], 0, [], {}
    if not failures:
        ctx = mp.get_context('fork')
        q = ctx.Queue()
        ps = [ctx.Process(target=worker, args=(cid, tier, seed, i, (n + nw - 1) // nw, deadline, q)) for i in range(nw)]
        for p in ps:
            p.start()
        got = 0
        while got < nw:
            try:
                r = q.get(timeout=5)
            except Exception:
                if time.time() > deadline + 200:
                    errs.append('worker did not finish')
                    break
                if not any(p.is_alive() for p in ps):
                    try:
                        r = q.get(timeout=2)
                    except Exception:
                        errs.append('worker died')
                        break
                else:
                    continue
            got += 1
            total += r['n']
            nontriv.update(r['nontrivial'])
            samples += r['samples']
            for k, v in r['labels'].items():
                labels[k] = labels.get(k, 0) + v
            for k, v in r['known'].items():
                known[k] = known.get(k, 0) + v
            for x in r['survey'][:6]:
                print('--', x[1])
            if r['err']:
                errs.append(r['err'])
            if r['fail']:
                failures.append(r['fail'])
        for p in ps:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except Exception:
                pass
    # 3. extra, check-specific parts (enumerations, fuzzing campaigns)
    extra = None
    if not failures and hasattr(mod, 'extra'):
        env = Env()
        try:
            extra, fl = mod.extra(tier, seed, env)
            failures += fl
            total += extra.get('evaluations', 0)
        finally:
            env.close()
    # confirm
    confirmed, flaky = None, []
    for case, msg in sorted(failures, key=lambda x: len(json.dumps(x[0], default=str))):
        m = replay(cid, case)
        if m:
            confirmed = (case, m)
            break
        flaky.append({'case': shorten(case), 'msg': msg[:500]})
    cov = {'evaluations': total + saved, 'distinct_nontrivial': len(nontriv) + (extra or {}).get('distinct_nontrivial', 0), 'rule': mod.RULE,
           'samples': [shorten(s) for s in samples[:6]] or [shorten((extra or {}).get('sample', 'none'))], 'saved_cases': saved, 'classes': dict(sorted(labels.items())),
           'build_s': round(tb, 1)}
    if extra:
        cov['extra'] = {k: v for k, v in extra.items() if k not in ('sample',)}
    if flaky:
        cov['not_reproduced'] = flaky[:5]
    if errs:
        cov['errors'] = [e[-1500:] for e in errs[:3]]
    if known:
        cov['known_findings_met'] = known
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    json.dump({'property': cid, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov, 'assumptions': getattr(mod, 'ASSUMPTIONS', []),
               'wall_s': round(time.time() - t0, 1), 'violations': 1 if confirmed else 0}, open(os.path.join(V, 'evidence', cid + '.json'), 'w'), indent=1)
    for k in known_findings():
        if k.get('property') == cid and k.get('status') == 'known':
            print('KNOWN-FINDING: property=%s %s' % (cid, k['what']))
    if confirmed:
        os.makedirs(os.path.join(V, 'replays'), exist_ok=True)
        path = os.path.join(V, 'replays', '%s-%s.json' % (cid, case_hash(confirmed[0])))
        json.dump({'property': cid, 'case': confirmed[0], 'message': confirmed[1]}, open(path, 'w'), indent=1)
        print(confirmed[1][:3000])
        print('VIOLATION property=%s replay=%s' % (cid, path))
        return 1
    print('%s: %d cases, %d distinct non-trivial, %.0f s (build %.0f s)%s' % (cid, cov['evaluations'], cov['distinct_nontrivial'], time.time() - t0, tb, ' FLAKY %d' % len(flaky) if flaky else ''))
    if errs:
        print('\n'.join(errs)[-3000:])
        return 4
    return 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1]))
