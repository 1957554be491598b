"""Runs the contracts of a property on the real code with concrete inputs.

A case is a function case(t, i): it builds the i-th input (from t.rng, seeded by VERIF_SEED, the case and i), calls the
code of /repo and evaluates the postcondition with an oracle that does not use the code under test.  Cases run in
child processes, so that a crash or a hang is an outcome like any other.
"""
import hashlib, json, os, random, resource, signal, sys, time, traceback

CASES = {}


class Case(object):
    def __init__(self, prop, name, fn, n, thorough, hang):
        self.prop, self.name, self.fn, self.n, self.thorough, self.hang = prop, name, fn, n, thorough, hang


def case(prop, n=1, thorough=None, name=None, hang=300):
    def deco(fn):
        CASES.setdefault(prop, []).append(Case(prop, name or fn.__name__, fn, n, n if thorough is None else thorough, hang))
        return fn
    return deco


class Skip(Exception): pass


class Context(object):
    def __init__(self, c, i, seed):
        import numpy as np
        self.case, self.i, self.seed = c, i, seed
        h = int(hashlib.sha256(('%s/%s/%d/%d' % (c.prop, c.name, i, seed)).encode()).hexdigest()[:12], 16)
        self.rng, self.np = random.Random(h), np.random.RandomState(h % 2**32)
        self.failures, self.evals, self.inputs = [], 0, []
        self.label = ''

    def input(self, *desc):
        """Says what the input is; one call per distinct input"""
        self.label = ' '.join(str(d) for d in desc)
        self.inputs.append(self.label)

    def expect(self, cond, key, msg=''):
        self.evals += 1
        if not cond: self.fail(key, msg() if callable(msg) else msg)
        return bool(cond)

    def fail(self, key, msg=''):
        if len(self.failures) < 20:
            self.failures.append(dict(case=self.case.name, index=self.i, seed=self.seed, key=key,
                                      input=self.label[:1500], message=str(msg)[:1500]))

    def close(self, got, want, key, tol=1E-9, msg=''):
        import numpy as np
        self.evals += 1
        got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
        if got.shape != want.shape:
            self.fail(key, '%s shapes %s, expected %s' % (msg, got.shape, want.shape))
            return False
        if not got.size: return True
        scale = 1 + np.max(np.abs(want)) if np.all(np.isfinite(want)) else 1
        err = np.max(np.abs(got - want))
        if not err <= tol * scale:
            w = np.unravel_index(np.argmax(np.abs(np.nan_to_num(got, nan=1e300) - want)), got.shape) if got.shape else ()
            self.fail(key, '%s got %r expected %r at %s (error %g)' % (
                msg, float(got[w]) if got.shape else float(got), float(want[w]) if want.shape else float(want),
                tuple(int(q) for q in w), err))
            return False
        return True

    def raises(self, exc, fn, key, msg=''):
        self.evals += 1
        try: r = fn()
        except exc: return True
        self.fail(key, '%s: returned %r instead of raising' % (msg, r))
        return False

    def guard(self, key):
        """with t.guard('x'): an exception raised inside is a failure with this key"""
        return _Guard(self, key)


class _Guard(object):
    def __init__(self, t, key): self.t, self.key = t, key
    def __enter__(self): return self

    def __exit__(self, k, x, tb):
        if k is None or issubclass(k, (KeyboardInterrupt, SystemExit, Skip)): return False
        self.t.evals += 1
        self.t.fail(self.key, 'raised ' + describe(x))
        return True


def describe(x):
    tb = traceback.extract_tb(x.__traceback__)
    where = [f for f in tb if '/xii/' in f.filename]
    at = '%s:%d' % (where[-1].filename.split('/repo/')[-1], where[-1].lineno) if where else ''
    mine = [f for f in tb if '/runner/' in f.filename]
    me = ' [%s:%d]' % (os.path.basename(mine[-1].filename), mine[-1].lineno) if mine else ''
    return '%s: %s at %s%s' % (type(x).__name__, str(x).strip()[:600], at, me)


def run_one(c, i, seed):
    t = Context(c, i, seed)
    try: c.fn(t, i)
    except Skip: pass
    except (KeyboardInterrupt, SystemExit) as x:
        if isinstance(x, KeyboardInterrupt): raise
        t.fail('exception', 'raised ' + describe(x))
    except BaseException as x:
        t.fail('exception', 'raised ' + describe(x))
        if os.environ.get('VC_DEBUG'): traceback.print_exc()
    return t


def child(c, seed, n, out, deadline):
    """Runs all repetitions of a case; appends results to the file"""
    try: resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    except (ValueError, OSError): pass
    sys.setrecursionlimit(3000)
    sys.stdout.flush()
    fd = os.open(os.environ.get('RUNNER_LOG', '/dev/null'), os.O_WRONLY | os.O_CREAT | os.O_APPEND)
    if not os.environ.get('VC_DEBUG'):
        os.dup2(fd, 1)
        os.dup2(fd, 2)
    with open(out, 'w') as f:
        for i in range(n):
            if i and time.time() > deadline:
                f.write(json.dumps(dict(skipped=n - i)) + '\n')
                break
            f.write(json.dumps(dict(start=i)) + '\n')
            f.flush()
            t0 = time.time()
            t = run_one(c, i, seed)
            f.write(json.dumps(dict(i=i, evals=t.evals, inputs=[hashlib.sha1(x.encode()).hexdigest() for x in t.inputs],
                                    sample=t.inputs[:1], failures=t.failures, wall=time.time() - t0)) + '\n')
            f.flush()
            if sum(1 for x in t.failures) >= 20: break
        f.write(json.dumps(dict(done=True)) + '\n')


def run(prop, seed, tier, budget, outdir, jobs=8, only=None):
    cases = CASES.get(prop, [])
    if only: cases = [c for c in cases if c.name in only]
    t0 = time.time()
    todo = list(enumerate(cases))
    live, results = {}, {}
    while todo or live:
        while todo and len(live) < jobs:
            k, c = todo.pop(0)
            n = c.thorough if tier == 'thorough' else c.n
            path = os.path.join(outdir, 'case%d.json' % k)
            pid = os.fork()
            if pid == 0:
                try:
                    os.setpgid(0, 0)
                    child(c, seed, n, path, t0 + budget)
                    os._exit(0)
                except BaseException:
                    traceback.print_exc()
                    os._exit(77)
            live[pid] = (k, c, path, time.time())
        pid, status = os.waitpid(-1, os.WNOHANG)
        if pid and pid in live:
            k, c, path, _ = live.pop(pid)
            results[k] = (c, path, status, False)
        elif not pid:
            for p, (k, c, path, start) in list(live.items()):
                age = time.time() - max(start, os.path.getmtime(path) if os.path.exists(path) else start)
                if age > c.hang:        # one repetition takes far longer than it ever does
                    try: os.killpg(p, signal.SIGKILL)
                    except ProcessLookupError: pass
                    os.waitpid(p, 0)
                    live.pop(p)
                    results[k] = (c, path, -1, True)
            time.sleep(0.02)
    out = dict(cases=[], failures=[], evaluations=0, distinct=0, samples=[], skipped=0)
    seen = set()
    for k in sorted(results):
        c, path, status, hung = results[k]
        lines = []
        if os.path.exists(path):
            with open(path) as f:
                for l in f:
                    try: lines.append(json.loads(l))
                    except ValueError: pass
        started = [l['start'] for l in lines if 'start' in l]
        ran = [l for l in lines if 'evals' in l]
        done = any('done' in l for l in lines)
        ev = sum(l['evals'] for l in ran)
        for l in ran:
            out['failures'] += l['failures']
            seen.update(l['inputs'])
        out['skipped'] += sum(l.get('skipped', 0) for l in lines)
        if not done:
            i = started[-1] if started else 0
            what = 'did not finish within %d s' % c.hang if hung else 'the process died (wait status %d)' % status
            out['failures'].append(dict(case=c.name, index=i, seed=seed, key='hang' if hung else 'crash', input='',
                                        message=what))
        out['evaluations'] += ev
        if ran and ran[0]['sample']: out['samples'].append('%s: %s' % (c.name, ran[0]['sample'][0][:300]))
        out['cases'].append(dict(case=c.name, runs=len(ran), evaluations=ev,
                                 wall_s=round(sum(l['wall'] for l in ran), 2),
                                 failures=sum(len(l['failures']) for l in ran) + (not done)))
    out['distinct'] = len(seen)
    out['wall_s'] = round(time.time() - t0, 2)
    return out
