"""Contracts and the driver that discharges them."""
import json, os, sys, time, traceback
import z3
from .engine import Engine, Unsupported, CURRENT, PathEnd, Infeasible
from . import runtime

REGISTRY = {}          # property -> [Contract]

# exceptions of the code under contract that count as an outcome; others mean the model is too small
OUTCOMES = (AssertionError, ValueError, KeyError, IndexError, ZeroDivisionError, StopIteration)


class Contract(object):
    def __init__(self, prop, targets, fn, bounded=None, raises=(), assumes=(), min_obligations=1, name=None, thorough=False,
                 max_paths=3000, timeout_ms=4000):
        self.prop, self.targets, self.fn = prop, targets, fn
        self.bounded = bounded          # None: all inputs; else text of the bound
        self.raises, self.assumes = tuple(raises), tuple(assumes)
        self.min_obligations = min_obligations
        self.name = name or fn.__name__
        self.thorough = thorough
        self.max_paths, self.timeout_ms = max_paths, timeout_ms

    def discharge(self, deadline=None):
        e = Engine(timeout_ms=self.timeout_ms, max_paths=self.max_paths, deadline=deadline)
        t0 = time.time()
        status, note = None, ''
        returned = 0
        try:
            paths = e.explore(lambda: self.fn(e))
            for p in paths:
                if p.kind == 'raise':
                    x = p.value
                    txt = '%s: %s' % (type(x).__name__, str(x)[:200])
                    tb = traceback.extract_tb(x.__traceback__)
                    where = next(('%s:%d' % (f.filename, f.lineno) for f in reversed(tb)
                                  if f.filename.startswith(runtime.REPO)), '')
                    if isinstance(x, self.raises): continue
                    if not isinstance(x, OUTCOMES): raise Unsupported('%s at %s' % (txt, where))
                    tainted = any('havoc_' in str(c) or 'S!' in str(c) for c in p.pc)
                    quant = any(z3.is_quantifier(q) for c in p.pc for q in _subterms(c))
                    from .engine import Obligation
                    st = 'unknown' if (tainted or quant) else 'refuted'
                    e.obligations.append(Obligation('no exception', st, 'z3', 0.0, txt + ' at ' + where))
                elif p.kind == 'return':
                    returned += 1
        except Unsupported as x:
            status, note = 'undecided', 'unsupported: %s' % x
        except RecursionError:
            status, note = 'undecided', 'recursion'
        except (z3.Z3Exception, MemoryError) as x:
            status, note = 'undecided', 'solver: %s' % x
        except Exception as x:
            status, note = 'undecided', 'engine: %s: %s' % (type(x).__name__, x)
            if os.environ.get('VC_DEBUG'): traceback.print_exc()
        finally:
            del CURRENT[:]
        obs = e.obligations
        bad = [o for o in obs if o.status == 'refuted']
        unk = [o for o in obs if o.status == 'unknown']
        if status is None:
            if bad: status = 'refuted'
            elif unk: status, note = 'undecided', 'solver gave no answer on %d obligation(s): %s' % (
                len(unk), unk[0].name)
            elif len(obs) < self.min_obligations or not returned:
                status, note = 'undecided', 'vacuous: %d obligations, %d returning paths' % (len(obs), returned)
            else: status = 'proved'
        by = {}
        for o in obs:
            if o.status == 'discharged': by[o.backend] = by.get(o.backend, 0) + 1
        return dict(contract=self.name, targets=list(self.targets), status=status, note=note, bounded=self.bounded,
                    obligations=len(obs), discharged=sum(o.status == 'discharged' for o in obs), by_backend=by,
                    solver_s=round(e.stats['solver_s'], 3), wall_s=round(time.time() - t0, 3),
                    paths=e.stats['paths'], returning_paths=returned,
                    failed=[o.as_dict() for o in (bad + unk)[:5]], assumes=list(self.assumes))


def _subterms(c):
    todo, seen = [c], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        yield x
        todo.extend(x.children())


def contract(prop, *targets, **kw):
    def deco(fn):
        REGISTRY.setdefault(prop, []).append(Contract(prop, targets, fn, **kw))
        return fn
    return deco


def undecided(c, note):
    return dict(contract=c.name, targets=list(c.targets), status='undecided', note=note, bounded=c.bounded, obligations=0, discharged=0,
                by_backend={}, solver_s=0, wall_s=0, paths=0, returning_paths=0, failed=[], assumes=list(c.assumes))


def _one(args):
    prop, k, end, each = args
    c = REGISTRY[prop][k]
    left = end - time.time()
    return k, undecided(c, 'time budget') if left < 1 else c.discharge(deadline=time.time() + min(left, each))


def main(prop, out, budget, tier, jobs=None):
    """Contracts are independent: each is discharged in a process of its own"""
    import importlib, multiprocessing as mp
    importlib.import_module('contracts.' + prop.lower())
    todo = [k for k, c in enumerate(REGISTRY.get(prop, [])) if not c.thorough or tier == 'thorough']
    end = time.time() + budget
    args = [(prop, k, end, 200 if tier == 'quick' else 600) for k in todo]
    res = {}
    jobs = jobs or int(os.environ.get('VC_JOBS', 0)) or min(7, os.cpu_count() or 1)

    def write():
        with open(out, 'w') as f: json.dump([res[k] for k in sorted(res)], f, indent=1)
    if jobs == 1 or len(args) < 2:
        for x in args:
            k, res[k] = _one(x)
            write()
    else:
        with mp.get_context('fork').Pool(min(jobs, len(args)), maxtasksperchild=1) as pool:
            pend = [(x[1], pool.apply_async(_one, (x, ))) for x in args]
            for k, r in pend:
                try: res[k] = r.get(timeout=max(1, end + 30 - time.time()))[1]
                except Exception as x: res[k] = undecided(REGISTRY[prop][k], 'no answer: %s' % type(x).__name__)
                write()
            pool.terminate()
    write()
    return [res[k] for k in sorted(res)]


if __name__ == '__main__':
    sys.setrecursionlimit(20000)
    prop, out, budget, tier = sys.argv[1:5]
    from vc import contract as me          # one registry
    for r in me.main(prop, out, float(budget), tier):
        print('%-60s %-10s %3d/%3d %6.2fs %s' % (r['contract'], r['status'], r['discharged'], r['obligations'],
                                              r['wall_s'], r['note'][:100]))
        for f in r['failed']: print('      ', f['name'], f['status'], f['detail'][:400])
