"""python runner/main.py PROPERTY OUT.json SEED TIER BUDGET_S [CASE INDEX]"""
import importlib, json, os, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def main():
    prop, out, seed, tier, budget = sys.argv[1:6]
    from runner import base
    import dolfin
    dolfin.set_log_level(50)
    import xii
    assert os.path.realpath(xii.__file__).startswith(os.environ.get('RUNNER_REPO', '/repo') + '/'), xii.__file__
    importlib.import_module('runner.' + prop.lower())
    if len(sys.argv) > 7:
        c = [c for c in base.CASES[prop] if c.name == sys.argv[6]][0]
        t = base.run_one(c, int(sys.argv[7]), int(seed))
        res = dict(failures=t.failures, evaluations=t.evals, inputs=t.inputs)
    else:
        only = sys.argv[6:7] or None
        res = base.run(prop, int(seed), tier, float(budget), os.environ['RUNNER_SCRATCH'], only=only)
    with open(out, 'w') as f: json.dump(res, f, indent=1)
    sys.stdout.flush()
    os._exit(0)


if __name__ == '__main__': main()
