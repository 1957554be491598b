#!/usr/bin/env python3
"""python3 check.py PROPERTY [quick|thorough]      decides a property on /repo's working tree
python3 check.py --replay FILE                   runs the failing input of a violation again

Exit 0: held.  Exit 1: VIOLATION line printed.  Exit 2: the check itself failed.
"""
import json, os, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
PY, PYVT = '/opt/venv/bin/python', 'python3-vt'


def environment(scratch):
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
             MPLBACKEND='Agg', DIJITSO_CACHE_DIR=os.path.join(scratch, 'dijitso'),
             MPLCONFIGDIR=os.path.join(scratch, 'mpl'), PYTHONPATH='/repo', RUNNER_SCRATCH=scratch,
             RUNNER_LOG=os.path.join(scratch, 'runner.log'), HOME=scratch, TMPDIR=scratch)
    e['PATH'] = '/opt/venv/bin:' + e.get('PATH', '/usr/bin:/bin')
    return e


def prepare(scratch):
    os.mkdir(os.path.join(scratch, 'mpl'))
    src = '/opt/vp/cache/dijitso'
    if os.path.isdir(src): shutil.copytree(src, os.path.join(scratch, 'dijitso'))
    else: os.mkdir(os.path.join(scratch, 'dijitso'))
    os.mkdir(os.path.join(scratch, 'cwd'))


def tail(path, n=3000):
    try:
        with open(path, errors='replace') as f: return f.read()[-n:]
    except OSError: return ''


def load_json(path):
    try:
        with open(path) as f: return json.load(f)
    except (OSError, ValueError): return None


def known(prop):
    out = []
    path = os.path.join(HERE, 'known_findings.json')
    for f in (load_json(path) or {}).get('findings', []):
        if f['property'] == prop: out.append(f)
    return out


def is_known(f, findings):
    for k in findings:
        if f['key'] == k['key'] and (k.get('case') in (None, f['case'])) and k.get('match', '') in f['message']:
            return k


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    scratch = tempfile.mkdtemp(prefix='xiicheck.')
    try:
        prepare(scratch)
        env = environment(scratch)
        has_contracts = os.path.exists(os.path.join(HERE, 'contracts', prop.lower() + '.py'))
        has_runner = os.path.exists(os.path.join(HERE, 'runner', prop.lower() + '.py'))
        budget = 1800. if tier == 'thorough' else 150.
        pout, rout = os.path.join(scratch, 'prover.json'), os.path.join(scratch, 'runner.json')
        procs = {}
        if has_runner:
            procs['runner'] = subprocess.Popen(
                [PY, '-W', 'ignore', os.path.join(HERE, 'runner', 'main.py'), prop, rout, str(seed), tier, str(budget)],
                cwd=os.path.join(scratch, 'cwd'), env=env, stdout=open(os.path.join(scratch, 'r.log'), 'w'),
                stderr=subprocess.STDOUT, start_new_session=True)
        if has_contracts:
            penv = dict(env, PYTHONPATH=HERE)
            procs['prover'] = subprocess.Popen(
                [PYVT, '-m', 'vc.contract', prop, pout, str(budget), tier], cwd=HERE, env=penv,
                stdout=open(os.path.join(scratch, 'p.log'), 'w'), stderr=subprocess.STDOUT, start_new_session=True)
        limit = 7200 if tier == 'thorough' else 780
        for name, p in procs.items():
            try: p.wait(max(1, t0 + limit - time.time()))
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, 9)
                p.wait()
        run, prf = load_json(rout), load_json(pout)
        if has_runner and run is None:
            print('runner failed\n' + tail(os.path.join(scratch, 'r.log')))
            return 2
        if has_contracts and not prf:
            print('prover failed\n' + tail(os.path.join(scratch, 'p.log')))
            if not has_runner: return 2
        return verdict(prop, tier, seed, run or dict(failures=[], cases=[], evaluations=0, distinct=0, samples=[]),
                       prf or [], time.time() - t0, has_contracts)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def verdict(prop, tier, seed, run, prf, wall, has_contracts):
    findings = known(prop)
    fresh, old = [], {}
    for f in run['failures']:
        k = is_known(f, findings)
        if k: old[k['key'], k.get('case')] = k
        else: fresh.append(f)
    refuted = []
    for c in prf:
        if c['status'] == 'refuted':
            f = dict(case='contract ' + c['contract'], key='contract/' + c['contract'], message=json.dumps(c['failed'])[:3000],
                     index=None, seed=seed, input='targets: ' + ', '.join(c['targets']))
            k = is_known(f, findings)
            if k: old[k['key'], k.get('case')] = k
            else: refuted.append(f)
    proved = [c for c in prf if c['status'] == 'proved']
    full = [c for c in proved if not c['bounded']]
    trusted = sorted({a for c in prf for a in c['assumes']})
    level = 'proof' if full else 'exploration'
    functions = sorted({t for c in full for t in c['targets']})
    cov = dict(
        functions_proved=functions,
        functions_proved_up_to_a_bound=sorted({t + ' (' + c['bounded'] + ')' for c in proved if c['bounded']
                                              for t in c['targets']}),
        functions_undecided_by_the_prover=[dict(contract=c['contract'], targets=c['targets'], why=c['note'])
                                           for c in prf if c['status'] == 'undecided'],
        contracts=[dict((k, c[k]) for k in ('contract', 'targets', 'status', 'bounded', 'obligations', 'discharged',
                                            'by_backend', 'solver_s', 'wall_s', 'paths')) for c in prf],
        obligations=sum(c['obligations'] for c in full), discharged=sum(c['discharged'] for c in full),
        obligations_of_bounded_contracts=sum(c['obligations'] for c in proved if c['bounded']),
        solver_s=round(sum(c['solver_s'] for c in prf), 3),
        checker_cmd='cd /verif && python3-vt -m vc.contract %s OUT.json 150 %s' % (prop, tier),
        trusted_base=['the verification-condition generator vc/engine.py, vc/runtime.py, vc/transform.py',
                      'z3 and cvc5'] + trusted,
        evaluations=run['evaluations'], distinct_nontrivial=run['distinct'],
        rule='bounded stand-in and replay: each input is generated by a case in runner/%s.py from VERIF_SEED, run on the '
             'real code and compared with an independent oracle; distinct by its written description' % prop.lower(),
        samples=run['samples'][:12], cases=run['cases'], skipped_for_time=run.get('skipped', 0))
    if level != 'proof':
        for k in ('obligations', 'discharged', 'checker_cmd', 'trusted_base'): cov.pop(k)
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=trusted,
              wall_s=round(wall, 2), violations=len(fresh) + len(refuted))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    for k in old.values(): print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    for c in prf:
        print('contract %-55s %-9s %4d/%-4d obligations %6.2f s %s' % (
            c['contract'], c['status'], c['discharged'], c['obligations'], c['wall_s'], c['note'][:80]))
    for c in run['cases']:
        print('case     %-55s %4d runs, %6d evaluations, %d failures, %.1f s' % (
            c['case'], c['runs'], c['evaluations'], c['failures'], c['wall_s']))
    if not fresh and not refuted: return 0
    rep = os.path.join(HERE, 'replays')
    os.makedirs(rep, exist_ok=True)
    path = os.path.join(rep, prop + '.json')
    with open(path, 'w') as f:
        json.dump(dict(property=prop, tier=tier, failing_inputs=fresh, failed_obligations=refuted), f, indent=1)
    for f in fresh[:5]: print('FAILED %s[%s] %s: %s | input: %s' % (f['case'], f['index'], f['key'], f['message'], f['input'][:300]))
    for f in refuted[:5]: print('FAILED %s: %s' % (f['case'], f['message'][:600]))
    print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if fresh else ' no-failing-input-found'))
    return 1


def replay(path):
    d = load_json(path)
    rc = 0
    for f in d['failing_inputs'][:10]:
        scratch = tempfile.mkdtemp(prefix='xiicheck.')
        try:
            prepare(scratch)
            out = os.path.join(scratch, 'o.json')
            p = subprocess.run([PY, '-W', 'ignore', os.path.join(HERE, 'runner', 'main.py'), d['property'], out,
                                str(f['seed']), d['tier'], '100', f['case'], str(f['index'])],
                               cwd=os.path.join(scratch, 'cwd'), env=environment(scratch))
            r = load_json(out)
            bad = r is None or r['failures']
            for g in (r or {}).get('failures', []): print(g['key'], g['message'], '| input:', g['input'])
            print('%s[%s]: %s' % (f['case'], f['index'], 'FAILS' if bad else 'passes'))
            rc |= bool(bad)
        finally: shutil.rmtree(scratch, ignore_errors=True)
    for f in d['failed_obligations']: print(f['case'], f['message'])
    return rc


if __name__ == '__main__':
    if sys.argv[1] == '--replay': sys.exit(replay(sys.argv[2]))
    sys.exit(check(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')))
