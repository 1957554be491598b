"""Writes MANIFEST.json from properties.jsonl and the notes below"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
NOTES = json.load(open(os.path.join(HERE, 'tools', 'levels.json')))
checks, na = [], []
for p in props:
    k = p['id']
    con = os.path.exists(os.path.join(HERE, 'contracts', k.lower() + '.py'))
    run = os.path.exists(os.path.join(HERE, 'runner', k.lower() + '.py'))
    if not (con or run):
        na.append(dict(property=k, reason=NOTES.get('na', {}).get(k, 'no contract built yet')))
        continue
    n = NOTES['checks'].get(k, {})
    level = n.get('level', 'proof' if con else 'exploration')
    tech = ('deductive verification: contracts on the real functions, verification conditions generated from /repo '
            'source and discharged by z3/cvc5; contracts evaluated on the real code as bounded stand-in' if con else
            'contracts evaluated on the real code for generated inputs (bounded stand-in, not proved)')
    checks.append(dict(property=k, quick_cmd='python3 check.py %s quick' % k, thorough_cmd='python3 check.py %s thorough' % k,
                       evidence_file='evidence/%s.json' % k, technique=n.get('technique', tech), level=level,
                       level_note=n.get('note', 'see DESIGN.md')))
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na,
         notes='All checks: python3 check.py ID [quick|thorough]; replay: python3 check.py --replay FILE. '
               'No hooks are needed in /repo.')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
