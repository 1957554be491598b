"""Writes CONTRACTS.md from the registry of contracts: python3-vt -W ignore tools/mkcontracts.py"""
import importlib, os, sys, json
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from vc import contract as K
out = ['# Contracts', '', 'Written by tools/mkcontracts.py from contracts/*.py. "all" under inputs: no bound (sizes, entries, lengths arbitrary); '
       'otherwise the bound, and the contract is counted as bounded, not as proved in general. (t): thorough runs only.', '']
for l in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(l)
    out += ['## %s %s' % (p['id'], p['title']), '']
    try: importlib.import_module('contracts.' + p['id'].lower())
    except ModuleNotFoundError:
        out += ['No contract: runner/%s.py is the bounded stand-in.' % p['id'].lower(), '']
        continue
    cs = K.REGISTRY[p['id']]
    out += ['| contract | functions | inputs |', '|---|---|---|']
    for c in cs:
        out.append('| %s%s | %s | %s |' % (c.name, ' (t)' if c.thorough else '', ', '.join(t.replace('xii.', '', 1) for t in c.targets), c.bounded or 'all'))
    out += ['', 'Assumed: ' + '; '.join(sorted({a for c in cs for a in c.assumes})) + '.', '']
open(os.path.join(HERE, 'CONTRACTS.md'), 'w').write('\n'.join(out))
