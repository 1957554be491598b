"""Nothing is built; says whether the tools the checks need are there and runs the self test of the prover"""
import os, subprocess, sys
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
ok = True
for cmd in (['python3-vt', '-c', 'import z3, cvc5, numpy, networkx'], ['/opt/venv/bin/python', '-c', 'import dolfin, block, petsc4py'],
            ['python3-vt', '-m', 'vc.selftest']):
    r = subprocess.run(cmd, capture_output=True, text=True)
    print(' '.join(cmd), 'ok' if r.returncode == 0 else (r.stdout + r.stderr)[-1500:])
    ok = ok and r.returncode == 0
sys.exit(0 if ok else 1)
