#!/usr/bin/env python3
"""Mutants of the functions under contract: which ones do the contracts still prove?

python3-vt -W ignore tools/mutants.py PROP [--max N] [--func name]      prints the survivors

Every mutant changes one place of a function named in the targets of a contract (operator, comparison, constant, argument order,
left out statement, negated test, ...) in a scratch copy of /repo/xii.  A survivor is an equivalent change or shows what the contract does
not say.  Not a check: a tool for writing contracts."""
import ast, copy, os, shutil, subprocess, sys, tempfile, json, random, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')

DRIVER = r'''
import sys, importlib, time, json
sys.setrecursionlimit(20000)
sys.path.insert(0, %r)
from vc import contract as me
prop, target = sys.argv[1:3]
importlib.import_module('contracts.' + prop.lower())
mine = [c for c in me.REGISTRY[prop] if not c.thorough and target in c.targets]
rest = [c for c in me.REGISTRY[prop] if not c.thorough and target not in c.targets and any(t.split(':')[0] == target.split(':')[0] for t in c.targets)]
t0, LIMIT = time.time(), float(sys.argv[3])
for c in mine + rest:
    if time.time() - t0 > LIMIT: print(json.dumps(["time", "", ""])); break
    r = c.discharge(deadline=time.time() + 60)
    if r['status'] != 'proved':
        print(json.dumps([r['status'], r['contract'], (r['failed'] or [{'name': r['note'][:80]}])[0]['name']]))
        break
else: print(json.dumps(['SURVIVED', '', '']))
''' % HERE


def targets(prop):
    out = subprocess.run(['python3-vt', '-W', 'ignore', '-c', '''
import sys, importlib
sys.path.insert(0, %r)
from vc import contract as me
importlib.import_module('contracts.%s')
print("\\n".join(sorted({t for c in me.REGISTRY[%r] if not c.thorough for t in c.targets})))
''' % (HERE, prop.lower(), prop)], capture_output=True, text=True).stdout.split()
    return out


class Places(ast.NodeVisitor):
    """All (description, change) of a function"""
    def __init__(self): self.out = []

    def add(self, node, what, f): self.out.append((getattr(node, 'lineno', 0), what, node, f))

    def generic_visit(self, node):
        for name, old in ast.iter_fields(node):
            if isinstance(old, list):
                if name == 'body' or name == 'orelse':
                    for k, st in enumerate(old):
                        if isinstance(st, (ast.Assign, ast.AugAssign, ast.Expr, ast.Continue, ast.If, ast.For)) and not (isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant)):
                            self.add(st, 'left out: ' + ast.unparse(st).split('\n')[0][:70], (lambda n, name=name, k=k: getattr(n, name).__setitem__(k, ast.copy_location(ast.Pass(), getattr(n, name)[k]))), )
                            self.out[-1] = (st.lineno, self.out[-1][1], node, self.out[-1][3])
        super().generic_visit(node)

    def visit_BinOp(self, n):
        alt = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.Div: ast.Mult, ast.FloorDiv: ast.Mod, ast.Mod: ast.FloorDiv}.get(type(n.op))
        if alt and not (isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant)):
            self.add(n, '%s for %s in %s' % (alt.__name__, type(n.op).__name__, ast.unparse(n)[:60]), lambda n: setattr(n, 'op', alt()))
        self.add(n, 'left operand of ' + ast.unparse(n)[:60], lambda n: (setattr(n, 'right', ast.Constant(1 if isinstance(n.op, (ast.Mult, ast.Div)) else 0))) if isinstance(n.op, (ast.Mult, ast.Div, ast.Add, ast.Sub)) else setattr(n, 'right', n.left))
        self.generic_visit(n)

    def visit_Compare(self, n):
        alt = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.In: ast.NotIn, ast.NotIn: ast.In,
               ast.Is: ast.IsNot, ast.IsNot: ast.Is}.get(type(n.ops[0]))
        if alt: self.add(n, '%s in %s' % (alt.__name__, ast.unparse(n)[:60]), lambda n: n.ops.__setitem__(0, alt()))
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        self.add(n, 'and/or in ' + ast.unparse(n)[:60], lambda n: setattr(n, 'op', ast.Or() if isinstance(n.op, ast.And) else ast.And()))
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, (ast.Not, ast.USub)): self.add(n, 'no %s in %s' % (type(n.op).__name__, ast.unparse(n)[:50]), lambda n: (setattr(n, 'op', ast.UAdd()) if isinstance(n.op, ast.USub) else setattr(n, 'operand', ast.UnaryOp(ast.Not(), n.operand))))
        self.generic_visit(n)

    def visit_If(self, n):
        self.add(n, 'if not ' + ast.unparse(n.test)[:60], lambda n: setattr(n, 'test', ast.UnaryOp(ast.Not(), n.test)))
        self.generic_visit(n)
    visit_IfExp = visit_If

    def visit_Constant(self, n):
        if isinstance(n.value, bool): self.add(n, 'not %r' % n.value, lambda n: setattr(n, 'value', not n.value))
        elif isinstance(n.value, (int, float)): self.add(n, '%r + 1' % n.value, lambda n: setattr(n, 'value', n.value + 1))
        elif isinstance(n.value, str) and n.value in ('+', '-'): self.add(n, 'other sign', lambda n: setattr(n, 'value', '-' if n.value == '+' else '+'))

    def visit_Call(self, n):
        if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
            self.add(n, 'arguments swapped: ' + ast.unparse(n)[:60], lambda n: n.args.__setitem__(slice(0, 2), n.args[1::-1]))
        if len(n.keywords): self.add(n, 'no last keyword: ' + ast.unparse(n)[:60], lambda n: n.keywords.pop())
        self.generic_visit(n)

    def visit_Subscript(self, n):
        if isinstance(n.slice, ast.Name): self.add(n, 'index + 1: ' + ast.unparse(n)[:60], lambda n: setattr(n, 'slice', ast.BinOp(n.slice, ast.Add(), ast.Constant(1))))
        self.generic_visit(n)

    def visit_Raise(self, n): pass
    def visit_Assert(self, n):
        self.add(n, 'left out: ' + ast.unparse(n)[:60], lambda n: setattr(n, 'test', ast.Constant(True)))
        n.msg = None
        self.generic_visit(n)
    def visit_JoinedStr(self, n): pass


def find(tree, func):
    node = tree
    for part in func.split('.'):
        node = next((x for x in node.body if isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x.name == part), None)
        if node is None: return None
    return node


def main():
    prop = sys.argv[1]
    opt = dict(zip(sys.argv[2::2], sys.argv[3::2]))
    top, only = int(opt.get('--max', 40)), opt.get('--func')
    rng = random.Random(int(opt.get('--seed', 1)))
    work = tempfile.mkdtemp(prefix='mutants')
    jobs = []
    for t in targets(prop):
        mod, func = t.split(':')
        if only and only != func: continue
        path = mod.replace('.', '/') + '.py'
        src = open(os.path.join(REPO, path)).read()
        fn = find(ast.parse(src), func)
        if fn is None: print('?', t); continue
        p = Places()
        for st in (fn.body if isinstance(fn, ast.FunctionDef) else [fn]): pass
        p.visit(fn)
        n = len(p.out)
        ks = list(range(n))
        rng.shuffle(ks)
        for k in sorted(ks[:top]): jobs.append((t, path, src, func, k))

    def one(job):
        t, path, src, func, k = job
        tree = ast.parse(src)
        p = Places()
        p.visit(find(tree, func))
        line, what, node, change = p.out[k]
        change(node)
        d = tempfile.mkdtemp(dir=work)
        try:
            shutil.copytree(os.path.join(REPO, 'xii'), os.path.join(d, 'xii'), ignore=shutil.ignore_patterns('__pycache__'))
            with open(os.path.join(d, path), 'w') as f: f.write(ast.unparse(ast.fix_missing_locations(tree)))
            r = subprocess.run(['python3-vt', '-W', 'ignore', '-c', DRIVER, prop, t, opt.get('--time', '150')], env=dict(os.environ, VERIF_REPO=d), capture_output=True, text=True, timeout=900, cwd=HERE)
            last = r.stdout.strip().splitlines()[-1:]
            res = json.loads(last[0]) if last else ['crash', '', r.stderr[-200:]]
        except subprocess.TimeoutExpired: res = ['timeout', '', '']
        finally: shutil.rmtree(d)
        return t, line, what, res
    count = {}
    with ThreadPoolExecutor(7) as pool:
        for t, line, what, res in pool.map(one, jobs):
            count[res[0]] = count.get(res[0], 0) + 1
            if res[0] in ('SURVIVED', 'crash', 'time'): print('%s %s:%d  %s %s' % (res[0], t, line, what, res[2]), flush=True)
    print(prop, len(jobs), 'mutants:', count)
    shutil.rmtree(work)


main()
