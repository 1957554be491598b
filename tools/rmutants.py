#!/usr/bin/env python3
"""Mutants of the files of a property: which ones does the concrete part of its check miss?

python3 tools/rmutants.py PROP FILE[,FILE...] [--max N] [--func name] [--seed S] [--names f,g]       prints the survivors

A companion of mutants.py (which asks the contracts).  Not a check: a tool for broadening runner/."""
import ast, json, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


def functions(tree, pre=''):
    """Outermost functions and methods"""
    for node in getattr(tree, 'body', []):
        if isinstance(node, ast.FunctionDef): yield pre + node.name
        elif isinstance(node, ast.ClassDef): yield from functions(node, pre + node.name + '.')


class Places(ast.NodeVisitor):
    """All (description, change) of a function"""
    def __init__(self): self.out = []

    def add(self, node, what, f): self.out.append((getattr(node, 'lineno', 0), what, node, f))

    def generic_visit(self, node):
        for name, old in ast.iter_fields(node):
            if isinstance(old, list):
                if name == 'body' or name == 'orelse':
                    for k, st in enumerate(old):
                        if isinstance(st, (ast.Assign, ast.AugAssign, ast.Expr, ast.Continue, ast.If, ast.For)) and not (isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant)):
                            self.add(st, 'left out: ' + ast.unparse(st).split('\n')[0][:70], (lambda n, name=name, k=k: getattr(n, name).__setitem__(k, ast.copy_location(ast.Pass(), getattr(n, name)[k]))), )
                            self.out[-1] = (st.lineno, self.out[-1][1], node, self.out[-1][3])
        super().generic_visit(node)

    def visit_BinOp(self, n):
        alt = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.Div: ast.Mult, ast.FloorDiv: ast.Mod, ast.Mod: ast.FloorDiv}.get(type(n.op))
        if alt and not (isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant)):
            self.add(n, '%s for %s in %s' % (alt.__name__, type(n.op).__name__, ast.unparse(n)[:60]), lambda n: setattr(n, 'op', alt()))
        self.add(n, 'left operand of ' + ast.unparse(n)[:60], lambda n: (setattr(n, 'right', ast.Constant(1 if isinstance(n.op, (ast.Mult, ast.Div)) else 0))) if isinstance(n.op, (ast.Mult, ast.Div, ast.Add, ast.Sub)) else setattr(n, 'right', n.left))
        self.generic_visit(n)

    def visit_Compare(self, n):
        alt = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.In: ast.NotIn, ast.NotIn: ast.In,
               ast.Is: ast.IsNot, ast.IsNot: ast.Is}.get(type(n.ops[0]))
        if alt: self.add(n, '%s in %s' % (alt.__name__, ast.unparse(n)[:60]), lambda n: n.ops.__setitem__(0, alt()))
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        self.add(n, 'and/or in ' + ast.unparse(n)[:60], lambda n: setattr(n, 'op', ast.Or() if isinstance(n.op, ast.And) else ast.And()))
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, (ast.Not, ast.USub)): self.add(n, 'no %s in %s' % (type(n.op).__name__, ast.unparse(n)[:50]), lambda n: (setattr(n, 'op', ast.UAdd()) if isinstance(n.op, ast.USub) else setattr(n, 'operand', ast.UnaryOp(ast.Not(), n.operand))))
        self.generic_visit(n)

    def visit_If(self, n):
        self.add(n, 'if not ' + ast.unparse(n.test)[:60], lambda n: setattr(n, 'test', ast.UnaryOp(ast.Not(), n.test)))
        self.generic_visit(n)
    visit_IfExp = visit_If

    def visit_Constant(self, n):
        if isinstance(n.value, bool): self.add(n, 'not %r' % n.value, lambda n: setattr(n, 'value', not n.value))
        elif isinstance(n.value, (int, float)): self.add(n, '%r + 1' % n.value, lambda n: setattr(n, 'value', n.value + 1))
        elif isinstance(n.value, str) and n.value in ('+', '-'): self.add(n, 'other sign', lambda n: setattr(n, 'value', '-' if n.value == '+' else '+'))

    def visit_Call(self, n):
        if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
            self.add(n, 'arguments swapped: ' + ast.unparse(n)[:60], lambda n: n.args.__setitem__(slice(0, 2), n.args[1::-1]))
        if len(n.keywords): self.add(n, 'no last keyword: ' + ast.unparse(n)[:60], lambda n: n.keywords.pop())
        self.generic_visit(n)

    def visit_Subscript(self, n):
        if isinstance(n.slice, ast.Name): self.add(n, 'index + 1: ' + ast.unparse(n)[:60], lambda n: setattr(n, 'slice', ast.BinOp(n.slice, ast.Add(), ast.Constant(1))))
        self.generic_visit(n)

    def visit_Raise(self, n): pass
    def visit_Assert(self, n):
        self.add(n, 'left out: ' + ast.unparse(n)[:60], lambda n: setattr(n, 'test', ast.Constant(True)))
        n.msg = None
        self.generic_visit(n)
    def visit_JoinedStr(self, n): pass


def find(tree, func):
    node = tree
    for part in func.split('.'):
        node = next((x for x in node.body if isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x.name == part), None)
        if node is None: return None
    return node


def main():
    prop, files = sys.argv[1], sys.argv[2].split(',')
    opt = dict(zip(sys.argv[3::2], sys.argv[4::2]))
    top, only = int(opt.get('--max', 25)), (opt['--func'].split(',') if '--func' in opt else None)
    rng = random.Random(int(opt.get('--seed', 1)))
    work = tempfile.mkdtemp(prefix='rmutants')
    jobs = []
    for path in files:
        src = open(os.path.join(REPO, path)).read()
        for func in functions(ast.parse(src)):
            if only and func not in only: continue
            p = Places()
            p.visit(find(ast.parse(src), func))
            ks = list(range(len(p.out)))
            rng.shuffle(ks)
            for k in sorted(ks[:top]): jobs.append((path, src, func, k))
    print(prop, len(jobs), 'mutants', flush=True)

    def one(job):
        path, src, func, k = job
        tree = ast.parse(src)
        p = Places()
        p.visit(find(tree, func))
        line, what, node, change = p.out[k]
        change(node)
        d = tempfile.mkdtemp(dir=work)
        try:
            shutil.copytree(os.path.join(REPO, 'xii'), os.path.join(d, 'xii'), ignore=shutil.ignore_patterns('__pycache__'))
            with open(os.path.join(d, path), 'w') as f: f.write(ast.unparse(ast.fix_missing_locations(tree)))
            os.mkdir(os.path.join(d, 's'))
            env = dict(os.environ, RUNNER_REPO=d, DIJITSO_CACHE_DIR='/tmp/dj', RUNNER_SCRATCH=os.path.join(d, 's'), RUNNER_LOG=os.path.join(d, 's/log'), PYTHONPATH=d, PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1',
                       PYTHONHASHSEED='0', PATH='/opt/venv/bin:' + os.environ['PATH'])
            out = os.path.join(d, 's/out.json')
            subprocess.run(['/opt/venv/bin/python', '-W', 'ignore', os.path.join(HERE, 'runner/main.py'), prop, out, opt.get('--rseed', '1'), 'quick', '150'], env=env, cwd=d, capture_output=True, timeout=float(opt.get('--time', 70)))
            r = json.load(open(out))
            res = 'caught' if r['failures'] else 'SURVIVED'
        except subprocess.TimeoutExpired: res = 'timeout'
        except (OSError, ValueError) as ex: res = 'crash'
        finally: shutil.rmtree(d)
        return path, func, line, what, res
    count = {}
    with ThreadPoolExecutor(8) as pool:
        for path, func, line, what, res in pool.map(one, jobs):
            count[res] = count.get(res, 0) + 1
            if res != 'caught': print('%s %s:%d %s  %s' % (res, os.path.basename(path), line, func, what), flush=True)
    print(prop, len(jobs), 'mutants:', count)
    shutil.rmtree(work)


main()
