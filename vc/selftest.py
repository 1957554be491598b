"""Self test of the engine: true specifications of small functions are proved, false ones never are.

Run:  python3-vt -m vc.selftest      (part of setup; prints what went wrong and exits 1)
"""
import os, sys, time, tempfile, shutil
import z3

SPACE = '''
import numpy as np

def unit(n): return n/np.linalg.norm(n)

def turn(v, n, t):
    n = unit(n)
    return v*np.cos(t) + np.cross(n, v)*np.sin(t) + n*np.dot(n, v)*(1 - np.cos(t))

def skew(v, n, t):
    n = unit(n)
    return v*np.cos(t) + np.cross(n, v)*np.sin(t) + n*np.dot(n, v)*(1 + np.cos(t))

def inplane(v, n):
    if abs(np.dot(v, unit(n))) < 1E-13: return 1
    return 2

def roots(v):
    return np.linalg.norm(2*v), 2*np.linalg.norm(v)

def roots2(v):
    return np.linalg.norm(v - 1), np.linalg.norm(v) - 1
'''

SRC = '''
def joined(xs):
    from itertools import chain
    return list(chain(*[[x] if x > 0 else [] for x in xs]))

def joined2(xs, m):
    from itertools import chain
    return list(chain(*[[x + j for j in range(m)] for x in xs]))

def running(xs):
    acc, out = 0, []
    for x in xs:
        acc = acc + x
        out.append(acc)
    return out

def offsets(xs):
    out = [0]
    for x in xs: out.append(out[-1] + x)
    return out

def fibish(xs):
    out = [1]
    for x in xs: out.append(out[-1]*2 + x)
    return out

def peel(xs, ys):
    z = zip(xs, ys)
    a, b = next(z)
    acc = 0
    for x, y in z: acc = acc + 1
    return a, acc

def drained(xs):
    z = map(lambda x: 2*x, xs)
    a, b = list(z), list(z)
    return len(a), len(b)

def scratch(xs, n, m):
    tmp = [0]*m
    out = []
    for x in xs:
        for j in range(m): tmp[j] = x + j
        out.append(tmp[0])
    return out

def scratch2(xs, n, m):
    tmp = [0]*m
    out = []
    for x in xs:
        out.append(tmp[0])
        for j in range(m): tmp[j] = x + j
    return out

def scratch3(xs, n, m):
    tmp = [0]*m
    for x in xs:
        for j in range(m): tmp[j] = x + j
    return tmp

def state(xs, n, m, box):
    out = []
    for x in xs:
        box.v = x
        for j in range(m): box.w = j
        out.append(box.v)
    return out

def state2(xs, n, m, box):
    out = []
    for x in xs:
        box.v = x
        for j in range(m): box.v = j
        out.append(box.v)
    return out

def state3(xs, n, m, box):
    box.v = 1
    out = []
    for x in xs:
        out.append(box.v)
        for j in range(m): box.v = j
    return out

def state4(xs, n, m, box):
    box.v = 1
    for x in xs: box.v = x
    return [box.v, 0]

def state5(xs, n, m, box):
    box.v = 1
    for x in xs:
        for j in range(m): box.v = x
    return [box.v, 0]

def readfirst(xs):
    out = [0]
    for x in xs: out.append(len(out))
    return out

def positive(xs):
    out = []
    for x in xs:
        if x > 0: out.append(x)
    return out

def positive2(xs): return [x for x in xs if x > 0]

def twice(xs):
    out = []
    for x in xs:
        out.append(x)
        out.append(-x)
    return out

def either(xs):
    out = []
    for x in xs:
        if x > 0: out.append(x)
        else: out.extend([x, x])
    return out

def fill(a, n):
    for i in range(n): a[i] = a[i] + 1
    return a

def shifted(a, n):
    for i in range(n - 1): a[i + 1] = a[i + 1] + 1
    return a

def collide(a, n):
    for i in range(n): a[0*i] = a[0*i] + 1
    return a

def shiftfill(a, n):
    for i in range(n): a[i] = a[i - 1]
    return a

def flags(xs):
    seen, out = False, []
    for x in xs:
        out.append(1 if seen else 0)
        if x > 0: seen = True
    return out

def allpos(xs, ys): return all(x > 0 for x in xs + ys)

def last(xs):
    prev = 0
    for x in xs: prev = x
    return prev

def doubled(xs):
    acc = 1
    for x in xs: acc = acc*2
    return acc

def brk(xs):
    for i, x in enumerate(xs):
        if x > 0: break
    else: return -1
    return i

def flat(xss): return [2*y for y in [x for xs in xss for x in xs]]

def scatter(a, where):
    for i, w in enumerate(where): a[w] = i
    return a

def nested(xs, m):
    out = []
    for x in xs:
        for j in range(m): out.append(x)
    return out
'''


def main():
    from . import runtime as R
    from .contract import Contract
    from .engine import Int, SymSeq, SNum, VList, eng, zz, seq
    d = tempfile.mkdtemp()
    R.REPO = d
    with open(os.path.join(d, 'prog.py'), 'w') as f: f.write(SRC)
    R.CODE.clear()
    bad = []

    def xs(name='x', lo=0):
        n = Int('n', lo)
        f = z3.Function(eng().fresh_name(name), z3.IntSort(), z3.IntSort())
        return VList(SymSeq(n, lambda k: SNum(f(zz(k))))), n, f

    def run(name, fn, want):
        t0 = time.time()
        s = Contract('T', (), fn, name=name).discharge()
        if time.time() - t0 > 10: print(name, time.time() - t0, flush=True)
        if s['status'] != want and not (want == 'not proved' and s['status'] != 'proved'):
            bad.append((name, want, s['status'], s['note'], s['failed'][:1]))

    def prog(): return R.World().load('prog')

    def spec(fname, check, lo=0):
        def fn(e):
            x, n, f = xs(lo=lo)
            check(e, seq(getattr(prog(), fname)(x)), n, f)
        return fn

    def running_sum(e, r, n, f):
        S = z3.Function('Sspec', z3.IntSort(), z3.IntSort())
        k = z3.Int('k')
        e.assume(S(0) == 0)
        e.assume(z3.ForAll([k], z3.Implies(k >= 0, S(k + 1) == S(k) + f(k)), patterns=[S(k + 1)]))
        e.prove(zz(r.n) == n.e, 'length')
        e.prove(zz(r.get(0)) == f(0), 'first')
        e.prove(zz(r.get(1)) == f(0) + f(1), 'second')
    run('running', spec('running', running_sum, 2), 'proved')
    run('running wrong', spec('running', lambda e, r, n, f: e.prove(zz(r.get(0)) == zz(r.get(1)), 'x'), 2), 'not proved')
    run('offsets', spec('offsets', lambda e, r, n, f: (e.prove(zz(r.n) == n.e + 1, 'n'), e.prove(zz(r.get(2)) == f(0) + f(1), 'x'),
                                                   e.prove(zz(r.get(0)) == 0, '0')), 2), 'proved')
    run('offsets wrong', spec('offsets', lambda e, r, n, f: e.prove(zz(r.get(2)) == f(1), 'x'), 2), 'not proved')
    run('fibish wrong', spec('fibish', lambda e, r, n, f: e.prove(zz(r.get(2)) == 2 + f(1), 'x'), 2), 'not proved')
    run('readfirst wrong', spec('readfirst', lambda e, r, n, f: e.prove(zz(r.get(2)) == 1, 'x'), 2), 'not proved')

    def some_positive(e, r, n, f):
        k = Int('k', 0)
        e.assume(k.e < zz(r.n))
        e.prove(zz(r.get(k)) > 0, 'all positive')
    run('positive', spec('positive', some_positive), 'proved')
    run('positive wrong', spec('positive', lambda e, r, n, f: e.prove(zz(r.n) == n.e, 'n')), 'not proved')
    run('positive2', spec('positive2', some_positive), 'proved')
    run('twice', spec('twice', lambda e, r, n, f: e.prove(zz(r.get(3)) == -f(1), 'x'), 2), 'proved')
    run('twice wrong', spec('twice', lambda e, r, n, f: e.prove(zz(r.get(3)) == f(1), 'x'), 2), 'not proved')
    run('either', spec('either', lambda e, r, n, f: e.prove(z3.Implies(f(0) <= 0, z3.And(zz(r.get(0)) == f(0), zz(r.get(1)) == f(0))), 'x'), 2), 'proved')
    run('either wrong', spec('either', lambda e, r, n, f: e.prove(zz(r.get(1)) == f(1), 'x'), 2), 'not proved')

    def filled(fname, check):
        def fn(e):
            x, n, f = xs(lo=2)
            check(e, seq(getattr(prog(), fname)(x, n)), n, f)
        return fn
    run('fill', filled('fill', lambda e, r, n, f: e.prove(zz(r.get(1)) == f(1) + 1, 'x')), 'proved')
    run('fill wrong', filled('fill', lambda e, r, n, f: e.prove(zz(r.get(1)) == f(1), 'x')), 'not proved')
    run('shiftfill wrong', filled('shiftfill', lambda e, r, n, f: e.prove(zz(r.get(1)) == f(0), 'x')), 'not proved')
    run('flags wrong', spec('flags', lambda e, r, n, f: e.prove(zz(r.get(1)) == 0, 'x'), 2), 'not proved')
    run('flags wrong 2', spec('flags', lambda e, r, n, f: e.prove(zz(r.get(1)) == zz(r.get(0)), 'x'), 2), 'not proved')
    run('last wrong', spec('last', lambda e, r, n, f: None) if False else (lambda e: (lambda t: e.prove(zz(prog().last(t[0])) == t[2](0), 'x'))(xs(lo=1))), 'not proved')
    run('doubled wrong', (lambda e: (lambda t: e.prove(zz(prog().doubled(t[0])) == 2, 'x'))(xs(lo=1))), 'not proved')

    def allpos(e):
        x, n, f = xs(lo=1)
        y, m, g = xs('y', lo=1)
        r = prog().allpos(x, y)
        if r:
            e.prove(z3.And(f(0) > 0, g(0) > 0), 'all')
        else:
            k, j = z3.Int('kk'), z3.Int('jj')
            e.prove(z3.Not(z3.And(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n.e), f(k) > 0)), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < m.e), g(j) > 0)))), 'not all')
    run('allpos', allpos, 'proved')

    def allpos_wrong(e):
        x, n, f = xs(lo=1)
        y, m, g = xs('y', lo=1)
        if prog().allpos(x, y): e.prove(g(m.e) > 0, 'beyond')
    run('allpos wrong', allpos_wrong, 'not proved')
    run('brk', lambda e: (lambda t: (lambda r: e.prove(z3.Implies(zz(r) >= 0, t[2](zz(r)) > 0), 'x'))(prog().brk(t[0])))(xs(lo=1)), 'proved')
    run('brk wrong', lambda e: (lambda t: (lambda r: e.prove(zz(r) <= 0, 'x'))(prog().brk(t[0])))(xs(lo=1)), 'not proved')
    def nested_at(check):
        def fn(e):
            x, n, f = xs(lo=1)
            m = Int('m', 1)
            r = seq(prog().nested(x, m))
            i, j = Int('i', 0), Int('j', 0)
            e.assume(z3.And(i.e < n.e, j.e < m.e))
            check(e, r, n, m, f, i, j)
        return fn
    run('nested first', nested_at(lambda e, r, n, m, f, i, j: e.prove(zz(r.get(0)) == f(0), 'x')), 'proved')
    run('nested first wrong', nested_at(lambda e, r, n, m, f, i, j: e.prove(zz(r.get(m)) == f(0), 'x')), 'not proved')
    run('nested long', nested_at(lambda e, r, n, m, f, i, j: e.prove(zz(r.n) >= n.e, 'x')), 'proved')
    run('nested too long', nested_at(lambda e, r, n, m, f, i, j: e.prove(zz(r.n) > n.e, 'x')), 'not proved')
    run('nested wrong', lambda e: (lambda t: (lambda m: (lambda r: e.prove(zz(r.n) == t[1].e, 'x'))(seq(prog().nested(t[0], m))))(Int('m', 1)))(xs(lo=1)), 'not proved')

    def flat(check):
        def fn(e):
            n = Int('n', 2)
            L, F = z3.Function('len', z3.IntSort(), z3.IntSort()), z3.Function('el', z3.IntSort(), z3.IntSort(), z3.IntSort())
            k = z3.Int('kk')
            e.assume(z3.ForAll([k], L(k) >= 1))
            r = seq(prog().flat(VList(SymSeq(n, lambda i: VList(SymSeq(SNum(L(zz(i))), lambda j: SNum(F(zz(i), zz(j)))))))))
            check(e, r, L, F)
        return fn
    run('flat', flat(lambda e, r, L, F: e.prove(zz(r.get(0)) == 2*F(0, 0), 'first')), 'proved')
    run('flat wrong', flat(lambda e, r, L, F: e.prove(zz(r.get(1)) == 2*F(0, 1), 'x')), 'not proved')
    run('flat wrong 2', flat(lambda e, r, L, F: e.prove(zz(r.get(1)) == zz(r.get(0)), 'x')), 'not proved')

    def stores(name, check):
        def fn(e):
            x, n, f = xs(lo=3)
            check(e, seq(getattr(prog(), name)(x, n)), n, f)
        return fn
    run('shifted', stores('shifted', lambda e, r, n, f: e.prove(z3.And(zz(r.get(0)) == f(0), zz(r.get(2)) == f(2) + 1), 'x')), 'proved')
    run('shifted wrong', stores('shifted', lambda e, r, n, f: e.prove(zz(r.get(0)) == f(0) + 1, 'x')), 'not proved')
    run('collide wrong', stores('collide', lambda e, r, n, f: e.prove(zz(r.get(0)) == f(0) + 1, 'x')), 'not proved')
    run('shiftfill wrong', stores('shiftfill', lambda e, r, n, f: e.prove(zz(r.get(2)) == f(1), 'x')), 'not proved')

    def peel(check):
        def fn(e):
            x, n, f = xs(lo=1)
            a, acc = prog().peel(x, x)
            check(e, zz(a), zz(acc), n, f)
        return fn
    run('peel', peel(lambda e, a, acc, n, f: e.prove(z3.And(a == f(0), acc == n.e - 1), 'x')), 'proved')
    run('peel wrong', peel(lambda e, a, acc, n, f: e.prove(acc == n.e, 'x')), 'not proved')

    def drained(check):
        def fn(e):
            x, n, f = xs(lo=1)
            a, b = prog().drained(x)
            check(e, zz(a), zz(b), n)
        return fn
    run('drained', drained(lambda e, a, b, n: e.prove(z3.And(a == n.e, b == 0), 'x')), 'proved')
    run('drained wrong', drained(lambda e, a, b, n: e.prove(b == n.e, 'x')), 'not proved')

    def scatter(check):
        def fn(e):
            x, n, f = xs(lo=2)
            w, m, g = xs('w', lo=1)
            k = z3.Int('kk')
            e.assume(z3.ForAll([k], z3.And(g(k) >= 0, g(k) < n.e)))
            check(e, seq(prog().scatter(x, w)), n, m, f, g)
        return fn
    run('scatter', scatter(lambda e, r, n, m, f, g: e.prove(zz(r.get(SNum(g(m.e - 1)))) == m.e - 1, 'last wins')), 'proved')
    run('scatter wrong', scatter(lambda e, r, n, m, f, g: e.prove(zz(r.get(SNum(g(0)))) == 0, 'first wins')), 'not proved')
    run('scatter wrong 2', scatter(lambda e, r, n, m, f, g: e.prove(zz(r.get(0)) == f(0), 'untouched')), 'not proved')
    def nest(name, check, *box):
        def fn(e):
            from .models import State
            x, n, f = xs(lo=2)
            m = Int('m', 1)
            check(e, seq(getattr(prog(), name)(x, n, m, *[State() for _ in box])), n, m, f)
        return fn
    run('scratch', nest('scratch', lambda e, r, n, m, f: e.prove(zz(r.get(1)) == f(1), 'x')), 'proved')
    run('scratch wrong', nest('scratch', lambda e, r, n, m, f: e.prove(zz(r.get(1)) == f(0), 'x')), 'not proved')
    run('scratch2 wrong', nest('scratch2', lambda e, r, n, m, f: e.prove(zz(r.get(1)) == 0, 'x')), 'not proved')
    run('scratch3 wrong', nest('scratch3', lambda e, r, n, m, f: e.prove(zz(r.get(0)) == 0, 'x')), 'not proved')
    run('state', nest('state', lambda e, r, n, m, f: e.prove(zz(r.get(1)) == f(1), 'x'), 1), 'proved')
    run('state2 wrong', nest('state2', lambda e, r, n, m, f: e.prove(zz(r.get(1)) == f(1), 'x'), 1), 'not proved')
    run('state3 wrong', nest('state3', lambda e, r, n, m, f: e.prove(zz(r.get(1)) == 1, 'x'), 1), 'not proved')
    run('state4 wrong', nest('state4', lambda e, r, n, m, f: e.prove(zz(r.get(0)) == 1, 'x'), 1), 'not proved')
    run('state5 wrong', nest('state5', lambda e, r, n, m, f: e.prove(zz(r.get(0)) == 1, 'x'), 1), 'not proved')
    run('joined', spec('joined', lambda e, r, n, f: e.prove(z3.Implies(zz(r.n) > 0, zz(r.get(0)) > 0), 'x'), 1), 'proved')
    run('joined wrong', spec('joined', lambda e, r, n, f: e.prove(zz(r.n) == n.e, 'x'), 1), 'not proved')
    run('joined wrong 2', spec('joined', lambda e, r, n, f: e.prove(z3.Implies(zz(r.n) > 0, zz(r.get(0)) == f(0)), 'x'), 1), 'not proved')

    def joined2(check):
        def fn(e):
            x, n, f = xs(lo=1)
            m = Int('m', 0)
            check(e, seq(prog().joined2(x, m)), n, m, f)
        return fn
    run('joined2', joined2(lambda e, r, n, m, f: (e.prove(zz(r.n) == n.e * m.e, 'n'), e.prove(zz(r.get(1)) == f(0) + 1, 'x') if m > 1 else None)), 'proved')
    run('joined2 wrong', joined2(lambda e, r, n, m, f: e.prove(zz(r.n) == n.e, 'x')), 'not proved')
    run('joined2 wrong 2', joined2(lambda e, r, n, m, f: e.prove(zz(r.get(1)) == f(1), 'x') if m > 1 else None), 'not proved')

    from . import space as sp
    with open(d + '/space_prog.py', 'w') as g: g.write(SPACE)

    def vec3(check):
        def fn(e):
            sp.circle_law(e)
            e.linear_first = sp.linear_first
            m = R.World({'numpy': sp.numpy()}).load('space_prog')
            v, n = sp.vector('v'), sp.vector('n')
            e.assume(sp.real(n.dot(n)) > 0)
            t = z3.Real('t')
            check(e, m, v, n, sp.Angle(t))
        return fn
    sq = lambda v: SNum(sp.real(v.dot(v)))
    run('rotation keeps lengths', vec3(lambda e, m, v, n, t: sp.identity(e, sq(m.turn(v, n, t)), sq(v), 'length')), 'proved')
    run('rotation keeps the axis', vec3(lambda e, m, v, n, t: [sp.identity(e, a, b, 'axis') for a, b in zip(m.turn(n, n, t).x, n.x)]), 'proved')
    run('rotation wrong', vec3(lambda e, m, v, n, t: sp.identity(e, sq(m.skew(v, n, t)), sq(v), 'length')), 'not proved')
    run('rotation wrong 2', vec3(lambda e, m, v, n, t: sp.identity(e, m.turn(v, n, t).x[0], v.x[0], 'x')), 'not proved')
    run('angle wrong', vec3(lambda e, m, v, n, t: sp.identity(e, sp.COS(t.turn), sp.SIN(t.turn), 'x')), 'not proved')
    run('unit', vec3(lambda e, m, v, n, t: sp.identity(e, sq(m.unit(n)), 1, 'x')), 'proved')
    run('unit direction', vec3(lambda e, m, v, n, t: e.prove(sp.real(m.unit(n).dot(n)) > 0, 'x')), 'proved')
    run('unit of what may be zero', vec3(lambda e, m, v, n, t: sp.identity(e, sq(m.unit(v)), 1, 'x')), 'not proved')
    run('in plane', vec3(lambda e, m, v, n, t: (e.assume(sp.real(v.dot(n)) == 0), sp.identity(e, m.inplane(v, n), 1, 'x'))), 'proved')
    run('in plane wrong', vec3(lambda e, m, v, n, t: sp.identity(e, m.inplane(v, n), 1, 'x')), 'not proved')
    run('roots', vec3(lambda e, m, v, n, t: sp.identity(e, *m.roots(v), 'x')), 'proved')
    run('roots wrong', vec3(lambda e, m, v, n, t: sp.identity(e, *m.roots2(v), 'x')), 'not proved')
    shutil.rmtree(d)
    for b in bad: print('SELFTEST', b)
    print('selftest: %d wrong' % len(bad))
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
