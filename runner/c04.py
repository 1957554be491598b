"""C04 on concrete block vectors; oracle: lists of arrays"""
import numpy as np
from runner.base import case
from runner.lin import *
from xii import (SubSelectOperator, ReductionOperator, VectorizedOperator, ii_Function, block_diag_mat, as_petsc_nest,
                 ii_convert)
from xii.linalg.block_utils import RearangeOperator, RegroupOperator
from block import block_transpose
from dolfin import (UnitSquareMesh, UnitIntervalMesh, FunctionSpace, VectorFunctionSpace, Function, Constant, Expression,
                    interpolate)

MESH = UnitSquareMesh(1, 2)
MK = [lambda: FunctionSpace(MESH, 'CG', 1), lambda: FunctionSpace(MESH, 'DG', 0), lambda: VectorFunctionSpace(MESH, 'CG', 1),
      lambda: FunctionSpace(MESH, 'CG', 2), lambda: FunctionSpace(MESH, 'CG', 1), lambda: FunctionSpace(MESH, 'R', 0)]
SPACES = []


def spaces(t, n):
    if not SPACES: SPACES.extend(m() for m in MK)
    return [t.rng.choice(SPACES) for _ in range(n)]


def parts(v):
    """Array of a vector that may be nested"""
    if isinstance(v, block_vec): return np.hstack([parts(x) for x in v])
    p = as_backend_type(v).vec()
    if p.getType() == 'nest': return np.hstack([q.getArray() for q in p.getNestSubVecs()])
    return p.getArray().copy()


def content(t, W):
    xs = [some(t, w.dim()) for w in W]
    return xs, block_vec([vec(x, Vector if t.rng.random() < .3 else None) for x in xs])


def listed(b): return [parts(x) for x in b] if isinstance(b, block_vec) else [parts(b)]


def same(t, got, want, key):
    if t.expect(len(got) == len(want), key + ', number of blocks', '%d instead of %d' % (len(got), len(want))):
        for g, w in zip(got, want): t.close(g, w, key, 0)


@case('C04', n=480, thorough=1500)
def subselect(t, i):
    n = t.rng.randint(1, 5)
    W = spaces(t, n)
    idx = tuple(t.rng.sample(range(n), t.rng.randint(1, n)))
    arg = idx[0] if len(idx) == 1 and t.rng.random() < .5 else idx if t.rng.random() < .7 else list(idx)
    xs, b = content(t, W)
    t.input(idx, [w.dim() for w in W])
    R = SubSelectOperator(arg, W)
    y = R * b
    same(t, listed(y), [xs[k] for k in idx], 'selected')
    t.expect(isinstance(y, block_vec) == (len(idx) > 1), 'kind of result')
    z = R.T * y
    want = [xs[k] if k in idx else 0 * xs[k] for k in range(n)]
    same(t, listed(z), want, 'scattered')
    # another vector than a selection of b
    vs = [some(t, W[k].dim()) for k in idx]
    v = block_vec([vec(x) for x in vs]) if len(idx) > 1 else vec(vs[0])
    z = R.T * v
    w = {k: x for k, x in zip(idx, vs)}
    same(t, listed(z), [w.get(k, 0 * xs[k]) for k in range(n)], 'scattered')
    same(t, listed(R * z), vs, 'selection of scattered')
    same(t, listed(b), xs, 'input changed')
    same(t, [0 * q for q in listed(R.create_vec(0))], [0 * xs[k] for k in idx], 'vector in the range')
    same(t, [0 * q for q in listed(R.create_vec(1))], [0 * x for x in xs], 'vector in the domain')


def mapping(t, n):
    p = list(range(n))
    t.rng.shuffle(p)
    cuts = [0] + sorted(t.rng.sample(range(1, n), t.rng.randint(0, n - 1))) + [n] if n > 1 else [0, 1]
    return tuple(tuple(p[f:l]) for f, l in zip(cuts[:-1], cuts[1:]))


@case('C04', n=480, thorough=1500)
def rearange(t, i):
    n = t.rng.randint(1, 5)
    W = spaces(t, n)
    xs, b = content(t, W)
    if i % 2:
        cuts = sorted(t.rng.sample(range(1, n), t.rng.randint(0, n - 1))) + [n]
        R = ReductionOperator(cuts if t.rng.random() < .5 else tuple(cuts), W)
        m = [tuple(range(f, l)) for f, l in zip([0] + cuts[:-1], cuts)]
        t.expect(list(R.offsets) == [0] + cuts, 'offsets')
    else:
        m = mapping(t, n)
        R = RearangeOperator(m, W)
    t.input(m, [w.dim() for w in W])
    want = [np.hstack([xs[k] for k in g]) for g in m]
    with t.guard('matvec'):
        y = R * b
        same(t, listed(y), want, 'rearranged')
        t.expect(isinstance(y, block_vec) == (len(m) > 1), 'kind of result')
    with t.guard('transpose of own result'): same(t, listed(R.T * (R * b)), xs, 'restored')
    with t.guard('transpose'):
        vs = [some(t, len(x)) for x in want]
        v = block_vec([vec(x) for x in vs]) if len(m) > 1 else vec(vs[0])
        z = listed(R.T * v)
        expect = [None] * n
        for g, x in zip(m, vs):
            o = np.cumsum([0] + [len(xs[k]) for k in g])
            for k, f, l in zip(g, o[:-1], o[1:]): expect[k] = x[f:l]
        same(t, z, expect, 'transpose')
    with t.guard('monolithic'):
        for cls in (None, Vector):
            y = R * vec(np.hstack(xs), cls)
            same(t, listed(y), want, 'monolithic input')
    with t.guard('through a matrix'):
        N = sum(len(x) for x in xs)
        D = rand(t, N, N)
        if len(m) == 1:
            A = petsc(D)
            y = listed(R.T * (A * (R * b)))
            w, o = D.dot(want[0]), np.cumsum([0] + [len(xs[k]) for k in m[0]])
            expect = [None] * n
            for k, f, l in zip(m[0], o[:-1], o[1:]): expect[k] = w[f:l]
            for g, q in zip(y, expect): t.close(g, q, 'monolithic operator between regrouped vectors', 1e-12)
        else:
            Ds = [rand(t, len(x), len(x)) for x in want]
            y = listed(R.T * (block_diag_mat([petsc(d) for d in Ds]) * (R * b)))
            expect = [None] * n
            for g, d, x in zip(m, Ds, want):
                w, o = d.dot(x), np.cumsum([0] + [len(xs[k]) for k in g])
                for k, f, l in zip(g, o[:-1], o[1:]): expect[k] = w[f:l]
            for g, q in zip(y, expect): t.close(g, q, 'operator between regrouped vectors', 1e-12)
    same(t, listed(b), xs, 'input changed')
    with t.guard('create_vec'):
        t.expect([q.size() for q in R.create_vec(1)] == [len(x) for x in xs], 'vector in the domain')
        t.expect([len(q) for q in listed(R.create_vec(0))] == [len(x) for x in want], 'vector in the range')


@case('C04', n=320, thorough=800)
def regroup(t, i):
    n = t.rng.randint(1, 5)
    W = spaces(t, n)
    xs, b = content(t, W)
    cuts = sorted(t.rng.sample(range(1, n), t.rng.randint(0, n - 1))) + [n]
    t.input(cuts, [w.dim() for w in W])
    R = RegroupOperator(cuts if t.rng.random() < .5 else tuple(cuts), W)
    y = R * b
    groups = list(zip([0] + cuts[:-1], cuts))
    ys = list(y) if len(groups) > 1 else [y]
    t.expect(len(ys) == len(groups), 'number of groups')
    for g, (f, l) in zip(ys, groups):
        t.expect(isinstance(g, block_vec) == (l - f > 1), 'kind of a group')
        same(t, listed(g), xs[f:l], 'group')
    same(t, listed(R.T * y), xs, 'restored')
    same(t, listed(b), xs, 'input changed')


@case('C04', n=240, thorough=600)
def vectorized(t, i):
    if i % 2:
        V = FunctionSpace(MESH, *t.rng.choice([('CG', 1), ('DG', 0), ('CG', 2)]))
        n, k = V.dim(), t.rng.randint(1, 3)
        W, D = [V] * k, rand(t, V.dim(), V.dim())
        xs = [some(t, n) for _ in range(k)]
        t.input('list', k, n, D.tolist())
        R = VectorizedOperator(petsc(D), W)
        y = R * block_vec([vec(x) for x in xs])
        for g, x in zip(listed(y), xs): linear(t, g, D.dot(x), x, 'componentwise', 1e-12)
        t.expect([v.size() for v in R.create_vec(1)] == [n] * k, 'vectors')
        return
    W = VectorFunctionSpace(MESH, *t.rng.choice([('CG', 1), ('DG', 0), ('CG', 2)]), t.rng.choice([2, 3]))
    n = W.dim() // W.num_sub_spaces()
    D, x = rand(t, n, n), t.np.uniform(-1, 1, W.dim())
    t.input(str(W.ufl_element()), D.tolist())
    R = VectorizedOperator(petsc(D) if t.rng.random() < .7 else petsc(D) * petsc(np.eye(n)), W)
    for rep in range(3):
        b = vec(x, Vector if rep else None)
        y = arr(R * b)
        want = 0 * x
        for j in range(W.num_sub_spaces()):
            dofs = W.sub(j).dofmap().dofs()
            want[dofs] = D.dot(x[dofs])
        linear(t, y, want, x, 'componentwise', 1e-12)
        t.close(arr(b), x, 'input changed', 0)
        x = some(t, W.dim())
        j = t.rng.randrange(W.num_sub_spaces())
        if t.rng.random() < .4: x[W.sub(j).dofmap().dofs()] = 0
    t.expect(R.create_vec(0).size() == W.dim() == R.create_vec(1).size(), 'vectors')


@case('C04', n=320, thorough=800)
def block_function(t, i):
    n = t.rng.randint(1, 4)
    W = spaces(t, n)
    k = i % 3
    xs = [t.np.uniform(-1, 1, w.dim()) for w in W]
    if k == 0:
        f = ii_Function(W)
        state = [0 * x for x in xs]
    elif k == 1:
        fs = [Function(w) for w in W]
        for g, x in zip(fs, xs): g.vector().set_local(x)
        f, state = ii_Function(W, components=fs), [x.copy() for x in xs]
    else:
        f, state = ii_Function(W, components=block_vec([vec(x) for x in xs]) if t.rng.random() < .5 else [vec(x) for x in xs]), [x.copy() for x in xs]
    t.input(k, [w.dim() for w in W])
    views = dict(vector=f.vector(), petsc=f.petsc_vec(), block=f.block_vec(), vectors=f.vectors())

    def check(what):
        want = np.hstack(state)
        for name, v in list(views.items()) + [('vector', f.vector()), ('petsc', f.petsc_vec()), ('block', f.block_vec())]:
            if name == 'vector': got = parts(v)
            elif name == 'petsc': got = np.hstack([q.getArray() for q in v.getNestSubVecs()])
            else: got = np.hstack([q.get_local() for q in v])
            t.close(got, want, '%s after %s' % (name, what), 1e-14)
        for g, s in zip(f, state): t.close(g.vector().get_local(), s, 'component after ' + what, 1e-14)
    check('construction')
    t.expect(len(f) == n and list(f.function_space()) == list(W), 'length and space')
    t.expect(all(f[j].function_space() == W[j] for j in range(n)), 'component spaces')
    log = []
    for step in range(t.rng.randint(1, 6)):
        op = t.rng.randrange(6)
        j = t.rng.randrange(n)
        x = t.np.uniform(-1, 1, W[j].dim())
        log.append((op, j))
        if op == 0:
            f[j].vector().set_local(x)
            f[j].vector().apply('insert')
            state[j] = x
        elif op == 1:
            views['petsc'].getNestSubVecs()[j].setArray(x)
            state[j] = x
        elif op == 2:
            views['block'][j].set_local(x)
            state[j] = x
        elif op == 3:
            views['vector'] *= 2.
            state = [2 * s for s in state]
        elif op == 4:
            vals = [Constant([t.rng.uniform(-1, 1) for _ in range(w.ufl_element().value_shape()[0])]) if w.ufl_element().value_shape() else Constant(t.rng.uniform(-1, 1)) for w in W]
            r = f.interpolate(vals)
            t.expect(r is f, 'interpolate returns the function')
            state = [interpolate(c, w).vector().get_local() for c, w in zip(vals, W)]
        else:
            np.random.seed(t.rng.randrange(1000))
            f.randomize()
            state = [v.get_local() for v in f.vectors()]
            t.expect(all(np.linalg.norm(s) > 0 for s in state), 'random coefficients')
        check('updates %s' % log)
    with t.guard('interpolate block function'):
        g = ii_Function(W).interpolate(f)
        for a, s in zip(g, state): t.close(a.vector().get_local(), s, 'interpolation of itself', 1e-12)
    with t.guard('rename'):
        f.rename([('u%d' % q, '') for q in range(n)])
        t.expect([c.name() for c in f] == ['u%d' % q for q in range(n)], 'rename')
    a = as_petsc_nest(f.block_vec())
    t.close(np.hstack([q.getArray() for q in a.getNestSubVecs()]), np.hstack(state), 'as_petsc_nest', 0)
