"""C05 on concrete operators; oracle: dense arithmetic"""
import numpy as np
from runner.base import case
from runner.lin import *
from xii import ii_PETScOperator, ii_PETScPreconditioner, BlockPC, ii_convert, nest, pc_nest, ReductionOperator
from xii.linalg.krylov_api import ScipyLinOp, pyamg_solve, scipy_solve, cbc_solve
from xii.linalg.fe_space_op import FESpaceOperator
from block.algebraic.petsc import LU
from block.block_base import block_base
from petsc4py import PETSc


def petsc_vec(x, ns=None):
    if ns is None: return as_backend_type(vec(x)).vec()
    o = np.cumsum([0] + list(ns))
    v = PETSc.Vec().createNest([as_backend_type(vec(x[f:l])).vec() for f, l in zip(o[:-1], o[1:])])
    v.assemble()
    return v


def get(v): return np.hstack([q.getArray() for q in v.getNestSubVecs()]) if v.getType() == 'nest' else v.getArray().copy()


def garbage(t, n):
    return t.rng.choice([t.np.uniform(-1, 1, n), np.zeros(n), np.full(n, 1e30), np.full(n, np.nan), np.full(n, np.inf)])


def operator(t, i, square=False):
    """Block or plain operator, with its dense meaning and sizes"""
    nb = t.rng.randint(1, 3)
    rows = sizes(t, nb, 1, 4)
    cols = rows if square or t.rng.random() < .4 else sizes(t, t.rng.randint(1, 3), 1, 4)
    kind = i % 5
    if kind == 0:
        D = rand(t, rows[0], cols[0])
        return petsc(D), D, None, None
    if kind == 1:
        D, E = rand(t, rows[0], 3), rand(t, 3, cols[0])
        return petsc(D) * petsc(E), D @ E, None, None
    ops, val = blocks(t, rows, cols, numbers=kind == 2, scalars=(0, 2.5, -1))     # cbc.block adds to x when it multiplies by 1
    if kind == 2: fix_empty(t, rows, cols, ops, val)
    A, D = block_mat(ops), layout(val)
    if kind == 3:
        o2, v2 = blocks(t, cols, cols, numbers=False)
        return A * block_mat(o2), D @ layout(v2), rows, cols
    if kind == 4: return 2 * A, 2 * D, rows, cols
    return A, D, rows, cols


@case('C05', n=150, thorough=2000)
def petsc_operator(t, i):
    A, D, rows, cols = operator(t, i)
    t.input(i % 5, rows, cols, D.tolist())
    M = ii_PETScOperator(A, None)
    t.expect(tuple(M.size) == D.shape, 'shape', '%s %s' % (M.size, D.shape))
    for rep in range(3):
        x = some(t, D.shape[1], cols)
        g = garbage(t, D.shape[0])
        X, Y = petsc_vec(x, cols), petsc_vec(g, rows)
        M.mult(X, Y)
        linear(t, get(Y), D.dot(x), x, 'action', 1e-12, 'initial content %s' % g[:1])
        t.close(get(X), x, 'input changed', 0)
    # transposed action of block matrices needs transposable blocks
    if rows is None or len(rows) == len(cols):      # cbc.block cannot transpose other block matrices
        for rep in range(2):
            x = some(t, D.shape[0], rows)
            g = garbage(t, D.shape[1])
            X, Y = petsc_vec(x, rows), petsc_vec(g, cols)
            try: M.multTranspose(X, Y)
            except Exception:
                if i % 5 == 2: return      # cbc.block cannot transpose numbers in a block matrix
                raise
            linear(t, get(Y), D.T.dot(x), x, 'transposed action', 1e-12)
            t.close(get(X), x, 'input changed', 0)


@case('C05', n=40, thorough=300)
def nullspace(t, i):
    rows = sizes(t, t.rng.randint(1, 3), 1, 4)
    n, o = sum(rows), np.cumsum([0] + rows)
    k = t.rng.randint(1, min(2, n))
    Z = np.linalg.qr(t.np.uniform(-1, 1, (n, k)))[0]
    if i % 4 == 0: Z = np.eye(n)[:, :k]
    D = np.diag(t.np.uniform(1, 2, n))
    P = np.eye(n) - Z @ Z.T
    D = P @ D @ P
    block = i % 3 > 0
    if not block: A, cols = petsc(D), None
    else: A, cols = block_mat([[petsc(D[o[a]:o[a + 1], o[b]:o[b + 1]]) for b in range(len(rows))] for a in range(len(rows))]), rows
    zs = [vec(z) if not block else block_vec([vec(z[f:l]) for f, l in zip(o[:-1], o[1:])]) for z in Z.T]
    t.input('nullspace', rows, block, Z.tolist())
    M = ii_PETScOperator(A, zs)
    x = t.np.uniform(-1, 1, n)
    X, Y = petsc_vec(x, cols), petsc_vec(0 * x, cols)
    M.mult(X, Y)
    t.close(get(Y), D.dot(x), 'action', 1e-12)
    N = M.getNullSpace()
    if not t.expect(bool(N.handle), 'nullspace is attached', ''): return
    t.expect(not N.hasConstant() and len(N.getVecs()) == k, 'nullspace has the vectors given and no other', '')
    N.remove(X)
    t.close(get(X), P.dot(x), 'nullspace removes the part of a vector in it', 1e-10)


@case('C05', n=100, thorough=1500)
def petsc_preconditioner(t, i):
    A, D, rows, cols = operator(t, i, square=True)
    if D.shape[0] != D.shape[1]: return
    n = len(D)
    t.input(i % 5, rows, D.tolist())
    ksp = PETSc.KSP().create()
    if rows is None: M = as_backend_type(petsc(np.eye(n))).mat()
    else: M = ii_PETScOperator(block_mat([[petsc(np.eye(r)) if a == b else petsc(np.zeros((r, c))) for b, c in enumerate(cols)] for a, r in enumerate(rows)]), None)
    ksp.setOperators(M)
    pc = ii_PETScPreconditioner(A, ksp)
    for rep in range(3):
        x, g = some(t, n, rows), garbage(t, n)
        X, Y = petsc_vec(x, rows), petsc_vec(g, rows)
        pc.apply(X, Y)
        linear(t, get(Y), D.dot(x), x, 'preconditioner action', 1e-12, 'initial content %s' % g[:1])
        t.close(get(X), x, 'input changed', 0)
        if i % 5 != 2:
            X, Y = petsc_vec(x, rows), petsc_vec(g, rows)
            pc.applyTranspose(X, Y)
            linear(t, get(Y), D.T.dot(x), x, 'transposed preconditioner action', 1e-12)


@case('C05', n=100, thorough=1000)
def scipy_operator(t, i):
    A, D, rows, cols = operator(t, 2 + i % 3)
    t.input(i % 3, rows, cols, D.tolist())
    L = ScipyLinOp(A)
    t.expect(tuple(L.shape) == D.shape, 'shape', '%s %s' % (L.shape, D.shape))
    for rep in range(3):
        x = some(t, D.shape[1], cols)
        y = x.copy()
        linear(t, L.matvec(x), D.dot(x), x, 'action', 1e-12)
        t.close(x, y, 'input changed', 0)
    X = t.np.uniform(-1, 1, (D.shape[1], 3))
    t.close(L.matmat(X), D.dot(X), 'action on several vectors', 1e-12)
    # earlier results stay
    a = L.matvec(X[:, 0])
    b = a.copy()
    L.matvec(X[:, 1])
    t.close(a, b, 'earlier result changed', 0)


def spd(t, n):
    Q = t.np.uniform(-1, 1, (n, n))
    return Q @ Q.T + n * np.eye(n)


@case('C05', n=40, thorough=300)
def block_pc(t, i):
    n = t.rng.randint(1, 6)
    D = spd(t, n)
    pc = PETSc.PC().create()
    pc.setOperators(as_backend_type(petsc(D)).mat())
    kind = t.rng.choice(['lu', 'jacobi', 'none'])
    pc.setType(kind)
    pc.setUp()
    want = {'lu': np.linalg.inv(D), 'jacobi': np.diag(1 / np.diag(D)), 'none': np.eye(n)}[kind]
    t.input(kind, D.tolist())
    B = BlockPC(pc)
    prev = None
    for rep in range(3):
        x = some(t, n)
        v = vec(x)
        y = B * v
        linear(t, arr(y), want.dot(x), x, 'action', 1e-10)
        t.close(arr(v), x, 'input changed', 0)
        if prev is not None: t.close(arr(prev[0]), prev[1], 'earlier result changed', 0)
        prev = (y, arr(y))
    # in a block
    m = t.rng.randint(1, 3)
    E = rand(t, m, m)
    y = block_mat([[B, 0], [0, petsc(E)]]) * block_vec([vec(x), vec(np.ones(m))])
    t.close(arr(y), np.r_[want.dot(x), E.dot(np.ones(m))], 'action in a block', 1e-10)


@case('C05', n=40, thorough=300)
def solvers(t, i):
    nb = t.rng.randint(1, 3)
    ns = sizes(t, nb, 1, 4)
    n, o = sum(ns), np.cumsum([0] + ns)
    D = spd(t, n)
    cut = lambda D: block_mat([[petsc(D[o[a]:o[a + 1], o[b]:o[b + 1]]) for b in range(nb)] for a in range(nb)])
    x, b = t.np.uniform(-1, 1, n), t.np.uniform(-1, 1, n)
    split = lambda x: block_vec([vec(x[f:l]) for f, l in zip(o[:-1], o[1:])])
    M = np.zeros((n, n))
    for f, l in zip(o[:-1], o[1:]): M[f:l, f:l] = np.linalg.inv(D[f:l, f:l])
    pre = t.rng.random() < .6
    t.input(ns, D.tolist(), b.tolist(), pre)
    nonsym = D + (t.np.uniform(-1, 1, (n, n)) if i % 2 else 0)
    want, wantn = np.linalg.solve(D, b), np.linalg.solve(nonsym, b)
    for name, solve, methods in (('pyamg', pyamg_solve, ['cg', 'gmres', 'fgmres', 'minimal_residual'][:3]),
                                 ('scipy', scipy_solve, ['cg', 'minres']),
                                 ('cbc', cbc_solve, ['cg', 'minres', 'lgmres'])):
        method = t.rng.choice(methods)
        sym = method in ('cg', 'minres', 'symmlq')
        A, w = (cut(D), want) if sym else (cut(nonsym), wantn)
        bb, x0 = split(b), split(x if t.rng.random() < .5 else 0 * x)
        with t.guard('%s %s' % (name, method)):
            r, res = solve(method, A, bb, 1e-12, cut(M) if pre else None, x0, maxiter=200)
            t.expect(isinstance(r, block_vec) and [v.size() for v in r] == ns, name + ' kind of solution')
            t.close(arr(r), w, '%s solution' % name, 1e-6, method)
            t.close(arr(bb), b, name + ' right hand side changed', 0)


@case('C05', n=20, thorough=100)
def space_operators(t, i):
    mesh = df.UnitSquareMesh(1, 1 + i % 2)
    V, Q = df.FunctionSpace(mesh, 'CG', 1), df.FunctionSpace(mesh, 'DG', 0)
    sq = i % 3 == 0
    D = rand(t, V.dim() if sq else Q.dim(), V.dim())

    class Op(FESpaceOperator):
        calls = 0

        def matvec(self, b):
            Op.calls += 1
            return vec(D.dot(b.get_local()))
    F = Op(V) if sq else Op(V, Q)
    t.input(D.tolist())
    t.expect(F.create_vec(0).size() == D.shape[0] and F.create_vec(1).size() == D.shape[1], 'vectors')
    for rep in range(2): t.close(dense(F.collapse()), D, 'collapsed', 1e-12)
    x = t.np.uniform(-1, 1, V.dim())
    t.close(arr(F * vec(x)), D.dot(x), 'action', 1e-12)
    t.close(dense(ii_convert(F * petsc(np.diag(1. + np.arange(V.dim()))))), D @ np.diag(1. + np.arange(V.dim())), 'in a product', 1e-12)


@case('C05', n=30, thorough=200)
def fieldsplit(t, i):
    """pc_nest: the PETSc field split acts like the block diagonal preconditioner"""
    nb = t.rng.randint(1, 3)
    ns = sizes(t, nb, 1, 4)
    n, o = sum(ns), np.cumsum([0] + ns)
    D = spd(t, n)
    cut = lambda D: block_mat([[petsc(D[o[a]:o[a + 1], o[b]:o[b + 1]]) for b in range(nb)] for a in range(nb)])
    A = nest(cut(D))
    B = block_mat([[0] * nb for _ in range(nb)])
    M = np.zeros((n, n))
    for k in range(nb):
        E = spd(t, ns[k])
        B[k][k] = LU(petsc(E))
        M[o[k]:o[k + 1], o[k]:o[k + 1]] = np.linalg.inv(E)
    t.input(ns, D.tolist())
    pc = PETSc.PC().create()
    pc.setOperators(A)
    pc.setType('fieldsplit' if nb > 1 else 'lu')
    Bm = pc_nest(pc, B, A)
    pc.setOperators(A, Bm)
    pc.setUp()
    x = some(t, n, ns)
    X, Y = petsc_vec(x, ns) if nb > 1 else petsc_vec(x), petsc_vec(0 * x, ns) if nb > 1 else petsc_vec(0 * x)
    pc.apply(X, Y)
    linear(t, get(Y), M.dot(x), x, 'field split action', 1e-9)
