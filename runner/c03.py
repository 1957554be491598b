"""C03 on concrete systems; oracle: dense elimination"""
import numpy as np
from runner.base import case
from runner.lin import *
from xii import apply_bc, ii_convert
from dolfin import DirichletBC, Constant, Function, FunctionSpace, VectorFunctionSpace, UnitSquareMesh, UnitIntervalMesh


def expected(A, b, cons, diag, symmetric):
    A, b = A.copy(), b.copy()
    x = np.zeros(len(b))
    rows = sorted(cons)
    for r in rows: x[r] = cons[r]
    if symmetric:
        b = b - A.dot(x)
        A[:, rows] = 0
    A[rows, :] = 0
    for r in rows:
        A[r, r] = diag
        b[r] = diag * x[r]
    return A, b


def store_diagonal(ops, val):
    '''PETSc (and so apply_bc) needs the diagonal of a constrained row in the sparsity pattern'''
    for k in range(len(ops)):
        if not isinstance(ops[k][k], (int, float)): ops[k][k] = petsc(val[k][k], keep_zeros=True)


def compare(t, A, b, want, ns, what, tol=1e-12):
    o = np.cumsum([0] + ns)
    t.expect(isinstance(A, block_mat) and A.blocks.shape == (len(ns), ) * 2, what + ' shape')
    for i in range(len(ns)):
        for j in range(len(ns)): t.close(dense(A[i, j]), want[0][o[i]:o[i + 1], o[j]:o[j + 1]], what + ' matrix', tol)
        t.close(arr(b[i]), want[1][o[i]:o[i + 1]], what + ' rhs', tol)


@case('C03', n=150, thorough=2000)
def dictionaries(t, i):
    """Dof-value dictionaries on random systems"""
    nb = t.rng.randint(1, 4)
    ns = sizes(t, nb, 1, 6)
    ops, val = blocks(t, ns, ns, numbers=i % 2 == 0)
    if i % 2 == 0: fix_empty(t, ns, ns, ops, val)
    if t.rng.random() < .3:
        for a in range(nb):
            for b in range(a):          # symmetric system
                if not isinstance(ops[a][b], (int, float)) and not isinstance(ops[b][a], (int, float)):
                    ops[a][b], val[a][b] = petsc(val[b][a].T), val[b][a].T
    bs = [t.np.uniform(-1, 1, n) for n in ns]
    o = np.cumsum([0] + ns)
    bcs, cons = [], {}
    for k, n in enumerate(ns):
        lists = []
        for _ in range(t.rng.randint(0, 2)):
            dofs = t.rng.sample(range(n), t.rng.randint(1, n))
            d = {q: t.rng.choice([0., 1.5, -2.]) for q in dofs}
            lists.append(d)
            for q in d: cons[int(o[k]) + q] = d[q]
        bcs.append(lists)
    diag = t.rng.choice([1., 1, 0.5, -2., 100.])
    sym = t.rng.random() < .5
    given = t.rng.random() < .8
    fmt = t.rng.choice(['lists', 'dict', 'bare'])
    if fmt == 'bare' and all(len(l) < 2 for l in bcs): arg = [l[0] if l else [] for l in bcs]
    elif fmt == 'dict': arg = {k: l for k, l in enumerate(bcs) if l or t.rng.random() < .5}
    else: arg = bcs
    t.input(ns, layout(val).tolist(), np.hstack(bs).tolist(), arg, 'diag', diag, 'sym', sym, 'b given', given)
    store_diagonal(ops, val)
    A = block_mat(ops)
    b = block_vec([vec(x) for x in bs]) if given else None
    D, h = layout(val), np.hstack(bs) if given else np.zeros(sum(ns))
    want = expected(D, h, cons, diag, sym)
    A1, b1 = apply_bc(A, b, arg, diag_val=diag, symmetric=sym)
    if cons:
        compare(t, A1, b1, want, ns, 'apply_bc')
        # the solution satisfies the constraints
    else:
        t.close(dense(ii_convert(A1)), D, 'nothing to apply', 0)
        if given: t.close(arr(b1), h, 'nothing to apply', 0)
    for a in range(nb):
        for c in range(nb):
            if not isinstance(ops[a][c], (int, float)): t.close(dense(ops[a][c]), val[a][c], 'input matrix changed', 0)
    if given: t.close(arr(b), np.hstack(bs), 'input vector changed', 0)
    # updater
    with t.guard('apply_b'):
        out = apply_bc(A, b, arg, diag_val=diag, symmetric=sym, return_apply_b=True)
        t.expect(len(out) == 3, 'three results')
        if not cons: return
        compare(t, out[0], out[1], want, ns, 'apply_bc with updater')
        g = np.hstack([t.np.uniform(-1, 1, n) for n in ns])
        gb = block_vec([vec(g[f:l]) for f, l in zip(o[:-1], o[1:])])
        r = out[2](gb)
        t.close(arr(r), expected(D, g, cons, diag, sym)[1], 'updater', 1e-12)
        # new values
        new = {}
        for k, l in enumerate(bcs):
            for d in l:
                for q in d:
                    d[q] = d[q] + 3. if t.rng.random() < .8 else d[q]
                    new[int(o[k]) + q] = d[q]
        r = out[2](block_vec([vec(g[f:l]) for f, l in zip(o[:-1], o[1:])]))
        t.close(arr(r), expected(D, g, new, diag, sym)[1], 'updater with new values', 1e-12)


@case('C03', n=60, thorough=600)
def plain_matrix(t, i):
    n = t.rng.randint(1, 6)
    D, b = rand(t, n, n), t.np.uniform(-1, 1, n)
    dofs = t.rng.sample(range(n), t.rng.randint(1, n))
    d = {q: t.rng.choice([0., 1.5, -2.]) for q in dofs}
    diag, sym = t.rng.choice([1., .5, -3.]), t.rng.random() < .5
    t.input(D.tolist(), b.tolist(), d, diag, sym)
    A, bv = petsc(D, keep_zeros=True), vec(b)
    want = expected(D, b, d, diag, sym)
    for arg in ([d], {0: [d]}):
        A1, b1 = apply_bc(A, bv, arg, diag_val=diag, symmetric=sym)
        t.expect(not isinstance(A1, block_mat) and not isinstance(b1, block_vec), 'plain result')
        t.close(dense(A1), want[0], 'plain matrix', 1e-12)
        t.close(arr(b1), want[1], 'plain rhs', 1e-12)
    t.close(dense(A), D, 'input matrix changed', 0)
    t.close(arr(bv), b, 'input vector changed', 0)
    with t.guard('apply_b'):
        A1, b1, f = apply_bc(A, bv, [d], diag_val=diag, symmetric=sym, return_apply_b=True)
        t.close(dense(A1), want[0], 'plain matrix with updater', 1e-12)
        t.close(arr(b1), want[1], 'plain rhs with updater', 1e-12)
        g = t.np.uniform(-1, 1, n)
        gv = vec(g)
        t.close(arr(f(gv)), expected(D, g, d, diag, sym)[1], 'plain updater', 1e-12)
    with t.guard('empty'):
        A1, b1 = apply_bc(A, bv, [], diag_val=diag)
        t.close(dense(A1), D, 'no conditions', 0)
        A1, b1 = apply_bc(A, bv, None)
        t.close(arr(b1), b, 'no conditions', 0)


def spaces(k):
    m = UnitSquareMesh(2 + k % 2, 2)
    return [FunctionSpace(m, 'CG', 1), VectorFunctionSpace(m, 'CG', 1), FunctionSpace(m, 'CG', 2)][:2 + k % 2] if k % 3 else [VectorFunctionSpace(m, 'CG', 1), FunctionSpace(m, 'CG', 1)]


@case('C03', n=30, thorough=150)
def dirichlet_bcs(t, i):
    """DirichletBC objects"""
    W = spaces(i)
    ns = [w.dim() for w in W]
    ops, val = blocks(t, ns, ns, numbers=False)
    bs = [t.np.uniform(-1, 1, n) for n in ns]
    o = np.cumsum([0] + ns)
    consts, bcs, doms = [], [], ['near(x[0], 0)', 'near(x[1], 1)', 'near(x[0], 1)', 'on_boundary']
    for w in W:
        l = []
        for _ in range(t.rng.randint(0, 2)):
            shp = w.ufl_element().value_shape()
            c = Constant(t.np.uniform(-1, 1, shp) if shp else t.rng.uniform(-1, 1))
            consts.append(c)
            if shp and t.rng.random() < .3:
                c = Constant(t.rng.uniform(-1, 1))
                consts[-1] = c
                l.append(DirichletBC(w.sub(1), c, t.rng.choice(doms)))
            else: l.append(DirichletBC(w, c, t.rng.choice(doms)))
        bcs.append(l)

    def cons():
        out = {}
        for k, l in enumerate(bcs):
            for bc in l:
                for q, v in bc.get_boundary_values().items(): out[int(o[k]) + q] = v
        return out
    fmt = t.rng.choice(['lists', 'dict', 'bare', 'mixed'])
    arg = bcs
    if fmt == 'bare' and all(len(l) == 1 for l in bcs): arg = [l[0] for l in bcs]
    if fmt == 'dict': arg = {k: l for k, l in enumerate(bcs) if l}
    if fmt == 'mixed': arg = [[l[0].get_boundary_values()] + l[1:] if l else l for l in bcs]
    diag, sym = t.rng.choice([1., .5, 3.]), t.rng.random() < .5
    t.input([str(w.ufl_element()) for w in W], fmt, [len(l) for l in bcs], diag, sym, np.hstack(bs).tolist()[:5])
    store_diagonal(ops, val)
    D, h = layout(val), np.hstack(bs)
    A, b = block_mat(ops), block_vec([vec(x, Vector) for x in bs])
    c = cons()
    A1, b1, f = apply_bc(A, b, arg, diag_val=diag, symmetric=sym, return_apply_b=True)
    if not c: return
    compare(t, A1, b1, expected(D, h, c, diag, sym), ns, 'DirichletBC', 1e-12)
    t.close(arr(b), h, 'input vector changed', 0)
    if fmt == 'mixed': return
    for rep in range(2):
        for k in consts: k.assign(Constant(np.array(k.values()) * 2 + 1 if k.ufl_shape else float(k) * 2 + 1))
        g = [t.np.uniform(-1, 1, n) for n in ns]
        with t.guard('updater'):
            r = f(block_vec([vec(x) for x in g]))
            t.close(arr(r), expected(D, np.hstack(g), cons(), diag, sym)[1], 'updater, new boundary values', 1e-12)
            A2, b2 = apply_bc(A, block_vec([vec(x) for x in g]), arg, diag_val=diag, symmetric=sym)
            t.close(arr(r), arr(b2), 'updater equals re-application', 1e-12)


@case('C03', n=4)
def single_space(t, i):
    m = UnitSquareMesh(2, 3)
    V = FunctionSpace(m, 'CG', 1 + i % 2)
    u, v = df.TrialFunction(V), df.TestFunction(V)
    A, b = df.assemble(df.inner(df.grad(u), df.grad(v)) * df.dx), df.assemble(Constant(2) * v * df.dx)
    D, h = A.array(), b.get_local()
    bc = DirichletBC(V, Constant(3), 'near(x[0], 0)')
    t.input('Poisson', i)
    for arg in (bc, [bc], {0: [bc]}):
        for sym in (True, False):
            A1, b1 = apply_bc(A, b, arg, symmetric=sym)
            want = expected(D, h, bc.get_boundary_values(), 1., sym)
            t.close(dense(A1), want[0], 'single matrix', 1e-12)
            t.close(arr(b1), want[1], 'single rhs', 1e-12)
    t.close(A.array(), D, 'input matrix changed', 0)
    # a solve returns the boundary values
    A1, b1 = apply_bc(A, b, bc)
    x = Function(V).vector()
    df.solve(A1, x, b1)
    for q, val in bc.get_boundary_values().items(): t.close(x[q], val, 'solution', 1e-10)
