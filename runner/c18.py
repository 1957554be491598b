"""C18 on concrete meshes; oracle: evaluation of functions cell by cell"""
import numpy as np
import dolfin as df
from runner.base import case, Skip
from runner.geo import *
from xii import Injection, Restriction, SubDomainMesh, OverlapMesh, EmbeddedMesh, ii_assemble, ii_convert
from xii.assembler.injection_matrix import injection_matrix
from xii.assembler.interpolation_matrix import interpolation_mat
from xii.assembler.restriction_matrix import restriction_mat, restriction_matrix
from xii.assembler.fem_eval import DegreeOfFreedom, FEBasisFunction
from xii.meshing.refinement import centroid_refine


def element(mesh, kind):
    cell = mesh.ufl_cell()
    gdim = mesh.geometry().dim()
    if kind == 'MIX': return df.MixedElement([df.VectorElement('Lagrange', cell, 2, dim=gdim), df.FiniteElement('Lagrange', cell, 1)])
    fam, deg = kind
    if fam[0] == 'v': return df.VectorElement(fam[1:], cell, deg, dim=gdim)
    if fam[0] == 't': return df.TensorElement(fam[1:], cell, deg, shape=(gdim, gdim))
    return df.FiniteElement(fam, cell, deg)


KINDS = {1: [('CG', 1), ('CG', 2), ('DG', 0), ('DG', 1)],
         2: [('CG', 1), ('CG', 2), ('DG', 0), ('DG', 1), ('vCG', 1), ('vDG', 1), ('CR', 1), ('RT', 1), ('N1curl', 1), ('BDM', 1), 'MIX', ('tCG', 1)],
         3: [('CG', 1), ('CG', 2), ('DG', 0), ('vCG', 1), ('RT', 1), ('N1curl', 1)]}


def value(V, x, cell, p):
    """Value at point p of the function with coefficients x in cell"""
    mesh = V.mesh()
    c = df.Cell(mesh, cell)
    e = V.element()
    n = max(1, int(np.prod(V.ufl_element().value_shape(), dtype=int)))
    B = e.evaluate_basis_all(np.asarray(p, dtype=float), c.get_vertex_coordinates(), c.orientation() if mesh.topology().dim() > 1 or mesh.geometry().dim() < 3 else 0)
    return x[V.dofmap().cell_dofs(cell)] @ np.asarray(B).reshape((-1, n))


def some_points(t, mesh, k, n=2):
    P = mesh.coordinates()[mesh.cells()[k]]
    for _ in range(n):
        l = t.np.uniform(.1, 1, len(P))
        yield (l / l.sum()) @ P


def same(t, V, x, Q, y, cmap, what, tol=1e-8):
    """Functions agree, cell k of mesh of Q lies in cmap[k] of V"""
    for k in t.rng.sample(range(Q.mesh().num_cells()), min(25, Q.mesh().num_cells())):
        for p in some_points(t, Q.mesh(), k):
            t.close(value(Q, y, k, p), value(V, x, cmap[k], p), what, tol)


def holder(mesh, V):
    """Is the polynomial space of an element held by the other one on cells; kinds with nodes"""
    return {}


# coarse kind -> fine kinds with the function
HOLDS = {('CG', 1): [('CG', 1), ('CG', 2), ('DG', 1)], ('CG', 2): [('CG', 2)], ('DG', 0): [('DG', 0), ('DG', 1)], ('DG', 1): [('DG', 1)],
         ('vCG', 1): [('vCG', 1), ('vDG', 1)], ('vDG', 1): [('vDG', 1)], ('RT', 1): [('RT', 1), ('vDG', 1)],
         ('BDM', 1): [('BDM', 1), ('vDG', 1)], ('N1curl', 1): [('N1curl', 1), ('vDG', 1)], ('tCG', 1): [('tCG', 1)]}


def refined(t, mesh):
    """Fine mesh and map of its cells to cells of mesh (by geometry)"""
    tdim = mesh.topology().dim()
    how = t.rng.choice(['refine', 'centroid', 'local'] if tdim < 3 else ['refine', 'centroid'])
    if how == 'refine': fine = df.refine(mesh)
    elif how == 'centroid': fine = centroid_refine(mesh, nrefs=t.rng.choice([1, 1, 2]) if mesh.num_cells() < 20 else 1)
    else:
        f = df.MeshFunction('bool', mesh, tdim, False)
        for k in range(mesh.num_cells()): f[k] = t.rng.random() < .4
        fine = df.refine(mesh, f)
    return fine, how


def located(fine, mesh):
    X = [mesh.coordinates()[c] for c in mesh.cells()]
    out = []
    for c in fine.cells():
        p = fine.coordinates()[c].mean(axis=0)
        out.append(next(k for k, P in enumerate(X) if inside(P, p)))
    return out


def data(m): return {'not_nested_method': m}


@case('C18', n=40, thorough=400)
def injection(t, i):
    tdim = [2, 1, 2, 3, 2][i % 5]
    mesh = box(t, tdim, 3 if tdim < 3 else 1, bend=False)
    if t.rng.random() < .4: mesh = shuffled(t, mesh)
    fine, how = refined(t, mesh)
    if fine.num_cells() > 400: raise Skip
    kc = t.rng.choice([k for k in KINDS[tdim] if k in HOLDS])
    kf = t.rng.choice([k for k in HOLDS[kc] if k in KINDS[tdim]])
    V, Q = df.FunctionSpace(mesh, element(mesh, kc)), df.FunctionSpace(fine, element(fine, kf))
    method = None
    if kc[0] in ('CG', 'vCG', 'tCG') and t.rng.random() < .5: method = 'interpolate'
    t.input(describe(mesh), how, 'cells %d' % fine.num_cells(), kc, kf, method)
    Injection(df.TestFunction(V), fine, method) if method else Injection(df.TestFunction(V), fine, None)
    M = ii_convert(injection_matrix(V, Q, fine, data(method))).array()
    t.expect(M.shape == (Q.dim(), V.dim()), 'shape')
    x = t.np.standard_normal(V.dim())
    cmap = located(fine, mesh)
    if not method and hasattr(fine, 'parent_entity_map'):
        have = fine.parent_entity_map[mesh.id()][tdim]
        t.expect([int(have[k]) for k in range(fine.num_cells())] == cmap, 'map of cells')
    same(t, V, x, Q, M @ x, cmap, 'injection %s' % method)


@case('C18', n=20, thorough=200)
def injection_values(t, i):
    """Target that can not hold the function: values at dofs"""
    tdim = [2, 1, 2, 3][i % 4]
    mesh = box(t, tdim, 2, bend=False)
    fine, how = refined(t, mesh)
    if fine.num_cells() > 300: raise Skip
    kc, kf = [(('CG', 2), ('CG', 1)), (('CG', 2), ('DG', 0)), (('CG', 1), ('DG', 0)), (('CG', 2), ('DG', 1))][t.rng.randrange(4)]
    V, Q = df.FunctionSpace(mesh, element(mesh, kc)), df.FunctionSpace(fine, element(fine, kf))
    method = t.rng.choice([None, 'interpolate'])
    t.input(describe(mesh), how, kc, kf, method)
    Injection(df.TestFunction(V), fine, method)
    A = injection_matrix(V, Q, fine, data(method))
    M = ii_convert(A).array()
    x = t.np.standard_normal(V.dim())
    D = Q.tabulate_dof_coordinates().reshape((Q.dim(), -1))
    X = [mesh.coordinates()[c] for c in mesh.cells()]
    want = [value(V, x, next(k for k, P in enumerate(X) if inside(P, p)), p)[0] for p in D]
    t.close(M @ x, np.array(want), 'value at the dof %s' % method, 1e-8)


@case('C18', n=16, thorough=150)
def injection_form(t, i):
    """Assembled forms with injection; several levels"""
    tdim = [2, 1, 2, 2][i % 4]
    mesh = box(t, tdim, 2, bend=False)
    mid = df.refine(mesh)
    fine = df.refine(mid) if i % 2 else mid
    method = ['interpolate', None][t.rng.randrange(2)]
    V, Q = df.FunctionSpace(mesh, 'CG', 1), df.FunctionSpace(fine, 'CG', 1)
    t.input(describe(mesh), method, 'levels %d' % (1 + i % 2))
    u, q = df.TrialFunction(V), df.TestFunction(Q)
    if method is None and i % 2:
        # Only the mesh that was refined is a parent
        t.raises(AssertionError, lambda: Injection(u, fine, None), 'grandparent')
        method = 'interpolate'
    a = df.inner(Injection(u, fine, method), q) * df.Measure('dx', domain=fine)
    A = ii_convert(ii_assemble(a)).array()
    f = df.Expression('1+2*x[0]' + ('-3*x[1]' if tdim > 1 else ''), degree=1)
    want = df.assemble(df.inner(df.interpolate(f, Q), q) * df.dx(domain=fine)).get_local()
    t.close(A @ df.interpolate(f, V).vector().get_local(), want, 'injected trial function', 1e-9)
    v, p = df.TestFunction(V), df.TrialFunction(Q)
    B = ii_convert(ii_assemble(df.inner(p, Injection(v, fine, method)) * df.Measure('dx', domain=fine))).array()
    t.close(B, A.T, 'injected test function', 1e-10)
    w = df.Function(V)
    w.vector().set_local(t.np.standard_normal(V.dim()))
    L = ii_convert(ii_assemble(df.inner(Injection(w, fine, method), q) * df.Measure('dx', domain=fine))).get_local()
    t.close(L, A @ w.vector().get_local(), 'injected function', 1e-9)


SAME = {('CG', 1): [('CG', 2), ('DG', 1), ('DG', 0), ('CG', 1), ('CR', 1)], ('CG', 2): [('CG', 1), ('DG', 1), ('CG', 2), ('DG', 0)], ('DG', 0): [('DG', 1), ('DG', 0)],
        ('vCG', 1): [('RT', 1), ('BDM', 1), ('N1curl', 1), ('vDG', 1)], ('BDM', 1): [('vDG', 1), ('RT', 1)], ('RT', 1): [('BDM', 1), ('vDG', 1)],
        ('N1curl', 1): [('vDG', 1)], ('vDG', 1): [('vDG', 1)], ('DG', 1): [('DG', 1)], ('tCG', 1): [('tCG', 1)]}
INTO = {(('CG', 1), ('CG', 2)), (('CG', 1), ('DG', 1)), (('CG', 1), ('CG', 1)), (('CG', 1), ('CR', 1)), (('CG', 2), ('CG', 2)), (('DG', 0), ('DG', 1)),
        (('DG', 0), ('DG', 0)), (('vCG', 1), ('BDM', 1)), (('vCG', 1), ('vDG', 1)), (('BDM', 1), ('vDG', 1)), (('RT', 1), ('BDM', 1)),
        (('RT', 1), ('vDG', 1)), (('N1curl', 1), ('vDG', 1)), (('vDG', 1), ('vDG', 1)), (('DG', 1), ('DG', 1)), (('tCG', 1), ('tCG', 1))}


def dofs_of(Q, cell, f):
    """Degrees of freedom of Q on the cell at the function"""
    mesh = Q.mesh()
    class E(df.UserExpression):
        def eval(self, v, x): v[:] = f(x)
        def value_shape(self): return Q.ufl_element().value_shape()
    c = df.Cell(mesh, cell)
    return Q.element().evaluate_dofs(E(degree=1), c.get_vertex_coordinates(), c.orientation() if mesh.topology().dim() > 1 or mesh.geometry().dim() < 3 else 0, c)


@case('C18', n=32, thorough=300)
def interpolation(t, i):
    tdim = [2, 1, 2, 3][i % 4]
    mesh = box(t, tdim, 3 if tdim < 3 else 1)
    if t.rng.random() < .4: mesh = shuffled(t, mesh)
    kc = t.rng.choice([k for k in KINDS[tdim] if k in SAME])
    kf = t.rng.choice([k for k in SAME[kc] if k in KINDS[tdim]] or [kc])
    V, Q = df.FunctionSpace(mesh, element(mesh, kc)), df.FunctionSpace(mesh, element(mesh, kf))
    t.input(describe(mesh), kc, kf)
    M = df.PETScMatrix(interpolation_mat(V, Q)).array()
    t.expect(M.shape == (Q.dim(), V.dim()), 'shape')
    x = t.np.standard_normal(V.dim())
    y = M @ x
    if (kc, kf) in INTO: same(t, V, x, Q, y, range(mesh.num_cells()), 'interpolation')
    if kc[0] in ('CG', 'vCG', 'tCG') and kf[0] != 'CR' or kf[0] in ('DG', 'vDG'):        # single valued dofs
        for k in t.rng.sample(range(mesh.num_cells()), min(6, mesh.num_cells())):
            t.close(y[Q.dofmap().cell_dofs(k)], np.asarray(dofs_of(Q, k, lambda p: value(V, x, k, p))), 'dofs of the interpolant', 1e-8)


@case('C18', n=80, thorough=600)
def restriction(t, i):
    tdim = [2, 1, 2, 3, 2][i % 5]
    mesh = box(t, tdim, 3 if tdim < 3 else 1)
    if t.rng.random() < .3: mesh = shuffled(t, mesh)
    f = df.MeshFunction('size_t', mesh, tdim, 0)
    for k in range(mesh.num_cells()): f[k] = t.rng.choice([0, 1, 2, 3])
    if not {1, 2, 3} <= set(f.array()): raise Skip
    how = t.rng.choice(['one', 'two', 'overlap', 'overlap2', 'overlap2', 'sub of sub'])
    if how in ('overlap', 'overlap2'):        # bands 1, 3, 2
        c = np.argsort(np.argsort([c.midpoint().array()[:tdim] @ t.np.uniform(.9, 1, tdim) for c in df.cells(mesh)]))
        f.array()[:] = np.array([1, 3, 2])[(3 * c) // mesh.num_cells()]
    if how == 'one': src, sub = mesh, SubDomainMesh(f, 1)
    elif how == 'two': src, sub = mesh, EmbeddedMesh(f, (1, 3))
    elif how == 'sub of sub':
        src = SubDomainMesh(f, (1, 2))
        sub = SubDomainMesh(src.marking_function, 2)
    else:
        a, b = SubDomainMesh(f, (1, 3)), SubDomainMesh(f, (2, 3))
        try: sub = OverlapMesh(a, b)
        except AssertionError: raise Skip        # cells that share only all of their vertices
        src = a if how == 'overlap' else b
    kind = t.rng.choice(KINDS[tdim])
    V, Q = df.FunctionSpace(src, element(src, kind)), df.FunctionSpace(sub, element(sub, kind))
    t.input(describe(mesh), f.array().tolist(), how, kind)
    M = df.PETScMatrix(restriction_matrix(V, Q, sub)).array()
    t.expect(M.shape == (Q.dim(), V.dim()), 'shape')
    x = t.np.standard_normal(V.dim())
    cmap = located(sub, src)
    same(t, V, x, Q, M @ x, cmap, 'restriction') if kind != ('CR', 1) else same(t, V, x, Q, M @ x, cmap, 'restriction CR')
    N = df.PETScMatrix(restriction_mat(V, Q, sub, {}).mat()).array()
    t.close(N, M, 'cached', 0)


@case('C18', n=16, thorough=150)
def restriction_form(t, i):
    mesh = box(t, 2, 3)
    f = df.MeshFunction('size_t', mesh, 2, 0)
    for k in range(mesh.num_cells()): f[k] = t.rng.choice([0, 1, 2])
    if not (f.array() == 1).any(): raise Skip
    sub = EmbeddedMesh(f, 1)
    V, Q = df.FunctionSpace(mesh, 'CG', 1), df.FunctionSpace(sub, 'CG', 1)
    t.input(describe(mesh), f.array().tolist())
    u, q = df.TrialFunction(V), df.TestFunction(Q)
    dxs = df.Measure('dx', domain=sub)
    A = ii_convert(ii_assemble(df.inner(Restriction(u, sub), q) * dxs)).array()
    g = df.Expression('1+2*x[0]-3*x[1]', degree=1)
    t.close(A @ df.interpolate(g, V).vector().get_local(), df.assemble(df.inner(df.interpolate(g, Q), q) * df.dx(domain=sub)).get_local(), 'restricted trial function', 1e-9)
    v, p = df.TestFunction(V), df.TrialFunction(Q)
    B = ii_convert(ii_assemble(df.inner(p, Restriction(v, sub)) * dxs)).array()
    t.close(B, A.T, 'restricted test function', 1e-10)
    w = df.Function(V)
    w.vector().set_local(t.np.standard_normal(V.dim()))
    L = ii_convert(ii_assemble(df.inner(Restriction(w, sub), q) * dxs)).get_local()
    t.close(L, A @ w.vector().get_local(), 'restricted function', 1e-9)


@case('C18', n=24, thorough=200)
def evaluators(t, i):
    """Basis functions and degrees of freedom are dual"""
    tdim = [2, 1, 2, 3, 2, 1][i % 6]
    mesh = box(t, tdim, 2 if tdim < 3 else 1) if i % 6 < 4 else manifold(t, tdim)
    kind = t.rng.choice(KINDS[tdim] if i % 6 < 4 else [('CG', 1), ('CG', 2), ('DG', 1), ('vCG', 1)])
    V = df.FunctionSpace(mesh, element(mesh, kind))
    t.input(describe(mesh), kind)
    d, b = DegreeOfFreedom(V), FEBasisFunction(V)
    n = V.element().space_dimension()
    for k in t.rng.sample(range(mesh.num_cells()), min(4, mesh.num_cells())):
        d.cell, b.cell = k, k
        D = np.zeros((n, n))
        for c in range(n):
            b.dof = c
            D[:, c] = d.eval_dofs(b)
            r = t.rng.randrange(n)
            d.dof = r
            t.close(d.eval(b), D[r, c], 'one dof', 1e-13)
        t.close(D, np.eye(n), 'dofs of basis functions', 1e-9)
        x = np.zeros(V.dim())
        c = t.rng.randrange(n)
        x[V.dofmap().cell_dofs(k)[c]] = 1
        b.dof = c
        for p in some_points(t, mesh, k): t.close(b(p).flatten(), value(V, x, k, p), 'value of a basis function', 1e-10)
