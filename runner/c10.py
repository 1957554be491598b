"""C10 on concrete spaces; oracle: the function itself evaluated at points of the trace mesh"""
import numpy as np
from runner.base import case, Skip
from runner.geo import *
from runner.lin import dense
from xii import EmbeddedMesh, Trace, TransposeTrace, ii_assemble, ii_convert
from xii.assembler.trace_matrix import trace_mat
from xii.assembler.trace_form import trace_space, trace_element, trace_cell
from xii.assembler.transpose_trace_matrix import transpose_trace_mat
import dolfin as df


def fun(t, V, vals=None):
    f = df.Function(V)
    f.vector().set_local(t.np.uniform(-1, 1, V.dim()) if vals is None else vals)
    f.vector().apply('insert')
    return f


def value(f, x, cell):
    v = np.zeros(f.function_space().ufl_element().value_size())
    f.eval_cell(v, np.asarray(x, dtype=float), df.Cell(f.function_space().mesh(), int(cell)))
    return v


def points(t, X):
    """Random points and the vertices of a simplex"""
    w = t.np.dirichlet(np.ones(len(X)), 2)
    return list(w @ X) + [X[0] * .999 + X[-1] * .001]


SPACES = {'CG1': lambda m: df.FunctionSpace(m, 'CG', 1), 'CG2': lambda m: df.FunctionSpace(m, 'CG', 2),
          'VCG1': lambda m: df.VectorFunctionSpace(m, 'CG', 1), 'VCG2': lambda m: df.VectorFunctionSpace(m, 'CG', 2),
          'TCG1': lambda m: df.TensorFunctionSpace(m, 'CG', 1), 'DG0': lambda m: df.FunctionSpace(m, 'DG', 0),
          'DG1': lambda m: df.FunctionSpace(m, 'DG', 1), 'VDG1': lambda m: df.VectorFunctionSpace(m, 'DG', 1),
          'RT1': lambda m: df.FunctionSpace(m, 'RT', 1), 'N1curl1': lambda m: df.FunctionSpace(m, 'N1curl', 1),
          'BDM1': lambda m: df.FunctionSpace(m, 'BDM', 1), 'CR': lambda m: df.FunctionSpace(m, 'CR', 1),
          'Stokes': lambda m: df.FunctionSpace(m, df.MixedElement([df.VectorElement('CG', m.ufl_cell(), 2), df.FiniteElement('CG', m.ufl_cell(), 1)])),
          'V3': lambda m: df.VectorFunctionSpace(m, 'CG', 1, 4), 'T32': lambda m: df.TensorFunctionSpace(m, 'CG', 1, (3, 2))}
CONT = ('CG1', 'CG2', 'VCG1', 'VCG2', 'TCG1', 'Stokes', 'V3', 'T32')
FLAT = ('RT1', 'N1curl1', 'BDM1')          # need an oriented mesh: not on manifolds


def domain(t, i, flat=False):
    k = i % 5
    if k < 3: return box(t, 2, 2)
    if k == 3: return box(t, 3, 1)
    return box(t, 2, 2) if flat else manifold(t, 2)


def interface(t, mesh, interior=False):
    """Trace mesh of marked facets, two or three tags"""
    d = mesh.topology().dim() - 1
    mesh.init(d, d + 1)
    f2c = mesh.topology()(d, d + 1)
    f = df.MeshFunction('size_t', mesh, d, 0)
    for k in range(len(f.array())):
        if not interior or len(f2c(k)) == 2: f.array()[k] = t.rng.choice([0, 1, 2, 5])
    if not f.array().any():
        k = next((k for k in range(len(f.array())) if not interior or len(f2c(k)) == 2), None)
        if k is None: raise Skip
        f.array()[k] = 1
    tags = sorted(set(int(q) for q in f.array()) - {0})
    return EmbeddedMesh(f, tags), tags, f2c


def normal(t, gamma, mesh, f2c):
    """Cell-wise unit normals on gamma and the parent cells (plus, minus)"""
    d = gamma.topology().dim()
    m = gamma.parent_entity_map[mesh.id()][d]
    V = df.VectorFunctionSpace(gamma, 'DG', 0, gamma.geometry().dim())
    n = df.Function(V)
    v = n.vector().get_local()
    sides = []
    for c in range(gamma.num_cells()):
        X = gamma.coordinates()[gamma.cells()[c]]
        cells = list(f2c(m[c]))
        t.rng.shuffle(cells)
        plus = cells[0]
        # component of the way out of the plus cell orthogonal to the facet
        r = X.mean(0) - mesh.coordinates()[mesh.cells()[plus]].mean(0)
        E = (X[1:] - X[0]).T
        r = r - E @ np.linalg.lstsq(E, r, rcond=None)[0]
        v[V.dofmap().cell_dofs(c)] = r / np.linalg.norm(r)
        sides.append(cells)
    n.vector().set_local(v)
    return n, sides


def tagged(gamma, tags): return [c for c in range(gamma.num_cells()) if gamma.marking_function.array()[c] in tags]


def data(t, gamma, tags, r='', n=None): return dict(restriction=r, normal=n, tag_data=(gamma.marking_function, set(tags)))


def check_trace(t, T, f, TV, gamma, tags, want, key):
    """want(c, x): list of allowed values at point x of cell c"""
    g = df.Function(TV)
    g.vector().set_local(dense(T).dot(f.vector().get_local()))
    on = set(tagged(gamma, tags))
    for c in range(gamma.num_cells()):
        if c not in on:
            t.close(g.vector().get_local()[TV.dofmap().cell_dofs(c)], np.zeros(len(TV.dofmap().cell_dofs(c))), key + ' off the tags', 1e-13)
            continue
        pts = points(t, gamma.coordinates()[gamma.cells()[c]])
        got = [value(g, x, c) for x in pts]
        alts = list(zip(*[want(c, x) for x in pts]))
        best = min(alts, key=lambda w: np.max(np.abs(np.array(w) - np.array(got))))
        if not t.close(got, best, key, 1e-9, 'cell %d' % c): break


def some_tags(t, tags): return tags if t.rng.random() < .5 else t.rng.sample(tags, t.rng.randint(1, len(tags)))


def conforming(t, i, names):
    mesh = domain(t, i)
    if mesh.topology().dim() < mesh.geometry().dim(): names = [n for n in names if n not in FLAT]
    if mesh.topology().dim() == 3: names = [n for n in names if n in ('CG1', 'VCG1', 'CG2', 'DG0', 'DG1', 'RT1', 'N1curl1')]
    name = t.rng.choice(names)
    return mesh, name, SPACES[name](mesh)


@case('C10', n=60, thorough=500)
def no_restriction(t, i):
    mesh, name, V = conforming(t, i, list(SPACES))
    gamma, tags, f2c = interface(t, mesh)
    ask = some_tags(t, tags)
    t.input(name, describe(mesh), gamma.marking_function.array().tolist(), ask)
    TV = trace_space(V, gamma)
    f = fun(t, V)
    m = gamma.parent_entity_map[mesh.id()][gamma.topology().dim()]
    T = trace_mat(V, TV, gamma, data(t, gamma, ask))
    check_trace(t, T, f, TV, gamma, ask, lambda c, x: [value(f, x, k) for k in f2c(m[c])], 'trace')


@case('C10', n=60, thorough=500)
def restricted(t, i):
    mesh, name, V = conforming(t, i, list(SPACES))
    gamma, tags, f2c = interface(t, mesh, interior=True)
    n, sides = normal(t, gamma, mesh, f2c)
    ask = some_tags(t, tags)
    t.input(name, describe(mesh), gamma.marking_function.array().tolist(), ask, n.vector().get_local().tolist())
    TV = trace_space(V, gamma)
    f = fun(t, V)
    both = lambda c, x: [value(f, x, k) for k in sides[c]]
    for r, want in (('+', lambda c, x: [both(c, x)[0]]), ('-', lambda c, x: [both(c, x)[1]]),
                    ('avg', lambda c, x: [sum(both(c, x)) / 2]), ('jump', lambda c, x: [both(c, x)[0] - both(c, x)[1]])):
        with t.guard('restriction ' + r):
            check_trace(t, trace_mat(V, TV, gamma, data(t, gamma, ask, r, n)), f, TV, gamma, ask, want, 'restriction ' + r)


@case('C10', n=24, thorough=200)
def boundary(t, i):
    """Boundary mesh without maps and marks; one sided from inside"""
    mesh, name, V = conforming(t, i, ['CG1', 'VCG1', 'DG1', 'CG2'])
    if mesh.topology().dim() < mesh.geometry().dim(): raise Skip
    b = df.BoundaryMesh(mesh, 'exterior')
    d = b.topology().dim()
    mesh.init(d, d + 1)
    f2c = mesh.topology()(d, d + 1)
    e = b.entity_map(d).array()
    f, TV = fun(t, V), trace_space(V, b)
    b.marking_function = df.MeshFunction('size_t', b, d, 0)
    t.input(name, describe(mesh))
    want = lambda c, x: [value(f, x, k) for k in f2c(int(e[c]))]
    n = df.Function(df.VectorFunctionSpace(b, 'DG', 0, d + 1))
    v = n.vector().get_local()
    for c in range(b.num_cells()):
        X = b.coordinates()[b.cells()[c]]
        E = (X[1:] - X[0]).T
        r = X.mean(0) - mesh.coordinates()[mesh.cells()[f2c(int(e[c]))[0]]].mean(0)
        r -= E @ np.linalg.lstsq(E, r, rcond=None)[0]
        v[n.function_space().dofmap().cell_dofs(c)] = r / np.linalg.norm(r)
    n.vector().set_local(v)
    for r, m in (('', None), ('+', n), ('avg', n)):
        T = trace_mat(V, TV, b, dict(restriction=r, normal=m, tag_data=(b.marking_function, {0})))
        check_trace(t, T, f, TV, b, {0}, want, 'trace on the boundary ' + r)
    # by form, without marks
    c = df.BoundaryMesh(mesh, 'exterior')
    q = df.TestFunction(df.VectorFunctionSpace(c, 'DG', 0, d + 1) if len(f.ufl_shape) else df.FunctionSpace(c, 'DG', 0))
    if f.ufl_shape in ((), (d + 1, )) and name != 'DG1':
        got = ii_assemble(df.inner(Trace(f, c), q) * df.Measure('dx', domain=c)).get_local().sum()
        n1 = df.Constant(1) if not f.ufl_shape else df.Constant((1, ) * (d + 1))
        t.close(got, df.assemble(df.inner(f, n1) * df.ds(domain=mesh)), 'integral of the trace', 1e-10)


@case('C10', n=40, thorough=300)
def other_spaces(t, i):
    """Coefficients in any Lagrange space are values at its nodes"""
    mesh, name, V = conforming(t, i, ['CG1', 'CG2', 'VCG1'])
    gamma, tags, f2c = interface(t, mesh)
    ask = some_tags(t, tags)
    fam, deg = t.rng.choice([('CG', 1), ('CG', 2), ('DG', 0), ('DG', 1), ('DG', 2)])
    TV = df.VectorFunctionSpace(gamma, fam, deg, V.ufl_element().value_size()) if len(V.ufl_element().value_shape()) else df.FunctionSpace(gamma, fam, deg)
    t.input(name, fam, deg, describe(mesh), gamma.marking_function.array().tolist(), ask)
    f = fun(t, V)
    T = trace_mat(V, TV, gamma, data(t, gamma, ask))
    got = dense(T).dot(f.vector().get_local())
    m = gamma.parent_entity_map[mesh.id()][gamma.topology().dim()]
    x = TV.tabulate_dof_coordinates()
    want = np.zeros(TV.dim())
    k = TV.num_sub_spaces()
    for c in tagged(gamma, ask):
        for s in range(max(1, k)):
            for dof in (TV.sub(s) if k else TV).dofmap().cell_dofs(c): want[dof] = value(f, x[dof], f2c(m[c])[0])[s]
    t.close(got, want, 'coefficients of the trace', 1e-10)
    # transposed
    if fam == 'CG' and mesh.geometry().dim() == mesh.topology().dim() and not k:
        W = df.FunctionSpace(mesh, 'CG', deg)
        S = dense(transpose_trace_mat(TV, W, gamma, None))
        D = dense(trace_mat(W, TV, gamma, data(t, gamma, tags)))
        t.close(S, D.T, 'transposed trace', 1e-12)


@case('C10', n=30, thorough=200)
def spaces(t, i):
    mesh, name, V = conforming(t, i, list(SPACES))
    gamma, tags, _ = interface(t, mesh)
    t.input(name, describe(mesh))
    TV = trace_space(V, gamma)
    e, T = V.ufl_element(), TV.ufl_element()
    t.expect(T.value_shape() == e.value_shape(), 'value shape', '%s %s' % (T, e))
    t.expect(T.degree() == e.degree(), 'degree', '%s %s' % (T, e))
    t.expect(TV.mesh().id() == gamma.id() and T.cell() == gamma.ufl_cell() and trace_cell(V) == gamma.ufl_cell(), 'cell')
    if e.num_sub_elements() and name == 'Stokes':
        t.expect([s.value_shape() for s in T.sub_elements()] == [s.value_shape() for s in e.sub_elements()]
                 and [s.degree() for s in T.sub_elements()] == [s.degree() for s in e.sub_elements()], 'sub-elements', '%s %s' % (T, e))


@case('C10', n=20, thorough=150)
def facet_functions(t, i):
    """Functions living on facets"""
    mesh = box(t, 2, 2) if i % 3 else box(t, 3, 1)
    gamma, tags, f2c = interface(t, mesh)
    ask = some_tags(t, tags)
    d = gamma.topology().dim()
    vec = i % 2 and d == 1
    V = (df.VectorFunctionSpace if vec else df.FunctionSpace)(mesh, 'Discontinuous Lagrange Trace', 0)
    TV = (df.VectorFunctionSpace if vec else df.FunctionSpace)(gamma, 'DG', 0, **(dict(dim=d + 1) if vec else {}))
    t.input(describe(mesh), gamma.marking_function.array().tolist(), ask, vec)
    f = fun(t, V)
    got = dense(trace_mat(V, TV, gamma, data(t, gamma, ask))).dot(f.vector().get_local())
    m = gamma.parent_entity_map[mesh.id()][d]
    for s in range(d + 1 if vec else 1):
        Vs, Ts = (V.sub(s), TV.sub(s)) if vec else (V, TV)
        dofs = Vs.dofmap().entity_dofs(mesh, d)
        for c in range(gamma.num_cells()):
            want = f.vector().get_local()[dofs[m[c]]] if gamma.marking_function.array()[c] in ask else 0.
            t.close(got[Ts.dofmap().cell_dofs(c)[0]], want, 'value on facet', 1e-13)


@case('C10', n=30, thorough=250)
def other_mesh(t, i):
    """Trace mesh made from a mesh with another numbering"""
    mesh, name, V = conforming(t, i, ['CG1', 'CG2', 'VCG1', 'DG1'])
    gamma, tags, _ = interface(t, shuffled(t, mesh), interior=True)
    t.input(name, describe(mesh), gamma.marking_function.array().tolist())
    d = gamma.topology().dim()
    mesh.init(d, d + 1)
    f2c = mesh.topology()(d, d + 1)
    keys = {k: e for e, k in enumerate(entity_keys(mesh, d))}
    m = [keys[k] for k in entity_keys(gamma, d)]
    f, TV = fun(t, V), trace_space(V, gamma)
    for rep in range(3):
        ask = t.rng.sample(tags, t.rng.randint(1, len(tags)))
        with t.guard('trace of another mesh'):
            check_trace(t, trace_mat(V, TV, gamma, data(t, gamma, ask)), f, TV, gamma, ask,
                        lambda c, x: [value(f, x, k) for k in f2c(m[c])], 'trace of another mesh')


@case('C10', n=30, thorough=250)
def nonconforming(t, i):
    """Trace mesh cutting through cells; point values of a continuous function"""
    dim = 2 if i % 3 else 3
    mesh = box(t, dim, 3 if dim == 2 else 1)
    lo, up = mesh.coordinates().min(0), mesh.coordinates().max(0)
    k = t.rng.randint(2, 5)
    if dim == 2:
        s = np.linspace(0, 1, k)
        g = build(lo + (up - lo) * np.c_[.05 + .9 * s, .2 + .5 * s ** 2], [(a, a + 1) for a in range(k - 1)], 1)
    else:
        q = df.UnitSquareMesh(2, 2)
        y = q.coordinates()
        g = build(lo + (up - lo) * np.c_[.05 + .9 * y[:, 0], .1 + .7 * y[:, 1], .3 + .2 * y[:, 0] * y[:, 1]], q.cells(), 2)
    f_ = df.MeshFunction('size_t', g, dim - 1, 0)
    f_.array()[:] = t.np.randint(0, 2, g.num_cells())
    g.marking_function = f_
    tags = sorted(set(int(q) for q in f_.array()))
    name = t.rng.choice(['CG1', 'CG2', 'VCG1'] if dim == 2 else ['CG1', 'VCG1'])
    V = SPACES[name](mesh)
    f = fun(t, V)
    ask = some_tags(t, tags)
    fam = t.rng.choice(['CG', 'DG'])
    for TV in (trace_space(V, g), (df.VectorFunctionSpace(g, fam, 1, dim) if name[0] == 'V' else df.FunctionSpace(g, fam, 1))):
        t.input(name, fam, describe(mesh), describe(g), ask)
        got = dense(trace_mat(V, TV, g, data(t, g, ask))).dot(f.vector().get_local())
        x = TV.tabulate_dof_coordinates()
        want = np.zeros(TV.dim())
        for c in np.where(np.isin(f_.array(), ask))[0]:
            for s in range(max(1, TV.num_sub_spaces())):
                for dof in (TV.sub(s) if TV.num_sub_spaces() else TV).dofmap().cell_dofs(c):
                    want[dof] = np.atleast_1d(f(x[dof]))[s]
        t.close(got, want, 'non-conforming trace', 1e-9)


GAUSS = {1: ([(.5 - np.sqrt(.15), ), (.5, ), (.5 + np.sqrt(.15), )], [5 / 18., 8 / 18., 5 / 18.]),
         2: ([(1 / 6., 1 / 6.), (2 / 3., 1 / 6.), (1 / 6., 2 / 3.)], [1 / 3.] * 3)}


@case('C10', n=30, thorough=200)
def forms(t, i):
    """Integrals of traces with tag and restriction; oracle: quadrature of the function on facets of the sides"""
    mesh = box(t, 2, 2) if i % 4 else box(t, 3, 1)
    name = t.rng.choice(['CG1', 'DG1', 'VDG1', 'RT1', 'CG2'] if i % 4 else ['CG1', 'DG1'])
    V = SPACES[name](mesh)
    gamma, tags, f2c = interface(t, mesh, interior=True)
    n, sides = normal(t, gamma, mesh, f2c)
    f = fun(t, V)
    dx = df.Measure('dx', domain=gamma)
    pt, w = GAUSS[gamma.topology().dim()]
    comp = lambda u: u[1] if len(u.ufl_shape) else u
    deg1 = name in ('CG1', 'DG1', 'VDG1', 'RT1')
    for r in ('', '+', '-', 'avg', 'jump'):
        if r == '' and name not in ('CG1', 'CG2'): continue
        ask = None if t.rng.random() < .4 else some_tags(t, tags)
        tag = None if ask is None else ask[0] if len(ask) == 1 and t.rng.random() < .5 else t.rng.choice([tuple, list, set])(ask)
        t.input(name, r, describe(mesh), gamma.marking_function.array().tolist(), tag)
        u = Trace(f, gamma, restriction=r, normal=n if r else None, tag=tag)
        form = (comp(u) ** 2 if deg1 else comp(u)) * dx
        want = 0
        for c in (range(gamma.num_cells()) if ask is None else tagged(gamma, ask)):
            X = gamma.coordinates()[gamma.cells()[c]]
            for p, q in zip(pt, w):
                x = X[0] + (X[1:] - X[0]).T @ np.array(p)
                a, b = [value(f, x, k) for k in sides[c]]
                v = {'': a, '+': a, '-': b, 'avg': (a + b) / 2, 'jump': a - b}[r]
                v = v[1] if len(v) > 1 else v[0]
                want += measure(X) * q * (v ** 2 if deg1 else v)
        with t.guard('integral of trace ' + r):
            t.close(ii_assemble(form), want, 'integral of trace ' + r, 1e-9)


@case('C10', n=12, thorough=80)
def transposed_forms(t, i):
    mesh = box(t, 2, 2) if i % 3 else box(t, 3, 1)
    gamma, tags, f2c = interface(t, mesh)
    k = t.rng.choice([1, 2]) if i % 3 else 1
    V, Q = df.FunctionSpace(mesh, 'CG', k), df.FunctionSpace(gamma, 'CG', k)
    t.input(describe(mesh), k, gamma.marking_function.array().tolist())
    T = dense(trace_mat(V, Q, gamma, data(t, gamma, tags)))
    M = df.assemble(df.inner(df.TrialFunction(V), df.TestFunction(V)) * df.dx).array()
    u, v, p, q = df.TrialFunction(V), df.TestFunction(V), df.TrialFunction(Q), df.TestFunction(Q)
    dx = df.dx(domain=mesh)
    t.close(dense(ii_convert(ii_assemble(u * TransposeTrace(q, gamma) * dx))), T @ M, 'extended test function', 1e-11)
    t.close(dense(ii_convert(ii_assemble(TransposeTrace(p, gamma, mesh) * v * dx))), M @ T.T, 'extended trial function', 1e-11)
    f = fun(t, Q)
    t.close(ii_assemble(TransposeTrace(f, gamma) * v * dx).get_local(), M @ T.T @ f.vector().get_local(), 'extended function', 1e-11)
