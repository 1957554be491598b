"""C12 on concrete spaces; oracle: the function evaluated at points found by an independent search, exact integrals"""
import numpy as np
from runner.base import case, Skip
from runner.geo import *
from runner.lin import dense
from runner.c11 import direction, corner, frame
from xii import (Circle, Disk, Square, SquareRim, Average, FluxAverage, Mean, SurfaceMean, PointTrace, GradientPointTrace,
                 CellPatchAverage, ii_assemble, ii_convert, EmbeddedMesh)
from xii.assembler.average_matrix import avg_mat
from xii.assembler.average_form import average_space
from xii.assembler.flux_average_matrix import flux_avg_mat
from xii.assembler.patch_average_matrix import patch_avg_mat
from xii.assembler.mean_matrix import mean_mat
from xii.assembler.surface_mean_matrix import surface_mean_mat
from xii.assembler.surface_mean_form import surface_mean_space
from xii.assembler.point_trace_matrix import point_trace_mat
from xii.assembler.point_trace_form import point_trace_space
from xii.assembler.gradient_point_trace_matrix import gradient_point_trace_mat
import dolfin as df


def fun(t, V):
    f = df.Function(V)
    f.vector().set_local(t.np.uniform(-1, 1, V.dim()))
    f.vector().apply('insert')
    return f


def locate(mesh, x):
    """Cells that contain x"""
    X = mesh.coordinates()[mesh.cells()]
    E = np.transpose(X[:, 1:] - X[:, :1], (0, 2, 1))
    l = np.linalg.solve(E, np.repeat((x - X[:, 0])[:, :, None], 1, axis=2))[:, :, 0]
    ok = (l.min(1) > -1E-9) & (l.sum(1) < 1 + 1E-9)
    return np.where(ok)[0]


def at(f, x):
    """All values f takes at x (one per cell that contains it)"""
    mesh = f.function_space().mesh()
    vs = []
    for c in locate(mesh, x):
        v = np.zeros(f.function_space().ufl_element().value_size())
        f.eval_cell(v, np.asarray(x, dtype=float), df.Cell(mesh, int(c)))
        vs.append(v)
    return vs


def line_in(t, mesh, k=None):
    """Polyline of segments well inside the unit cube"""
    k = k or t.rng.randint(1, 3)
    if t.rng.random() < .3:
        ax = t.rng.randrange(3)
        base = t.np.uniform(.3, .7, 3)
        X = []
        for j in range(k + 1):
            x = base.copy()
            x[ax] = .3 + .4 * j / k
            X.append(x)
    else: X = list(t.np.uniform(.3, .7, (k + 1, 3)))
    return build(X, [(j, j + 1) if t.rng.random() < .7 else (j + 1, j) for j in range(k)], 1)


def cube(t):
    m = df.UnitCubeMesh(t.rng.randint(1, 2), t.rng.randint(1, 2), t.rng.randint(1, 2))
    return perturb(t, m) if t.rng.random() < .5 else m


SPACES = {'CG1': lambda m: df.FunctionSpace(m, 'CG', 1), 'CG2': lambda m: df.FunctionSpace(m, 'CG', 2),
          'VCG1': lambda m: df.VectorFunctionSpace(m, 'CG', 1), 'VCG2': lambda m: df.VectorFunctionSpace(m, 'CG', 2),
          'TCG1': lambda m: df.TensorFunctionSpace(m, 'CG', 1), 'DG0': lambda m: df.FunctionSpace(m, 'DG', 0),
          'RT1': lambda m: df.FunctionSpace(m, 'RT', 1),
          'V2CG1': lambda m: df.VectorFunctionSpace(m, 'CG', 1, dim=2), 'T23CG1': lambda m: df.TensorFunctionSpace(m, 'CG', 1, shape=(2, 3))}


def a_shape(t):
    """Shape and its points and weights at (x, n) by definition of the shape"""
    R = .2
    k = t.rng.randrange(4)
    m = t.rng.randint(1, 6)
    if k == 0: return 'Circle', Circle(radius=R, degree=m)
    if k == 1: return 'Disk', Disk(radius=R / 1.3, degree=m)
    # corner in the plane, at a direction that depends on the plane only
    def P(x0, n): return x0 + R * frame(n)[0]
    return None, (k, P, m)


class Moving(object):
    """Square shapes whose corner follows the plane"""
    def __init__(self, cls, P, m): self.cls, self.P, self.m = cls, P, m
    def quadrature(self, x0, n): return self.cls(P=self.P(x0, n), degree=self.m).quadrature(x0, n)


def shape(t):
    name, s = a_shape(t)
    if name: return name, s
    k, P, m = s
    cls = Square if k == 2 else SquareRim
    return cls.__name__, Moving(cls, P, m)


def mean_over(t, f, s, x, n, dot=False):
    """Sets of values of the mean of f over the shape"""
    q = s.quadrature(x, n)
    w = np.asarray(list(q.weights))
    tot, slack = 0, 0
    for p, wi in zip(q.points, w):
        p = np.asarray(p)
        v = at(f, p)
        if not v: raise Skip
        if dot: v = [np.array([y.dot((p - x) / np.linalg.norm(p - x))]) for y in v]
        tot = tot + wi * v[0]
        slack = slack + abs(wi) * np.max(np.abs(np.array(v) - v[0]), axis=0)
    return tot / w.sum(), slack / w.sum()


def dofs_of(TV):
    """Cell, point, global dofs of the components"""
    el = TV.element()
    size = TV.ufl_element().value_size()
    X = TV.tabulate_dof_coordinates().reshape((TV.dim(), -1))
    for c in range(TV.mesh().num_cells()):
        dofs = TV.dofmap().cell_dofs(c)
        yield c, X[dofs], dofs


def value(g, x, c):
    v = np.zeros(g.function_space().ufl_element().value_size())
    g.eval_cell(v, np.asarray(x, dtype=float), df.Cell(g.function_space().mesh(), int(c)))
    return v


def check(t, T, f, TV, line, s, key, dot=False):
    g = df.Function(TV)
    g.vector().set_local(dense(T).dot(f.vector().get_local()))
    for c, X, dofs in dofs_of(TV):
        a, b = line.coordinates()[line.cells()[c]]
        for x in np.unique(np.round(X, 12), axis=0):
            # the sense of the curve is not part of the definition
            wants = [mean_over(t, f, s, x, n, dot) for n in (b - a, a - b)]
            got = value(g, x, c)
            t.expect(any(np.all(np.abs(got - want) <= 1E-8 + slack * 1.0001) for want, slack in wants), key,
                     lambda: 'cell %d at %s: %s expected %s' % (c, x, got, wants[0][0]))


@case('C12', 27, 400)
def average(t, i):
    mesh, name = cube(t), list(SPACES)[i % len(SPACES)]
    V = SPACES[name](mesh)
    line = line_in(t, mesh)
    sname, s = shape(t)
    t.input('Average', name, sname, 'of', describe(mesh), 'over', describe(line))
    TV = average_space(V, line)
    t.expect(TV.ufl_element().value_shape() == V.ufl_element().value_shape() and TV.ufl_element().degree() == V.ufl_element().degree()
             and TV.mesh().id() == line.id(), 'average space', str(TV))
    T = avg_mat(V, TV, line, {'shape': s})
    f = fun(t, V)
    check(t, T, f, TV, line, s, 'average over the shape')
    # constants are reproduced
    n = V.ufl_element().value_size()
    k = t.np.uniform(-1, 1, n)
    k = df.Constant(k[0] if n == 1 else k.reshape(V.ufl_element().value_shape()))
    C, CT = df.interpolate(k, V), df.interpolate(k, TV)
    t.close(dense(T).dot(C.vector().get_local()), CT.vector().get_local(), 'average of a constant', 1E-9)
    # through the form language
    if i % 3 == 0:
        q = df.TestFunction(TV)
        A = dense(ii_convert(ii_assemble(df.inner(q, Average(df.TrialFunction(V), line, s)) * df.Measure('dx', domain=line))))
        M = df.assemble(df.inner(df.TrialFunction(TV), q) * df.dx).array()
        t.close(A, M @ dense(T), 'average in a form', 1E-9)


@case('C12', 16, 300)
def trace_3d1d(t, i):
    """Average without shape is the value on the curve"""
    mesh, name = cube(t), ['CG1', 'CG2', 'VCG1', 'TCG1', 'VCG2'][i % 5]
    V = SPACES[name](mesh)
    if i % 2:
        mesh.init(1)
        e = df.MeshFunction('size_t', mesh, 1, 0)
        for k in range(mesh.num_edges()): e.array()[k] = t.rng.choice([0, 0, 1, 2])
        e.array()[t.rng.randrange(mesh.num_edges())] = 1
        line = EmbeddedMesh(e, sorted(set(int(q) for q in e.array()) - {0}))
    else: line = line_in(t, mesh, 1)
    t.input('trace to curve', name, 'of', describe(mesh), 'over', describe(line))
    TV = average_space(V, line)
    f = fun(t, V)
    T = avg_mat(V, TV, line, {'shape': None})
    g = df.Function(TV)
    g.vector().set_local(dense(T).dot(f.vector().get_local()))
    for c, X, dofs in dofs_of(TV):
        cells = locate(mesh, line.coordinates()[line.cells()[c]].mean(0))
        for x in np.unique(np.round(X, 12), axis=0):
            if not i % 2:
                # the cell of the midpoint is extended to the segment
                wants = [value(f, x, k) for k in cells]
            else: wants = at(f, x)
            got = value(g, x, c)
            t.expect(any(np.allclose(got, w, atol=1E-8) for w in wants), 'trace on a curve', lambda: '%s not in %s' % (got, wants))


@case('C12', 16, 300)
def flux(t, i):
    mesh, name = cube(t), ['RT1', 'VCG1', 'VCG2'][i % 3]
    V = SPACES[name](mesh)
    line = line_in(t, mesh)
    R, m = t.rng.choice([.05, .1, .2]), t.rng.randint(1, 6)
    s = Circle(radius=R, degree=m)
    t.input('FluxAverage', name, 'radius', R, 'of', describe(mesh), 'over', describe(line))
    TV = df.FunctionSpace(line, 'DG', V.ufl_element().degree())
    T = flux_avg_mat(V, TV, line, {'shape': s})
    check(t, T, fun(t, V), TV, line, s, 'flux average over the shape', dot=True)
    q = df.TestFunction(TV)
    A = dense(ii_convert(ii_assemble(df.inner(q, FluxAverage(df.TrialFunction(V), line, s)) * df.Measure('dx', domain=line))))
    M = df.assemble(df.inner(df.TrialFunction(TV), q) * df.dx).array()
    t.close(A, M @ dense(T), 'flux average in a form', 1E-9)


def cell_integrals(V, f, cells):
    """Integral of f over the cells (one assembly)"""
    P = df.FunctionSpace(V.mesh(), 'DG', 0)
    b = df.assemble(f * df.TestFunction(P) * df.dx).get_local()
    return sum(b[P.dofmap().cell_dofs(int(c))[0]] for c in cells)


@case('C12', 20, 400)
def patch(t, i):
    d = t.rng.choice([2, 2, 3, 1])
    omega = box(t, d, 2)
    V = df.FunctionSpace(omega, ['CG', 'DG', 'CG'][i % 3], [1, 0, 2][i % 3])
    x = omega.coordinates()
    k = t.rng.randint(1, 4)
    gamma = build(t.np.uniform(-1, 1, (k + 1, d)) if d > 1 else np.linspace(0, 1, k + 1).reshape((-1, 1)), [(j, j + 1) for j in range(k)], 1)
    TV = df.FunctionSpace(gamma, *[('CG', 1), ('DG', 0)][t.rng.randrange(2)])
    patch_f = df.MeshFunction('size_t', omega, d, 0)
    colors = [3, 1, 7, 12]
    a = np.array([t.rng.choice([0] + colors) for _ in range(omega.num_cells())], dtype='uintp')
    a[t.np.permutation(len(a))[:len(colors)]] = colors[:len(a)]
    patch_f.array()[:] = a
    present = sorted(set(int(q) for q in a) - {0})
    vertex_f = df.Function(TV)
    vals = np.array([float(t.rng.choice([0] + present)) for _ in range(TV.dim())])
    vertex_f.vector().set_local(vals)
    coloring = None
    if i % 2:
        # groups of patches that share no vertex
        verts = {c: set(np.unique(omega.cells()[a == c])) for c in present}
        groups = []
        for c in present:
            for g in groups:
                if all(not (verts[c] & verts[q]) for q in g):
                    g.append(c)
                    break
            else: groups.append([c])
        coloring = {np.uintp(c): j for j, g in enumerate(groups) for c in g}
    t.input('patches', a.tolist(), 'values', vals, 'coloring', coloring, V.ufl_element().shortstr())
    T = patch_avg_mat(V, TV, gamma, {'vertex_f': vertex_f, 'patch_f': patch_f, 'patch_coloring': coloring})
    f = fun(t, V)
    got = dense(T).dot(f.vector().get_local())
    vol = volumes(omega)
    want = np.zeros(TV.dim())
    for r in range(TV.dim()):
        if vals[r]:
            cells = np.where(a == int(vals[r]))[0]
            want[r] = cell_integrals(V, f, cells) / vol[cells].sum()
    t.close(got, want, 'patch average')
    one = dense(T).dot(np.ones(V.dim()))
    t.close(one, (vals != 0).astype(float), 'patch average of a constant')
    if i % 4 == 0:
        u, q = df.TrialFunction(V), df.TestFunction(TV)
        A = dense(ii_convert(ii_assemble(df.inner(q, CellPatchAverage(u, vertex_f, patch_f, coloring)) * df.Measure('dx', domain=gamma))))
        t.close(A, df.assemble(df.inner(df.TrialFunction(TV), q) * df.dx).array() @ dense(T), 'patch average in a form')


@case('C12', 8, 100)
def patch_dirac(t, i):
    """Without patches the value at the same point"""
    omega = box(t, t.rng.choice([2, 3]), 2)
    d = omega.topology().dim()
    omega.init(1)
    e = df.MeshFunction('size_t', omega, 1, 0)
    for k in range(omega.num_edges()): e.array()[k] = t.rng.choice([0, 1])
    e.array()[0] = 1
    gamma = EmbeddedMesh(e, 1)
    V, TV = df.FunctionSpace(omega, 'CG', 1), df.FunctionSpace(gamma, 'CG', 1)
    t.input('dirac patches', describe(gamma), describe(omega))
    T = patch_avg_mat(V, TV, gamma, {'vertex_f': df.Function(TV), 'patch_f': None, 'patch_coloring': None})
    f = fun(t, V)
    got = dense(T).dot(f.vector().get_local())
    X = TV.tabulate_dof_coordinates().reshape((TV.dim(), -1))
    t.close(got, [at(f, x)[0][0] for x in X], 'point average')


@case('C12', 10, 150)
def mean(t, i):
    mesh = box(t, t.rng.choice([1, 2, 3]), 2)
    V = df.FunctionSpace(mesh, *[('CG', 1), ('DG', 0), ('CG', 2)][i % 3])
    f = fun(t, V)
    d = mesh.topology().dim()
    tags = df.MeshFunction('size_t', mesh, d, 0)
    for k in range(mesh.num_cells()): tags.array()[k] = t.rng.choice([0, 1])
    tags.array()[0] = 1
    W = df.FunctionSpace(mesh, 'DG', 0)
    weight = [None, df.Constant(t.rng.uniform(.5, 2)), fun(t, W)][t.rng.randrange(3)]
    part = t.rng.random() < .6
    measure = df.Measure('dx', domain=mesh, subdomain_data=tags)(1) if part else None
    cells = np.where(tags.array() == 1)[0] if part else range(mesh.num_cells())
    t.input('Mean', V.ufl_element().shortstr(), describe(mesh), 'part' if part else 'all', type(weight).__name__)
    R = df.FunctionSpace(mesh, 'Real', 0)
    T = mean_mat(V, R, mesh, {'weight': weight, 'measure': measure})
    vol = volumes(mesh)
    w = [1 if weight is None else float(weight) if isinstance(weight, df.Constant) else weight.vector().get_local()[W.dofmap().cell_dofs(c)[0]] for c in range(mesh.num_cells())]
    want = sum(w[c] * cell_integrals(V, f, [c]) for c in cells)
    t.close(dense(T).dot(f.vector().get_local()), [want], 'mean')
    u, q = df.TrialFunction(V), df.TestFunction(R)
    A = dense(ii_convert(ii_assemble(df.inner(q, Mean(u, weight=weight, measure=measure)) * df.Measure('dx', domain=mesh))))
    t.close(A, vol.sum() * dense(T), 'mean in a form')


@case('C12', 10, 150)
def surface_mean(t, i):
    mesh = box(t, t.rng.choice([2, 3]), 2)
    d = mesh.topology().dim()
    V = df.FunctionSpace(mesh, *[('CG', 1), ('CG', 2)][i % 2])
    if i % 3: gamma = df.BoundaryMesh(mesh, 'exterior')
    else:
        f = df.MeshFunction('size_t', mesh, d - 1, 0)
        for k in range(mesh.num_facets()): f.array()[k] = t.rng.choice([0, 1])
        f.array()[0] = 1
        gamma = EmbeddedMesh(f, 1)
    t.input('SurfaceMean', describe(gamma), 'in', describe(mesh))
    u = fun(t, V)
    area = volumes(gamma).sum()
    TV = df.FunctionSpace(gamma, V.ufl_element().family(), V.ufl_element().degree())
    X = TV.tabulate_dof_coordinates().reshape((TV.dim(), -1))
    Tu = df.Function(TV)
    Tu.vector().set_local(np.array([at(u, x)[0][0] for x in X]))
    want = df.assemble(Tu * df.dx) / area
    R = surface_mean_space(V, gamma)
    t.expect(R.dim() == 1, 'surface mean space', str(R.dim()))
    T = surface_mean_mat(V, R, gamma, {})
    t.close(dense(T).dot(u.vector().get_local()), [want], 'surface mean')
    t.close(dense(T).dot(np.ones(V.dim())), [1.], 'surface mean of a constant')
    q, dx_ = df.TestFunction(R), df.Measure('dx', domain=gamma)
    A = dense(ii_convert(ii_assemble(df.inner(q, SurfaceMean(df.TrialFunction(V), gamma)) * dx_)))
    t.close(A, area * dense(T), 'surface mean in a form')


def network(t):
    g = t.rng.choice([2, 3])
    n = t.rng.randint(3, 6)
    X = t.np.uniform(-1, 1, (n, g))
    cells = [(t.rng.randrange(j), j) if t.rng.random() < .5 else (j, t.rng.randrange(j)) for j in range(1, n)]
    return build(X, cells, 1)


@case('C12', 30, 500)
def point_trace_dg(t, i):
    mesh = network(t)
    g = mesh.geometry().dim()
    V = df.FunctionSpace(mesh, 'DG', t.rng.choice([1, 2]))
    W = df.FunctionSpace(mesh, 'DG', 0)
    c = t.rng.randrange(mesh.num_cells())
    k = t.rng.randrange(2)
    p = mesh.cells()[c][k]
    t.input('point', p, 'cell', c, 'on', describe(mesh))
    f = fun(t, V)
    R = df.FunctionSpace(mesh, 'R', 0)
    T = point_trace_mat(V, R, mesh, {'point': int(p), 'cell': c})
    t.close(dense(T).dot(f.vector().get_local()), value(f, mesh.coordinates()[p], c), 'point trace')
    t.close(dense(point_trace_mat(W, R, mesh, {'point': int(p), 'cell': np.int64(c)})).dot(np.arange(W.dim(), dtype=float)),
            [float(W.dofmap().cell_dofs(c)[0])], 'point trace of a cell-wise constant')
    # directional derivative: direction along the cell, or any
    a, b = mesh.coordinates()[mesh.cells()[c]]
    tau = (b - a) / np.linalg.norm(b - a)
    x = mesh.coordinates()[p]
    h = 1E-3 * np.linalg.norm(b - a)
    L = np.linalg.norm(b - a)
    # exact derivative of a polynomial of degree <= 2 along the cell from three values
    v0, vm, v1 = (value(f, a + s * (b - a), c)[0] for s in (0, .5, 1))
    s = 0. if k == 0 else 1.
    ds = (v0 * (4 * s - 3) + vm * (4 - 8 * s) + v1 * (4 * s - 1)) / L
    for direction_ in (tau, -2 * tau, t.np.uniform(-1, 1, g), t.np.uniform(-1, 1, g)):
        form = t.rng.randrange(3)
        if form == 0: given = direction_
        elif form == 1: given = df.Constant(direction_)
        else:
            given = df.interpolate(df.Constant(direction_), df.VectorFunctionSpace(mesh, 'R', 0, g))
        D = gradient_point_trace_mat(V, R, mesh, {'point': int(p), 'cell': c, 'tangent': given})
        # the gradient of a function on a curve is tangential
        t.close(dense(D).dot(f.vector().get_local()), [ds * tau.dot(direction_)], 'gradient point trace', 1E-7)


@case('C12', 20, 300)
def point_trace_cg(t, i):
    mesh = box(t, t.rng.choice([1, 2, 3]), 2)
    g = mesh.geometry().dim()
    kind = t.rng.choice(['scalar', 'vector', 'tensor', 'scalar2'])
    V = {'scalar': lambda: df.FunctionSpace(mesh, 'CG', 1), 'scalar2': lambda: df.FunctionSpace(mesh, 'CG', 2),
         'vector': lambda: df.VectorFunctionSpace(mesh, 'CG', 1, 2), 'tensor': lambda: df.TensorFunctionSpace(mesh, 'CG', 1, (2, 2))}[kind]()
    c = t.rng.randrange(mesh.num_cells())
    p = int(t.rng.choice(list(mesh.cells()[c])))
    t.input('point trace', kind, 'vertex', p, 'of', describe(mesh))
    f = fun(t, V)
    R = point_trace_space(V, mesh)
    t.expect(R.ufl_element().value_shape() == V.ufl_element().value_shape(), 'point trace space', '')
    T = point_trace_mat(V, R, mesh, {'point': p, 'cell': c})
    t.close(dense(T).dot(f.vector().get_local()), value(f, mesh.coordinates()[p], c), 'point trace of a continuous function')
    q = df.TestFunction(R)
    A = dense(ii_convert(ii_assemble(df.inner(q, PointTrace(df.TrialFunction(V), p, c)) * df.Measure('dx', domain=mesh))))
    t.close(A, volumes(mesh).sum() * dense(T), 'point trace in a form')


@case('C12', 6, 60)
def point_trace_forms(t, i):
    mesh = network(t)
    V, R = df.FunctionSpace(mesh, 'DG', 1), df.FunctionSpace(mesh, 'R', 0)
    u, q = df.TrialFunction(V), df.TestFunction(R)
    c = t.rng.randrange(mesh.num_cells())
    p = int(mesh.cells()[c][t.rng.randrange(2)])
    tau = t.np.uniform(-1, 1, mesh.geometry().dim())
    t.input('point', p, 'cell', c, 'direction', tau, describe(mesh))
    L = volumes(mesh).sum()
    dx_ = df.Measure('dx', domain=mesh)
    A = dense(ii_convert(ii_assemble(df.inner(q, PointTrace(u, p, c)) * dx_)))
    t.close(A, L * dense(point_trace_mat(V, R, mesh, {'point': p, 'cell': c})), 'point trace in a form')
    A = dense(ii_convert(ii_assemble(df.inner(q, GradientPointTrace(u, p, c, df.Constant(tau))) * dx_)))
    f = df.interpolate(df.Expression('x[0]*a[0] + x[1]*a[1]', degree=1, a=df.Constant(tau[:2])), V) if False else fun(t, V)
    a, b = mesh.coordinates()[mesh.cells()[c]]
    e = (b - a) / np.linalg.norm(b - a)
    want = L * (value(f, b, c)[0] - value(f, a, c)[0]) / np.linalg.norm(b - a) * e.dot(tau)
    t.close(A.dot(f.vector().get_local()), [want], 'gradient point trace in a form', 1E-8)


@case('C12', 16, 300)
def average_of_quadratics(t, i):
    """Closed form: mean over circle, disk, square and rim"""
    mesh = cube(t)
    vec = i % 2
    V = SPACES['VCG2' if vec else 'CG2'](mesh)
    line = line_in(t, mesh)
    sym = t.np.uniform(-1, 1, (3, 3, 3))
    g, k0 = t.np.uniform(-1, 1, (3, 3)), t.np.uniform(-1, 1, 3)
    nc = 3 if vec else 1
    p = lambda c, x: k0[c] + g[c].dot(x) + x.dot(sym[c]).dot(x)

    class P(df.UserExpression):
        def eval(self, v, x):
            for c in range(nc): v[c] = p(c, x)
        def value_shape(self): return (3, ) if vec else ()
    f = df.interpolate(P(degree=2), V)
    R = .15
    grow = t.np.uniform(-.2, .2, 3)
    rad = (lambda x: R * (1 + grow.dot(x))) if t.rng.random() < .5 else R
    r_at = rad if callable(rad) else (lambda x: R)
    which = t.rng.randrange(4)
    shape_, factor = [(Circle(radius=rad, degree=14), lambda r: r ** 2 / 2), (Disk(radius=rad, degree=5), lambda r: r ** 2 / 4),
                      (Moving(Square, lambda x, n: x + R * frame(n)[0], 3), lambda r: 2 * R ** 2 / 12),
                      (Moving(SquareRim, lambda x, n: x + R * frame(n)[0], 3), lambda r: 2 * R ** 2 / 6)][which]
    t.input('mean of a quadratic over', ['circle', 'disk', 'square', 'rim'][which], 'vector' if vec else 'scalar', describe(line))
    TV = average_space(V, line)
    T = avg_mat(V, TV, line, {'shape': shape_})
    h = df.Function(TV)
    h.vector().set_local(dense(T).dot(f.vector().get_local()))
    for c, X, dofs in dofs_of(TV):
        a, b = line.coordinates()[line.cells()[c]]
        n = (b - a) / np.linalg.norm(b - a)
        for x in np.unique(np.round(X, 12), axis=0):
            want = [p(k, x) + factor(r_at(x)) * (np.trace(sym[k]) - n.dot(sym[k]).dot(n)) for k in range(nc)]
            t.close(value(h, x, c), want, 'mean of a quadratic', 1E-8)
