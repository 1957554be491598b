"""C11 on concrete shapes; oracle: closed form integrals and the geometry of the shape"""
import numpy as np
from math import gamma, factorial
from runner.base import case
from xii import Circle, Disk, Square, SquareRim
from xii.assembler.average_shape import Quadrature
from xii.assembler.average_matrix import MeasureFunction
from runner.geo import *
import dolfin as df


def frame(n):
    """Orthonormal frame of the plane orthogonal to n"""
    n = n / np.linalg.norm(n)
    a = np.eye(3)[np.argmin(np.abs(n))]
    u = np.cross(n, a)
    u /= np.linalg.norm(u)
    return u, np.cross(n, u), n


def direction(t, i):
    k = i % 5
    if k == 0: return t.rng.choice([-1, 1]) * np.eye(3)[t.rng.randrange(3)] * t.rng.choice([1, .3, 7])
    if k == 1: return np.array([t.rng.choice([-1, 1]) * 1E-7, 1E-9, t.rng.choice([-1, 1])])
    if k == 2: return t.np.uniform(-1, 1, 3) * [1, 1, 0] + [0, .1, 0]
    n = t.np.randn(3)
    return n * t.rng.choice([1, .01, 40])


def setting(t, i):
    x0 = t.np.uniform(-2, 2, 3) if i % 7 else np.zeros(3)
    return x0, direction(t, i), t.rng.choice([.01, .3, 1, 2.5])


def parts(t, q, x0, n, key):
    pts, w = np.array([np.asarray(x, dtype=float) for x in q.points]), np.asarray(list(q.weights), dtype=float)
    t.expect(pts.ndim == 2 and pts.shape == (len(w), 3), key + ' one weight per point', '%s %s' % (pts.shape, w.shape))
    u, v, nn = frame(n)
    r = pts - x0
    size = np.max(np.abs(r)) + 1
    t.close(r @ nn, np.zeros(len(r)), key + ' points in the plane', 1E-12 * size + min(5E-8, 1E-15 / max(1E-16, np.hypot(nn[0], nn[1]))))
    return r @ u, r @ v, w, r


def as_given(t, value):
    """Constant or a function of position"""
    k = t.rng.randrange(2)
    return (value, 'constant') if k else ((lambda x: value), 'callable')


def varying(t, R):
    g = t.np.uniform(-.05, .05, 3)
    return lambda x: R * (1 + g.dot(x))


def gauss_bound(m, k):
    """Bound on the error of the m-point Gauss rule for cos(k pi s) on [-1, 1]"""
    from math import lgamma, log, pi
    e = (2 * m + 1) * log(2) + 4 * lgamma(m + 1) - log(2 * m + 1) - 3 * lgamma(2 * m + 1) + (2 * m * log(k * pi) if k else -1E9)
    return np.exp(min(e, 2))


@case('C11', 150, 3000)
def circle(t, i):
    x0, n, R = setting(t, i)
    deg = t.rng.choice([1, 2, 3, 5, 8, 10, 15, 20, 31])
    r, how = as_given(t, R)
    if t.rng.random() < .3:
        r = varying(t, R)
        R, how = r(x0), 'varying'
    t.input('Circle R', R, how, 'degree', deg, 'x0', x0, 'n', n)
    s = Circle(radius=r, degree=deg)
    for rep in range(2):                      # the shape has no memory
        q = s.quadrature(x0.copy(), n.copy())
        a, b, w, X = parts(t, q, x0, n, 'circle')
        t.close(np.hypot(a, b), np.full(len(a), R), 'circle points at distance R', 1E-12)
        t.close(w.sum(), 2 * np.pi * R, 'circle weights sum to the length', 1E-12)
        # in the angle the rule is Gauss quadrature: integrals of trigonometric functions with its error bound
        th = np.arctan2(b, a)
        for k in range(1, 6):
            e = R * np.pi * gauss_bound(deg, k) + 1E-10 * (1 + R)
            z = (w * np.exp(1j * k * th)).sum()
            t.expect(abs(z) <= e * 1.5, 'circle integrates trigonometric functions', 'k=%d |%g| > %g' % (k, abs(z), e))
        if not rep: x0, n = x0 + t.np.uniform(-1, 1, 3), direction(t, i + 3)
        if not rep: R = r(x0) if callable(r) else R
    q2, nq = s.quadrature_normal(x0.copy(), n.copy())
    t.close(np.array(q2.points), np.array(q.points), 'circle normal at the quadrature points', 1E-13)
    t.close(nq, X / R, 'circle normals point out of the circle', 1E-9)


def moment(a, b):
    return 0 if a % 2 or b % 2 else 2 * gamma((a + 1) / 2) * gamma((b + 1) / 2) / gamma((a + b) / 2 + 1) / (a + b + 2)


@case('C11', 120, 1500)
def disk(t, i):
    x0, n, R = setting(t, i)
    deg = i % 24 + 1
    r, how = as_given(t, R)
    if t.rng.random() < .3:
        r = varying(t, R)
        R, how = r(x0), 'varying'
    t.input('Disk R', R, how, 'degree', deg, 'x0', x0, 'n', n)
    s = Disk(radius=r, degree=deg)
    q = s.quadrature(x0.copy(), n.copy())
    a, b, w, X = parts(t, q, x0, n, 'disk')
    t.close(w.sum(), np.pi * R ** 2, 'disk weights sum to the area', 1E-11)
    a, b, w = a / R, b / R, w / R ** 2
    top = min(deg, 19)
    for k in range(top + 1):
        for p in range(k + 1):
            t.close((w * a ** p * b ** (k - p)).sum(), moment(p, k - p), 'disk exact for polynomials',
                    1E-10 if top < 16 else 1E-4 if top < 18 else 1E-3, 'degree %d monomial %d,%d' % (deg, p, k - p))


def corner(t, x0, n, R):
    u, v, _ = frame(n)
    th = t.rng.uniform(0, 2 * np.pi)
    return x0 + R * (np.cos(th) * u + np.sin(th) * v)


def square_of(t, cls, x0, n, R, deg):
    P = corner(t, x0, n, R)
    k = t.rng.randrange(3)
    if k == 0: return cls(P=P.copy(), degree=deg), P
    if k == 1: return cls(P=tuple(P) if t.rng.random() < .5 else list(P), degree=deg), P
    d = P - x0
    return cls(P=lambda x: x + d, degree=deg), P


@case('C11', 100, 2000)
def square(t, i):
    x0, n, R = setting(t, i)
    deg = i % 9 + 1
    s, P = square_of(t, Square, x0, n, R, deg)
    t.input('Square', P, 'degree', deg, 'x0', x0, 'n', n)
    q = s.quadrature(x0.copy(), n.copy())
    _, _, w, X = parts(t, q, x0, n, 'square')
    # coordinates along the sides, scaled to [-1, 1]
    nn = n / np.linalg.norm(n)
    d = P - x0
    e = np.cross(nn, d)
    c1, c2 = (d - e) / R ** 2, (d + e) / R ** 2          # sides are orthogonal to these
    a, b = X @ c1, X @ c2
    t.expect(np.all(np.abs(a) <= 1 + 1E-9) and np.all(np.abs(b) <= 1 + 1E-9), 'square points in the square', '')
    t.close(w.sum(), 2 * R ** 2, 'square weights sum to the area', 1E-11)
    w = w / (2 * R ** 2) * 4
    for p in range(2 * deg):
        for k in range(2 * deg):
            want = (0 if p % 2 else 2 / (p + 1)) * (0 if k % 2 else 2 / (k + 1))
            t.close((w * a ** p * b ** k).sum(), want, 'square exact for polynomials', 1E-9, '%d,%d' % (p, k))


@case('C11', 100, 2000)
def rim(t, i):
    x0, n, R = setting(t, i)
    deg = i % 9 + 1
    s, P = square_of(t, SquareRim, x0, n, R, deg)
    t.input('SquareRim', P, 'degree', deg, 'x0', x0, 'n', n)
    q = s.quadrature(x0.copy(), n.copy())
    _, _, w, X = parts(t, q, x0, n, 'rim')
    nn = n / np.linalg.norm(n)
    d = P - x0
    e = np.cross(nn, d)
    c1, c2 = (d - e) / R ** 2, (d + e) / R ** 2
    a, b = X @ c1, X @ c2
    t.close(np.maximum(np.abs(a), np.abs(b)), np.ones(len(a)), 'rim points on the rim', 1E-10)
    t.close(w.sum(), 4 * np.sqrt(2) * R, 'rim weights sum to the length', 1E-11)
    w = w / (np.sqrt(2) * R) * 2
    for p in range(2 * deg):
        for k in range(2 * deg):
            one = lambda m: 0 if m % 2 else 2 / (m + 1)
            want = one(k) * (1 + (-1) ** p) + one(p) * (1 + (-1) ** k) if p + k < 2 * deg else None
            if want is not None:
                t.close((w * a ** p * b ** k).sum(), want, 'rim exact for polynomials', 1E-9, '%d,%d' % (p, k))


@case('C11', 6, 60)
def measure_function(t, i):
    """The measure attached to an average is the sum of weights at its degrees of freedom"""
    from xii import Average
    mesh = df.UnitCubeMesh(1, 1, 1)
    k = t.rng.randint(2, 4)
    A, B = t.np.uniform(0, 1, 3), t.np.uniform(0, 1, 3)
    line = build([A + (B - A) * j / k for j in range(k + 1)], [(j, j + 1) for j in range(k)], 1)
    V = [df.FunctionSpace(mesh, 'CG', 1), df.VectorFunctionSpace(mesh, 'CG', 1)][i % 2]
    R = .1
    rad = varying(t, R)
    u = df.Function(V)
    for name, s, m in (('circle', Circle(radius=rad, degree=4), lambda x: 2 * np.pi * rad(x)),
                       ('disk', Disk(radius=rad, degree=4), lambda x: np.pi * rad(x) ** 2),
                       ('circle', Circle(radius=R, degree=4), lambda x: 2 * np.pi * R)):
        t.input(name, 'on', k, 'cells', 'value shape', V.ufl_element().value_shape())
        f = MeasureFunction(Average(u, line, s))
        T = f.function_space()
        t.expect(T.mesh().id() == line.id() and T.ufl_element().value_shape() == (), 'measure is a scalar on the curve', '')
        t.close(f.vector().get_local(), [m(x) for x in T.tabulate_dof_coordinates().reshape((T.dim(), -1))], 'measure of ' + name)


@case('C11', 24, 24)
def disk_rule(t, i):
    """The rule on the unit disk (tabulated to about 7 digits for the two highest degrees)"""
    from xii.assembler.disk_quadrature import disk_quadrature
    deg = i + 1
    t.input('disk rule', deg)
    x, w = disk_quadrature(deg)
    top = min(deg, 19)
    for k in range(top + 1):
        for p in range(k + 1):
            t.close((w * x[:, 0] ** p * x[:, 1] ** (k - p)).sum(), moment(p, k - p), 'disk rule exact for polynomials',
                    1E-12 if top < 16 else 1E-6, 'degree %d monomial %d,%d' % (deg, p, k - p))


@case('C11', n=48, thorough=96)
def rendered(t, i):
    """The rendering helpers show the points of the rule at the dofs of the average"""
    from xii import Average
    from xii.assembler.average_shape import render_avg_surface, tube_render_avg_surface
    from xii.assembler.average_form import average_space
    mesh = df.UnitCubeMesh(1, 1, 1)
    k = t.rng.randint(2, 4)
    X = np.c_[np.full(k, .5), np.full(k, .4), np.linspace(.2, .7, k)] + .05 * t.np.uniform(-1, 1, (k, 3))
    line = build(X, [(a, a + 1) for a in range(k - 1)], 1)
    V = df.FunctionSpace(mesh, *t.rng.choice([('CG', 1), ('DG', 0)]))
    shape = [Circle, Disk][i % 2](t.rng.choice([.1, .2]), degree=t.rng.choice([4, 6]))
    t.input(describe(line), V.ufl_element(), type(shape).__name__)
    u = Average(df.TrialFunction(V) if i % 3 else df.Function(V), line, shape)
    if i % 3: u = Average(df.Function(V), line, shape)
    n = [X[a + 1] - X[a] for a in range(k - 1)]
    T = average_space(V, line)
    x = T.tabulate_dof_coordinates().reshape((T.dim(), 3))
    want = [np.array(shape.quadrature(x[d], n[c]).points) for c in range(k - 1) for d in T.dofmap().cell_dofs(c)]
    got = render_avg_surface(u)
    t.expect(len(got) == len(want), 'one set of points for each dof of each cell')
    for a, b in zip(got, want): t.close(a, b, 'points of the rule', 1e-12)
    got = tube_render_avg_surface(u)
    t.expect(len(got) == k - 1, 'two ends of each cell')
    for c, (a, b) in enumerate(got):
        t.close(a, np.array(shape.quadrature(X[c], n[c]).points), 'points at the first end', 1e-12)
        t.close(b, np.array(shape.quadrature(X[c + 1], n[c]).points), 'points at the other end', 1e-12)
