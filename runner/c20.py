"""C20 on concrete residuals; oracle: difference quotients of the assembled residual, exact for polynomials up to degree four"""
import numpy as np
from runner.base import case, Skip
from runner.geo import *
from runner.c13 import (s_trace, s_average, s_restriction, s_surface_mean, s_mean, s_point, s_patch, fun, to_array, interface, dx_of)
from xii import (Trace, Average, Circle, GradientPointTrace, Injection, ii_assemble, ii_convert)
from xii.nonlin.jacobian import block_jacobian, ii_derivative
import xii.assembler.average_matrix as am
import dolfin as df
import ufl_legacy as ufl


def s_injection(t, i, vector=False):
    from runner.c13 import Setting
    s = Setting()
    s.mesh = box(t, 2, 2)
    s.gamma = df.refine(s.mesh)
    s.V, s.TV = df.FunctionSpace(s.mesh, 'CG', 1), df.FunctionSpace(s.gamma, 'CG', 1)
    s.subs = None
    s.mark = lambda v: Injection(v, s.gamma)
    s.name = 'Injection'
    return s


def s_grad_point(t, i, vector=False):
    from runner.c13 import Setting
    s = Setting()
    n = t.rng.randint(2, 5)
    s.mesh = s.gamma = build(t.np.uniform(-1, 1, (n + 1, 2)), [(t.rng.randrange(j), j) for j in range(1, n + 1)], 1)
    s.V, s.TV = df.FunctionSpace(s.mesh, 'DG', 1), df.FunctionSpace(s.mesh, 'Real', 0)
    s.subs = None
    c = t.rng.randrange(n)
    p = int(s.mesh.cells()[c][t.rng.randrange(2)])
    tau = df.Constant(t.np.uniform(-1, 1, 2))
    s.mark = lambda v: GradientPointTrace(v, p, c, tau)
    s.name = 'GradientPointTrace'
    return s


SETTINGS = [s_trace, s_average, s_restriction, s_surface_mean, s_mean, s_point, s_patch, s_injection, s_grad_point]


def value(F, foos):
    """Assembled residual as one array"""
    return np.concatenate([np.atleast_1d(to_array(ii_assemble(L))) for L in F])


def move(foos, base, d, e):
    for f, b, x in zip(foos, base, d):
        f.vector().set_local(b + e * x)
        f.vector().apply('insert')


def quotient(F, foos, d, h=.5):
    """Derivative in direction d, exact for polynomials of degree 4"""
    base = [f.vector().get_local() for f in foos]
    out = 0
    for e, c in ((-2, 1.), (-1, -8.), (1, 8.), (2, -1.)):
        move(foos, base, d, e * h)
        out = out + c * value(F, foos)
    move(foos, base, d, 0)
    return out / (12 * h)


def apply(J, foos, F, d):
    """J*d by blocks; zeros are numbers"""
    out = []
    for row, L in zip(J, F):
        n = L.arguments()[0].function_space().dim()
        y = np.zeros(n)
        for a, x in zip(row, d):
            if isinstance(a, (int, float)):
                if a != 0: raise ValueError('number %r' % a)
                continue
            y = y + to_array(ii_assemble(a)) @ x
        out.append(y)
    return np.concatenate(out)


def check(t, F, foos, tol=1e-8, h=.5, key='J*d is the derivative in the direction'):
    before = [f.vector().get_local() for f in foos]
    J = block_jacobian(F, foos)
    t.expect(len(J) == len(F) and all(len(r) == len(foos) for r in J), 'square block')
    for state in range(2):
        d = [t.np.uniform(-1, 1, len(b)) for b in before]
        if state: move(foos, before, d, 1.)                 # the Jacobian follows the state
        for k in range(len(foos)):
            e = [x * (j == k) for j, x in enumerate(d)]
            got, want = apply(J, foos, F, e), quotient(F, foos, e, h)
            t.close(got, want, key + ' (state %d)' % state, tol * max(1, np.abs(want).max()), 'column %d' % k)
    for r, row in enumerate(J):
        for c, a in enumerate(row):
            if isinstance(a, (int, float)): continue
            v, u = sorted(a.arguments(), key=lambda x: x.number())
            t.expect(v.function_space() == F[r].arguments()[0].function_space() and u.function_space() == foos[c].function_space(), 'spaces of the block')
    move(foos, before, d, 0)
    return J


# residual in v: (du, the function on the bulk; ru maker of reduced functions, p on reduced mesh)
BULK = [lambda u, v, c: df.inner(df.grad(u), df.grad(v)) + c * u ** 3 * v, lambda u, v, c: (c + u ** 2) * df.inner(df.grad(u), df.grad(v))]
COUP = [lambda ru, p, rv, c: c * p * ru() * rv, lambda ru, p, rv, c: ru() ** 2 * rv + c * p ** 2 * rv, lambda ru, p, rv, c: c * ru() ** 3 * rv * p]
REDU = [lambda ru, p, q, c: (ru() ** 2 - c * p) * q, lambda ru, p, q, c: c * p ** 2 * ru() * q, lambda ru, p, q, c: p ** 3 * q + c * ru() * ru() * q]


@case('C20', 18, 300)
def coupled(t, i):
    """Two unknowns, one reduced"""
    s = SETTINGS[i % len(SETTINGS)](t, i // len(SETTINGS))
    u, p = fun(t, s.V), fun(t, s.TV)
    v, q = df.TestFunction(s.V), df.TestFunction(s.TV)
    once = s.mark(u)
    ru = (lambda: once) if t.rng.random() < .4 else (lambda: s.mark(u))
    k = [t.rng.randrange(len(x)) for x in (BULK, COUP, REDU)]
    k = [i // len(SETTINGS) % 2, k[1], k[2]]
    c = [df.Constant(t.rng.uniform(.5, 2)) for _ in range(3)]
    t.input(s.name, 'forms %s' % k, describe(s.mesh), describe(s.gamma))
    dx, dG = df.Measure('dx', domain=s.mesh), dx_of(s)
    bulk = BULK[k[0]](u, v, c[0]) if 'PointTrace' not in s.name else u ** 2 * v
    F0 = bulk * dx + COUP[k[1]](ru, p, s.mark(v), c[1]) * dG
    F1 = REDU[k[2]](ru, p, q, c[2]) * dG
    order = t.rng.random() < .5
    F, foos = ([F0, F1], [u, p]) if order else ([F1, F0], [p, u])
    check(t, F, foos)


@case('C20', 8, 100)
def same_space(t, i):
    """Unknowns from one space are told apart, blocks without dependence are zero"""
    s = [s_trace, s_restriction][i % 2](t, i % 4)
    u, w, p = fun(t, s.V), fun(t, s.V), fun(t, s.TV)
    v, q = df.TestFunction(s.V), df.TestFunction(s.TV)
    dx, dG = df.Measure('dx', domain=s.mesh), dx_of(s)
    t.input(s.name, describe(s.mesh), describe(s.gamma))
    c = df.Constant(t.rng.uniform(.5, 2))
    F = [u ** 2 * w * v * dx + s.mark(u) * s.mark(w) * s.mark(v) * dG, c * w ** 3 * v * dx, s.mark(w) ** 2 * q * dG - c * p * q * dG]
    J = check(t, F, [u, w, p])
    for r, col in ((0, 2), (1, 0), (1, 2), (2, 0)): t.expect(isinstance(J[r][col], (int, float)) and J[r][col] == 0, 'block of no dependence is zero', '%d %d' % (r, col))


@case('C20', 8, 100)
def several_reductions(t, i):
    """Reductions of one function to several meshes"""
    mesh = box(t, 2, 2)
    V = df.FunctionSpace(mesh, 'CG', 1)
    u, v = fun(t, V), df.TestFunction(V)
    L = u ** 2 * v * df.dx(domain=mesh)
    t.input('several interfaces', describe(mesh))
    for k in range(t.rng.randint(2, 3)):
        gamma, tags, _ = interface(t, mesh)
        dG = df.Measure('dx', domain=gamma)
        a = df.Constant(t.rng.uniform(.5, 2))
        L = L + a * Trace(u, gamma) ** 2 * Trace(v, gamma) * dG
    check(t, [L], [u])


@case('C20', 6, 60)
def radii(t, i):
    """Averages over several shapes in one form"""
    s = s_average(t, 0)
    u, p, v, q = fun(t, s.V), fun(t, s.TV), df.TestFunction(s.V), df.TestFunction(s.TV)
    A = lambda x, r: Average(x, s.gamma, Circle(radius=r, degree=5))
    dG = df.Measure('dx', domain=s.gamma)
    t.input('radii', describe(s.gamma))
    F = [u ** 2 * v * df.dx(domain=s.mesh) + A(u, .1) ** 2 * A(v, .1) * dG + A(u, .2) * p * A(v, .2) * dG, A(u, .2) * A(u, .1) * q * dG - p * q * dG]
    check(t, F, [u, p])


@case('C20', 6, 60)
def vectors(t, i):
    """Vector valued unknowns and components"""
    s = s_trace(t, 0, vector=True)
    u, p, v, q = fun(t, s.V), fun(t, s.TV), df.TestFunction(s.V), df.TestFunction(s.TV)
    dx, dG = df.Measure('dx', domain=s.mesh), dx_of(s)
    t.input('vectors', describe(s.mesh))
    ru, rv = s.mark(u), s.mark(v)
    F = [df.inner(df.dot(df.grad(u), u), v) * dx + df.inner(ru, ru) * df.inner(p, rv) * dG, df.inner(ru, p) * df.inner(ru, q) * dG + p[0] * ru[1] * q[0] * dG]
    check(t, F, [u, p])


@case('C20', 6, 60)
def other_coefficients(t, i):
    """Expressions, constants and other functions in the residual"""
    s = s_trace(t, 0)
    u, p, v, q = fun(t, s.V), fun(t, s.TV), df.TestFunction(s.V), df.TestFunction(s.TV)
    f, g = fun(t, s.V), df.Expression('1+x[0]*a', a=t.rng.uniform(0, 1), degree=1)
    dx, dG = df.Measure('dx', domain=s.mesh), dx_of(s)
    t.input('coefficients', describe(s.mesh))
    F = [g * u ** 2 * v * dx + f * u * v * dx + s.mark(f) * s.mark(u) ** 2 * s.mark(v) * dG, g * p ** 2 * q * dG + s.mark(f) * s.mark(u) * p * q * dG]
    check(t, F, [u, p])


@case('C20', 6, 60)
def transcendental(t, i):
    """Not polynomials"""
    s = s_trace(t, 0)
    u, p, v, q = fun(t, s.V), fun(t, s.TV), df.TestFunction(s.V), df.TestFunction(s.TV)
    dx, dG = df.Measure('dx', domain=s.mesh, metadata={'quadrature_degree': 4}), dx_of(s)(metadata={'quadrature_degree': 4})
    t.input('exp, sin', describe(s.mesh))
    F = [df.exp(u) * v * dx + df.sin(s.mark(u)) * p * s.mark(v) * dG, df.sin(s.mark(u) * p) * q * dG - p / (3 + s.mark(u)) * q * dG]
    check(t, F, [u, p], tol=1e-6, h=1e-2)


@case('C20', 6, 60)
def energies(t, i):
    """Residual that is a derivative of an energy; linear residual gives its matrix"""
    s = s_trace(t, 0)
    u, v = fun(t, s.V), df.TestFunction(s.V)
    dx, dG = df.Measure('dx', domain=s.mesh), dx_of(s)
    t.input('energy', describe(s.mesh))
    E = (df.inner(df.grad(u), df.grad(u)) + u ** 4) * dx
    L = df.derivative(E, u, v) + s.mark(u) ** 2 * s.mark(v) * dG
    check(t, [L], [u])
    w = df.TrialFunction(s.V)
    a = lambda x: df.inner(df.grad(x), df.grad(v)) * dx + s.mark(x) * s.mark(v) * dG
    t.close(to_array(ii_assemble(ii_derivative(a(u), u))), to_array(ii_assemble(a(w))), 'derivative of a linear residual', 1e-10)
    t.raises(AssertionError, lambda: ii_derivative(L, s.mark(u)), 'reduced argument')
    t.raises(AssertionError, lambda: block_jacobian([L], [u, u]), 'not square')
