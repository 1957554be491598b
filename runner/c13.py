"""C13 on concrete forms; oracle: plain dolfin assembly on the reduced spaces and explicit matrix products"""
import numpy as np
from runner.base import case, Skip
from runner.geo import *
from runner.lin import dense
from runner.c10 import interface
from xii import (EmbeddedMesh, Trace, Average, Circle, Mean, SurfaceMean, PointTrace, GradientPointTrace, Restriction, Injection,
                 CellPatchAverage, FluxAverage, SubDomainMesh, ii_assemble, ii_convert)
import xii.assembler.trace_matrix as tm
import xii.assembler.average_matrix as am
from xii.assembler.trace_form import trace_space
from xii.assembler.average_form import average_space
from xii.assembler.restriction_matrix import restriction_mat
from xii.assembler.surface_mean_matrix import surface_mean_mat
from xii.assembler.surface_mean_form import surface_mean_space
from xii.assembler.mean_matrix import mean_mat
from xii.assembler.point_trace_matrix import point_trace_mat
from xii.assembler.patch_average_matrix import patch_avg_mat
from xii.assembler.flux_average_matrix import flux_avg_mat
from xii.assembler.ufl_utils import replace, contains, matches, is_equal_terminal, traverse_terminals
import dolfin as df
import ufl_legacy as ufl


def fun(t, V):
    f = df.Function(V)
    f.vector().set_local(t.np.uniform(-1, 1, V.dim()))
    f.vector().apply('insert')
    return f


def to_array(x):
    """Dense value of whatever assembly returned"""
    if isinstance(x, (int, float)): return np.array(float(x))
    x = ii_convert(x)
    if isinstance(x, (int, float)): return np.array(float(x))
    if hasattr(x, 'array'): return x.array()
    if hasattr(x, 'get_local'): return x.get_local()
    return dense(x)


class Setting(object):
    """V on the mesh, TV and Q on the reduced mesh, T as dense matrix, mark(v) the reduced argument"""


def s_trace(t, i, vector=False):
    s = Setting()
    mesh = box(t, 3 if i % 4 == 3 else 2, 2 if i % 4 != 3 else 1)
    gamma, tags, _ = interface(t, mesh)
    s.V = (df.VectorFunctionSpace if vector else df.FunctionSpace)(mesh, 'CG', 1 + (i % 4 == 1))
    s.TV = trace_space(s.V, gamma)
    s.mesh, s.gamma, s.subs = mesh, gamma, gamma.marking_function
    s.mark = lambda v: Trace(v, gamma)
    s.T = dense(tm.trace_mat(s.V, s.TV, gamma, {'restriction': '', 'normal': None, 'tag_data': (gamma.marking_function, set(tags))}))
    s.name = 'Trace'
    return s


def s_average(t, i, vector=False):
    s = Setting()
    mesh = df.UnitCubeMesh(2, 1, 1)
    k = t.rng.randint(1, 3)
    a, b = t.np.uniform(.3, .7, 3), t.np.uniform(.3, .7, 3)
    line = build([a + (b - a) * j / k for j in range(k + 1)], [(j, j + 1) for j in range(k)], 1)
    sh = [Circle(radius=.1, degree=5), None][i % 2]
    s.V = (df.VectorFunctionSpace if vector else df.FunctionSpace)(mesh, 'CG', 1)
    s.TV = average_space(s.V, line)
    s.mesh, s.gamma, s.subs = mesh, line, None
    s.mark = lambda v: Average(v, line, sh)
    s.T = dense(am.avg_mat(s.V, s.TV, line, {'shape': sh}))
    s.name = 'Average'
    return s


def s_restriction(t, i, vector=False):
    s = Setting()
    mesh = box(t, 2, 3)
    f = df.MeshFunction('size_t', mesh, 2, 0)
    for k in range(mesh.num_cells()): f.array()[k] = t.rng.choice([1, 2, 2])
    f.array()[0] = 2
    sub = SubDomainMesh(f, 2)
    s.V = (df.VectorFunctionSpace if vector else df.FunctionSpace)(mesh, 'CG', 1)
    s.TV = (df.VectorFunctionSpace if vector else df.FunctionSpace)(sub, 'CG', 1)
    s.mesh, s.gamma, s.subs = mesh, sub, None
    s.mark = lambda v: Restriction(v, sub)
    s.T = dense(restriction_mat(s.V, s.TV, sub, {}))
    s.name = 'Restriction'
    return s


def s_surface_mean(t, i, vector=False):
    s = Setting()
    s.mesh = box(t, 2, 2)
    s.gamma = df.BoundaryMesh(s.mesh, 'exterior')
    s.V = df.FunctionSpace(s.mesh, 'CG', 1)
    s.TV = surface_mean_space(s.V, s.gamma)
    s.subs = None
    s.mark = lambda v: SurfaceMean(v, s.gamma)
    s.T = dense(surface_mean_mat(s.V, s.TV, s.gamma, {}))
    s.name = 'SurfaceMean'
    return s


def s_mean(t, i, vector=False):
    s = Setting()
    s.mesh = s.gamma = box(t, 2, 2)
    s.V = df.FunctionSpace(s.mesh, 'CG', 1)
    s.TV = df.FunctionSpace(s.mesh, 'Real', 0)
    s.subs = None
    k = df.Constant(t.rng.uniform(.5, 2))
    s.mark = lambda v: Mean(v, weight=k)
    s.T = dense(mean_mat(s.V, s.TV, s.mesh, {'weight': k, 'measure': None}))
    s.name = 'Mean'
    return s


def s_point(t, i, vector=False):
    s = Setting()
    n = t.rng.randint(2, 5)
    s.mesh = s.gamma = build(t.np.uniform(-1, 1, (n + 1, 2)), [(t.rng.randrange(j), j) for j in range(1, n + 1)], 1)
    s.V = df.FunctionSpace(s.mesh, 'DG', 1)
    s.TV = df.FunctionSpace(s.mesh, 'Real', 0)
    s.subs = None
    c = t.rng.randrange(n)
    p = int(s.mesh.cells()[c][t.rng.randrange(2)])
    s.mark = lambda v: PointTrace(v, p, c)
    s.T = dense(point_trace_mat(s.V, s.TV, s.mesh, {'point': p, 'cell': c}))
    s.name = 'PointTrace'
    return s


def s_patch(t, i, vector=False):
    s = Setting()
    s.mesh = box(t, 2, 2)
    s.gamma = build(t.np.uniform(-1, 1, (3, 2)), [(0, 1), (1, 2)], 1)
    s.V = df.FunctionSpace(s.mesh, 'CG', 1)
    s.TV = df.FunctionSpace(s.gamma, 'CG', 1)
    pf = df.MeshFunction('size_t', s.mesh, 2, 0)
    for k in range(s.mesh.num_cells()): pf.array()[k] = k % 2 + 1
    vf = df.Function(s.TV)
    vf.vector().set_local(np.array([1., 2., 1.]))
    s.subs = None
    s.mark = lambda v: CellPatchAverage(v, vf, pf)
    s.T = dense(patch_avg_mat(s.V, s.TV, s.gamma, {'vertex_f': vf, 'patch_f': pf, 'patch_coloring': None}))
    s.name = 'CellPatchAverage'
    return s


SETTINGS = [s_trace, s_average, s_trace, s_restriction, s_surface_mean, s_mean, s_point, s_patch]


def dx_of(s): return df.Measure('dx', domain=s.gamma, subdomain_data=s.subs)


def tag_of(t, s): return t.rng.choice(sorted(set(int(q) for q in s.subs.array()))) if s.subs is not None else None


# bodies of integrands: arguments reduced (r...) or living on the reduced mesh (p, q, f)
def bodies(t, vec):
    a, b = df.Constant(t.rng.uniform(-2, 2)), df.Constant(t.rng.uniform(-2, 2))
    i = df.inner
    return dict(
        bil_vq=lambda ru, rv, p, q, rf, f: a * i(rv, p), bil_uq=lambda ru, rv, p, q, rf, f: a * i(ru, q),
        bil_uv=lambda ru, rv, p, q, rf, f: a * i(ru, rv),
        bil_two=lambda ru, rv, p, q, rf, f: a * i(ru, rv) + b * i(f, f) * i(ru, rv),
        bil_coef=lambda ru, rv, p, q, rf, f: i(rf, rf) * i(ru, rv) + a * i(rf, f) * i(ru, rv),
        bil_plain=lambda ru, rv, p, q, rf, f: i(rf, f) * i(p, q),
        lin_v=lambda ru, rv, p, q, rf, f: a * i(f, rv), lin_coef=lambda ru, rv, p, q, rf, f: i(rf, f) * i(rf, rv),
        lin_q=lambda ru, rv, p, q, rf, f: a * i(rf, q) + b * i(rf, rf) * i(f, q),
        fun=lambda ru, rv, p, q, rf, f: a * i(rf, rf) + b * i(rf, f))


ROWS = dict(bil_vq='V', bil_uq='Q', bil_uv='V', bil_two='V', bil_coef='V', bil_plain='Q', lin_v='V', lin_coef='V', lin_q='Q')
COLS = dict(bil_vq='Q', bil_uq='V', bil_uv='V', bil_two='V', bil_coef='V', bil_plain='Q')


def arity(n): return {'bil': 2, 'lin': 1, 'fun': 0}[n[:3]]


def both(t, s, names, vec=False, bulk=True, count=1):
    """Form with marked arguments, its value by the chain rule"""
    B = bodies(t, vec)
    Q = s.TV
    u, v, p, q = df.TrialFunction(s.V), df.TestFunction(s.V), df.TrialFunction(Q), df.TestFunction(Q)
    f, g = fun(t, s.V), fun(t, Q)
    Tf = df.Function(Q)
    form, parts = None, []
    for n in names:
        tag = tag_of(t, s)
        dx = dx_of(s)
        if tag is not None and t.rng.random() < .5: dx = dx(tag)
        if t.rng.random() < .3: dx = dx(metadata={'quadrature_degree': 6})
        piece = B[n](s.mark(u), s.mark(v), p, q, s.mark(f), g) * dx
        plain = B[n](p, q, p, q, Tf, g) * dx
        sign = t.rng.choice([1, 1, -1, 2])
        parts.append((plain, s.T if ROWS.get(n) == 'V' else None, s.T if COLS.get(n) == 'V' else None, sign))
        piece = piece if sign == 1 else -piece if sign == -1 else df.Constant(2) * piece
        form = piece if form is None else form + piece
    n = names[0]
    extra = None
    if bulk:
        dX = df.dx(domain=s.mesh)
        if arity(n) == 2 and ROWS[n] == COLS[n] == 'V': extra = df.inner(u, v) * dX
        elif arity(n) == 1 and ROWS[n] == 'V': extra = df.inner(f, v) * dX
        elif arity(n) == 0: extra = df.inner(f, f) * dX
        if extra is not None:
            parts.append((extra, None, None, 1))
            form = form + extra if t.rng.random() < .5 else extra + form

    def value():
        Tf.vector().set_local(s.T.dot(f.vector().get_local()))
        want = 0
        for plain, L, R, sign in parts:
            A = df.assemble(plain)
            A = A if isinstance(A, float) else A.array() if hasattr(A, 'array') else A.get_local()
            if L is not None: A = L.T.dot(A)
            if R is not None: A = A.dot(R)
            want = want + sign * A
        return want
    return form, value(), (f, s.mark, g, value)


GROUPS = [['bil_vq'], ['bil_uq'], ['bil_uv', 'bil_two', 'bil_coef'], ['lin_v', 'lin_coef'], ['lin_q'], ['fun'], ['bil_plain', 'bil_plain']]


@case('C13', 24, 400)
def trace_forms(t, i):
    run(t, s_trace(t, i, vector=i % 5 == 4), i, i % 5 == 4)


@case('C13', 16, 250)
def average_forms(t, i): run(t, s_average(t, i // 7, vector=i % 5 == 4), i, i % 5 == 4)


@case('C13', 16, 250)
def restriction_forms(t, i): run(t, s_restriction(t, i), i)


@case('C13', 14, 200)
def surface_mean_forms(t, i): run(t, s_surface_mean(t, i), i)


@case('C13', 14, 200)
def mean_forms(t, i): run(t, s_mean(t, i), i)


@case('C13', 14, 200)
def point_forms(t, i): run(t, s_point(t, i), i)


@case('C13', 14, 200)
def patch_forms(t, i): run(t, s_patch(t, i), i)


def run(t, s, i, vec=False):
    group = GROUPS[i % len(GROUPS)]
    k = t.rng.randint(1, 3)
    names = [t.rng.choice(group) for _ in range(k)]
    if s.name in ('SurfaceMean', ) and names[0] == 'bil_plain' and False: raise Skip
    form, want, (f, _, g, value) = both(t, s, names, vec)
    t.input(s.name, '+'.join(names), 'vector' if vec else 'scalar', describe(s.gamma), 'in', describe(s.mesh))
    got = to_array(ii_assemble(form))
    t.close(got, want, '%s form is the chain rule of its reduction' % s.name, 1E-9, '+'.join(names))
    # the same form with other values of its coefficients
    for h in (f, g): h.vector().set_local(t.np.uniform(-1, 1, h.vector().local_size()))
    t.close(to_array(ii_assemble(form)), value(), '%s form assembled again is the chain rule for the present coefficients' % s.name, 1E-9, '+'.join(names))


@case('C13', 8, 100)
def nested(t, i):
    """Several reductions and several interfaces in one form and one system"""
    mesh = box(t, 2, 2)
    V = df.FunctionSpace(mesh, 'CG', 1)
    u, v = df.TrialFunction(V), df.TestFunction(V)
    form, want = df.inner(u, v) * df.dx(domain=mesh), df.assemble(df.inner(u, v) * df.dx).array()
    f = fun(t, V)
    lin, wlin = None, 0
    t.input('several interfaces', describe(mesh))
    for k in range(t.rng.randint(2, 3)):
        gamma, tags, _ = interface(t, mesh)
        TV = trace_space(V, gamma)
        T = dense(tm.trace_mat(V, TV, gamma, {'restriction': '', 'normal': None, 'tag_data': (gamma.marking_function, set(tags))}))
        p, q = df.TrialFunction(TV), df.TestFunction(TV)
        Tf = df.Function(TV)
        Tf.vector().set_local(T.dot(f.vector().get_local()))
        a = df.Constant(t.rng.uniform(-2, 2))
        dx_ = df.Measure('dx', domain=gamma)
        form = form + a * df.inner(Trace(f, gamma) ** 2 * Trace(u, gamma), Trace(v, gamma)) * dx_
        want = want + T.T @ df.assemble(a * df.inner(Tf ** 2 * p, q) * df.dx).array() @ T
        piece = df.inner(Trace(f, gamma), Trace(v, gamma)) * dx_
        lin = piece if lin is None else lin + piece
        wlin = wlin + T.T @ df.assemble(df.inner(Tf, q) * df.dx).get_local()
    t.close(to_array(ii_assemble(form)), want, 'sum over interfaces')
    t.close(to_array(ii_assemble(lin)), wlin, 'sum over interfaces (vector)')


@case('C13', 10, 100)
def marking_copies(t, i):
    """Marking an argument or function leaves the original unmarked"""
    s = SETTINGS[i % len(SETTINGS)](t, i)
    f = fun(t, s.V)
    r = s.mark(f)
    u = df.TrialFunction(s.V)
    ru = s.mark(u)
    t.input(s.name)
    marks = [k for k in r.__dict__ if k.endswith('_') and not k.startswith('_')]
    t.expect(bool(marks) and not any(hasattr(f, k) for k in marks), 'marking makes a copy', '%s' % marks)
    t.expect(not any(hasattr(u, k) for k in marks), 'marking makes a copy (argument)', '%s' % marks)
    t.close(df.assemble(df.inner(f, f) * df.dx(domain=s.mesh)), float(to_array(ii_assemble(df.inner(f, f) * df.dx(domain=s.mesh)))), 'unmarked form after marking')
    # the marked function follows the original
    f.vector()[:] *= 2.
    t.close(r.vector().get_local(), f.vector().get_local(), 'marked function has the values of the original')


# --- substitution -----------------------------------------------------------------------------------------------------

class Marked(object):
    def __init__(self, k): self.k = k
    def __eq__(self, o): return isinstance(o, Marked) and o.k == self.k
    def __hash__(self): return hash(self.k)


def terminals(t):
    """Copies of arguments and coefficients with and without marks"""
    m = df.UnitIntervalMesh(1)
    V = df.FunctionSpace(m, 'CG', 1)
    u, f, g = df.TestFunction(V), df.Function(V), df.Function(V)
    out = [u, f, g, df.Constant(2)]
    for k in (1, 2):
        w = df.TestFunction(V)
        w.mark_ = Marked(k)
        h = df.Function(V, f.vector())
        h.mark_ = Marked(k)
        w2 = df.TestFunction(V)
        w2.mark_ = Marked(k)
        out += [w, h, w2]
    return out


def same(a, b):
    """Same terminal, marks included"""
    return a == b and getattr(a, 'mark_', None) == getattr(b, 'mark_', None)


def grow(t, T, depth):
    r = t.rng
    if not depth or r.random() < .15: return r.choice(T)
    k = r.randrange(7)
    a = grow(t, T, depth - 1)
    if k == 0: return a + grow(t, T, depth - 1)
    if k == 1: return a * grow(t, T, depth - 1)
    if k == 2: return df.sin(a)
    if k == 3: return df.as_vector([a, grow(t, T, depth - 1), grow(t, T, depth - 1)])[r.randrange(3)]
    if k == 4: return df.dot(df.as_vector([a, a]), df.as_vector([grow(t, T, depth - 1), a]))
    if k == 5: return df.conditional(df.gt(a, 0), grow(t, T, depth - 1), a)
    return df.grad(a)[0] if a.ufl_domain() is not None else df.exp(a)


def shape_of(e, sub):
    """Tree of the expression with terminals mapped"""
    if not e.ufl_operands:
        if isinstance(e, (ufl.Coefficient, ufl.Argument)): return sub(e)
        return ('leaf', str(e))
    ops = [shape_of(o, sub) for o in e.ufl_operands]
    name = type(e).__name__
    # commutative nodes may sort their operands
    if name in ('Sum', 'Product', 'Inner', 'Dot'): ops = sorted(ops, key=repr)
    return (name, ) + tuple(ops)


def tag(e): return ('T', type(e).__name__, e.number() if isinstance(e, ufl.Argument) else e.count(), getattr(getattr(e, 'mark_', None), 'k', None))


@case('C13', 150, 3000)
def substitution(t, i):
    T = terminals(t)
    e = grow(t, T, t.rng.randint(1, 4))
    target = t.rng.choice(T)
    marked = hasattr(target, 'mark_')
    attributes = ('mark_', ) if marked else None
    if not marked: T = [x for x in T if not hasattr(x, 'mark_')]
    if not marked: e = grow(t, T, t.rng.randint(1, 4))
    r = df.Function(target.ufl_function_space() if not isinstance(target, df.Constant) else df.FunctionSpace(df.UnitIntervalMesh(1), 'CG', 1))
    t.input('replace', repr(tag(target)), 'in', str(e))
    leaves = [x for x in traverse_terminals(e) if isinstance(x, (ufl.Coefficient, ufl.Argument))]
    hit = any(same(x, target) for x in leaves)
    t.expect(bool(contains(e, target, attributes)) == hit, 'contains finds exactly the terminal', str(hit))
    before = shape_of(e, tag)
    got = replace(e, target, r, attributes=attributes)
    want = shape_of(e, lambda x: tag(r) if same(x, target) else tag(x))
    if r is not None and before != want:
        # nodes may simplify when rebuilt; compare the leaves when the trees differ
        g = shape_of(got, tag)
        t.expect(g == want, 'replace substitutes exactly the marked terminal', lambda: '%s -> %s' % (e, got))
    else: t.expect(shape_of(got, tag) == before, 'replace leaves the rest', lambda: '%s -> %s' % (e, got))
    t.expect(shape_of(e, tag) == before, 'replace does not change its input', '')
    for x in T:
        for a in (None, ('mark_', )):
            w = x == target if a is None else (x == target and hasattr(x, 'mark_') and hasattr(target, 'mark_') and x.mark_ == target.mark_)
            t.expect(bool(is_equal_terminal(x, target, a)) == bool(w), 'equality of terminals', '%s %s %s' % (x, target, a))


@case('C13', 60, 600)
def subexpressions(t, i):
    """An expression matches itself and not a different one"""
    T = [x for x in terminals(t) if not hasattr(x, 'mark_')]
    es = [grow(t, T, 3) for _ in range(3)]
    a, b, c = T[:3]
    es += [df.as_vector([a, b]), df.as_vector([a, b, c]), df.as_vector([a, c]), df.as_vector([b, a]), a * b, a + b, df.sin(a), df.cos(a)]
    t.input('matches', *[str(e) for e in es[:3]])
    for x in es:
        for y in es:
            w = shape_of(x, tag) == shape_of(y, tag)
            t.expect(bool(matches(x, y)) == w, 'matching of expressions', lambda: '%s with %s' % (x, y))
    x, y = t.rng.sample(es, 2)
    nodes = []

    def walk(e):
        nodes.append(e)
        for o in e.ufl_operands: walk(o)
    walk(x)
    if y.ufl_operands:
        w = any(shape_of(n, tag) == shape_of(y, tag) for n in nodes)
        t.expect(bool(contains(x, y)) == w, 'containment of expressions', lambda: '%s in %s' % (y, x))
