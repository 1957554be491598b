"""C07 on concrete histories; oracle: the same request made in a process that made no other request.

The process that runs the cases never asks for an operator itself: a history runs in one child process, and for each of
its requests another child builds the same objects anew, repeats the changes made to them up to then and makes only
that request."""
import os, pickle, random, hashlib, traceback
import numpy as np
from runner.base import case, Skip
from runner.geo import build
from runner.lin import dense
import dolfin as df
from xii import (EmbeddedMesh, SubDomainMesh, Circle, Disk, Square, Trace, Average, Mean, PointTrace, GradientPointTrace, Injection,
                 Restriction, SurfaceMean, CellPatchAverage, FluxAverage, ii_assemble, ii_convert)
from xii.assembler.trace_matrix import trace_mat
from xii.assembler.trace_form import trace_space
from xii.assembler.average_matrix import avg_mat
from xii.assembler.average_form import average_space
from xii.assembler.flux_average_matrix import flux_avg_mat
from xii.assembler.patch_average_matrix import patch_avg_mat
from xii.assembler.mean_matrix import mean_mat
from xii.assembler.point_trace_matrix import point_trace_mat
from xii.assembler.gradient_point_trace_matrix import gradient_point_trace_mat
from xii.assembler.restriction_matrix import restriction_mat
from xii.assembler.injection_matrix import injection_matrix
from xii.assembler.interpolation_matrix import interpolation_mat
from xii.assembler.surface_mean_matrix import surface_mean_mat
from xii.assembler.surface_mean_form import surface_mean_space
from xii.assembler.transpose_trace_matrix import transpose_trace_mat


def in_child(fn):
    """Result of fn() in a child process (or the exception as text); call the returned function to get it"""
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        os.close(r)
        try: out = ('value', fn())
        except BaseException as x: out = ('raised', '%s: %s %s' % (type(x).__name__, x, traceback.format_exc()[-900:]))
        with os.fdopen(w, 'wb') as f: f.write(pickle.dumps(out))
        os._exit(0)
    os.close(w)

    def get():
        with os.fdopen(r, 'rb') as f: data = f.read()
        os.waitpid(pid, 0)
        return pickle.loads(data) if data else ('raised', 'the process died')
    return get


class Side(df.SubDomain):
    def inside(self, x, on): return on and df.near(x[0], 0)

    def map(self, x, y):
        y[0] = x[0] - 1
        y[1] = x[1]


class World(object):
    """Objects by name, each made from the seed and its name only"""

    def __init__(self, seed): self.seed, self.have = seed, {}

    def rng(self, name): return np.random.RandomState(int(hashlib.sha256(('%s/%s' % (self.seed, name)).encode()).hexdigest()[:8], 16))

    def __getitem__(self, name):
        name = tuple(name) if isinstance(name, list) else name
        if name not in self.have: self.have[name] = getattr(self, 'make_' + name[0])(self.rng(name), *name[1:])
        return self.have[name]

    def make(self, req):
        """All the objects mentioned"""
        if isinstance(req, tuple):
            for x in req: self.make(x)
            if req and isinstance(req[0], str) and hasattr(self, 'make_' + req[0]): self[req]

    # meshes A and B have the same topology, C has another one
    def make_mesh(self, r, which, dim):
        n = 3 if which == 'C' else 2
        m = {1: lambda: df.UnitIntervalMesh(n + 1), 2: lambda: df.UnitSquareMesh(n, n), 3: lambda: df.UnitCubeMesh(n - 1, 1, 1)}[dim]()
        x = m.coordinates()
        inner = np.all((x > 1e-8) & (x < 1 - 1e-8), axis=1)
        x[inner] += r.uniform(-.08, .08, (inner.sum(), dim))
        if which == 'B': x[:, -1] *= 1.5
        return m

    def make_space(self, r, mesh, fam, deg, how=''):
        m = self[mesh]
        if how == 'vector': return df.VectorFunctionSpace(m, fam, deg)
        if how == 'periodic': return df.FunctionSpace(m, fam, deg, constrained_domain=Side())
        if how == 'plain':        # other numbering of dofs
            old = df.parameters['reorder_dofs_serial']
            df.parameters['reorder_dofs_serial'] = False
            V = df.FunctionSpace(m, fam, deg)
            V.dofmap()
            df.parameters['reorder_dofs_serial'] = old
            return V
        return df.FunctionSpace(m, fam, deg)

    def make_gamma(self, r, which, dim, k=0):
        m = self['mesh', which, dim]
        f = df.MeshFunction('size_t', m, dim - 1, 0)
        m.init(dim - 1, dim)
        # the line in the middle
        x = m.coordinates() / m.coordinates().max(0)
        ends = x[np.array([e.entities(0) for e in df.facets(m)])]
        mid = np.all(np.abs(ends[:, :, k] - .5) < .2, axis=1)
        f.array()[mid] = 1 + (ends[mid].mean(1)[:, 1 - k] > .5)
        return EmbeddedMesh(f, (1, 2))

    def make_marks(self, r, gamma):
        """Another marking function of the interface"""
        f = df.MeshFunction('size_t', self[gamma], self[gamma].topology().dim(), 0)
        f.array()[:] = 1 + r.permutation(len(f.array())) % 2
        return f

    def make_constant(self, r, k, n=0): return df.Constant(self.vector(r, k) if n else r.uniform(.5, 2))

    def vector(self, r, k):
        """Close to the (negative of the) unit vector of the axis if it is one, anything otherwise"""
        if not str(k).startswith('along'): return r.uniform(.5, 2, 2)
        n = r.uniform(-.3, .3, 2)
        n[int(k[5])] += 1
        return n * r.choice([-1, 1])

    def make_radius(self, r, k): return df.Constant(r.uniform(.05, .15))

    def make_function(self, r, V, k):
        f = df.Function(self[V])
        f.vector().set_local(r.uniform(.5, 2, f.vector().local_size()))
        return f

    def make_normal(self, r, gamma, k):
        V = df.VectorFunctionSpace(self[gamma], 'DG', 0)
        f = df.Function(V)
        f.vector().set_local(np.hstack([self.vector(r, k) for _ in range(V.dim() // 2)]))
        return f

    def make_expression(self, r, k): return df.Expression('1+a*x[0]', a=r.uniform(.5, 2), degree=1)

    def make_cells(self, r, mesh, k, n=3):
        f = df.MeshFunction('size_t', self[mesh], self[mesh].topology().dim(), 0)
        f.array()[:] = 1 + r.permutation(len(f.array())) % n
        return f

    def make_line(self, r, k):
        n = 2
        a, b = r.uniform(.35, .65, 3), r.uniform(.35, .65, 3)
        if k == 3: b[:2] = a[:2]
        return build([a + (b - a) * j / n for j in range(n + 1)], [(j, j + 1) for j in range(n)], 1)

    def make_curve(self, r, k): return build(r.uniform(-1, 1, (4, 2)), [(0, 1), (1, 2), (1, 3)], 1)

    def make_shape(self, r, kind, R, deg):
        if isinstance(R, tuple): R = RadiusOf(self[R])
        if kind == 'none': return None
        return {'circle': Circle, 'disk': Disk}[kind](radius=R, degree=deg) if kind != 'square' else Square(P=lambda x0: x0 + np.array([R, 0.1 * R, 0]), degree=deg)

    def make_sub(self, r, mesh, k):
        f = df.MeshFunction('size_t', self[mesh], self[mesh].topology().dim(), 0)
        f.array()[:] = r.permutation(len(f.array())) % 2
        return SubDomainMesh(f, 1)

    def make_fine(self, r, mesh, k): return df.refine(self[mesh])

    def make_colors(self, r, V):
        f = df.Function(self[V])
        f.vector().set_local(1. + np.arange(f.vector().local_size()) % 3)
        return f

    def make_boundary(self, r, mesh): return df.BoundaryMesh(self[mesh], 'exterior')

    def change(self, name, k):
        """The k-th change made to the object in place"""
        r = self.rng(('change', name, k))
        x = self[name]
        if name[0] == 'mesh':
            x.coordinates()[:] *= r.uniform(1.1, 2)
            x.bounding_box_tree().build(x)
        elif name[0] == 'constant': x.assign(df.Constant(self.vector(r, name[1]) if x.ufl_shape else r.uniform(.5, 2)))
        elif name[0] == 'radius': x.assign(df.Constant(r.uniform(.05, .15)))
        elif name[0] == 'normal': x.vector().set_local(np.hstack([self.vector(r, name[2]) for _ in range(x.vector().local_size() // 2)]))
        elif name[0] == 'function': x.vector().set_local(r.uniform(.5, 2, x.vector().local_size()))
        elif name[0] == 'colors': x.vector().set_local(1. + r.permutation(x.vector().local_size()) % 3)
        elif name[0] == 'expression': x.a = r.uniform(.5, 2)
        elif name[0] in ('cells', 'marks'): x.array()[:] = x.array()[r.permutation(len(x.array()))]
        else: raise ValueError(name)


class RadiusOf(object):
    """Radius from a constant"""
    def __init__(self, c): self.c = c
    def __call__(self, x): return 1.1 * float(self.c)


# --- requests ---------------------------------------------------------------------------------------------------------

def r_trace(w, V, gamma, side, normal, marks, tags):
    V, gamma = w[V], w[gamma]
    n = w[normal] if normal is not None else None
    f = w[marks] if marks is not None else gamma.marking_function
    return dense(trace_mat(V, trace_space(V, gamma), gamma, {'restriction': side, 'normal': n, 'tag_data': (f, set(tags))}))


def r_trace_form(w, V, gamma, side, normal, tags):
    V, gamma = w[V], w[gamma]
    q = df.TestFunction(trace_space(V, gamma))
    T = Trace(df.TrialFunction(V), gamma, side, w[normal] if normal is not None else None, tag=tags if tags is None else tuple(tags))
    return dense(ii_convert(ii_assemble(df.inner(T, q) * df.Measure('dx', domain=gamma))))


def r_average(w, V, line, shape):
    V, line = w[V], w[line]
    return dense(avg_mat(V, average_space(V, line), line, {'shape': w[shape]}))


def r_flux(w, V, line, shape):
    V, line = w[V], w[line]
    return dense(flux_avg_mat(V, df.FunctionSpace(line, 'DG', V.ufl_element().degree()), line, {'shape': w[shape]}))


def r_patch(w, V, colors, cells, coloring):
    f = w[colors]
    return dense(patch_avg_mat(w[V], f.function_space(), f.function_space().mesh(), {'vertex_f': f, 'patch_f': w[cells], 'patch_coloring': None if coloring is None else dict(coloring)}))


def measure(w, m, V):
    if m is None: return None
    kind, data, tag = m
    d = df.Measure(kind, domain=w[V].mesh(), subdomain_data=None if data is None else w[data])
    return d if tag is None else d(tag)


def r_mean(w, V, weight, m):
    return dense(mean_mat(w[V], df.FunctionSpace(w[V].mesh(), 'Real', 0), w[V].mesh(), {'weight': None if weight is None else w[weight], 'measure': measure(w, m, V)}))


def r_mean_form(w, V, weight, m):
    R = df.FunctionSpace(w[V].mesh(), 'Real', 0)
    u = Mean(df.TrialFunction(w[V]), weight=None if weight is None else w[weight], measure=measure(w, m, V))
    return dense(ii_convert(ii_assemble(df.inner(u, df.TestFunction(R)) * df.Measure('dx', domain=w[V].mesh()))))


def r_point(w, V, point, cell):
    V = w[V]
    shape = V.ufl_element().value_shape()
    R = df.FunctionSpace(V.mesh(), 'R', 0) if not shape else df.VectorFunctionSpace(V.mesh(), 'R', 0)
    return dense(point_trace_mat(V, R, V.mesh(), {'point': point, 'cell': cell}))


def r_grad(w, V, point, cell, tangent):
    V = w[V]
    tau = w[tangent] if isinstance(tangent[0], str) else np.array(tangent)
    return dense(gradient_point_trace_mat(V, df.FunctionSpace(V.mesh(), 'R', 0), V.mesh(), {'point': point, 'cell': cell, 'tangent': tau}))


def r_restriction(w, V, sub):
    V, sub = w[V], w[sub]
    return dense(restriction_mat(V, df.FunctionSpace(sub, V.ufl_element()), sub, {}))


def r_injection(w, V, Q, fine, method):
    V, Q, fine = w[V], w[Q], w[fine]
    Injection(df.TestFunction(V), fine, 'interpolate')
    return dense(ii_convert(injection_matrix(V, Q, fine, {'not_nested_method': method})))


def r_interpolation(w, V, Q): return dense(df.PETScMatrix(interpolation_mat(w[V], w[Q])))


def r_surface(w, V, boundary):
    V, b = w[V], w[boundary]
    return dense(surface_mean_mat(V, surface_mean_space(V, b), b, {}))


def r_transpose(w, V, Q, gamma): return dense(transpose_trace_mat(w[V], w[Q], w[gamma], {}))


REQUESTS = {k[2:]: v for k, v in list(globals().items()) if k.startswith('r_')}


def pick(t, xs): return t.rng.choice(xs)


def p_trace(t):
    which = pick(t, 'AAB')
    V = ('space', ('mesh', which, 2)) + pick(t, [('CG', 1), ('CG', 1), ('CG', 2), ('DG', 1), ('CG', 1, 'plain'), ('CG', 1, 'periodic'), ('CG', 1, 'vector')])
    gamma = ('gamma', which, 2, pick(t, [0, 0, 0, 1]))
    side = pick(t, ['', '', '+', '-', 'avg', 'jump'])
    along = 'along%d' % gamma[3]
    normal = pick(t, [('normal', gamma, along), ('normal', gamma, along + ' too')]) if side else None
    tags = pick(t, [(1,), (2,), (1, 2)])
    if t.rng.random() < .3: return 'trace_form', V, gamma, side, normal, pick(t, [None, (1,), (2,), (1, 2)])
    return 'trace', V, gamma, side, normal, pick(t, [None, ('marks', gamma), ('marks', gamma)]), tags


LINES = [('line', 1), ('line', 2), ('line', 3)]
SHAPES = [('shape', 'circle', .1, 3), ('shape', 'circle', .2, 3), ('shape', 'circle', .1, 7), ('shape', 'disk', .1, 3), ('shape', 'none', 0, 0), ('shape', 'circle', ('radius', 1), 3), ('shape', 'circle', ('radius', 2), 3), ('shape', 'square', .1, 3)]


def p_average(t):
    V = ('space', ('mesh', pick(t, 'AAB'), 3)) + pick(t, [('CG', 1), ('CG', 2), ('CG', 1, 'plain'), ('CG', 1, 'vector')])
    return 'average', V, *pick(t, [(l, s) for l in LINES for s in SHAPES if s[1] != 'square' or l[1] == 3])


def p_flux(t):
    V = ('space', ('mesh', pick(t, 'AAB'), 3)) + pick(t, [('RT', 1), ('CG', 1, 'vector'), ('CG', 2, 'vector'), ('BDM', 1)])
    return 'flux', V, pick(t, LINES), pick(t, SHAPES[:3] + SHAPES[5:7])


def p_patch(t):
    m = ('mesh', pick(t, 'AAB'), 2)
    return ('patch', ('space', m) + pick(t, [('CG', 1), ('CG', 1), ('DG', 0)]), ('colors', ('space', ('curve', 1)) + pick(t, [('CG', 1), ('DG', 0)])),
            ('cells', m, pick(t, [1, 2])), pick(t, [None, None, ((np.uintp(1), 0), (np.uintp(2), 1), (np.uintp(3), 2)), ((np.uintp(1), 0), (np.uintp(2), 1))]))


def p_mean(t):
    m = ('mesh', pick(t, 'AAB'), 2)
    V = ('space', m) + pick(t, [('CG', 1), ('CG', 2), ('DG', 0)])
    weight = pick(t, [None, ('constant', 1), ('constant', 2), ('function', ('space', m, 'CG', 1), 1), ('function', ('space', m, 'CG', 1), 2), ('expression', 1)])
    return pick(t, ['mean', 'mean', 'mean_form']), V, weight, pick(t, [None, ('dx', None, None), ('ds', None, None), ('dx', ('cells', m, 1), 1), ('dx', ('cells', m, 1), 2), ('dx', ('cells', m, 2), 1)])


def p_point(t):
    m = ('mesh', pick(t, 'AAB'), 2)
    if t.rng.random() < .6:
        return ('point', ('space', m) + pick(t, [('CG', 1), ('CG', 2), ('CG', 1, 'vector'), ('CG', 1, 'plain')]), pick(t, [0, 4, (.3, .6), (.6, .3), (.3, .3)]), None)
    return ('point', ('space', ('curve', pick(t, [1, 2])), 'DG', pick(t, [1, 2])), 1, pick(t, [0, 1, 2]))


def p_grad(t):
    c = ('curve', pick(t, [1, 1, 2]))
    p, cell = pick(t, [(1, 0), (1, 1), (1, 2), (0, 0), (2, 1)])
    return ('grad', ('space', c, 'DG', pick(t, [1, 2])), p, cell, pick(t, [(1., 0.), (0., 1.), (1., 2.), ('constant', 1, 2), ('constant', 2, 2), ('normal', c, 1), ('normal', c, 2)]))


def p_restriction(t):
    m = ('mesh', pick(t, 'AAB'), 2)
    return ('restriction', ('space', m) + pick(t, [('CG', 1), ('CG', 2), ('DG', 0), ('CG', 1, 'plain')]), ('sub', m, pick(t, [1, 2, 3])))


def p_injection(t):
    m = ('mesh', pick(t, 'AAB'), 2)
    fine = ('fine', m, pick(t, [1, 1, 2]))
    method = pick(t, [None, 'interpolate'])
    return 'injection', ('space', m) + pick(t, [('CG', 1), ('CG', 2)]), ('space', fine) + pick(t, [('CG', 1), ('CG', 2), ('DG', 0)]), fine, method


def p_interpolation(t):
    m = ('mesh', pick(t, 'AAB'), 2)
    return 'interpolation', ('space', m) + pick(t, [('CG', 1), ('CG', 2), ('CG', 1, 'plain')]), ('space', m) + pick(t, [('CG', 1), ('DG', 1), ('DG', 0)])


def p_surface(t):
    m = ('mesh', pick(t, 'AAB'), 2)
    return 'surface', ('space', m) + pick(t, [('CG', 1), ('CG', 2), ('CG', 1, 'plain')]), ('boundary', m)


def p_transpose(t):
    k = pick(t, [0, 0, 1])
    w = pick(t, 'AAB')
    g = ('gamma', w, 2, k)
    return 'transpose', ('space', g, 'CG', 1), ('space', ('mesh', w, 2), 'CG', pick(t, [1, 1, 2])), g


def changeable(req):
    """Names of the data of a request that can be changed in place"""
    out = []

    def walk(x):
        if isinstance(x, tuple):
            if x and x[0] in ('constant', 'radius', 'function', 'normal', 'colors', 'expression', 'cells', 'marks'): out.append(x)
            for y in x: walk(y)
    walk(req[1:])
    return out


def story(t, makers, n):
    """Requests and changes between them"""
    steps, reqs, k = [], [], 0
    while len(reqs) < n:
        # a new request, one asked before, or one that differs from it in a single item
        r = t.rng.random()
        if reqs and r < .25: req = t.rng.choice(reqs)
        elif reqs and r < .7:
            old, new = t.rng.choice(reqs), pick(t, makers)(t)
            j = t.rng.randrange(1, len(old))
            req = old[:j] + (new[j], ) + old[j + 1:] if len(new) == len(old) and new[0] == old[0] and consistent(old[:j] + (new[j], ) + old[j + 1:]) else new
        else: req = pick(t, makers)(t)
        steps.append(('ask', req))
        reqs.append(req)
        names = changeable(req)
        if names and t.rng.random() < .4:
            k += 1
            steps.append(('change', pick(t, names), k))
            reqs.append(req)
            steps.append(('ask', req))
        elif t.rng.random() < .08 and req[0] in ('mean', 'mean_form', 'interpolation', 'patch'):
            m = req[1][1]
            k += 1
            steps.append(('change', m, k))
            steps.append(('ask', req))
            reqs.append(req)
    # Meshes made from those that move do not follow
    if any(r[0] not in ('mean', 'mean_form', 'interpolation', 'patch') for r in reqs):
        steps = [s for s in steps if s[0] == 'ask' or s[1][0] != 'mesh']
    return steps


def consistent(req):
    """All mentioned meshes are of one family, sides have normals"""
    meshes = set()

    def walk(x):
        if isinstance(x, tuple):
            if x and x[0] == 'mesh': meshes.add(x)
            elif x and x[0] == 'gamma': meshes.add(('mesh', x[1], x[2])); meshes.add((x, ))
            for y in x: walk(y)
    walk(req[1:])
    if len([m for m in meshes if m[0] == 'mesh']) > 1 or len([m for m in meshes if m[0] != 'mesh']) > 1: return False
    if req[0] in ('trace', 'trace_form') and bool(req[3]) != (req[4] is not None): return False
    if req[0] in ('trace', 'trace_form') and req[4] and not str(req[4][1 + (req[4][0] == 'normal')]).startswith('along%d' % req[2][3]): return False
    if req[0] == 'average' and req[3][1] == 'square' and req[2][1] != 3: return False
    if req[0] == 'injection':
        if req[2][1] != req[3]: return False
    if req[0] == 'point' and (req[1][1][0] == 'curve') != (req[3] is not None): return False
    if req[0] == 'point' and req[1][1][0] == 'curve' and not isinstance(req[2], int): return False
    if req[0] == 'point' and isinstance(req[2], int) and req[1][1][0] == 'curve' and req[2] != 1: return False
    if req[0] == 'grad':
        if (req[2], req[3]) not in [(1, 0), (1, 1), (1, 2), (0, 0), (2, 1)]: return False
        if req[4][0] == 'normal' and req[4][1] != req[1][1]: return False
    return True


def history(t, i, makers, n=6):
    steps = story(t, makers, n)
    seed = t.rng.randrange(10**6)
    t.input('history', seed, '; '.join('%s %s' % (s[0], s[1]) for s in steps))

    def all_of_them():
        w, out = World(seed), []
        for s in steps:
            if s[0] == 'change': w.change(s[1], s[2])
            else:
                try: out.append(('value', REQUESTS[s[1][0]](w, *s[1][1:])))
                except BaseException as x: out.append(('raised', '%s: %s' % (type(x).__name__, traceback.format_exc()[-900:])))
        return out

    def only(k):
        w = World(seed)
        for s in steps[:k]:
            if s[0] == 'change': w.change(s[1], s[2])
            else: w.make(s[1])
        return REQUESTS[steps[k][1][0]](w, *steps[k][1][1:])

    kind, got = in_child(all_of_them)()
    if kind == 'raised':
        t.fail('history', got)
        return
    asked = [k for k, s in enumerate(steps) if s[0] == 'ask']
    fresh = [in_child(lambda k=k: only(k)) for k in asked]
    fresh = [f() for f in fresh]
    for k, (a, x), (b, y) in zip(asked, got, fresh):
        req = steps[k][1]
        if a == 'raised' and b == 'raised': raise AssertionError('request %s: %s' % (req, y[-1600:]))
        if t.expect(a == b, 'fresh process answers alike', lambda: '%s: %s' % (req, (x if a == 'raised' else y)[-600:])):
            t.close(x, y, 'operator is that of a fresh process (%s)' % req[0], 1e-11, 'request %d %s' % (k, req))


@case('C07', 16, 300)
def traces(t, i): history(t, i, [p_trace], 8)


@case('C07', 12, 250)
def averages(t, i): history(t, i, [p_average])


@case('C07', 10, 200)
def fluxes(t, i): history(t, i, [p_flux])


@case('C07', 12, 250)
def patches(t, i): history(t, i, [p_patch])


@case('C07', 12, 250)
def means(t, i): history(t, i, [p_mean], 8)


@case('C07', 12, 250)
def points(t, i): history(t, i, [p_point, p_grad], 8)


@case('C07', 12, 250)
def transfers(t, i): history(t, i, [p_restriction, p_injection, p_interpolation], 8)


@case('C07', 10, 200)
def surfaces(t, i): history(t, i, [p_surface, p_transpose], 8)


@case('C07', 8, 100)
def mixed(t, i): history(t, i, [p_trace, p_average, p_patch, p_mean, p_point, p_grad, p_restriction, p_injection, p_interpolation, p_surface, p_transpose], 10)
