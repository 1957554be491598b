"""C06 on concrete nested lists and forms; oracle: numpy arrays, dolfin's assemble of each form alone"""
import numpy as np
from runner.base import case
from runner.lin import arr, dense
from xii.linalg.list_utils import shape_list, flatten_list, reshape_list, package
from xii import ii_assemble, Trace, Average, EmbeddedMesh, ii_convert
import dolfin as df
from block import block_vec, block_mat


def nested(items, shape):
    """List with the items in C order"""
    if len(shape) == 1: return list(items)
    k = len(items) // shape[0]
    return [nested(items[i * k:(i + 1) * k], shape[1:]) for i in range(shape[0])]


class Item(object): pass


def prod(s):
    n = 1
    for x in s: n *= x
    return n


@case('C06', n=300, thorough=4000)
def list_helpers(t, i):
    shape = tuple(t.rng.randint(1, 4) for _ in range(t.rng.randint(1, 4)))
    items = [Item() for _ in range(prod(shape))] if i % 2 else list(range(prod(shape)))
    lst = nested(items, shape)
    t.input(shape, i % 2)
    same = lambda a, b: a is b or (isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and all(map(same, a, b)))
    t.expect(shape_list(lst) == shape, 'shape', '%s %s' % (shape_list(lst), shape))
    t.expect(same(flatten_list(lst), items), 'flatten', shape)
    # a shape with as many items
    n, new = len(items), []
    while n > 1 and len(new) < 3 and t.rng.random() < .8:
        d = t.rng.choice([d for d in range(1, n + 1) if n % d == 0])
        new.append(d)
        n //= d
    new.append(n)
    t.rng.shuffle(new)
    new = tuple(new)
    t.expect(same(reshape_list(lst, new), nested(items, new)), 'reshape', '%s to %s' % (shape, new))
    t.expect(same(reshape_list(items, shape), lst), 'reshape back', shape)
    t.expect(same(lst, nested(items, shape)), 'argument changed', shape)
    # rows of cells
    m = t.rng.randint(1, 6)
    t.expect(same(package(items, m), [items[k:k + m] for k in range(0, len(items), m)]), 'package', m)


@case('C06', n=60, thorough=500)
def bad_lists(t, i):
    shape = tuple(t.rng.randint(1, 3) for _ in range(t.rng.randint(1, 3)))
    items = list(range(prod(shape)))
    t.input(shape, i)
    t.raises(AssertionError, lambda: reshape_list(nested(items, shape), (len(items) + 1, )), 'reshape to another size')
    ragged = [[1, 2], [3]] if i % 3 == 0 else [[1], 2] if i % 3 == 1 else [[[1], [2]], [[1, 2], [3, 4]]]
    t.raises(AssertionError, lambda: shape_list(ragged), 'shape of ragged list', ragged)


class Zoo(object):
    """Spaces and forms"""
    def __init__(self, t):
        n = t.rng.randint(1, 3)
        mesh = df.UnitSquareMesh(n, t.rng.randint(1, 3))
        bd = df.MeshFunction('size_t', mesh, 1, 0)
        df.DomainBoundary().mark(bd, 1)
        gamma = EmbeddedMesh(bd, 1)
        self.V = [df.FunctionSpace(mesh, 'CG', 1), df.VectorFunctionSpace(mesh, 'CG', 1), df.FunctionSpace(mesh, 'DG', 0),
                  df.FunctionSpace(gamma, 'DG', 0)]
        self.mesh, self.gamma = mesh, gamma
        self.dx = df.Measure('dx', domain=gamma)

    def scalar(self, u, red):
        """Scalar expression of the argument in space u, possibly on gamma"""
        V = u.function_space()
        if red and V.mesh().id() == self.mesh.id():
            u = Trace(u, self.gamma)
        return u[0] if len(u.ufl_shape) else u

    def form(self, t, row, col=None):
        """Form for test space, trial space. Returns form, parts"""
        V = self.V
        c = df.Constant(t.rng.choice([1, 2.5, -1]))
        on_gamma = row == 3 or col == 3 or t.rng.random() < .3
        args = [df.TestFunction(V[row])] + ([] if col is None else [df.TrialFunction(V[col])])
        e = c
        for a in args: e = e * self.scalar(a, on_gamma)
        if col is None and t.rng.random() < .5: e = e * (df.SpatialCoordinate(self.gamma if on_gamma else self.mesh)[0] + 1)
        return e * (self.dx if on_gamma else df.dx(domain=self.mesh))


def same(t, got, form, key):
    """got is the assembly of the form alone"""
    if is_number(form): return t.expect(type(got) is type(form) and got == form, key, '%r for %r' % (got, form))
    plain = all(a.ufl_domain() == form.ufl_domain() for a in form.arguments())
    alone = df.assemble(form) if plain else ii_assemble(form)
    t.close(action(got), action(alone), key, 1e-11)


def is_number(x): return isinstance(x, (int, float, np.number))


def action(x):
    x = ii_convert(x) if not hasattr(x, 'get_local') else x
    return arr(x) if hasattr(x, 'get_local') else dense(x)


@case('C06', n=40, thorough=300)
def block_vectors(t, i):
    z = Zoo(t)
    k = t.rng.randint(1, 5)
    rows = [t.rng.randrange(4) for _ in range(k)]
    L = [t.rng.choice([0, 0., 3, 1.5, np.float64(2)]) if t.rng.random() < .25 else z.form(t, r) for r in rows]
    t.input(rows, [str(x) for x in L])
    keep = list(L)
    b = ii_assemble(L)
    t.expect(isinstance(b, block_vec) and len(b) == k, 'block vector of the shape', type(b))
    for x, f in zip(b, L): same(t, x, f, 'entry of block vector')
    t.expect(all(x is y for x, y in zip(L, keep)) and len(L) == k, 'argument changed')


@case('C06', n=60, thorough=300)
def block_matrices(t, i):
    z = Zoo(t)
    nr, nc = t.rng.randint(1, 4), t.rng.randint(1, 4)
    rows, cols = [t.rng.randrange(4) for _ in range(nr)], [t.rng.randrange(4) for _ in range(nc)]
    a = [[t.rng.choice([0, 0., 3, 1.5, np.float64(2)]) if t.rng.random() < .25 else z.form(t, r, c) for c in cols] for r in rows]
    t.input(rows, cols, [[str(x) for x in r] for r in a])
    keep = [list(r) for r in a]
    A = ii_assemble(a)
    t.expect(isinstance(A, block_mat) and A.blocks.shape == (nr, nc), 'block matrix of the shape', getattr(A, 'blocks', A))
    for p in range(nr):
        for q in range(nc): same(t, A[p][q], a[p][q], 'entry of block matrix')
    t.expect(all(x is y for r, s in zip(a, keep) for x, y in zip(r, s)), 'argument changed')


@case('C06', n=30, thorough=200)
def numbers_and_functionals(t, i):
    z = Zoo(t)
    x = t.rng.choice([0, 1, 2.5, -3, np.float64(1.5)])
    t.input(x)
    t.expect(ii_assemble(x) == x and type(ii_assemble(x)) is type(x), 'number')
    f = df.interpolate(df.Expression('1+x[0]*2-x[1]', degree=1), z.V[0])
    J = f * df.dx(domain=z.mesh)
    t.close(ii_assemble(J), df.assemble(J), 'functional', 1e-12)
    K = Trace(f, z.gamma) * z.dx
    t.close(ii_assemble(K), df.assemble(f * df.ds(domain=z.mesh)), 'reduced functional', 1e-12)
    b = ii_assemble([J, x, K])
    t.close([b[0], b[1], b[2]], [df.assemble(J), x, df.assemble(f * df.ds(domain=z.mesh))], 'list of functionals', 1e-12)
    # plain forms as dolfin assembles them
    v, u = df.TestFunction(z.V[0]), df.TrialFunction(z.V[0])
    t.close(dense(ii_assemble(v * u * df.dx)), df.assemble(v * u * df.dx).array(), 'plain form', 1e-14)
