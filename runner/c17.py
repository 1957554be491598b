"""C17 on concrete vectors and spaces; oracle: dense linear algebra"""
import numpy as np
import dolfin as df
from block import block_vec
from runner.base import case, Skip
from runner.geo import box
from runner.lin import some, linear
from xii import BlockNullspace
from xii.linalg.sherman_morrison import Projector, L20_inner_product, L20_riesz_map, orthonormalize
from xii.linalg.convert import numpy_to_petsc, convert


def vec(x):
    v = df.Vector(df.MPI.comm_world, len(x))
    v.set_local(np.asarray(x, dtype=float))
    v.apply('insert')
    return v


def flat(b): return np.concatenate([x.get_local() for x in b])


def split(x, sizes): return block_vec([vec(p) for p in np.split(x, np.cumsum(sizes)[:-1])])


@case('C17', n=800, thorough=3000)
def basis(t, i):
    sizes = [t.rng.randint(1, 6) for _ in range(t.rng.randint(1, 4))]
    n = sum(sizes)
    k = t.rng.randint(1, min(n, 5))
    B = t.np.standard_normal((k, n)) * 10. ** t.np.randint(-3, 4, (k, 1))
    if t.rng.random() < .3:        # blocks without a part in the nullspace
        j = t.rng.randrange(len(sizes))
        lo = sum(sizes[:j])
        B[:, lo:lo + sizes[j]] = 0
    if t.rng.random() < .2: B *= (1 + t.rng.choice([-1, 1]) * 10. ** -t.np.randint(2, 8, (k, 1))) / (np.linalg.norm(B, axis=1, keepdims=True) + 1e-300)     # almost normalized
    if t.rng.random() < .2 and k > 1:        # almost orthonormal
        B = np.linalg.qr(B.T)[0].T + 10. ** -t.rng.randint(2, 7) * t.np.standard_normal((k, n))
    s = np.linalg.svd(B / (np.linalg.norm(B, axis=1, keepdims=True) + 1e-300), compute_uv=False)
    if s[-1] < 1e-2: raise Skip
    t.input(sizes, B.tolist())
    given = [split(b, sizes) for b in B]
    if t.rng.random() < .5: Z = BlockNullspace(None, given)
    else:
        Z = BlockNullspace(None)
        for v in given: Z.add_vector(v)
    t.close(np.array([flat(v) for v in given]), B, 'arguments are not changed', 0)
    t.expect(len(Z) == k and len(list(Z)) == k, 'as many as given')
    Q = np.array([flat(z) for z in Z])
    t.close(Q @ Q.T, np.eye(k), 'orthonormal', 1e-9)
    t.close(B @ Q.T @ Q / np.linalg.norm(B, axis=1, keepdims=True), B / np.linalg.norm(B, axis=1, keepdims=True), 'same span', 1e-9)
    x = some(t, n, sizes)
    x = x / max(1, np.abs(x).max())
    if t.rng.random() < .3: x = x - Q.T @ (Q @ x) + 10. ** -t.rng.randint(3, 12) * Q[0]       # almost orthogonal
    b = split(x, sizes)
    t.close(np.array(Z.angles(b)), Q @ x, 'angles', 1e-9)
    t.close(flat(b), x, 'angles do not change the vector', 0)
    y = Z.orthogonalize(b)
    linear(t, flat(y), x - Q.T @ (Q @ x), x, 'orthogonalized', 1e-9)
    t.close(Q @ flat(y) / max(np.linalg.norm(x), 1e-300), np.zeros(k), 'orthogonal to the members', 1e-11)
    t.close(np.array([flat(z) for z in Z]), Q, 'basis is not changed', 0)
    y = Z.orthogonalize(split(flat(y), sizes))
    t.close(flat(y), x - Q.T @ (Q @ x), 'again', 1e-9)
    y = Z.orthogonalize(split(B[0], sizes))
    t.close(flat(y) / np.linalg.norm(B[0]), np.zeros(n), 'member is removed', 1e-9)


@case('C17', n=160, thorough=320)
def dependent(t, i):
    """A vector parallel to one before is refused"""
    sizes = [t.rng.randint(1, 6) for _ in range(t.rng.randint(1, 3))]
    n = sum(sizes)
    x = t.np.standard_normal(n)
    t.input(sizes, x.tolist())
    Z = BlockNullspace(None, [split(x, sizes)])
    t.raises(AssertionError, lambda: Z.add_vector(split(t.rng.choice([-3., 1., .5]) * x, sizes)), 'dependent')
    t.expect(len(Z) == 1, 'not added')


def spaces(t, mesh): return [df.FunctionSpace(mesh, 'CG', 1), df.VectorFunctionSpace(mesh, 'CG', 1), df.FunctionSpace(mesh, 'DG', 0)]


@case('C17', n=96, thorough=200)
def constants(t, i):
    """Numbers, constants and tuples stand for constant functions"""
    mesh = df.UnitSquareMesh(t.rng.randint(1, 3), t.rng.randint(1, 3))
    S = spaces(t, mesh)
    W = [t.rng.choice(S) for _ in range(t.rng.randint(1, 3))]
    def some(V):
        r = t.rng.random()
        if V.ufl_element().value_shape():
            c = (t.rng.uniform(-1, 1), t.rng.uniform(.5, 1))
            a = t.rng.choice([lambda: tuple(c), lambda: list(c), lambda: df.Constant(c), lambda: df.interpolate(df.Constant(c), V).vector()])()
            return a, df.interpolate(df.Constant(c), V).vector().get_local()
        c = t.rng.choice([1, 2, -3.5, .25])
        a = t.rng.choice([lambda: c, lambda: df.Constant(c), lambda: df.interpolate(df.Constant(c), V).vector()])()
        return a, np.full(V.dim(), float(c))
    parts = [some(V) for V in W]
    x = np.concatenate([p[1] for p in parts])
    t.input([V.ufl_element().shortstr() for V in W], [repr(type(p[0])) for p in parts], x.tolist())
    arg = block_vec([p[0] for p in parts])
    Z = BlockNullspace(W, [arg])
    t.close(np.array([flat(z) for z in Z]), np.array([x / np.linalg.norm(x)]), 'constants', 1e-10)
    t.expect(all(a is b or isinstance(b, df.GenericVector) for a, b in zip(arg, [p[0] for p in parts])), 'argument is not changed')
    b = t.np.standard_normal(len(x))
    y = Z.orthogonalize(split(b, [V.dim() for V in W]))
    t.close(flat(y), b - x * (x @ b) / (x @ x), 'orthogonalized', 1e-9)


@case('C17', n=240, thorough=600)
def m_basis(t, i):
    n = t.rng.randint(2, 8)
    k = t.rng.randint(1, min(n, 4))
    A = t.np.standard_normal((n, n))
    M = A @ A.T + n * np.eye(n)
    B = t.np.standard_normal((k, n))
    if t.rng.random() < .3 and k > 1:
        # M-orthonormal already, equal norms
        L = np.linalg.cholesky(M)
        B = np.linalg.solve(L.T, np.linalg.qr(t.np.standard_normal((n, n)))[0][:, :k]).T * t.rng.choice([1., 2.])
    if np.linalg.svd(B, compute_uv=False)[-1] < 5e-2: raise Skip
    t.input(M.tolist(), B.tolist())
    given = [vec(b) for b in B]
    out = orthonormalize(given, numpy_to_petsc(M))
    Q = np.array([q.get_local() for q in out])
    t.close(Q @ M @ Q.T, np.eye(k), 'M-orthonormal', 1e-8)
    t.close(np.linalg.matrix_rank(np.vstack([Q, B]), tol=1e-6), k, 'same span', 0)
    t.close(np.array([b.get_local() for b in given]), B, 'arguments are not changed', 0)


_spaces = {}


def kernel(t, i):
    mesh = box(t, 2, 3)
    k = i % 4
    if k == 3:
        V = df.VectorFunctionSpace(mesh, 'CG', 1)
        pool = [df.Constant((1, 0)), df.Constant((0, 1)), df.Expression(('-x[1]', 'x[0]'), degree=1), df.Expression(('x[0]', 'x[1]'), degree=1)]
    else:
        V = df.FunctionSpace(mesh, *[('CG', 1), ('CG', 2), ('DG', 1)][k])
        pool = [df.Constant(1), df.Expression('x[0]', degree=1), df.Expression('x[1]', degree=1), df.Constant(3)]
    m = t.rng.randint(1, 3)
    Z = t.rng.sample(pool[:3] if m > 1 else pool, m)
    return V, Z


@case('C17', n=128, thorough=300)
def projector(t, i):
    V, Z = kernel(t, i)
    n = V.dim()
    t.input(V.ufl_element().shortstr(), n, len(Z))
    u, v = df.TrialFunction(V), df.TestFunction(V)
    M = df.assemble(df.inner(u, v) * df.dx).array()
    B = np.array([df.interpolate(z, V).vector().get_local() for z in Z])
    G = B @ M @ B.T
    P = np.eye(n) - B.T @ np.linalg.solve(G, B @ M)
    x = some(t, n)
    x = x / max(1, np.abs(x).max())
    proj, ip = Projector(V, Z), L20_inner_product(V, Z)
    xv = vec(x)
    linear(t, (proj * xv).get_local(), P @ x, x, 'projector', 1e-8)
    t.close(xv.get_local(), x, 'argument is not changed', 0)
    t.close(B @ M @ (proj * xv).get_local(), np.zeros(len(Z)), 'mean free', 1e-8)
    t.close((proj * (proj * xv)).get_local(), P @ x, 'projector twice', 1e-8)
    t.close(convert(proj.collapse()).array(), P, 'matrix of the projector', 1e-8)
    A = P.T @ M @ P
    linear(t, (ip * xv).get_local(), A @ x, x, 'inner product', 1e-8)
    t.close(convert(ip.collapse()).array(), A, 'matrix of the inner product', 1e-8)
    R = L20_riesz_map(V, Z)
    # Functionals that vanish on the nullspace
    f = A @ x
    y = (R * vec(f)).get_local()
    linear(t, y, P @ x, x, 'Riesz map inverts the inner product on the complement', 1e-7)
    t.close(A @ y, f, 'inner product inverts the Riesz map', 1e-7)
    t.close(B @ M @ y, np.zeros(len(Z)), 'Riesz map is mean free', 1e-7)
