"""C14 on concrete block forms; oracle: dense matrices of the single forms placed by hand"""
import numpy as np
from runner.base import case, Skip
from runner.geo import *
from runner.c13 import to_array, fun
from runner.c10 import interface
from xii import EmbeddedMesh, Trace, Mean, SurfaceMean, PointTrace, Restriction, ii_assemble
from xii.assembler.block_form import (block_form, permute, make_selfadjoint, form_adjoint, is_upper_triangular,
                                      is_lower_triangular, is_bilinear_form, is_linear_form, is_null, test_function, trial_function)
import dolfin as df
test_function_, trial_function_ = test_function, trial_function
del test_function


class World(object):
    """Spaces on a mesh and on its trace mesh, a supply of forms"""
    def __init__(self, t, n):
        mesh = box(t, 2, 2)
        gamma, _, _ = interface(t, mesh)
        self.mesh, self.gamma = mesh, gamma
        S = [df.FunctionSpace(mesh, 'CG', 1), df.FunctionSpace(mesh, 'DG', 0), df.VectorFunctionSpace(mesh, 'CG', 1),
             df.FunctionSpace(mesh, 'CG', 1), df.FunctionSpace(gamma, 'CG', 1), df.FunctionSpace(mesh, 'CG', 2)]
        self.W = t.rng.sample(S, n)
        self.t = t
        self.on_gamma = [V.mesh().id() == gamma.id() for V in self.W]
        self.memo = {}

    def scalar(self, v, V, gamma):
        """Scalar quantity of an argument on the common mesh"""
        if gamma and V.mesh().id() != self.gamma.id(): v = Trace(v, self.gamma)
        return v[0] + 2 * v[1] if V.ufl_element().value_shape() else v

    def matrix(self, i, j, gamma, bd=False):
        key = (i, j, gamma, bd)
        if key not in self.memo: self.memo[key] = to_array(ii_assemble(self.raw(i, j, gamma, bd)))
        return self.memo[key]

    def raw(self, i, j, gamma, bd=False):
        V, U = self.W[i], self.W[j]
        dx = df.Measure('dx', domain=self.gamma if gamma else self.mesh)
        if bd: dx = df.Measure('ds', domain=self.mesh)
        return self.scalar(df.TrialFunction(U), U, gamma) * self.scalar(df.TestFunction(V), V, gamma) * dx

    def rawv(self, i, gamma):
        V = self.W[i]
        return self.scalar(df.TestFunction(V), V, gamma) * df.Measure('dx', domain=self.gamma if gamma else self.mesh)

    def vector(self, i, gamma):
        key = (i, gamma)
        if key not in self.memo: self.memo[key] = to_array(ii_assemble(self.rawv(i, gamma)))
        return self.memo[key]

    def where(self, i, j=None):
        """On which mesh the form of the block can live"""
        g = self.on_gamma[i] or (j is not None and self.on_gamma[j])
        ok = [k for k in (i, j) if k is not None and not self.on_gamma[k]]
        if g: return True if all(self.W[k].ufl_element().family() == 'Lagrange' for k in ok) else None
        if all(self.W[k].ufl_element().family() == 'Lagrange' for k in ok) and self.t.rng.random() < .3: return True
        return False

    def term(self, i, j):
        """Form of block i, j and its matrix"""
        g = self.where(i, j)
        if g is None: return None
        bd = not g and i == j and self.W[i].ufl_element().family() == 'Lagrange' and self.t.rng.random() < .3
        k = self.t.rng.choice([1., -1., self.t.rng.uniform(.5, 2)])
        return df.Constant(k) * self.raw(i, j, g, bd), k * self.matrix(i, j, g, bd)

    def vterm(self, i):
        g = self.where(i)
        if g is None: return None
        k = self.t.rng.choice([1., -1., self.t.rng.uniform(.5, 2)])
        return df.Constant(k) * self.rawv(i, g), k * self.vector(i, g)


def zeros(w, arity):
    n = len(w.W)
    return [[None] * n for _ in range(n)] if arity == 2 else [np.zeros(V.dim()) for V in w.W]


def fill(t, w, positions, arity):
    """Block form with random terms and the expected blocks"""
    a = block_form(w.W, arity)
    want = zeros(w, arity)
    todo = []
    for pos in positions:
        x = w.term(*pos) if arity == 2 else w.vterm(*pos)
        if x is None: continue
        todo.append((pos, x))
        if arity == 2:
            i, j = pos
            want[i][j] = x[1] if want[i][j] is None else want[i][j] + x[1]
        else: want[pos[0]] = want[pos[0]] + x[1]
    # any grouping
    while todo:
        k = t.rng.randint(1, min(3, len(todo)))
        group, todo = todo[:k], todo[k:]
        f = group[0][1][0]
        for _, (g, _) in group[1:]: f = f + g
        a.add(f)
    return a, want


def check(t, a, want, w, key, order=None):
    n = len(w.W)
    order = list(range(n)) if order is None else order
    t.expect(len(a) == n and [V.id() for V in a.V0] == [w.W[k].id() for k in order], key + ' spaces', '')
    for i in range(n):
        if not isinstance(want[0], list):
            t.close(to_array(ii_assemble(a[i])), want[order[i]], key, 1E-10, 'block %d' % i)
            continue
        for j in range(n):
            x = want[order[i]][order[j]]
            if x is None:
                t.expect(is_null(a[i][j]), key + ': nothing elsewhere', 'block %d %d is %s' % (i, j, a[i][j]))
            elif isinstance(a[i][j], (int, float)): t.expect(not np.any(x), key, 'block %d %d is %s' % (i, j, a[i][j]))
            else: t.close(to_array(ii_assemble(a[i][j])), x, key, 1E-10, 'block %d %d' % (i, j))


def positions(t, n, arity, k=6):
    return [tuple(t.rng.randrange(n) for _ in range(arity)) for _ in range(t.rng.randint(1, k))]


@case('C14', 24, 300)
def add(t, i):
    arity = 1 + i % 2
    w = World(t, t.rng.randint(1, 4))
    pos = positions(t, len(w.W), arity)
    t.input('add', arity, pos, [V.ufl_element().shortstr() for V in w.W])
    a, want = fill(t, w, pos, arity)
    check(t, a, want, w, 'terms are in the block of their arguments')
    # the other form of the same terms
    b, wb = fill(t, w, positions(t, len(w.W), arity), arity)
    c = a + b
    both = [[y if x is None else x if y is None else x + y for x, y in zip(p, q)] for p, q in zip(want, wb)] if arity == 2 else [x + y for x, y in zip(want, wb)]
    check(t, c, both, w, 'sum is entrywise')
    check(t, a, want, w, 'sum leaves its operands')
    order = list(t.np.permutation(len(w.W)))
    order = [int(k) for k in order]
    spaces = t.rng.random() < .5
    p = permute(a, [w.W[k] for k in order] if spaces else order)
    check(t, p, want, w, 'permutation reorders rows and columns', order)
    check(t, a, want, w, 'permutation leaves its operand')
    # adding to the permuted form follows the permuted order
    if arity == 2:
        x = w.term(order[0], order[-1])
        if x is not None:
            p.add(x[0])
            y = want[order[0]][order[-1]]
            want2 = [list(r) for r in want]
            want2[order[0]][order[-1]] = x[1] if y is None else y + x[1]
            check(t, p, want2, w, 'permuted form takes more terms', order)


@case('C14', 16, 200)
def selfadjoint(t, i):
    w = World(t, t.rng.randint(2, 4))
    n = len(w.W)
    upper = i % 2
    tri = [(a, b) if upper else (b, a) for a in range(n) for b in range(a, n)]
    pos = [t.rng.choice(tri) for _ in range(t.rng.randint(1, 6))]
    t.input('selfadjoint', 'upper' if upper else 'lower', pos, [V.ufl_element().shortstr() for V in w.W])
    a, want = fill(t, w, pos, 2)
    t.expect(bool(is_upper_triangular(a)) == all(want[i_][j] is None for i_ in range(n) for j in range(i_)), 'upper triangular', '')
    t.expect(bool(is_lower_triangular(a)) == all(want[j][i_] is None for i_ in range(n) for j in range(i_)), 'lower triangular', '')
    t.expect(not is_upper_triangular(block_form(w.W, 1)) and not is_lower_triangular(block_form(w.W, 1)), 'vector is not triangular', '')
    s = make_selfadjoint(a)
    full = [[want[i_][j] if want[i_][j] is not None else None if want[j][i_] is None else want[j][i_].T for j in range(n)] for i_ in range(n)]
    check(t, s, full, w, 'completed form is symmetric')


@case('C14', 6, 40)
def not_triangular(t, i):
    w = World(t, 2)
    x, y = w.term(0, 1), w.term(1, 0)
    if x is None: raise Skip
    a = block_form(w.W, 2)
    a.add(x[0])
    a.add(y[0])
    t.input('full form')
    t.expect(not is_upper_triangular(a) and not is_lower_triangular(a), 'full form is not triangular', '')
    t.raises(ValueError, lambda: make_selfadjoint(a), 'full form cannot be completed')


@case('C14', 12, 150)
def adjoint(t, i):
    """Adjoint of a single form, arguments from the same or from different spaces, reduced or not"""
    mesh = box(t, 2, 2)
    V = df.FunctionSpace(mesh, 'CG', 1)
    Q = df.FunctionSpace(mesh, 'DG', 0)
    W = df.VectorFunctionSpace(mesh, 'CG', 1)
    gamma = df.BoundaryMesh(mesh, 'exterior')
    G = df.FunctionSpace(gamma, 'CG', 1)
    u, v, p, q = df.TrialFunction(V), df.TestFunction(V), df.TrialFunction(Q), df.TestFunction(Q)
    uu, vv, g, h = df.TrialFunction(W), df.TestFunction(W), df.TrialFunction(G), df.TestFunction(G)
    f = fun(t, V)
    dX, dG = df.Measure('dx', domain=mesh), df.Measure('dx', domain=gamma)
    pt = (int(mesh.cells()[0][0]), 0)
    forms = [f * u.dx(0) * v * dX, u.dx(0) * q * dX + df.Constant(2) * u * q * dX, df.inner(df.dot(df.grad(uu), df.Constant((1, 2))), vv) * dX,
             u * df.div(vv) * dX, Trace(u, gamma) * h * dG, df.Constant(3) * Trace(u, gamma).dx(0) * Trace(v, gamma) * dG if False else Trace(f, gamma) * Trace(u, gamma) * h * dG,
             Mean(p) * v * dX, Mean(u) * q * dX, SurfaceMean(u, gamma) * h * dG, PointTrace(u, *pt) * q * dX,
             u.dx(1) * v * dX + f * u * v * dX, f * p * v * dX]
    a = forms[i % len(forms)]
    t.input('adjoint of', str(a))
    A = to_array(ii_assemble(a))
    b = form_adjoint(a)
    t.close(to_array(ii_assemble(b)), A.T, 'adjoint form assembles to the transpose')
    t.close(to_array(ii_assemble(a)), A, 'adjoint leaves its operand')
    t.close(to_array(ii_assemble(form_adjoint(b))), A, 'adjoint of the adjoint')
    t.expect(form_adjoint(0) == 0 and form_adjoint(2.5) == 2.5, 'adjoint of a number', '')


@case('C14', 8, 60)
def guards(t, i):
    """A form of other spaces is refused by a block"""
    w = World(t, 3)
    a = block_form(w.W, 2)
    i_, j = t.rng.sample(range(3), 2)
    x = w.term(i_, j)
    if x is None: raise Skip
    t.input('block', i_, j)

    def put(r, c):
        def go(): a[r][c] = x[0]
        return go
    for r in range(3):
        for c in range(3):
            if (r, c) == (i_, j):
                put(r, c)()
                t.expect(not is_null(a[r][c]), 'form accepted in its block', '')
            else: t.raises(AssertionError, put(r, c), 'form refused elsewhere', '%d %d for %d %d' % (r, c, i_, j))
    t.expect(is_bilinear_form(x[0]) and not is_linear_form(x[0]), 'bilinear', '')
    y = w.rawv(0, w.on_gamma[0])
    t.expect(is_linear_form(y) and not is_bilinear_form(y), 'linear', '')
    t.expect(test_function_(x[0])[0].function_space() == w.W[i_] and trial_function_(x[0])[0].function_space() == w.W[j], 'arguments of a form', '')
    L = block_form(w.W, 1)
    t.expect(is_linear_form(L), 'linear block form', '')
