"""C17: orthonormal bases of nullspaces, projections.

BlockNullspace touches vectors through inner products, sums, multiples and norms only, all of which keep their values when
coordinates change to others that are orthonormal.  So let them be ones where members number 0, .., n-1 of the basis are the
first n coordinate vectors: a vector is a function coordinate -> Real and member k of the basis is the unit vector of k.

angles          ensures  entry k is the k-th coordinate, vector unchanged
orthogonalize   ensures  coordinates of the members become zero, others are unchanged; any number of members
add_vector      requires the basis is orthonormal; ensures it is and one longer (induction over histories): the new member is
                orthogonal to the others, of unit norm, and a combination of the given vector and the others (same span);
                constants, numbers and lists stand for functions of their space; the given vector is unchanged; refuses
                only what is parallel to a member to 1E-10
Projector       matvec(x) is x minus sum_k <d_k, x> z_k for a basis z of any size with its dual d; from <d_j, z_k> = delta_jk
                follows that it is a projection with the right kernel and range;  collapse is the matrix of matvec
L20_inner_product, L20_riesz_map   ensures  M*P and P*inv(M); collapse is the matrix of matvec
orthonormalize  ensures  row i is sum_k vecs[k, i] basis[k] / sqrt(vals[i]) for eigh of the matrix of inner products
"""
import types
import z3
from vc.contract import contract
from vc.engine import eng, Int, Real, Bool, SymSeq, VList, zz, wrap, seq, SNum, SBool, Unsupported, as_bool, const_seq, subst, vc_eq, SArr2, PathEnd
from vc import linmodel as lm, runtime as R
from vc.linmodel import Poly
from vc.models import AVal, fun, indexed, some, forall

BN, SM = 'xii.linalg.block_nullspace', 'xii.linalg.sherman_morrison'
ASSUME = ['vectors: inner, norm, axpy and scaling of dolfin are those of a Euclidean space (exact arithmetic)', 'interpolate(Constant) is the constant',
          'eigh: orthonormal eigenvectors in columns, eigenvalues', 'the mass matrix is symmetric positive definite']


class Constant(object):
    def __init__(self, v): self.v = v


class Multiple(object):
    """alpha * member j"""
    def __init__(self, a, j): self.a, self.j = a, j


class Member(object):
    def __init__(self, j): self.j = j
    def __rmul__(self, a): return Multiple(a, self.j)
    __mul__ = __rmul__
    def __vc_subst__(self, pairs): return Member(subst(self.j, pairs))
    def __vc_ite__(self, g, o): return Member(SNum(z3.If(g, zz(self.j), zz(o.j))))
    def norm(self, *a): return 1
    def inner(self, o):
        if isinstance(o, Member): return SNum(z3.If(zz(self.j) == zz(o.j), z3.RealVal(1), z3.RealVal(0)))
        return o.inner(self)


class Part(object):
    """Vector of one block"""
    def __init__(self, what): self.what, self.copied = what, False
    def copy(self):
        r = Part(self.what)
        r.copied = True
        return r


class Vec(object):
    """block_vec: parts as given; numbers enter with the first operation on them"""
    def __init__(self, m, blocks=None):
        if isinstance(m, Vec): m = m.parts
        self.parts = VList([x for x in m])
        self.c, self.norms, self.scaled, self.loop_norms = None, [], None, []
        e = eng()
        f = self.first = fun(e.fresh_name('x'), 'Int', 'Real')
        self.dim = Int('dim', 0)
        self.c0 = lm.MArr(SymSeq(self.dim, lambda k: SNum(f(zz(k)))))
        if N is not None: e.assume(zz(N) <= zz(self.dim))

    def __vc_seq__(self): return seq(self.parts)
    def __vc_len__(self): return R.v_len(self.parts)
    def __iter__(self): return iter(self.parts)
    def __getitem__(self, k): return self.parts[k]
    def __setitem__(self, k, v):
        if self.c is not None: raise Unsupported('parts change later')
        self.parts[k] = v
    def copy(self): raise Unsupported('copy of a block vector')

    def coords(self):
        if self.c is None:
            eng().prove(z3.BoolVal(all(isinstance(p, Part) for p in self.parts)), 'requires of arithmetic: vectors')
            self.c = self.c0
        return self.c

    def inner(self, o):
        c = self.coords()
        if isinstance(o, Member): return c[o.j]
        if o is self:
            n = self.norm()
            return n * n
        raise Unsupported('inner')

    def norm(self, *kind):
        """Square root of the inner product with itself"""
        self.coords()
        if kind and kind[0] != 'l2': raise Unsupported('norm')
        e = eng()
        n = Real('norm')
        e.assume(n.e > 0)               # requires: independent of the members, so no step leaves nothing
        if e.frames: self.loop_norms.append((e.frames[-1].idx[0], n.e))
        else: self.norms.append((seq(self.c), n))
        return n

    def __isub__(self, o):
        c = self.coords()
        if not isinstance(o, Multiple): raise Unsupported('vector - %s' % type(o).__name__)
        c[o.j] = c[o.j] - o.a
        return self

    def __sub__(self, o): raise Unsupported('new vector')

    def axpy(self, a, x):
        self.__isub__(Multiple(-a, x.j))

    def __imul__(self, a):
        self.coords()
        if self.scaled is not None or eng().frames: raise Unsupported('scaled twice')
        self.before = seq(self.c)
        self.scaled = a
        return self
    __vc_attr_ok__ = True


N = None


class Space(AVal): sort = 'Space'


def world(e, n):
    global N
    N = n
    interp = lambda v, V: types.SimpleNamespace(vector=lambda: (lambda p: (setattr(p, 'copied', True), p)[1])(Part(('interpolated', v.v, V))))
    w = lm.world(dolfin=dict(Constant=Constant, interpolate=interp), stubs={'block': R.stub('block', block_vec=Vec)})
    w.eager = {(BN, '__iter__')}
    m = w.load(BN)
    cls = m.BlockNullspace
    cls.__vc_seq__ = lambda self: seq(type(self).__iter__(self))
    return m


def basis(e, m, W=None):
    Z = m.BlockNullspace(W)
    e.prove(z3.And(zz(R.v_len(Z.vectors)) == 0), 'ensures a new one is empty')
    n = N
    Z.vectors = VList(SymSeq(n, lambda k: Member(k)))
    return Z


@contract('C17', BN + ':BlockNullspace.angles', assumes=ASSUME)
def angles(e):
    n = Int('n', 0)
    m = world(e, n)
    Z = basis(e, m)
    v = Vec([Part('x')])
    r = seq(Z.angles(v))
    e.prove(zz(r.n) == n.e, 'ensures one for each member')
    k = some(n)
    e.prove(zz(r.get(k)) == v.first(k.e), 'ensures the inner product with member k')
    k = Int('k', 0)
    e.assume(k.e < zz(v.dim))
    e.prove(zz(seq(v.c0).get(k)) == v.first(k.e), 'ensures the vector is unchanged')
    e.prove(z3.BoolVal(v.scaled is None), 'ensures the vector is unchanged')


@contract('C17', BN + ':BlockNullspace.orthogonalize', BN + ':BlockNullspace.angles', assumes=ASSUME)
def orthogonalize(e):
    n = Int('n', 0)
    m = world(e, n)
    Z = basis(e, m)
    v = Vec([Part('x')])
    v.coords()
    r = Z.orthogonalize(v)
    e.prove(z3.BoolVal(isinstance(r, Vec)), 'ensures a vector')
    e.prove(z3.BoolVal(r.scaled is None), 'ensures not scaled')
    k = Int('k', 0)
    e.assume(k.e < zz(v.dim))
    e.prove(zz(seq(r.c).get(k)) == z3.If(k.e < n.e, 0, v.first(k.e)), 'ensures members are removed and the rest is unchanged')
    e.prove(zz(R.v_len(Z.vectors)) == n.e, 'ensures members stay')


@contract('C17', BN + ':BlockNullspace.add_vector', BN + ':BlockNullspace.angles', BN + ':BlockNullspace.__iter__', assumes=ASSUME)
def add_vector(e):
    n = Int('n', 0)
    m = world(e, n)
    Z = basis(e, m)
    x = Part('x')
    given = Vec([x])
    try: Z.add_vector(given)
    except AssertionError:
        # some norm and coordinate are close
        return
    e.prove(z3.BoolVal(given.c is None and given.scaled is None and given.parts[0] is x), 'ensures the given vector is unchanged')
    e.prove(zz(R.v_len(Z.vectors)) == n.e + 1, 'ensures one more member')
    k = some(n)
    old = seq(Z.vectors).get(k)
    new = Z.vectors[n]
    e.prove(z3.BoolVal(isinstance(new, Vec)), 'ensures the new one is the last')
    if isinstance(old, Vec): return e.fail('ensures older members stay')
    e.prove(zz(old.j) == k.e, 'ensures older members stay')


@contract('C17', BN + ':BlockNullspace.add_vector', BN + ':BlockNullspace.angles', BN + ':BlockNullspace.__iter__', assumes=ASSUME)
def new_member(e):
    n = Int('n', 0)
    m = world(e, n)
    Z = basis(e, m)
    got = []

    class Vectors(object):
        """List of members: what is appended is of interest"""
        def append(self, v): got.append(v)
        def __vc_seq__(self): return SymSeq(n, lambda k: Member(k))
        def __vc_len__(self): return n
    Z.vectors = Vectors()
    x = Part('x')
    given = Vec([x])
    try: Z.add_vector(given)
    except AssertionError: return
    e.prove(z3.BoolVal(len(got) == 1 and isinstance(got[0], Vec)), 'ensures one more member')
    v = got[0]
    e.prove(z3.BoolVal(v is not given and given.c is None and given.scaled is None and given.parts[0] is x and v.parts[0] is not x and v.parts[0].copied),
            'ensures the given vector is unchanged')
    if v.scaled is None: return e.fail('ensures unit norm')
    # its norm is that of what is scaled
    ok = [nrm for s, nrm in v.norms if s is v.before or s.n is v.before.n and same_coords(e, s, v.before)]
    e.prove(z3.BoolVal(bool(ok)), 'ensures scaled by its norm')
    if not ok: return
    e.prove(zz(v.scaled) * ok[-1].e == 1, 'ensures unit norm')
    k = Int('k', 0)
    e.assume(k.e < zz(v.dim))
    b = zz(v.before.get(k))
    e.prove(z3.Implies(k.e < n.e, b == 0), 'ensures orthogonal to the members')
    e.prove(z3.Implies(k.e >= n.e, b == v.first(k.e)), 'ensures the same span')


def same_coords(e, s, t):
    k = Int('k', 0)
    return e._check(k.e < zz(s.n), zz(s.get(k)) != zz(t.get(k))) == z3.unsat


@contract('C17', BN + ':BlockNullspace.add_vector', assumes=ASSUME)
def refusal(e):
    """A vector whose part in the span of the members is not one of them to 1E-10 is added"""
    n = Int('n', 0)
    m = world(e, n)
    Z = basis(e, m)

    class Vectors(object):
        def append(self, v): pass
        def __vc_seq__(self): return SymSeq(n, lambda k: Member(k))
        def __vc_len__(self): return n
    Z.vectors = Vectors()
    made = []
    m.block_vec = lambda x: (made.append(Vec(x)), made[-1])[1]
    try: Z.add_vector(Vec([Part('x')]))
    except AssertionError:
        v = made[-1]
        cases = [z3.And(v.first(j) * v.first(j) <= (1 + tol)**2 * n * n, v.first(j) * v.first(j) >= (1 - tol)**2 * n * n) for j, n in v.loop_norms
                 for tol in (z3.Q(11, 10**11), )]
        e.prove(z3.Or(cases + [z3.BoolVal(False)]), 'ensures the refused vector is one of the members to 1E-10')


@contract('C17', BN + ':BlockNullspace.add_vector', assumes=ASSUME)
def constants(e):
    """What stands for constant functions; any number of blocks"""
    m = world(e, 0)
    nb = Int('blocks', 1)
    W = indexed(Space, 'W', nb)[0]
    Z = m.BlockNullspace(VList(W))
    kinds = [e.choose(5) for _ in range(2)]
    items = [[Constant(('value', k)), (1, 1.5)[k], [1., 2.], (3., 4.), Part(('x', k))][kind] for k, kind in enumerate(kinds)]
    e.assume(nb.e == 2)
    given = Vec(items)
    Z.vectors = VList([])
    Z.add_vector(given)
    e.prove(z3.BoolVal(len(Z.vectors) == 1), 'ensures added')
    v = Z.vectors[0]
    e.prove(z3.BoolVal(all(a is b for a, b in zip(given.parts, items)) and given.c is None and v is not given), 'ensures the given vector is unchanged')
    for k, (kind, x) in enumerate(zip(kinds, items)):
        p = v.parts[k]
        e.prove(z3.BoolVal(isinstance(p, Part) and p is not x and p.copied), 'ensures a new vector')
        if kind == 4: e.prove(z3.BoolVal(p.what == x.what), 'ensures vectors are themselves')
        else:
            want = x.v if kind == 0 else x
            e.prove(z3.BoolVal(isinstance(p.what, tuple) and p.what[0] == 'interpolated' and p.what[1] == want and type(p.what[1]) is type(want)), 'ensures the constant')
            e.prove(p.what[2].t == W.get(k).t, 'ensures of its space')


# ------------------------------------------------------------- projectors
class Prim(object):
    """Combination of the basis and x: x * xc + sum_k c(k) * z(k)"""
    def __init__(self, n, c, xc=0):
        self.n, self.xc = n, xc
        self.c = lm.MArr(SymSeq(n, c))
        self.c0 = seq(self.c)

    def coef(self): return seq(self.c).get

    @property
    def changed(self): return seq(self.c) is not self.c0

    def axpy(self, a, o):
        if isinstance(o, Z): self.c[o.k] = self.c[o.k] + a
        else: raise Unsupported('axpy')

    def __iadd__(self, o):
        if isinstance(o, Scaled) and not o.changed: self.c[o.k] = self.c[o.k] + o.a
        else: raise Unsupported('+=')
        return self

    def __isub__(self, o): return self.__iadd__(-o)
    def __add__(self, o):
        if isinstance(o, int) and o == 0: return self
        a, b = self.coef(), o.coef()
        return Prim(self.n, lambda k: a(k) + b(k), self.xc + o.xc)
    __radd__ = __add__
    def __neg__(self):
        a = self.coef()
        return Prim(self.n, lambda k: -a(k), -self.xc)
    def __sub__(self, o): return self + (-o)
    def copy(self): return Prim(self.n, self.coef(), self.xc)

    def __rmul__(self, a):
        c = self.coef()
        return Prim(self.n, lambda k: a * c(k), a * self.xc)
    __mul__ = __rmul__


class Scaled(Prim):
    """a * z(k)"""
    def __init__(self, n, a, k):
        self.a, self.k = a, k
        Prim.__init__(self, n, lambda j: SNum(z3.If(zz(j) == zz(k), lm.real(a), z3.RealVal(0))))

    def __neg__(self):
        if self.changed: return Prim.__neg__(self)
        return Scaled(self.n, -self.a, self.k)

    def __rmul__(self, b):
        if self.changed: return Prim.__rmul__(self, b)
        return Scaled(self.n, b * self.a, self.k)
    __mul__ = __rmul__

    def __vc_sum__(self, s):
        n = self.n
        u = Int('u', 0)
        e = eng()
        t = s.get(u)
        if not isinstance(t, Scaled) or e._check(u.e < zz(s.n), zz(t.k) != u.e) != z3.unsat: raise Unsupported('sum of unknown combinations')
        if e._check(zz(s.n) != zz(n)) != z3.unsat: raise Unsupported('sum of some of the members')
        return Prim(n, lambda k: s.get(k).a)


class Z(object):
    """Member k of the basis of the nullspace"""
    def __init__(self, n, k): self.n, self.k = n, k
    def __vc_subst__(self, pairs): return Z(self.n, subst(self.k, pairs))
    def __rmul__(self, a): return Scaled(self.n, a, self.k)
    __mul__ = __rmul__
    def copy(self): return Scaled(self.n, 1, self.k)

    def inner(self, o):
        if isinstance(o, MX): return SNum(fun('dual', 'Int', 'Real')(zz(self.k)))          # M is symmetric
        if isinstance(o, D): return gram(self.k, o.k)
        raise Unsupported('inner')


class D(object):
    """M * z(k)"""
    def __init__(self, n, k): self.n, self.k = n, k
    def __vc_subst__(self, pairs): return D(self.n, subst(self.k, pairs))

    def inner(self, o):
        if isinstance(o, X): return SNum(fun('dual', 'Int', 'Real')(zz(self.k)))
        if isinstance(o, Z): return gram(o.k, self.k)
        raise Unsupported('inner')


def gram(i, j):
    f = fun('gram', 'Int', 'Int', 'Real')
    i, j = zz(i), zz(j)
    return SNum(f(z3.If(i <= j, i, j), z3.If(i <= j, j, i)))


class X(Prim):
    """The argument"""
    poly = Poly.atom('x')
    esize = z3.IntVal(1)

    def inner(self, o):
        if isinstance(o, D): return o.inner(self)
        raise Unsupported('inner')


class Values(VList):
    def __gt__(self, o): return VList([x > o for x in self])
    def __lt__(self, o): return VList([x < o for x in self])
    def __ge__(self, o): return VList([x >= o for x in self])


class MX(object):
    """M * x"""


class Mass(lm.GenericMatrix):
    def __mul__(self, o):
        if isinstance(o, Z): return D(o.n, o.k)
        if isinstance(o, X): return MX()
        return lm.GenericMatrix.__mul__(self, o)
    __hash__ = object.__hash__


def sm_world(e, n, dim=None):
    V = Space('V')
    dim = Int('dim', 1)

    class Fn(object):
        def __init__(self, f, V): self.f, self.V = f, V
        def vector(self): return self.f

    class Product(object):
        def __init__(self, u, v): self.u, self.v = u, v
        def __mul__(self, dx): return ('form', self.u, self.v, dx)

    def assemble(form):
        ok = form[0] == 'form' and {form[1][0], form[2][0]} == {'u', 'v'} and form[1][1] is V and form[2][1] is V and form[3] == 'dx'
        e.prove(z3.BoolVal(ok), 'requires the matrix of inner products')
        return Mass(lm.PMat(Poly.atom('M'), (dim, dim)))

    def sqrt(x):
        r = Real('sqrt')
        e.assume(z3.And(r.e >= 0, r.e * r.e == zz(x)))
        return r
    mats = {}

    def row_matrix(rows):
        s = seq(rows)
        k = Int('k', 0)
        one = s.get(k)
        e.prove(z3.Implies(z3.And(k.e < zz(n), zz(s.n) == zz(n)), zz(one.k) == k.e), 'requires rows in order')
        e.prove(zz(s.n) == zz(n), 'requires all rows')
        return lm.PETScMatrix(lm.PMat(Poly.atom(type(one).__name__), (n, dim)))
    mu = R.stub('xii.linalg.matrix_utils', row_matrix=row_matrix, diagonal_matrix=lambda n, v: lm.PETScMatrix(lm.PMat(Poly.num(v), (n, n))))
    ii = R.stub('xii', ii_convert=lambda x: lm.PETScMatrix(lm.PMat(lm.poly_of(x), (dim, dim))))

    def eigh(G):
        i, j = (some(n), some(n)) if isinstance(n, SNum) else (e.choose(n), e.choose(n))
        e.prove(zz(G.nr) == zz(n), 'requires a matrix of all inner products')
        e.prove(zz(G.nc) == zz(n), 'requires a matrix of all inner products')
        e.prove(zz(G[i, j]) == zz(gram(i, j)), 'requires the matrix of inner products')
        lam, U = fun('vals', 'Int', 'Real'), fun('vecs', 'Int', 'Int', 'Real')
        return Values([SNum(lam(k)) for k in range(n)]), SArr2(n, n, lambda i, j: SNum(U(zz(i), zz(j))))
    w = lm.world(dolfin=dict(interpolate=lambda f, V: Fn(f, V), TrialFunction=lambda V: ('u', V), TestFunction=lambda V: ('v', V), inner=Product, dx='dx', assemble=assemble,
                             sqrt=sqrt, Constant=Constant),
                 stubs={'xii.linalg.matrix_utils': mu, 'xii': ii, 'block.algebraic.petsc': R.stub('p', LU=None)})
    m = w.load(SM)
    np = m.np
    np.all = lambda x: R.v_all(x)
    np.linalg = types.SimpleNamespace(eigh=eigh)
    return m, V


def projector(e, n, what='Projector', **kw):
    m, V = sm_world(e, n)

    def orthonormalize(basis, M, *tol):
        k = some(n)
        e.prove(zz(seq(basis).n) == zz(n), 'requires all functions')
        e.prove(zz(seq(basis).get(k).j) == k.e, 'requires the functions given')
        e.prove(z3.BoolVal(isinstance(M, Mass)), 'requires the mass matrix')
        return VList(SymSeq(n, lambda k: Z(n, k)))
    m.orthonormalize = orthonormalize
    given = VList(SymSeq(n, lambda k: Member(k)))
    return m, getattr(m, what)(V, given, **kw)


@contract('C17', SM + ':Projector.matvec', SM + ':Projector.__init__', assumes=ASSUME)
def projection(e):
    n = Int('n', 1)
    m, P = projector(e, n)
    x = X(n, lambda k: SNum(z3.RealVal(0)), 1)
    y = P.matvec(x)
    k = some(n)
    e.prove(z3.BoolVal(isinstance(y, Prim) and y is not x), 'ensures a new vector')
    e.prove(lm.real(y.xc) == 1, 'ensures x, from which')
    e.prove(lm.real(y.coef()(k)) == -fun('dual', 'Int', 'Real')(k.e), 'ensures the component of each member is removed, once')
    e.prove(z3.And(lm.real(x.xc) == 1, lm.real(x.coef()(k)) == 0), 'ensures x is unchanged')


@contract('C17', SM + ':Projector.collapse', assumes=ASSUME)
def projection_matrix(e):
    n = Int('n', 1)
    m, P = projector(e, n)
    A = P.collapse()
    want = Poly.num(1) - Poly.atom('Z').T * Poly.atom('D')
    e.prove(A.poly.eq(want), 'ensures the matrix of I - sum_k z_k d_k\'')


@contract('C17', SM + ':L20_inner_product.matvec', SM + ':L20_inner_product.collapse', SM + ':L20_inner_product.__init__', assumes=ASSUME)
def inner_product(e):
    n = Int('n', 1)
    m, A = projector(e, n, 'L20_inner_product')
    m.Projector.poly = Poly.atom('P')
    m.Projector.collapse = lambda self: lm.PETScMatrix(lm.PMat(Poly.atom('P'), (1, 1)))
    x = X(n, lambda k: SNum(z3.RealVal(0)), 1)
    want = Poly.atom('M') * Poly.atom('P')
    e.prove(lm.poly_of(A.matvec(x)).eq(want * Poly.atom('x')), 'ensures inner products of the projection')
    e.prove(lm.poly_of(A.collapse()).eq(want), 'ensures the matrix')


@contract('C17', SM + ':L20_riesz_map.matvec', SM + ':L20_riesz_map.__init__', assumes=ASSUME)
def riesz_map(e):
    n = Int('n', 1)

    def inv(M):
        e.prove(z3.BoolVal(isinstance(M, Mass)), 'requires the mass matrix')
        r = lm.AbsExpr('iM')
        return r
    if e.choose(2): m, A = projector(e, n, 'L20_riesz_map', inv=inv)
    else:
        m, V = sm_world(e, n)
        m.L20_riesz_map.__init__.__defaults__
        m, A = projector(e, n, 'L20_riesz_map', inv=inv)
    m.Projector.poly = Poly.atom('P')
    x = X(n, lambda k: SNum(z3.RealVal(0)), 1)
    e.prove(lm.poly_of(A.matvec(x)).eq(Poly.atom('P') * Poly.atom('iM') * Poly.atom('x')), 'ensures the projection of the representation of x')


@contract('C17', SM + ':orthonormalize', assumes=ASSUME, bounded='1 to 4 vectors')
def orthonormal(e):
    n = 1 + e.choose(4)
    m, V = sm_world(e, n)
    M = Mass(lm.PMat(Poly.atom('M'), (1, 1)))
    k = z3.Int('k')
    lam, U = fun('vals', 'Int', 'Real'), fun('vecs', 'Int', 'Int', 'Real')
    e.assume(z3.ForAll([k], lam(k) > 0))
    r = seq(m.orthonormalize(VList([Z(n, k) for k in range(n)]), M))
    e.prove(zz(r.n) == n, 'ensures as many')
    i, k = e.choose(n), e.choose(n)
    c = lm.real(r.get(i).coef()(k))
    e.prove(c * c * lam(i) == U(k, i) * U(k, i), 'ensures combinations by eigenvectors, scaled by roots of eigenvalues')
    e.prove(z3.Implies(U(k, i) >= 0, c >= 0), 'ensures combinations by eigenvectors')
    e.prove(z3.Implies(U(k, i) <= 0, c <= 0), 'ensures combinations by eigenvectors')
