"""C11: averaging shapes integrate over the curve or surface they name.

With v the vector from the center to a point of the rule, |n| > 0 and any center x0 (radius, corner: a number or a function of x0):

Circle.quadrature      ensures  v_k.n = 0, v_k.v_l = R(x0)^2 cos(pi(t_k - t_l)) for the nodes t of the Gauss rule (that is, |v_k| = R and the
                                angles are those of the rule, whatever the frame of the plane), weight w_k pi R(x0)
Circle.quadrature_normal  ensures  the rule above; unit vectors along v_k
Disk.quadrature        ensures  v_k.n = 0, v_k.v_l = R(x0)^2 x_k.x_l for the points x of the rule of the unit disk, weight w_k R(x0)^2
Square.quadrature      ensures  v.n = 0; with half side h, h^2 = |P(x0)-x0|^2/2: v_ij.v_kl = h^2(t_i t_k + t_j t_l), weight w_i w_j h^2;
                                sides along P(x0)-x0 turned by 45 degrees
SquareRim.quadrature   ensures  v.n = 0; one point for each node and side: on that side, at t_k along it, weight w_k h
Quadrature of both squares: requires (P(x0)-x0).n = 0

Equations of these polynomial kind are decided in the ideal of the equations of the path (vc/space.py)."""
import types
import z3
from vc.contract import contract
from vc.engine import eng, SNum, SBool, SymSeq, VList, Unsupported, zz, wrap, seq, Int, const_seq
from vc import runtime as R
from vc import space as sp
from vc.space import Arr, Rows, vector, real, num, identity, COS, SIN, PI

MOD = 'xii.assembler.average_shape'
ASSUME = ['exact arithmetic; a vector whose length is compared with a tolerance of rounding is zero or longer than it',
          'numpy: leggauss(n) is the Gauss rule on [-1, 1]', 'sympy: Groebner bases of rational polynomials']
XQ, WQ = z3.Function('gauss_x', z3.IntSort(), z3.RealSort()), z3.Function('gauss_w', z3.IntSort(), z3.RealSort())
DX, DY, DW = (z3.Function(n, z3.IntSort(), z3.RealSort()) for n in ('disk_x', 'disk_y', 'disk_w'))


def setting(e):
    """Module with numpy and rules as assumed; center and direction"""
    n = Int('npoints', 1)
    e.assume(PI > 3)
    e.assume(PI < 4)
    sp.circle_law(e)
    e.linear_first = sp.linear_first
    e.schema(XQ, lambda k: e.axiom(z3.And(XQ(k) >= -1, XQ(k) <= 1)))
    e.schema(WQ, lambda k: e.axiom(WQ(k) > 0))
    degree = Int('degree', 1)

    def leggauss(d):
        e.prove(zz(d) == degree.e, 'the rule of the given degree')
        return (Rows(SymSeq(n, lambda k: SNum(XQ(zz(k))), 'array')), Rows(SymSeq(n, lambda k: SNum(WQ(zz(k))), 'array')))

    def disk(d):
        e.prove(zz(d) == degree.e, 'the rule of the given degree')
        return (Rows(SymSeq(n, lambda k: Arr((2, ), [SNum(DX(zz(k))), SNum(DY(zz(k)))]), 'array')), Rows(SymSeq(n, lambda k: SNum(DW(zz(k))), 'array')))
    np = sp.numpy()
    leg = R.stub('numpy.polynomial.legendre', leggauss=leggauss)
    np.polynomial = types.SimpleNamespace(legendre=leg)
    dq = R.stub('xii.assembler.disk_quadrature', disk_quadrature=disk)
    import math
    m = R.stub('math', **{k: v for k, v in vars(math).items() if not k.startswith('__')})
    m.pi, m.sqrt, m.cos, m.sin = np.pi, np.sqrt, np.cos, np.sin
    none = lambda *a, **k: (_ for _ in ()).throw(Unsupported('not part of the rule'))
    abc = R.stub('abc', ABCMeta=type, abstractmethod=lambda f: f, ABC=object)
    w = R.World({'numpy': np, 'numpy.polynomial': np.polynomial, 'numpy.polynomial.legendre': leg, 'math': m, 'abc': abc,
                 'xii.assembler.disk_quadrature': dq, 'dolfin': R.stub('dolfin'),
                 'xii.linalg.matrix_utils': R.stub('matrix_utils', is_number=lambda x: isinstance(x, (int, float, SNum))),
                 'xii.assembler.average_form': R.stub('average_form', average_space=none),
                 'xii.meshing.make_mesh_cpp': R.stub('make_mesh_cpp', make_mesh=none)})
    M = w.load(MOD)
    x0, d = vector('x0_'), vector('n')
    ok(e, d)
    e.assume(sum((real(q) * real(q) for q in d.x), z3.RealVal(0)) > 0)
    return M, n, degree, x0, d


def ok(e, v):
    """Lengths are zero or not tiny"""
    sp.Norm.__init__ = _init


def _init(self, t, of):
    SNum.__init__(self, t)
    self.of = of
    eng().assume(z3.Or(t == 0, t >= z3.Q(1, 10**12)))


def radius(e, kind, x0):
    """A number, or a function of the center; its value"""
    r = SNum(z3.Real('radius'))
    e.assume(r.e > 0)
    if kind == 0: return r, r

    def f(x):
        e.prove(same(x, x0), 'radius in the center')
        return r
    return f, r


def same(a, b):
    return z3.And([real(p) == real(q) for p, q in zip(a.x, b.x)])


def rule(e, q, size, what):
    """Points and weights at any place"""
    P, W = q.points, q.weights
    P, W = seq(P), seq(W)
    e.expect(P is not None and W is not None, 'points and weights are lists')
    e.prove(zz(P.n) == zz(size), what + ': number of points')
    e.prove(zz(W.n) == zz(P.n), what + ': one weight for each point')
    return P, W


def point(p):
    eng().expect(isinstance(p, Arr) and p.shape == (3, ), 'points are vectors')
    return p


def index(e, name, n):
    k = Int(name, 0)
    e.assume(k.e < zz(n))
    return k


@contract('C11', MOD + ':Circle.__init__', MOD + ':Circle.map_from_reference', MOD + ':Circle.quadrature', assumes=ASSUME, min_obligations=12)
def circle(e):
    M, n, degree, x0, d = setting(e)
    f, r = radius(e, e.choose(2), x0)
    q = M.Circle(f, degree).quadrature(x0, d)
    P, W = rule(e, q, n, 'circle')
    k, l = index(e, 'k', n), index(e, 'l', n)
    v, w = point(P.get(k)) - x0, point(P.get(l)) - x0
    identity(e, v.dot(d), 0, 'points are in the plane')
    c = lambda k: [real(COS(XQ(k.e))), real(SIN(XQ(k.e)))]
    identity(e, v.dot(w), SNum(r.e * r.e * sum(a * b for a, b in zip(c(k), c(l)))), 'points are on the circle, at angles of the rule')
    identity(e, v.dot(v), SNum(r.e * r.e), 'distance to the center')
    identity(e, W.get(k), SNum(WQ(k.e) * r.e * PI), 'weights')


@contract('C11', MOD + ':Disk.__init__', MOD + ':Disk.map_from_reference', MOD + ':Disk.quadrature', assumes=ASSUME[:1] + ASSUME[2:], min_obligations=10)
def disk(e):
    M, n, degree, x0, d = setting(e)
    f, r = radius(e, e.choose(2), x0)
    q = M.Disk(f, degree).quadrature(x0, d)
    P, W = rule(e, q, n, 'disk')
    k, l = index(e, 'k', n), index(e, 'l', n)
    v, w = point(P.get(k)) - x0, point(P.get(l)) - x0
    identity(e, v.dot(d), 0, 'points are in the plane')
    identity(e, v.dot(w), SNum(r.e * r.e * (DX(k.e) * DX(l.e) + DY(k.e) * DY(l.e))), 'points are those of the unit disk')
    identity(e, W.get(k), SNum(DW(k.e) * r.e * r.e), 'weights')


def corner(e, kind, x0, d):
    """First corner: numbers, or a function of the center"""
    p = vector('p')
    e.assume(real((p - x0).dot(d)) == 0)
    e.assume(real((p - x0).dot(p - x0)) > 0)
    if kind == 0: return (lambda: p), p
    if kind == 1: return (lambda: list(p.x)), p

    def f(x):
        e.prove(same(x, x0), 'corner for the center')
        return p
    return (lambda: f), p


def turned(v, d):
    """v turned by 90 degrees in the plane, times |d|"""
    return sp.cross(d, v)


@contract('C11', MOD + ':Square.__init__', MOD + ':Square.map_from_reference', MOD + ':Square.quadrature', assumes=ASSUME, min_obligations=10)
def square(e):
    M, n, degree, x0, d = setting(e)
    f, p = corner(e, e.choose(3), x0, d)
    q = M.Square(f(), degree).quadrature(x0, d)
    P, W = rule(e, q, n * n, 'square')
    e.expect(len(P.dims) == 2 and len(W.dims) == 2, 'rule is a product')
    at = lambda S, i, j: S.getnd((i, j))
    i, j, k, l = [index(e, m, n) for m in 'ijkl']
    v, w = point(at(P, i, j)) - x0, point(at(P, k, l)) - x0
    x = lambda m: XQ(m.e)
    c = p - x0
    hh = real(c.dot(c)) / 2
    identity(e, v.dot(d), 0, 'points are in the plane')
    identity(e, v.dot(w), SNum(hh * (x(i) * x(k) + x(j) * x(l))), 'points are those of the square, in its own frame')
    # along the diagonal: the square with this corner, up to its symmetries
    a = real(v.dot(c))
    both = z3.Or(*[a == s * hh * (x(i) + t * x(j)) for s in (-1, 1) for t in (-1, 1)])
    for s, t in ((-1, 1), (1, 1), (1, -1), (-1, -1)):
        if sp.in_ideal(e, a - s * hh * (x(i) + t * x(j))):
            identity(e, SNum(a), SNum(s * hh * (x(i) + t * x(j))), 'the corner is a corner')
            break
    else: e.prove(both, 'the corner is a corner')
    identity(e, at(W, i, j), SNum(WQ(i.e) * WQ(j.e) * hh), 'weights')


@contract('C11', MOD + ':SquareRim.__init__', MOD + ':SquareRim.map_from_reference', MOD + ':SquareRim.quadrature', assumes=ASSUME, min_obligations=10)
def rim(e):
    M, n, degree, x0, d = setting(e)
    f, p = corner(e, e.choose(3), x0, d)
    q = M.SquareRim(f(), degree).quadrature(x0, d)
    P, W = rule(e, q, n * 4, 'rim')
    c = p - x0
    hh = real(c.dot(c)) / 2
    k = index(e, 'k', n)
    e.expect(len(P.dims) == 2 and len(W.dims) == 2, 'points by nodes and sides')
    nodes_first = P.dims[1] == 4 if isinstance(P.dims[1], int) else False
    e.expect(nodes_first and isinstance(W.dims[1], int) and W.dims[1] == 4, 'points by nodes and sides')
    vs = [point(P.getnd((k, s))) - x0 for s in range(4)]
    # sides in a sequence: each point is turned by 90 degrees from the last one
    t = XQ(k.e)
    for s in range(4):
        v = vs[s]
        identity(e, v.dot(d), 0, 'points are in the plane')
        identity(e, v.dot(v), SNum(hh * (1 + t * t)), 'points are on the sides at the nodes')
        identity(e, v.dot(vs[(s + 1) % 4]), 0, 'one point for each side')
        identity(e, v.dot(vs[(s + 2) % 4]), SNum(-hh * (1 + t * t)), 'opposite sides')
        wt = real(W.getnd((k, s)))
        identity(e, SNum(wt * wt), SNum(WQ(k.e) * WQ(k.e) * hh), 'weights')
        e.prove(wt >= 0, 'weights are positive')
    a = [real(v.dot(c)) for v in vs]
    # the corner: ends of the sides are the corners (components along the diagonal)
    want = [hh * (1 - t), -hh * (1 + t), -hh * (1 - t), hh * (1 + t)]
    for turn in range(4):
        for sgn in (1, -1):
            if all(sp.in_ideal(e, a[s] - want[(sgn * s + turn) % 4]) for s in range(4)):
                for s in range(4): identity(e, SNum(a[s]), SNum(want[(sgn * s + turn) % 4]), 'sides join the corners')
                return
    e.prove(z3.And(*[a[s] == want[s] for s in range(4)]), 'sides join the corners')


@contract('C11', MOD + ':Circle.quadrature_normal', assumes=ASSUME[:1] + ['Circle.quadrature by its contract'], min_obligations=3)
def circle_normal(e):
    M, n, degree, x0, d = setting(e)
    f, r = radius(e, 0, x0)
    C = M.Circle(f, degree)
    X = [z3.Function('point%d' % m, z3.IntSort(), z3.RealSort()) for m in range(3)]
    at = lambda k: Arr((3, ), [SNum(F(zz(k))) for F in X])
    away = lambda k: sum((F(k) - real(x)) * (F(k) - real(x)) for F, x in zip(X, x0.x))
    e.schema(X[0], lambda k: e.axiom(away(k) == r.e * r.e))
    given = types.SimpleNamespace(points=VList(SymSeq(n, at, 'list')), weights=Rows(SymSeq(n, lambda k: SNum(WQ(zz(k))), 'array')))

    def quadrature(y, m):
        e.prove(same(y, x0), 'rule in the center')
        e.prove(same(m, d), 'rule in the plane')
        return given
    C.quadrature = quadrature
    q, N = C.quadrature_normal(x0, d)
    e.prove(z3.BoolVal(q is given), 'the rule of the circle')
    k = index(e, 'k', n)
    N = seq(N)
    e.prove(zz(N.n) == zz(n), 'one normal for each point')
    v, u = at(k) - x0, point(N.get(k))
    identity(e, u.dot(u), 1, 'normal is unit')
    e.prove(real(u.dot(v)) > 0, 'normal points out')
    for m, y in enumerate(sp.cross(u, v).x): identity(e, y, 0, 'normal is along the radius')


@contract('C11', 'xii.assembler.disk_quadrature:disk_quadrature', assumes=['sums of products of the tabulated numbers are compared up to 1e-12 (1e-6 for the '
          'rules of degree 17 and 19, which are tabulated to 7 digits)'], min_obligations=400)
def disk_rule(e):
    """Every degree: 1 to 19 one by one, larger ones (which get the rule of 19) as one symbolic number"""
    from fractions import Fraction
    import math
    case = e.choose(20)
    if case < 19: degree, top = case + 1, case + 1
    else:
        degree, top = Int('degree', 20), 19
    w = R.World({'numpy': R.stub('numpy', array=lambda x: x)})
    X, W = w.load('xii.assembler.disk_quadrature').disk_quadrature(degree)
    X, W = [R.v_list(x) for x in (X, W)]
    e.expect(len(X) == len(W) and all(isinstance(v, (int, float)) for v in W), 'numbers')
    X = [tuple(map(Fraction, R.v_list(x))) for x in X]
    W = [Fraction(v) for v in W]
    tol = Fraction(1, 10 ** 12) if top < 16 else Fraction(1, 10 ** 6)
    two = lambda k: math.prod(range(k - 1, 0, -2))
    for n in range(top + 1):
        for p in range(n + 1):
            got = sum(v * x ** p * y ** (n - p) for v, (x, y) in zip(W, X))
            want = Fraction(math.pi) * 2 * two(p) * two(n - p) / math.prod(range(n + 2, 0, -2)) if p % 2 == 0 and n % 2 == 0 else 0
            e.prove(z3.BoolVal(abs(got - want) <= tol), 'degree %d: x^%d y^%d' % (top, p, n - p))
