"""Vectors and matrices of real numbers of fixed size, arrays of points of symbolic length, angles and square roots.

Arr     array of fixed shape of real terms: + - * / @ dot cross outer, indexing, transpose
Rows    symbolic number of rows, each an Arr (or a number): what numpy has as (n, 3) and (n, ) arrays
Norm    the length s of an Arr v: s >= 0, s*s = v.v; v/s is a fresh unit vector u, s*u = v, u.u = 1
roots   equal radicands (as polynomials, modulo the equations of the path) have equal roots
Angle   q*pi with cos and sin as functions of q, exact at multiples of 1/2, cos^2 + sin^2 = 1

Equations are proved in the ideal of the equations of the path (Groebner basis, sympy), by z3 or by cvc5; an equation outside of the
ideal is refuted only by a model of z3."""
from fractions import Fraction
import itertools, time, types
import z3
from vc.engine import eng, SNum, SBool, SymSeq, VList, Unsupported, zz, wrap, subst, const_seq, seq, as_bool, Obligation
from vc import runtime as R

RR, II = z3.RealSort(), z3.IntSort()
COS, SIN = z3.Function('cospi', RR, RR), z3.Function('sinpi', RR, RR)
PI = z3.Real('pi')


def real(v):
    """z3 term of sort Real"""
    if isinstance(v, SNum): t = v.e
    elif isinstance(v, bool): raise Unsupported('truth value as a number')
    elif isinstance(v, int): return z3.RealVal(v)
    elif isinstance(v, float): return z3.RealVal(Fraction(v).limit_denominator(10**15) if abs(v) > 1e-9 else Fraction(v))
    else: t = zz(v)
    return z3.ToReal(t) if t.sort() == II else t


def num(t):
    t = z3.simplify(t)
    if z3.is_rational_value(t):
        f = Fraction(t.numerator_as_long(), t.denominator_as_long())
        return int(f) if f.denominator == 1 else SNum(t)
    return SNum(t)


# ------------------------------------------------------------------ polynomials
class NotPoly(Exception): pass


def to_poly(t, names, memo):
    """sympy expression of a polynomial term"""
    import sympy
    k = t.get_id()
    if k in memo: return memo[k][1]
    if z3.is_rational_value(t): r = sympy.Rational(t.numerator_as_long(), t.denominator_as_long())
    elif z3.is_int_value(t): r = sympy.Integer(t.as_long())
    elif z3.is_add(t): r = sympy.Add(*[to_poly(c, names, memo) for c in t.children()])
    elif z3.is_mul(t): r = sympy.Mul(*[to_poly(c, names, memo) for c in t.children()])
    elif z3.is_sub(t):
        cs = [to_poly(c, names, memo) for c in t.children()]
        r = cs[0] - sympy.Add(*cs[1:])
    elif t.decl().kind() == z3.Z3_OP_UMINUS: r = -to_poly(t.arg(0), names, memo)
    elif t.decl().kind() == z3.Z3_OP_POWER and z3.is_rational_value(t.arg(1)) and t.arg(1).denominator_as_long() == 1 and t.arg(1).numerator_as_long() >= 0:
        r = to_poly(t.arg(0), names, memo) ** t.arg(1).numerator_as_long()
    elif z3.is_div(t) and z3.is_rational_value(z3.simplify(t.arg(1))):
        d = z3.simplify(t.arg(1))
        r = to_poly(t.arg(0), names, memo) / sympy.Rational(d.numerator_as_long(), d.denominator_as_long())
    elif z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        r = names.setdefault(t.sexpr(), sympy.Symbol('v%d' % len(names)))
    else: raise NotPoly
    memo[k] = (t, r)
    return r


def equations(e, names, memo):
    """Polynomials which vanish on this path"""
    out = []
    todo = list(e.pc) + list(e.axioms) + (e.inverses if getattr(e, 'inverses_of', None) is e.pc else [])
    while todo:
        c = todo.pop(0)
        if z3.is_and(c): todo.extend(c.children())
        elif z3.is_eq(c) and c.arg(0).sort() == RR:
            try: out.append(to_poly(c.arg(0), names, memo) - to_poly(c.arg(1), names, memo))
            except NotPoly: pass
    return out


def in_ideal(e, term):
    """Does the polynomial term vanish by the equations of the path?"""
    import sympy
    names, memo = {}, {}
    term = z3.simplify(term, som=False)
    try: goal = sympy.expand(to_poly(term, names, memo))
    except NotPoly: return False
    if goal == 0: return True
    eqs = [q for q in (sympy.expand(p) for p in equations(e, names, memo)) if q != 0]
    # those connected with the goal
    used, rel = set(goal.free_symbols), []
    for depth in range(4):
        for q in eqs:
            if q not in rel and q.free_symbols & used: rel.append(q)
        used |= set().union(*[q.free_symbols for q in rel]) if rel else set()
    # definitions var = polynomial first
    change = True
    while change:
        change = False
        for q in rel:
            for v in sorted(q.free_symbols, key=str):
                c = q.coeff(v, 1)
                if c.is_number and c != 0 and sympy.expand(q - c * v).has(v) is False:
                    val = sympy.expand(-(q - c * v) / c)
                    rel = [w for w in (sympy.expand(p.subs(v, val)) for p in rel if p is not q) if w != 0]
                    goal = sympy.expand(goal.subs(v, val))
                    change = True
                    break
            if change: break
    if goal == 0: return True
    live = set(goal.free_symbols)
    rel = [q for q in rel if q.free_symbols]
    while True:
        more = [q for q in rel if q.free_symbols & live]
        new = live | (set().union(*[q.free_symbols for q in more]) if more else set())
        if new == live: break
        live = new
    rel = [q for q in rel if q.free_symbols & live]
    if not rel: return False
    gens = sorted(live, key=str)
    rel = rel[:14]
    G = sympy.groebner(rel, *gens, order='grevlex')
    return sympy.reduced(goal, list(G.exprs), *gens, order='grevlex')[1] == 0


def is_linear(c, memo):
    k = c.get_id()
    if k in memo: return memo[k][1]
    if z3.is_quantifier(c): r = False
    elif z3.is_mul(c): r = sum(not z3.is_rational_value(q) and not z3.is_int_value(q) for q in c.children()) < 2
    elif z3.is_app(c) and c.decl().kind() in (z3.Z3_OP_POWER, z3.Z3_OP_DIV): r = False
    else: r = True
    r = r and all(is_linear(q, memo) for q in c.children())
    memo[k] = (c, r)
    return r


def maximal_products(c, out):
    """Arithmetic terms with products, as large as they get"""
    if z3.is_app(c) and c.sort() == RR and c.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS, z3.Z3_OP_POWER):
        if not is_linear(c, {}): out.setdefault(c.get_id(), c)
        return out
    for q in c.children(): maximal_products(q, out)
    return out


def linear_first(e, conds):
    """unsat if the linear facts of the path, together with polynomials which vanish on it, contradict the conditions; else None"""
    conds = [z3.simplify(c) for c in conds]
    memo = {}
    for c in list(conds):
        for t in maximal_products(c, {}).values():
            zero = False
            try: zero = in_ideal(e, t)
            except Exception: pass
            if zero: conds = [z3.simplify(z3.substitute(q, (t, z3.RealVal(0)))) for q in conds]
    s = z3.Solver()
    s.set('timeout', 2000)
    memo = {}
    e._instances(conds)
    for c in list(e.pc) + list(e.axioms) + conds:
        for q in (c.children() if z3.is_and(c) else [c]):
            if is_linear(q, memo): s.add(q)
    return z3.unsat if s.check() == z3.unsat else None


def identity(e, a, b, name):
    """Obligation a == b"""
    if e.frames and any(f.mode == 'probe' for f in e.frames): return True
    t0 = time.time()
    a, b = real(a), real(b)
    e._instances([a, b])
    try: ok = in_ideal(e, a - b)
    except Exception: ok = False
    if ok:
        e.obligations.append(Obligation(name, 'discharged', 'sympy-groebner', time.time() - t0, ''))
        return True
    return e.prove(a == b, name)


def root(e, t):
    """The square root of a term"""
    t = z3.simplify(t)
    if z3.is_rational_value(t):
        f = Fraction(t.numerator_as_long(), t.denominator_as_long())
        for p in (f.numerator, f.denominator):
            if p < 0 or int(p ** .5 + .5) ** 2 != p: break
        else: return num(z3.RealVal(Fraction(int(f.numerator ** .5 + .5), int(f.denominator ** .5 + .5))))
    roots = e.__dict__.setdefault('roots', [])
    if getattr(e, 'roots_of', None) is not e.pc: e.roots, e.roots_of = [], e.pc
    for p, s in e.roots:
        if p.eq(t): return SNum(s)
    e.prove(t >= 0, 'the square root is of a number which is not negative')
    s = z3.Real(e.fresh_name('root'))
    e.assume(z3.And(s >= 0, s * s == t))
    for p, s_ in e.roots:
        try: same = in_ideal(e, p - t)
        except Exception: same = False
        if same:
            e.assume(s == s_)
            break
    # the root of a square
    e.roots.append((t, s))
    return SNum(s)


# ----------------------------------------------------------------- fixed shapes
class Angle(SNum):
    """turn*pi"""
    def __init__(self, turn):
        self.turn = turn
        SNum.__init__(self, turn * PI)

    def _scaled(self, f): return Angle(z3.simplify(f(self.turn)))
    def __mul__(self, o):
        if isinstance(o, Angle): raise Unsupported('product of angles')
        if isinstance(o, (int, float, SNum)): return self._scaled(lambda t: t * real(o))
        return NotImplemented
    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, (int, float)): return self._scaled(lambda t: t / real(o))
        return SNum.__truediv__(self, o)
    def __neg__(self): return self._scaled(lambda t: -t)

    def __add__(self, o):
        if isinstance(o, Angle): return Angle(z3.simplify(self.turn + o.turn))
        return SNum.__add__(self, o)

    def __sub__(self, o):
        if isinstance(o, Angle): return Angle(z3.simplify(self.turn - o.turn))
        return SNum.__sub__(self, o)
    def __vc_subst__(self, pairs): return Angle(subst(SNum(self.turn), pairs).e if isinstance(subst(SNum(self.turn), pairs), SNum) else real(subst(SNum(self.turn), pairs)))


def trig(f, shift):
    def g(x):
        if isinstance(x, Rows): return x.each(g)
        if isinstance(x, Arr): return Arr(x.shape, [g(q) for q in x.x])
        if isinstance(x, (int, float)) and x == 0: return 1 if f is COS else 0
        if not isinstance(x, Angle): raise Unsupported('cosine or sine of what is no multiple of pi')
        t = z3.simplify(x.turn)
        if z3.is_rational_value(t):
            q = Fraction(t.numerator_as_long(), t.denominator_as_long()) * 2
            if q.denominator == 1: return [1, 0, -1, 0][(int(q) + shift) % 4]
        return SNum(f(t))
    return g


def circle_law(e):
    law = lambda t: e.axiom(COS(t) * COS(t) + SIN(t) * SIN(t) == 1)
    e.schema(COS, law)
    e.schema(SIN, law)


def _b(a, b, op):
    """Elementwise with shapes of numpy"""
    if not isinstance(b, Arr): return Arr(a.shape, [op(x, b) for x in a.x])
    if a.shape == b.shape: return Arr(a.shape, [op(x, y) for x, y in zip(a.x, b.x)])
    n = max(len(a.shape), len(b.shape))
    sa, sb = (1, ) * (n - len(a.shape)) + a.shape, (1, ) * (n - len(b.shape)) + b.shape
    out = []
    shape = []
    for p, q in zip(sa, sb):
        if p != q and 1 not in (p, q): raise ValueError('operands could not be broadcast together')
        shape.append(max(p, q))
    at = lambda s, x, idx: x[sum((i if m > 1 else 0) * w for i, m, w in zip(idx, s, _strides(s)))]
    for idx in itertools.product(*[range(m) for m in shape]): out.append(op(at(sa, a.x, idx), at(sb, b.x, idx)))
    return Arr(tuple(shape), out)


def _strides(s):
    out, w = [], 1
    for m in reversed(s):
        out.append(w)
        w *= m
    return out[::-1]


def add(a, b): return num(real(a) + real(b))
def sub(a, b): return num(real(a) - real(b))


def mul(a, b):
    if isinstance(a, Angle) or isinstance(b, Angle): return a * b if isinstance(a, Angle) else b * a
    return num(real(a) * real(b))


def div(a, b):
    if isinstance(b, (int, float)): return num(real(a) / real(b))
    if isinstance(b, Norm): raise Unsupported('number over a length')
    return a / b if isinstance(a, SNum) else SNum(real(a)) / b


class Arr(object):
    __vc_array__ = True
    __array_priority__ = 100
    __hash__ = None

    def __init__(self, shape, x):
        self.shape, self.x, self.unit = tuple(shape), list(x), False
        assert len(self.x) == _size(self.shape)

    ndim = property(lambda self: len(self.shape))
    size = property(lambda self: len(self.x))

    @property
    def T(self):
        if len(self.shape) < 2: return self
        n, m = self.shape
        return Arr((m, n), [self.x[i * m + j] for j in range(m) for i in range(n)])

    def transpose(self): return self.T

    def _op(self, o, op, swap=False):
        if isinstance(o, VList) or isinstance(o, (list, tuple)): o = array(o)
        if isinstance(o, Rows): return o._op(self, op, not swap)
        if not isinstance(o, (Arr, int, float, SNum)): return NotImplemented
        return _b(self, o, (lambda a, b: op(b, a)) if swap else op) if not (swap and isinstance(o, Arr)) else _b(o, self, op)

    def __add__(self, o): return self._op(o, add)
    def __radd__(self, o): return self._op(o, add, True)
    def __sub__(self, o): return self._op(o, sub)
    def __rsub__(self, o): return self._op(o, sub, True)
    def __mul__(self, o): return self._op(o, mul)
    def __rmul__(self, o): return self._op(o, mul, True)

    def __truediv__(self, o):
        if isinstance(o, Norm):
            if _same(o.of, self): return o.direction()
            o = SNum(o.e)
        return self._op(o, div)
    def __neg__(self): return Arr(self.shape, [sub(0, a) for a in self.x])
    def __pos__(self): return self

    def __pow__(self, k):
        if k != 2: raise Unsupported('power')
        return self * self

    def dot(self, o):
        o = array(o) if isinstance(o, (list, tuple)) else o
        if not isinstance(o, Arr): return self * o
        if self.ndim == o.ndim == 1:
            if self.shape != o.shape: raise ValueError('shapes not aligned')
            if _same(self, o) and self.unit: return 1
            r = z3.RealVal(0)
            for a, b in zip(self.x, o.x): r = r + real(a) * real(b)
            return num(r)
        if self.ndim == 2 and o.ndim == 1: return Arr(self.shape[:1], [self[i].dot(o) for i in range(self.shape[0])])
        if self.ndim == 1 and o.ndim == 2: return o.T.dot(self)
        n, m = self.shape[0], o.shape[1]
        return Arr((n, m), [self[i].dot(o.T[j]) for i in range(n) for j in range(m)])
    __matmul__ = dot

    def __getitem__(self, k):
        if isinstance(k, tuple):
            if len(k) == 1: return self[k[0]]
            if isinstance(k[0], int): return self[k[0]][k[1:] if len(k) > 2 else k[1]]
            if isinstance(k[0], slice) and len(k) == 2 and len(self.shape) == 2:
                return _stack([self[i][k[1]] for i in range(*k[0].indices(self.shape[0]))])
            raise Unsupported('index of an array')
        w = _size(self.shape[1:])
        if isinstance(k, slice):
            r = range(*k.indices(self.shape[0]))
            return Arr((len(r), ) + self.shape[1:], [y for i in r for y in self.x[i * w:(i + 1) * w]])
        if not isinstance(k, int): raise Unsupported('index of an array')
        k = range(self.shape[0])[k]
        return self.x[k] if len(self.shape) == 1 else Arr(self.shape[1:], self.x[k * w:(k + 1) * w])

    def __len__(self): return self.shape[0]
    def __iter__(self): return iter([self[i] for i in range(self.shape[0])])
    def __vc_seq__(self): return const_seq(list(self), 'array')
    def reshape(self, *s):
        s = s[0] if len(s) == 1 and isinstance(s[0], tuple) else s
        if -1 in s:
            k = -_size(s)
            s = tuple(self.size // k if q == -1 else q for q in s)
        return Arr(s, self.x)
    def flatten(self): return Arr((self.size, ), self.x)
    ravel = flatten
    def copy(self): return self
    def tolist(self): return list(self) if self.ndim == 1 else [r.tolist() for r in self]
    def sum(self, axis=None):
        if axis is None: return num(sum((real(q) for q in self.x), z3.RealVal(0)))
        raise Unsupported('sum along an axis')

    def __vc_subst__(self, pairs):
        r = Arr(self.shape, [subst(q, pairs) for q in self.x])
        r.unit = self.unit
        return r

    def __eq__(self, o): raise Unsupported('comparison of arrays')
    def __bool__(self): raise Unsupported('truth of an array')
    def __repr__(self): return 'Arr%s' % (self.x, )


def _size(s):
    r = 1
    for q in s: r *= q
    return r


def _same(a, b):
    if a is b: return True
    return isinstance(a, Arr) and isinstance(b, Arr) and a.shape == b.shape and all(z3.simplify(real(x)).eq(z3.simplify(real(y))) for x, y in zip(a.x, b.x))


def _stack(rows):
    rows = list(rows)
    if not isinstance(rows[0], Arr): return Arr((len(rows), ), rows)
    return Arr((len(rows), ) + rows[0].shape, [y for r in rows for y in r.x])


class Norm(SNum):
    """Length of a vector"""
    def __init__(self, e, of):
        SNum.__init__(self, e)
        self.of = of

    def direction(self):
        """v/|v|"""
        e = eng()
        e.prove(self.e != 0, 'the vector which is made a unit vector is not zero')
        e.assume(self.e != 0)
        known = e.__dict__.setdefault('units', [])
        if getattr(e, 'units_of', None) is not e.pc: e.units, e.units_of = [], e.pc
        for v, u in e.units:
            if _same(v, self.of): return u
        x = []
        for q in self.of.x:
            if isinstance(q, int) and q == 0: x.append(0)
            else: x.append(SNum(z3.Real(e.fresh_name('u'))))
        inv = z3.Real(e.fresh_name('inv'))
        if getattr(e, 'inverses_of', None) is not e.pc: e.inverses, e.inverses_of = [], e.pc
        e.inverses.append(self.e * inv == 1)                # for the ideal only
        for q, y in zip(self.of.x, x):
            if not (isinstance(y, int)): e.assume(self.e * real(y) == real(q))
        e.assume(sum((real(y) * real(y) for y in x), z3.RealVal(0)) == 1)
        u = Arr((len(x), ), x)
        u.unit = True
        e.units.append((self.of, u))
        return u


def norm(v, ord=None, axis=None):
    if isinstance(v, (list, tuple)): v = array(v)
    if isinstance(v, Rows):
        if axis not in (1, -1): raise Unsupported('norm of a matrix')
        return v.each(lambda r: norm(r, ord))
    if ord not in (None, 2) or axis is not None and not (axis in (0, -1) and v.ndim == 1): raise Unsupported('other norms')
    if v.ndim != 1: raise Unsupported('norm of a matrix')
    if v.unit: return 1
    s = root(eng(), sum((real(q) * real(q) for q in v.x), z3.RealVal(0)))
    return Norm(s.e, v) if isinstance(s, SNum) else s


def array(x, dtype=None):
    if isinstance(x, (Arr, Rows)): return x
    if hasattr(x, '__vc_array__') and not isinstance(x, (list, tuple)): return x
    s = seq(x) if not isinstance(x, (tuple, )) else None
    if isinstance(x, SymSeq) or (s is not None and not isinstance(s.n, int)): return Rows(s)
    items = list(s.get(k) for k in range(s.n)) if s is not None else list(x)
    return _stack([array(q) if isinstance(q, (list, tuple, VList, Arr)) else q for q in items])


def cross(a, b):
    a, b = array(a), array(b)
    m = lambda i, j: sub(mul(a[i], b[j]), mul(a[j], b[i]))
    return Arr((3, ), [m(1, 2), m(2, 0), m(0, 1)])


def outer(a, b):
    a, b = array(a), array(b)
    return Arr((len(a), len(b)), [mul(x, y) for x in a.x for y in b.x])


# -------------------------------------------------------------- symbolic length
class Rows(object):
    """Array with a symbolic number of rows; a row is a number or an Arr; col: (n, 1)"""
    __vc_array__ = True
    __hash__ = None

    def __init__(self, s, col=False): self.s, self.col = s if isinstance(s, SymSeq) else seq(s), col

    @property
    def ncols(self):
        r = self.s.get(0)
        return r.shape if isinstance(r, Arr) else ()

    @property
    def shape(self): return (self.s.n, ) + ((1, ) if self.col else self.ncols)
    size = property(lambda self: self.s.n if not self.ncols else self.s.n * _size(self.ncols))
    ndim = property(lambda self: len(self.shape))
    def each(self, f): return Rows(self.s.like(lambda idx: f(self.s.getnd(idx)), 'array'), self.col)
    def __vc_seq__(self): return self.s if self.s.kind == 'array' else self.s.like(self.s.getnd, 'array')
    def __vc_subst__(self, pairs): return Rows(subst(self.s, pairs), self.col)

    def _op(self, o, op, swap=False):
        f = (lambda a, b: op(b, a)) if swap else op
        if isinstance(o, (int, float, SNum, Arr)): return self.each(lambda r: _pair(r, o, f))
        if isinstance(o, (SymSeq, VList)): o = Rows(seq(o))
        if not isinstance(o, Rows): return NotImplemented
        n = self.s.n
        if not (o.s.n == n): raise ValueError('operands could not be broadcast together')
        a, b = self, o
        if len(a.ncols) and not len(b.ncols) and not b.col or len(b.ncols) and not len(a.ncols) and not a.col: raise Unsupported('broadcast of (n, 3) and (n, )')
        g = lambda idx: _pair(a.s.getnd(idx), b.s.getnd(idx), f)
        if len(a.s.dims) != len(b.s.dims): return Rows(SymSeq(n, lambda k: _pair(a.s.get(k), b.s.get(k), f), 'array'))
        return Rows(SymSeq._make(n, a.s.dims, g, 'array'), a.col and b.col)

    def __add__(self, o): return self._op(o, add)
    def __radd__(self, o): return self._op(o, add, True)
    def __sub__(self, o): return self._op(o, sub)
    def __rsub__(self, o): return self._op(o, sub, True)
    def __mul__(self, o): return self._op(o, mul)
    def __rmul__(self, o): return self._op(o, mul, True)
    def __truediv__(self, o): return self._op(o, div)
    def __neg__(self): return self.each(lambda r: -r)

    def __pow__(self, k):
        if k != 2: raise Unsupported('power')
        return self * self

    def reshape(self, *s):
        s = s[0] if len(s) == 1 and isinstance(s[0], tuple) else s
        if s == (-1, 1) and not self.ncols: return Rows(self.s, True)
        if s == (-1, ) and not self.ncols: return Rows(self.s)
        raise Unsupported('reshape')

    def dot(self, o):
        if isinstance(o, Arr) and len(self.ncols) == 1: return self.each(lambda r: r.dot(o))
        raise Unsupported('product of matrices')
    __matmul__ = dot

    def __rmatmul__(self, o): raise Unsupported('product of matrices')

    @property
    def T(self): return Turned(self)

    def __getitem__(self, k):
        if isinstance(k, tuple) and len(k) == 2 and k[0] == slice(None):
            if k[1] is None: return Rows(self.s, True)
            return self.each(lambda r: r[k[1]])
        if isinstance(k, (int, SNum)): return self.s[k]
        raise Unsupported('index of an array')

    def sum(self, axis=None):
        if axis is not None: raise Unsupported('sum along an axis')
        return R.v_sum(self.s)
    def copy(self): return self
    def tolist(self): return VList(self.s)
    flatten = ravel = lambda self: self if not self.ncols else None
    def __len__(self): return R.v_len(self.s)
    def __iter__(self): return iter(self.s)
    def __eq__(self, o): raise Unsupported('comparison of arrays')


class Turned(object):
    """Transpose of an array of points; matrix @ it"""
    __vc_array__ = True
    def __init__(self, r): self.r = r
    T = property(lambda self: self.r)
    def __rmatmul__(self, A): return Turned(self.r.each(lambda x: A.dot(x)))
    def dot(self, o): raise Unsupported('product of matrices')
    def __mul__(self, o):
        if not isinstance(o, (int, float, SNum)): raise Unsupported('broadcast')
        return Turned(self.r * o)
    __rmul__ = __mul__


def _pair(a, b, f):
    if isinstance(a, Norm): a = SNum(a.e) if not (isinstance(b, Arr)) else a
    if isinstance(a, Arr):
        if isinstance(b, Norm) and f is div: return a / b
        return _b(a, b, f)
    if isinstance(b, Arr): return _b(b, a, lambda y, x: f(x, y))
    return f(a, b)


# ------------------------------------------------------------------------ numpy
class _C(object):
    """np.c_"""
    def __getitem__(self, k):
        k = k if isinstance(k, tuple) else (k, )
        if not any(isinstance(q, (Rows, SymSeq)) for q in k): raise Unsupported('np.c_')
        k = [Rows(q) if isinstance(q, SymSeq) else q for q in k]
        n = k[0].s.n
        for q in k[1:]:
            if not isinstance(q, Rows) or not (q.s.n == n): raise Unsupported('np.c_ of arrays with different lengths')

        def row(get):
            x = []
            for q in k:
                r = get(q.s)
                x += list(r.x) if isinstance(r, Arr) else [r]
            return Arr((len(x), ), x)
        if all(len(q.s.dims) == len(k[0].s.dims) for q in k): return Rows(SymSeq._make(n, k[0].s.dims, lambda idx: row(lambda s: s.getnd(idx)), 'array'))
        return Rows(SymSeq(n, lambda i: row(lambda s: s.get(i)), 'array'))


def stack(rows, axis=0):
    if axis in (1, -1): return _C()[tuple(rows)]
    return array(rows)


def numpy():
    def zeros_like(x):
        if isinstance(x, Rows): return x.each(lambda r: 0 if not isinstance(r, Arr) else Arr(r.shape, [0] * r.size))
        return Arr(x.shape, [0] * x.size)

    def ones_like(x): return zeros_like(x) + 1

    def eye(n): return Arr((n, n), [int(i == j) for i in range(n) for j in range(n)])

    def zeros(n, dtype=None):
        n = n if isinstance(n, tuple) else (n, )
        if any(isinstance(q, SNum) for q in n):
            if len(n) != 1: raise Unsupported('zeros')
            return Rows(SymSeq(n[0], lambda k: 0, 'array'))
        return Arr(n, [0] * _size(n))

    def repeat(x, n, axis=None):
        s = seq(x)
        return Rows(SymSeq._make(s.n * n, (s.n, n), lambda idx: s.getnd((idx[0], )), 'array'))

    def tile(x, n):
        s = seq(x)
        return Rows(SymSeq._make(s.n * n, (n, s.n), lambda idx: s.getnd((idx[1], )), 'array'))

    def prod(x):
        r = 1
        for q in R.v_list(x) if not isinstance(x, tuple) else x: r = mul(r, q)
        return r

    def dot(a, b):
        a, b = [array(q) if isinstance(q, (list, tuple, VList)) else q for q in (a, b)]
        return a.dot(b)

    def sqrt(x):
        if isinstance(x, Rows): return x.each(sqrt)
        return root(eng(), real(x))

    def square(x): return x * x
    def multiply(a, b): return a * b

    def fabs(x): return abs(x) if not isinstance(x, Arr) else Arr(x.shape, [abs(q) for q in x.x])
    lin = types.SimpleNamespace(norm=norm)
    nd = Arr
    return R.stub('numpy', array=array, asarray=array, cross=cross, outer=outer, dot=dot, inner=dot, vdot=dot, eye=eye, identity=eye, sqrt=sqrt,
                  cos=trig(COS, 0), sin=trig(SIN, 3), pi=Angle(z3.RealVal(1)), c_=_C(), column_stack=lambda x: _C()[tuple(x)], zeros_like=zeros_like,
                  ones_like=ones_like, zeros=zeros, repeat=repeat, tile=tile, prod=prod, linalg=lin, ndarray=nd, abs=fabs, fabs=fabs,
                  sum=lambda x: x.sum() if hasattr(x, 'sum') else R.v_sum(x), multiply=multiply, square=square, stack=stack, vstack=array, row_stack=array,
                  hypot=lambda a, b: sqrt(mul(a, a) + mul(b, b)), float64=R.v_float,
                  polynomial=types.SimpleNamespace(legendre=types.SimpleNamespace()))


def vector(name, n=3): return Arr((n, ), [SNum(z3.Real('%s%d' % (name, k))) for k in range(n)])
