"""C14: block forms.

A form is known by its arguments and a number, the value of an arbitrary additive functional of it (assembly, say):
two sums of integrals are the same iff every additive functional agrees.

_block_form.add       ensures  block (i, j) grows by the integrals with test space W[i] and trial space W[j], no other changes
_block_form.__add__   ensures  blocks of the result are sums, operands unchanged
_block_form.__setitem__ refuses forms of other spaces
permute               ensures  new[i][j] is old[ordering[i]][ordering[j]], W'[i] is W[ordering[i]]
is_upper_triangular   <=> all blocks below the diagonal are null;  is_lower_triangular likewise
make_selfadjoint      ensures  the empty triangle holds the adjoints of the other one, which is unchanged
form_adjoint          ensures  trial and test functions are exchanged with their attributes, other terminals stay
"""
import types
import z3
from vc.contract import contract
from vc.engine import eng, Int, Real, SymSeq, VList, SArr2, zz, wrap, seq, SNum, SBool, Unsupported, const_seq, subst, as_bool
from vc import linmodel as lm, runtime as R
from vc.models import AVal, fun, indexed, some

ASSUME = ['UFL: a form is the sum of its integrals, extract_arguments lists its arguments, sums and Form(integrals) as documented',
          'the spaces of a block form are distinct', 'numpy: sort, diff of a permutation']
BF = 'xii.assembler.block_form'


class Space(AVal):
    sort = 'Space'


class Arg(object):
    def __init__(self, V, k, attrs=None):
        self.V, self.k = V, k
        self.attrs = dict(attrs or {})
        self.__dict__.update(self.attrs)

    def __setattr__(self, a, v):
        self.__dict__[a] = v
        if a.endswith('_'): self.attrs[a] = v

    def number(self): return self.k
    def function_space(self): return self.V
    ufl_function_space = function_space

    def __eq__(self, o):
        if not isinstance(o, Arg): return False
        if self.k != o.k: return False
        return self.V == o.V

    def __ne__(self, o):
        r = self == o
        return SBool(z3.Not(r.e)) if isinstance(r, SBool) else not r
    __hash__ = None
    def __vc_subst__(self, pairs): return Arg(subst(self.V, pairs), self.k, self.attrs)


class Form(object):
    """UFL form: value of an additive functional, spaces of the test and the trial function (None: there is none)"""
    def __init__(self, val, test=None, trial=None, parts=None):
        if isinstance(val, (list, tuple)) or isinstance(val, R.VList):            # Form(integrals)
            ps = [p for p in val]
            r = ps[0].form
            for p in ps[1:]: r = r + p.form
            val, test, trial, parts = r.val, r.test, r.trial, r.parts
        self.val, self.test, self.trial = val, test, trial
        self.parts = parts

    def integrals(self):
        if self.parts is None: return (Integral(self), )
        return tuple(q for f in self.parts for q in f.integrals())

    def __add__(self, o):
        if isinstance(o, (int, float)):
            if o == 0: return self
            raise TypeError('form + number')
        if isinstance(o, SNum): raise Unsupported('form + symbolic number')
        if not isinstance(o, Form): return NotImplemented
        for a, b in ((self.test, o.test), (self.trial, o.trial)):
            if a is None and b is None: continue
            if a is None or b is None or not (a == b):
                r = Mixed(self.val + o.val, self, o)
                return r
        return Form(self.val + o.val, self.test, self.trial, [self, o])
    __radd__ = __add__

    def args(self): return [Arg(V, k) for k, V in ((0, self.test), (1, self.trial)) if V is not None]
    def arguments(self): return tuple(self.args())
    def __vc_subst__(self, pairs): return Form(subst(SNum(self.val), pairs).e, subst(self.test, pairs), subst(self.trial, pairs))
    def __eq__(self, o): return self is o
    __hash__ = object.__hash__


class Mixed(Form):
    """Sum of forms with different arguments"""
    def __init__(self, val, a, b):
        self.val, self.parts = val, [a, b]
        self.a, self.b = a, b

    def args(self):
        out = []
        for x in self.a.args() + self.b.args():
            if not any(bool(x == y) for y in out if y.k == x.k): out.append(x)
        return sorted(out, key=lambda x: x.k)


class Integral(object):
    def __init__(self, form): self.form = form


class Const(object): pass


def world(**over):
    ufl = types.SimpleNamespace(Form=Form, Integral=Integral, core=types.SimpleNamespace(expr=types.SimpleNamespace(Expr=Expr)),
                                algorithms=types.SimpleNamespace(extract_arguments=lambda f: VList(f.args())))
    ufl.Expr = Expr
    dolfin = dict(Constant=Const, Form=Form, FunctionSpace=Space, DOLFIN_EPS=3e-16,
                  TestFunction=lambda V: Arg(V, 0), TrialFunction=lambda V: Arg(V, 1), Function=Coefficient)
    w = lm.world(dolfin=dict(dolfin, **over), stubs={'ufl_legacy': ufl, 'ufl': ufl, 'dolfin.function.argument': R.stub('dolfin.function.argument', Argument=Arg),
                                                    'xii.assembler.ufl_utils': R.stub('xii.assembler.ufl_utils', traverse_terminals=lambda x: VList(x.leaves), replace=replace)})
    return w


def real(v): return z3.ToReal(v) if v.sort() == z3.IntSort() else v


class Expr(object):
    """Expression known by its terminals, in order"""
    def __init__(self, leaves): self.leaves = list(leaves)


class Coefficient(object):
    def __init__(self, V): self.V = V


def replace(expr, arg, new, attrs=()):
    """Contract of xii's replace (C13): every terminal equal to arg (and with its attributes, which compare) becomes new"""
    return Expr([new if (x is arg or isinstance(x, Arg) and isinstance(arg, Arg) and bool(x == arg) and x.attrs == arg.attrs) else x for x in expr.leaves])


def spaces(e, n):
    """Distinct spaces; index() is the position"""
    W, V = indexed(Space, 'W', n)
    pos = fun('position', 'Space', 'Int')

    def get(k):
        t = V(zz(k))
        e.axiom(z3.Implies(z3.And(zz(k) >= 0, zz(k) < zz(n)), pos(t) == zz(k)))
        return Space(t)

    class Spaces(VList):
        def index(self, x):
            # the spaces are distinct: V(q) is at q
            p = SNum(x.t.arg(0) if z3.is_app(x.t) and x.t.decl().eq(V) else pos(x.t))
            e.prove(z3.And(p.e >= 0, p.e < zz(n), V(p.e) == x.t), 'requires of index: the space is there')
            return p
    return Spaces(SymSeq(n, get)), V, pos


class Grid(object):
    """Values of the blocks, shared by the rows"""
    def __init__(self, e, n, V, name, form=True):
        self.v = fun(e.fresh_name(name), 'Int', 'Int', 'Real')
        if form: self.at = lambda i, j: Form(self.v(zz(i), zz(j)), Space(V(zz(i))), Space(V(zz(j))))
        else: self.at = lambda i, j: 0

    def set(self, i, j, x):
        f = self.at
        if eng().frames: raise Unsupported('blocks set in a loop over blocks')
        self.at = lambda a, b: x if (bool(a == i) and bool(b == j)) else f(a, b)


def bilinear(e, m, n, W, V, name='old', form=True):
    grid = Grid(e, n, V, name, form)

    class Row(m._block_form):
        view = True

        def __init__(self, i):
            VList.__init__(self)
            list.append(self, None)
            self.i, self.arity, self.V0, self.V1 = i, 1, W, W[i]
            self.sym = SymSeq(n, lambda j: grid.at(i, j))

        def _set(self, s):
            if getattr(self, 'i', None) is None: return VList._set(self, s)
            raise Unsupported('row replaced')

        def __vc_store__(self, k, x): grid.set(self.i, k, x)
        def __vc_subst__(self, pairs): return Row(subst(self.i, pairs))
    a = m._block_form.__new__(m._block_form)
    VList.__init__(a, SymSeq(n, Row))
    a.arity, a.V0, a.V1 = 2, W, None
    return a, grid


def linear(e, m, n, W, V, name='old'):
    grid = fun(e.fresh_name(name), 'Int', 'Real')
    a = m._block_form.__new__(m._block_form)
    VList.__init__(a, SymSeq(n, lambda i: Form(grid(zz(i)), Space(V(zz(i))))))
    a.arity, a.V0, a.V1 = 1, W, None
    return a, grid


def value(x):
    if isinstance(x, (int, float)): return z3.RealVal(x)
    return x.val


@contract('C14', BF + ':_block_form.add', assumes=ASSUME)
def add_bilinear(e):
    m = world().load(BF)
    n = Int('n', 1)
    W, V, pos = spaces(e, n)
    empty = bool(e.choose(2))
    a, grid = bilinear(e, m, n, W, V, form=not empty)
    r, c = some(n), some(n)
    x = Real('x')
    f = Form(x.e, W[r], W[c])
    a.add(f)
    i, j = some(n), some(n)
    got = grid.at(i, j)
    e.prove(value(got) == (z3.RealVal(0) if empty else grid.v(i.e, j.e)) + z3.If(z3.And(i.e == r.e, j.e == c.e), x.e, z3.RealVal(0)),
            'ensures block (i, j) grows by the form iff it is the block of its arguments')


@contract('C14', BF + ':_block_form.add', assumes=ASSUME)
def add_linear(e):
    m = world().load(BF)
    n = Int('n', 1)
    W, V, pos = spaces(e, n)
    a, old = linear(e, m, n, W, V)
    r = some(n)
    x = Real('x')
    a.add(Form(x.e, W[r]))
    i = some(n)
    e.prove(value(a[i]) == old(i.e) + z3.If(i.e == r.e, x.e, z3.RealVal(0)), 'ensures block i grows by the form iff it is the block of its test function')


def several(arity, k):
    def fn(e):
        m = world().load(BF)
        n = Int('n', 1)
        W, V, pos = spaces(e, n)
        a, old = bilinear(e, m, n, W, V) if arity == 2 else linear(e, m, n, W, V)
        fs, at = [], []
        for q in range(k):
            r, c, x = some(n), some(n), Real('x%d' % q)
            fs.append(Form(x.e, W[r], W[c] if arity == 2 else None))
            at.append((r, c, x))
        f = fs[0]
        for g in fs[1:]: f = f + g
        a.add(f)
        i, j = some(n), some(n)
        if arity == 2:
            want = old.v(i.e, j.e) + sum([z3.If(z3.And(i.e == r.e, j.e == c.e), x.e, z3.RealVal(0)) for r, c, x in at], z3.RealVal(0))
            e.prove(value(old.at(i, j)) == want, 'ensures block (i, j) grows by the integrals of its arguments')
        else:
            want = old(i.e) + sum([z3.If(i.e == r.e, x.e, z3.RealVal(0)) for r, c, x in at], z3.RealVal(0))
            e.prove(value(a[i]) == want, 'ensures block i grows by the integrals of its test function')
    fn.__name__ = 'add_sum_of_%d_%s' % (k, {1: 'linear', 2: 'bilinear'}[arity])
    return fn


for _k in (2, 3):
    for _a in (1, 2): contract('C14', BF + ':_block_form.add', assumes=ASSUME, bounded='%d integrals (any number of spaces)' % _k, thorough=_k == 3)(several(_a, _k))


@contract('C14', BF + ':_block_form.add', assumes=ASSUME)
def add_any_number(e):
    """A form of several integrals: add of every one of them (then induction over the contracts above)"""
    m = world().load(BF)
    n, k = Int('n', 1), Int('k', 2)
    W, V, pos = spaces(e, n)
    a, old = linear(e, m, n, W, V)
    log = VList([])
    t = fun(e.fresh_name('integral'), 'Int', 'Real')
    big = types.SimpleNamespace(integrals=lambda: SymSeq(k, lambda q: Integral(Form(t(zz(q)), Space(V(0)))), 'tuple'))
    real_add = m._block_form.add
    m._block_form.add = lambda self, f: log.append(f)
    real_add(a, big)
    e.prove(zz(R.v_len(log)) == k.e, 'ensures every integral is added once')
    q = some(k)
    e.expect(e._check(value(log[q]) != t(q.e)) == z3.unsat, 'integrals are added in their order')


@contract('C14', BF + ':_block_form.__setitem__', assumes=ASSUME, raises=(AssertionError, ))
def set_block(e):
    m = world().load(BF)
    n = Int('n', 1)
    W, V, pos = spaces(e, n)
    x = Real('x')
    T, U = Space('T'), Space('U')
    i, j = some(n), some(n)
    if e.choose(2):
        a, grid = bilinear(e, m, n, W, V)
        f = Form(x.e, T, U)
        a[i][j] = f
        e.prove(z3.And(T.t == V(i.e), U.t == V(j.e)), 'ensures a form of other spaces is refused')
        p, q = some(n), some(n)
        e.prove(value(grid.at(p, q)) == z3.If(z3.And(p.e == i.e, q.e == j.e), x.e, grid.v(p.e, q.e)), 'ensures the block is set and no other')
    else:
        a, old = linear(e, m, n, W, V)
        a[i] = Form(x.e, T)
        e.prove(T.t == V(i.e), 'ensures a form of another space is refused')
        p = some(n)
        e.prove(value(a[p]) == z3.If(p.e == i.e, x.e, old(p.e)), 'ensures the block is set and no other')


@contract('C14', BF + ':_block_form.__setitem__', assumes=ASSUME)
def set_block_accepts(e):
    m = world().load(BF)
    n = Int('n', 1)
    W, V, pos = spaces(e, n)
    x = Real('x')
    i, j = some(n), some(n)
    if e.choose(2):
        a, grid = bilinear(e, m, n, W, V)
        a[i][j] = Form(x.e, W[i], W[j]) if e.choose(2) else 0
    else:
        a, old = linear(e, m, n, W, V)
        a[i] = Form(x.e, W[i]) if e.choose(2) else 0
    e.prove(z3.BoolVal(True), 'ensures forms of its spaces and numbers are accepted')


@contract('C14', BF + ':_block_form.__add__', assumes=ASSUME)
def sum_of_block_forms(e):
    m = world().load(BF)
    n = Int('n', 1)
    W, V, pos = spaces(e, n)
    i, j = some(n), some(n)
    if e.choose(2):
        a, A = bilinear(e, m, n, W, V, 'a')
        b, B = bilinear(e, m, n, W, V, 'b')
        c = a + b
        e.prove(value(c[i][j]) == A.v(i.e, j.e) + B.v(i.e, j.e), 'ensures blocks of the sum')
        e.prove(z3.And(value(a[i][j]) == A.v(i.e, j.e), value(b[i][j]) == B.v(i.e, j.e)), 'frame: operands unchanged')
        e.prove(c[i].V1.t == V(i.e), 'ensures trial space of the rows')
    else:
        a, A = linear(e, m, n, W, V, 'a')
        b, B = linear(e, m, n, W, V, 'b')
        c = a + b
        e.prove(value(c[i]) == A(i.e) + B(i.e), 'ensures blocks of the sum')
        e.prove(z3.And(value(a[i]) == A(i.e), value(b[i]) == B(i.e)), 'frame: operands unchanged')
    e.prove(zz(R.v_len(c)) == n.e, 'ensures number of blocks')
    e.prove(c.V0[i].t == V(i.e), 'ensures spaces')


def permutation(by_space):
    def fn(e):
        w = world()
        m = w.load(BF)
        n = Int('n', 1)
        W, V, pos = spaces(e, n)
        P = fun(e.fresh_name('ordering'), 'Int', 'Int')

        def p(k):
            e.axiom(z3.Implies(z3.And(zz(k) >= 0, zz(k) < n.e), z3.And(P(zz(k)) >= 0, P(zz(k)) < n.e)))
            return SNum(P(zz(k)))
        # an ordering is a permutation: sorted it is 0, 1, .., n - 1
        m.np = types.SimpleNamespace(sort=lambda s: SymSeq(n, lambda k: k, 'array'), diff=lambda s: VList([1] if n > 1 else []))
        m.min, m.max = lambda s: 0, lambda s: n - 1
        ordering = VList(SymSeq(n, p)) if not by_space else VList(SymSeq(n, lambda k: W[p(k)]))
        i, j = some(n), some(n)
        if by_space:
            q = z3.Int(e.fresh_name('q'))
            e.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n.e), z3.And(P(q) >= 0, P(q) < n.e)), patterns=[P(q)]))
        if e.choose(2):
            a, A = bilinear(e, m, n, W, V, 'a')
            b = m.permute(a, ordering)
            e.prove(z3.BoolVal(b.arity == 2), 'ensures kind')
            e.prove(value(b[i][j]) == A.v(P(i.e), P(j.e)), 'ensures block (i, j) is block (ordering[i], ordering[j])')
            e.prove(b[i].V1.t == V(P(i.e)), 'ensures space of the row')
            e.prove(zz(R.v_len(b[i])) == n.e, 'ensures length of the rows')
            e.prove(value(a[i][j]) == A.v(i.e, j.e), 'frame: operand unchanged')
        else:
            a, A = linear(e, m, n, W, V, 'a')
            b = m.permute(a, ordering)
            e.prove(value(b[i]) == A(P(i.e)), 'ensures block i is block ordering[i]')
            e.prove(value(a[i]) == A(i.e), 'frame: operand unchanged')
        e.prove(zz(R.v_len(b)) == n.e, 'ensures number of blocks')
        e.prove(b.V0[i].t == V(P(i.e)), 'ensures spaces are permuted alike')
    fn.__name__ = 'permute_by_' + ('spaces' if by_space else 'indices')
    return fn


for _b in (False, True): contract('C14', BF + ':permute', assumes=ASSUME)(permutation(_b))


def triangular(name, below):
    def fn(e):
        m = world().load(BF)
        n = Int('n', 0)
        null = fun(e.fresh_name('null'), 'Int', 'Int', 'Bool')
        V0 = VList(SymSeq(n, lambda k: k))
        m.is_null = lambda b: SBool(null(*b))

        class F(VList):
            arity = 2 if e.choose(2) else 1
        f = F(SymSeq(n, lambda i: VList(SymSeq(n, lambda j: (zz(i), zz(j))))))
        f.V0 = V0
        if f.arity == 1:
            e.prove(z3.BoolVal(not bool(getattr(m, name)(f))), 'ensures a vector is not triangular')
            return
        r = bool(getattr(m, name)(f))
        i, j = z3.Int(e.fresh_name('i')), z3.Int(e.fresh_name('j'))
        tri = z3.And(0 <= j, j < i, i < n.e)
        spec = null(i, j) if below else null(j, i)
        if r:
            e.assume(tri)
            e.prove(spec, 'ensures every block of the other triangle is null')
        else: e.prove(z3.Not(z3.ForAll([i, j], z3.Implies(tri, spec))), 'ensures some block of the other triangle is not null')
    fn.__name__ = name
    return fn


contract('C14', BF + ':is_upper_triangular', assumes=ASSUME)(triangular('is_upper_triangular', True))
contract('C14', BF + ':is_lower_triangular', assumes=ASSUME)(triangular('is_lower_triangular', False))


def completed(n):
    def fn(e):
        m = world().load(BF)
        up, low = bool(e.choose(2)), bool(e.choose(2))
        m.is_upper_triangular = lambda f: up
        m.is_lower_triangular = lambda f: low
        m.form_adjoint = lambda x: ('adjoint', x)

        class F(VList): pass
        a = F([VList([(i, j) for j in range(n)]) for i in range(n)])
        a.V0 = VList(list(range(n)))
        if not up and not low:
            try: m.make_selfadjoint(a)
            except ValueError:
                e.prove(z3.BoolVal(True), 'ensures a full form is refused')
                return
            e.prove(z3.BoolVal(False), 'ensures a full form is refused')
        r = m.make_selfadjoint(a)
        for i in range(n):
            for j in range(n):
                given = (j >= i) if up else (j <= i)
                x = r[i][j]
                if given: e.prove(z3.BoolVal(x == (i, j)), 'ensures the given triangle is unchanged')
                else: e.prove(z3.BoolVal(x == ('adjoint', (j, i))), 'ensures block (i, j) is the adjoint of block (j, i)')
    fn.__name__ = 'selfadjoint_%d' % n
    return fn


for _k in (1, 2, 3, 4): contract('C14', BF + ':make_selfadjoint', assumes=ASSUME, bounded='%d spaces' % _k)(completed(_k))


def adjoint(shape):
    """shape: the terminals, 0 test, 1 trial, c coefficient; t marks an argument with attributes"""
    def fn(e):
        m = world().load(BF)
        U = {0: Space('V'), 1: Space('U')}
        attr = {0: bool(e.choose(2)), 1: bool(e.choose(2))}
        tags = {0: dict(trace_={'mesh': 'gamma'}), 1: dict(dirac_={'point': 'p'}, average_={'radius': 'r'})}
        args = {k: Arg(U[k], k, tags[k] if attr[k] else None) for k in (0, 1)}
        same = bool(e.choose(2))              # the two spaces may be the same
        if same:
            e.assume(U[0].t == U[1].t)
            if e._check() == z3.unsat: raise Exception
        else: e.assume(U[0].t != U[1].t)
        coef = [Coefficient(Space('C')) for s in shape]
        leaves = [args[s] if s in (0, 1) else coef[k] for k, s in enumerate(shape)]
        before = list(leaves)
        x = Expr(leaves)
        r = m.form_adjoint(x)
        e.prove(z3.BoolVal(len(r.leaves) == len(shape)), 'ensures terminals')
        for k, s in enumerate(shape):
            y = r.leaves[k]
            if s == 'c': e.prove(z3.BoolVal(y is coef[k]), 'ensures coefficients stay')
            else:
                e.prove(z3.BoolVal(isinstance(y, Arg)), 'ensures an argument for an argument')
                e.prove(z3.BoolVal(y.k == 1 - s), 'ensures test and trial functions are exchanged')
                e.prove(y.V.t == U[s].t, 'ensures the space of the argument')
                e.prove(z3.BoolVal(y.attrs == (tags[s] if attr[s] else {})), 'ensures the attributes of the argument')
        e.prove(z3.BoolVal(x.leaves == before), 'frame: the form given is unchanged')
    fn.__name__ = 'adjoint_' + ''.join(map(str, shape))
    return fn


for _s in ([0, 1], [1, 0], [1, 'c', 0], [0, 1, 0, 1], ['c', 1, 1, 0, 'c']):
    contract('C14', BF + ':form_adjoint', assumes=ASSUME, bounded='terminals %s' % _s)(adjoint(_s))


@contract('C14', BF + ':form_adjoint', assumes=ASSUME)
def adjoint_of_form(e):
    """Form: adjoints of its integrals; number: itself"""
    m = world().load(BF)
    k = Int('k', 1)
    t = fun(e.fresh_name('integrand'), 'Int', 'Real')

    class I(Integral):
        def __init__(self, what): self.what = what
        def integrand(self): return ('integrand', self.what)
        def reconstruct(self, integrand=None): return ('integral', self.what, integrand)
        def __vc_subst__(self, pairs): return I(subst(self.what, pairs))

    class F(Form):
        def __init__(self, what): self.what = what
        def integrals(self): return SymSeq(k, lambda q: I(q), 'tuple')
    got = {}

    class Made(object):
        def __init__(self, integrals): got['i'] = seq(integrals)
    f = F('f')
    real_adjoint = m.form_adjoint
    m.form_adjoint = lambda x: ('adjoint', x.what if isinstance(x, I) else x)
    m.ufl.Form = type('FormMeta', (type, ), {'__instancecheck__': lambda c, x: isinstance(x, F)})('Form', (Made, ), {})
    real_adjoint(f)
    e.prove(zz(got['i'].n) == k.e, 'ensures number of integrals')
    q = some(k)
    a = got['i'].get(q)
    e.prove(z3.And(z3.BoolVal(a[0] == 'adjoint'), zz(a[1]) == q.e), 'ensures integral k is the adjoint of integral k')
    b = real_adjoint(I(q))
    e.prove(z3.BoolVal(b[0] == 'integral' and b[2][0] == 'adjoint' and b[2][1][0] == 'integrand'), 'ensures an integral with the adjoint integrand')
    e.prove(z3.And(zz(b[1]) == q.e, zz(b[2][1][1]) == q.e), 'ensures it is over the same domain')
    e.prove(z3.BoolVal(real_adjoint(0) == 0 and real_adjoint(2.5) == 2.5), 'ensures adjoint of a number')
