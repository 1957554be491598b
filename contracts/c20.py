"""C20: block_jacobian has d bf[i]/d foos[j] at (i, j); ii_derivative sums the partial derivatives of all the ways f depends on x.

PARTIAL(X, c, t) is the derivative of expression X in the occurrences of coefficient c (with its reduction) in direction t.
ii_derivative   ensures  the sum over coefficients c of f that are x or share its dofs of the integrals of f that contain c
                         with integrand PARTIAL(X, c, t), where t is the trial function reduced the way c is
block_jacobian  ensures  entry (i, j) is ii_derivative(bf[i], foos[j])
"""
import types
import z3
from vc.contract import contract
from vc.engine import eng, Int, Bool, SymSeq, VList, zz, wrap, seq, SNum, SBool, Unsupported, as_bool, subst
from vc import linmodel as lm, runtime as R
from vc.models import AVal, fun, indexed, some

JA = 'xii.nonlin.jacobian'
ASSUME = ['df.derivative differentiates each integral; it keeps the function that is differentiated by in the integrand (it is lazy)',
          'replace substitutes terminals with their attributes (C13)', 'chain rule: a reduction is linear so the direction of the reduced function is reduced',
          'flux averages of functions are not available (FluxAverage refuses them)']
TYPES = ('trace_', 'transpose_trace_', 'average_', 'restriction_', 'injection_', 'mean_', 'patch_average_', 'surface_mean_', 'dirac_', 'grad_dirac_')


class Space(AVal): sort = 'Space'


class Coefficient(AVal):
    """ufl coefficient; marks are set as attributes"""
    sort = 'Coef'

    def __init__(self, V=None, x=None, t=None, marks=()):
        AVal.__init__(self, t)
        self.V = V
        self.dofs = x if x is not None else Int('dofs')
        for k in marks: setattr(self, k, ('data', k, str(self.t)))
    def function_space(self): return self.V
    def vector(self): return types.SimpleNamespace(id=lambda: self.dofs)
    def ufl_element(self): raise Unsupported('element')


class Function(Coefficient): pass


class Arg(object):
    def __init__(self, V, k): self.V, self.k = V, k
    def __vc_subst__(self, pairs): return Arg(subst(self.V, pairs), self.k)
    def number(self): return self.k
    def function_space(self): return self.V


class X(object):
    """Integrand: original, with a function replaced, differentiated, with the function put back"""
    def __init__(self, i, has): self.i, self.has = i, has

    def __ne__(self, o):
        if not isinstance(o, X): return True
        return o is not self
    def __eq__(self, o): return o is self
    __hash__ = object.__hash__


class Subst(X):
    def __init__(self, x, c, s): self.x, self.c, self.s = x, c, s


class Deriv(X):
    def __init__(self, x, s, t): self.x, self.s, self.t = x, s, t


class Partial(X):
    def __init__(self, i, c, t): self.i, self.c, self.t = i, c, t


class Integral(object):
    def __init__(self, x, tag): self.x, self.tag = x, tag
    def integrand(self): return self.x
    def reconstruct(self, integrand=None): return Integral(self.x if integrand is None else integrand, self.tag)


class Form(object):
    def __init__(self, integrals, args=None, coefs=None):
        self.parts = list(integrals)
        self.args_, self.coefs = args, coefs
    def integrals(self): return tuple(self.parts)
    def coefficients(self): return tuple(self.coefs)

    def arguments(self):
        if self.args_ is not None: return tuple(self.args_)
        out = []
        for I in self.parts:
            t = getattr(I.x, 't', None)
            if t is not None and t not in out: out.append(t)
        return (Arg(None, 0), ) + tuple(out)

    def __add__(self, o):
        if isinstance(o, int) and o == 0: return self
        return Form(self.parts + o.parts)
    __radd__ = __add__


def world(e, has):
    def replace(x, c, new, attributes=None):
        if isinstance(x, Deriv):
            # the function is put back; the stand-in is not reduced
            e.prove(z3.BoolVal(not attributes), 'requires of replace: the stand-in has no marks')
            if x.s is not c: return x
            if not isinstance(x.x, Subst) or x.x.s is not c: raise Unsupported('substitution of an unknown form')
            e.prove(z3.BoolVal(x.x.c is new), 'ensures what was replaced is put back')
            return Partial(x.x.x, new, x.t)
        marks = tuple(k for k in TYPES if hasattr(c, k))
        e.prove(z3.BoolVal(tuple(attributes or ()) == marks), 'requires of replace: the marks of the function tell its reductions apart')
        return Subst(x, c, new) if bool(SBool(has(x.i, c))) else x

    def derivative(form, s):
        t = Arg(s.V, 1)
        e.prove(z3.BoolVal(len(form.parts) > 0), 'requires of derivative: a form with integrals')
        return Form([Integral(Deriv(I.x, s, t), I.tag) for I in form.parts])
    ufl = types.SimpleNamespace(Form=Form, Coefficient=Coefficient)
    return lm.world(dolfin=dict(Function=Function, derivative=derivative),
                    stubs={'ufl_legacy': ufl, 'xii.assembler.ufl_utils': R.stub('u', replace=replace)}).load(JA)


def partials(ncoef):
    def fn(e):
        table = {}
        m = world(e, lambda i, c: table[(i, id(c))])
        V = Space('V')
        x = Function(V)
        kind = e.choose(3)
        marks = [(), ('trace_', ), (TYPES[1 + e.choose(len(TYPES) - 1)] if ncoef == 1 else 'average_', )]
        cs = []
        if kind and ncoef > 1: cs.append(x)
        while len(cs) < ncoef:
            mk = marks[kind] if not cs else marks[1]
            fun_ = e.choose(2) == 0
            own = e.choose(2) == 0
            c = (Function if fun_ else Coefficient)(V, x.dofs if own else Int('dofs'), marks=mk)
            if own: e.assume(c.t != x.t)
            else: e.assume(z3.And(c.dofs.e != x.dofs.e, c.t != x.t))
            cs.append(c)
        nint = 2
        xs = [X(i, None) for i in range(nint)]
        for i in range(nint):
            for c in cs: table[i, id(c)] = Bool('has%d' % i).e
        for c in cs: e.assume(z3.Or([table[i, id(c)] for i in range(nint)]))           # coefficients of the form
        f = Form([Integral(q, ('tag', q.i)) for q in xs], [Arg(V, 0)], cs)
        J = m.ii_derivative(f, x)
        got = [] if isinstance(J, int) else list(J.parts)
        for c in cs:
            dep = isinstance(c, Function) and c.dofs is x.dofs
            for i in range(nint):
                mine = [I for I in got if isinstance(I.x, Partial) and I.x.c is c and I.x.i.i == i]
                if not dep:
                    e.prove(z3.BoolVal(not mine), 'ensures no derivative in functions that do not depend on x')
                    continue
                e.prove(z3.BoolVal(len(mine) <= 1), 'ensures no integral is counted twice')
                e.prove(table[i, id(c)] == z3.BoolVal(len(mine) == 1), 'ensures the integrals with the function are differentiated, once')
                for I in mine:
                    got.remove(I)
                    e.prove(z3.BoolVal(I.tag == ('tag', i)), 'ensures the measure of the integral')
                    t = I.x.t
                    e.prove(z3.BoolVal(t.k == 1 and t.V is c.V), 'ensures direction in the space of the function')
                    e.prove(z3.BoolVal(all(getattr(t, k, None) == getattr(c, k, None) for k in TYPES)), 'ensures direction is reduced the way the function is')
        e.prove(z3.BoolVal(not got), 'ensures nothing else')
    fn.__name__ = 'partial_derivatives_of_%d_coefficients' % ncoef
    return fn


for _n in (1, 2):
    contract('C20', JA + ':ii_derivative', JA + ':is_restricted', JA + ':restriction_type', JA + ':get_trialfunction', assumes=ASSUME,
             bounded='%d coefficients, 2 integrals' % _n)(partials(_n))


@contract('C20', JA + ':block_jacobian', JA + ':is_okay_functional', assumes=ASSUME)
def jacobian(e):
    m = world(e, None)
    n = Int('n', 1)
    spaces, V = indexed(Space, 'V', n)

    class Res(AVal):
        sort = 'Res'
        def arguments(self): return (Arg(Space(fun('test_space', 'Res', 'Space')(self.t)), 0), )

    class Foo(Function):
        def __init__(self, t): AVal.__init__(self, t)
        def function_space(self): return Space(fun('space_of', 'Coef', 'Space')(self.t))
    m.ufl.Form = Res
    F, C = fun(e.fresh_name('F'), 'Int', 'Res'), fun(e.fresh_name('c'), 'Int', 'Coef')
    bf = VList(SymSeq(n, lambda k: Res(F(zz(k)))))
    foos = VList(SymSeq(n, lambda k: Foo(C(zz(k)))))
    k = z3.Int(e.fresh_name('k'))
    e.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n.e), fun('test_space', 'Res', 'Space')(F(k)) == fun('space_of', 'Coef', 'Space')(C(k)))))
    D = fun('derivative', 'Res', 'Coef', 'Form')

    class D_(AVal): sort = 'Form'
    m.ii_derivative = lambda f, c: D_(D(f.t, c.t))
    r = seq(m.block_jacobian(bf, foos))
    e.prove(zz(r.n) == n.e, 'ensures a row for each residual')
    i, j = some(n), some(n)
    row = seq(r.get(i))
    e.prove(zz(row.n) == n.e, 'ensures a column for each unknown')
    e.prove(row.get(j).t == D(F(i.e), C(j.e)), 'ensures derivative of residual i in unknown j')


@contract('C20', JA + ':is_okay_functional')
def functionals(e):
    m = world(e, None)
    a, b = Arg(Space('V'), 0), Arg(Space('W'), e.choose(2))
    many = e.choose(2)
    f = types.SimpleNamespace(arguments=lambda: (a, b) if many else (b, ))
    try: r = m.is_okay_functional(f)
    except AssertionError: return e.prove(z3.BoolVal(many or b.k == 1), 'functionals are accepted')
    e.prove(z3.BoolVal(not many and b.k == 0 and r is b), 'ensures the only test function; other forms are refused')
