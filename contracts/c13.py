"""C13: a form with reduced arguments is assembled as reduction matrices times the form on the reduced spaces.

Meaning M of an integral (the specification): if t is a marked terminal of integral I of the reduction R: V -> W with matrix T
    t test function      M(I) = T^T M(I[t := test function of W])
    t trial function     M(I) = M(I[t := trial function of W]) T
    t function           M(I) = M(I[t := function of W with dofs T dofs(t)])
and otherwise M(I) is what dolfin assembles.

ReducedFormAssembler.assemble  ensures  None if no integral is to be handled, else the sum of M over all integrals of the form
    (callee contracts: the methods of the assembler of the operator, xii.assemble on one integral = M, replace = substitution)
methods of the 11 assemblers   ensures  the terminals picked are the marked ones on the mesh, with space, data and matrix of the operator
Trace(v), Average(v), ..       ensures  a new terminal in the space of v with the data of the operator; v itself is not marked
ufl_utils.replace              ensures  every occurrence of the terminal (with its attributes) and nothing else is replaced
"""
import types
import z3
from vc.contract import contract
from vc.engine import eng, Int, Real, Bool, SymSeq, VList, zz, wrap, seq, SNum, SBool, Unsupported, const_seq, subst, as_bool, vc_eq
from vc import linmodel as lm, runtime as R
from vc.models import AVal, fun, indexed, some, sort

RA = 'xii.assembler.reduced_assembler'
ASSUME = ['a form is the sum of its integrals; assembly is additive',
          'traverse_unique_terminals: the terminals of the expression; Integral.reconstruct changes the integrand only',
          'mult and transpmult of matrices; the form is linear in its arguments',
          'requires: each integral to be reduced has a terminal marked for its mesh (else the assertion of the code fails)']


# ------------------------------------------------------------------ the common logic
class Ten(AVal):
    """Matrix, vector or number that was assembled"""
    sort = 'Ten'
    def vector(self): return self

    def __mul__(self, o):
        if isinstance(o, Mat): return Ten(fun('times', 'Ten', 'Mat', 'Ten')(self.t, o.t))
        return NotImplemented
    def __add__(self, o): raise Unsupported('sum of tensors outside reduce')


class Mat(AVal):
    """Reduction matrix"""
    sort = 'Mat'
    def mult(self, x, y): y.t = fun('mult', 'Mat', 'Ten', 'Ten')(self.t, x.t)
    def transpmult(self, x, y): y.t = fun('transpmult', 'Mat', 'Ten', 'Ten')(self.t, x.t)


class MatT(object):
    def __init__(self, A): self.A = A

    def __mul__(self, o):
        if isinstance(o, Ten): return Ten(fun('Ttimes', 'Mat', 'Ten', 'Ten')(self.A.t, o.t))
        return NotImplemented


class Arg(object): pass


class Function(object):
    """df.Function(W): a new function with zero dofs"""
    def __new__(cls, V, *a):
        if a: raise Unsupported('function with given dofs')
        self = object.__new__(cls)
        self.V, self.x = V, Ten(z3.Const('zero', sort('Ten')))
        return self
    def vector(self): return self.x
    @property
    def t(self): return fun('function_of', 'V', 'Ten', 'Term')(self.V.t, self.x.t)


class Term(AVal):
    """Terminal of an expression; kind 0: test function, 1: trial function, 2: function, 3: other"""
    sort = 'Term'
    @property
    def kind(self): return fun('kind', 'Term', 'Int')(self.t)

    def __vc_isinstance__(self, cls):
        if cls is Arg: return SBool(self.kind < 2)
        if cls is Function: return SBool(self.kind == 2)
        raise Unsupported('isinstance %s' % cls)
    def number(self): return SNum(self.kind)
    def vector(self): return Ten(fun('dofs', 'Term', 'Ten')(self.t))
    def function_space(self): return V(fun('space', 'Term', 'V')(self.t))
    ufl_function_space = function_space


class V(AVal): sort = 'V'
class Mesh(AVal): sort = 'Mesh'
class Data(AVal): sort = 'Data'


class Expr(AVal):
    sort = 'Expr'


class Replaced(object):
    """The replacement may be changed before the form is assembled"""
    def __init__(self, x, t, new): self.x, self.tt, self.new = x, t, new
    @property
    def t(self): return fun('subst', 'Expr', 'Term', 'Term', 'Expr')(self.x.t, self.tt.t, self.new.t)


class Integral(AVal):
    sort = 'Integral'
    def ufl_domain(self): return types.SimpleNamespace(ufl_cargo=lambda: Mesh(fun('mesh', 'Integral', 'Mesh')(self.t)))
    def integrand(self): return Expr(fun('integrand', 'Integral', 'Expr')(self.t))

    def reconstruct(self, integrand=None):
        if integrand is None: return self
        return Rebuilt(self, integrand)


class Rebuilt(object):
    def __init__(self, I, X): self.I, self.X = I, X
    @property
    def t(self): return fun('with_integrand', 'Integral', 'Expr', 'Integral')(self.I.t, self.X.t)


class Form(object):
    def __init__(self, integrals):
        self.parts = integrals
    def integrals(self): return self.parts


class Selected(object):
    """The integrals the assembler handles"""
    def __init__(self, some): self.some = some
    def __bool__(self): return self.some
    def __contains__(self, I): return bool(SBool(fun('selected', 'Integral', 'Bool')(I.t)))


M = lambda t: fun('M', 'Integral', 'Ten')(t)


class Summed(object):
    def __init__(self, items): self.items = items


def template(e, arity):
    """The module with the contracts of its callees"""
    def assemble(form):
        s = seq(form.integrals())
        if not isinstance(s.n, int) or s.n != 1: raise Unsupported('several integrals assembled at once')
        return Ten(M(s.get(0).t))

    def replace(x, t, new, attributes=None):
        e.prove(z3.BoolVal(attributes == ('mark_', )), 'requires of replace: the attributes of the reduction tell terminals apart')
        return Replaced(x, t, new)

    def is_kind(k):
        return lambda t: SBool(t.kind == k)

    def terminals(x):
        # candidates of the integral
        return VList([Term(fun('terminal%d' % j, 'Expr', 'Term')(x.t)) for j in range(2)])
    testf = lambda W: types.SimpleNamespace(t=fun('test_of', 'V', 'Term')(W.t))
    trialf = lambda W: types.SimpleNamespace(t=fun('trial_of', 'V', 'Term')(W.t))
    utils = R.stub('xii.assembler.ufl_utils', replace=replace, is_test_function=is_kind(0), is_trial_function=is_kind(1), Argument=Arg)
    dolfin = dict(TestFunction=testf, TrialFunction=trialf, Function=Function, info=lambda *a: None,
                  Timer=lambda *a: types.SimpleNamespace(stop=lambda: 0., start=lambda: None))
    xa = R.stub('xii.assembler.xii_assembly', assemble=assemble)
    stubs = {'xii.assembler.ufl_utils': utils, 'xii.assembler.trace_form': R.stub('xii.assembler.trace_form'), 'xii.assembler.xii_assembly': xa,
             'ufl_legacy.corealg.traversal': R.stub('t', traverse_unique_terminals=terminals, traverse_terminals=terminals),
             'ufl_legacy.algorithms.transformer': R.stub('t', ufl2uflcopy=lambda x: x), 'ufl_legacy.form': R.stub('f', Form=Form),
             'block': R.stub('block', block_transpose=MatT), 'xii.linalg.convert': R.stub('c', convert=lambda x: x)}
    w = lm.world(dolfin=dolfin, stubs=stubs)
    m = w.load(RA)
    pkg = w.modules.get('xii') or m.__dict__.get('xii')
    add = __import__('operator').add

    def reduce(f, items, *init):
        if f is not add or init: raise Unsupported('sum of the components in another way')
        return Summed(seq(items))
    m.reduce = reduce
    return m, terminals


def operator_methods(e, m, arity, terminals):
    """The abstract methods of the assembler by uninterpreted functions: the template must pass on the right things"""
    red = fun('reduced', 'V', 'Mesh', 'Data', 'V')
    mat = fun('matrix', 'V', 'V', 'Mesh', 'Data', 'Mat')
    dom, dat = fun('domain', 'Term', 'V'), fun('data', 'Term', 'Data')
    compatible = fun('marked_for', 'Term', 'Mesh', 'Bool')
    candidate = fun('candidate', 'Term', 'Mesh', 'Bool')

    class A(m.ReducedFormAssembler):
        attributes = ('mark_', )
        def select_integrals(self, form): return form.selected

        def restriction_filter(self, ts, mesh):
            ts = list(ts)
            return VList([t for t in ts if bool(SBool(candidate(t.t, mesh.t)))])
        def is_compatible(self, t, mesh): return SBool(compatible(t.t, mesh.t))
        def reduction_matrix_data(self, t): return Data(dat(t.t))
        def domain_space(self, t): return V(dom(t.t))
        def reduced_space(self, V_, mesh, data=None): return V(red(V_.t, mesh.t, data.t))
        def reduction_matrix(self, V_, W, mesh, data): return Mat(mat(V_.t, W.t, mesh.t, data.t))

    def axioms(I):
        """Requires and meaning for the terminals of integral I"""
        X = fun('integrand', 'Integral', 'Expr')(I)
        mesh = fun('mesh', 'Integral', 'Mesh')(I)
        out = []
        ok = []
        for j in range(2):
            t = fun('terminal%d' % j, 'Expr', 'Term')(X)
            k = fun('kind', 'Term', 'Int')(t)
            D, W0 = dat(t), dom(t)
            W = red(W0, mesh, D)
            T = mat(W0, W, mesh, D)
            new = lambda r: M(fun('with_integrand', 'Integral', 'Expr', 'Integral')(I, fun('subst', 'Expr', 'Term', 'Term', 'Expr')(X, t, r)))
            b = new(fun('test_of', 'V', 'Term')(W))
            left = fun('Ttimes', 'Mat', 'Ten', 'Ten')(T, b) if arity == 2 else fun('transpmult', 'Mat', 'Ten', 'Ten')(T, b)
            right = fun('times', 'Ten', 'Mat', 'Ten')(new(fun('trial_of', 'V', 'Term')(W)), T)
            x = fun('mult', 'Mat', 'Ten', 'Ten')(T, fun('dofs', 'Term', 'Ten')(t))
            coef = new(fun('function_of', 'V', 'Ten', 'Term')(W, x))
            good = z3.And(candidate(t, mesh), compatible(t, mesh))
            ok.append(good)
            out.append(z3.Implies(good, z3.And(k >= (0 if arity else 2), k <= 2, k != (9 if arity == 2 else 1),
                                               M(I) == z3.If(k == 0, left, z3.If(k == 1, right, coef)))))
        return z3.And(z3.Implies(fun('selected', 'Integral', 'Bool')(I), z3.Or(ok)), *out)
    return A(), axioms


def forms(arity):
    def fn(e):
        m, terminals = template(e, arity)
        a, axioms = operator_methods(e, m, arity, terminals)
        n = Int('n', 1)
        Is, I = indexed(Integral, 'integral', n)
        k = z3.Int(e.fresh_name('k'))
        e.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n.e), axioms(I(k))), patterns=[I(k)]))
        f = Form(VList(Is))
        handled = e.choose(2) == 0
        f.selected = Selected(handled)
        r = a.assemble(f, arity)
        if not handled: return e.prove(z3.BoolVal(r is None), 'ensures None: not for this assembler')
        if r is None: return e.fail('ensures the form is assembled')
        if not isinstance(r, Summed): raise Unsupported('result of an unknown kind')
        e.prove(zz(r.items.n) == n.e, 'ensures one summand for each integral')
        q = some(n)
        e.prove(r.items.get(q).t == M(I(q.e)), 'ensures summand k is the meaning of integral k')
    fn.__name__ = 'sum_of_integrals_arity_%d' % arity
    return fn


for _a in (0, 1, 2):
    contract('C13', RA + ':ReducedFormAssembler.assemble', assumes=ASSUME, bounded='two candidates among the terminals of an integral (any number of integrals)')(forms(_a))


# ------------------------------------------------------------------ operators: selection, data, spaces
class Terminal(object): pass


class Cell(object):
    NAMES = {1: 'interval', 2: 'triangle', 3: 'tetrahedron'}

    def __init__(self, name, gdim=None):
        self.name = name
        self.tdim = {v: k for k, v in Cell.NAMES.items()}[name]
        self.gdim = self.tdim if gdim is None else gdim
    def cellname(self): return self.name
    def topological_dimension(self): return self.tdim
    def geometric_dimension(self): return self.gdim
    def __eq__(self, o): return isinstance(o, Cell) and self.name == o.name and (self.gdim == o.gdim)
    __hash__ = None


class Elem(object):
    rank = None
    def family(self): return self.fam
    def degree(self): return self.deg
    def cell(self): return self.c
    def value_size(self):
        n = 1
        for d in self.value_shape(): n = n * d
        return n
    def __repr__(self): return '%s(%s, %s)' % (type(self).__name__, self.fam, self.deg)


class FiniteElement(Elem):
    def __init__(self, family, cell, degree): self.fam, self.c, self.deg = FAM.get(family, family), cell, degree
    def value_shape(self): return (self.c.gdim, ) if self.fam in ('Raviart-Thomas', 'Nedelec 1st kind H(curl)') else ()
    def __eq__(self, o): return type(o) is type(self) and bool(self.fam == o.fam) and self.c == o.c and bool(self.deg == o.deg)
    __hash__ = None


class VectorElement(Elem):
    def __init__(self, family, cell=None, degree=None, dim=None):
        if isinstance(family, Elem): family, cell, degree = family.fam, family.c, family.deg
        self.fam, self.c, self.deg = FAM.get(family, family), cell, degree
        self.dim = cell.gdim if dim is None else dim
    def value_shape(self): return (self.dim, )
    def sub_elements(self): return [FiniteElement(self.fam, self.c, self.deg) for _ in range(self.dim)]
    def num_sub_elements(self): return self.dim
    __eq__, __hash__ = FiniteElement.__eq__, None


class TensorElement(Elem):
    def __init__(self, family, cell=None, degree=None, shape=None):
        self.fam, self.c, self.deg = FAM.get(family, family), cell, degree
        self.shape = (cell.gdim, ) * 2 if shape is None else shape
    def value_shape(self): return tuple(self.shape)
    __eq__, __hash__ = FiniteElement.__eq__, None


class MixedElement(Elem):
    def __init__(self, subs): self.subs = list(subs); self.fam = 'Mixed'
    def sub_elements(self): return self.subs
    def cell(self): return self.subs[0].cell()
    def value_shape(self): return (sum(max(1, len(s.value_shape())) for s in self.subs), )
    @property
    def deg(self): raise Unsupported('degree of a mixed element')


FAM = {'CG': 'Lagrange', 'DG': 'Discontinuous Lagrange', 'P': 'Lagrange', 'R': 'Real'}


class TMesh(object):
    def __init__(self, cell, **kw):
        self.cell, self.n = cell, next(eng().serial)
        self.__dict__.update(kw)
    def ufl_cell(self): return self.cell
    def id(self): return self.n
    def topology(self): return types.SimpleNamespace(dim=lambda: self.cell.tdim)
    def ufl_cargo(self): return self
    def num_cells(self): return Int('cells', 1)
    def geometry(self): return types.SimpleNamespace(dim=lambda: self.cell.gdim)
    def data(self):
        def array(*a): raise RuntimeError('no data')
        return types.SimpleNamespace(array=array)


class Space(object):
    def __init__(self, mesh, elm, degree=None):
        if not isinstance(elm, Elem): elm = FiniteElement(elm, mesh.cell, degree)
        self.m, self.e = mesh, elm
    def mesh(self): return self.m
    def ufl_element(self): return self.e
    def ufl_cell(self): return self.m.cell


def VSpace(mesh, family, degree, dim=None): return Space(mesh, VectorElement(family, mesh.cell, degree, dim))
def TSpace(mesh, family, degree, shape=None): return Space(mesh, TensorElement(family, mesh.cell, degree, shape))


class Thing(Terminal):
    """Terminal with a space (mesh None: a constant)"""
    def __init__(self, W):
        self.W = W
        self.ufl_shape = () if W is None else W.ufl_element().value_shape()
    def ufl_domain(self):
        if self.W is None: return None
        return types.SimpleNamespace(ufl_cell=lambda: self.W.ufl_cell(), ufl_cargo=lambda: self.W.mesh())
    def function_space(self): return self.W
    ufl_function_space = function_space
    def ufl_element(self): return self.W.ufl_element()
    @property
    def ufl_operands(self): return ()


class TArg(Thing):
    def __init__(self, W, k):
        Thing.__init__(self, W)
        self.k = k
    def number(self): return self.k


class TFun(Thing):
    def __init__(self, W, x=None):
        Thing.__init__(self, W)
        self.x = object() if x is None else x
    def vector(self): return self.x


class TIntegral(object):
    def __init__(self, mesh, terminals, kind='cell'): self.mesh, self.ts, self.kind = mesh, terminals, kind
    def ufl_domain(self): return types.SimpleNamespace(ufl_cargo=lambda: self.mesh, ufl_cell=lambda: self.mesh.cell)
    def integral_type(self): return self.kind
    def integrand(self): return types.SimpleNamespace(ts=self.ts)


# attribute, data of the matrix (key: key of the mark), name of the matrix function, codimension, is the mesh of the mark that of the integral
class Kind(object):
    def __init__(self, name, mark, maker, cls, attr, mat, codim, data=(), mesh_in='mesh'):
        self.name, self.mark, self.maker, self.cls, self.attr, self.mat, self.codim, self.data, self.mesh_in = name, mark, maker, cls, attr, mat, codim, data, mesh_in


def operator_world(kind, calls):
    def matrix(V_, W, reduced_mesh=None, data=None, tag_data=None):
        calls.append((V_, W, reduced_mesh, data))
        return calls
    tr = lambda x: VList(x.ts)
    ufl = types.SimpleNamespace(Coefficient=TFun, Cell=Cell, VectorElement=VectorElement, TensorElement=TensorElement, FiniteElement=FiniteElement,
                                MixedElement=MixedElement)
    fsp = Space
    dolfin = dict(TestFunction=lambda W: TArg(W, 0), TrialFunction=lambda W: TArg(W, 1), Function=TFun, FunctionSpace=fsp, VectorFunctionSpace=VSpace,
                  TensorFunctionSpace=TSpace, FiniteElement=FiniteElement, VectorElement=VectorElement, TensorElement=TensorElement,
                  MixedElement=MixedElement, MeshFunction=lambda *a: types.SimpleNamespace(array=lambda: [a[-1]]), info=lambda *a: None)
    mats = {'xii.assembler.%s_matrix' % kind.name: R.stub('m', **{kind.mat: matrix})}
    stubs = {'dolfin.function.argument': R.stub('a', Argument=TArg), 'ufl_legacy.core.terminal': R.stub('t', Terminal=Terminal),
             'ufl_legacy.corealg.traversal': R.stub('t', traverse_unique_terminals=tr), 'ufl_legacy': ufl, 'ufl_legacy.form': R.stub('f', Form=Form),
             'ufl_legacy.algorithms.transformer': R.stub('t', ufl2uflcopy=lambda x: x), 'block': R.stub('block', block_transpose=MatT),
             'xii.linalg.convert': R.stub('c', convert=None), 'xii.linalg.matrix_utils': R.stub('c', is_number=lambda x: isinstance(x, (int, float, SNum))),
             'xii.meshing.subdomain_mesh': R.stub('s', SubDomainMesh=TMesh), 'xii.assembler.xii_assembly': R.stub('x', assemble=None)}
    stubs.update(mats)
    w = lm.world(dolfin=dolfin, stubs=stubs)
    np = w.stubs['numpy']
    np.unique = lambda x: x
    for k in ('int32', 'int64', 'uint32', 'uint64'): np.__dict__[k] = type(k, (object, ), {})
    return w


def cells(codim, e, up=False):
    """Cell of the function's mesh and that of the integral"""
    tops = [d for d in (1, 2, 3) if 1 <= d - codim <= 3]
    if not tops: raise Unsupported('cells')
    d = tops[e.choose(len(tops))]
    g = max(d, d - codim)
    return Cell(Cell.NAMES[d], g), Cell(Cell.NAMES[d - codim], g)


def element(e, cell, scalar=False):
    deg = Int('degree', 1)
    k = 0 if scalar else e.choose(4)
    if k == 0: return FiniteElement('Lagrange', cell, deg)
    # default shape or another one
    if k == 1: return VectorElement('Lagrange', cell, deg, *[(), (cell.gdim + 2, )][e.choose(2)])
    if k == 2: return TensorElement('Lagrange', cell, deg, *[(), ((cell.gdim + 1, 2), )][e.choose(2)])
    return FiniteElement('Raviart-Thomas', cell, deg) if cell.tdim == cell.gdim and cell.tdim > 1 else FiniteElement('Lagrange', cell, deg)


TRACE = Kind('trace', lambda t: {'type': '', 'mesh': None, 'normal': None, 'tag': ('f', {1})}, 'Trace', 'TraceFormAssembler', 'trace_', 'trace_mat', 1)
KINDS = [
    Kind('trace', {}, 'Trace', 'TraceFormAssembler', 'trace_', 'trace_mat', 1, {'restriction': 'type', 'tag_data': 'tag', 'normal': 'normal'}),
    Kind('average', {}, 'Average', 'AverageFormAssembler', 'average_', 'avg_mat', 2, {'shape': 'shape'}),
    Kind('flux_average', {}, 'FluxAverage', 'FluxAverageFormAssembler', 'flux_average_', 'flux_avg_mat', 2, {'shape': 'shape'}),
    Kind('patch_average', {}, 'CellPatchAverage', 'PatchAverageFormAssembler', 'patch_average_', 'patch_avg_mat', 1,
         {'vertex_f': 'vertex_f', 'patch_f': 'patch_f', 'patch_coloring': 'patch_coloring'}, None),
    Kind('mean', {}, 'Mean', 'MeanFormAssembler', 'mean_', 'mean_mat', 0, {'weight': 'weight', 'measure': 'measure'}, None),
    Kind('surface_mean', {}, 'SurfaceMean', 'SurfaceMeanFormAssembler', 'surface_mean_', 'surface_mean_mat', 1, {}),
    Kind('point_trace', {}, 'PointTrace', 'PointTraceFormAssembler', 'dirac_', 'point_trace_mat', 0, {'point': 'point', 'cell': 'cell'}, None),
    Kind('gradient_point_trace', {}, 'GradientPointTrace', 'GradientPointTraceFormAssembler', 'grad_dirac_', 'gradient_point_trace_mat', 0,
         {'point': 'point', 'cell': 'cell', 'tangent': 'tangent'}, None),
    Kind('restriction', {}, 'Restriction', 'RestrictionFormAssembler', 'restriction_', 'restriction_mat', 0, {}),
    Kind('injection', {}, 'Injection', 'InjectionFormAssembler', 'injection_', 'injection_matrix', 0, {'not_nested_method': 'not_nested_method'}),
    Kind('transpose_trace', {}, 'TransposeTrace', 'TransposeTraceFormAssembler', 'transpose_trace_', 'transpose_trace_mat', -1,
         {'trace_mesh': 'trace_mesh', 'full_mesh': 'full_mesh'}, 'full_mesh'),
]


def setting(e, kind):
    """Meshes, and maker of marked terminals (by the real annotation)"""
    calls = []
    w = operator_world(kind, calls)
    f = w.load('xii.assembler.%s_form' % kind.name)
    top, low = cells(kind.codim, e)
    if kind.name == 'patch_average': top, low = [(Cell('triangle', 2), Cell('interval', 2)), (Cell('tetrahedron', 3), Cell('interval', 3))][e.choose(2)]
    omega = TMesh(top)
    gamma = TMesh(low) if kind.name not in ('mean', 'point_trace', 'gradient_point_trace') else omega
    if kind.name in ('surface_mean', 'trace') and top.tdim == 1: raise Unsupported('cell')
    make, opts = f.__dict__[kind.maker], {}
    scalar = kind.name not in ('trace', 'average', 'restriction', 'injection', 'point_trace')
    if kind.name == 'flux_average': elm = VectorElement('Lagrange', top, Int('degree', 1)) if e.choose(2) else FiniteElement('Raviart-Thomas', top, Int('degree', 1))
    elif kind.name == 'point_trace': elm = [FiniteElement, VectorElement, TensorElement][e.choose(3)]('Discontinuous Lagrange', top, Int('degree', 1))
    else: elm = element(e, top, scalar)
    W = Space(omega, elm)
    o = lambda: types.SimpleNamespace()
    if kind.name == 'trace':
        r = ['', '+', '-', 'jump', 'avg'][e.choose(5)]
        n = o() if r else None
        opts = dict(restriction=r, normal=n)
        mark = lambda v: make(v, gamma, **opts)
        want = dict(restriction=r, normal=n)
    elif kind.name in ('average', 'flux_average'):
        s = o()
        mark, want = lambda v: make(v, gamma, s), dict(shape=s)
    elif kind.name == 'patch_average':
        vf, pf, pc = TFun(Space(gamma, FiniteElement('Lagrange', low, 1))), types.SimpleNamespace(mesh=lambda: omega, dim=lambda: top.tdim), o()
        mark, want = lambda v: make(v, vf, pf, pc), dict(vertex_f=vf, patch_f=pf, patch_coloring=pc)
    elif kind.name == 'mean':
        a, b = o(), o()
        mark, want = lambda v: make(v, weight=a, measure=b), dict(weight=a, measure=b)
    elif kind.name in ('point_trace', 'gradient_point_trace'):
        p, c, t = Int('point', 0), Int('cell', 0), o()
        want = dict(point=p, cell=c)
        if kind.name == 'point_trace': mark = lambda v: make(v, p, c)
        else:
            want['tangent'] = t
            mark = lambda v: make(v, p, c, t)
    elif kind.name == 'injection':
        how = ['interpolate', 'project'][e.choose(2)]
        mark, want = lambda v: make(v, gamma, how), dict(not_nested_method=how)
    elif kind.name == 'transpose_trace':
        omega.parent_entity_map = {gamma.id(): {}}
        omega.parent_meshes = (gamma, )
        full = gamma if e.choose(2) else None
        mark, want = lambda v: make(v, omega, full), dict(trace_mesh=omega, full_mesh=gamma)
    else:
        mark, want = lambda v: make(v, gamma), {}
    return w, f, calls, omega, gamma, W, mark, want


def terminal(e, W): return [lambda: TArg(W, 0), lambda: TArg(W, 1), lambda: TFun(W)][e.choose(3)]()


def same(a, b):
    r = (a == b) if isinstance(a, (SNum, SBool)) else (a is b or isinstance(a, str) and a == b)
    return as_bool(r) if isinstance(r, (SBool, bool)) else z3.BoolVal(bool(r))


def annotation(kind):
    def fn(e):
        w, f, calls, omega, gamma, W, mark, want = setting(e, kind)
        v = terminal(e, W)
        if kind.name == 'flux_average' and isinstance(v, TFun): return e.prove(z3.BoolVal(True), 'not allowed')
        before = dict(v.__dict__)
        t = mark(v)
        e.prove(z3.BoolVal(t is not v and v.__dict__ == before), 'ensures the argument itself is not marked')
        e.prove(z3.BoolVal(type(t) is type(v) and getattr(t, 'k', 2) == getattr(v, 'k', 2)), 'ensures test, trial or function as before')
        if kind.name == 'flux_average': e.prove(z3.BoolVal(t.W.mesh() is omega and t.flux_average_['domain'] is W), 'ensures space of v is kept for the flux')
        else: e.prove(z3.BoolVal(t.W is W), 'ensures the space of v')
        if isinstance(v, TFun): e.prove(z3.BoolVal(t.x is v.x), 'ensures the vector of dofs is shared')
        e.prove(z3.BoolVal(hasattr(t, kind.attr)), 'ensures marked for the operator')
        # matrix of the operator with its data
        A = w.load('xii.assembler.%s_assembly' % kind.name).__dict__[kind.cls]()
        data = A.reduction_matrix_data(t)
        V0 = A.domain_space(t)
        e.prove(z3.BoolVal(V0 is W), 'ensures domain of the reduction is the space of v')
        TV = A.reduced_space(V0, gamma, data)
        r = A.reduction_matrix(V0, TV, gamma, data)
        e.prove(z3.BoolVal(len(calls) == 1 and r is calls), 'ensures matrix of the operator')
        V1, TV1, mesh, d = calls[0]
        e.prove(z3.BoolVal(V1 is W and TV1 is TV), 'ensures matrix from the space of v to the reduced space')
        e.prove(z3.BoolVal(mesh is (omega if kind.name == 'transpose_trace' else gamma)), 'ensures matrix on the reduced mesh')
        if kind.name != 'transpose_trace':
            for key, x in want.items():
                e.prove(same(d[key], x), 'ensures data %s of the matrix' % key)
        reduced_space(e, kind, W, TV, gamma, want)
    fn.__name__ = 'annotation_and_matrix_of_' + kind.name
    return fn


def reduced_space(e, kind, W, TV, gamma, want):
    """Space of reduced functions"""
    E0, E1 = W.ufl_element(), TV.ufl_element()
    if kind.name == 'patch_average': return e.prove(z3.BoolVal(TV is want['vertex_f'].function_space()), 'ensures space of the vertex function')
    e.prove(z3.BoolVal(TV.mesh() is gamma), 'ensures reduced space lives on the reduced mesh')
    if kind.name in ('mean', 'surface_mean', 'point_trace', 'gradient_point_trace'):
        e.prove(z3.BoolVal(E1.family() == 'Real'), 'ensures numbers')
        return e.prove(z3.BoolVal(E1.value_shape() == E0.value_shape()), 'ensures value shape')
    shape = () if kind.name == 'flux_average' else E0.value_shape()
    e.prove(z3.BoolVal(E1.value_shape() == shape), 'ensures value shape')
    e.prove(same(E1.degree(), E0.degree()), 'ensures degree')
    if kind.name in ('restriction', 'injection', 'transpose_trace'): e.prove(z3.BoolVal(E1.family() == E0.family()), 'ensures family')
    else: e.prove(z3.BoolVal(E1.family() == 'Discontinuous Lagrange'), 'ensures discontinuous functions')
    if kind.name == 'restriction': e.prove(z3.BoolVal(type(E1) is type(E0)), 'ensures the same element')


def selection(kind):
    def fn(e):
        w, f, calls, omega, gamma, W, mark, want = setting(e, kind)
        A = w.load('xii.assembler.%s_assembly' % kind.name).__dict__[kind.cls]()
        Q = Space(gamma, FiniteElement('Lagrange', gamma.cell, 1))
        plain = [TArg(Q, 0), TFun(Q), Thing(None)]
        marked = [mark(TArg(W, 1))]
        if kind.name != 'flux_average': marked.append(mark(TFun(W)))
        which = e.choose(4)            # marked terminals: none, first, second, both
        ms = {0: [], 1: marked[:1], 2: marked[-1:], 3: marked}[which]
        ts = [plain[0]] + ms + plain[1:] if e.choose(2) else ms + plain
        other = TIntegral(TMesh(W.ufl_cell()), [Thing(None)])
        I = TIntegral(gamma, ts)
        form = Form([other, I])
        got = list(A.select_integrals(form))
        e.prove(z3.BoolVal(all(x is I for x in got) and len(got) == (1 if ms else 0)), 'ensures the integrals with marked terminals are selected')
        if not ms: return
        cand = list(A.restriction_filter(R.v_set(VList(ts)), gamma))
        e.prove(z3.BoolVal(len(cand) == len(ms) and all(any(x is y for y in ms) for x in cand)), 'ensures the marked terminals are reduced')
        e.prove(z3.BoolVal(all(bool(A.is_compatible(x, gamma)) for x in cand)), 'ensures marked terminals are compatible')
    fn.__name__ = 'selection_for_' + kind.name
    return fn


for _k in KINDS:
    contract('C13', *['xii.assembler.%s_form:%s' % (_k.name, x) for x in (_k.maker, )] + ['xii.assembler.%s_assembly:%s.*' % (_k.name, _k.cls)], assumes=ASSUME,
             bounded='scalar, vector, tensor and H(div) elements of any degree on simplices')(annotation(_k))
    contract('C13', 'xii.assembler.%s_form:%s_integrals' % (_k.name, _k.name), 'xii.assembler.%s_assembly:%s.*' % (_k.name, _k.cls), assumes=ASSUME,
             bounded='at most 2 marked terminals')(selection(_k))


# ------------------------------------------------------------------ expressions: induction over the structure
UU = 'xii.assembler.ufl_utils'
UASSUME = ['UFL: operators have at least one operand and terminals have none; == of terminals is an equivalence; building an operator of the '
           'type of another one from operands gives that operator applied to them']


class Attr(AVal): sort = 'Attr'


class Node(AVal):
    """UFL expression"""
    sort = 'Node'
    TERM = property(lambda self: fun('is_terminal', 'Node', 'Bool')(self.t))
    CLS = property(lambda self: fun('eq_class', 'Node', 'Int')(self.t))
    N = property(lambda self: fun('n_operands', 'Node', 'Int')(self.t))

    def __eq__(self, o): return SBool(self.CLS == o.CLS) if isinstance(o, Node) else False
    __hash__ = None
    def __vc_isinstance__(self, cls):
        if cls is Terminal: return SBool(self.TERM)
        if isinstance(cls, TypeOf): return SBool(self.TYPE == cls.x.TYPE)
        raise Unsupported('isinstance %s' % (cls, ))
    TYPE = property(lambda self: fun('type_of', 'Node', 'Int')(self.t))
    def __vc_type__(self): return TypeOf(self)

    @property
    def ufl_operands(self):
        eng().axiom(z3.And(self.N >= 0, self.TERM == (self.N == 0)))
        return VList(SymSeq(SNum(self.N), lambda k: Node(fun('operand', 'Node', 'Int', 'Node')(self.t, zz(k)))))
    def op(self, k): return fun('operand', 'Node', 'Int', 'Node')(self.t, zz(k))
    def __vc_hasattr__(self, a): return SBool(fun('has_' + a, 'Node', 'Bool')(self.t))

    def __getattr__(self, a):
        if a in ('mark_', 'mark2_'): return Attr(fun('value_' + a, 'Node', 'Attr')(self.t))
        raise AttributeError(a)


class TypeOf(object):
    def __init__(self, x): self.x = x
    def __eq__(self, o): return SBool(self.x.TYPE == o.x.TYPE) if isinstance(o, TypeOf) else False
    __hash__ = object.__hash__
    def __vc_star__(self, items): return Built(self.x, seq(items))
    def __call__(self, *items): return Built(self.x, const_seq(items))


class Built(object):
    def __init__(self, x, items): self.x, self.items = x, items


def utils(e, eager=()):
    w = lm.world(dolfin=dict(), stubs={'dolfin.function.argument': R.stub('a', Argument=TArg), 'ufl_legacy.core.terminal': R.stub('t', Terminal=Terminal)})
    w.eager = {(UU, f) for f in eager}
    return w.load(UU)


def equal(x, a, attributes):
    """x and a are the same terminal, with the same attributes"""
    c = [x.TERM, a.TERM, x.CLS == a.CLS]
    for k in attributes or ():
        c += [fun('has_' + k, 'Node', 'Bool')(x.t), fun('has_' + k, 'Node', 'Bool')(a.t),
              fun('value_' + k, 'Node', 'Attr')(x.t) == fun('value_' + k, 'Node', 'Attr')(a.t)]
    return z3.And(c)


ATTRS = (None, ('mark_', ), ('mark_', 'mark2_'))


@contract('C13', UU + ':is_equal_terminal', assumes=UASSUME, bounded='up to two attributes')
def terminals_with_attributes(e):
    m = utils(e)
    x, y, at = Node('x'), Node('y'), ATTRS[e.choose(3)]
    r = m.is_equal_terminal(x, y, attributes=at)
    e.prove(as_bool(r) == equal(x, y, at), 'ensures equality with the attributes')


@contract('C13', UU + ':matches', assumes=UASSUME)
def matching_expressions(e):
    """Induction over the structure"""
    m = utils(e)
    x, y, at = Node('x'), Node('y'), ATTRS[e.choose(2)]
    same_ = fun('same_expression', 'Node', 'Node', 'Bool')       # contract for attributes None
    real = m.matches

    def callee(a, b, attributes=None):
        e.prove(z3.BoolVal(not attributes), 'requires (only standard equality below the root)')
        return SBool(same_(a.t, b.t))
    m.matches = callee
    ox, oy = x.ufl_operands, y.ufl_operands
    r = as_bool(real(x, y, at))
    if SBool(z3.And(x.TERM, y.TERM)): return e.prove(r == equal(x, y, at), 'ensures equality of terminals')
    if SBool(z3.Or(x.TERM, y.TERM)): return e.prove(z3.Not(r), 'ensures a terminal is not an operator')
    k = z3.Int(e.fresh_name('k'))
    each = z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < x.N), same_(x.op(SNum(k)), y.op(SNum(k)))))
    e.prove(z3.Implies(r, z3.And(x.TYPE == y.TYPE, x.N == y.N)), 'ensures operators of the same type and number of operands')
    q = some(SNum(x.N))
    e.prove(z3.Implies(r, same_(x.op(q), y.op(q))), 'ensures operands match')
    e.prove(z3.Implies(z3.And(x.TYPE == y.TYPE, x.N == y.N, each), r), 'ensures operators of matching operands match')


P = lambda: fun('P', 'Node', 'Bool')
ANY = lambda t: fun('some_node', 'Node', 'Bool')(t)


def nodes(x, e):
    """Contract of traverse: the nodes of x; some node has P iff x has it or some node of an operand of x"""
    L, item = fun('n_nodes', 'Node', 'Int'), fun('node', 'Node', 'Int', 'Node')
    j, n = z3.Int('j'), z3.Const('n', x.t.sort())
    w = fun('witness', 'Node', 'Int')
    e.axiom(z3.ForAll([n], L(n) >= 1, patterns=[L(n)]))
    e.axiom(z3.ForAll([n, j], z3.Implies(z3.And(j >= 0, j < L(n), P()(item(n, j))), ANY(n)), patterns=[item(n, j)]))
    e.axiom(z3.ForAll([n], z3.Implies(ANY(n), z3.And(w(n) >= 0, w(n) < L(n), P()(item(n, w(n))))), patterns=[ANY(n)]))
    return VList(SymSeq(SNum(L(x.t)), lambda k: Node(item(x.t, zz(k)))))


@contract('C13', UU + ':traverse', assumes=UASSUME)
def nodes_of_an_expression(e):
    """Induction over the structure, for an arbitrary property P of nodes"""
    m = utils(e, ('traverse', ))
    x = Node('x')
    real = m.traverse
    m.traverse = lambda y: nodes(y, e)
    nodes(Node('other'), e)
    x.ufl_operands
    r = seq(real(x))
    k = z3.Int(e.fresh_name('k'))
    q = some(r.n)
    some_op = z3.Exists([k], z3.And(k >= 0, k < x.N, ANY(x.op(SNum(k)))))
    y = r.get(q)
    e.prove(z3.Implies(P()(y.t), z3.Or(P()(x.t), some_op)), 'ensures every item is a node of the expression')
    e.prove(zz(r.n) >= 1, 'ensures there is a node')
    e.prove(z3.Or(r.get(r.n - 1).t == x.t, r.get(0).t == x.t), 'ensures the expression is an item')


@contract('C13', UU + ':traverse', assumes=UASSUME)
def nodes_of_operands_are_nodes(e):
    m = utils(e, ('traverse', ))
    x = Node('x')
    real = m.traverse
    m.traverse = lambda y: nodes(y, e)
    nodes(Node('other'), e)
    x.ufl_operands
    r = seq(real(x))
    if not (SNum(x.N) > 0): return
    i = some(SNum(x.N))
    o = Node(x.op(i))
    items = seq(nodes(o, e))
    j = some(items.n)
    pre = SymSeq(r.n - 1, r.get)
    # position: after the items of the operands before it, and after the expression itself if that comes first
    at, S = 0, None
    for p in getattr(r, 'parts', (r, )):
        if hasattr(p, 'pieces'):
            S = p.pieces[3]
            break
        at = at + p.n
    if S is None: raise Unsupported('nodes in another order')
    got = r.get(wrap(S(i.e) + j.e) + at)
    e.prove(got.t == items.get(j).t, 'ensures the nodes of an operand are items')


@contract('C13', UU + ':contains', UU + ':traverse_terminals', assumes=UASSUME)
def terminal_in_an_expression(e):
    m = utils(e)
    x, a, at = Node('x'), Node('a'), ATTRS[e.choose(3)]
    e.assume(a.TERM)
    m.traverse = lambda y: nodes(y, e)
    n = z3.Const('n', Node().t.sort())
    e.assume(z3.ForAll([n], P()(n) == equal(Node(n), a, at), patterns=[P()(n)]))
    nodes(x, e)
    e.assume(z3.Implies(x.TERM, ANY(x.t) == P()(x.t)))          # the contract of traverse for a terminal
    r = as_bool(m.contains(x, a, at))
    e.prove(z3.Implies(r, ANY(x.t)), 'ensures True only if some node is the terminal')
    e.prove(z3.Implies(ANY(x.t), r), 'ensures True if some node is the terminal')


@contract('C13', UU + ':replace', assumes=UASSUME)
def substitution(e):
    """Induction over the structure: replace(o) = S(o) for the operands, S(x) = x if no node of x is the terminal"""
    m = utils(e)
    x, a, new, at = Node('x'), Node('a'), Node('new'), ATTRS[e.choose(3)]
    e.assume(a.TERM)
    S = fun('S', 'Node', 'Node')
    real = m.replace
    x.ufl_operands

    def callee(o, b, c, attributes=None):
        e.prove(z3.BoolVal(b is a and c is new and attributes == at), 'recursion with the same terminal, replacement and attributes')
        return Node(S(o.t))
    m.replace = callee
    m.contains = lambda y, b, attributes=None: SBool(ANY(y.t)) if b is a and attributes == at else Bool('other')
    m.matches = lambda y, b, attributes=None: SBool(equal(y, a, at)) if b is a and attributes == at else Bool('other')
    e.assume(z3.Implies(x.TERM, ANY(x.t) == equal(x, a, at)))
    r = real(x, a, new, at)
    if isinstance(r, Built):
        e.prove(z3.Not(x.TERM), 'ensures terminals are not rebuilt')
        e.prove(r.x.TYPE == x.TYPE, 'ensures operator of the same type')
        e.prove(zz(r.items.n) == x.N, 'ensures as many operands')
        q = some(SNum(x.N))
        e.prove(r.items.get(q).t == S(x.op(q)), 'ensures the operands with the terminal replaced')
    else:
        e.prove(r.t == z3.If(z3.And(x.TERM, ANY(x.t)), new.t, x.t), 'ensures replacement of the terminal, other expressions as they are')
        e.prove(z3.Or(x.TERM, z3.Not(ANY(x.t))), 'ensures expressions with the terminal are rebuilt')
