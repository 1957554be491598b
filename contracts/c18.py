"""C18: transfer matrices have in row i the i-th degree of freedom of the target applied to the basis of the source.

restriction_matrix(V, TV, rmesh)   ensures  entry (Tdof(c, l), Vdof(p(c), j)) = dof (c, l) of TV of the j-th basis function of V
                                            on p(c), the cell of the mesh of V which cell c of rmesh comes from; every row once,
                                            all other entries zero
injection_matrix(Vc, Vf, fine, d)  ensures  the same, p(c) being the parent cell of the fine cell c
interpolation_mat(V, Q)            ensures  the same on one mesh, p(c) = c
DegreeOfFreedom / FEBasisFunction  ensures  eval is the functional `dof` of cell `cell` set last
"""
import types
import z3
from vc.contract import contract
from vc.engine import eng, Int, SNum, SBool, SymSeq, VList, zz, wrap, seq, Unsupported, as_bool, subst
from vc import linmodel as lm, runtime as R, rows
from vc.rows import Spec, FESpace, Mesh, world, contract_of
from vc.models import some

RM, IM, PM, FE = ('xii.assembler.' + m for m in ('restriction_matrix', 'injection_matrix', 'interpolation_matrix', 'fem_eval'))
ASSUME = ['dolfin: cell_dofs, evaluate_dofs, evaluate_basis', 'scipy.sparse.csr_matrix adds entries of the same position',
          'PETSc setValues inserts the values at the given places']


class Map(object):
    """Cell of a mesh -> cell of its parent (a dictionary with an item for each cell, in any order)"""
    def __init__(self, mesh, parent, pmesh):
        self.mesh, self.parent, self.pmesh = mesh, parent, pmesh

    def at(self, c):
        p = self.parent(c)
        eng().axiom(z3.Implies(z3.And(c >= 0, c < self.mesh.cells.e), z3.And(p >= 0, p < self.pmesh.cells.e)))
        return SNum(p)

    def __getitem__(self, c):
        eng().prove(z3.And(zz(c) >= 0, zz(c) < self.mesh.cells.e), 'requires of the map: a cell')
        return self.at(zz(c))

    def items(self):
        e = eng()
        n = self.mesh.cells
        key, at = z3.Function(e.fresh_name('key'), z3.IntSort(), z3.IntSort()), z3.Function(e.fresh_name('at'), z3.IntSort(), z3.IntSort())

        def place(k):
            e.axiom(z3.Implies(z3.And(k >= 0, k < n.e), z3.And(at(k) >= 0, at(k) < n.e, key(at(k)) == k)))
            return SNum(at(k))

        def item(k):
            e.axiom(z3.Implies(z3.And(k >= 0, k < n.e), z3.And(key(k) >= 0, key(k) < n.e)))
            return Key(key(k), self), self.at(key(k))
        self.perm = SymSeq(n, lambda k: place(zz(k)), 'array')     # sorts the keys
        return SymSeq(n, lambda k: item(zz(k)))
    def keys(self): raise Unsupported('keys')


class Key(SNum):
    def __init__(self, t, m):
        SNum.__init__(self, t)
        self.m = m
    def __vc_subst__(self, pairs): return Key(subst(SNum(self.e), pairs).e, self.m)


def argsort(x):
    s = seq(x)
    one = s.get(Int('k', 0))
    if not isinstance(one, Key) or not hasattr(one.m, 'perm'): raise Unsupported('argsort')
    return one.m.perm


def element(**kw):
    return types.SimpleNamespace(**kw)


def returned(r, spec, e):
    """The function gave the matrix that was filled"""
    spec.log.finish()
    m = r[1] if isinstance(r, tuple) and r[0] == 'PETScMatrix' else r
    if isinstance(m, rows.Mat): return e.prove(z3.BoolVal(m.done or True), 'ensures the matrix returned is the one filled')
    if isinstance(m, rows.AIJ): return e.prove(z3.BoolVal(m.csr.log is spec.log), 'ensures the matrix returned is the one filled')
    e.fail('ensures the matrix is returned')


def parents(name):
    return z3.Function(eng().fresh_name(name), z3.IntSort(), z3.IntSort())


def _restriction(e):
    pm, rm = Mesh('V', 2, 2), Mesh('T', 2, 2)
    el = element()
    V, T = FESpace('V', pm, el), FESpace('T', rm, el)
    p = parents('parent')
    table = Map(rm, p, pm)

    def edim(d):
        return {2: table}
    rm.parent_entity_map = {pm.id(): {0: None, 2: table}}
    spec = Spec(T, V, lambda c: p(zz(c)))

    def run(spec):
        w = world(e, spec, stubs={'xii.assembler.restriction_assembly': R.stub('ra', restriction_cell=None)}, dolfin=dict(Cell=None))
        m = w.load(RM)
        returned(m.restriction_matrix(V, T, rm), spec, e)
    return spec, run


contract('C18', RM + ':restriction_matrix', assumes=ASSUME, name='restriction_matrix', min_obligations=8)(contract_of(_restriction))


def nodal(e):
    """Element of one of the families"""
    k = e.choose(3)
    fam, deg = [('Lagrange', 1), ('Discontinuous Lagrange', 0), ('Discontinuous Lagrange', 1)][k]
    return element(family=lambda: fam, degree=lambda: deg), k < 2


def _injection(e):
    cm, fm = Mesh('C', 2, 2), Mesh('F', 2, 2)
    el, isnodal = nodal(e)
    C, F = FESpace('C', cm, el), FESpace('F', fm, el)
    p = parents('parent')
    fm.parent_entity_map = {cm.id(): {0: None, 2: Map(fm, p, cm)}}
    spec = Spec(F, C, lambda c: p(zz(c)))
    method = ['interpolate', 'lookup'][e.choose(2)]

    def run(spec):
        made = []
        coll = types.SimpleNamespace(create_transfer_matrix=lambda c, f: made.append((c, f)) or 'transfer')
        w = world(e, spec, dolfin=dict(PETScDMCollection=coll))
        w.stubs['numpy'].__dict__['argsort'] = argsort
        r = w.load(IM).injection_matrix(C, F, fm, {'not_nested_method': method})
        if made:
            e.prove(z3.BoolVal(r == 'transfer' and made == [(C, F)]), 'ensures the transfer matrix of these spaces')
            e.prove(z3.BoolVal(isnodal), 'requires of create_transfer_matrix: dofs are values in points')
            e.prove(z3.BoolVal(method == 'interpolate'), 'ensures the method asked for')
            return
        returned(r, spec, e)
    return spec, run


contract('C18', IM + ':injection_matrix', IM + ':is_nodal', assumes=ASSUME + ['PETScDMCollection.create_transfer_matrix is right for nodal targets'],
         name='injection_matrix', min_obligations=8)(contract_of(_injection))


def _interpolation(e):
    mesh = Mesh('M', 2, 2)
    el = element(value_shape=lambda: ())
    V, Q = FESpace('V', mesh, el), FESpace('Q', mesh, el)
    spec = Spec(Q, V, lambda c: zz(c))

    def run(spec):
        m = world(e, spec).load(PM)
        returned(m.interpolation_mat(V, Q), spec, e)
    return spec, run


contract('C18', PM + ':interpolation_mat', assumes=ASSUME, name='interpolation_mat', min_obligations=8)(contract_of(_interpolation))


# --------------------------------------------------------------- evaluators
class Coords(object):
    """Coordinates of the vertices of a cell: an array that belongs to its owner"""
    def __init__(self, cell): self.cell = cell
    def copy(self): return Coords(self.cell)
    def __setitem__(self, k, v):
        if not (isinstance(k, slice) and k == slice(None)): raise Unsupported('store into a part of the coordinates')
        if not isinstance(v, Coords): raise Unsupported('coordinates')
        self.cell = v.cell
    def __mul__(self, o): raise Unsupported('coordinates changed')


class CellOf(object):
    """dolfin.Cell(mesh, i)"""
    def __init__(self, mesh, i):
        e = eng()
        e.prove(z3.And(zz(i) >= 0, zz(i) < mesh.cells.e), 'requires of Cell: an index of a cell')
        self.mesh_, self.i = mesh, zz(i)
    def get_vertex_coordinates(self): return Coords(self.i)
    def index(self): return SNum(self.i)
    def mesh(self): return self.mesh_
    def orientation(self):
        m = self.mesh_
        eng().prove(z3.BoolVal(not (m.tdim == 1 and m.gdim == 3)), 'requires of orientation: not a line in 3d')
        return SNum(ORIENT(self.i))


ORIENT = z3.Function('orientation', z3.IntSort(), z3.IntSort())
BASIS = z3.Function('basis', z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.RealSort())     # cell, dof, component


class Buffer(object):
    """Array of values of a function"""
    def __init__(self, get): self.get = get
    def __setitem__(self, k, v):
        if not (isinstance(k, slice) and k == slice(None)): raise Unsupported('store into a part of the values')
        g = v.get if isinstance(v, Buffer) else (lambda i: v)
        self.get = g
    def __mul__(self, o):
        g = self.get
        return Buffer(lambda i: g(i)*o)
    __rmul__ = __mul__
    def copy(self): return Buffer(self.get)


def same_cell(e, mesh, x, o, c, want):
    e.prove(z3.BoolVal(isinstance(x, Coords)), 'requires: coordinates of the vertices')
    e.prove(x.cell == want, 'ensures the coordinates are those of the cell set last')
    line = mesh.tdim == 1 and mesh.gdim == 3
    e.prove(zz(o) == (z3.IntVal(0) if line else ORIENT(want)), 'ensures the orientation is that of the cell set last (0 for lines in 3d)')
    if c is not None: e.prove(z3.And(z3.BoolVal(c.mesh_ is mesh), c.i == want), 'ensures the cell is the one set last')


def _evaluator(e, cls):
    tdim, gdim = [(1, 3), (1, 2), (2, 2), (2, 3), (3, 3)][e.choose(5)]
    mesh = Mesh('M', tdim, gdim)
    n = Int('n', 1)
    now = dict(cell=z3.IntVal(0), dof=z3.IntVal(0))
    f = object()

    class Element(object):
        def space_dimension(self): return n
        def evaluate_dofs(self, g, x, o, c):
            e.prove(z3.BoolVal(g is f), 'ensures the dofs of the function given')
            same_cell(e, mesh, x, o, c, now['cell'])
            return SymSeq(n, lambda k: SNum(rows.VAL(now['cell'], zz(k), 0, 0)), 'array')
        def evaluate_basis(self, i, x, coords, o):
            e.prove(z3.BoolVal(x is f), 'ensures the value in the point given')
            e.prove(zz(i) == now['dof'], 'ensures the basis function is the one set last')
            same_cell(e, mesh, coords, o, None, now['cell'])
            c, d = now['cell'], zz(i)
            return Buffer(lambda k: SNum(BASIS(c, d, zz(k))))
    V = types.SimpleNamespace(element=lambda: Element(), mesh=lambda: mesh,
                              ufl_element=lambda: types.SimpleNamespace(value_size=lambda: Int('m', 1)))

    class Expr(object):
        def __init__(self, *a, **k): pass
    np = lm.np_stub()
    np.__dict__.update(zeros=lambda n, **k: Buffer(lambda i: 0.0), empty=lambda n, **k: Buffer(lambda i: 0.0))
    m = lm.world(dolfin=dict(Cell=CellOf, UserExpression=Expr, Function=None), stubs={'numpy': np}).load(FE)
    o = getattr(m, cls)(V)

    def act(tag):
        k = e.choose(3)
        if k == 0: return
        if k == 1:
            c = Int('c' + tag, 0)
            e.assume(c.e < mesh.cells.e)
            o.cell = c
            now['cell'] = c.e
        else:
            d = Int('d' + tag, 0)
            e.assume(d.e < n.e)
            o.dof = d
            now['dof'] = d.e

    def check(o):
        e.prove(zz(o.dof) == now['dof'], 'ensures the dof is the one set last')
        if cls == 'DegreeOfFreedom':
            e.prove(zz(o.eval(f)) == rows.VAL(now['cell'], now['dof'], 0, 0), 'ensures eval is the functional `dof` of the cell')
            k = Int('k', 0)
            e.assume(k.e < n.e)
            e.prove(zz(seq(o.eval_dofs(f)).get(k)) == rows.VAL(now['cell'], k.e, 0, 0), 'ensures eval_dofs are all functionals of the cell')
            return None
        k = Int('k', 0)
        want = BASIS(now['cell'], now['dof'], k.e)
        b = Buffer(None)
        o.eval_cell(b, f, None)
        e.prove(lm.real(b.get(k)) == want, 'ensures eval_cell gives the basis function `dof` of the cell')
        r = o(f)
        e.prove(lm.real(r.get(k)) == want, 'ensures the value is that of the basis function `dof` of the cell')
        return r, k, want
    # any history: the state is (cell, dof) = the last ones set; one more step keeps that
    act('0')
    act('1')
    old = check(o)
    act('2')
    check(o)
    if old:
        r, k, want = old
        e.prove(lm.real(r.get(k)) == want, 'ensures values given before do not change')


@contract('C18', FE + ':DegreeOfFreedom', FE + ':cell_orientation', assumes=['dolfin: evaluate_dofs'], min_obligations=5)
def degree_of_freedom(e): _evaluator(e, 'DegreeOfFreedom')


@contract('C18', FE + ':FEBasisFunction', FE + ':cell_orientation', assumes=['dolfin: evaluate_basis'], min_obligations=5)
def fe_basis_function(e): _evaluator(e, 'FEBasisFunction')
