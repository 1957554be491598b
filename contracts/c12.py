"""C12: averages and point evaluations equal their definition.

scalar_average_matrix(V, TV, shape)   ensures  for every cell c and dof l of TV, at x with the quadrature (P, w) of the shape in x and
average_matrix (vectors, tensors)              the direction of c: row Tdof(c, l) [+ s] is the sum over all k with P_k inside of the mesh
flux_average_matrix                            of w_k/sum(w) * phi_j(P_k)[s], put in the column of the dof j of the cell of P_k
                                               (flux: phi_j(P_k).n_k)
trace_3d1d_matrix                     ensures  row Tdof(c, l) + s is phi_j(x)[s], of a cell around c
point_trace_matrix_DG / CG            ensures  one row (for each component), phi_j(x0) of the cell given or one around x0
gradient_point_trace_matrix_DG        ensures  the row of grad phi_j(x0).tau
mean_mat                              ensures  the row of the integrals of phi_j*weight over the measure
surface_mean_matrix                   ensures  1/area * int of the trace
avg_mat, flux_avg_mat, point_trace_mat, gradient_point_trace_mat, surface_mean_mat   ensures  the right one of these

Contributions to a row are collected in a dictionary whose keys are columns: the law is that each step adds one contribution to
one column, that all are made, and that the items of the dictionary are the row (rows.Acc).
"""
import types
import z3
from vc.contract import contract
from vc.engine import eng, Int, SNum, SBool, SymSeq, VList, zz, wrap, seq, Unsupported, as_bool, subst, Real, const_seq
from vc import linmodel as lm, runtime as R, rows
from vc.rows import Spec, FESpace, Mesh, Values, Dofs, world, contract_of
from contracts.c18 import element, returned

AM, FM, PM, GM, MM, SM = ('xii.assembler.%s_matrix' % m for m in ('average', 'flux_average', 'point_trace', 'gradient_point_trace', 'mean', 'surface_mean'))
ASSUME = ['dolfin: cell_dofs, tabulate_dof_coordinates, evaluate_basis_all, bounding_box_tree, coordinates and entities',
          'scipy.sparse.csr_matrix adds entries of the same position', 'discontinuous spaces do not share dofs',
          'components of a dof of vector and tensor spaces are numbered one after the other', 'C11: quadrature of shapes; the sum of weights is positive',
          'exact arithmetic']
I, RR, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
PT = z3.DeclareSort('Pt')
QUAD = z3.Function('quadrature', PT, I, I)
QP, QW, QN = z3.Function('qpoint', I, I, PT), z3.Function('qweight', I, I, RR), z3.Function('qn', I, I)
QT = z3.Function('qtotal', I, RR)
QNORMAL = z3.Function('qnormal', I, I, I, RR)
XDOF = z3.Function('xdof', I, PT)
MID = z3.Function('midpoint', I, PT)
VERTEX, XV = z3.Function('vertex', I, I, I), z3.Function('xvertex', I, PT)
BAS = z3.Function('basis', I, PT, I, I, RR)           # cell, point, local dof, component


class Pt(object):
    """A point"""
    __vc_array__ = True
    def __init__(self, t, gdim): self.t, self.gdim = t, gdim
    def __iter__(self): return iter([Comp(self, k) for k in range(self.gdim)])
    def __len__(self): return self.gdim
    def __vc_seq__(self): return const_seq(list(self), 'array')
    def __getitem__(self, k):
        if isinstance(k, slice): return list(self)[k]
        return Comp(self, range(self.gdim)[k])
    def array(self): return self
    def __sub__(self, o):
        if not isinstance(o, Pt): raise Unsupported('difference of points')
        return Diff(self, o)
    def __vc_subst__(self, pairs): return Pt(_sub(self.t, pairs), self.gdim)


def _sub(t, pairs):
    """subst of a term of any sort"""
    f = z3.Function('holds', t.sort(), B)
    return subst(SBool(f(t)), pairs).e.arg(0)


class Comp(object):
    def __init__(self, p, k): self.p, self.k = p, k
    def __getattr__(self, a): raise Unsupported('coordinate of a point')


class Diff(object):
    """Direction from one point to another"""
    def __init__(self, a, b): self.a, self.b = a, b
    def __neg__(self): return Diff(self.b, self.a)
    def __vc_subst__(self, pairs): return Diff(subst(self.a, pairs), subst(self.b, pairs))


def Point(*xs):
    if len(xs) == 1 and isinstance(xs[0], Pt): return xs[0]
    p = xs[0].p if xs and isinstance(xs[0], Comp) else None
    if p is None or len(xs) != p.gdim or any(not isinstance(x, Comp) or x.k != k or not z3.eq(x.p.t, p.t) for k, x in enumerate(xs)):
        raise Unsupported('point')
    return p


class CellOf(object):
    def __init__(self, mesh, i):
        self.mesh, self.i = mesh, i
        eng().prove(z3.And(zz(i) >= 0, zz(i) < mesh.cells.e), 'requires of Cell: a cell of the mesh')
    def index(self): return self.i
    def entities(self, d):
        if d != 0: raise Unsupported('entities')
        return VList([SNum(VERTEX(zz(self.i), 0)), SNum(VERTEX(zz(self.i), 1))])
    def midpoint(self): return Pt(MID(zz(self.i)), self.mesh.gdim)
    def get_vertex_coordinates(self): return Of('coordinates', self)
    def orientation(self): return Of('orientation', self)
    def volume(self): return SNum(VOLUME(zz(self.i)))
    def __vc_subst__(self, pairs): return CellOf(self.mesh, subst(self.i, pairs))


VOLUME = z3.Function('volume', I, RR)


class Of(object):
    def __init__(self, what, cell): self.what, self.cell = what, cell
    def __vc_subst__(self, pairs): return Of(self.what, subst(self.cell, pairs))


def cells(mesh): return SymSeq(mesh.cells, lambda k: CellOf(mesh, k))


class Coordinates(object):
    """mesh.coordinates()"""
    def __init__(self, gdim): self.gdim = gdim
    def __getitem__(self, k):
        if isinstance(k, (VList, list)): return [Pt(XV(zz(v)), self.gdim) for v in k]
        return Pt(XV(zz(k)), self.gdim)


class DofPoints(object):
    """tabulate_dof_coordinates"""
    def __init__(self, V): self.V, self.shaped = V, False
    def reshape(self, *shape):
        shape = shape[0] if len(shape) == 1 else shape
        ok = shape == (-1, self.V.mesh().gdim) or len(shape) == 2 and shape[0] is self.V.size and shape[1] in (-1, self.V.mesh().gdim)
        if not ok: raise Unsupported('shape of coordinates')
        return self
    def __getitem__(self, k):
        g = self.V.mesh().gdim
        if isinstance(k, (int, SNum)): return Pt(XDOF(zz(k)), g)
        s = seq(k)
        if s is None: raise Unsupported('index of coordinates')
        return SymSeq(s.n, lambda j: Pt(XDOF(zz(s.get(j))), g), 'array')


class Tree(object):
    def __init__(self, mesh): self.mesh = mesh
    def compute_first_entity_collision(self, p):
        c = self.mesh.coll(p.t)
        eng().axiom(z3.And(c >= 0, z3.Implies(c < self.mesh.cells.e, self.mesh.around(c, p.t))))
        return SNum(c)
    def compute_entity_collisions(self, p): return Around(self.mesh, p)


class Around(object):
    """Cells around a point"""
    def __init__(self, mesh, p): self.mesh, self.p = mesh, p
    def __contains__(self, c): return bool(SBool(self.mesh.around(zz(c), self.p.t)))
    def __getitem__(self, k): raise Unsupported('cells around a point')


class Basis(object):
    """Values of basis functions: nl x vs numbers, flat or not"""
    __vc_array__ = True
    def __init__(self, nl, vs, get, flat): self.nl, self.vs, self.get, self.flat = nl, vs, get, flat
    def one(self): return isinstance(self.vs, int) and self.vs == 1
    def _map(self, f): return Basis(self.nl, self.vs, lambda j, s: f(self.get(j, s), s), self.flat)

    def __mul__(self, o):
        if isinstance(o, (int, float, SNum)): return self._map(lambda x, s: x*o)
        q = seq(o)
        if q is None or self.flat: raise Unsupported('product of values')
        eng().prove(zz(q.n) == zz(self.vs), 'requires of the product: as many components')
        return self._map(lambda x, s: x*q.get(s))
    __rmul__ = __mul__
    def __truediv__(self, o):
        if isinstance(o, (int, float, SNum)): return self._map(lambda x, s: x/o)
        raise Unsupported('quotient of values')

    @property
    def shape(self): return (self.nl*self.vs, ) if self.flat else (self.nl, self.vs)

    def reshape(self, *shape):
        shape = shape[0] if len(shape) == 1 and isinstance(shape[0], (tuple, list)) else shape
        shape = tuple(shape)
        if shape == (-1, ): return Basis(self.nl, self.vs, self.get, True)
        if len(shape) != 2: raise Unsupported('shape of values')
        e = eng()
        e.expect(e._check(zz(shape[1]) != zz(self.vs)) == z3.unsat, 'values by components')
        if not (isinstance(shape[0], int) and shape[0] == -1): e.prove(zz(shape[0]) == zz(self.nl), 'requires of reshape')
        return Basis(self.nl, self.vs, self.get, False)
    def flatten(self): return Basis(self.nl, self.vs, self.get, True)

    @property
    def T(self):
        if self.flat: return self
        g = self.get
        return Basis(self.vs, self.nl, lambda s, j: g(j, s), False)

    def total(self, axis):
        if self.flat or axis not in (1, -1) or not isinstance(self.vs, int): raise Unsupported('sum of values')
        g, vs = self.get, self.vs
        return Values(self.nl, lambda j: sum((g(j, s) for s in range(1, vs)), g(j, 0)))
    def sum(self, axis=None): return self.total(axis)

    def dot(self, v):
        q = seq(v)
        if self.flat or q is None: raise Unsupported('product of values')
        eng().prove(zz(q.n) == zz(self.vs), 'requires of the product: as many components')
        return self._map(lambda x, s: x*q.get(s)).total(1)
    __matmul__ = dot

    def __vc_seq__(self):
        g, vs = self.get, self.vs
        if self.flat:
            if self.one(): return SymSeq(self.nl, lambda j: g(j, 0), 'array')
            return SymSeq._make(self.nl*vs, (self.nl, vs), lambda idx: g(*idx), 'array')
        return SymSeq(self.nl, lambda j: Values(vs, lambda s: g(j, s)), 'array')

    def __getitem__(self, k):
        if isinstance(k, tuple) and len(k) == 2 and not self.flat:
            i, s = k
            q = seq(i)
            if q is not None: return Values(q.n, lambda a: self.get(q.get(a), s))
            if isinstance(i, slice) and i == slice(None): return Values(self.nl, lambda a: self.get(a, s))
        raise Unsupported('index of values')
    def __vc_subst__(self, pairs):
        g = self.get
        return Basis(subst(self.nl, pairs), subst(self.vs, pairs), lambda j, s: subst(g(j, s), pairs), self.flat)


class Buffer(object):
    """Array that is overwritten whole in every step"""
    __vc_track__ = True
    __vc_array__ = True
    def __init__(self, shape):
        e = eng()
        self.ident, self.dims, self.cur = next(e.serial), shape, None
        e.tracked[self.ident] = self
    def __vc_forget__(self, name): self.cur = None
    def now(self):
        if self.cur is None: raise Unsupported('array read before it is set')
        return self.cur
    @property
    def shape(self): return self.dims if isinstance(self.dims, tuple) else (self.dims, )

    def __setitem__(self, k, v):
        e = eng()
        if not isinstance(v, Basis) or k not in (slice(None), (slice(None), slice(None))): raise Unsupported('store into an array')
        for f in e.frames:
            if self.ident < f.serial0: f.attrs.append((self.ident, 'content'))
        e.expect(v.flat != isinstance(self.dims, tuple), 'values of the shape of the array')
        for a, b in zip(self.shape, v.shape): e.prove(zz(a) == zz(b), 'requires of the assignment: as many values')
        self.cur = v
    def __mul__(self, o): return self.now()*o
    __rmul__ = __mul__
    def __truediv__(self, o): return self.now()/o
    def reshape(self, *s): return self.now().reshape(*s)
    def sum(self, axis=None): return self.now().sum(axis)
    def dot(self, v): return self.now().dot(v)
    __matmul__ = dot
    @property
    def T(self): return self.now().T
    def __vc_seq__(self): return seq(self.now())
    def __getitem__(self, k): return self.now()[k]
    def copy(self): return self.now()


class Element(object):
    """V.element()"""
    def __init__(self, V, vs, log): self.V, self.vs, self.log = V, vs, log
    def space_dimension(self): return self.V.nl

    def of(self, vc, orientation):
        e = eng()
        if not isinstance(vc, Of) or vc.what != 'coordinates': raise Unsupported('vertex coordinates')
        e.prove(z3.BoolVal(vc.cell.mesh is self.V.mesh()), 'requires of evaluate_basis: a cell of the mesh of the space')
        if isinstance(orientation, Of):
            e.prove(z3.And(z3.BoolVal(orientation.cell.mesh is vc.cell.mesh), zz(orientation.cell.i) == zz(vc.cell.i)), 'requires of evaluate_basis: orientation of the cell')
        elif orientation != 0: raise Unsupported('orientation')
        return zz(vc.cell.i)

    def evaluate_basis_all(self, x, vc, orientation):
        d = self.of(vc, orientation)
        if isinstance(x, tuple): x = Point(*x)
        if not isinstance(x, Pt): raise Unsupported('point')
        self.log.evals.append((d, x.t))
        return Basis(self.V.nl, self.vs, lambda j, s: SNum(BAS(d, x.t, zz(j), zz(s))), True)

    def evaluate_basis_derivatives_all(self, n, x, vc, orientation):
        d = self.of(vc, orientation)
        if n != 1 or not isinstance(x, Pt) or self.vs != 1: raise Unsupported('derivatives')
        self.log.evals.append((d, x.t))
        return Basis(self.V.nl, self.V.mesh().gdim, lambda j, s: SNum(DBAS(d, x.t, zz(j), zz(s))), True)


DBAS = z3.Function('dbasis', I, PT, I, I, RR)


class Quadrature(object):
    def __init__(self, q, gdim):
        self.q, self.gdim = q, gdim
        e = eng()
        e.axiom(z3.And(QN(q) >= 1, QT(q) > 0))
        self.n = SNum(QN(q))
        self.points = SymSeq(self.n, lambda k: Pt(QP(q, zz(k)), gdim))
        self.weights = Weights(self.n, lambda k: SNum(QW(q, zz(k))))
        self.weights.q = q
    def __vc_subst__(self, pairs): return Quadrature(subst(SNum(self.q), pairs).e, self.gdim)


class Weights(Values):
    def __vc_total__(self, start=0):
        if not (isinstance(start, int) and start == 0): raise Unsupported('sum')
        return SNum(QT(self.q))
    def sum(self): return self.__vc_total__()
    def __vc_subst__(self, pairs):
        q = Quadrature(self.q, 3)
        return subst(q, pairs).weights


class Shape(object):
    """The shape: its quadrature in the point and across the direction"""
    def __init__(self, normals=False): self.normals = normals

    def rule(self, x, n):
        e = eng()
        if not isinstance(x, Pt) or not isinstance(n, Diff): raise Unsupported('arguments of the quadrature')
        e.expect(len(e.frames) >= 2, 'quadrature in loops over cells and dofs')
        c = e.frames[0].idx[0]
        a, b = XV(VERTEX(c, 0)), XV(VERTEX(c, 1))
        e.prove(z3.Or(z3.And(n.a.t == a, n.b.t == b), z3.And(n.a.t == b, n.b.t == a)), 'ensures the shape is across the cell')
        return Quadrature(QUAD(x.t, c), x.gdim)
    def quadrature(self, x, n): return self.rule(x, n)

    def quadrature_normal(self, x, n):
        r = self.rule(x, n)
        return r, SymSeq(r.n, lambda k: Values(3, lambda s: SNum(QNORMAL(r.q, zz(k), zz(s)))))


class Setting(object):
    def __init__(self, e, vs, gdim=3, tdim=3):
        self.e, self.vs, self.gdim = e, vs, gdim
        self.mesh, self.line = Mesh('V', tdim, gdim), Mesh('T', 1, gdim)
        el = lambda **k: element(value_size=lambda: vs, value_shape=lambda: 'shape of the values', **k)
        self.V = FESpace('V', self.mesh, el(family=lambda: 'Lagrange', degree=lambda: 1))
        self.T = FESpace('T', self.line, el(family=lambda: 'Discontinuous Lagrange', degree=lambda: 1))
        self.evals, self.coll = [], z3.Function(e.fresh_name('collision'), PT, I)
        for m, f in ((self.mesh, self.coll), (self.line, z3.Function(e.fresh_name('collisionT'), PT, I))):
            m.coll = f
            m.around = z3.Function(e.fresh_name('around'), I, PT, B)
            m.coordinates = lambda: Coordinates(gdim)
            m.bounding_box_tree = lambda m=m: Tree(m)
        V, T = self.V, self.T
        V.element = lambda: Element(V, vs, self)
        for X in (V, T): X.tabulate_dof_coordinates = lambda X=X: DofPoints(X)
        if not (isinstance(vs, int) and vs == 1):
            # dofs of the first component
            self.first = FESpace('T0', self.line, None)
            T.sub = lambda k: self.first if k == 0 else None

    def world(self, spec, name, **stubs):
        np = rows.np_stub()
        old = dict(vars(np))
        isbuf = lambda s: isinstance(s, SNum) and not isinstance(s, rows.Dim) or isinstance(s, tuple)

        def sum_(x, axis=None):
            if isinstance(x, (Basis, Buffer)): return x.sum(axis)
            return old['sum'](x)
        np.__dict__.update(zeros=lambda s, dtype=None: Buffer(s) if isbuf(s) else old['zeros'](s, dtype), sum=sum_,
                           dot=lambda a, b: a.dot(b), fromiter=lambda x, dtype=None: x)
        np.__dict__['empty'] = np.zeros
        base = dict(cells=cells, Point=Point, Cell=lambda m, i: CellOf(m, i), PETScMatrix=lambda m: ('PETScMatrix', m))
        w = world(self.e, spec, dolfin=base, stubs=dict({'numpy': np, 'numpy.polynomial.legendre': R.stub('leg', leggauss=None)}, **stubs))
        m = w.load(name)
        rows.accumulate(m)
        return m


class AverageSpec(Spec):
    """Rows collected from contributions"""
    once = True
    def __init__(self, st, normals=False):
        Spec.__init__(self, st.T, st.V, None)
        self.st, self.normals = st, normals
        self.vector = not (isinstance(st.vs, int) and st.vs == 1) and not normals
        self.comps = st.vs if self.vector else None
        self.depth = 3 if self.vector else 2

    def acc(self, fr):
        e = eng()
        a = [a for a in self.log.accs if a.final is not None and a.made is fr[1]]
        e.expect(len(a) == 1, 'contributions to a row collected in one dictionary')
        return a[0]

    def target(self, fr):
        e = eng()
        e.expect(len(fr) == self.depth and all(len(f.idx) == 1 for f in fr), 'loops over cells and local dofs')
        c, l = fr[0].idx[0], fr[1].idx[0]
        if self.vector: return self.st.first.dof(c, l) + fr[2].idx[0], (fr, fr[2].idx[0])
        return self.T.dof(c, l), (fr, z3.IntVal(0))

    def ncols(self): return self.acc(eng().frames).final[0]

    def entry(self, at, j):
        fr, s = at
        n, key, val = self.acc(fr).final
        return zz(key(j)), lm.real(val(key(j), SNum(s)))

    def covers(self, fr):
        e = eng()
        e.expect(len(fr) == self.depth, 'loops over cells and local dofs')
        e.prove(zz(fr[0].n) == zz(self.ncells), 'ensures all cells are visited')
        e.prove(zz(fr[1].n) == zz(self.st.first.nl if self.vector else self.T.nl), 'ensures all local dofs are visited')
        if self.vector: e.prove(zz(fr[2].n) == zz(self.st.vs), 'ensures all components are visited')

    def facts(self, fr, idx, dims):
        row, at = self.target(fr)
        n, key, val = self.acc(fr).final
        c, v = self.entry(at, idx[0])
        return row, c, v, zz(dims[0]) == zz(n)

    def point(self, fr):
        """Quadrature point of the step"""
        c, l, k = (f.idx[0] for f in fr[:3])
        x = XDOF(self.st.first.dof(c, l) if self.vector else self.T.dof(c, l))
        q = QUAD(x, c)
        return q, k, QP(q, k)

    def step(self, L, fr, frame, rec, called, lists):
        e, st = eng(), self.st
        mine = [a for a in L.accs if a.stores]
        rec['law'] = len(fr) == 4 and bool(mine)
        if len(fr) == 4: return self.law(L, fr, rec, mine)
        e.expect(not mine, 'contributions are made in a loop over dofs of the cell')
        if len(fr) == 3:
            q, k, p = self.point(fr)
            rec['outside'] = st.coll(p) >= st.mesh.cells.e
        if rec['given']: self.keep(L, fr, frame, rec, called, lists)
        elif len(fr) == self.depth:
            # nothing collected
            a = [a for a in L.accs if a.made is fr[1] and a.final is not None]
            rec['idle'] = z3.Or([zz(x.final[0]) <= 0 for x in a] + [z3.BoolVal(False)])

    def keep(self, L, fr, frame, rec, called, lists): L.keep(fr, frame, rec, called, lists)

    def law(self, L, fr, rec, accs):
        e, st = eng(), self.st
        if not accs: return
        e.expect(len(accs) == 1 and len(accs[0].stores) == 1, 'one contribution in a step')
        a, (col, v) = accs[0], accs[0].stores[0]
        if a.made is not fr[1]: return e.fail('ensures a row has no contributions for other points')
        q, k, p = self.point(fr)
        j = fr[3].idx[0]
        d = st.coll(p)
        e.expect(bool(st.evals), 'basis functions are evaluated')
        e.expect(z3.eq(z3.simplify(st.evals[-1][1]), z3.simplify(p)), 'a loop over quadrature points')
        e.prove(zz(fr[2].n) == QN(q), 'ensures all points of the quadrature contribute')
        e.prove(zz(fr[3].n) == zz(self.V.nl), 'ensures all dofs of the cell contribute')
        e.prove(d < st.mesh.cells.e, 'ensures points outside of the mesh do not contribute')
        e.prove(zz(col) == self.V.dof(d, j), 'ensures the contribution is to the dof of the cell of the point')
        s = z3.IntVal(0)
        if self.vector:
            s = z3.Int(e.fresh_name('s'))
            e.assume(z3.And(s >= 0, s < zz(st.vs)))
        phi = BAS(d, p, j, s)
        if self.normals: phi = z3.Sum([BAS(d, p, j, n)*QNORMAL(q, k, n) for n in range(3)])
        K, F = a.before()
        old = z3.If(K(zz(col)), F(zz(col), s), z3.RealVal(0))
        if self.vector:
            sv = seq(v)
            e.expect(sv is not None, 'a value for each component')
            e.prove(zz(sv.n) == zz(st.vs), 'ensures a value for each component')
            v = sv.get(SNum(s))
        e.prove(lm.real(v) - old == QW(q, k)*phi/QT(q), 'ensures the contribution is the value in the point times the relative weight')

    def finish(self, L):
        """All contributions are made"""
        e = eng()
        top = [x for x, d in e.exits if d == 0]
        iters = [r for r in L.iters if r['keys'][0] in top]
        chains = set(r['sites'] for r in iters if r.get('law'))
        e.expect(len(chains) <= 1, 'one loop collects the contributions')
        if not chains: return e.fail('ensures contributions are collected')
        chain, = chains
        for r in iters:
            if r['sites'] == chain and not r['law']: L.under(r, z3.BoolVal(False), 'ensures all dofs of the cell contribute')
            if r['sites'] == chain[:3] and r['exits'].count(chain[3]) != 1:
                L.under(r, r['outside'] if r['exits'].count(chain[3]) == 0 else z3.BoolVal(False), 'ensures all points inside of the mesh contribute, once')
            if r['sites'] == chain[:2] and r['exits'].count(chain[2]) != 1:
                L.under(r, z3.BoolVal(False), 'ensures the contributions to a row are collected once')


def average(name, fn, vs_of, normals=False):
    def make(e):
        st = Setting(e, vs_of(e))
        spec = AverageSpec(st, normals)

        def run(spec):
            m = st.world(spec, name)
            r = getattr(m, fn)(st.V, st.T, Shape(normals))
            returned(r, spec, e)
            spec.finish(spec.log)
        return spec, run
    return make


contract('C12', AM + ':scalar_average_matrix', assumes=ASSUME, name='scalar_average_matrix', min_obligations=15)(
    contract_of(average(AM, 'scalar_average_matrix', lambda e: 1)))
contract('C12', AM + ':average_matrix', assumes=ASSUME, name='average_matrix', min_obligations=15)(
    contract_of(average(AM, 'average_matrix', lambda e: Int('vs', 2))))
@contract('C12', AM + ':average_matrix', min_obligations=1)
def average_matrix_of_scalars(e):
    st = Setting(e, 1)
    spec = AverageSpec(st)
    spec.log = rows.Log(e, spec)
    m = st.world(spec, AM)
    shape = Shape()
    m.scalar_average_matrix = lambda *a, **k: ('scalar', dict(zip(('V', 'TV', 'shape'), a), **k))
    e.prove(z3.BoolVal(m.average_matrix(st.V, st.T, shape) == ('scalar', dict(V=st.V, TV=st.T, shape=shape))), 'ensures the matrix of averages of scalars')


contract('C12', FM + ':flux_average_matrix', assumes=ASSUME, name='flux_average_matrix', min_obligations=15)(
    contract_of(average(FM, 'flux_average_matrix', lambda e: 3, True)))


# --------------------------------------------------------------- traces from 3d to 1d
EDGE, NTET, TET = z3.Function('edge', I, I), z3.Function('ntet', I, I), z3.Function('tet', I, I, I)
ADJ = z3.Function('tet with the edge', I, I, B)


class TraceSpec(Spec):
    once = True

    def __init__(self, st, mapped):
        Spec.__init__(self, st.T, st.V, None)
        self.st, self.mapped = st, mapped
        self.one = isinstance(st.vs, int)
        self.first = st.T if self.one else st.first
        self.depth = 3

    def target(self, fr):
        e = eng()
        e.expect(len(fr) == 3 or self.one and len(fr) == 2, 'loops over cells, local dofs and components')
        c, l = fr[0].idx[0], fr[1].idx[0]
        s = fr[2].idx[0] if len(fr) == 3 else z3.IntVal(0)
        return self.first.dof(c, l) + s, (c, l, s)

    def entry(self, at, j):
        c, l, s = at
        x = XDOF(self.first.dof(c, l))
        d = self.st.evals[-1][0] if self.st.evals else z3.IntVal(0)
        return self.V.dof(d, zz(j)), BAS(d, x, zz(j), s)

    def good(self, c, d):
        """Cell d may be used for the line cell c"""
        g = self.st.mesh.around(d, MID(c))
        return z3.Or(g, ADJ(EDGE(c), d)) if self.mapped else g

    def covers(self, fr):
        e, st = eng(), self.st
        self.target(fr)
        e.prove(zz(fr[0].n) == zz(self.ncells), 'ensures all cells are visited')
        e.prove(zz(fr[1].n) == zz(self.first.nl), 'ensures all local dofs are visited')
        if len(fr) == 3: e.prove(zz(fr[2].n) == zz(st.vs), 'ensures all components are visited')
        e.expect(bool(st.evals), 'basis functions are evaluated')
        e.prove(self.good(fr[0].idx[0], st.evals[-1][0]), 'ensures the values are from a cell of the mesh around the line cell')

    def step(self, L, fr, frame, rec, called, lists):
        if len(fr) == 1 and not self.mapped: rec['skip'] = self.st.coll(MID(fr[0].idx[0])) >= self.st.mesh.cells.e
        L.keep(fr, frame, rec, called, lists)


def trace_3d1d(vs_of, mapped):
    def make(e):
        st = Setting(e, vs_of(e))
        spec = TraceSpec(st, mapped)

        class Tets(object):
            def __init__(self, f): self.f = zz(f)
            def __getitem__(self, k): return SNum(self.at(zz(k)))
            def at(self, k):
                c = TET(self.f, k)
                e.prove(z3.And(k >= 0, k < NTET(self.f)), 'requires of the connectivity: there is such a cell')
                e.axiom(z3.And(ADJ(self.f, c), c >= 0, c < st.mesh.cells.e))
                return c
        e.schema(NTET, lambda f: e.axiom(NTET(f) >= 1))

        class EdgeMap(object):
            def __getitem__(self, c):
                e.prove(z3.And(zz(c) >= 0, zz(c) < st.line.cells.e), 'requires of the map: a cell')
                return SNum(EDGE(zz(c)))
        ready = set()

        def connectivity(a, b):
            e.prove(z3.BoolVal((a, b) == (1, 3) and (1, 3) in ready), 'requires of the connectivity: edges to cells, computed before')
            return lambda f: Tets(f)
        st.mesh.init = lambda *d: ready.add(d)
        st.mesh.connectivity = connectivity
        family, degree = [('Lagrange', 2), ('Discontinuous Lagrange', 0), ('Discontinuous Lagrange', 1)][e.choose(3)]
        st.V.el.family, st.V.el.degree = (lambda: family), (lambda: degree)
        fits = family == 'Lagrange' or degree == 0
        if mapped: st.line.parent_entity_map = {'other': {1: None}, st.mesh.id(): {0: None, 1: EdgeMap()}}

        def run(spec):
            m = st.world(spec, AM)
            try: r = m.trace_3d1d_matrix(st.V, st.T, st.line)
            except AssertionError: return e.prove(z3.BoolVal(not fits), 'ensures no exception for spaces that fit')
            e.prove(z3.BoolVal(fits), 'ensures an exception for spaces where the value in a point is not that of any cell around it')
            returned(r, spec, e)
        return spec, run
    return make


for kind, vs_of in (('scalar', lambda e: 1), ('vector', lambda e: Int('vs', 2))):
    for mapped in (True, False):
        contract('C12', AM + ':trace_3d1d_matrix', assumes=ASSUME + ['C08: parent_entity_map', 'basis functions are continuous (checked by the function)'],
                 name='trace_3d1d_matrix[%s, %s]' % (kind, 'map' if mapped else 'collisions'), min_obligations=10)(contract_of(trace_3d1d(vs_of, mapped)))


# --------------------------------------------------------------- point values and means: the entries at once
class Row(object):
    """csr_matrix of entries given at once: they are to be want(j) = row, column, value for j < n"""
    def __init__(self, e, T, V, n, want): self.e, self.T, self.V, self.n, self.want, self.made = e, T, V, n, want, []

    def csr_matrix(self, data, shape=None):
        e = self.e
        vals, (ii, jj) = data
        seqs = [seq(x) for x in (ii, jj, vals)]
        e.expect(None not in seqs, 'sequences of entries')
        e.prove(z3.And([zz(s.n) == zz(self.n) for s in seqs]), 'ensures all entries of the row are given')
        e.prove(z3.And(zz(shape[0]) == self.T.size.e, zz(shape[1]) == self.V.size.e), 'ensures the shape of the matrix')
        j = Int('j', 0)
        e.assume(j.e < zz(self.n))
        for s, w, name in zip(seqs, self.want(j.e), ('row', 'column', 'value')):
            x = s.get(j)
            e.prove((lm.real(x) if name == 'value' else zz(x)) == w, 'ensures the %s of each entry' % name)
        self.made.append(rows.CSR(self))
        return self.made[-1]

    def returned(self, r):
        m = r[1] if isinstance(r, tuple) and r[0] == 'PETScMatrix' else r
        self.e.prove(z3.BoolVal(isinstance(m, rows.AIJ) and len(self.made) == 1 and m.csr is self.made[0]), 'ensures the matrix returned is that of the entries')


def point_setting(e, tdim=3, vs=1, gdim=3):
    """Real space on the mesh of V"""
    st = Setting(e, vs, gdim, tdim)
    st.T = FESpace('R', st.mesh, element(family=lambda: 'Real'), nl=vs)
    real = z3.Function(e.fresh_name('dof'), I, I)
    st.T.dof = lambda c, l: real(l if z3.is_expr(l) else z3.IntVal(l))        # the same in all cells
    return st


def at_once(st, row, name, **stubs):
    spec = Spec(st.T, st.V, None)
    spec.log = rows.Log(st.e, spec)
    spec.log.iters = []
    st.e.hooks.pop()
    st.e.exit_hooks.pop()
    np = rows.np_stub()
    m = st.world(spec, name, **{'scipy.sparse': R.stub('scipy.sparse', csr_matrix=row.csr_matrix)}, **stubs)
    m.np.__dict__['linalg'] = types.SimpleNamespace(norm=lambda x: positive(st.e))
    return m


def positive(e):
    """Some basis function does not vanish"""
    x = z3.Real(e.fresh_name('norm'))
    e.axiom(x > 0)
    return SNum(x)


def inside(e, row, run, ok):
    try: r = run()
    except AssertionError: return e.prove(z3.Not(ok), 'ensures no exception for points of the cell')
    e.prove(ok, 'ensures an exception if the point is not in the cell')
    row.returned(r)


def vertex(e):
    x0 = Int('x0', 0)
    return x0, XV(x0.e)


@contract('C12', PM + ':point_trace_matrix_DG', assumes=ASSUME + ['a basis function does not vanish'], min_obligations=6)
def point_trace_matrix_DG(e):
    st = point_setting(e, 1)
    x0, p = vertex(e)
    cell = Int('cell', 0)
    e.assume(cell.e < st.mesh.cells.e)
    ok = st.mesh.around(cell.e, p)
    row = Row(e, st.T, st.V, st.V.nl, lambda j: (st.T.dof(cell.e, 0), st.V.dof(cell.e, j), BAS(cell.e, p, j, 0)))
    inside(e, row, lambda: at_once(st, row, PM).point_trace_matrix_DG(st.V, st.T, x0, cell), ok)


@contract('C12', GM + ':gradient_point_trace_matrix_DG', assumes=ASSUME + ['a derivative of a basis function does not vanish'], min_obligations=6)
def gradient_point_trace_matrix_DG(e):
    gdim = 2 + e.choose(2)
    st = point_setting(e, 1, gdim=gdim)
    x0, p = vertex(e)
    cell = Int('cell', 0)
    e.assume(cell.e < st.mesh.cells.e)
    ok = st.mesh.around(cell.e, p)
    kind = e.choose(3)
    tau = [z3.Real('tau%d' % i) for i in range(gdim)]
    value = lambda: const_seq([SNum(t) for t in tau], 'array')

    class Constant(object):
        def values(self): return value()

    class Function(object):
        def __call__(self, x):
            x = Point(*x)
            e.prove(z3.BoolVal(z3.eq(x.t, MID(cell.e))), 'ensures the direction is evaluated in the cell')
            return value()
    tangent = [value, Constant, Function][kind]()
    row = Row(e, st.T, st.V, st.V.nl, lambda j: (st.T.dof(cell.e, 0), st.V.dof(cell.e, j), z3.Sum([DBAS(cell.e, p, j, s)*t for s, t in enumerate(tau)])))
    m = at_once(st, row, GM, **{'xii.assembler.point_trace_matrix': R.stub('pt', memoize_point_trace=lambda f: f)})
    m.df.__dict__.update(Constant=Constant, Function=Function)
    inside(e, row, lambda: m.gradient_point_trace_matrix_DG(st.V, st.T, x0, cell, tangent), ok)


LOC, NLOC = z3.Function('local dof of component', I, I, I), z3.Function('dofs of component', I, I)


class PointSpec(Spec):
    once, depth = True, 1
    def __init__(self, st, x):
        Spec.__init__(self, st.T, st.V, None)
        self.st, self.x = st, x

    def target(self, fr):
        eng().expect(len(fr) == 1 and len(fr[0].idx) == 1, 'a loop over components')
        s = fr[0].idx[0]
        return self.T.dof(self.cell(), s), s

    def cell(self):
        e = eng()
        e.expect(len(self.st.evals) == 1, 'basis functions are evaluated once')
        return self.st.evals[0][0]

    def ncols(self): return SNum(NLOC(self.target(eng().frames)[1]))

    def covers(self, fr):
        e = eng()
        s = self.target(fr)[1]
        e.prove(zz(fr[0].n) == zz(self.st.vs), 'ensures all components are visited')
        e.prove(self.st.mesh.around(self.cell(), self.x), 'ensures the values are from a cell around the point')

    def entry(self, s, j):
        d, k = self.cell(), LOC(s, zz(j))
        return self.V.dof(d, k), BAS(d, self.x, k, s)

    def facts(self, fr, idx, dims):
        row, s = self.target(fr)
        c, v = self.entry(s, idx[0])
        return row, c, v, zz(dims[0]) == NLOC(s)


def point_CG(e):
    vs = Int('vs', 1)
    st = point_setting(e, 3, vs)
    V = st.V
    x = z3.Const(e.fresh_name('x0'), PT)
    spec = PointSpec(st, x)
    inv = z3.Function(e.fresh_name('inv'), I, I, I)
    inside = lambda j: z3.And(j >= 0, j < zz(V.nl))
    e.schema(V.dof, lambda c, j: e.axiom(z3.Implies(inside(j), inv(c, V.dof(c, j)) == j)))

    def local(s, k):
        e.axiom(z3.Implies(z3.And(k >= 0, k < NLOC(s)), inside(LOC(s, k))))
        e.axiom(z3.Implies(vs.e == 1, LOC(s, k) == k))
    e.schema(LOC, local)
    e.schema(NLOC, lambda s: e.axiom(z3.And(NLOC(s) >= 1, z3.Implies(vs.e == 1, NLOC(s) == V.nl.e))))

    class Sub(object):
        def __init__(self, s): self.s = zz(s)
        def dofmap(self): return self
        def cell_dofs(self, c):
            e.prove(z3.And(self.s >= 0, self.s < vs.e, vs.e > 1), 'requires of sub: there is such a component')
            return rows.Dofs(SNum(NLOC(self.s)), lambda k: SNum(V.dof(zz(c), LOC(self.s, zz(k)))))
    V.sub = Sub

    class Local(rows.Dofs):
        """Dofs of the cell c, they are different"""
        def __init__(self, c):
            rows.Dofs.__init__(self, V.nl, lambda k: SNum(V.dof(c, zz(k))))
            self.c = c
        def tolist(self): return self

        def index(self, x):
            j = inv(self.c, zz(x))
            e.prove(z3.And(inside(j), V.dof(self.c, j) == zz(x)), 'requires of index: one of the dofs')
            return SNum(j)
        def __vc_subst__(self, pairs): return Local(subst(SNum(self.c), pairs).e)
    V.cell_dofs = lambda c: Local(zz(c))

    def run(spec):
        m = st.world(spec, PM)
        try: r = m.point_trace_matrix_CG(V, st.T, Pt(x, 3))
        except AssertionError: return e.prove(st.mesh.coll(x) >= st.mesh.cells.e, 'ensures no exception for points of the mesh')
        e.prove(st.mesh.coll(x) < st.mesh.cells.e, 'ensures an exception for points outside of the mesh')
        returned(r, spec, e)
    return spec, run


contract('C12', PM + ':point_trace_matrix_CG', assumes=ASSUME + ['basis functions of vector spaces have one component which is not zero; they are continuous'],
         name='point_trace_matrix_CG', min_obligations=8)(contract_of(point_CG))


# forms
class Form(object):
    """Product of its factors"""
    def __init__(self, *factors): self.factors = factors
    def __mul__(self, o):
        if not isinstance(o, Form): raise Unsupported('factor of a form')
        return Form(*(self.factors + o.factors))
    def __vc_subst__(self, pairs): return self


class Scaled(object):
    """Constant"""
    def __init__(self, x): self.x = x


def factor(x): return Form(x)


@contract('C12', MM + ':mean_mat', assumes=['dolfin: assemble', 'scipy.sparse.csr_matrix', 'C07: keys of memoized matrices'], min_obligations=6)
def mean_mat(e):
    st = point_setting(e)
    V, T = st.V, st.T
    measure, weight = [('measure', None)[e.choose(2)] for _ in range(2)]
    lit = lambda x: Form(x) if x else None
    val = z3.Function(e.fresh_name('integral'), I, RR)
    row = Row(e, T, V, V.size, lambda j: (z3.IntVal(0), j, val(j)))

    def assemble(form):
        fs = list(form.factors)
        want = [('test', V), weight or ('constant', 1), measure or 'dx']
        e.prove(z3.BoolVal(len(fs) == 3 and all(w in fs for w in want) and fs[-1] == want[-1]), 'ensures the integral of basis function times weight')
        return Values(V.size, lambda k: SNum(val(zz(k))))
    m = at_once(st, row, MM, **{'xii.assembler.mean_form': R.stub('mf', mean_cell=None, mean_space=None)})
    m.df.__dict__.update(assemble=assemble, TestFunction=lambda v: Form(('test', v)), Constant=lambda c: Form(('constant', c)), dx=Form('dx'))
    m.np.__dict__.update(zeros_like=lambda x, dtype=None: SymSeq(seq(x).n, lambda k: 0, 'array'))
    row.returned(m.mean_mat(V, T, None, dict(measure=lit(measure), weight=lit(weight))))


@contract('C12', SM + ':surface_mean_matrix', assumes=['dolfin: assemble', 'C10: trace', 'C06: convert'], min_obligations=4)
def surface_mean_matrix(e):
    st = Setting(e, 1)
    V, Q, line = st.V, object(), st.line
    TV = object()
    area = lm.real(R.v_sum(SymSeq(line.cells, lambda k: SNum(VOLUME(zz(k))))))
    e.assume(area > 0)

    class Op(object):
        def __init__(self, *f): self.f = f
        def __mul__(self, o): return Op(*(self.f + o.f))
        __matmul__ = __mul__

    def assemble(form):
        fs = list(form.factors)
        cs = [f for f in fs if isinstance(f, Scaled)]
        e.prove(z3.BoolVal(len(fs) == 3 and len(cs) == 1 and 'dx' in fs and (('inner', frozenset([('trial', TV), ('test', Q)])) in fs)), 'ensures the integral of the trace')
        if len(cs) == 1: e.prove(lm.real(cs[0].x)*area == 1, 'ensures the mean is per area')
        return Op('mean')

    def trace(v, t, mesh=None, tag_data=None):
        e.prove(z3.BoolVal(v is V and t is TV and mesh is line and tag_data is None), 'ensures the trace of the space on the surface')
        return Op('trace')

    def space(v, mesh, *a, **k):
        e.prove(z3.BoolVal(v is V and mesh is line and not a and not k), 'ensures the trace space on the surface')
        return TV
    spec = Spec(st.T, V, None)
    spec.log = rows.Log(e, spec)
    spec.log.iters = []
    e.hooks.pop()
    e.exit_hooks.pop()
    w = world(e, spec, dolfin=dict(cells=cells, Point=Point, Cell=None, TrialFunction=lambda v: ('trial', v), TestFunction=lambda v: ('test', v),
                                   inner=lambda a, b: Form(('inner', frozenset([a, b]))), Constant=lambda c: Form(Scaled(c)), dx=Form('dx'),
                                   assemble=assemble, PETScMatrix=lambda m: m),
              stubs={'xii.linalg.convert': R.stub('cv', convert=lambda x: ('converted', x)),
                     'xii.assembler.trace_matrix': R.stub('tm', trace_mat_no_restrict=trace),
                     'xii.assembler.trace_form': R.stub('tf', trace_space=space)})
    r = w.load(SM).surface_mean_matrix(V, Q, line)
    e.prove(z3.BoolVal(isinstance(r, tuple) and r[0] == 'converted' and r[1].f == ('mean', 'trace')), 'ensures the mean of the trace')


# --------------------------------------------------------------- which matrix
def space(family, shape, mesh, degree=1, cell=None):
    el = types.SimpleNamespace(family=lambda: family, value_shape=lambda: shape, degree=lambda: degree)
    return types.SimpleNamespace(ufl_element=lambda: el, mesh=lambda: mesh, cell=cell)


def mesh_of(i, gdim, tdim, cell):
    return types.SimpleNamespace(id=lambda: i, geometry=lambda: types.SimpleNamespace(dim=lambda: gdim), ufl_cell=lambda: cell,
                                 topology=lambda: types.SimpleNamespace(dim=lambda: tdim), coordinates=lambda: Vertices(gdim))


class Vertices(object):
    def __init__(self, gdim): self.gdim = gdim
    def __getitem__(self, k): return Vertex(k, self.gdim)


class Vertex(object):
    def __init__(self, k, gdim): self.k, self.gdim = k, gdim
    def __len__(self): return self.gdim
    def __vc_len__(self): return self.gdim


def loaded(name, **names):
    class Number(object): pass
    np = lm.np_stub()
    np.__dict__.update({t: type(t, (), {}) for t in ('int32', 'int64', 'uint32', 'uint64')})
    w = lm.world(dolfin=dict(PETScMatrix=lambda m: ('PETScMatrix', m), Constant=type('Constant', (), {}), Function=type('Function', (), {}),
                             cells=None, Point=None, Cell=None), petsc={},
                 stubs={'numpy': np, 'numpy.polynomial.legendre': R.stub('leg', leggauss=None), 'scipy.sparse': R.stub('s', csr_matrix=None),
                        'tqdm': R.stub('tqdm'), 'ufl_legacy': R.stub('ufl'),
                        'xii.linalg.matrix_utils': R.stub('mu', petsc_serial_matrix=None, is_number=None),
                        'xii.linalg.convert': R.stub('cv', convert=None), 'xii.assembler.trace_matrix': R.stub('tm'), 'xii.assembler.trace_form': R.stub('tf'),
                        'xii.assembler.average_form': R.stub('af', average_cell=lambda V: V.cell, average_space=None),
                        'xii.assembler.cache_keys': R.stub('ck', space_key=id, value_key=lambda x: x)})
    m = w.load(name)
    for k, names in names.items(): setattr(m, k, lambda *a, k=k, names=names, **kw: (k, dict(zip(names, a), **kw)))
    return m


def law(e, run, bad, want):
    """run() raises AssertionError if and only if bad, else it gives want"""
    try:
        got = run()
    except (AssertionError, NotImplementedError):
        return e.prove(z3.BoolVal(bool(bad)), 'ensures no exception for spaces that fit')
    e.prove(z3.BoolVal(not bad), 'ensures an exception for spaces that do not fit')
    m = got[1] if got[0] == 'PETScMatrix' else None
    e.prove(z3.BoolVal(m is not None and m[0] == want[0] and set(m[1]) == set(want[1]) and all(same(m[1][k], v) for k, v in want[1].items())), 'ensures the matrix for these arguments')


def same(a, b): return a is b or isinstance(a, Vertex) and isinstance(b, Vertex) and a.k == b.k or (isinstance(a, (int, str)) and a == b)


def reduced(e):
    """Spaces on a mesh and on a curve, some do not fit"""
    wrong = e.choose(6)
    m3, m1 = mesh_of(1, 3, 3, 'tetrahedron'), mesh_of(2, 2 if wrong == 1 else 3, 1, 'interval')
    T = dict(family='Lagrange' if wrong == 2 else 'Discontinuous Lagrange', mesh=m1)
    V = dict(family='Lagrange', mesh=m3, cell='triangle' if wrong == 3 else 'interval')
    return wrong, mesh_of(3, 3, 1, 'interval') if wrong == 4 else m1, V, T


@contract('C12', AM + ':avg_mat', assumes=['C07: keys of memoized matrices'], min_obligations=8)
def avg_mat(e):
    wrong, mesh, V, T = reduced(e)
    sv = [(), (3, ), (3, 3)][e.choose(3)]
    V, T = space(shape=sv, **V), space(shape=(2, ) if wrong == 5 else sv, **T)
    shape = [None, object()][e.choose(2)]
    m = loaded(AM, trace_3d1d_matrix=('V', 'TV', 'reduced_mesh'), average_matrix=('V', 'TV', 'shape'))
    want = ('trace_3d1d_matrix', dict(V=V, TV=T, reduced_mesh=mesh)) if shape is None else ('average_matrix', dict(V=V, TV=T, shape=shape))
    law(e, lambda: m.avg_mat(V, T, mesh, dict(shape=shape)), wrong, want)


@contract('C12', FM + ':flux_avg_mat', assumes=['C07: keys of memoized matrices'], min_obligations=8)
def flux_avg_mat(e):
    wrong, mesh, V, T = reduced(e)
    k = e.choose(3)
    V, T = space(shape=[(3, ), (), (3, 3)][k], **V), space(shape=(2, ) if wrong == 5 else (), **T)
    shape = [None, object()][e.choose(2)]
    m = loaded(FM, flux_average_matrix=('V', 'TV', 'shape'))
    law(e, lambda: m.flux_avg_mat(V, T, mesh, dict(shape=shape)), wrong or k or shape is None, ('flux_average_matrix', dict(V=V, TV=T, shape=shape)))


def points(e):
    wrong = e.choose(4)
    gdim, dg = 2 + e.choose(2), e.choose(2)
    mesh = mesh_of(1, gdim, 1 if dg else gdim, 'cell')
    trace = mesh_of(2, gdim, 1, 'cell') if wrong == 1 else mesh
    sv = () if dg else [(), (gdim, )][e.choose(2)]
    V = space('Discontinuous Lagrange' if dg else 'Lagrange', sv, mesh)
    T = space('Lagrange' if wrong == 2 else 'Real', (7, ) if wrong == 3 else sv, mesh)
    return wrong, dg, V, T, trace, gdim


@contract('C12', PM + ':point_trace_mat', assumes=['C07: keys of memoized matrices'], min_obligations=8)
def point_trace_mat(e):
    wrong, dg, V, T, mesh, gdim = points(e)
    k = e.choose(3)
    x0 = [5, (0.1, 0.2, 0.3)[:gdim], (0.1, )][k]
    m = loaded(PM, point_trace_matrix_CG=('V', 'TV', 'x0'), point_trace_matrix_DG=('V', 'TV', 'x0', 'cell'))
    at = Vertex(5, gdim) if k == 0 else x0
    want = ('point_trace_matrix_DG', dict(V=V, TV=T, x0=x0, cell=4)) if dg else ('point_trace_matrix_CG', dict(V=V, TV=T, x0=at))
    law(e, lambda: m.point_trace_mat(V, T, mesh, dict(point=x0, cell=4)), wrong or dg and k > 0 or k == 2, want)


@contract('C12', GM + ':gradient_point_trace_mat', assumes=['C07: keys of memoized matrices'], min_obligations=8)
def gradient_point_trace_mat(e):
    wrong, dg, V, T, mesh, gdim = points(e)
    tau = object()
    class Memo(object): pass
    m = lm.world(dolfin=dict(PETScMatrix=lambda m: ('PETScMatrix', m), Point=None, Cell=None), petsc={},
                 stubs={'numpy': R.stub('numpy', **{t: type(t, (), {}) for t in ('int32', 'int64', 'uint32', 'uint64')}), 'scipy.sparse': R.stub('s', csr_matrix=None),
                        'ufl_legacy': R.stub('ufl'), 'xii.assembler.point_trace_matrix': R.stub('pt', memoize_point_trace=lambda f: f)}).load(GM)
    m.gradient_point_trace_matrix_DG = lambda *a, **kw: ('grad', dict(zip(('V', 'TV', 'x0', 'cell', 'tangent'), a), **kw))
    law(e, lambda: m.gradient_point_trace_mat(V, T, mesh, dict(point=5, cell=4, tangent=tau)), wrong or not dg, ('grad', dict(V=V, TV=T, x0=5, cell=4, tangent=tau)))


@contract('C12', SM + ':surface_mean_mat', assumes=['C07: keys of memoized matrices'], min_obligations=4)
def surface_mean_mat(e):
    wrong = e.choose(4)
    m3, m2 = mesh_of(1, 3, 3, 'tetrahedron'), mesh_of(2, 3, 2, 'triangle')
    sv = [(), (3, )][e.choose(2)]
    V, T = space('Lagrange', sv, m3), space('Lagrange' if wrong == 1 else 'Real', (7, ) if wrong == 2 else sv, m2)
    mesh = mesh_of(5, 3, 2, 'triangle') if wrong == 3 else m2
    m = loaded(SM, surface_mean_matrix=('V', 'Q', 'surface_mesh'))
    law(e, lambda: ('PETScMatrix', m.surface_mean_mat(V, T, mesh, None)), wrong, ('surface_mean_matrix', dict(V=V, Q=T, surface_mesh=mesh)))
