"""C10: trace matrices.

trace_mat_no_restrict(V, TV, mesh, tags)   ensures  for every cell c of the trace mesh with one of the tags and every dof l of TV in
                                           it: row Tdof(c, l) has the entries dof (c, l) of TV on the basis functions of V on d, d
                                           a cell connected to the facet which c comes from; every row once, no other entries
trace_mat_one_restrict(.., '+'/'-', n)     ensures  the same, with d on the side asked for: (x_c - x_d).n > 0 for '+'
trace_mat_two_restrict(.., avg/jump, n)    ensures  the entries of both sides, times 1/2, 1/2 or 1, -1 (1 if there is one side)
DLT_trace_mat                              ensures  the dof of the facet, 1
trace_mat                                  ensures  the matrix of the right kind for the given restriction, normal and tags
get_entity_map                             ensures  all cells with the tags are mapped
"""
import types
import z3
from vc.contract import contract
from vc.engine import eng, Int, SNum, SBool, SymSeq, VList, zz, wrap, seq, Unsupported, as_bool, subst, PathEnd
from vc import linmodel as lm, runtime as R, rows
from vc.rows import Spec, FESpace, Mesh, Marks, Tags, Points, Vec, world, contract_of
from contracts.c18 import element, returned

TM = 'xii.assembler.trace_matrix'
ASSUME = ['dolfin: cell_dofs, topology, SubsetIterator', 'C18: DegreeOfFreedom, FEBasisFunction', 'get_entity_map (C10), maps (C08, C09)',
          'scipy.sparse.csr_matrix adds entries of the same position', 'dofs of a cell are different ones; discontinuous spaces do not share dofs']
I, RR, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()


class Setting(object):
    """Mesh, trace mesh, spaces, tags"""
    def __init__(self, e, family, vfamily='Lagrange', vdegree=1, symbolic=False):
        gdim = 2 + e.choose(2)
        self.e, self.gdim, self.symbolic = e, gdim, symbolic
        self.mesh, self.tmesh = Mesh('V', gdim, gdim), Mesh('T', gdim - 1, gdim)
        self.V = FESpace('V', self.mesh, element(family=lambda: vfamily, degree=lambda: vdegree))
        self.T = FESpace('T', self.tmesh, element(family=lambda: family, degree=lambda: 1))
        self.facet = z3.Function(e.fresh_name('facet'), I, I)
        self.ncon, self.con = z3.Function(e.fresh_name('ncon'), I, I), z3.Function(e.fresh_name('con'), I, I, I)
        e.schema(self.ncon, lambda f: self.sides(f))
        e.schema(self.con, lambda f, k: self.sides(f))
        self.inited, self.ready, self.certain, self.opposite = set(), None, False, False
        mesh, tmesh = self.mesh, self.tmesh
        mesh.init = lambda *d: self.inited.add(d)
        mesh.connectivity = self.connectivity
        tmesh.init = lambda *d: None
        self.mt, self.mv = Points('xt', 3), Points('xv', 3)
        self.nn = Points('n', gdim)
        k = e.choose(3)
        self.given = k == 0
        if k == 0:
            self.marks, self.tags = Marks(tmesh), Tags('given')
            self.data = (self.marks, self.tags)
        elif k == 1:
            self.marks = tmesh.marking_function = Marks(tmesh)
            self.tags = self.marks.array().__vc_set__()
            self.data = None
        else:
            self.marks, self.tags, self.data = None, None, None
        tmesh.parent_entity_map = {mesh.id(): {gdim - 1: self}}

    def zero(self, kind, mesh, dim, value=0):
        """MeshFunction(..)"""
        if mesh is not self.tmesh or dim != self.tmesh.tdim or value != 0: raise Unsupported('mark function')
        if self.marks is None: self.marks, self.tags = Marks(mesh, zero=True), (0, )
        return self.marks

    def get_entity_map(self, mesh, tmesh, marks=None, tags=None):
        e = self.e
        e.prove(z3.BoolVal(mesh is self.mesh and tmesh is self.tmesh), 'requires of get_entity_map: mesh and trace mesh')
        e.prove(z3.BoolVal(marks is self.marks and self.same_tags(tags)), 'requires of get_entity_map: marks and tags')
        if not self.certain and e.choose(2): raise AssertionError('not embedded')
        self.ready = True
        return True

    def same_tags(self, tags):
        if isinstance(tags, Tags): return tags is self.tags
        return self.tags == (0, ) and set(tags) == {0}

    # the map of cells of the trace mesh to facets
    def __getitem__(self, c):
        self.e.prove(z3.BoolVal(bool(self.ready)), 'requires of the map: it is there for the tags')
        return SNum(self.facet(zz(c)))

    def connectivity(self, a, b):
        self.e.prove(z3.BoolVal((a, b) == (self.gdim - 1, self.gdim) and (a, b) in self.inited), 'requires of the topology: connectivity is computed')
        return self.cells_of

    def sides(self, f):
        """Number of cells connected to the facet, which are they"""
        f, e = zz(f), self.e
        n, c = self.ncon(f), [self.con(f, 0), self.con(f, 1)]
        e.axiom(z3.And(n >= 1, n <= 2, c[0] >= 0, c[0] < self.mesh.cells.e, z3.Implies(n == 2, z3.And(c[1] >= 0, c[1] < self.mesh.cells.e, c[0] != c[1]))))
        return n, c

    def cells_of(self, f):
        n, c = self.sides(f)
        if self.symbolic: return SymSeq(SNum(n), lambda k: SNum(self.con(zz(f), zz(k))), 'array')
        return VList([SNum(c[0])] if SBool(n == 1) else [SNum(c[0]), SNum(c[1])])

    def Cell(self, mesh, i):
        if mesh is self.tmesh and self.opposite:
            f = self.facet(zz(i))
            n, c = self.sides(f)
            self.e.axiom(z3.Implies(n == 2, self.plus(i, c[0]) != self.plus(i, c[1])))
        return types.SimpleNamespace(midpoint=lambda: types.SimpleNamespace(array=lambda: (self.mt if mesh is self.tmesh else self.mv).at(i)))

    def plus(self, c, d):
        """Cell d is on the side the normal of c points away from"""
        a, b, n = self.mt.at(c), self.mv.at(d), self.nn.at(c)
        g = self.gdim
        return rows.poly(a[:g] - b[:g], n) > 0

    def normal(self):
        el = element(family=lambda: 'Discontinuous Lagrange', degree=lambda: 0)
        vec = types.SimpleNamespace(get_local=lambda: types.SimpleNamespace(reshape=self.reshape))
        return types.SimpleNamespace(function_space=lambda: types.SimpleNamespace(ufl_element=lambda: el), vector=lambda: vec)

    def reshape(self, *shape):
        shape = shape[0] if len(shape) == 1 else shape
        if shape != (-1, self.gdim): raise Unsupported('values of the normal')
        nn, cells = self.nn, self.tmesh.cells

        class Values(object):
            def __getitem__(self, c):
                eng().prove(z3.And(zz(c) >= 0, zz(c) < cells.e), 'requires: a cell of the trace mesh')
                return nn.at(c)
            def __vc_subst__(self, pairs): return self
        return Values()

    def world(self, spec, **over):
        np = rows.np_stub()
        np.__dict__.update(inner=rows.inner, dot=rows.inner, linalg=types.SimpleNamespace(norm=rows.norm))
        w = world(self.e, spec, dolfin=dict(Cell=self.Cell, MeshFunction=self.zero, SubsetIterator=rows.SubsetIterator),
                  stubs={'numpy': np,
                         'xii.assembler.trace_assembly': R.stub('ta', trace_cell=None),
                         'xii.meshing.embedded_mesh': R.stub('em', build_embedding_map=None),
                         'xii.assembler.nonconforming_trace_matrix': R.stub('nc', nonconforming_trace_mat=self.nonconforming)})
        m = w.load(TM)
        m.get_entity_map = self.get_entity_map
        for k, v in over.items(): setattr(m, k, v)
        return m

    def nonconforming(self, V, T, data):
        return ('nonconforming', V, T, data)

    def other(self, r):
        """The result is from the function for meshes that do not conform, or for traces of HDiv"""
        if not (isinstance(r, tuple) and r[0] in ('nonconforming', 'DLT')):
            self.e.prove(z3.BoolVal(self.V.el.family() != 'HDiv Trace'), 'ensures basis functions of traces are not evaluated in cells')
            return False
        e = self.e
        e.prove(z3.BoolVal(r[1] is self.V and r[2] is self.T and r[3][0] is self.marks and self.same_tags(r[3][1])), 'ensures the trace of these spaces and tags')
        e.prove(z3.BoolVal((r[0] == 'nonconforming') == (not self.ready)), 'ensures the trace for conforming meshes if they are so')
        if r[0] == 'DLT': e.prove(z3.BoolVal(self.V.el.family() == 'HDiv Trace'), 'requires of DLT_trace_mat: traces')
        return True

    def DLT(self, V, TV, trace_mesh=None, tag_data=None): return ('DLT', V, TV, tag_data)


class TraceSpec(Spec):
    depth = 1

    def __init__(self, st, side=None):
        Spec.__init__(self, st.T, st.V, None)
        self.st, self.side = st, side

    def cell(self, fr):
        x = fr[0].elem
        eng().expect(isinstance(x, SNum), 'a loop over the cells')
        return zz(x)

    def covers(self, fr):
        eng().expect(len(fr) == 1, 'a loop over the cells')
        rows.goes_over(fr[0].it, self.st.marks, self.st.tags)
        n, cs = self.st.sides(self.st.facet(self.cell(fr)))
        d = self.log.source()
        e = eng()
        e.prove(z3.Or(d == cs[0], z3.And(n == 2, d == cs[1])), 'ensures the values come from a cell connected to the facet')
        if self.side: e.prove(self.st.plus(self.cell(fr), d) == (self.side == '+'), 'ensures the values come from the side asked for')

    def none(self, empties):
        """No rows are given if there are no cells with the tags"""
        eng().expect(empties[-1][0] == 0, 'a loop over the cells')
        rows.goes_over(empties[-1][1], self.st.marks, self.st.tags)

    def mask(self, m):
        """The selection of rows"""
        e = eng()
        e.expect(len(self.log.flags) == 1, 'one array marks the rows that are filled')
        found = [k for k in self.log.flags[0].masks if z3.eq(k.m.e, zz(m))]
        e.expect(len(found) == 1, 'rows are selected by a mask')
        return found[0]

    def axes(self, idx, dims):
        e = eng()
        e.expect(len(dims) == 2, 'entries for all basis functions and dofs')
        if e._check(zz(dims[0]) != zz(self.V.nl)) == z3.unsat: return idx[0], idx[1], dims[1]
        if e._check(zz(dims[1]) != zz(self.V.nl)) == z3.unsat: return idx[1], idx[0], dims[0]
        e.expect(False, 'entries for all basis functions and dofs')

    def facts(self, fr, idx, dims):
        c, d = self.cell(fr), self.log.source()
        j, b, m = self.axes(idx, dims)
        if self.once: l, full = zz(b), zz(m) == zz(self.T.nl)
        else: l, full = zz(self.mask(m).sel(b)), z3.BoolVal(True)
        return self.T.dof(c, l), self.V.dof(d, zz(j)), rows.VAL(c, l, d, zz(j)), full

    def step(self, L, fr, frame, rec, called, lists):
        e = eng()
        if len(fr) > 1: return e.expect(not rec['given'], 'entries of all basis functions at once')
        if not rec['given']: return
        self.covers(fr)
        L.record(fr, {k: rows.pieces_of(a) for k, a in lists.items()})
        if not self.once: self.marked(L, fr)

    def marked(self, L, fr):
        """All rows of the cell which are not marked are selected, and marked"""
        e = eng()
        e.expect(len(L.flags) == 1, 'one array marks the rows that are filled')
        F = L.flags[0]
        c = self.cell(fr)
        ms = [m for m in F.masks]
        e.expect(len(ms) == 1, 'one selection of rows')
        m = ms[0]
        k = Int('k', 0)
        e.prove(zz(m.s.n) == zz(self.T.nl), 'ensures all dofs of the cell are looked at')
        e.assume(k.e < zz(self.T.nl))
        e.prove(zz(m.s.get(k)) == self.T.dof(c, k.e), 'ensures all dofs of the cell are looked at')
        e.prove(as_bool(m.at(k)) == z3.Not(F.filled(self.T.dof(c, k.e))), 'invariant: the rows selected are those which are not marked')
        if len(F.stores) != 1: return e.fail('invariant: rows that are given are marked')
        where, v = F.stores[0]
        e.expect(isinstance(where, SymSeq), 'the marks of the rows are set')
        e.prove(z3.BoolVal(v != F.init), 'invariant: rows that are given are marked')
        if e._check(zz(where.n) != m.m.e) == z3.unsat:
            q = Int('q', 0)
            e.assume(q.e < m.m.e)
            e.prove(zz(where.get(q)) == self.T.dof(c, zz(m.sel(q))), 'invariant: rows that are given are marked')
        else:
            # all dofs of the cell are marked: the others were before
            e.prove(zz(where.n) == zz(self.T.nl), 'invariant: rows that are given are marked')
            e.prove(zz(where.get(k)) == self.T.dof(c, k.e), 'invariant: rows that are given are marked')


FAMILIES = [('CG', 'Lagrange', 'Lagrange'), ('DG', 'Discontinuous Lagrange', 'Lagrange'), ('HDiv Trace', 'Lagrange', 'HDiv Trace')]


def given(st, e, full):
    """The argument trace_mesh; left out in 2d, given in 3d, and (thorough) in all combinations"""
    if full: return [st.tmesh, None][e.choose(2)]
    return st.tmesh if st.gdim == 3 else None


def no_restrict(f, vf, full):
    def make(e):
        st = Setting(e, f, vf, 0, symbolic=True)
        spec = TraceSpec(st)
        spec.once = f == 'Discontinuous Lagrange'

        def run(spec):
            m = st.world(spec, DLT_trace_mat=st.DLT)
            r = m.trace_mat_no_restrict(st.V, st.T, given(st, e, full), tag_data=st.data)
            if not st.other(r): returned(r, spec, e)
        return spec, run
    return make


def one_restrict(f, vf, side, full):
    def make(e):
        st = Setting(e, f, vf, 0)
        spec = TraceSpec(st, side)
        spec.once = f == 'Discontinuous Lagrange'

        def run(spec):
            m = st.world(spec, DLT_trace_mat=st.DLT)
            try:
                r = m.trace_mat_one_restrict(st.V, st.T, side, st.normal(), given(st, e, full), tag_data=st.data)
            except ValueError:
                # no cell on that side
                fr = e.frames
                e.expect(len(fr) == 1, 'a loop over the cells')
                c = spec.cell(fr)
                n, cs = st.sides(st.facet(c))
                ok = [st.plus(c, d) == (side == '+') for d in cs]
                return e.prove(z3.Not(z3.Or(ok[0], z3.And(n == 2, ok[1]))), 'ensures no exception if there is a cell on the side asked for')
            if not st.other(r): returned(r, spec, e)
        return spec, run
    return make


class BothSpec(TraceSpec):
    """Rows summed over the sides"""
    depth, times = 2, 1

    def __init__(self, st, weights):
        TraceSpec.__init__(self, st)
        self.weights = weights

    def weight(self, c, d):
        n, _ = self.st.sides(self.st.facet(c))
        wp, wm = [z3.RealVal(str(w)) for w in self.weights]
        return z3.If(n == 1, z3.RealVal(1), z3.If(self.st.plus(c, d), wp, wm))

    def facts(self, fr, idx, dims):
        e = eng()
        e.expect(len(fr) == 2 and len(dims) == 1, 'entries for one basis function')
        c, d = self.cell(fr), self.log.source()
        x = fr[1].elem
        l = zz(x[0] if isinstance(x, tuple) else x)
        e.expect(z3.eq(z3.simplify(l), fr[1].idx[0]), 'a loop over basis functions')
        k = zz(self.mask(dims[0]).sel(idx[0]))
        return self.T.dof(c, k), self.V.dof(d, l), self.weight(c, d)*rows.VAL(c, k, d, l), z3.BoolVal(True)

    def step(self, L, fr, frame, rec, called, lists):
        e = eng()
        if len(fr) == 2:
            if not rec['given']: return
            e.prove(zz(fr[1].n) == zz(self.V.nl), 'ensures all dofs of the source cell are columns')
            L.record(fr, {k: rows.pieces_of(a) for k, a in lists.items()})
            return
        e.expect(not rec['given'], 'entries for one basis function')
        gave = set(r['sites'][1] for r in L.iters if r['given'] and len(r['sites']) == 2 and r['keys'][0] == frame.key)
        passes = [(s, d) for s, d in L.passes if s in gave]
        if not passes: return            # finish() tells if rows are missing
        sites = set(s for s, d in passes)
        e.expect(len(sites) == 1, 'one loop over basis functions')
        c = self.cell(fr)
        rows.goes_over(fr[0].it, self.st.marks, self.st.tags)
        n, cs = self.st.sides(self.st.facet(c))
        ds = [zz(d) for s, d in passes]
        if len(ds) == 1: e.prove(z3.And(n == 1, ds[0] == cs[0]), 'ensures the values come from all cells connected to the facet')
        elif len(ds) == 2:
            e.prove(z3.And(n == 2, z3.Or(z3.And(ds[0] == cs[0], ds[1] == cs[1]), z3.And(ds[0] == cs[1], ds[1] == cs[0]))),
                    'ensures the values come from all cells connected to the facet')
        else: e.fail('ensures the values come from all cells connected to the facet')
        rec['times'] = {sites.pop(): len(ds)}
        self.marked(L, fr)


def two_restrict(kind, full):
    weights = dict(avg=(.5, .5), jump=(1, -1))[kind]

    def make(e):
        st = Setting(e, 'Lagrange')
        spec = BothSpec(st, weights)

        def run(spec):
            # the cells of a facet are on different sides
            st.opposite = True
            m = st.world(spec)
            st.certain = True
            r = m.trace_mat_two_restrict(st.V, st.T, kind, st.normal(), given(st, e, full), tag_data=st.data)
            returned(r, spec, e)
        return spec, run
    return make


NORMAL = ['midpoints of a cell and its facet differ', 'values of a DG0 vector function: components of cell after cell']
for full in (False, True):
    tail = ', trace mesh given or not' if full else ''
    for name, f, vf in FAMILIES:
        contract('C10', TM + ':trace_mat_no_restrict', assumes=ASSUME, name='trace_mat_no_restrict (%s%s)' % (name, tail), min_obligations=8,
                 thorough=full)(contract_of(no_restrict(f, vf, full)))
        for side in '+-':
            contract('C10', TM + ':trace_mat_one_restrict', assumes=ASSUME + NORMAL, name='trace_mat_one_restrict (%s %s%s)' % (side, name, tail),
                     min_obligations=8, thorough=full, max_paths=9000)(contract_of(one_restrict(f, vf, side, full)))
    for kind in ('avg', 'jump'):
        contract('C10', TM + ':trace_mat_two_restrict', assumes=ASSUME + NORMAL + ['the cells of a facet are on different sides of the normal'],
                 name='trace_mat_two_restrict (%s%s)' % (kind, tail), min_obligations=8, thorough=full, max_paths=9000)(contract_of(two_restrict(kind, full)))


class DLTSpec(TraceSpec):
    once = True

    def comp(self, fr): return [x[1] for x, d in eng().exits if d == 0].count(fr[0].key[1])
    def target(self, fr):
        eng().expect(len(fr) == 1, 'a loop over the cells')
        c, i = self.cell(fr), self.comp(fr)
        eng().expect(i < self.repeats, 'a pass for each component')
        return self.st.tdofs[i](c), (c, i)
    def ncols(self): return 1
    def entry(self, at, j):
        c, i = at
        return self.st.fdofs[i](self.st.facet(c)), z3.RealVal(1)
    def covers(self, fr): rows.goes_over(fr[0].it, self.st.marks, self.st.tags)
    def step(self, L, *a): L.keep(*a)


@contract('C10', TM + ':DLT_trace_mat', assumes=ASSUME, min_obligations=8)
@contract_of
def DLT_trace_mat(e):
    st = Setting(e, 'Discontinuous Lagrange', 'HDiv Trace', 0)
    n = [0, 2, 3][e.choose(3)]              # scalar, vectors
    m = max(n, 1)
    st.tdofs = [z3.Function('tdof%d' % i, I, I) for i in range(m)]
    st.fdofs = [z3.Function('fdof%d' % i, I, I) for i in range(m)]
    st.ready = True
    spec = DLTSpec(st)
    spec.repeats = m

    class TMap(object):
        def __init__(self, i): self.i = i
        def cell_dofs(self, c): return VList([SNum(st.tdofs[self.i](zz(c)))])

    class FMap(object):
        def __init__(self, i): self.i = i
        def entity_dofs(self, mesh, d):
            e.prove(z3.BoolVal(mesh is st.mesh and d == st.gdim - 1), 'requires of entity_dofs: the facets of the mesh')
            f = st.fdofs[self.i]

            class Table(object):
                def __getitem__(self, k): return SNum(f(zz(k)))
                def __vc_subst__(self, pairs): return self
            return Table()
    for S, cls in ((st.T, TMap), (st.V, FMap)):
        S.num_sub_spaces = lambda: n
        S.dofmap = lambda cls=cls: cls(0)
        S.sub = lambda i, cls=cls: types.SimpleNamespace(dofmap=lambda: cls(i))

    def run(spec):
        md = st.world(spec)
        returned(md.DLT_trace_mat(st.V, st.T, given(st, e, True), st.data), spec, e)
    return spec, run


@contract('C10', TM + ':trace_mat', assumes=['C07: keys of memoized matrices'], min_obligations=8)
def trace_mat(e):
    """Dispatch"""
    r = [None, '', '+', '-', 'avg', 'jump', 'max'][e.choose(7)]
    normal, tags, mesh = ['n', None][e.choose(2)], ['tags', None][e.choose(2)], types.SimpleNamespace(id=lambda: 7, geometry=lambda: types.SimpleNamespace(dim=lambda: 3), ufl_cell=lambda: 'triangle')
    shapes = [(), (3, )]
    sv, sT = shapes[e.choose(2)], shapes[e.choose(2)]
    cell = ['triangle', 'interval'][e.choose(2)]
    V = types.SimpleNamespace(ufl_element=lambda: types.SimpleNamespace(value_shape=lambda: sv), mesh=lambda: mesh, cell=cell)
    T = types.SimpleNamespace(ufl_element=lambda: types.SimpleNamespace(value_shape=lambda: sT), mesh=lambda: mesh)
    tm = [mesh, None][e.choose(2)]
    w = lm.world(dolfin=dict(PETScMatrix=lambda m: ('PETScMatrix', m)), petsc={},
                 stubs={'numpy': lm.np_stub(), 'scipy.sparse': R.stub('s', csr_matrix=None), 'tqdm': R.stub('tqdm'),
                        'xii.assembler.fem_eval': R.stub('fe', DegreeOfFreedom=None, FEBasisFunction=None),
                        'xii.linalg.matrix_utils': R.stub('mu', petsc_serial_matrix=None),
                        'xii.assembler.cache_keys': R.stub('ck', space_key=id, value_key=lambda x: x),
                        'xii.assembler.trace_assembly': R.stub('ta', trace_cell=lambda V: V.cell),
                        'xii.meshing.embedded_mesh': R.stub('em', build_embedding_map=None),
                        'xii.assembler.nonconforming_trace_matrix': R.stub('nc', nonconforming_trace_mat=None)})
    m = w.load(TM)
    bind = lambda kind, names: lambda *a, **k: (kind, dict(zip(names, a), **k))
    m.trace_mat_no_restrict = bind('none', ('V', 'TV', 'trace_mesh', 'tag_data'))
    m.trace_mat_one_restrict = bind('one', ('V', 'TV', 'restriction', 'normal', 'trace_mesh', 'tag_data'))
    m.trace_mat_two_restrict = bind('two', ('V', 'TV', 'restriction', 'normal', 'trace_mesh', 'tag_data'))
    bad = sv != sT or cell != 'triangle' or (r and normal is None) or r == 'max'
    try:
        got = m.trace_mat(V, T, tm, dict(restriction=r, normal=normal, tag_data=tags))
    except AssertionError:
        return e.prove(z3.BoolVal(bool(bad)), 'ensures no exception for spaces, restrictions and normals that fit')
    e.prove(z3.BoolVal(not bad), 'ensures an exception if spaces, restriction and normal do not fit')
    want = dict(V=V, TV=T, trace_mesh=tm, tag_data=tags)
    if r: want.update(restriction=r, normal=normal)
    kind = 'one' if r in ('+', '-') else 'two' if r else 'none'
    e.prove(z3.BoolVal(got[0] == 'PETScMatrix' and got[1][0] == kind and got[1][1] == want), 'ensures the matrix for the restriction, normal and tags')


class Keys(object):
    """Keys of a map: a set of cells"""
    def __init__(self, has): self.has = has
    def __vc_set__(self): return self


class CellMap(object):
    """Map of cells; has(tag): all cells with the tag are mapped"""
    def __init__(self, has): self.has = dict(has)
    def keys(self): return Keys(self.has)
    def update(self, o):
        for t in self.has: self.has[t] = z3.Or(self.has[t], o.has.get(t, z3.BoolVal(False)))


class WithTag(object):
    def __init__(self, t): self.t = t
    def __vc_set__(self): return self
    def __le__(self, o): return SBool(o.has[self.t])
    def issubset(self, o): return self <= o


@contract('C10', TM + ':get_entity_map', bounded='two tags', assumes=['build_embedding_map (C09)'], min_obligations=8)
def get_entity_map(e):
    none = e.choose(2)
    tags = None if none else [(4, 7), {4, 7}, [7]][e.choose(3)]
    marks = None
    given_marks = not none or e.choose(2)
    want = {0} if none else set(tags)

    class MF(object):
        def __init__(self, zero): self.zero = zero
        def dim(self): return 1
        def where_equal(self, t): return WithTag(t)
    marks = MF(False) if given_marks else None
    mesh = types.SimpleNamespace(id=lambda: 11)
    tmesh = types.SimpleNamespace(topology=lambda: types.SimpleNamespace(dim=lambda: 1))
    has = {t: z3.Bool('mapped%d' % t) for t in (0, 4, 7)}
    kind = e.choose(4)                 # what there is: nothing, tags, a map of another mesh, a map of the mesh
    other = CellMap({})
    if kind == 1: tmesh.tagged_cells = set()
    if kind >= 2:
        tmesh.tagged_cells = {1}
        tmesh.parent_entity_map = {5: {0: other, 1: other}}
        if kind == 3: tmesh.parent_entity_map[11] = {0: CellMap(has), 1: CellMap(has)}
    built = []

    def build(t, m, f, ts):
        e.prove(z3.BoolVal(t is tmesh and m is mesh), 'requires of build_embedding_map: the meshes')
        e.prove(z3.BoolVal(f is marks if given_marks else isinstance(f, MF) and f.zero), 'requires of build_embedding_map: the marks')
        e.prove(z3.BoolVal(set(ts) <= want), 'requires of build_embedding_map: the tags')
        built.append(1)
        if e.choose(2): raise AssertionError('not embedded')
        new = {x: z3.BoolVal(x in set(ts)) for x in (0, 4, 7)}
        return {0: CellMap(new), 1: CellMap(new)}

    def zero(kind, m, d, value=0):
        e.prove(z3.BoolVal(m is tmesh and d == 1 and value == 0), 'ensures all cells have the tag 0 if there are no marks')
        return MF(True)
    m = lm.world(dolfin=dict(MeshFunction=zero, info=lambda *a: None, warning=lambda *a: None), petsc={},
                 stubs={'numpy': lm.np_stub(), 'scipy.sparse': R.stub('s', csr_matrix=None), 'tqdm': R.stub('tqdm'),
                        'xii.assembler.fem_eval': R.stub('fe', DegreeOfFreedom=None, FEBasisFunction=None),
                        'xii.linalg.matrix_utils': R.stub('mu', petsc_serial_matrix=None),
                        'xii.assembler.cache_keys': R.stub('ck', space_key=id, value_key=lambda x: x),
                        'xii.assembler.trace_assembly': R.stub('ta', trace_cell=None),
                        'xii.meshing.embedded_mesh': R.stub('em', build_embedding_map=build),
                        'xii.assembler.nonconforming_trace_matrix': R.stub('nc', nonconforming_trace_mat=None)}).load(TM)
    try:
        r = m.get_entity_map(mesh, tmesh, marks, tags)
    except AssertionError:
        return e.prove(z3.BoolVal(bool(built)), 'ensures no exception unless the mesh is not embedded')
    e.prove(z3.BoolVal(r is True), 'ensures the result is True')
    mp = tmesh.parent_entity_map
    e.prove(z3.BoolVal(11 in mp and set(mp[11]) >= {0, 1}), 'ensures the map of vertices and cells')
    for d in (0, 1):
        e.prove(z3.And([mp[11][d].has[t] for t in want]), 'ensures all cells with the tags are mapped')
    if kind == 3: e.prove(z3.And([z3.Implies(has[t], mp[11][1].has[t]) for t in has]), 'ensures cells mapped before still are')
    if kind >= 2: e.prove(z3.BoolVal(mp[5][0] is other and mp[5][1] is other), 'frame: maps of other meshes')
    e.prove(z3.BoolVal(hasattr(tmesh, 'tagged_cells')), 'ensures the mesh knows its tags')
