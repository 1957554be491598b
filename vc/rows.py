"""Models for functions that fill a reduction matrix row by row.

An entry of such a matrix is the degree of freedom (c, l) of the target applied to basis function (d, j) of the source,
`VAL(c, l, d, j)`.  The functions under contract loop over cells and local dofs, keep track of rows they have filled and
give the rows to PETSc (setValues) or to scipy (csr_matrix of the lists of entries, repeated entries add up).

What is to be proved for every iteration of the loops (for a matrix of any size):
  every entry given is (Tdof(c, l), Vdof(parent(c), j), VAL(c, l, parent(c), j)), all j once
  a row is given if and only if it is not marked as filled; it is marked if and only if it has been given   (invariant)
  the loops go over all cells and all local dofs
From the invariant follows: every row is filled exactly once.
"""
import types
import z3
from .engine import eng, Int, SNum, SBool, SymSeq, VList, SArr2, zz, wrap, seq, const_seq, Unsupported, as_bool, subst, pieces_of, NESTED
from . import runtime as R
from . import linmodel as lm
from .models import State

I, RR, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()


class Dim(SNum):
    """Number of dofs: arrays of that many flags are tracked by an invariant"""
    def __vc_repeat__(self, lst):
        if len(lst) == 1 and lst[0] in (True, False): return Flags(lst[0])
        return VList(seq(lst) * SNum(self.e))


class Flags(object):
    """Array of flags, one for each row.  Its content before an iteration is any; reads give what was stored last"""
    __vc_track__ = True
    __vc_array__ = True

    def __init__(self, init):
        e = eng()
        self.ident = next(e.serial)
        e.tracked[self.ident] = self
        self.init, self.epoch, self.stores, self.masks = init, 0, [], []
        log().flags.append(self)

    def __vc_forget__(self, name): self.epoch, self.stores = self.epoch + 1, []

    def state(self, d): return self.snapshot()(d)

    def snapshot(self):
        """Content when this iteration began"""
        fr = [f for f in eng().frames if self.ident < f.serial0]
        if not fr and not self.epoch: return lambda d: z3.BoolVal(self.init)
        idx = [i for f in fr for i in f.idx]
        F = z3.Function('flags%d_%d_%d' % (self.ident, self.epoch, len(idx)), *([I]*len(idx) + [I, B]))
        return lambda d: F(*(idx + [zz(d)]))

    def filled(self, d):
        """Invariant: the mark says that row d has been given"""
        s = self.state(d)
        return z3.Not(s) if self.init else s

    def reader(self):
        """The content now"""
        state, stores = self.snapshot(), list(self.stores)

        def get(d):
            r = state(d)
            for where, v in stores:
                if isinstance(where, SymSeq): raise Unsupported('flags read after they were set for several rows')
                r = z3.If(zz(where) == zz(d), z3.BoolVal(v), r)
            return SBool(r)
        return get

    def get(self, d): return self.reader()(d)

    def __getitem__(self, d):
        if isinstance(d, (int, SNum)): return self.get(d)
        s = seq(d)
        if s is None: raise Unsupported('index of flags')
        m = Mask(self, s)
        self.masks.append(m)
        return m

    def __setitem__(self, d, v):
        if v not in (True, False): raise Unsupported('flag set to a value which is not constant')
        for f in eng().frames:
            if self.ident < f.serial0: f.attrs.append((self.ident, 'content'))
        self.stores.insert(0, (d if isinstance(d, (int, SNum)) else seq(d), bool(v)))

    def __vc_subst__(self, pairs): raise Unsupported('flags kept in a list')


class Mask(object):
    """Flags of several rows: a boolean array.  Selecting by it gives the items k(0), .., k(m-1) where it is set, in order"""
    __vc_array__ = True

    def __init__(self, flags, s, neg=False):
        self.flags, self.s, self.neg, self.read = flags, s, neg, flags.reader()
        e = eng()
        idx = [i for f in e.frames for i in f.idx]
        name = 'sel%d_%d_%d_%d' % (flags.ident, flags.epoch, len(flags.masks), neg)
        self.m = SNum(z3.Function(name + '_n', *([I]*len(idx) + [I]))(*idx) if idx else z3.Int(name + '_n'))
        F = z3.Function(name, *([I]*len(idx) + [I, I]))
        self.sel = lambda k: SNum(F(*(idx + [zz(k)])))
        k = z3.Int(e.fresh_name('k'))
        e.assume(z3.And(self.m.e >= 0, self.m.e <= zz(s.n)))
        val = lambda j: as_bool(self.at(j))
        e.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < self.m.e), z3.And(F(*(idx + [k])) >= 0, F(*(idx + [k])) < zz(s.n), val(SNum(F(*(idx + [k]))))))))

    def at(self, j):
        r = as_bool(self.read(self.s.get(j)))
        return SBool(z3.Not(r) if self.neg else r)

    def __vc_total__(self, start=0): return self.m + start if not (isinstance(start, int) and start == 0) else self.m
    sum = __vc_total__
    def __vc_seq__(self): return SymSeq(self.s.n, self.at, 'array')
    def __invert__(self):
        m = Mask(self.flags, self.s, not self.neg)
        self.flags.masks.append(m)
        return m
    def __vc_subst__(self, pairs): raise Unsupported('mask kept in a list')

    def select(self, s):
        s = seq(s)
        eng().prove(zz(s.n) == zz(self.s.n), 'requires of selection by a mask: as many items')
        sel, m = self.sel, self.m
        return SymSeq(m, lambda k: s.get(sel(k)), 'array')


class Dofs(SymSeq):
    """Dofs of a cell: an array of integers"""
    def __init__(self, n, get): SymSeq.__init__(self, n, get, 'array')

    def __getitem__(self, k):
        if isinstance(k, Mask): return k.select(self)
        return SymSeq.__getitem__(self, k)

    def __vc_subst__(self, pairs):
        g = self.get
        return Dofs(subst(self.n, pairs), lambda k: subst(g(k), pairs))


class Values(SymSeq):
    """An array of numbers"""
    def __init__(self, n, get): SymSeq.__init__(self, n, get, 'array')

    def __getitem__(self, k):
        if isinstance(k, Mask): return k.select(self)
        return SymSeq.__getitem__(self, k)

    def __mul__(self, o):
        g = self.get
        if isinstance(o, (int, float, SNum)): return Values(self.n, lambda k: g(k)*o)
        return NotImplemented
    __rmul__ = __mul__

    def __truediv__(self, o):
        g = self.get
        if isinstance(o, (int, float, SNum)): return Values(self.n, lambda k: g(k)/o)
        return NotImplemented

    def __add__(self, o):
        g = self.get
        if not isinstance(o, Values): return SymSeq.__add__(self, o)
        eng().prove(zz(o.n) == zz(self.n), 'requires of the sum: as many values')
        return Values(self.n, lambda k: g(k) + o.get(k))

    def __vc_subst__(self, pairs):
        g = self.get
        return Values(subst(self.n, pairs), lambda k: subst(g(k), pairs))


class Rows(VList):
    """Two dimensional array whose rows are assigned whole: a[i][:] = .., a[i, :] = .., a[i] = .."""
    def __init__(self, nr, nc, rows=None):
        self.nc = nc
        VList.__init__(self, ())
        self._set(rows if rows is not None else SymSeq(nr, lambda k: SymSeq(nc, lambda j: 0.0, 'array')))

    @property
    def shape(self): return (R.v_len(self), self.nc)

    def whole(self, s): return isinstance(s, slice) and s.start is None and s.stop is None and s.step is None

    def __getitem__(self, k):
        if isinstance(k, tuple):
            i, j = k
            if self.whole(i) and isinstance(j, Mask):
                rows = seq(self)
                return Grid(rows.n, j.m, lambda a, b: rows.get(a).get(j.sel(b)))
            if isinstance(i, (int, SNum)) and not isinstance(i, slice): return self[i][j]
            raise Unsupported('index of an array')
        if isinstance(k, (int, SNum)): return RowOf(self, k)
        raise Unsupported('index of an array')

    def __setitem__(self, k, v):
        if isinstance(k, tuple):
            if not self.whole(k[1]): raise Unsupported('store into a part of a row')
            k = k[0]
        s = seq(v)
        if s is None: raise Unsupported('row set to %s' % type(v).__name__)
        eng().prove(zz(s.n) == zz(self.nc), 'requires of the assignment of a row: as many values')
        VList.__setitem__(self, k, s)

    @property
    def flat(self):
        rows = seq(self)
        return Grid(rows.n, self.nc, lambda a, b: rows.get(a).get(b)).flat
    def flatten(self, order='C'):
        if order != 'C': raise Unsupported('order of the entries')
        return self.flat
    ravel = flatten

    @property
    def T(self):
        rows = seq(self)
        return Grid(self.nc, rows.n, lambda a, b: rows.get(b).get(a))


class RowOf(object):
    def __init__(self, a, k): self.a, self.k = a, k

    def __setitem__(self, j, v):
        if not self.a.whole(j): raise Unsupported('store into a part of a row')
        self.a[self.k] = v
    def __vc_seq__(self): return VList.__getitem__(self.a, self.k)
    def __getitem__(self, j): return seq(self)[j]


class Grid(object):
    """Two dimensional array"""
    __vc_array__ = True
    def __init__(self, nr, nc, get): self.nr, self.nc, self.get = nr, nc, get

    @property
    def flat(self):
        g = self.get
        return SymSeq._make(self.nr*self.nc, (self.nr, self.nc), lambda idx: g(*idx), 'array')

    def flatten(self, order='C'):
        if order == 'C': return self.flat
        return self.T.flat
    ravel = flatten

    @property
    def T(self):
        g = self.get
        return Grid(self.nc, self.nr, lambda a, b: g(b, a))

    def __getitem__(self, k):
        if isinstance(k, tuple) and isinstance(k[0], slice) and k[0] == slice(None) and isinstance(k[1], Mask):
            g, sel = self.get, k[1].sel
            return Grid(self.nr, k[1].m, lambda a, b: g(a, sel(b)))
        raise Unsupported('index of an array')

    def __vc_subst__(self, pairs):
        g = self.get
        return Grid(subst(self.nr, pairs), subst(self.nc, pairs), lambda a, b: subst(g(a, b), pairs))


# --------------------------------------------------------------- mesh, spaces
class Mesh(object):
    n = 0

    def __init__(self, name, tdim, gdim, **kw):
        self.name, self.tdim, self.gdim = name, tdim, gdim
        self.cells = Int('cells_' + name, 1)
        Mesh.n += 1
        self.id_ = 'mesh ' + name
        self.__dict__.update(kw)
    def id(self): return self.id_
    def num_cells(self): return self.cells
    def topology(self): return Topology(self)
    def geometry(self): return types.SimpleNamespace(dim=lambda: self.gdim)
    def mpi_comm(self): return None
    def init(self, *a): pass
    def __vc_subst__(self, pairs): return self


class Topology(object):
    def __init__(self, mesh): self.mesh = mesh
    def dim(self): return self.mesh.tdim
    def __call__(self, a, b): return self.mesh.connectivity(a, b)


class FESpace(object):
    """Space on a mesh with dof(c, l) and nl dofs in each cell"""
    def __init__(self, name, mesh, element, nl=None):
        e = eng()
        self.name, self.mesh_, self.el = name, mesh, element
        self.dof = z3.Function(e.fresh_name('dof_' + name), I, I, I)
        self.nl = nl if nl is not None else Int('nl_' + name, 1)
        self.size = Dim(z3.Int(e.fresh_name('dim_' + name)))
        e.assume(self.size.e >= 1)
    def mesh(self): return self.mesh_
    def dim(self): return self.size
    def ufl_element(self): return self.el
    def element(self): return types.SimpleNamespace(space_dimension=lambda: self.nl, V=self)
    def dofmap(self): return self
    def num_sub_spaces(self): return 0
    def __vc_subst__(self, pairs): return self

    def cell_dofs(self, c):
        eng().prove(z3.And(zz(c) >= 0, zz(c) < self.mesh_.cells.e), 'requires of cell_dofs: a cell of the mesh')
        d, c = self.dof, zz(c)
        return Dofs(self.nl, lambda k: SNum(d(c, zz(k))))


class Evaluator(State):
    """fem_eval.DegreeOfFreedom and FEBasisFunction (see their contracts in C18)"""
    def __init__(self, V):
        State.__init__(self)
        self.V, self.elm, self.mesh = V, V.element(), V.mesh()
        self.cell, self.dof = 0, 0

    def __setattr__(self, a, v):
        if a in ('cell', 'dof') and not isinstance(v, (int, SNum)): raise Unsupported('%s is not an index' % a)
        if a == 'cell': eng().prove(z3.And(zz(v) >= 0, zz(v) < self.V.mesh().cells.e), 'requires: the cell is one of the mesh of the space')
        if a == 'dof': eng().prove(z3.And(zz(v) >= 0, zz(v) < zz(self.V.nl)), 'requires: the local dof is one of the element')
        self.__dict__[a] = v


VAL = z3.Function('VAL', I, I, I, I, RR)


class DegreeOfFreedom(Evaluator):
    def eval(self, f):
        if not isinstance(f, FEBasisFunction): raise Unsupported('dof of something else than a basis function')
        L = log()
        L.T, L.V = self.V, f.V
        return SNum(VAL(zz(self.cell), zz(self.dof), zz(f.cell), zz(f.dof)))

    def eval_dofs(self, f):
        if not isinstance(f, FEBasisFunction): raise Unsupported('dof of something else than a basis function')
        c, d, j = zz(self.cell), zz(f.cell), zz(f.dof)
        L = log()
        L.T, L.V = self.V, f.V
        return Values(self.V.nl, lambda k: SNum(VAL(c, zz(k), d, j)))


class FEBasisFunction(Evaluator):
    def __init__(self, V):
        Evaluator.__init__(self, V)
        log().funs.append(self)


# --------------------------------------------------------------- what is given to the matrix
class Log(object):
    """Kept over all paths of one contract"""
    def __init__(self, e, spec):
        self.e, self.spec = e, spec       # spec: Spec
        self.entries = []                 # iterations that extend the lists of entries
        self.begin()

    def begin(self):
        """A path begins"""
        self.flags, self.calls, self.funs, self.passes, self.empties, self.accs = [], [], [], [], [], []
        self.T = self.V = None
        self.e.hooks.append(self.hook)
        self.e.exit_hooks.append(self.passed)

    def source(self):
        """Cell of the source the basis functions of which are evaluated"""
        self.e.expect(len(self.funs) == 1, 'one basis function')
        return zz(self.funs[0].cell)

    def passed(self, loop):
        if loop.mode == 'empty': return self.empties.append((len(self.e.frames), loop.it))
        if len(self.funs) == 1: self.passes.append((loop.site, self.funs[0].__dict__.get('cell')))

    # one row at a time
    def setValues(self, rows, cols, vals, mode):
        e, s = self.e, self.spec
        rows = seq(rows)
        e.expect(isinstance(rows.n, int) and rows.n == 1, 'rows are set one by one')
        cols, vals = seq(cols), seq(vals)
        fr = e.frames
        e.expect(len(fr) > 0, 'rows are set in loops')
        self.calls.append((fr[-1], rows.get(0)))
        row, at = s.target(fr)
        e.prove(zz(rows.get(0)) == row, 'ensures the row set is the one of the dof at hand')
        e.prove(zz(cols.n) == zz(vals.n), 'requires of setValues: a value for each column')
        n = s.ncols()
        e.prove(zz(cols.n) == zz(n), 'ensures all dofs of the source cell are columns')
        j = Int('j', 0)
        e.assume(j.e < zz(n))
        c, v = s.entry(at, j)
        e.prove(zz(cols.get(j)) == c, 'ensures the columns are the dofs of the source cell')
        e.prove(lm.real(vals.get(j)) == v, 'ensures the values are the dof of the target on the basis functions of the source')

    def hook(self, loop, frame):
        """End of an iteration"""
        e, s = self.e, self.spec
        fr = e.frames[:e.frames.index(frame) + 1]
        called = [r for f, r in self.calls if f is frame]
        direct, mixed = {}, set()
        for k, a in frame.appends.items():
            n = frame.inherited.count(k)           # what inner loops appended
            if n and len(a) > n: mixed.add(k)
            if len(a) > n and not any(p is NESTED for p in a): direct[k] = a
        mixed.update(frame.stores)
        lists = direct if len(direct) >= 3 else {}
        given = bool(called) or bool(lists)
        rec = dict(sites=tuple(f.key[1] for f in fr), keys=tuple(f.key for f in fr), pc=list(e.pc) + list(e.axioms), given=given, exits=[x[1] for x, _ in e.exits[frame.exits0:]], idle=None)
        rec.update(direct=set(direct), mixed=mixed, recorded=bool(lists))
        self.iters.append(rec)
        rec['times'] = {}
        s.step(self, fr, frame, rec, called, lists)

    def keep(self, fr, frame, rec, called, lists):
        e, s = self.e, self.spec
        if rec['given']:
            s.covers(fr)
            if lists: self.record(fr, {k: pieces_of(a) for k, a in lists.items()})
            self.marks(fr, called, rec)
        elif s.depth == len(fr) and not s.once and len(self.flags) == 1:
            F = self.flags[0]
            row, at = s.target(fr)
            rec['idle'] = z3.And(F.filled(row), z3.BoolVal(not F.stores))
            rec['left'] = F.filled(row)

    def marks(self, fr, called, rec):
        """The invariant on the marks is kept by the iteration"""
        e, s = self.e, self.spec
        if len(called) > 1: e.fail('ensures a row is given once')
        if s.once: return                     # rows are met once anyway
        e.expect(len(self.flags) == 1, 'one array marks the rows that are filled')
        F = self.flags[0]
        row, at = s.target(fr)
        e.prove(z3.Not(F.filled(row)), 'ensures a row is given once: it is not marked')
        if len(F.stores) != 1: e.fail('invariant: a row which is given is marked')
        else:
            e.expect(isinstance(F.stores[0][0], (int, SNum)), 'the mark of the row is set')
            e.prove(z3.And(zz(F.stores[0][0]) == row, z3.BoolVal(F.stores[0][1] != F.init)), 'invariant: a row which is given is marked')

    def iters_of_path(self): return [x for x, d in self.e.exits if d == 0 and any(r['given'] and r['keys'][0] == x for r in self.iters)]

    def finish(self):
        """The function returned: the loops that give rows did so for all of them"""
        e, s = self.e, self.spec
        top = [x for x, d in e.exits if d == 0]
        iters = [r for r in self.iters if r['keys'][0] in top]
        chains = set(r['sites'] for r in iters if r['given'])
        if not chains and self.empties: return s.none(self.empties)
        if not chains: return e.fail('ensures the rows of all cells are given')
        e.expect(len(chains) == 1, 'one loop gives the rows')
        chain, = chains
        for r in iters:
            if r['sites'] == chain and not r['given']:
                e.expect(r['idle'] is not None, 'iterations that give no row')
                self.under(r, r['idle'], 'ensures every row is given: rows left out are marked, no others')
            for n in range(1, len(chain)):
                k = r['exits'].count(chain[n])
                if r['sites'] == chain[:n] and k != r['times'].get(chain[n], 1):
                    self.under(r, r.get('skip', z3.BoolVal(False)) if k == 0 else z3.BoolVal(False), 'ensures the rows of every cell are given')
        if [x[1] for x in top].count(chain[0]) != s.repeats: e.fail('ensures the rows of all cells are given')

    def record(self, fr, got):
        e, s = self.e, self.spec
        dims = None
        items = {}
        for k, a in got.items():
            a = seq(a)
            items[k] = a
        nd = sorted(len(a.dims) for a in items.values())
        dims = next((a.dims for a in items.values() if len(a.dims) == nd[-1]))
        if nd[-1] == 1:
            j = z3.Int(e.fresh_name('j'))
            idx = (SNum(j), )
        else: idx = tuple(SNum(z3.Int(e.fresh_name('j'))) for _ in dims)
        rng = z3.And([z3.And(zz(q) >= 0, zz(q) < zz(d)) for q, d in zip(idx, dims)])
        flat = None
        at = {}
        for k, a in items.items():
            if len(a.dims) == len(dims):
                same = z3.And([zz(p) == zz(q) for p, q in zip(a.dims, dims)] + [z3.BoolVal(True)])
                at[k] = (same, zz(e.merged(lambda: a.getnd(idx), rng)))
            else:
                # same position in a flat list
                if flat is None: flat = wrap(zz(idx[0])*zz(dims[1]) + zz(idx[1]))
                total = wrap(zz(dims[0])*zz(dims[1]))
                at[k] = (zz(a.n) == zz(total), zz(e.merged(lambda: a.get(flat), rng)))
        self.entries.append(dict(pc=list(e.pc) + list(e.axioms), key=fr[0].key, at=at, idx=idx, dims=dims, rng=rng, fr=s.facts(fr, idx, dims)))

    def csr(self, vals, ii, jj, shape):
        """csr_matrix((vals, (ii, jj)), shape)"""
        e, s = self.e, self.spec
        ids = [getattr(x, 'ident', None) for x in (vals, ii, jj)]
        e.expect(None not in ids, 'lists of entries')
        if all(isinstance(seq(x).n, int) and seq(x).n == 0 for x in (vals, ii, jj)):
            e.expect(self.empties and not self.iters_of_path(), 'lists of entries filled in loops')
            s.none(self.empties)
            return CSR(self)
        by = set(getattr(seq(x), 'by', None) for x in (vals, ii, jj))
        e.expect(len(by) == 1 and None not in by, 'lists which one loop fills')
        top = [x for x, d in e.exits if d == 0]
        for r in self.iters:
            if r['keys'][0] not in top: continue
            e.expect(not r['mixed'] & set(ids), 'lists of entries extended in one place')
            e.expect(not r['direct'] & set(ids) or r['recorded'] and set(ids) <= r['direct'], 'the lists of entries are extended together')
        e.prove(z3.And(zz(shape[0]) == s.T.size.e, zz(shape[1]) == s.V.size.e), 'ensures the shape of the matrix')
        top = [x for x, d in e.exits if d == 0]
        entries = [en for en in self.entries if en['key'] in top]
        e.expect(any(set(ids) <= set(en['at']) for en in entries), 'lists of entries filled in loops')
        for en in entries:
            if not set(ids) <= set(en['at']): continue
            (s0, v), (s1, r), (s2, c) = (en['at'][k] for k in ids)
            self.under(en, z3.And(s0, s1, s2), 'ensures as many rows, columns and values')
            for want, got, text in ((en['fr'][0], r, 'row'), (en['fr'][1], c, 'column'), (en['fr'][2], v, 'value')):
                if got.sort() != want.sort(): got = z3.ToReal(got)
                self.under(en, got == want, 'ensures the %s of each entry' % text)
            self.under(en, en['fr'][3], 'ensures all entries of the row are given')
        return CSR(self)

    def under(self, en, goal, name):
        """Obligation of an iteration that was explored on another path"""
        e = self.e
        old = e.solver, e.pc, e.axioms
        walked, e.walked = e.walked, {}
        e.solver = z3.Solver()
        e.solver.set('timeout', e.timeout_ms)
        e.pc, e.axioms = list(en['pc']) + [en.get('rng', z3.BoolVal(True))], []
        e.solver.add(e.pc)
        frames, e.frames = e.frames, []
        try:
            e.prove(goal, name)
        finally:
            e.solver, e.pc, e.axioms = old
            e.frames, e.walked = frames, walked


class CSR(object):
    """The matrix of the entries"""
    def __init__(self, log, shape=None):
        self.log = log
        self.shape = ('shape', id(log))
        self.indptr, self.indices, self.data = ('indptr', self), ('indices', self), ('data', self)


class Mat(object):
    """petsc4py.PETSc.Mat that is filled row by row"""
    def __init__(self, T, V): self.T, self.V, self.done = T, V, False
    def setValues(self, rows, cols, vals, mode=None):
        eng().prove(z3.BoolVal(mode in ('insert', None)), 'requires of setValues: values are inserted')
        log().setValues(rows, cols, vals, mode)
    def assemble(self): self.done = True
    assemblyBegin = assemblyEnd = assemble


class AIJ(object):
    def __init__(self, csr): self.csr = csr
    def assemble(self): pass


LOGS = []
def log(): return LOGS[-1]


class Spec(object):
    """Rows of T from the values on the basis functions of V in the cell parent(c): loops over (c, l)"""
    once, depth = False, 2
    repeats = 1           # how often the loop over the cells is run

    def __init__(self, T, V, parent, cells=None):
        self.T, self.V, self.parent = T, V, parent
        self.cells = cells or (lambda i: i)         # target cell of iteration i of the outer loop
        self.ncells = T.mesh().cells

    def target(self, fr):
        e = eng()
        e.expect(len(fr) == 2 and all(len(f.idx) == 1 for f in fr), 'loops over cells and local dofs')
        c, l = self.cells(fr[0].idx[0]), fr[1].idx[0]
        return self.T.dof(c, l), (c, l)

    def ncols(self): return self.V.nl
    def none(self, empties): eng().expect(False, 'no rows')
    def step(self, L, *a): L.keep(*a)

    def entry(self, at, j):
        c, l = at
        d = self.parent(c)
        return self.V.dof(d, zz(j)), VAL(c, l, d, zz(j))

    def covers(self, fr):
        e = eng()
        e.expect(len(fr) == 2, 'loops over cells and local dofs')
        e.prove(zz(fr[0].n) == zz(self.ncells), 'ensures all cells are visited')
        e.prove(zz(fr[1].n) == zz(self.T.nl), 'ensures all local dofs are visited')

    def facts(self, fr, idx, dims):
        row, at = self.target(fr)
        c, v = self.entry(at, idx[0])
        return row, c, v, z3.BoolVal(len(dims) == 1) if len(dims) != 1 else zz(dims[0]) == zz(self.ncols())


def np_stub():
    np = lm.np_stub()
    base = dict(vars(np))

    def zeros(shape, dtype=None):
        if isinstance(shape, Dim) and dtype in (bool, 'bool'): return Flags(False)
        if isinstance(shape, tuple) and len(shape) == 2: return Rows(*shape)
        return base['zeros'](shape, dtype)

    def ones(shape, dtype=None):
        if isinstance(shape, Dim) and dtype in (bool, 'bool'): return Flags(True)
        if isinstance(shape, tuple): raise Unsupported('array of ones')
        return base['ones'](shape)

    def array(x, dtype=None):
        if isinstance(x, (Dofs, Values)): return x
        if isinstance(x, VList) and getattr(seq(x), 'by', None) is not None:
            # what loops collected, as it is now
            y = VList(())
            y._set(seq(x))
            y.ident = x.ident
            return y
        return base['array'](x, dtype)

    def tile(x, n):
        return base['tile'](x, n)

    def argsort(x):
        s = seq(x)
        perm = getattr(s, 'argsort', None)
        if perm is None: raise Unsupported('argsort')
        return perm

    def sum_(x):
        if hasattr(x, '__vc_total__'): return x.__vc_total__()
        return R.v_sum(x)
    np.__dict__.update(zeros=zeros, ones=ones, array=array, asarray=array, tile=tile, argsort=argsort, sum=sum_, count_nonzero=sum_,
                       empty=zeros)
    return np


def world(e, spec, **over):
    """Modules of /repo/xii/assembler with the models above"""
    L = spec.log
    L.e = e
    L.begin()
    LOGS[:] = [L]

    class Serial(object):
        def __init__(self, T, V, nnz=None): self.m = Mat(T, V)
        def __enter__(self):
            e.prove(z3.BoolVal(self.m.T is spec.T and self.m.V is spec.V), 'ensures the matrix maps the source to the target space')
            return self.m
        def __exit__(self, *a): return False

    def csr_matrix(data, shape=None):
        vals, (ii, jj) = data
        return L.csr(vals, ii, jj, shape)

    class PMat(object):
        def createAIJ(self, comm=None, size=None, csr=None, nnz=None):
            a, b, c = csr
            e.expect(isinstance(a[1], CSR), 'matrix of the entries')
            e.prove(z3.BoolVal(a[1] is b[1] is c[1] and (a[0], b[0], c[0]) == ('indptr', 'indices', 'data') and size == a[1].shape),
                    'requires of createAIJ: row pointers, columns and values of one matrix')
            return AIJ(a[1])
    petsc = dict(Mat=PMat, InsertMode=types.SimpleNamespace(INSERT_VALUES='insert', INSERT='insert', ADD_VALUES='add', ADD='add'),
                 COMM_SELF='self', COMM_WORLD='world')
    dolfin = dict(PETScMatrix=lambda m: ('PETScMatrix', m), warning=lambda *a: None, info=lambda *a: None)
    dolfin.update(over.pop('dolfin', {}))
    stubs = {'numpy': np_stub(),
             'scipy.sparse': R.stub('scipy.sparse', csr_matrix=csr_matrix),
             'xii.linalg.matrix_utils': R.stub('mu', petsc_serial_matrix=Serial, is_number=lambda x: isinstance(x, (int, float))),
             'xii.assembler.fem_eval': R.stub('fem', DegreeOfFreedom=DegreeOfFreedom, FEBasisFunction=FEBasisFunction),
             'xii.assembler.cache_keys': R.stub('ck', space_key=lambda x: x, value_key=lambda x: x),
             'xii': R.stub('xii'),
             'tqdm': R.stub('tqdm', tqdm=lambda x, **k: x)}
    stubs.update(over.pop('stubs', {}))
    return lm.world(dolfin=dolfin, petsc=petsc, stubs=stubs)


def contract_of(make):
    """make(e) -> (Spec, run): contract body with the log kept over its paths"""
    keep = {}

    def fn(e):
        spec, run = make(e)
        if keep.get('e') is not e: keep.update(e=e, log=Log.__new__(Log)); keep['log'].entries, keep['log'].iters = [], []
        L = keep['log']
        L.e, L.spec = e, spec
        spec.log = L
        return run(spec)
    fn.__name__ = make.__name__
    return fn


# --------------------------------------------------------------- contributions collected by columns
class Acc(object):
    """Dictionary with numbers (or arrays of them) for columns.  Its content before an iteration of a loop is any; what a step stores
    is judged by the contract.  The items are read when all loops that fill it are over."""
    __vc_track__ = True

    def __init__(self, default=None):
        e = eng()
        self.ident = next(e.serial)
        e.tracked[self.ident] = self
        self.epoch, self.stores, self.final, self.default = 0, [], None, default
        self.made = e.frames[-1] if e.frames else None
        log().accs.append(self)

    def __vc_forget__(self, name): self.epoch, self.stores = self.epoch + 1, []
    def __vc_subst__(self, pairs): raise Unsupported('dictionary made in a loop')

    def before(self):
        """Keys and values when this iteration began (or now, after the loops)"""
        e = eng()
        fr = [f for f in e.frames if self.ident < f.serial0]
        if not fr and not self.epoch: return (lambda c: z3.BoolVal(False)), (lambda c, s: z3.RealVal(0))
        idx = [i for f in fr for i in f.idx]
        K = z3.Function('keys%d_%d_%d' % (self.ident, self.epoch, len(idx)), *([I]*len(idx) + [I, B]))
        F = z3.Function('vals%d_%d_%d' % (self.ident, self.epoch, len(idx)), *([I]*len(idx) + [I, I, RR]))
        return (lambda c: K(*(idx + [c]))), (lambda c, s: F(*(idx + [c, s])))

    def value(self, get):
        n = log().spec.comps
        return SNum(get(z3.IntVal(0))) if n is None else Values(n, lambda s: SNum(get(zz(s))))

    def stored(self, c):
        for w, v in self.stores:
            if z3.eq(z3.simplify(zz(w)), z3.simplify(zz(c))): return v
        if self.stores: raise Unsupported('dictionary read after it was set')

    def content(self):
        if self.final is not None: return self.K, self.F
        return self.before()

    def __contains__(self, c):
        if self.stored(c) is not None: return True
        return bool(SBool(self.content()[0](zz(c))))

    def __getitem__(self, c):
        v = self.stored(c)
        if v is not None: return v
        K, F = self.content()
        c = zz(c)
        if self.default is not None: return self.value(lambda s: z3.If(K(c), F(c, s), z3.RealVal(0)))
        eng().prove(K(c), 'requires of the dictionary: the key is there')
        return self.value(lambda s: F(c, s))

    def get(self, c, default=None):
        v = self.stored(c)
        if v is not None: return v
        K, F = self.content()
        c = zz(c)
        if default is None or log().spec.comps is not None: return self[c] if SNum(c) in self else default
        return SNum(z3.If(K(c), F(c, z3.IntVal(0)), lm.real(default)))

    def __setitem__(self, c, v):
        e = eng()
        if self.final is not None: raise Unsupported('dictionary set after it was read')
        if not isinstance(c, (int, SNum)): raise Unsupported('key')
        for f in e.frames:
            if self.ident < f.serial0: f.attrs.append((self.ident, 'content'))
        self.stores.append((c, v))

    def all(self):
        """The items, in some order"""
        e = eng()
        if self.final is None:
            if self.stores or any(self.ident < f.serial0 for f in e.frames): raise Unsupported('dictionary read while it is filled')
            n = Int('items', 0)
            key = z3.Function(e.fresh_name('key'), I, I)
            K, F = self.before()
            e.schema(key, lambda k: e.axiom(z3.Implies(z3.And(k >= 0, k < n.e), K(key(k)))))
            self.final = n, (lambda k: SNum(key(zz(k)))), (lambda c, s=0: SNum(F(zz(c), zz(s))))
            self.K, self.F = K, F
        return self.final

    def items(self):
        n, key, val = self.all()
        return SymSeq(n, lambda k: (key(k), self.value(lambda s: self.F(zz(key(k)), s))))
    def keys(self):
        n, key, val = self.all()
        return SymSeq(n, key)
    __vc_seq__ = keys
    def values(self):
        n, key, val = self.all()
        return SymSeq(n, lambda k: self.value(lambda s: self.F(zz(key(k)), s)))
    def __vc_len__(self): return self.all()[0]
    def __iter__(self): raise Unsupported('dictionary')
    def __bool__(self): return bool(self.all()[0] > 0)


def accumulate(m):
    """Empty dictionaries of the module are such"""
    class VC(R.VC):
        @staticmethod
        def VDict(items=(), **kw):
            if not kw and isinstance(items, tuple) and not items: return Acc()
            return R.VDict(items, **kw)
    def dict_(*a, **kw): return Acc() if not a and not kw else R.v_dict(*a, **kw)

    def defaultdict(f=None, *a):
        if f in (R.v_float, R.v_int, float, int) and not a: return Acc(0)
        return R.defaultdict(f, *a)
    m._vc = VC
    m.__dict__['dict'] = dict_
    if 'defaultdict' in m.__dict__: m.defaultdict = defaultdict


# --------------------------------------------------------------- cells selected by tags
SUB = z3.Function('cell_with_tag', I, I, I, I)       # mark function, tag, k
SUBN = z3.Function('cells_with_tag', I, I, I)


class Marks(object):
    """Mark function: the cells of every tag, each once, are what SubsetIterator goes over"""
    def __init__(self, mesh, zero=False):
        self.mesh_, self.id_, self.zero = mesh, next(eng().serial), zero
        self.tdim = mesh.tdim
        e = eng()
        cells = mesh.cells.e

        def cell(f, tag, k): e.axiom(z3.Implies(z3.And(k >= 0, k < SUBN(f, tag)), z3.And(SUB(f, tag, k) >= 0, SUB(f, tag, k) < cells)))

        def count(f, tag):
            e.axiom(SUBN(f, tag) >= 0)
            if self.zero: e.axiom(z3.Implies(z3.And(f == self.id_, tag == 0), SUBN(f, tag) == cells))
        e.schema(SUB, cell)
        e.schema(SUBN, count)

    def mesh(self): return self.mesh_
    def dim(self): return self.tdim
    def id(self): return self.id_
    def array(self): return MarkValues(self)
    def __vc_subst__(self, pairs): return self

    def cell(self, tag, k): return SUB(z3.IntVal(self.id_), zz(tag), zz(k))
    def count(self, tag): return SUBN(z3.IntVal(self.id_), zz(tag))
    def where_equal(self, tag): return SymSeq(wrap(self.count(tag)), lambda k: SNum(self.cell(tag, k)), 'array')


class MarkValues(object):
    __vc_array__ = True
    def __init__(self, mf): self.mf = mf
    def __vc_set__(self):
        if not hasattr(self.mf, 'values'): self.mf.values = Tags('marks of %d' % self.mf.id_)
        return self.mf.values


class Tags(object):
    """A set of tags"""
    def __init__(self, name):
        e = eng()
        self.n = Int('ntags', 1)
        self.tag = z3.Function(e.fresh_name('tag'), I, I)
    def __vc_seq__(self): return SymSeq(self.n, lambda k: SNum(self.tag(zz(k))))
    def __vc_set__(self): return self
    def __vc_subst__(self, pairs): return self
    def __bool__(self): return True


class Entity(object):
    """A mesh entity, only its index"""
    def __init__(self, i): self.i = i
    def index(self): return self.i
    def __vc_subst__(self, pairs): return Entity(subst(self.i, pairs))


def SubsetIterator(mf, tag):
    if not isinstance(mf, Marks): raise Unsupported('SubsetIterator')
    return SymSeq(wrap(mf.count(tag)), lambda k: Entity(SNum(mf.cell(tag, k))))


def goes_over(it, mf, tags):
    """The sequence `it` has the cells with the tags, each once"""
    e = eng()
    ts = seq(tags)
    if ts is None: ts = const_seq(list(tags))
    if isinstance(ts.n, int) and ts.n == 1:
        t = ts.get(0)
        k = Int('k', 0)
        e.prove(zz(it.n) == mf.count(t), 'ensures the cells with the tags are visited, each once')
        e.assume(k.e < zz(it.n))
        return e.prove(zz(it.get(k)) == mf.cell(t, k), 'ensures the cells with the tags are visited, each once')
    e.expect(getattr(it, 'pieces', None) is not None, 'cells collected tag by tag')
    n, size, piece, S = it.pieces
    e.prove(zz(n) == zz(ts.n), 'ensures the cells with all tags are visited')
    t, k = Int('t', 0), Int('k', 0)
    e.assume(t.e < zz(n))
    e.prove(zz(size(t)) == mf.count(ts.get(t)), 'ensures the cells with the tags are visited, each once')
    e.assume(k.e < zz(size(t)))
    e.prove(zz(piece(t).get(k)) == mf.cell(ts.get(t), k), 'ensures the cells with the tags are visited, each once')


# --------------------------------------------------------------- vectors of the space the mesh is in
class Vec(object):
    """Vector of two or three components"""
    __vc_array__ = True
    def __init__(self, xs): self.xs = [lm.real(x) for x in xs]
    def __vc_seq__(self): return const_seq([SNum(x) for x in self.xs], 'array')
    def __len__(self): return len(self.xs)
    def __iter__(self): return iter([SNum(x) for x in self.xs])
    def __getitem__(self, k):
        if isinstance(k, slice): return Vec(self.xs[k])
        if isinstance(k, int): return SNum(self.xs[k])
        raise Unsupported('component of a vector')
    @property
    def shape(self): return (len(self.xs), )
    def copy(self): return Vec(self.xs)
    def tolist(self): return [SNum(x) for x in self.xs]
    def _with(self, o, f):
        if isinstance(o, Vec):
            if len(o.xs) != len(self.xs): raise ValueError('shapes of vectors')
            return Vec([f(a, b) for a, b in zip(self.xs, o.xs)])
        if isinstance(o, (int, float, SNum)): return Vec([f(a, lm.real(o)) for a in self.xs])
        return NotImplemented
    def __add__(self, o): return self._with(o, lambda a, b: a + b)
    def __sub__(self, o): return self._with(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._with(o, lambda a, b: b - a)
    __radd__ = __add__
    def __mul__(self, o): return self._with(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __neg__(self): return Vec([-x for x in self.xs])
    def __truediv__(self, o):
        if isinstance(o, Scale): return Over(self, o)
        if isinstance(o, (int, float)): return Vec([x/lm.real(o) for x in self.xs])
        raise Unsupported('division of a vector')
    def dot(self, o): return inner(self, o)
    __matmul__ = dot
    def __vc_subst__(self, pairs): return Vec([subst(SNum(x), pairs).e for x in self.xs])


class Scale(SNum):
    """Length of a vector, not zero"""


class Over(object):
    """v/|v| or another vector divided by a length"""
    __vc_array__ = True
    def __init__(self, v, s): self.v, self.s = v, s
    def __neg__(self): return Over(-self.v, self.s)
    def __vc_subst__(self, pairs): raise Unsupported('unit vector kept in a list')


DOT = {g: z3.Function('dot%d' % g, *([RR]*(2*g) + [RR])) for g in (2, 3)}


def poly(a, b):
    """The inner product of vectors: a function whose definition is used only where it is needed"""
    xs, ys, g = [z3.simplify(x) for x in a.xs], [z3.simplify(y) for y in b.xs], len(a.xs)
    sign = 1
    for v in (xs, ys):
        w = [z3.simplify(-x) for x in v]
        if str(w) < str(v):
            v[:] = w
            sign = -sign
    if str(ys) < str(xs): xs, ys = ys, xs
    e = eng()

    def law(*q):
        t = DOT[g](*q)
        e.lazy.setdefault(t.get_id(), t == z3.Sum([x*y for x, y in zip(q[:g], q[g:])]))
    e.schema(DOT[g], law)
    d = DOT[g](*(xs + ys))
    return d if sign > 0 else -d


def inner(a, b):
    over = [x.s for x in (a, b) if isinstance(x, Over)]
    a, b = (x.v if isinstance(x, Over) else x for x in (a, b))
    if not isinstance(a, Vec) or not isinstance(b, Vec): raise Unsupported('inner product')
    if len(a.xs) != len(b.xs): raise ValueError('shapes of vectors')
    d = poly(a, b)
    if not over: return SNum(d)
    # lengths are positive: the sign is that of the product of the vectors
    e = eng()
    q = z3.Real(e.fresh_name('q'))
    e.axiom(z3.And((q > 0) == (d > 0), (q < 0) == (d < 0)))
    return SNum(q)


def norm(v, ord=None):
    """Not zero (see what is assumed)"""
    if not isinstance(v, Vec) or ord not in (None, 2): raise Unsupported('norm')
    e = eng()
    s = z3.Real(e.fresh_name('norm'))
    e.axiom(s > 0)
    d = poly(v, v)
    e.lazy[d.get_id()] = s*s == d
    return Scale(s)


class Points(object):
    """Vectors attached to the cells of a mesh"""
    def __init__(self, name, dim):
        e = eng()
        self.fs = [z3.Function(e.fresh_name('%s%d' % (name, i)), I, RR) for i in range(dim)]
    def at(self, c): return Vec([f(zz(c)) for f in self.fs])
