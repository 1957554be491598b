"""C03: Dirichlet conditions on block systems.

rows    = offset(i) + dof, in order of the conditions;   x = the values at these rows (the last one if repeated), 0 elsewhere
apply_bc  ensures  exactly one elimination of `rows` of convert(A) with the diagonal `diag_val`, the vector x and the
                   right hand side convert(b) (rows and columns if symmetric, rows otherwise), and the blocks of the
                   result are index sets offset(i) .. offset(i + 1) - 1 of what was eliminated
          frame    A, b are not written (convert makes new ones; requires of PETSc calls: on these)
apply_b   ensures  entry p = diag*x(p) for constrained p, else g(p) - (A x)(p) (symmetric) or g(p)
as_block  see C02
"""
import z3
from vc.contract import contract
from vc.engine import eng, Int, Real, SymSeq, VList, zz, wrap, seq, SNum, SBool, Unsupported, const_seq, concat, as_bool
from vc import linmodel as lm, runtime as R
from vc.models import AVal, fun, indexed, some
from contracts.c02 import bc_world, FunctionSpace, IS, BC, SIZE

ASSUME = ['petsc4py: zeroRows(Columns)(rows, diag, x, b) eliminates as documented; setValues inserts, the last value wins; '
          'mult, axpy, copy, createVecs, IS.createStride as documented',
          'convert of a block matrix / vector (contracts of C02)', 'cbc.block: block_vec and block_mat are containers']


class Flat(object):
    """Monolithic PETSc.Vec: index -> real"""
    def __init__(self, at, n, name): self.at, self.n, self.name, self.log = at, n, name, []

    def copy(self): return Flat(self.at, self.n, 'copy of ' + self.name)

    def zeroEntries(self):
        self.at = lambda p: 0.0
        self.log.append('zero')

    set_zero = zeroEntries

    def setValues(self, rows, values, addv=None):
        rows, values, old = seq(rows), seq(values), self.at
        if not (rows.n == values.n): raise ValueError('rows and values')
        self.log.append('set')
        e = eng()
        q = z3.Int(e.fresh_name('q'))

        def at(p):
            e = eng()
            w = last_writer(rows, p)
            return old(p) if w is None else values.get(w)
        self.at = at

    def setValue(self, r, v): self.setValues([r], [v])

    def getValues(self, rows):
        s = seq(rows)
        at = self.at
        return SymSeq(s.n, lambda k: at(s.get(k)), 'array')

    def axpy(self, a, x):
        old, other = self.at, x.at
        self.at = lambda p: old(p) + a*other(p)
        self.log.append('axpy')

    def assemble(self, *a): return self
    assemblyBegin = assemblyEnd = assemble


def last_writer(rows, p):
    """None, or the last k with rows[k] == p (the path forks)"""
    e = eng()
    w, q = z3.Int(e.fresh_name('w')), z3.Int(e.fresh_name('q'))
    rng = z3.And(q >= 0, q < zz(rows.n))
    at = lambda k: zz(rows.get(SNum(k)))
    eq = lambda extra: e.merged(lambda: SBool(z3.Implies(extra, zz(rows.get(SNum(q))) != zz(p))), rng, SBool(z3.BoolVal(True)))
    if e.choose(2) == 0:
        e.assume(z3.And(0 <= w, w < zz(rows.n)))
        if e._check() == z3.unsat: raise R.E.Infeasible()
        e.assume(at(w) == zz(p))
        e.assume(z3.ForAll([q], z3.Implies(z3.And(rng, q > w), as_bool(eq(z3.BoolVal(True))))))
        if e._check() == z3.unsat: raise R.E.Infeasible()
        return SNum(w)
    e.assume(z3.ForAll([q], z3.Implies(rng, as_bool(eq(z3.BoolVal(True))))))
    if e._check() == z3.unsat: raise R.E.Infeasible()
    return None


class FMat(object):
    """Monolithic PETSc.Mat"""
    def __init__(self, n, name): self.size, self.name, self.calls, self.mults = (n, n), name, [], []

    def copy(self):
        c = FMat(self.size[0], self.name)
        c.origin = self
        return c

    def zeroRows(self, rows, diag=1.0, x=None, b=None): self.calls.append(('rows', rows, diag, x, b))
    def zeroRowsColumns(self, rows, diag=1.0, x=None, b=None): self.calls.append(('both', rows, diag, x, b))

    def createVecs(self, side=None):
        junk = [fun(eng().fresh_name('junk'), 'Int', 'Real') for _ in range(2)]
        return tuple(Flat(lambda p, j=j: SNum(j(zz(p))), self.size[0], 'new') for j in junk)

    def createVecRight(self): return self.createVecs()[0]
    createVecLeft = createVecRight

    def mult(self, x, y):
        y.of = x.at
        y.at = lambda p: SNum(self.product(zz(p)))
        y.log.append('mult')
        self.mults.append((x.at, list(self.calls)))

    def setOption(self, *a): pass
    assemble = assemblyBegin = assemblyEnd = setOption


class Wrapped(object):
    def __init__(self, o): self.o = o
    def mat(self): return self.o
    def vec(self): return self.o


class BVec(lm.PETScVector):
    """Block of the right hand side"""
    def __init__(self, n, at, name='b'): self.n, self.at, self.name = n, at, name

    def size(self): return self.n
    local_size = size


class Dirichlet(object):
    """dolfin.DirichletBC; the values may be updated between calls"""
    def __init__(self, d): self.d = d
    def get_boundary_values(self): return self.d


class Dofs(R.VDict):
    """{dof: value} with any number of entries"""
    def __init__(self, name, n):
        e = eng()
        R.VDict.__init__(self)
        self.m = Int('m_' + name, 1)
        self.K, self.version, self.name = fun(e.fresh_name('dof_' + name), 'Int', 'Int'), 0, name
        self.update_values()
        k = z3.Int(e.fresh_name('k'))
        e.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < self.m.e), z3.And(self.K(k) >= 0, self.K(k) < zz(n)))))

    def update_values(self): self.V = fun(eng().fresh_name('val_' + self.name), 'Int', 'Real')
    def keys(self): return SymSeq(self.m, lambda k: SNum(self.K(zz(k))))

    def values(self):
        V = self.V
        return SymSeq(self.m, lambda k: SNum(V(zz(k))))

    def items(self):
        V = self.V
        return SymSeq(self.m, lambda k: (SNum(self.K(zz(k))), SNum(V(zz(k)))))

    def __vc_seq__(self): return self.keys()
    def __vc_len__(self): return self.m
    def __bool__(self): return True

    def __iter__(self): raise Unsupported('iteration over conditions')


def layouts():
    """Which blocks have how many conditions, given as what"""
    return [((1, ), 'lists'), ((0, 1), 'lists'), ((1, 1), 'lists'), ((2, 1), 'lists'), ((0, 2), 'dict'), ((1, 0, 1), 'lists'), ((1, 0, 1), 'dict'), ((1, 1), 'bare')]


def system(e, counts, style):
    w = bc_world(dolfin=dict(DirichletBC=Dirichlet))
    w.stubs['dolfin'].__dict__['as_backend_type'] = lambda x: Wrapped(x) if isinstance(x, (Flat, FMat)) else x
    m = w.load(BC)
    ns = [Int('n%d' % k, 1) for k in range(len(counts))]
    off = [0]
    for n in ns: off.append(off[-1] + n)
    N = off[-1]
    conds = [[Dofs('%d%d' % (k, j), n) for j in range(c)] for k, (c, n) in enumerate(zip(counts, ns))]
    form = [[Dirichlet(d) if (k + j) % 2 else d for j, d in enumerate(l)] for k, l in enumerate(conds)]
    if style == 'dict': bcs = R.VDict([(k, VList(l)) for k, l in enumerate(form) if l])
    elif style == 'bare': bcs = VList([l[0] for l in form])
    else: bcs = VList([VList(l) for l in form])
    A = lm.block_mat(VList([VList([lm.PETScMatrix(lm.PMat(lm.Poly.atom('A%d%d' % (i, j)), (a, b))) for j, b in enumerate(ns)]) for i, a in enumerate(ns)]))
    g = fun(e.fresh_name('rhs'), 'Int', 'Real')
    b = lm.block_vec(VList([BVec(n, None) for n in ns]))
    rows, vals = const_seq([]), const_seq([])
    for k, l in enumerate(conds):
        for d in l: rows = concat(rows, SymSeq(d.m, lambda q, d=d, o=off[k]: o + SNum(d.K(zz(q)))))
    made = {}
    AX = fun(e.fresh_name('product'), 'Int', 'Real')

    def convert(x, algorithm='numpy'):
        if isinstance(x, lm.block_mat):
            e.prove(z3.BoolVal(x is A), 'requires of convert: the matrix')
            made['A'] = FMat(N, 'A')
            made['A'].product = AX
            made['A'].origin = None
            FMat.product = staticmethod(AX)
            return made['A']
        made.setdefault('b', [])
        r = Flat(lambda p: SNum(made_rhs(x)(zz(p))), N, 'b')
        r.source = x
        made['b'].append(r)
        return r

    def made_rhs(x):
        if x is b: return g
        return x.flat
    m.convert = convert

    def as_block(x, sets):
        made.setdefault('split', []).append((x, sets))
        return Split(x)
    m.as_block = as_block
    return m, A, b, bcs, conds, ns, off, N, rows, g, AX, made


class Split(object):
    """Blocks of a monolithic thing"""
    def __init__(self, x): self.x = x


def values_of(conds):
    v = const_seq([])
    for l in conds:
        for d in l: v = concat(v, d.values())
    return v


def check_sets(e, sets, off, ns):
    e.prove(zz(R.v_len(sets)) == len(ns), 'ensures one index set for each block')
    for i, n in enumerate(ns):
        s = seq(sets)
        a = seq(s.get(i).array)
        e.prove(zz(a.n) == n.e, 'ensures size of index set i')
        k = some(n)
        e.prove(zz(a.get(k)) == zz(off[i] + k), 'ensures index set i is offset(i), offset(i) + 1, ..')


def same_entries(e, rows, got, want, name):
    got, want = seq(got), seq(want)
    e.prove(zz(got.n) == zz(want.n), name + ' (number)')
    k = Int('k', 0)
    e.assume(k.e < zz(want.n))
    e.prove(zz(got.get(k)) == zz(want.get(k)), name)


def elimination(counts, style):
    def fn(e):
        m, A, b, bcs, conds, ns, off, N, rows, g, AX, made = system(e, counts, style)
        sym = bool(e.choose(2))
        diag = Real('diag')
        r = m.apply_bc(A, b, bcs, diag_val=diag, symmetric=sym)
        AA = made['A']
        e.expect(len(AA.calls) == 1, 'one elimination')
        kind, got, d, x, bb = AA.calls[0]
        e.prove(z3.BoolVal(kind == ('both' if sym else 'rows')), 'ensures columns are eliminated if symmetric')
        e.prove(zz(d) == diag.e, 'ensures the diagonal value')
        e.prove(z3.BoolVal(getattr(bb, 'source', None) is b and not bb.log), 'ensures the right hand side is the one given')
        which = e.choose(3)                     # one obligation at a time: they fork the path
        if which == 0: same_entries(e, None, got, rows, 'ensures rows are offset(i) + dof')
        elif which == 1:
            p = some(N)
            w = last_writer(rows, p)
            want = zz(0.0) if w is None else zz(values_of(conds).get(w))
            e.prove(zz(x.at(p)) == want, 'ensures x holds the values at the rows')
        else:
            A_, b_ = r
            e.prove(z3.BoolVal(isinstance(A_, Split) and A_.x is AA), 'ensures the matrix is made of blocks of the eliminated one')
            e.prove(z3.BoolVal(isinstance(b_, Split) and b_.x is bb), 'ensures the vector is made of blocks of the modified one')
            for _, sets in made['split']: check_sets(e, sets, off, ns)
    fn.__name__ = 'elimination_%s_%s' % ('_'.join(map(str, counts)), style)
    return fn


class Target(lm.block_vec):
    """Vector handed to the updater; copies go through *= 0 and += blocks"""
    def __imul__(self, a):
        self.log.append(('*', a))
        return self

    def __iadd__(self, x):
        self.log.append(('+', x))
        return self


def updater(counts, style):
    def fn(e):
        m, A, b, bcs, conds, ns, off, N, rows, g, AX, made = system(e, counts, style)
        sym = bool(e.choose(2))
        diag = Real('diag')
        r = m.apply_bc(A, b, bcs, diag_val=diag, symmetric=sym, return_apply_b=True)
        AA = made['A']
        for l in conds:
            for d in l: d.update_values()
        h = Target(VList([BVec(n, None) for n in ns]))
        h.log = []
        G = fun(e.fresh_name('given'), 'Int', 'Real')
        h.flat = G
        AA2 = []
        mult = FMat.mult

        def spy(self, x, y):
            e.prove(z3.BoolVal(not self.calls and (self is AA or getattr(self, 'origin', None) is AA)), 'requires: product with the matrix before elimination')
            AA2.append(x.at)
            return mult(self, x, y)
        FMat.mult = spy
        try:
            out = r[2](h)
        finally:
            FMat.mult = mult
        e.prove(z3.BoolVal(out is h), 'ensures the vector given is returned')
        e.expect(len(h.log) == 2 and h.log[0][0] == '*' and h.log[0][1] == 0 and h.log[1][0] == '+' and isinstance(h.log[1][1], Split),
                 'the vector given is overwritten by the result')
        res = h.log[1][1].x
        p = some(N)
        w = last_writer(rows, p)
        xp = zz(0.0) if w is None else zz(values_of(conds).get(w))
        if sym:
            e.expect(len(AA2) == 1, 'one product with the matrix')
            e.prove(zz(AA2[0](p)) == xp, 'requires of the product: the vector of values')
        want = lm.real(diag) * xp if w is not None else G(p.e) - AX(p.e) if sym else G(p.e)
        e.prove(zz(res.at(p)) == want, 'ensures entries as after elimination')
        for _, sets in made['split']: check_sets(e, sets, off, ns)
    fn.__name__ = 'updater_%s_%s' % ('_'.join(map(str, counts)), style)
    return fn


for _c, _s in layouts():
    _b = 'conditions on blocks given as %s, %s conditions (sizes, dofs, values arbitrary)' % (_s, _c)
    contract('C03', BC + ':apply_bc', assumes=ASSUME, bounded=_b)(elimination(_c, _s))
    contract('C03', BC + ':apply_bc', assumes=ASSUME, bounded=_b)(updater(_c, _s))


@contract('C03', BC + ':apply_bc', assumes=ASSUME)
def nothing_to_apply(e):
    """No conditions: the system comes back as it was"""
    m, A, b, bcs, conds, ns, off, N, rows, g, AX, made = system(e, (0, 0), 'lists')
    arg = [None, VList(), VList([VList(), VList()]), R.VDict()][e.choose(4)]
    updater = bool(e.choose(2))
    r = m.apply_bc(A, b, arg, diag_val=Real('diag'), symmetric=bool(e.choose(2)), return_apply_b=updater)
    e.prove(z3.BoolVal(len(r) == (3 if updater else 2)), 'ensures number of results')
    e.prove(z3.BoolVal(r[0] is A and r[1] is b), 'ensures the system is the one given')
    if updater:
        h = object()
        e.prove(z3.BoolVal(r[2](h) is h), 'ensures the updater changes nothing')


@contract('C03', BC + ':apply_bc', assumes=ASSUME)
def single_matrix(e):
    """Plain matrix and vector: wrapped, eliminated and unwrapped"""
    m, A, b, bcs, conds, ns, off, N, rows, g, AX, made = system(e, (1, ), 'lists')
    M, v = A.blocks[0, 0], b.blocks[0]
    got = {}

    def convert(x, algorithm='numpy'):
        if isinstance(x, lm.block_mat):
            e.prove(z3.BoolVal(x.blocks[0, 0] is M), 'requires of convert: the matrix')
            got['A'] = FMat(N, 'A')
            return got['A']
        e.prove(z3.BoolVal(x.blocks[0] is v), 'requires of convert: the vector')
        got['b'] = Flat(lambda p: SNum(g(zz(p))), N, 'b')
        return got['b']
    m.convert = convert
    m.as_block = lambda x, sets: [['block 00 of A']] if x is got['A'] else ['block 0 of b'] if x is got['b'] else None
    sym = bool(e.choose(2))
    r = m.apply_bc(M, v, bcs[0] if e.choose(2) else R.VDict([(0, bcs[0])]), symmetric=sym)
    e.prove(z3.BoolVal(r == ('block 00 of A', 'block 0 of b')), 'ensures a plain matrix and a plain vector')
    kind, rws, d, x, bb = got['A'].calls[0]
    e.prove(z3.BoolVal(kind == ('both' if sym else 'rows') and bb is got['b']), 'ensures kind of elimination')
    e.prove(zz(d) == 1, 'ensures unit diagonal by default')
    same_entries(e, None, rws, rows, 'ensures rows are the dofs')
