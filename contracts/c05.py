"""C05: operators wrapped for PETSc, scipy and as spaces act like the block operator.

mult / multTranspose / apply / applyTranspose
                 requires of the block operator: it is applied to the vector of the blocks of x (in order)
                 ensures  y == A x (A^T x) whatever y was, x unchanged, y not aliased to what A returned
ii_PETScOperator ensures  shape (sum of the sizes of create_vec(0), of create_vec(1)), context with the action above
ScipyLinOp       ensures  shape; _matvec(x) == convert(A x_blocks), x_blocks[i][k] == x[offset(i) + k]
*_solve          requires of the solver: the operator, the right hand side, the preconditioner, the initial guess
                 ensures  blocks of the result are slices of the solution; a failure of the solver is not a result
BlockPC          ensures  P * x is what the preconditioner does with x, in a new vector, x unchanged
FESpaceOperator.collapse   ensures column j is the action on the j-th basis vector (bounded number of columns)
"""
import types
import z3
from vc.contract import contract
from vc.engine import eng, Int, Real, SymSeq, VList, zz, wrap, seq, SNum, SBool, Unsupported, const_seq, subst
from vc import linmodel as lm, runtime as R
from vc.models import fun, some
from contracts.c04 import bu_world

ASSUME = ['petsc4py: y *= 0 zeroes any y, axpy, getNestSubVecs (views), createPython, setPythonContext as documented',
          'the result of a block operator is a vector of its row space that may be reused by the operator later',
          'pyamg / scipy / cbc.block Krylov methods return a solution of the system they are given, or say they did not',
          'as_petsc_nest (C04), convert (C02), as_petsc: contracts']
BU, KR, FE = 'xii.linalg.block_utils', 'xii.linalg.krylov_api', 'xii.linalg.fe_space_op'


def is_sum(e, value, term, n, what):
    """value == term(0) + .. + term(n - 1)"""
    if isinstance(zz(n), z3.ArithRef) and z3.is_int_value(z3.simplify(zz(n))):
        k = z3.simplify(zz(n)).as_long()
        e.prove(zz(value) == sum([zz(term(z3.IntVal(q))) for q in range(k)], z3.IntVal(0)), 'ensures ' + what)
        return
    v = z3.simplify(zz(value))
    if not (z3.is_app(v) and v.decl().name() in e.sums): raise Unsupported('not a sum over the blocks: %s' % v)
    S = e.sums[v.decl().name()]
    e.prove(v.arg(0) == zz(n), 'ensures %s: number of terms' % what)
    q = z3.Int(e.fresh_name('q'))
    e.assume(z3.And(q >= 0, q < zz(n)))
    # induction: S(0) = 0 by definition; step
    e.prove(S(z3.simplify(q + 1)) == S(q) + zz(term(q)), 'ensures %s: terms' % what)


def array(name, n):
    f = fun(eng().fresh_name(name), 'Int', 'Real')
    return SymSeq(n, lambda k: SNum(f(zz(k))), 'array'), f


def zeros(n): return SymSeq(n, lambda k: 0.0, 'array')


class Arrays(object):
    """PETSc.Vec operations over .get_a() / .set_a(): entries as functions of the position"""
    def __imul__(self, c):
        a = self.get_a()
        if isinstance(c, (int, float)) and c == 0: self.set_a(zeros(a.n))
        else: self.set_a(a * c)
        return self

    def scale(self, c): self *= c
    def zeroEntries(self): self *= 0

    def set(self, c):
        n = self.get_a().n
        self.set_a(SymSeq(n, lambda k: c, 'array'))

    def axpy(self, c, v):
        a, b = self.get_a(), v.get_a()
        if not (a.n == b.n): raise ValueError('sizes')
        self.set_a(a + b * c)

    def aypx(self, c, v): self.set_a(self.get_a() * c + v.get_a())
    def setArray(self, v): self.set_a(seq(v))
    def getArray(self, readonly=0): return self.get_a()
    array = property(getArray, setArray)

    def copy(self, result=None):
        if result is None: return Plain(self.get_a())
        result.set_a(self.get_a())
        return result
    duplicate = lambda self: Plain(zeros(self.get_a().n))
    def swap(self, v):
        a, b = self.get_a(), v.get_a()
        self.set_a(b)
        v.set_a(a)

    def getSize(self): return self.get_a().n
    size = property(getSize)
    def assemble(self): return self
    assemblyBegin = assemblyEnd = assemble


class Plain(Arrays):
    def __init__(self, a): self.a = a
    def get_a(self): return self.a
    def set_a(self, a): self.a = a
    def getType(self): return 'seq'
    def __vc_subst__(self, pairs): return Plain(subst(self.a, pairs))


class NestVec(object):
    """PETSc.Vec nest of n vectors: at(i) is the array of block i"""
    def __init__(self, n, at): self.n, self.at = n, at
    def getType(self): return 'nest'
    def __vc_subst__(self, pairs): return NestVec(subst(self.n, pairs), lambda i, f=self.at: subst(f(i), pairs))
    def getNestSubVecs(self): return SymSeq(self.n, lambda i: SubView(self, i), 'list')

    def map2(self, v, op):
        if not isinstance(v, NestVec): raise Unsupported('nested with %s' % type(v).__name__)
        if not (self.n == v.n): raise ValueError('numbers of blocks')
        f, g = self.at, v.at
        self.at = lambda i: op(f(i), g(i))

    def __imul__(self, c):
        f = self.at
        if isinstance(c, (int, float)) and c == 0: self.at = lambda i: zeros(f(i).n)
        else: self.at = lambda i: f(i) * c
        return self

    def scale(self, c): self *= c
    def zeroEntries(self): self *= 0

    def set(self, c):
        f = self.at
        self.at = lambda i: SymSeq(f(i).n, lambda k: c, 'array')

    def axpy(self, c, v): self.map2(v, lambda a, b: a + b * c)
    def aypx(self, c, v): self.map2(v, lambda a, b: a * c + b)

    def copy(self, result=None):
        if result is None: return NestVec(self.n, self.at)
        result.map2(self, lambda a, b: b)
        return result

    def swap(self, v):
        f, g = self.at, v.at
        self.at, v.at = g, f

    def assemble(self): return self
    assemblyBegin = assemblyEnd = assemble


class SubView(Arrays):
    def __init__(self, nest, i): self.nest, self.i = nest, i
    def get_a(self): return self.nest.at(self.i)

    def set_a(self, a):
        e = eng()
        if e.frames: raise Unsupported('blocks of a nested vector changed in a loop')
        i, f = self.i, self.nest.at

        def at(j):
            r = i == j
            return a if (r if isinstance(r, bool) else bool(r)) else f(j)
        self.nest.at = at

    def __vc_subst__(self, pairs): return SubView(self.nest, subst(self.i, pairs))


class DV(lm.PETScVector):
    """dolfin.PETScVector of a PETSc.Vec"""
    def __init__(self, v, n=None):
        if n is not None: v = Plain(zeros(n))
        self.v = v

    def vec(self): return self.v
    def size(self, *a): return self.v.getSize()
    local_size = size
    def get_local(self): return self.v.get_a()
    def set_local(self, a): self.v.set_a(seq(a))
    def apply(self, *a): pass
    def __vc_subst__(self, pairs): return DV(subst(self.v, pairs))


class PM(object):
    def createPython(self, size, *a, **kw):
        self.sizes = size
        return self

    create = createPython
    def setPythonContext(self, c): self.context = c
    def setUp(self): return self
    def setNullSpace(self, Z): self.null = Z


class Operator(lm.block_base):
    """A (block) operator of which only this is known: its vectors, and that it maps x to y"""
    def __init__(self, e, nr, nc, rows, cols, block, log):
        self.__dict__.update(e=e, nr=nr, nc=nc, rows=rows, cols=cols, block=block, log=log, t=False)

    def create_vec(self, dim=1):
        n, f = ((self.nr, self.rows), (self.nc, self.cols))[(dim == 1) != self.t]
        if not self.block: return DV(Plain(zeros(f(0))))
        return lm.block_vec(VList(SymSeq(n, lambda i: DV(Plain(zeros(f(i)))))))

    def size(self, d): return (self.rows, self.cols)[(d == 1) != self.t](0)

    def transposed(self):
        r = Operator(self.e, self.nr, self.nc, self.rows, self.cols, self.block, self.log)
        r.t = not self.t
        return r
    T = property(transposed)

    def __mul__(self, x):
        e = self.e
        if not isinstance(x, (lm.block_vec, lm.GenericVector)): raise Unsupported('operator times %s' % type(x).__name__)
        nin, fin, nout, fout = (self.nr, self.rows, self.nc, self.cols) if self.t else (self.nc, self.cols, self.nr, self.rows)
        e.prove(z3.BoolVal(isinstance(x, lm.block_vec) == self.block), 'requires of the operator: kind of vector')
        y = fun(e.fresh_name('y'), 'Int', 'Int', 'Real')
        out = lambda i: SymSeq(fout(i), lambda k: SNum(y(zz(i), zz(k))), 'array')
        if not self.block:
            a = x.get_local()
            self.log.append((self.t, 1, lambda i, a=a: a, y))
            return DV(Plain(out(0)))
        bl = x.blocks
        self.log.append((self.t, R.v_len(bl), lambda i: bl[i].get_local(), y))
        return lm.block_vec(VList(SymSeq(nout, lambda i: DV(Plain(out(i))))))


def setting(e, block, square=False):
    log = []
    if block:
        nr = Int('nr', 1)
        nc = nr if square else Int('nc', 1)
        r_ = fun(e.fresh_name('row_size'), 'Int', 'Int')
        c_ = r_ if square else fun(e.fresh_name('col_size'), 'Int', 'Int')
        rows, cols = (lambda i: SNum(r_(zz(i)))), (lambda i: SNum(c_(zz(i))))
        q = z3.Int(e.fresh_name('q'))
        e.assume(z3.ForAll([q], r_(q) >= 0))
        e.assume(z3.ForAll([q], c_(q) >= 0))
    else:
        nr = nc = 1
        r = Int('rows', 0)
        c = r if square else Int('cols', 0)
        rows, cols = (lambda i: r), (lambda i: c)
    return Operator(e, nr, nc, rows, cols, block, log)


def vector(name, n, sizes, block):
    f = fun(eng().fresh_name(name), 'Int', 'Int', 'Real')
    at = lambda i: SymSeq(sizes(i), lambda k: SNum(f(zz(i), zz(k))), 'array')
    return (NestVec(n, at) if block else Plain(at(0))), f


def world(**over):
    petsc = dict(Mat=PM, NullSpace=object, PC=types.SimpleNamespace(Type=types.SimpleNamespace(PYTHON='python')))
    petsc.update(over.pop('petsc', {}))
    tr = lambda A: A.transposed()
    w = bu_world(PETScVector=DV, petsc=petsc, **over)
    for k in ('block', 'block.block_compose'): w.stubs[k].block_transpose = tr
    return w


def callees(e, m):
    def as_nest(b):
        if not isinstance(b, lm.block_vec): raise Unsupported('nest of %s' % type(b).__name__)
        bl = b.blocks
        return NestVec(R.v_len(bl), lambda i: bl[i].get_local())
    m.as_petsc_nest = as_nest
    m.as_petsc = lambda v: v.vec()


def acts(e, A, transposed, apply, what):
    """apply(x, y) sets y to A x (A^T x)"""
    nin, fin, nout, fout = (A.nr, A.rows, A.nc, A.cols) if transposed else (A.nc, A.cols, A.nr, A.rows)
    x, X = vector('x', nin, fin, A.block)
    y, Y = vector('garbage', nout, fout, A.block)
    del A.log[:]
    apply(x, y)
    e.expect(len(A.log) >= 1, 'the operator is applied')
    t, n, arg, val = A.log[-1]
    e.prove(z3.BoolVal(t == transposed), 'ensures %s: which operator is applied' % what)
    e.prove(zz(n) == zz(nin), 'requires of the operator: number of blocks')
    i = some(nin) if A.block else 0
    k = some(fin(i))
    e.prove(zz(arg(i).n) == zz(fin(i)), 'requires of the operator: size of block i')
    e.prove(zz(arg(i).get(k)) == X(zz(i), zz(k)), 'requires of the operator: block i of x')
    here = (lambda v, i: v.at(i)) if A.block else (lambda v, i: v.a)
    e.prove(zz(here(x, i).get(k)) == X(zz(i), zz(k)), 'frame: x is unchanged')
    j = some(nout) if A.block else 0
    l = some(fout(j))
    e.prove(zz(here(y, j).n) == zz(fout(j)), 'ensures %s: size of y' % what)
    e.prove(zz(here(y, j).get(l)) == val(zz(j), zz(l)), 'ensures %s: y' % what)


def petsc_operator(block):
    def fn(e):
        m = world().load(BU)
        callees(e, m)
        A = setting(e, block)
        M = m.ii_PETScOperator(A, None)
        (r0, r1), (c0, c1) = M.sizes
        for v in (r0, r1): is_sum(e, v, lambda q: A.rows(SNum(q)), A.nr, 'number of rows')
        for v in (c0, c1): is_sum(e, v, lambda q: A.cols(SNum(q)), A.nc, 'number of columns')
        # any history of applications
        for rep in range(2):
            if e.choose(2): acts(e, A, False, lambda x, y: M.context.mult(M, x, y), 'mult')
            else: acts(e, A, True, lambda x, y: M.context.multTranspose(M, x, y), 'multTranspose')
    fn.__name__ = 'petsc_operator_' + ('blocks' if block else 'plain')
    return fn


def petsc_preconditioner(block):
    def fn(e):
        m = world().load(BU)
        callees(e, m)
        A = setting(e, block, square=True)
        given = {}
        pc = types.SimpleNamespace(setType=lambda t: given.update(type=t), setPythonContext=lambda c: given.update(c=c), setUp=lambda: None)
        r = m.ii_PETScPreconditioner(A, types.SimpleNamespace(pc=pc, getPC=lambda: pc))
        e.prove(z3.BoolVal(r is pc and given['type'] == 'python'), 'ensures the preconditioner of the solver is the wrapped one')
        for rep in range(2):
            if e.choose(2): acts(e, A, False, lambda x, y: given['c'].apply(pc, x, y), 'apply')
            else: acts(e, A, True, lambda x, y: given['c'].applyTranspose(pc, x, y), 'applyTranspose')
    fn.__name__ = 'petsc_preconditioner_' + ('blocks' if block else 'plain')
    return fn


for _b in (True, False):
    contract('C05', BU + ':ii_PETScOperator', assumes=ASSUME)(petsc_operator(_b))
    contract('C05', BU + ':ii_PETScPreconditioner', assumes=ASSUME)(petsc_preconditioner(_b))


class NullSpace(object):
    def create(self, constant=False, vectors=(), comm=None):
        self.constant, self.vectors = constant, vectors
        return self


def nullspace(block):
    def fn(e):
        m = world(petsc=dict(NullSpace=NullSpace)).load(BU)
        callees(e, m)
        A = setting(e, block, square=True)
        k = Int('k', 1)
        Z, F = [], fun(e.fresh_name('z'), 'Int', 'Int', 'Int', 'Real')
        at = lambda q, i: SymSeq(A.rows(i), lambda p: SNum(F(zz(q), zz(i), zz(p))), 'array')
        vec = lambda q: lm.block_vec(VList(SymSeq(A.nr, lambda i: DV(Plain(at(q, i)))))) if block else DV(Plain(at(q, 0)))
        M = m.ii_PETScOperator(A, VList(SymSeq(k, vec)))
        N = getattr(M, 'null', None)
        e.prove(z3.BoolVal(isinstance(N, NullSpace) and hasattr(N, 'vectors')), 'ensures a nullspace is attached')
        e.prove(z3.BoolVal(N.constant is False), 'ensures constants are not in it unless given')
        vs = seq(N.vectors)
        e.prove(zz(vs.n) == k.e, 'ensures number of vectors')
        q, i = some(k), some(A.nr) if block else 0
        p = some(A.rows(i))
        v = vs.get(q)
        e.prove(z3.BoolVal(isinstance(v, NestVec) == block), 'ensures the layout of the vectors the operator acts on')
        a = v.at(i) if block else v.a
        e.prove(zz(a.get(p)) == F(q.e, zz(i), p.e), 'ensures the vectors given')
    fn.__name__ = 'nullspace_' + ('blocks' if block else 'plain')
    return fn


for _b in (True, False): contract('C05', BU + ':ii_PETScOperator', assumes=ASSUME)(nullspace(_b))


@contract('C05', BU + ':BlockPC', assumes=ASSUME)
def preconditioner_as_block(e):
    m = world().load(BU)
    callees(e, m)
    n = Int('n', 0)
    P = fun(e.fresh_name('Px'), 'Int', 'Real')
    log = []

    class PC(object):
        def getOperators(self): return [types.SimpleNamespace(createVecLeft=lambda: Plain(array('fresh', n)[0]), createVecRight=lambda: Plain(array('fresh', n)[0]))] * 2

        def apply(self, x, y):
            log.append((x.get_a(), y))
            y.set_a(SymSeq(n, lambda k, P=P: SNum(P(zz(k))), 'array'))
    B = m.BlockPC(PC())
    a, X = array('x', n)
    x = DV(Plain(a))
    k = some(n)
    y = B.matvec(x)
    e.prove(z3.BoolVal(len(log) == 1), 'ensures the preconditioner is applied once')
    e.prove(zz(log[0][0].get(k)) == X(k.e), 'requires of the preconditioner: x')
    e.prove(zz(y.get_local().get(k)) == P(k.e), 'ensures its result')
    e.prove(zz(x.get_local().get(k)) == X(k.e), 'frame: x is unchanged')
    first, f = y, P
    P = fun(e.fresh_name('Px2'), 'Int', 'Real')
    B.matvec(x)
    e.prove(zz(first.get_local().get(k)) == f(k.e), 'frame: earlier results are unchanged (vec_pool hands out vectors not in use)')


# ------------------------------------------------------------------ Krylov
class Stored(VList):
    """Arrays of the n blocks of a vector, changed by set_local"""


class Block(lm.PETScVector):
    """Block i of a vector"""
    def __init__(self, cell, sizes, i): self.cell, self.sizes, self.i = cell, sizes, i
    def local_size(self): return self.sizes(self.i)
    def size(self, *a): return self.sizes(self.i)
    def get_local(self): return self.cell[self.i]
    def set_local(self, a): self.cell[self.i] = seq(a)
    def apply(self, *a): pass
    def __vc_subst__(self, pairs): return Block(self.cell, self.sizes, subst(self.i, pairs))


def stored_vector(n, sizes, name):
    f = fun(eng().fresh_name(name), 'Int', 'Int', 'Real')
    cell = VList(SymSeq(n, lambda i: SymSeq(sizes(i), lambda k: SNum(f(zz(i), zz(k))), 'array')))
    return lm.block_vec(VList(SymSeq(n, lambda i: Block(cell, sizes, i)))), cell, f


def kr_world(e, **over):
    mods = {'block.iterative': types.SimpleNamespace(), 'scipy.sparse.linalg': R.stub('scipy.sparse.linalg', LinearOperator=object),
            'pyamg': R.stub('pyamg', krylov=types.SimpleNamespace())}
    w = lm.world(dolfin=dict(PETScVector=DV), stubs=mods)
    w.stubs['numpy'].dtype = lambda t: t
    w.stubs['numpy'].linalg = types.SimpleNamespace(norm=lambda x: 0.0)
    return w


def is_slices(e, got, x, n, sizes, N, what):
    """got(i)[k] == x[offset(i) + k], offset the running sum of sizes; returns nothing"""
    off = fun(e.fresh_name('offset'), 'Int', 'Int')
    i = some(n)
    e.assume(off(0) == 0)
    e.assume(off(i.e + 1) == off(i.e) + zz(sizes(i)))
    # sizes are not negative and N = offset(n): lemma by induction
    e.assume(z3.And(off(i.e) >= 0, off(i.e + 1) <= zz(N)))
    k = some(sizes(i))
    a = got(i)
    v = z3.simplify(zz(a.get(k)))
    # v is x(s + k) with s made from a running sum
    if not (z3.is_app(v) and v.num_args() == 1 and v.decl().eq(x)): raise Unsupported('not a slice: %s' % v)
    names = [d for d in e.sums if d + '(' in str(v)]
    if len(names) != 1: raise Unsupported('start of a slice: %s' % v)
    S = e.sums[names[0]]
    e.prove(S(z3.IntVal(0)) == 0, 'ensures %s: offset(0) == 0' % what)
    e.prove(z3.Implies(S(i.e) == off(i.e), S(i.e + 1) == off(i.e + 1)), 'ensures %s: offset(i + 1) == offset(i) + size(i)' % what)
    e.assume(z3.And(S(i.e) == off(i.e), S(i.e + 1) == off(i.e + 1)))           # induction
    e.prove(zz(a.n) == zz(sizes(i)), 'ensures %s: size of block i' % what)
    e.prove(zz(a.get(k)) == x(off(i.e) + k.e), 'ensures %s: entry k of block i is entry offset(i) + k' % what)


@contract('C05', KR + ':ScipyLinOp', assumes=ASSUME)
def scipy_operator(e):
    m = kr_world(e).load(KR)
    A = setting(e, True)
    L = m.ScipyLinOp(A)
    is_sum(e, L.shape[0], lambda q: A.rows(SNum(q)), A.nr, 'number of rows')
    is_sum(e, L.shape[1], lambda q: A.cols(SNum(q)), A.nc, 'number of columns')
    e.prove(zz(R.v_len(L.x.blocks)) == A.nc.e, 'ensures number of blocks of the work vector')
    i = some(A.nc)
    e.prove(zz(L.x.blocks[i].size()) == zz(A.cols(i)), 'ensures sizes of the work vector')


@contract('C05', KR + ':ScipyLinOp', assumes=ASSUME)
def scipy_action(e):
    m = kr_world(e).load(KR)
    A = setting(e, True)
    N = Int('N', 0)
    a, X = array('x', N)
    flat = {}

    def convert(y):
        flat['y'] = y
        v = fun(e.fresh_name('flat'), 'Int', 'Real')
        flat['v'] = SymSeq(N, lambda k: SNum(v(zz(k))), 'array')
        return types.SimpleNamespace(get_local=lambda: flat['v'])
    m.convert = convert
    L = m.ScipyLinOp.__new__(m.ScipyLinOp)
    L.bmat = A
    L.x, cell, old = stored_vector(A.nc, A.cols, 'work')
    r = L._matvec(a)
    e.expect(len(A.log) == 1 and 'y' in flat, 'the operator is applied and its result converted')
    e.prove(z3.BoolVal(r is flat['v']), 'ensures the flat array of the result')
    t, n, arg, val = A.log[0]
    e.prove(z3.BoolVal(not t), 'ensures the operator itself is applied')
    e.prove(zz(n) == A.nc.e, 'requires of the operator: number of blocks')
    j = some(A.nr)
    l = some(A.rows(j))
    e.prove(zz(flat['y'].blocks[j].get_local().get(l)) == val(j.e, l.e), 'requires of convert: the result of the operator')
    is_slices(e, arg, X, A.nc, A.cols, N, 'argument of the operator')


def driver(name, with_M):
    def fn(e):
        w = kr_world(e)
        m = w.load(KR)
        n, N = Int('n', 1), Int('N', 0)
        s_ = fun(e.fresh_name('size'), 'Int', 'Int')
        q = z3.Int(e.fresh_name('q'))
        e.assume(z3.ForAll([q], s_(q) >= 0))
        sizes = lambda i: SNum(s_(zz(i)))
        x0, cell, old = stored_vector(n, sizes, 'x0')
        bb, bcell, B = stored_vector(n, sizes, 'b')
        AA, M = object(), (object() if with_M else None)
        flat = {id(x0): object(), id(bb): object()}
        m.convert = lambda v: types.SimpleNamespace(get_local=lambda: flat[id(v)])
        m.ScipyLinOp = lambda A: ('linop', A)
        xarr, X = array('solution', N)
        status, tol = Int('status'), Real('tol')
        seen = {}

        def method(**kw):
            seen.update(kw)
            return xarr, status
        if name == 'pyamg_solve': w.stubs['pyamg'].krylov.some_method = method
        else: w.stubs['scipy.sparse.linalg'].some_method = method
        res = getattr(m, name)('some_method', AA, bb, tol, M, x0, maxiter=7)
        e.prove(status.e == 0, 'ensures a result only when the solver succeeded')
        e.prove(z3.BoolVal(res[0] is x0), 'ensures the solution is in the vector of the initial guess')
        e.prove(z3.BoolVal(seen['A'] == ('linop', AA)), 'requires of the solver: the operator')
        e.prove(z3.BoolVal(seen['b'] is flat[id(bb)]), 'requires of the solver: the right hand side')
        e.prove(z3.BoolVal(seen['x0'] is flat[id(x0)]), 'requires of the solver: the initial guess')
        e.prove(z3.BoolVal(seen.get('M') == (('linop', M) if with_M else None)), 'requires of the solver: the preconditioner')
        e.prove(zz(seen.get('tol', seen.get('rtol'))) == tol.e, 'requires of the solver: the tolerance')
        e.prove(z3.BoolVal(seen.get('maxiter') == 7), 'requires of the solver: limit of the iterations')
        is_slices(e, lambda i: cell[i], X, n, sizes, N, 'solution')
        i = some(n)
        k = some(sizes(i))
        e.prove(zz(bcell[i].get(k)) == B(i.e, k.e), 'frame: the right hand side is unchanged')
    fn.__name__ = name + ('_preconditioned' if with_M else '')
    return fn


for _n in ('pyamg_solve', 'scipy_solve'):
    for _M in (True, False):
        contract('C05', KR + ':' + _n, assumes=ASSUME, raises=(AssertionError, ))(driver(_n, _M))


@contract('C05', KR + ':cbc_solve', assumes=ASSUME)
def cbc_driver(e):
    w = kr_world(e)
    m = w.load(KR)
    names = dict(lgmres='LGMRES', cg='ConjGrad', bicg='BiCGStab', cgn='CGN', symmlq='SymmLQ', tfqmr='TFQMR', minres='MinRes')
    made = {}

    def cls(n):
        class K(object):
            def __init__(self, **kw):
                made.update(kw, cls=n)
                self.residuals = 'residuals'

            def __mul__(self, b):
                made['b'] = b
                return 'solution'
        return K
    for n in names.values(): setattr(w.stubs['block.iterative'], n, cls(n))
    key = list(names)[e.choose(len(names))]
    AA, bb, x0, tol = object(), object(), object(), Real('tol')
    M = object() if e.choose(2) else None
    r = m.cbc_solve(key, AA, bb, tol, M, x0, maxiter=7)
    e.prove(z3.BoolVal(r == ('solution', 'residuals')), 'ensures the solution')
    e.prove(z3.BoolVal(made['cls'] == names[key]), 'ensures the method chosen')
    e.prove(z3.BoolVal(made['A'] is AA and made['b'] is bb and made['initial_guess'] is x0), 'requires of the solver: operator, right hand side, initial guess')
    e.prove(z3.BoolVal(made['precond'] is M if M is not None else made['precond'] == 1), 'requires of the solver: the preconditioner')
    e.prove(zz(made['tolerance']) == tol.e, 'requires of the solver: the tolerance')
    e.prove(z3.BoolVal(made['maxiter'] == 7), 'requires of the solver: limit of the iterations')


# ---------------------------------------------------- matrix of an operator
@contract('C05', FE + ':FESpaceOperator.collapse', assumes=ASSUME + ["scipy: vstack of rows, csc_matrix of a vector is a row, tocsr"],
          bounded='up to four columns (number of rows and entries arbitrary)')
def collapse(e):
    nc = e.choose(4) + 1
    nr = Int('rows', 1)
    A = fun(e.fresh_name('A'), 'Int', 'Int', 'Real')

    class MV(DV):
        def get_local(self): return lm.MArr(self.v.get_a())

    class Row(object):
        def __init__(self, a): self.a = seq(a)

    class Stack(object):
        def __init__(self, rows): self.rows, self.t = list(rows), False

        @property
        def T(self):
            r = Stack(self.rows)
            r.t = not self.t
            return r
        shape = property(lambda self: (self.rows[0].a.n, len(self.rows)) if self.t else (len(self.rows), self.rows[0].a.n))
        def tocsr(self): return self
        indptr = property(lambda self: ('indptr', self))
        indices = property(lambda self: ('indices', self))
        data = property(lambda self: ('data', self))

    class Mat(object):
        def createAIJ(self, size=None, csr=None, comm=None, **kw):
            self.size, self.csr = size, csr
            return self

        def assemble(self): return self
    sp = R.stub('scipy.sparse', csc_matrix=Row, csr_matrix=Row, vstack=Stack)
    w = lm.world(dolfin=dict(PETScVector=DV, PETScMatrix=lambda a: ('dolfin', a), FunctionSpace=object, Vector=lambda c, n: MV(Plain(zeros(n)))),
                 stubs={'scipy.sparse': sp, 'scipy': R.stub('scipy', sparse=sp)}, petsc=dict(Mat=Mat))
    m = w.load(FE)

    class V(object):
        def __init__(self, n): self.n = n
        def dim(self): return self.n
        def ufl_element(self): return 'element'
        def mesh(self): return types.SimpleNamespace(mpi_comm=lambda: None)

    class Op(m.FESpaceOperator):
        def __mul__(self, x):
            a = x.v.get_a()
            vals = [zz(a.get(j)) for j in range(nc)]
            vals = [z3.ToReal(v) if v.sort() == z3.IntSort() else v for v in vals]
            # linear
            return MV(Plain(SymSeq(nr, lambda k: SNum(sum([A(zz(k), z3.IntVal(j)) * vals[j] for j in range(nc)], z3.RealVal(0))), 'array')))
    op = Op(V(nc), V(nr))
    r = op.collapse()
    e.prove(z3.BoolVal(op.collapse() is r), 'ensures the second answer is the first')
    a = r[1]
    s = a.csr[0][1]
    e.expect(r[0] == 'dolfin' and all(c[1] is s for c in a.csr) and isinstance(s, Stack), 'matrix made of the columns')
    e.prove(z3.BoolVal([c[0] for c in a.csr] == ['indptr', 'indices', 'data']), 'ensures the csr arrays in order')
    e.prove(z3.And(zz(a.size[0]) == nr.e, zz(a.size[1]) == nc), 'ensures shape')
    e.prove(z3.BoolVal(s.t and len(s.rows) == nc), 'ensures columns')
    k = some(nr)
    for j in range(nc): e.prove(zz(s.rows[j].a.get(k)) == A(k.e, z3.IntVal(j)), 'ensures column j')
