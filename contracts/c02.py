"""C02: block to monolithic conversion keeps the layout.

offset(i) = size(0) + .. + size(i - 1)
block_vec_to_numpy / convert(vector)   ensures  result[offset(i) + k] == block_i[k], length offset(n)
convert(matrix)                        ensures  block (i, j) handed to scipy's bmat is collapse(block) or, for numbers,
                                                the multiple of the identity / the zero matrix of the sizes of the blocks
block_mat_to_numpy                     ensures  every block becomes the csr matrix of its entries at its position
as_block                               ensures  the index set of block i is offset(i) .. offset(i + 1) - 1
zero_matrix, diagonal_matrix, row_matrix, block_reshape, get_dims: see the contracts
"""
import types
import z3
from vc.contract import contract
from vc.engine import eng, Int, Real, SymSeq, VList, SArr2, zz, wrap, seq, SNum, SBool, Unsupported, const_seq, subst
from vc import linmodel as lm, runtime as R
from vc.models import AVal, fun, indexed, some
from contracts.c01 import operand, num

ASSUME = ['petsc4py: createWithArray, createAIJ(csr=..), getValuesCSR, IS.createStride, setDiagonal and setValues as documented',
          "scipy's csr_matrix and bmat as documented", 'block_mat.create_vec(d) has blocks of the row (d = 0) and column (d = 1) sizes']
CONVERT, UTILS, BC = 'xii.linalg.convert', 'xii.linalg.matrix_utils', 'xii.linalg.bc_apply'


class Vec(AVal, lm.PETScVector):
    """A vector: size and entries"""
    sort = 'Vec'

    def size(self):
        return SNum(fun('size', 'Vec', 'Int')(self.t))

    def get_local(self):
        t, n = self.t, fun('size', 'Vec', 'Int')(self.t)
        eng().assume(n >= 0)
        return SymSeq(SNum(n), lambda k: SNum(fun('entry', 'Vec', 'Int', 'Real')(t, zz(k))), 'array')

    local_size = size

    def vec(self): return self


def block_vector(n):
    e = eng()
    blocks, B = indexed(Vec, 'block', n)
    k = z3.Int(e.fresh_name('k'))
    e.assume(z3.ForAll([k], fun('size', 'Vec', 'Int')(B(k)) >= 0))
    return lm.block_vec(VList(blocks)), B


SIZE, ENTRY = lambda t: fun('size', 'Vec', 'Int')(t), lambda t, k: fun('entry', 'Vec', 'Int', 'Real')(t, zz(k))


class PVec(object):
    """PETSc.Vec made from an array"""
    def createWithArray(self, a, comm=None, **kw):
        self.a = seq(a)
        return self

    def assemble(self, *a): return self
    assemblyBegin = assemblyEnd = assemble

    def __vc_subst__(self, pairs):
        r = PVec()
        r.a = subst(self.a, pairs)
        return r


class PETScVector(lm.PETScVector):
    def __init__(self, v): self.v = v
    def vec(self): return self.v
    def __vc_subst__(self, pairs): return PETScVector(subst(self.v, pairs))


def check_layout(e, a, n, B):
    """a is the concatenation of n blocks"""
    # the specification: offsets as sums of sizes
    off = fun(e.fresh_name('offset'), 'Int', 'Int')
    k = z3.Int(e.fresh_name('k'))
    e.assume(off(0) == 0)
    e.assume(z3.ForAll([k], z3.Implies(k >= 0, off(k + 1) == off(k) + SIZE(B(k)))))
    if not hasattr(a, 'pieces'): raise Unsupported('array that is not put together from the blocks')
    cnt, size, piece, S = a.pieces
    e.prove(zz(cnt) == n.e, 'ensures number of pieces')
    # S and off satisfy the same recursion: lemma by induction (base and step are obligations)
    e.prove(S(z3.IntVal(0)) == off(0), 'ensures offset(0) == 0')
    i = some(n)
    e.prove(z3.Implies(S(i.e) == off(i.e), S(i.e + 1) == off(i.e + 1)), 'ensures offset(i + 1) == offset(i) + size(i)')
    e.prove(zz(size(i)) == SIZE(B(i.e)), 'ensures piece i is as long as block i')
    j = Int('j', 0)
    e.assume(j.e < SIZE(B(i.e)))
    e.prove(zz(piece(i).get(j)) == ENTRY(B(i.e), j), 'ensures entry k of piece i is entry k of block i')


@contract('C02', CONVERT + ':block_vec_to_numpy', assumes=ASSUME)
def block_vector_to_array(e):
    m = lm.world(dolfin=dict(PETScVector=Vec)).load(CONVERT)
    n = Int('n', 1)
    b, B = block_vector(n)
    i, j = z3.Int('i_'), z3.Int('j_')
    e.assume(SIZE(B(0)) != SIZE(B(1)))             # the general case; equal sizes below
    e.assume(n.e > 1)
    check_layout(e, m.block_vec_to_numpy(b), n, B)


@contract('C02', CONVERT + ':block_vec_to_numpy', assumes=ASSUME)
def block_vector_of_equal_sizes_to_array(e):
    m = lm.world(dolfin=dict(PETScVector=Vec)).load(CONVERT)
    n, s = Int('n', 1), Int('s', 0)
    b, B = block_vector(n)
    k = z3.Int(e.fresh_name('k'))
    e.assume(z3.ForAll([k], SIZE(B(k)) == s.e))
    a = seq(m.block_vec_to_numpy(b))
    i = some(n)
    j = Int('j', 0)
    e.assume(j.e < s.e)
    if len(a.dims) == 2: got = a.getnd((i, j))
    else:
        if not hasattr(a, 'pieces'): raise Unsupported('array that is not put together from the blocks')
        got = a.pieces[2](i).get(j)
    e.prove(zz(got) == ENTRY(B(i.e), j), 'ensures result[i*s + k] == block_i[k]')


@contract('C02', CONVERT + ':convert', assumes=ASSUME)
def convert_block_vector(e):
    w = lm.world(dolfin=dict(PETScVector=PETScVector), petsc=dict(Vec=PVec))
    m = w.load(CONVERT)
    n = Int('n', 1)
    N = Int('N', 0)
    x = fun(e.fresh_name('flat'), 'Int', 'Real')
    blocks, _ = indexed(Vec, 'block', n)
    b = lm.block_vec(VList(blocks))

    def to_numpy(v):
        e.prove(z3.BoolVal(v is b), 'requires of block_vec_to_numpy: the vector')
        return SymSeq(N, lambda k: SNum(x(zz(k))), 'array')
    m.block_vec_to_numpy = to_numpy
    r = m.convert(b)
    e.prove(zz(r.v.a.n) == N.e, 'ensures length')
    k = some(N)
    e.prove(zz(r.v.a.get(k)) == x(k.e), 'ensures entries of the flat array')


class Blk(AVal):
    """Some block: number or expression; collapse(Blk) is a number or a matrix"""
    sort = 'Blk'


class Mat(AVal, lm.PETScMatrix):
    sort = 'Mat'

    def size(self, d): return SNum(fun('matsize%d' % d, 'Mat', 'Int')(self.t))


ISNUM = lambda t: fun('is_number', 'Blk', 'Bool')(t)
VALUE = lambda t: fun('value', 'Blk', 'Real')(t)
COLLAPSE = lambda t: fun('collapse', 'Blk', 'Mat')(t)
CONST = dict(diagonal=lambda n, a: fun('diagonal', 'Int', 'Real', 'Mat')(zz(n), lm.real(a)),
             zero=lambda n, k: fun('zero', 'Int', 'Int', 'Mat')(zz(n), zz(k)))


def converted(alg):
    def fn(e):
        w = lm.world()
        m = w.load(CONVERT)
        nr, nc = Int('nr', 1), Int('nc', 1)
        F = fun(e.fresh_name('blk'), 'Int', 'Int', 'Blk')
        A = lm.block_mat.__new__(lm.block_mat)
        A.blocks = SArr2(nr, nc, lambda i, j: Blk(F(zz(i), zz(j))))
        rs, cs = fun(e.fresh_name('rows'), 'Int', 'Int'), fun(e.fresh_name('cols'), 'Int', 'Int')

        def sizes(b):
            e.prove(z3.BoolVal(b is A), 'requires of bmat_sizes: the matrix')
            return (SymSeq(nr, lambda k: SNum(rs(zz(k))), 'tuple'), SymSeq(nc, lambda k: SNum(cs(zz(k))), 'tuple'))

        def collapse(x): return SNum(VALUE(x.t)) if SBool(ISNUM(x.t)) else Mat(COLLAPSE(x.t))
        m.bmat_sizes, m.collapse = sizes, collapse
        m.diagonal_matrix = lambda n, a: Mat(CONST['diagonal'](n, a))
        m.zero_matrix = lambda n, k: Mat(CONST['zero'](n, k))
        seen = {}

        def set_lg(x):
            seen['lg'] = x
            return x

        def to_numpy(x):
            seen['np'] = x
            return 'array'

        def to_petsc(x):
            e.prove(z3.BoolVal(x == 'array'), 'requires of numpy_to_petsc: the array of the blocks')
            return 'monolithic'
        m.set_lg_map, m.block_mat_to_numpy, m.numpy_to_petsc = set_lg, to_numpy, to_petsc
        r = m.convert(A, alg)
        if alg: e.prove(z3.BoolVal(r == 'monolithic'), 'ensures the matrix made from the array of the blocks')
        B = seen['np'] if alg else r
        e.prove(z3.And(zz(B.blocks.nr) == nr.e, zz(B.blocks.nc) == nc.e), 'ensures shape')
        i, j = some(nr), some(nc)
        got, t = B.blocks[i, j], F(i.e, j.e)
        want = z3.If(ISNUM(t), z3.If(z3.And(i.e == j.e, rs(i.e) == cs(j.e)), CONST['diagonal'](SNum(rs(i.e)), SNum(VALUE(t))),
                                     CONST['zero'](SNum(rs(i.e)), SNum(cs(j.e)))), COLLAPSE(t))
        e.prove(got.t == want, 'ensures block (i, j)')
        e.prove(A.blocks[i, j].t == t, 'frame: the block matrix is unchanged')
    fn.__name__ = 'convert_block_matrix_%s' % ('monolithic' if alg else 'blockwise')
    return fn


for _a in ('numpy', ''):
    contract('C02', CONVERT + ':convert', assumes=ASSUME)(converted(_a))


@contract('C02', CONVERT + ':block_mat_to_numpy', assumes=ASSUME)
def block_matrix_to_scipy(e):
    """Induction over nesting: blocks by the contract (csr of their entries)"""
    CSR = fun('csr', 'Mat', 'Blk')
    given = {}

    def bmat(blocks):
        given['b'] = blocks
        return types.SimpleNamespace(tocsr=lambda: 'csr of all', blocks=blocks)
    class Rows(object):
        def __init__(self, s): self.s = s

        def reshape(self, shape):
            nr, nc = shape
            s = self.s
            return SArr2(nr, nc, lambda i, j: s.getnd((i, j)) if len(s.dims) == 2 else s.get(i * nc + j))
    npx = lm.np_stub()
    npx.array = lambda l: Rows(seq(l))
    w = lm.world(stubs={'scipy.sparse': R.stub('scipy.sparse', bmat=bmat, csr_matrix=None, vstack=None), 'numpy': npx})
    m = w.load(CONVERT)
    nr, nc = Int('nr', 1), Int('nc', 1)
    F = fun(e.fresh_name('mat'), 'Int', 'Int', 'Mat')
    A = lm.block_mat.__new__(lm.block_mat)
    A.blocks = SArr2(nr, nc, lambda i, j: Mat(F(zz(i), zz(j))))
    real = m.block_mat_to_numpy
    m.block_mat_to_numpy = lambda x: Blk(CSR(x.t))
    r = real(A)
    e.prove(z3.BoolVal(r == 'csr of all'), 'ensures the csr form of the block matrix')
    b = given['b']
    e.prove(z3.And(zz(b.nr) == nr.e, zz(b.nc) == nc.e), 'ensures shape')
    i, j = some(nr), some(nc)
    e.prove(b[i, j].t == CSR(F(i.e, j.e)), 'ensures block (i, j) is the csr matrix of block (i, j)')


@contract('C02', CONVERT + ':block_mat_to_numpy', CONVERT + ':numpy_to_petsc', assumes=ASSUME)
def matrices_to_scipy_and_back(e):
    """(indptr, indices, data) of PETSc in the order scipy takes them: (data, indices, indptr); and back"""
    got = {}

    def csr(data, shape=None):
        got['csr'], got['shape'] = tuple(data), shape
        return types.SimpleNamespace(data=data[0], indices=data[1], indptr=data[2], shape=shape)

    class M(lm.PMat):
        def getValuesCSR(self): return ('indptr', 'indices', 'data')

        def createAIJ(self, size=None, csr=None, comm=None, **kw):
            got['aij'], got['size'] = csr, size
            return self
    w = lm.world(stubs={'scipy.sparse': R.stub('scipy.sparse', bmat=None, csr_matrix=csr, vstack=None)})
    m = w.load(CONVERT)
    m.PETSc.Mat = M
    n, k = Int('n', 1), Int('k', 1)
    m.block_mat_to_numpy(lm.PETScMatrix(M(lm.Poly.atom('A'), (n, k))))
    e.prove(z3.BoolVal(got['csr'] == ('data', 'indices', 'indptr')), 'ensures data, indices, indptr')
    e.prove(z3.And(zz(got['shape'][0]) == n.e, zz(got['shape'][1]) == k.e), 'ensures shape')
    m.numpy_to_petsc(types.SimpleNamespace(data='data', indices='indices', indptr='indptr', shape=(n, k)))
    e.prove(z3.BoolVal(tuple(got['aij']) == ('indptr', 'indices', 'data')), 'ensures csr of the PETSc matrix')
    e.prove(z3.And(zz(got['size'][0]) == n.e, zz(got['size'][1]) == k.e), 'ensures size of the PETSc matrix')
    x = Real('x')
    e.prove(z3.BoolVal(m.block_mat_to_numpy(x) is None), 'numbers are left out')


class IS(object):
    """PETSc.IS"""
    def createStride(self, size, first=0, step=0, comm=None):
        self.array = SymSeq(size, lambda k: first + step * k, 'array')
        return self

    def createGeneral(self, a, comm=None):
        self.array = seq(a)
        return self


class FunctionSpace(AVal):
    sort = 'Space'

    def dim(self): return SNum(fun('dim', 'Space', 'Int')(self.t))


class BigVec(object):
    """Monolithic PETSc.Vec"""
    def __init__(self): self.f = fun(eng().fresh_name('mono'), 'Int', 'Real')

    def getValues(self, s):
        f, a = self.f, s.array
        return SymSeq(a.n, lambda k: SNum(f(zz(a.get(k)))), 'array')

    def createWithArray(self, a, comm=None): return PVec().createWithArray(a)


def bc_world(**over):
    star = dict(FunctionSpace=FunctionSpace, PETScVector=PETScVector, DirichletBC=type('DirichletBC', (), {}))
    star.update(over.pop('dolfin', {}))
    stubs = {'block.block_bc': R.stub('block.block_bc', block_rhs_bc=None), 'scipy.sparse': R.stub('scipy.sparse', csr_matrix=over.pop('csr', None), bmat=None, vstack=None)}
    stubs.update(over.pop('stubs', {}))
    w = lm.world(dolfin=star, petsc=dict(IS=IS, Vec=BigVec), stubs=stubs)
    w.stubs['block'].__dict__.update(block_bc=None, block_assemble=None)
    return w


@contract('C02', BC + ':as_block', assumes=ASSUME, bounded='up to four blocks (their sizes are arbitrary)')
def split_monolithic_vector(e):
    """By the spaces of the blocks: recovers exactly the blocks"""
    w = bc_world()
    m = w.load(BC)
    n = e.choose(4) + 1
    W = VList([FunctionSpace('V%d' % i) for i in range(n)])
    for V in W: e.assume(V.dim().e >= 1)
    x = BigVec()
    r = m.as_block(x, W)
    e.prove(zz(R.v_len(r)) == n, 'ensures number of blocks')
    off = 0
    for i in range(n):
        a = r[i].v.a
        e.prove(zz(a.n) == W[i].dim().e, 'ensures size of block i')
        k = some(W[i].dim())
        e.prove(zz(a.get(k)) == x.f(zz(off + k)), 'ensures block_i[k] == x[offset(i) + k]')
        off = off + W[i].dim()


@contract('C02', BC + ':as_block', assumes=ASSUME)
def split_monolithic_by_index_sets(e):
    """Index sets say what each block gets; any number of blocks"""
    w = bc_world()
    m = w.load(BC)
    n = Int('n', 1)
    size, pos = fun(e.fresh_name('size'), 'Int', 'Int'), fun(e.fresh_name('pos'), 'Int', 'Int', 'Int')

    def iset(k):
        s = IS()
        s.array = SymSeq(SNum(size(zz(k))), lambda q: SNum(pos(zz(k), zz(q))), 'array')
        return s
    x = BigVec()
    real_type = R.v_type
    sets = SymSeq(n, iset)
    m.element_types = lambda it: R.VSet([IS])
    r = m.as_block(x, VList(sets))
    e.prove(zz(R.v_len(r)) == n.e, 'ensures number of blocks')
    i = some(n)
    a = r[i].v.a
    e.prove(zz(a.n) == size(i.e), 'ensures size of block i')
    k = some(SNum(size(i.e)))
    e.prove(zz(a.get(k)) == x.f(pos(i.e, k.e)), 'ensures block_i[k] == x[set_i[k]]')


@contract('C02', BC + ':as_block', assumes=ASSUME, bounded='up to three blocks (index sets are arbitrary)')
def split_monolithic_matrix(e):
    got = {}

    class Sub(object):
        """Rows, then columns of a csr matrix"""
        def __init__(self, r=None, c=None): self.r, self.c = r, c

        def __getitem__(self, k):
            i, j = k
            full = lambda q: isinstance(q, slice) and q == slice(None)
            if not full(i):
                if self.r is not None: raise Unsupported('rows taken twice')
                return Sub(i, self.c)[:, j] if not full(j) else Sub(i, self.c)
            if full(j): return self
            if self.c is not None: raise Unsupported('columns taken twice')
            return Sub(self.r, j)

    def csr(data, shape=None):
        got['csr'], got['shape'] = data, shape
        return Sub()

    class M(object):
        size = (Int('N', 1), ) * 2
        def getValuesCSR(self): return ('indptr', 'indices', 'data')
    w = bc_world(csr=csr)
    m = w.load(BC)
    m.numpy_to_petsc = lambda s: s
    n = e.choose(3) + 1
    sets = VList([IS() for _ in range(n)])
    for k, s in enumerate(sets): s.array = 'set%d' % k
    r = m.as_block(M(), sets)
    e.prove(z3.And(zz(r.blocks.nr) == n, zz(r.blocks.nc) == n), 'ensures shape')
    e.prove(z3.BoolVal(tuple(got['csr']) == ('data', 'indices', 'indptr')), 'ensures data, indices, indptr')
    for i in range(n):
        for j in range(n):
            b = r.blocks[i, j]
            e.prove(z3.BoolVal((b.r, b.c) == ('set%d' % i, 'set%d' % j)), 'ensures block (i, j) == A[set_i, set_j]')


@contract('C02', UTILS + ':zero_matrix', assumes=ASSUME)
def zero_matrix(e):
    got = {}

    def csr(data, shape=None):
        v, (i, j) = data
        got['d'], got['i'], got['j'], got['shape'] = seq(v), seq(i), seq(j), shape
        return types.SimpleNamespace(data='data', indices='indices', indptr='indptr', shape=shape)

    class M(lm.PMat):
        def createAIJ(self, size=None, csr=None, comm=None, **kw):
            got['aij'], got['size'] = csr, size
            return self
    w = lm.world(stubs={'scipy.sparse': R.stub('scipy.sparse', bmat=None, csr_matrix=csr, vstack=None)})
    m = w.load(UTILS)
    m.PETSc.Mat = M
    n, c = Int('n', 1), Int('m', 1)
    m.zero_matrix(n, c)
    k = some(got['d'].n)
    e.prove(zz(got['d'].get(k)) == 0, 'ensures all entries are zero')
    e.prove(z3.And(zz(got['d'].n) == zz(got['i'].n), zz(got['d'].n) == zz(got['j'].n)), 'requires of csr_matrix: as many rows and columns as entries')
    e.prove(z3.And(zz(got['i'].get(k)) >= 0, zz(got['i'].get(k)) < n.e, zz(got['j'].get(k)) >= 0, zz(got['j'].get(k)) < c.e), 'requires of csr_matrix: indices in range')
    e.prove(z3.And(zz(got['shape'][0]) == n.e, zz(got['shape'][1]) == c.e), 'ensures shape')
    s = got['size']
    ok = s[0] if isinstance(s[0], (list, tuple)) else [s[0]]
    ok2 = s[1] if isinstance(s[1], (list, tuple)) else [s[1]]
    e.prove(z3.And([zz(q) == n.e for q in ok] + [zz(q) == c.e for q in ok2]), 'ensures size')
    e.prove(z3.BoolVal(tuple(got['aij']) == ('indptr', 'indices', 'data')), 'ensures csr of the matrix')


@contract('C02', UTILS + ':diagonal_matrix', assumes=ASSUME)
def diagonal_matrix(e):
    class M(lm.PMat):
        def createAIJ(self, size=None, comm=None, **kw):
            self.sz = size
            return self

        def setDiagonal(self, d): self.d = d
    w = lm.world(dolfin=dict(PETScVector=PETScVector, FunctionSpace=FunctionSpace), petsc=dict(Vec=PVec))
    w.stubs['scipy.sparse'] = R.stub('scipy.sparse', csr_matrix=None)
    m = w.load(UTILS)
    m.PETSc.Mat = M
    n = Int('n', 1)
    a = Real('a') if e.choose(2) else Int('a')
    r = m.diagonal_matrix(n, a).m
    e.prove(zz(r.sz) == n.e if not isinstance(r.sz, (list, tuple)) else z3.And([zz(q) == n.e for q in r.sz]), 'ensures size')
    e.prove(zz(r.d.a.n) == n.e, 'ensures length of the diagonal')
    k = some(n)
    e.prove(lm.real(r.d.a.get(k)) == lm.real(a), 'ensures a on the diagonal')


@contract('C02', UTILS + ':identity_matrix', assumes=ASSUME)
def identity_matrix(e):
    w = lm.world(dolfin=dict(FunctionSpace=FunctionSpace))
    w.stubs['scipy.sparse'] = R.stub('scipy.sparse', csr_matrix=None)
    m = w.load(UTILS)
    m.diagonal_matrix = lambda n, a: Mat(CONST['diagonal'](n, a))
    V = FunctionSpace('V')
    one = z3.RealVal(1)
    e.prove(m.identity_matrix(V).t == CONST['diagonal'](V.dim(), 1), 'ensures identity of the dimension of the space')
    n = e.choose(3) + 1
    W = VList([FunctionSpace('W%d' % i) for i in range(n)])
    r = m.identity_matrix(W)
    e.prove(z3.And(zz(r.blocks.nr) == n, zz(r.blocks.nc) == n), 'ensures shape')
    for i in range(n):
        for j in range(n):
            b = r[i][j]
            if i == j: e.prove(b.t == CONST['diagonal'](W[i].dim(), 1), 'ensures identity on the diagonal')
            else: e.prove(zz(b) == 0, 'ensures zero off the diagonal')


@contract('C02', UTILS + ':block_reshape', assumes=ASSUME, bounded='up to three groups (their sizes are arbitrary)')
def regroup_matrix(e):
    w = lm.world(dolfin=dict(FunctionSpace=FunctionSpace))
    w.stubs['scipy.sparse'] = R.stub('scipy.sparse', csr_matrix=None)
    m = w.load(UTILS)
    n = e.choose(3) + 1
    offs, last = [], 0
    for k in range(n):
        o = Int('o%d' % k)
        e.assume(o.e > zz(last))
        offs.append(o)
        last = o
    F = fun(e.fresh_name('mat'), 'Int', 'Int', 'Mat')
    A = lm.block_mat.__new__(lm.block_mat)
    A.blocks = SArr2(last, last, lambda i, j: Mat(F(zz(i), zz(j))))
    r = m.block_reshape(A, VList(offs))
    e.prove(z3.And(zz(r.blocks.nr) == n, zz(r.blocks.nc) == n), 'ensures shape')
    lo = [0] + offs[:-1]
    for i in range(n):
        for j in range(n):
            b = r[i][j]
            single = (offs[i] - lo[i] == 1, offs[j] - lo[j] == 1)
            if isinstance(b, Mat):
                e.prove(z3.And(zz(offs[i] - lo[i]) == 1, zz(offs[j] - lo[j]) == 1), 'ensures bare block only for groups of one')
                e.prove(b.t == F(zz(lo[i]), zz(lo[j])), 'ensures group (i, j)')
                continue
            e.prove(z3.And(zz(b.blocks.nr) == zz(offs[i] - lo[i]), zz(b.blocks.nc) == zz(offs[j] - lo[j])), 'ensures shape of the group')
            p, q = some(offs[i] - lo[i]), some(offs[j] - lo[j])
            e.prove(b.blocks[p, q].t == F(zz(lo[i] + p), zz(lo[j] + q)), 'ensures group[p, q] is A[first_i + p, first_j + q]')


@contract('C02', UTILS + ':row_matrix', assumes=ASSUME, bounded='up to three rows (their lengths are arbitrary)')
def row_matrix(e):
    got = {}

    def csr(data, shape=None):
        got['v'], got['c'], got['p'] = map(seq, data)
        got['shape'] = shape
        return types.SimpleNamespace(data='data', indices='indices', indptr='indptr', shape=shape)

    class M(lm.PMat):
        def createAIJ(self, size=None, csr=None, comm=None, **kw):
            got['aij'], got['size'] = csr, size
            return self
    w = lm.world(dolfin=dict(FunctionSpace=FunctionSpace))
    w.stubs['scipy.sparse'] = R.stub('scipy.sparse', csr_matrix=csr)
    m = w.load(UTILS)
    m.PETSc.Mat = M
    n = e.choose(3) + 1
    c = Int('c', 1)
    rows = [Vec('r%d' % k) for k in range(n)]
    for r in rows: e.assume(SIZE(r.t) == c.e)
    m.row_matrix(VList(rows))
    e.prove(z3.And(zz(got['p'].n) == n + 1, zz(got['v'].n) == zz(n * c), zz(got['c'].n) == zz(n * c)), 'ensures lengths of the arrays')
    for i in range(n + 1): e.prove(zz(got['p'].get(i)) == zz(i * c), 'ensures row i starts at i*ncols')
    j = some(c)
    for i in range(n):
        e.prove(zz(got['c'].getnd((i, j)) if len(got['c'].dims) == 2 else got['c'].get(i * c + j)) == j.e, 'ensures column j of the row')
        e.prove(zz(got['v'].get(i * c + j)) == ENTRY(rows[i].t, j), 'ensures entry (i, j) is row_i[j]')
    e.prove(z3.And(zz(got['shape'][0]) == n, zz(got['shape'][1]) == c.e), 'ensures shape')
    e.prove(z3.BoolVal(tuple(got['aij']) == ('indptr', 'indices', 'data')), 'ensures csr of the matrix')


class Sized(lm.AbsExpr):
    """Composite expression with known dimensions (induction hypothesis)"""
    def __init__(self, name, dims):
        lm.AbsExpr.__init__(self, name)
        self.dims = dims


def dims_contract(kind):
    def fn(e):
        w = lm.world()
        m = w.load(CONVERT)
        real = m.get_dims

        def known(x):
            """dims of an operand: None for numbers"""
            if num(x): return None
            if isinstance(x, Sized): return x.dims
            if isinstance(x, lm.GenericMatrix): return x.m.size
            if isinstance(x, lm.block_mul): return chain([known(y) for y in x.chain])
            raise Unsupported(type(x).__name__)

        def chain(ds):
            ds = [d for d in ds if d is not None]
            return (ds[0][0], ds[-1][1]) if ds else None

        def callee(x):
            e.prove(lm.esize(x) < lm.esize(expr), 'recursion on a smaller expression (decreases)')
            return known(x)
        a, b, c = Int('a', 1), Int('b', 1), Int('c', 1)

        def op(name, dims):
            k = e.choose(3)
            return lm.PETScMatrix(lm.PMat(lm.Poly.atom(name), dims)) if k == 0 else Sized(name, dims) if k == 1 else Real(name)
        if kind == 'mul':
            A, B = op('A', (a, b)), op('B', (b, c))
            if num(A) and num(B): raise R.E.Infeasible()
            expr = lm.block_mul(A, B)
            if e.choose(2): expr = lm.block_mul(expr, Sized('C', (c if not num(B) else b, a)))
            want = chain([known(x) for x in expr.chain])
        elif kind == 'transpose':
            A = op('A', (a, b))
            if num(A): raise R.E.Infeasible()
            expr = lm.block_transpose(A)
            want = known(A)[::-1]
        else:
            A, B = op('A', (a, b)), op('B', (a, b))
            if num(A) and num(B): raise R.E.Infeasible()
            expr = {'add': lm.block_add, 'sub': lm.block_sub}[kind](A, B)
            want = known(A) or known(B)
        m.get_dims = callee
        r = real(expr)
        e.prove(z3.And(zz(r[0]) == zz(want[0]), zz(r[1]) == zz(want[1])), 'ensures (rows, columns)')
    fn.__name__ = 'dimensions_of_' + kind
    return fn


for _k in ('mul', 'add', 'sub', 'transpose'):
    contract('C02', CONVERT + ':get_dims', assumes=ASSUME)(dims_contract(_k))


@contract('C02', CONVERT + ':get_dims', CONVERT + ':bmat_sizes', assumes=ASSUME)
def sizes(e):
    m = lm.world(dolfin=dict(PETScVector=Vec)).load(CONVERT)
    a, b = Int('a', 1), Int('b', 1)
    M = lm.PETScMatrix(lm.PMat(lm.Poly.atom('M'), (a, b)))
    r = m.get_dims(M)
    e.prove(z3.And(zz(r[0]) == a.e, zz(r[1]) == b.e), 'ensures (rows, columns) of a matrix')
    v = Vec('v')
    e.prove(zz(m.get_dims(v)) == SIZE(v.t), 'ensures size of a vector')
    e.prove(z3.BoolVal(m.get_dims(Real('s')) is None), 'numbers have no dimensions')
    n = Int('n', 1)
    x, B = block_vector(n)
    s = seq(m.bmat_sizes(x))
    i = some(n)
    e.prove(z3.And(zz(s.n) == n.e, zz(s.get(i)) == SIZE(B(i.e))), 'ensures sizes of the blocks of a vector')
    nr, nc = Int('nr', 1), Int('nc', 1)
    A = lm.block_mat.__new__(lm.block_mat)
    A.blocks = SArr2(nr, nc, lambda i, j: 0)
    R_, C_ = fun(e.fresh_name('rv'), 'Int', 'Vec'), fun(e.fresh_name('cv'), 'Int', 'Vec')
    A.create_vec = lambda d=1: lm.block_vec(VList(SymSeq(nr, lambda k: Vec(R_(zz(k)))) if d == 0 else SymSeq(nc, lambda k: Vec(C_(zz(k))))))
    rs, cs = map(seq, m.bmat_sizes(A))
    i, j = some(nr), some(nc)
    e.prove(z3.And(zz(rs.n) == nr.e, zz(cs.n) == nc.e), 'ensures number of sizes')
    e.prove(z3.And(zz(rs.get(i)) == SIZE(R_(i.e)), zz(cs.get(j)) == SIZE(C_(j.e))), 'ensures (row sizes, column sizes)')
