"""Assumed contracts of petsc4py, dolfin.la and cbc.block used by xii.linalg (linear algebra view).

A matrix is an element of the free *-algebra over the given matrices with real coefficients (words of atoms and
transposed atoms), so equality of two results is equality of normal forms: the ring laws of matrices and nothing
else.  Vectors are opaque terms of a vector space, or functions index -> Real where entries matter.
"""
import types
import numpy as _np
import z3
from .engine import (SNum, SBool, SymSeq, VList, SArr2, Unsupported, eng, zz, wrap, seq, concat, vc_eq, const_seq, Int,
                     Real, Bool, elementwise, vmax, vmin, prefix_sum, flat_map, as_bool, Poison, subst)
from . import runtime as R
from .runtime import stub, v_isinstance


def real(x):
    z = zz(x)
    return z3.ToReal(z) if z.sort() == z3.IntSort() else z


class Poly(object):
    """Normal form of a matrix expression: {word: coefficient}"""
    def __init__(self, terms=()):
        self.t = {}
        for w, c in (terms.items() if isinstance(terms, dict) else terms):
            c = z3.simplify(self.t[w] + c) if w in self.t else z3.simplify(c)
            self.t[w] = c
        self.t = {w: c for w, c in self.t.items() if not (z3.is_rational_value(c) and c.as_fraction() == 0)}

    @staticmethod
    def atom(name): return Poly([(((name, False), ), z3.RealVal(1))])

    @staticmethod
    def num(c): return Poly([((), real(c))])

    def __add__(self, o): return Poly(list(self.t.items()) + list(o.t.items()))
    def scale(self, c): return Poly([(w, real(c) * q) for w, q in self.t.items()])
    def __sub__(self, o): return self + o.scale(-1)

    def __mul__(self, o):
        return Poly([(v + w, a * b) for v, a in self.t.items() for w, b in o.t.items()])

    @property
    def T(self): return Poly([(tuple((a, not t) for a, t in reversed(w)), c) for w, c in self.t.items()])

    def eq(self, o):
        d = (self - o).t
        return z3.And([c == 0 for c in d.values()] + [z3.BoolVal(True)])

    def __repr__(self):
        return ' + '.join('%s*%s' % (c, ''.join(a + ("'" if t else '') + '.' for a, t in w) or 'I')
                          for w, c in self.t.items()) or '0'


# ------------------------------------------------------------------- PETSc
class PMat(object):
    """petsc4py.PETSc.Mat"""
    class Structure(object):
        DIFFERENT = DIFFERENT_NONZERO_PATTERN = SAME = SUBSET = 0

    class Option(object):
        NEW_NONZERO_ALLOCATION_ERR = NEW_NONZERO_LOCATION_ERR = 0

    def __init__(self, poly=None, size=None):
        self.poly, self._size, self.mutated = poly, size, 0

    @property
    def size(self):
        if self._size is None: raise Unsupported('size of an unset matrix')
        return tuple(self._size)

    @property
    def sizes(self): return (self._size[0], ) * 2, (self._size[1], ) * 2

    def getSize(self): return self.size

    def copy(self, result=None, structure=None): return PMat(self.poly, self._size)
    duplicate_values = copy

    def axpy(self, a, B, structure=None):
        self._same(B)
        self.poly = self.poly + B.poly.scale(a)
        self.mutated += 1

    def aypx(self, a, B, structure=None):
        self._same(B)
        self.poly = self.poly.scale(a) + B.poly
        self.mutated += 1

    def _same(self, B):
        if not (self._size[0] == B._size[0]) or not (self._size[1] == B._size[1]): raise ValueError('sizes')

    def scale(self, a):
        self.poly = self.poly.scale(a)
        self.mutated += 1

    def zeroEntries(self):
        self.poly = Poly()
        self.mutated += 1

    def transpose(self, out=None):
        p, s = self.poly.T, (self._size[1], self._size[0])
        if out is None: out = self
        out.poly, out._size = p, s
        out.mutated += 1
        return out

    def matMult(self, B, result=None, fill=None):
        if not (self._size[1] == B._size[0]): raise ValueError('sizes')
        p, s = self.poly * B.poly, (self._size[0], B._size[1])
        if result is None: return PMat(p, s)
        result.poly, result._size = p, s
        result.mutated += 1
        return result

    def matTransposeMult(self, B, result=None, fill=None):
        return self.matMult(PMat(B.poly.T, B._size[::-1]), result)

    def transposeMatMult(self, B, result=None, fill=None):
        return PMat(self.poly.T, self._size[::-1]).matMult(B, result)

    def createTranspose(self, A):
        self.poly, self._size = A.poly.T, A._size[::-1]
        return self

    def __mul__(self, o):
        if isinstance(o, PMat): return self.matMult(o)
        return PMat(self.poly.scale(o), self._size)

    def __rmul__(self, o): return PMat(self.poly.scale(o), self._size)
    def __neg__(self): return PMat(self.poly.scale(-1), self._size)

    def __add__(self, o):
        r = self.copy()
        r.axpy(1., o)
        return r

    def __sub__(self, o):
        r = self.copy()
        r.axpy(-1., o)
        return r

    def assemble(self, *a): return self
    assemblyBegin = assemblyEnd = setUp = setLGMap = setOption = assemble


class GenericMatrix(object):
    def __init__(self, m):
        if isinstance(m, GenericMatrix): m = m.m
        if not isinstance(m, PMat): raise Unsupported('matrix made from %s' % type(m).__name__)
        self.m = m

    def mat(self): return self.m
    def size(self, d): return self.m.size[d]
    def copy(self): return type(self)(self.m.copy())

    @property
    def poly(self): return self.m.poly

    @property
    def T(self): return block_transpose(self)
    esize = z3.IntVal(1)

    def __mul__(self, o): return block_mul(self, o)
    def __rmul__(self, o): return block_mul(o, self)
    def __add__(self, o): return block_add(self, o)
    def __radd__(self, o): return block_add(o, self)
    def __sub__(self, o): return block_sub(self, o)
    def __neg__(self): return block_mul(-1, self)
    __hash__ = object.__hash__


class Matrix(GenericMatrix): pass


class PETScMatrix(GenericMatrix): pass


class GenericVector(object): pass


class Vector(GenericVector): pass


class PETScVector(GenericVector): pass


def as_backend_type(x): return x


# -------------------------------------------------------------- cbc.block
class block_base(object):
    def __mul__(self, o): return block_mul(self, o)
    def __rmul__(self, o): return block_mul(o, self)
    def __neg__(self): return block_mul(-1, self)
    def __add__(self, o): return block_add(self, o)
    def __radd__(self, o): return block_add(o, self)
    def __sub__(self, o): return block_sub(self, o)
    def __rsub__(self, o): return block_sub(o, self)

    @property
    def T(self): return block_transpose(self)


def poly_of(x):
    if isinstance(x, (int, float, SNum)): return Poly.num(x)
    return x.poly


def esize(x):
    """Size of an expression tree (induction measure)"""
    if isinstance(x, (int, float, SNum)): return z3.IntVal(1)
    return x.esize


class block_mul(block_base):
    def __init__(self, A, B):
        A = A.chain if isinstance(A, block_mul) else VList([A])
        B = B.chain if isinstance(B, block_mul) else VList([B])
        self.chain = A + B

    @property
    def poly(self):
        p = Poly.num(1)
        for x in self.chain: p = p * poly_of(x)
        return p

    @property
    def esize(self): return z3.IntVal(1) + sum([esize(x) for x in self.chain], z3.IntVal(0))
    def __iter__(self): return iter(self.chain)
    def __getitem__(self, k): return self.chain[k]


class block_transpose(block_base):
    def __init__(self, A): self.A = A

    @property
    def poly(self): return poly_of(self.A).T

    @property
    def esize(self): return 1 + esize(self.A)


class block_sub(object):
    sign = -1

    def __init__(self, A, B): self.A, self.B = A, B

    @property
    def poly(self): return poly_of(self.A) + poly_of(self.B).scale(self.sign)

    @property
    def esize(self): return 1 + esize(self.A) + esize(self.B)

    def __mul__(self, o): return NotImplemented if isinstance(o, (GenericMatrix, block_base)) else block_mul(self, o)
    def __add__(self, o): return block_add(self, o)
    def __sub__(self, o): return block_sub(self, o)
    def __neg__(self): return block_sub(self.B, self.A)


class block_add(block_sub):
    sign = 1


class AbsExpr(block_base):
    """Some composite expression (unknown structure)"""
    def __init__(self, name):
        e = eng()
        self.poly = Poly.atom(name)
        self.name = name
        self.esize = z3.Int(e.fresh_name('size_' + name))
        e.assume(self.esize >= 2)


class block_container(block_base):
    def __setitem__(self, k, v): self.blocks[k] = v
    def __getitem__(self, k): return self.blocks[k]
    def __iter__(self): return iter(self.blocks)


class block_vec(block_container):
    def __init__(self, m, blocks=None):
        s = seq(m) if not isinstance(m, (int, SNum)) else None
        if s is None:
            n = m
            s = SymSeq(n, lambda k: blocks) if blocks is not None else SymSeq(n, lambda k: None)
        self.blocks = VList(s if not isinstance(s.n, int) else [s.get(k) for k in range(s.n)])

    def __vc_seq__(self): return seq(self.blocks)
    def __vc_len__(self): return R.v_len(self.blocks)
    def __vc_subst__(self, pairs): return block_vec(subst(self.blocks, pairs))

    def copy(self):
        return block_vec(R.v_map(lambda x: x.copy(), self.blocks))


class block_mat(block_container):
    def __init__(self, m, n=None, blocks=0):
        if n is not None:
            self.blocks = SArr2(m, n, lambda i, j: blocks)
            return
        if isinstance(m, SArr2):
            g = m.g
            self.blocks = SArr2(m.nr, m.nc, g)
            return
        s = seq(m)
        n = R.v_len(s.get(0))
        self.blocks = SArr2(s.n, n, lambda i, j: row_get(s.get(i), j))

    def __vc_len__(self): return self.blocks.nr

    def __getitem__(self, k):
        if isinstance(k, tuple): return self.blocks[k]
        return RowView(self.blocks, k)

    def __vc_subst__(self, pairs):
        r = block_mat.__new__(block_mat)
        r.blocks = subst(self.blocks, pairs)
        return r


def row_get(row, j):
    return row[j] if not isinstance(row, VList) or row.sym is None else row.sym.get(j)


class RowView(object):
    """A[i] of a block matrix: a view, A[i][j] = x writes through"""
    def __init__(self, arr, i): self.arr, self.i = arr, arr._norm(i, arr.nr)
    def __getitem__(self, j): return self.arr[self.i, j]
    def __setitem__(self, j, v): self.arr[self.i, j] = v
    def __vc_seq__(self): return self.arr[self.i, :]
    def __vc_len__(self): return self.arr.nc


# ------------------------------------------------------------------ numpy
class NPArr(object):
    pass


def np_array(x, dtype=None):
    s = seq(x)
    if s is None: raise Unsupported('numpy.array of %s' % type(x).__name__)
    if isinstance(s.n, int) and s.n and isinstance(s.get(0), (list, tuple, SymSeq)):
        rows = [seq(s.get(k)) for k in range(s.n)]
        return SArr2(s.n, rows[0].n, lambda i, j: const_seq(rows).get(i).get(j))
    return s.like(s.getnd, 'array')


def np_zeros(shape, dtype=None):
    if isinstance(shape, (tuple, list)):
        if len(shape) == 2: return SArr2(shape[0], shape[1], lambda i, j: 0)
        shape = shape[0]
    return MArr(SymSeq(shape, lambda k: 0 if dtype in (int, 'int', 'int32') else 0.0, 'array'))


class MArr(VList):
    """1d array with element assignment"""
    def __init__(self, s):
        VList.__init__(self, ())
        self._set(s)

    @property
    def size(self): return R.v_len(self)

    @property
    def shape(self): return (R.v_len(self), )

    def __iadd__(self, o):
        self._set(self._arr() + o)
        return self

    def __imul__(self, o):
        self._set(self._arr() * o)
        return self

    def __isub__(self, o):
        self._set(self._arr() - o)
        return self

    def _arr(self): return SymSeq(seq(self).n, seq(self).get, 'array')
    def __add__(self, o): return self._arr() + o
    __radd__ = __add__
    def __mul__(self, o): return self._arr() * o
    __rmul__ = __mul__
    def __sub__(self, o): return self._arr() - o


def scalars(s):
    """The items of the symbolic sequence are numbers"""
    k = z3.Int(eng().fresh_name('k'))
    try:
        v = eng().merged(lambda: s.get(SNum(k)), z3.And(k >= 0, k < zz(s.n)))
    except Unsupported:
        return False
    return isinstance(v, (int, float, SNum))


def np_hstack(xs):
    s = seq(xs)
    if isinstance(s.n, int):
        r = SymSeq(0, lambda k: None, 'array')
        for k in range(s.n):
            x = s.get(k)
            x = seq(x) if seq(x) is not None else const_seq([x])
            r = concat(r, x)
        return SymSeq(r.n, r.get, 'array')
    if scalars(s): return s.like(s.getnd, 'array')
    f = R.flat_lists(s) if not R._uniform(s) else flat_map(s.n, lambda k: R.v_len(s.get(k)), lambda k: seq(s.get(k)), s.n, 'h')
    f.kind = 'array'
    return f


def np_cumsum(x, *a):
    s = seq(x)
    if isinstance(s.n, int):
        out, acc = [], 0
        for k in range(s.n):
            acc = acc + s.get(k)
            out.append(acc)
        r = const_seq(out, 'array')
        r.kind = 'array'
        return r
    S = prefix_sum(lambda q: zz(s.get(SNum(q))))
    return SymSeq(s.n, lambda k: wrap(S(zz(k) + 1)), 'array')


class _R_(object):
    def __getitem__(self, k):
        if not isinstance(k, tuple): k = (k, )
        return np_hstack(list(k))


def np_arange(*a):
    r = R.v_range(*a)
    return SymSeq(R.v_len(r), seq(r).get if isinstance(r, SymSeq) else const_seq(list(r)).get, 'array')


def np_tile(x, n):
    s = seq(x)
    r = SymSeq._make(s.n * n, (n, s.n), lambda idx: s.get(idx[1]), 'array')
    return r


def np_repeat(x, n):
    s = seq(x)
    return SymSeq._make(s.n * n, (s.n, n), lambda idx: s.get(idx[0]), 'array')


def np_ones(n, dtype=None): return SymSeq(n, lambda k: 1.0, 'array')


def np_stub():
    return stub('numpy', array=np_array, asarray=np_array, zeros=np_zeros, hstack=np_hstack, concatenate=np_hstack,
                cumsum=np_cumsum, r_=_R_(), arange=np_arange, tile=np_tile, repeat=np_repeat, ones=np_ones,
                ndarray=type('ndarray', (), {}), integer=type('integer', (), {}), abs=abs, pi=_np.pi)


def world(contracts=None, **over):
    dolfin = dict(PETScVector=PETScVector, PETScMatrix=PETScMatrix, Vector=Vector, GenericVector=GenericVector,
                  Matrix=Matrix, GenericMatrix=GenericMatrix, as_backend_type=as_backend_type,
                  MPI=types.SimpleNamespace(comm_world=types.SimpleNamespace(size=1)), info=lambda *a: None,
                  Timer=lambda *a: types.SimpleNamespace(stop=lambda: 0.0, start=lambda: None))
    dolfin.update(over.pop('dolfin', {}))
    PETSc = stub('petsc4py.PETSc', **dict(dict(Mat=PMat, COMM_WORLD=types.SimpleNamespace(size=1)), **over.pop('petsc', {})))
    blk = dict(block_mul=block_mul, block_add=block_add, block_sub=block_sub, block_transpose=block_transpose)
    cont = dict(block_mat=block_mat, block_vec=block_vec)
    st = {'dolfin': LazyStub('dolfin', **dolfin), 'petsc4py': stub('petsc4py', PETSc=PETSc, init=lambda *a: None),
          'petsc4py.PETSc': PETSc, 'numpy': np_stub(),
          'block': LazyStub('block', **blk, **cont), 'block.block_compose': LazyStub('block.block_compose', **blk),
          'block.block_base': LazyStub('block.block_base', block_base=block_base),
          'block.object_pool': LazyStub('block.object_pool', vec_pool=lambda f: lambda self, dim=1: f(self, dim))}
    st.update(over.pop('stubs', {}))
    return R.World(st, contracts)


class LazyStub(types.ModuleType):
    def __init__(self, name, **names):
        types.ModuleType.__init__(self, name)
        self.__dict__.update(names)

    def __getattr__(self, a):
        if a.startswith('__'): raise AttributeError(a)
        return R.Missing(self.__name__ + '.' + a)
