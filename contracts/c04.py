"""C04: operators that select, regroup and rearrange block vectors; block functions.

SubSelect    R x = [x[idx_0], x[idx_1], ..];  (R^T y)[idx_k] = y[k], zero elsewhere           (any indices, any number)
is_increasing  result <=> non-empty and every item is below the next                          (induction)
Regroup      group i of R x is x[o_i .. o_{i+1}];  R^T R x = x                                (any groups)
Reduction    group i is (o_i, .., o_{i+1} - 1)                                                (any groups)
Rearange     block k of R x is the concatenation of the blocks of group k, for block and monolithic x; R^T R x = x
block_diag_mat, VectorizedOperator, ii_Function, as_petsc_nest: see the contracts
"""
import types
import z3
from vc.contract import contract
from vc.engine import eng, Int, Real, SymSeq, VList, SArr2, zz, wrap, seq, SNum, SBool, Unsupported, const_seq, concat, subst, as_bool
from vc import linmodel as lm, runtime as R
from vc.models import AVal, fun, indexed, some
from contracts.c02 import Vec, SIZE, ENTRY, FunctionSpace, PETScVector

ASSUME = ['cbc.block: block_vec and block_mat are containers', 'dolfin: Function(V).vector() is the zero vector of the dimension of V, '
          'dofmap().dofs() of a space of one process is 0, 1, .., dim - 1',
          'petsc4py: getValues, getSubVector, createNest, createWithArray, createGeneral as documented']
BU, FN = 'xii.linalg.block_utils', 'xii.linalg.function'
ZERO = lambda V: fun('zero_of', 'Space', 'Vec')(V)


class Function(object):
    """dolfin.Function with zero coefficients"""
    def __init__(self, V, *a):
        if a: raise Unsupported('function with given coefficients')
        self.V = V

    def vector(self): return Vec(ZERO(self.V.t))


def bu_world(**over):
    star = dict(FunctionSpace=FunctionSpace, PETScVector=over.pop('PETScVector', Vec), Function=Function, GenericVector=lm.GenericVector, Vector=lm.Vector)
    star.update(over.pop('dolfin', {}))
    stubs = {'block.block_bc': R.stub('block.block_bc', block_rhs_bc=None), 'scipy.sparse': R.stub('scipy.sparse', csr_matrix=None, bmat=None, vstack=None)}
    stubs.update(over.pop('stubs', {}))
    return lm.world(dolfin=star, stubs=stubs, petsc=over.pop('petsc', {}))


def vector_of_blocks(e, name='x', lo=1):
    n = Int('n', lo)
    blocks, B = indexed(Vec, name, n)
    return lm.block_vec(VList(blocks)), B, n


def spaces(e, n):
    W, f = indexed(FunctionSpace, 'V', n)
    return VList(W), f


@contract('C04', BU + ':SubSelectOperator', assumes=ASSUME)
def select(e):
    m = bu_world().load(BU)
    x, B, n = vector_of_blocks(e)
    W, V = spaces(e, n)
    k = Int('k', 1)
    I = fun(e.fresh_name('index'), 'Int', 'Int')
    q = z3.Int(e.fresh_name('q'))
    e.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < k.e), z3.And(I(q) >= 0, I(q) < n.e))))
    S = m.SubSelectOperator(SymSeq(k, lambda j: SNum(I(zz(j))), 'tuple'), W)
    y = S.matvec(x)
    j = some(k)
    if isinstance(y, Vec):
        e.prove(k.e == 1, 'ensures a plain vector only for one index')
        e.prove(y.t == B(I(0)), 'ensures the block chosen')
    else:
        e.prove(zz(R.v_len(y.blocks)) == k.e, 'ensures number of blocks')
        e.prove(y.blocks[j].t == B(I(j.e)), 'ensures block j is block index[j]')
    p = some(n)
    e.prove(x.blocks[p].t == B(p.e), 'frame: the vector is unchanged')


@contract('C04', BU + ':SubSelectOperator', assumes=ASSUME)
def select_one(e):
    m = bu_world().load(BU)
    x, B, n = vector_of_blocks(e)
    W, V = spaces(e, n)
    i = e.choose(4)
    e.assume(n.e > i)
    S = m.SubSelectOperator(i, W)
    e.prove(S.matvec(x).t == B(i), 'ensures the block chosen')
    y = Vec('y')
    z = S.transpmult(y)
    e.prove(zz(R.v_len(z.blocks)) == n.e, 'ensures number of blocks')
    j = some(n)
    e.prove(z.blocks[j].t == z3.If(j.e == i, y.t, ZERO(V(j.e))), 'ensures zeros but at the block chosen')


@contract('C04', BU + ':SubSelectOperator', assumes=ASSUME)
def scatter(e):
    """Transpose, distinct indices"""
    m = bu_world().load(BU)
    n, k = Int('n', 2), Int('k', 2)
    W, V = spaces(e, n)
    I = fun(e.fresh_name('index'), 'Int', 'Int')
    q, r = z3.Int(e.fresh_name('q')), z3.Int(e.fresh_name('r'))
    e.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < k.e), z3.And(I(q) >= 0, I(q) < n.e))))
    e.assume(z3.ForAll([q, r], z3.Implies(z3.And(q >= 0, r >= 0, q < k.e, r < k.e, q != r), I(q) != I(r))))
    ys, Y = indexed(Vec, 'y', k)
    y = lm.block_vec(VList(ys))
    S = m.SubSelectOperator(SymSeq(k, lambda j: SNum(I(zz(j))), 'tuple'), W)
    z = S.transpmult(y)
    e.prove(zz(R.v_len(z.blocks)) == n.e, 'ensures number of blocks')
    if e.choose(2):
        j = some(k)
        e.prove(z.blocks[SNum(I(j.e))].t == Y(j.e), 'ensures block index[j] is block j of the argument')
    else:
        p = some(n)
        e.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < k.e), I(q) != p.e)))
        e.prove(z.blocks[p].t == ZERO(V(p.e)), 'ensures zero elsewhere')


@contract('C04', BU + ':is_increasing', assumes=ASSUME)
def increasing(e):
    m = bu_world().load(BU)
    n = Int('n', 0)
    f = fun(e.fresh_name('item'), 'Int', 'Int')

    def spec(k, at):
        q = z3.Int(e.fresh_name('q'))
        return z3.And(zz(k) > 0, z3.ForAll([q], z3.Implies(z3.And(q >= 0, q + 1 < zz(k)), at(q) < at(q + 1))))

    def callee(s):
        s = seq(s)
        e.prove(zz(s.n) < n.e, 'recursion on a shorter list (decreases)')
        return SBool(spec(s.n, lambda q: zz(s.get(SNum(q)))))
    real = m.is_increasing
    m.is_increasing = callee
    r = real(VList(SymSeq(n, lambda k: SNum(f(zz(k))))))
    r = bool(r)
    if r:
        j = Int('j', 0)
        e.assume(j.e + 1 < n.e)
        e.prove(n.e > 0, 'ensures not empty')
        e.prove(f(j.e) < f(j.e + 1), 'ensures item j below item j + 1')
    else:
        e.prove(z3.Not(spec(n, f)), 'ensures some item is not below the next')


def groups(e, m, n):
    """(offsets as given, function o with o(0) = 0 < o(1) < .. < o(g) = n, g); facts about o by instance"""
    g = Int('g', 1)
    f = fun(e.fresh_name('o'), 'Int', 'Int')
    e.assume(z3.And(f(0) == 0, f(g.e) == n.e))

    def o(k):
        # increasing, hence (induction) o(k) >= k and o(k) <= n - (g - k)
        k = zz(k) if not isinstance(k, int) else z3.IntVal(k)
        e.axiom(z3.Implies(z3.And(k >= 0, k < g.e), z3.And(f(k) < f(k + 1), f(k + 1) <= n.e)))
        e.axiom(z3.Implies(z3.And(k >= 0, k <= g.e), z3.And(f(k) >= k, f(k) <= n.e - (g.e - k))))
        return f(k)
    m.is_increasing = lambda s: True                # precondition (contract `increasing`)
    return SymSeq(g, lambda k: SNum(o(zz(k) + 1)), 'tuple'), o, g


@contract('C04', BU + ':RegroupOperator', assumes=ASSUME)
def regroup(e):
    m = bu_world().load(BU)
    x, B, n = vector_of_blocks(e)
    W, V = spaces(e, n)
    offs, o, g = groups(e, m, n)
    e.assume(g.e >= 2)
    op = m.RegroupOperator(offs, W)
    y = op.matvec(x)
    i = some(g)
    e.prove(zz(R.v_len(y.blocks)) == g.e, 'ensures number of groups')
    o(i.e), o(i.e + 1)
    grp = y.blocks[i]
    if isinstance(grp, Vec):
        e.prove(o(i.e + 1) - o(i.e) == 1, 'ensures a bare block only for groups of one')
        e.prove(grp.t == B(o(i.e)), 'ensures group i')
        return
    e.prove(zz(R.v_len(grp.blocks)) == o(i.e + 1) - o(i.e), 'ensures size of group i')
    j = Int('j', 0)
    e.assume(j.e < o(i.e + 1) - o(i.e))
    e.prove(grp.blocks[j].t == B(o(i.e) + j.e), 'ensures block j of group i is block o_i + j')


@contract('C04', BU + ':RegroupOperator', assumes=ASSUME)
def regroup_transpose(e):
    """R^T of a regrouped vector: the original one"""
    m = bu_world().load(BU)
    n = Int('n', 1)
    W, V = spaces(e, n)
    offs, o, g = groups(e, m, n)
    e.assume(g.e >= 2)
    B = fun(e.fresh_name('x'), 'Int', 'Vec')

    def group(i):
        """As the contract of `regroup` says"""
        lo, hi = SNum(o(zz(i))), SNum(o(zz(i) + 1))
        if hi - lo == 1: return Vec(B(zz(lo)))
        return lm.block_vec(VList(SymSeq(hi - lo, lambda j: Vec(B(zz(lo) + zz(j))))))
    op = m.RegroupOperator(offs, W)
    y = lm.block_vec(VList(SymSeq(g, group)))
    z = seq(op.transpmult(y).blocks)
    if not hasattr(z, 'pieces'): raise Unsupported('not put together from the groups')
    cnt, size, piece, S = z.pieces
    i = some(g)
    e.prove(zz(cnt) == g.e, 'ensures number of pieces')
    e.prove(S(z3.IntVal(0)) == o(0), 'ensures first offset')
    e.prove(z3.Implies(S(i.e) == o(i.e), S(i.e + 1) == o(i.e + 1)), 'ensures offset(i + 1)')
    e.prove(zz(size(i)) == o(i.e + 1) - o(i.e), 'ensures piece i is as long as group i')
    j = Int('j', 0)
    e.assume(j.e < o(i.e + 1) - o(i.e))
    e.prove(piece(i).get(j).t == B(o(i.e) + j.e), 'ensures block o_i + j is that of the original vector')


@contract('C04', BU + ':RegroupOperator', assumes=ASSUME)
def regroup_single_group(e):
    m = bu_world().load(BU)
    m.is_increasing = lambda s: True
    if e.choose(2):
        W = VList([FunctionSpace('V')])
        op = m.RegroupOperator((1, ), W)
        x = Vec('x')
        b = lm.block_vec(VList([x]))
        y = op.matvec(b)
        e.prove(y.t == x.t, 'ensures the only block')
        z = op.transpmult(y)
        e.prove(z3.And(zz(R.v_len(z.blocks)) == 1, z.blocks[0].t == x.t), 'ensures the original vector')
    else:
        x, B, n = vector_of_blocks(e, lo=2)
        W, V = spaces(e, n)
        op = m.RegroupOperator(SymSeq(1, lambda k: n, 'tuple'), W)
        y = op.matvec(x)
        e.prove(zz(R.v_len(y.blocks)) == n.e, 'ensures number of blocks')
        i = some(n)
        e.prove(y.blocks[i].t == B(i.e), 'ensures the blocks')
        z = op.transpmult(y)
        e.prove(zz(R.v_len(z.blocks)) == n.e, 'ensures number of blocks of the original vector')
        e.prove(z.blocks[i].t == B(i.e), 'ensures the original vector')


@contract('C04', BU + ':ReductionOperator', assumes=ASSUME)
def reduction(e):
    """Groups of the reduction: the mapping handed to the rearranging operator"""
    m = bu_world().load(BU)
    n = Int('n', 1)
    W, V = spaces(e, n)
    offs, o, g = groups(e, m, n)
    got = {}

    def init(self, mapping, W_):
        got['m'], got['W'] = mapping, W_
    m.RearangeOperator.__init__ = init
    m.ReductionOperator(offs, W)
    e.prove(z3.BoolVal(got['W'] is W), 'ensures the spaces')
    mp = seq(got['m'])
    e.prove(zz(mp.n) == g.e, 'ensures number of groups')
    i = some(g)
    grp = seq(mp.get(i))
    e.prove(zz(grp.n) == o(i.e + 1) - o(i.e), 'ensures size of group i')
    j = Int('j', 0)
    e.assume(j.e < o(i.e + 1) - o(i.e))
    e.prove(zz(grp.get(j)) == o(i.e) + j.e, 'ensures group i is o_i, o_i + 1, ..')


# ------------------------------------------------------- entries matter below
class IS(object):
    def createGeneral(self, a, comm=None):
        self.array = seq(a)
        return self


class PV(object):
    """PETSc.Vec with entries"""
    def __init__(self): self.a = None

    def createWithArray(self, a, comm=None, **kw):
        self.a = seq(a)
        return self

    def createNest(self, vecs, **kw):
        r = const_seq([], 'array')
        for v in vecs: r = concat(r, seq(v.a))
        self.a = SymSeq(r.n, r.get, 'array')
        return self

    def getValues(self, s): return self.getSubVector(s).a

    def getSubVector(self, s):
        r, a, idx = PV(), self.a, s.array
        r.a = SymSeq(idx.n, lambda k: a.get(idx.get(k)), 'array')
        return r

    def copy(self):
        r = PV()
        r.a = self.a
        return r

    def assemble(self, *a): return self
    assemblyBegin = assemblyEnd = assemble


class DV(lm.PETScVector):
    def __init__(self, v): self.v = v
    def vec(self): return self.v
    def size(self): return self.v.a.n
    def get_local(self): return self.v.a
    local_size = size


class Space(object):
    def __init__(self, n): self.n = n
    def dim(self): return self.n
    def dofmap(self): return types.SimpleNamespace(dofs=lambda: SymSeq(self.n, lambda k: k, 'array'))


def partitions():
    return [((0, ), (1, )), ((1, ), (0, )), ((0, 1), ), ((1, 0), ), ((0, 2), (1, )), ((1, ), (2, 0)), ((2, ), (0, ), (1, )), ((2, 1, 0), ), ((0, ), (1, 2)), ((0, ), )]


def rearrange(mapping, mono):
    def fn(e):
        n = sum(map(len, mapping))
        w = bu_world(PETScVector=DV, petsc=dict(IS=IS, Vec=PV))
        m = w.load(BU)
        ns = [Int('n%d' % k, 1) for k in range(n)]
        W = VList([Space(k) for k in ns])
        fs = [fun(e.fresh_name('x%d' % k), 'Int', 'Real') for k in range(n)]

        def entries(k):
            v = PV()
            v.a = SymSeq(ns[k], lambda q: SNum(fs[k](zz(q))), 'array')
            return DV(v)
        op = m.RearangeOperator(tuple(mapping), W)
        blocks = [entries(k) for k in range(n)]
        if mono:
            v = PV()
            v.createNest([b.v for b in blocks])
            x = DV(v)
        else: x = lm.block_vec(VList(blocks))
        y = op.matvec(x)
        got = [y] if len(mapping) == 1 else [y.blocks[k] for k in range(len(mapping))]
        if len(mapping) > 1: e.prove(zz(R.v_len(y.blocks)) == len(mapping), 'ensures number of groups')
        for b, grp in zip(got, mapping):
            want = const_seq([])
            for k in grp: want = concat(want, SymSeq(ns[k], lambda q, k=k: SNum(fs[k](zz(q)))))
            e.prove(zz(b.v.a.n) == zz(want.n), 'ensures size of the group')
            k = some(b.size())
            e.prove(zz(b.v.a.get(k)) == zz(want.get(k)), 'ensures the group is the concatenation of its blocks')
        if mono and n == 1: return
        z = op.transpmult(y)
        e.prove(zz(R.v_len(z.blocks)) == n, 'ensures number of blocks')
        for k in range(n):
            a = z.blocks[k].v.a
            e.prove(zz(a.n) == ns[k].e, 'ensures size of block k')
            q = some(ns[k])
            e.prove(zz(a.get(q)) == fs[k](q.e), 'ensures R^T R x = x')
    fn.__name__ = 'rearrange_%s_%s' % ('_'.join(''.join(map(str, g)) for g in mapping), 'monolithic' if mono else 'blocks')
    return fn


for _m in partitions():
    for _mono in (False, True):
        contract('C04', BU + ':RearangeOperator', assumes=ASSUME, bounded='mapping %s (sizes and entries arbitrary)' % (_m, ))(rearrange(_m, _mono))


class Op(AVal):
    sort = 'Op'


@contract('C04', BU + ':block_diag_mat', assumes=ASSUME)
def diagonal_of_blocks(e):
    m = bu_world().load(BU)
    n = Int('n', 1)
    As, f = indexed(Op, 'A', n)
    r = m.block_diag_mat(VList(As))
    e.prove(z3.And(zz(r.blocks.nr) == n.e, zz(r.blocks.nc) == n.e), 'ensures shape')
    i, j = some(n), some(n)
    b = r.blocks[i, j]
    if isinstance(b, Op):
        e.prove(i.e == j.e, 'ensures blocks only on the diagonal')
        e.prove(b.t == f(i.e), 'ensures block i')
    else:
        e.prove(i.e != j.e, 'ensures every diagonal block is there')
        e.prove(zz(b) == 0, 'ensures zero off the diagonal')


@contract('C04', BU + ':VectorizedOperator', assumes=ASSUME)
def vectorized_list(e):
    """List of n spaces: the block diagonal operator of n copies"""
    m = bu_world().load(BU)
    n, d = Int('n', 1), Int('d', 1)
    W = VList(SymSeq(n, lambda k: Space(d)))
    A = Op('A')
    m.get_dims = lambda x: (d, d)
    given = {}

    class Diag(object):
        def __init__(self, l): given['l'] = seq(l)
        def __mul__(self, b): return ('times', b)
        def create_vec(self, dim=1): return ('vec', dim)
    m.block_diag_mat = Diag
    op = m.VectorizedOperator(A, W)
    e.prove(zz(given['l'].n) == n.e, 'ensures one copy for each component')
    k = some(n)
    e.prove(given['l'].get(k).t == A.t, 'ensures copies of the operator')
    b = lm.block_vec(VList([]))
    r = op.matvec(b)
    e.prove(z3.BoolVal(r[0] == 'times' and r[1] is b), 'ensures the action of the block diagonal operator')


@contract('C04', BU + ':VectorizedOperator', assumes=ASSUME, bounded='two and three components (sizes, dofs and entries arbitrary)')
def vectorized_space(e):
    ns = e.choose(2) + 2
    d = Int('d', 1)
    N = d * ns
    raw = [fun(e.fresh_name('dofs%d' % j), 'Int', 'Int') for j in range(ns)]
    owner, place = fun(e.fresh_name('component'), 'Int', 'Int'), fun(e.fresh_name('place'), 'Int', 'Int')

    def dof(j):
        def get(k):
            # the components are disjoint, their dofs distinct: component() and place() invert the dofmaps
            v = raw[j](zz(k))
            e.axiom(z3.Implies(z3.And(zz(k) >= 0, zz(k) < d.e), z3.And(v >= 0, v < N.e, owner(v) == j, place(v) == zz(k))))
            return v
        return get
    idx = [dof(j) for j in range(ns)]
    x = fun(e.fresh_name('x'), 'Int', 'Real')
    A = Op('A')
    seen = []

    class Big(MutableArr, lm.PETScVector):
        def vec(self): return self

        def getSubVector(self, s):
            a = self
            return types.SimpleNamespace(take=SymSeq(s.array.n, lambda k: a.at(s.array.get(k)), 'array'))

        def get_local(self): return MutableArr(self.n, self.at)
        def set_local(self, v): self.at = v.at

    class Sub(lm.PETScVector):
        def __init__(self, v): self.a = v.take

    class Op_(object):
        def __mul__(self, b):
            j = len(seen)
            f = fun(e.fresh_name('Ab%d' % j), 'Int', 'Real')
            seen.append((b.a, f))
            return types.SimpleNamespace(get_local=lambda: SymSeq(d, lambda k: SNum(f(zz(k))), 'array'))

    class VSpace(object):
        def num_sub_spaces(self): return ns
        def dim(self): return N
        def ufl_element(self): return types.SimpleNamespace(sub_elements=lambda: ['elm'] * ns)
        def sub(self, j): return types.SimpleNamespace(dofmap=lambda: types.SimpleNamespace(dofs=lambda: SymSeq(d, lambda k: SNum(idx[j](zz(k))), 'array')))
    zero = lambda V: types.SimpleNamespace(vector=lambda: Big(N, lambda p: 0.0))
    w = bu_world(PETScVector=Sub, petsc=dict(IS=IS), dolfin=dict(Function=zero))
    w.stubs['numpy'].fromiter = lambda it, dtype=None: seq(it)
    m = w.load(BU)
    m.get_dims = lambda a: (d, d)
    op = m.VectorizedOperator(Op_(), VSpace())
    b = Big(N, lambda p: SNum(x(zz(p))))
    y = op.matvec(b)
    e.prove(z3.BoolVal(y is not b), 'ensures a new vector')
    k = some(d)
    for j in range(ns):
        arg, f = seen[j]
        e.prove(zz(arg.n) == d.e, 'requires of the operator: size')
        e.prove(zz(arg.get(k)) == x(idx[j](k.e)), 'requires of the operator: component j of the argument')
    for j in range(ns):
        e.prove(zz(y.at(SNum(idx[j](k.e)))) == seen[j][1](k.e), 'ensures component j is the image of component j')
    p = some(N)
    e.prove(zz(b.at(p)) == x(p.e), 'frame: the argument is unchanged')


class MutableArr(object):
    """Array with scattered assignment of an injective index set"""
    def __init__(self, n, at): self.n, self.at = n, at

    def __setitem__(self, s, vals):
        from contracts.c03 import last_writer
        rows, vals, old = s.array, seq(vals), self.at
        if not (rows.n == vals.n): raise ValueError('sizes')

        def at(p):
            w = last_writer(rows, p)
            return old(p) if w is None else vals.get(w)
        self.at = at


class Fn(object):
    """dolfin.Function over its own vector"""
    made = []

    def __init__(self, V, v=None):
        self.V, self.v = V, v if v is not None else ('zero vector', V)

    def function_space(self): return self.V
    def vector(self): return self.v


class FVec(lm.PETScVector):
    def __init__(self, n, name): self.n, self.name, self.log = n, name, []
    def size(self): return self.n
    local_size = size
    def vec(self): return ('petsc', self)
    def set_local(self, v): self.log.append(('set', v))
    def apply(self, how): self.log.append(('apply', how))
    def get_local(self): return ('values', self)


def fn_world(**over):
    return lm.world(dolfin=dict(Function=Fn, PETScVector=lambda v: ('dolfin', v), **over))


@contract('C04', FN + ':ii_Function', FN + ':as_petsc_nest', assumes=ASSUME, bounded='up to three components')
def block_function(e):
    w = fn_world()
    m = w.load(FN)
    n = e.choose(3) + 1
    dims = [Int('d%d' % k, 1) for k in range(n)]
    W = VList([types.SimpleNamespace(dim=lambda k=k: dims[k], k=k) for k in range(n)])
    kind = e.choose(3)
    vecs = [FVec(d, 'v') for d in dims]
    if kind == 0: f = m.ii_Function(W)
    elif kind == 1:
        fs = [Fn(W[k], vecs[k]) for k in range(n)]
        f = m.ii_Function(W, VList(fs))
    else: f = m.ii_Function(W, VList(vecs))
    e.prove(z3.BoolVal(len(f) == n), 'ensures number of components')
    for k in range(n):
        e.prove(z3.BoolVal(f[k].V is W[k]), 'ensures component k is in space k')
        if kind: e.prove(z3.BoolVal(f[k].vector() is vecs[k]), 'ensures component k has the coefficients given')
    if kind == 1:
        for k in range(n): e.prove(z3.BoolVal(f[k] is fs[k]), 'ensures the functions given are the components')
    vs = f.vectors()
    b = f.block_vec()
    for k in range(n):
        e.prove(z3.BoolVal(vs[k] is f[k].vector()), 'ensures vectors() are those of the components (no copies)')
        e.prove(z3.BoolVal(b.blocks[k] is f[k].vector()), 'ensures block_vec() has those of the components (no copies)')
    if kind == 0: return
    got = {}

    class V(object):
        def createNest(self, l, **kw):
            got['nest'] = list(l)
            return self

        def assemble(self): pass
    m.PETSc.Vec = V
    r = f.vector()
    e.prove(z3.BoolVal(r[0] == 'dolfin' and isinstance(r[1], V)), 'ensures the nested vector')
    e.prove(z3.BoolVal(len(got['nest']) == n and all(p[0] == 'petsc' and p[1] is vecs[k] for k, p in enumerate(got['nest']))),
            'ensures the nest refers to the vectors of the components in order')
    items = [x for x in f]
    e.prove(z3.BoolVal(len(items) == n and all(items[k] is f[k] for k in range(n))), 'ensures iteration over the components')


@contract('C04', FN + ':ii_Function.interpolate', assumes=ASSUME, bounded='up to three components')
def block_interpolate(e):
    w = fn_world()
    m = w.load(FN)
    n = e.choose(3) + 1
    W = VList([types.SimpleNamespace(k=k) for k in range(n)])
    vecs = [FVec(Int('d', 1), 'v') for k in range(n)]
    f = m.ii_Function(W, VList([Fn(W[k], vecs[k]) for k in range(n)]))
    g = [object() for _ in range(n)]
    calls = {}

    def interpolate(gk, V):
        v = FVec(Int('d', 1), 'i')
        calls[id(v)] = (gk, V)
        return Fn(V, v)
    m.df.interpolate = interpolate
    r = f.interpolate(VList(g))
    e.prove(z3.BoolVal(r is f), 'ensures self')
    for k in range(n):
        e.prove(z3.BoolVal(f[k].vector() is vecs[k]), 'ensures the vectors are the same objects')
        sets = [x for op, x in vecs[k].log if op == 'set']
        e.expect(len(sets) == 1 and sets[0][0] == 'values' and id(sets[0][1]) in calls, 'values of the interpolant are set')
        gk, V = calls[id(sets[0][1])]
        e.prove(z3.BoolVal(gk is g[k] and V is W[k]), 'ensures component k holds the interpolant of g[k] in space k')
