"""C01: collapsing preserves the operator.

Contract of `collapse` (induction over the expression tree, measure: number of nodes):
    requires  expr is a number, a matrix or a node whose children satisfy this precondition
    ensures   result is a number or a matrix, sem(result) = sem(expr), no operand was changed
A recursive call is replaced by this contract; that its argument is strictly smaller is an obligation.
"""
import z3
from vc.contract import contract
from vc.engine import eng, Int, Real, Bool, SBool, Unsupported, zz, VList
from vc import linmodel as lm
from vc.linmodel import Poly, PMat, PETScMatrix, Matrix, AbsExpr, poly_of, esize

ASSUME = ['PETSc Mat.copy/axpy/scale/transpose/matMult compute the algebraic result into the documented output',
          'cbc.block operators *, +, -, transpose denote product, sum, difference, transpose',
          'matrix entries are exact reals; the 1E-14 test for a zero number is read as "is zero"']


def operand(name, atoms, square=None):
    """Terminal matrix, number or composite: three-way case split"""
    e = eng()
    k = e.choose(4)
    if k == 0:
        r, c = atoms['dims']
        m = PETScMatrix(PMat(Poly.atom(name), (r, c)))
        atoms['mats'].append((m, m.m.poly))
        return m
    if k == 1:
        r, c = atoms['dims']
        m = Matrix(PMat(Poly.atom(name), (r, c)))
        atoms['mats'].append((m, m.m.poly))
        return m
    if k == 2: return Real('num_' + name)
    return AbsExpr(name)


def collapse_contract(e, root, n, sums=None, numbers=False):
    def collapse(x):
        if not isinstance(x, (PETScMatrix, Matrix)) and not lm.v_isinstance(x, (int, float)):
            e.prove(esize(x) < root(), 'recursion on a smaller expression (decreases)')
            if e._check(z3.Not(esize(x) < root())) == z3.sat: raise lm.R.E.Infeasible()
            p = poly_of(x)
            scalar = all(w == () for w in p.t)
            # result of the induction hypothesis: number or matrix with the same meaning
            if isinstance(x, AbsExpr) and (numbers or e.choose(2) == 1):
                c = Real('val_' + x.name)
                x.poly = Poly.num(c)
                if sums: sums(x, c)
                return c
            if scalar: return lm.SNum(p.t.get((), z3.RealVal(0)))
            return PETScMatrix(PMat(p, (n, n)))
        return x
    return collapse


def check_result(e, r, want, atoms):
    if lm.v_isinstance(r, (int, float)): got = Poly.num(r)
    elif isinstance(r, (PETScMatrix, Matrix)): got = r.poly
    else: raise Unsupported('result is %s' % type(r).__name__)
    e.prove(got.eq(want), 'ensures sem(result) == sem(expr)', 'got %s want %s' % (got, want))
    for m, p in atoms['mats']:
        e.prove(m.m.poly.eq(p), 'frame: operand unchanged')


def setup(e, mod='xii.linalg.convert'):
    w = lm.world()
    m = w.load(mod)
    n = Int('n', 1)
    return m, n, dict(dims=(n, n), mats=[])


def num(x): return lm.v_isinstance(x, (int, float))


def small_numbers(e, *ops):
    """numbers are either zero or clearly nonzero (the code treats |x| < 1E-14 as zero)"""
    for x in ops:
        if num(x) and isinstance(x, lm.SNum):
            e.assume(z3.Or(x.e == 0, x.e >= z3.RealVal('1/10000000'), x.e <= z3.RealVal('-1/10000000')))


def binary(e, cls):
    m, n, atoms = setup(e)
    A, B = operand('A', atoms), operand('B', atoms)
    if num(A) and num(B): raise lm.R.E.Infeasible()     # Python adds numbers itself
    # a number may be added to / subtracted from a matrix only if it is zero
    small_numbers(e, A, B)
    for x in (A, B):
        if num(x): e.assume(x.e == 0)
    expr = cls(A, B)
    real = m.collapse
    # requires: a number may be combined with a matrix only if it is zero, also when it is the value of an operand
    both = isinstance(A, AbsExpr) and isinstance(B, AbsExpr) and e.choose(2) == 1

    def sums(x, c):
        if not both: e.assume(c.e == 0)
    m.collapse = collapse_contract(e, lambda: esize(expr), n, sums, both)
    r = real(expr)
    check_result(e, r, expr.poly, atoms)


@contract('C01', 'xii.linalg.convert:collapse', 'xii.linalg.convert:collapse_mul', 'xii.linalg.matrix_utils:as_petsc',
          assumes=ASSUME)
def mul_two_operands(e):
    m, n, atoms = setup(e)
    A, B = operand('A', atoms), operand('B', atoms)
    if num(A) and num(B): raise lm.R.E.Infeasible()
    expr = lm.block_mul(A, B)
    real = m.collapse
    m.collapse = collapse_contract(e, lambda: esize(expr), n)
    r = real(expr)
    check_result(e, r, expr.poly, atoms)


def chain_contract(k):
    def product(e):
        m, n, atoms = setup(e)
        ops = [operand('A%d' % j, atoms) for j in range(k)]
        if sum(num(x) for x in ops) > 1: raise lm.R.E.Infeasible()
        expr = lm.block_mul(ops[0], ops[1])
        for x in ops[2:]: expr = lm.block_mul(expr, x)
        real = m.collapse
        m.collapse = collapse_contract(e, lambda: esize(expr), n)
        r = real(expr)
        check_result(e, r, expr.poly, atoms)
    product.__name__ = 'mul_chain_of_%d' % k
    return product


for _k in (3, 4):
    contract('C01', 'xii.linalg.convert:collapse', 'xii.linalg.convert:collapse_mul', assumes=ASSUME,
             bounded='chains of %d factors (their operands are arbitrary)' % _k, thorough=_k == 4)(chain_contract(_k))


@contract('C01', 'xii.linalg.convert:collapse', 'xii.linalg.convert:collapse_add', assumes=ASSUME)
def add(e): binary(e, lm.block_add)


@contract('C01', 'xii.linalg.convert:collapse', 'xii.linalg.convert:collapse_sub', assumes=ASSUME)
def sub(e): binary(e, lm.block_sub)


@contract('C01', 'xii.linalg.convert:collapse', 'xii.linalg.convert:collapse_tr', assumes=ASSUME)
def transpose(e):
    m, n, atoms = setup(e)
    n2 = Int('m', 1)
    atoms['dims'] = (n, n2)
    A = operand('A', atoms)
    if num(A): raise lm.R.E.Infeasible()
    expr = lm.block_transpose(A)
    real = m.collapse
    m.collapse = collapse_contract(e, lambda: esize(expr), n)
    r = real(expr)
    check_result(e, r, expr.poly, atoms)
    if isinstance(A, (PETScMatrix, Matrix)):
        e.prove(z3.And(zz(r.size(0)) == n2.e, zz(r.size(1)) == n.e), 'shape of the transpose')


@contract('C01', 'xii.linalg.convert:collapse', assumes=ASSUME)
def terminals_are_returned_as_they_are(e):
    m, n, atoms = setup(e)
    A = operand('A', atoms)
    if isinstance(A, AbsExpr): raise lm.R.E.Infeasible()
    r = m.collapse(A)
    check_result(e, r, poly_of(A), atoms)


@contract('C01', 'xii.linalg.matrix_utils:transpose_matrix', assumes=ASSUME)
def transpose_matrix(e):
    w = lm.world()
    m = w.load('xii.linalg.matrix_utils')
    n, k = Int('n', 1), Int('k', 1)
    A = PMat(Poly.atom('A'), (n, k))
    x = A if e.choose(2) == 0 else PETScMatrix(A)
    r = m.transpose_matrix(x)
    e.prove(r.poly.eq(Poly.atom('A').T), 'ensures the transpose')
    size = r.size if isinstance(r, PMat) else r.m.size
    e.prove(z3.And(zz(size[0]) == k.e, zz(size[1]) == n.e), 'shape')
    e.prove(A.poly.eq(Poly.atom('A')), 'frame: argument unchanged')


# ------------------------------------------------- the iterative conversion
def iter_op(name, cls):
    def op(e):
        w = lm.world()
        m = w.load('xii.linalg.collapse_iter')
        n = Int('n', 1)
        atoms = dict(dims=(n, n), mats=[])
        A, B = operand('A', atoms), operand('B', atoms)
        if isinstance(A, AbsExpr) or isinstance(B, AbsExpr) or num(A) and num(B): raise lm.R.E.Infeasible()
        small_numbers(e, A, B)
        if cls is not lm.block_mul:
            for x in (A, B):
                if num(x): e.assume(x.e == 0)
        r = getattr(m, name)(A, B)
        check_result(e, r, cls(A, B).poly, atoms)
    op.__name__ = 'iterative_' + name
    return op


for _n, _c in (('collapse_add', lm.block_add), ('collapse_sub', lm.block_sub), ('collapse_mul', lm.block_mul)):
    contract('C01', 'xii.linalg.collapse_iter:' + _n, assumes=ASSUME)(iter_op(_n, _c))


@contract('C01', 'xii.linalg.collapse_iter:collapse_transpose', assumes=ASSUME)
def iterative_collapse_transpose(e):
    w = lm.world()
    m = w.load('xii.linalg.collapse_iter')
    n = Int('n', 1)
    atoms = dict(dims=(n, n), mats=[])
    A = operand('A', atoms)
    if isinstance(A, AbsExpr): raise lm.R.E.Infeasible()
    r = m.collapse_transpose(A)
    check_result(e, r, poly_of(A).T, atoms)


def trees(depth, leaves):
    """All expression builders with at most `depth` levels of operators"""
    if depth == 0:
        return [lambda env, l=l: env[l] for l in leaves]
    sub = trees(depth - 1, leaves)
    out = list(sub)
    for a in sub:
        out.append(lambda env, a=a: lm.block_transpose(a(env)))
        for b in sub:
            for c in (lm.block_mul, lm.block_add, lm.block_sub):
                out.append(lambda env, a=a, b=b, c=c: c(a(env), b(env)))
    return out


def whole_tree(e, builders):
    w = lm.world()
    m = w.load('xii.linalg.collapse_iter')
    n = Int('n', 1)
    env, atoms = {}, dict(mats=[])
    for l in 'AB':
        env[l] = PETScMatrix(PMat(Poly.atom(l), (n, n)))
        atoms['mats'].append((env[l], env[l].m.poly))
    env['s'] = Real('s')
    build = builders[e.choose(len(builders))]
    expr = build(env)
    if num(expr): raise lm.R.E.Infeasible()
    want = poly_of(expr)
    r = m.collapse(expr)
    check_result(e, r, want, atoms)


@contract('C01', 'xii.linalg.collapse_iter:collapse', 'xii.linalg.collapse_iter:expr2graph',
          'xii.linalg.collapse_iter:collapsable_trees', 'xii.linalg.collapse_iter:collapse_tree',
          'xii.linalg.collapse_iter:replace_tree', assumes=ASSUME + ['networkx DiGraph behaves as documented'],
          bounded='all expression trees of at most two operator levels over two matrices (A, B)')
def iterative_collapse_small_trees(e):
    one = trees(1, 'AB')
    two = [lambda env, a=a: lm.block_transpose(a(env)) for a in one]
    two += [lambda env, a=a, b=b, c=c: c(a(env), b(env)) for a in one[2:12] for b in one[:2]
            for c in (lm.block_mul, lm.block_add, lm.block_sub)]
    two += [lambda env, a=a, b=b, c=c: c(b(env), a(env)) for a in one[2:12] for b in one[:2]
            for c in (lm.block_mul, lm.block_add, lm.block_sub)]
    two += [lambda env, a=a, s=s: lm.block_mul(*([env['s'], a(env)][::s])) for a in one for s in (1, -1)]
    whole_tree(e, one + two)
