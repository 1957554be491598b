"""C01 on concrete expressions; oracle: dense arithmetic"""
import numpy as np
from runner.base import case
from runner.lin import *
from xii import ii_convert, ii_collapse
import xii.linalg.convert as conv
import xii.linalg.collapse_iter as it
from xii.linalg import matrix_utils as mu


def unchanged(t, pool):
    for p in pool: t.close(dense(p.op), p.val, 'operand changed', 0)


@case('C01', n=220, thorough=6000)
def random_expressions(t, i):
    pool = []
    n, m = t.rng.randint(1, 5), t.rng.randint(1, 5)
    x = expression(t, n, m, 1 + i % 5, pool)
    t.input(x.text, [p.val.tolist() for p in pool])
    with t.guard('collapse'):
        t.close(dense(ii_collapse(x.op)), x.val, 'collapse', 1e-10)
        unchanged(t, pool)
    with t.guard('convert'): t.close(dense(ii_convert(x.op)), x.val, 'convert', 1e-10)
    with t.guard('iterative'):
        t.close(dense(it.collapse(x.op)), x.val, 'iterative collapse', 1e-10)
        unchanged(t, pool)
    v = t.np.uniform(-1, 1, m)
    y = ii_collapse(x.op) * vec(v)
    t.close(arr(y), x.val.dot(v), 'action', 1e-10)
    # dims
    if not x.text.startswith('M'):
        with t.guard('get_dims'): t.expect(tuple(conv.get_dims(x.op)) == x.val.shape, 'get_dims', lambda: str(conv.get_dims(x.op)))


@case('C01', n=60, thorough=600)
def python_operators(t, i):
    """The same built with the operators of cbc.block rather than its classes"""
    n = t.rng.randint(2, 4)
    A, B, C = [terminal(t, n, n, []) for _ in range(3)]
    c = t.rng.choice([2, -.5, 3., 1])
    cases = [('A*B', A.op * B.op, A.val @ B.val), ('A+B', A.op + B.op, A.val + B.val), ('A-B', A.op - B.op, A.val - B.val),
             ('c*A', c * A.op, c * A.val), ('A*c', A.op * c, c * A.val),
             ('A*B*C', A.op * B.op * C.op, A.val @ B.val @ C.val), ('A+B-C', A.op + B.op - C.op, A.val + B.val - C.val),
             ('A-(B-C)', A.op - (B.op - C.op), A.val - B.val + C.val), ('A.T', block_transpose(A.op), A.val.T),
             ('(A*B).T', (A.op * B.op).T, (A.val @ B.val).T), ('A.T*B.T', (A.op * B.op).T * block_transpose(C.op), (A.val @ B.val).T @ C.val.T),
             ('A*(B+C)', A.op * (B.op + C.op), A.val @ (B.val + C.val)), ('(A+B)*C', (A.op + B.op) * C.op, (A.val + B.val) @ C.val),
             ('(A-B)*C', (A.op - B.op) * C.op, (A.val - B.val) @ C.val), ('A*A', A.op * A.op, A.val @ A.val),
             ('A+A', A.op + A.op, 2 * A.val), ('A-A', A.op - A.op, 0 * A.val), ('A*B*A', A.op * B.op * A.op, A.val @ B.val @ A.val),
             ('A*c*B', A.op * c * B.op, c * A.val @ B.val), ('c*A*B*C', c * A.op * B.op * C.op, c * A.val @ B.val @ C.val),
             ('sum', sum([A.op, B.op, C.op]), A.val + B.val + C.val)]
    for text, op, val in cases:
        t.input(text, c, A.val.tolist(), B.val.tolist(), C.val.tolist())
        with t.guard('collapse'): t.close(dense(ii_convert(op)), val, 'operators ' + text, 1e-10)
        with t.guard('iterative'): t.close(dense(it.collapse(op)), val, 'iterative operators ' + text, 1e-10)
    unchanged(t, [A, B, C])


@case('C01', n=60, thorough=600)
def shared_subexpressions(t, i):
    '''The same composite object in several places'''
    n = t.rng.randint(1, 4)
    pool = []
    xs = [terminal(t, n, n, pool) for _ in range(2)]
    for _ in range(t.rng.randint(2, 5)):
        a, b, k = t.rng.choice(xs[-3:]), t.rng.choice(xs[-3:]), t.rng.randrange(6)
        if k == 0: e = Expr(block_add(a.op, b.op), a.val + b.val, '(%s+%s)' % (a.text, b.text))
        elif k == 1: e = Expr(block_sub(a.op, b.op), a.val - b.val, '(%s-%s)' % (a.text, b.text))
        elif k == 2: e = Expr(block_transpose(a.op), a.val.T, 'T(%s)' % a.text)
        elif k == 3: e = Expr(block_add(a.op, 0), a.val, '(%s+0)' % a.text)
        elif k == 4: e = Expr(block_mul(2, a.op, ), 2 * a.val, '2*%s' % a.text)
        else: e = Expr(block_mul(a.op, b.op), a.val @ b.val, '%s*%s' % (a.text, b.text))
        xs.append(e)
    t.input(e.text, [p.val.tolist() for p in pool])
    if isinstance(e.op, (PETScMatrix, )): return
    with t.guard('collapse'): t.close(dense(ii_collapse(e.op)), e.val, 'shared, collapse', 1e-10)
    with t.guard('iterative'): t.close(dense(it.collapse(e.op)), e.val, 'shared, iterative', 1e-10)
    unchanged(t, pool)


@case('C01', n=60, thorough=600)
def blocks_of_expressions(t, i):
    rows, cols = sizes(t, t.rng.randint(1, 3)), sizes(t, t.rng.randint(1, 3))
    pool, ops, val = [], [], []
    for a, n in enumerate(rows):
        xs = [expression(t, n, m, t.rng.randint(0, 3), pool) for m in cols]
        ops.append([x.op for x in xs])
        val.append([x.val for x in xs])
    t.input('blocks', rows, cols, [[getattr(x, 'text', '') for x in xs]])
    want = np.block(val)
    with t.guard('convert block'):
        A = block_mat(ops)
        t.close(dense(ii_convert(A)), want, 'block of expressions', 1e-10)
        B = ii_convert(A, algorithm='')
        t.expect(isinstance(B, block_mat), 'block kept')
        for a in range(len(rows)):
            for b in range(len(cols)): t.close(dense(B[a, b]), val[a][b], 'block of expressions, blockwise', 1e-10)
    with t.guard('monolithic'):
        r = it.monolithic(block_mat(ops))
        t.close(dense(r), want, 'monolithic', 1e-10)
    unchanged(t, pool)


@case('C01', n=60, thorough=600)
def blocks_with_numbers(t, i):
    """Numbers as blocks: zeros anywhere, multiples of the identity on square diagonal blocks"""
    rows, cols = sizes(t, t.rng.randint(1, 4)), sizes(t, t.rng.randint(1, 4))
    if i % 2: cols = [rows[k] if k < len(rows) else m for k, m in enumerate(cols)]
    ops, val = blocks(t, rows, cols)
    fix_empty(t, rows, cols, ops, val)
    want = np.block(val)
    t.input('numbers', rows, cols, [[x if isinstance(x, (int, float)) else 'matrix' for x in r] for r in ops], want.tolist())
    with t.guard('convert numbers'):
        t.close(dense(ii_convert(block_mat(ops))), want, 'block with numbers', 1e-12)
        B = ii_convert(block_mat(ops), algorithm='')
        for a in range(len(rows)):
            for b in range(len(cols)):
                x = B[a, b]
                if not isinstance(x, (int, float)): t.close(dense(x), val[a][b], 'block with numbers, blockwise', 1e-12)
                else: t.expect(not val[a][b].any() if x == 0 else rows[a] == cols[b] and abs(x * np.eye(rows[a]) - val[a][b]).max() < 1e-14,
                               'number kept')


@case('C01', n=40, thorough=300)
def expressions_of_blocks(t, i):
    """Products, sums and multiples of block matrices stay blocks of expressions"""
    n = sizes(t, 2, 1, 4)
    o1, v1 = blocks(t, n, n, numbers=False)
    o2, v2 = blocks(t, n, n, numbers=False)
    A, B = block_mat(o1), block_mat(o2)
    t.input(np.block(v1).tolist(), np.block(v2).tolist())
    with t.guard('block product'):
        x = [vec(t.np.uniform(-1, 1, k)) for k in n]
        y = (A * B) * block_vec(x)
        t.close(arr(y), np.block(v1) @ np.block(v2) @ arr(x), 'product action', 1e-10)
    with t.guard('block matrix of products'):
        C = block_mat([[A[0, 0] * B[0, 0] + A[0, 1] * B[1, 0], A[0, 0] * B[0, 1] + A[0, 1] * B[1, 1]],
                       [A[1, 0] * B[0, 0] + A[1, 1] * B[1, 0], A[1, 0] * B[0, 1] + A[1, 1] * B[1, 1]]])
        t.close(dense(ii_convert(C)), np.block(v1) @ np.block(v2), 'product entries', 1e-10)
        t.close(dense(it.monolithic(C)), np.block(v1) @ np.block(v2), 'product entries, iterative', 1e-10)


@case('C01', n=10, thorough=60)
def operators_without_matrix(t, i):
    """Operators that know a diagonal, a matrix or only an action"""
    from block.algebraic.petsc import LumpedInvDiag, InvDiag, Diag
    from block.block_base import block_base
    n = t.rng.randint(2, 5)
    D = np.abs(rand(t, n, n, 1.)) + np.eye(n)
    A = petsc(D)
    t.input(D.tolist())
    with t.guard('diagonal'):
        t.close(dense(ii_convert(Diag(A))), np.diag(np.diag(D)), 'diagonal operator')
        t.close(dense(ii_convert(InvDiag(A))), np.diag(1. / np.diag(D)), 'inverse diagonal operator', 1e-12)
        t.close(dense(ii_convert(LumpedInvDiag(A))), np.diag(1. / np.sum(np.abs(D), axis=1)), 'lumped operator', 1e-12)
        t.close(dense(ii_convert(Diag(A) * A)), np.diag(np.diag(D)) @ D, 'product with diagonal operator', 1e-12)
    m = t.rng.randint(2, 5)
    E = rand(t, n, m, 1.)

    class Act(block_base):
        def matvec(self, b): return vec(E.dot(b.get_local()))
        def create_vec(self, dim=1): return vec(np.zeros([n, m][dim]))
    with t.guard('action'): t.close(dense(ii_collapse(Act())), E, 'operator with an action only', 1e-12)
    F = petsc(rand(t, m, n, 1.))
    with t.guard('action in product'): t.close(dense(ii_collapse(Act() * F)), E @ dense(F), 'product with an action only', 1e-12)

    class HasMatrix(block_base):
        matrix = petsc(E)

    class HasCollapse(block_base):
        def collapse(self): return petsc(E)
    with t.guard('matrix'): t.close(dense(ii_collapse(HasMatrix())), E, 'operator with a matrix')
    with t.guard('collapse'): t.close(dense(ii_collapse(HasCollapse() * F)), E @ dense(F), 'operator with collapse')


@case('C01', n=40, thorough=200)
def matrix_utilities(t, i):
    n, m = t.rng.randint(1, 6), t.rng.randint(1, 6)
    D = rand(t, n, m)
    A = petsc(D)
    t.input(D.tolist())
    with t.guard('transpose_matrix'):
        t.close(dense(mu.transpose_matrix(A)), D.T, 'transpose_matrix')
        t.close(dense(mu.transpose_matrix(as_backend_type(A).mat())), D.T, 'transpose_matrix of PETSc.Mat')
        t.close(dense(A), D, 'operand changed')
    c = t.rng.choice([0, 1, -2, .5])
    with t.guard('diagonal_matrix'):
        t.close(dense(mu.diagonal_matrix(n, c)), c * np.eye(n), 'diagonal_matrix')
        d = t.np.uniform(-1, 1, n)
        t.close(dense(mu.diagonal_matrix(n, vec(d))), np.diag(d), 'diagonal_matrix of a vector')
    with t.guard('zero'): t.close(dense(mu.zero_matrix(n, m)), np.zeros((n, m)), 'zero_matrix')
    with t.guard('identity'): t.close(dense(mu.identity_matrix(n)), np.eye(n), 'identity_matrix')
    with t.guard('rows'):
        t.close(dense(mu.row_matrix([vec(r) for r in D])), D, 'row_matrix')
    with t.guard('numpy_to_petsc'):
        t.close(dense(conv.numpy_to_petsc(D)), D, 'numpy_to_petsc')
        t.close(arr(conv.numpy_to_petsc(D[0])), D[0], 'numpy_to_petsc of a vector')


@case('C01', n=4)
def assembled_matrices(t, i):
    """Matrices as dolfin assembles them (class Matrix)"""
    mesh = df.UnitSquareMesh(2, 1 + i)
    V, Q = df.FunctionSpace(mesh, 'CG', 1), df.FunctionSpace(mesh, 'DG', 0)
    u, v, p, q = df.TrialFunction(V), df.TestFunction(V), df.TrialFunction(Q), df.TestFunction(Q)
    t.input('P1-P0 on unit square', i)
    A, B, C = [df.assemble(f) for f in (df.inner(u, v) * df.dx, df.inner(u, q) * df.dx, df.inner(p, q) * df.dx)]
    a, b, c = A.array(), B.array(), C.array()
    for text, X, want in [('B*A*B.T', B * A * block_transpose(B), b @ a @ b.T), ('C+B*B.T', C + B * block_transpose(B), c + b @ b.T),
                          ('2*A-A', 2 * A - A, a), ('(B*A).T', (B * A).T, (b @ a).T), ('C*B', C * B, c @ b),
                          ('A-B.T*C*B', A - block_transpose(B) * C * B, a - b.T @ c @ b)]:
        with t.guard(text):
            t.close(dense(ii_convert(X)), want, 'assembled ' + text, 1e-12)
            t.close(dense(it.collapse(X)), want, 'assembled, iterative ' + text, 1e-12)
    AA = block_mat([[A, block_transpose(B)], [B, C]])
    want = np.block([[a, b.T], [b, c]])
    with t.guard('block'):
        t.close(dense(ii_convert(AA)), want, 'assembled blocks', 1e-12)
        t.close(dense(it.monolithic(AA)), want, 'assembled blocks monolithic', 1e-12)
    for M, m in ((A, a), (B, b), (C, c)): t.close(M.array(), m, 'operand changed', 0)
