"""Random PETSc matrices and block expressions with dense counterparts (oracle: numpy)"""
import numpy as np
from petsc4py import PETSc
from dolfin import PETScMatrix, PETScVector, Matrix, Vector, as_backend_type, MPI
from block import block_mat, block_vec, block_mul, block_add, block_sub, block_transpose
import dolfin as df


def petsc(M, keep_zeros=False, diag=True):
    """Sparse PETScMatrix of a dense array"""
    from scipy.sparse import csr_matrix
    M = np.asarray(M, dtype=float)
    if keep_zeros:
        r, c = np.indices(M.shape)
        S = csr_matrix((M.flatten(), (r.flatten(), c.flatten())), shape=M.shape)
    else: S = csr_matrix(M)
    A = PETSc.Mat().createAIJ(size=S.shape, csr=(S.indptr.astype('int32'), S.indices.astype('int32'), S.data))
    A.assemble()
    return PETScMatrix(A)


def vec(x, cls=None):
    x = np.asarray(x, dtype=float)
    v = PETScVector(MPI.comm_world, len(x)) if cls is None else cls(MPI.comm_world, len(x))
    v.set_local(x.copy())
    v.apply('insert')
    return v


def dense(A):
    if isinstance(A, PETSc.Mat): m = A
    else: m = as_backend_type(A).mat()
    if m.getType() == 'nest':
        ri, ci = m.getNestISs()
        out = np.zeros(m.size)
        for a, r in enumerate(ri):
            for b, c in enumerate(ci):
                s = m.getNestSubMatrix(a, b)
                if s: out[np.ix_(r.array, c.array)] = dense(s)
        return out
    i, j, v = m.getValuesCSR()
    n, k = m.size
    out = np.zeros((n, k))
    for r in range(n):
        for q in range(i[r], i[r + 1]): out[r, j[q]] += v[q]
    return out


def arr(v):
    if isinstance(v, PETSc.Vec): return v.getArray().copy()
    if isinstance(v, (block_vec, list, tuple)): return np.hstack([arr(x) for x in v]) if len(v) else np.zeros(0)
    return v.get_local()


def rand(t, n, m, density=None):
    """Random dense array, sometimes sparse, sometimes zero, sometimes integers"""
    M = t.np.randint(-4, 5, size=(n, m)).astype(float) if t.rng.random() < .5 else t.np.uniform(-2, 2, size=(n, m))
    d = t.rng.choice([1., .6, .3]) if density is None else density
    return M * (t.np.uniform(size=(n, m)) <= d)


def some(t, n, parts=None):
    """Random vector, at times zero, zero in a block, a unit vector, tiny or large"""
    x = t.np.uniform(-1, 1, n)
    k = t.rng.random()
    if k < .55 or n == 0: return x
    if k < .6: return 0 * x
    if k < .75:
        o = np.cumsum([0] + list(parts)) if parts else [0, max(1, n // 2), n]
        j = t.rng.randrange(len(o) - 1)
        if t.rng.random() < .5: x[o[j]:o[j + 1]] = 0
        else: x = np.where((np.arange(n) >= o[j]) & (np.arange(n) < o[j + 1]), x, 0)
        return x
    if k < .85: return np.eye(n)[t.rng.randrange(n)]
    return x * t.rng.choice([1e-14, 1e-12, 1e-9, 1e-6, 1e6, 1e9])


def linear(t, got, want, x, key, tol, msg=''):
    """Linear image of x: error relative to the size of x"""
    s = np.abs(x).max() if len(x) else 1
    if not 0 < s < 1: s = 1.
    return t.close(np.asarray(got) / s, np.asarray(want) / s, key, tol, msg)


def apply_dense(D, x): return D.dot(x)


class Expr(object):
    """A cbc.block expression with its dense meaning; numbers mean multiples of identity"""
    def __init__(self, op, val, text): self.op, self.val, self.text = op, val, text


def terminal(t, n, m, pool=None):
    if pool is not None:
        same = [p for p in pool if p.val.shape == (n, m)]
        if same and t.rng.random() < .5: return t.rng.choice(same)
    D = rand(t, n, m)
    e = Expr(petsc(D, keep_zeros=t.rng.random() < .3), D, 'M%d%s' % (len(pool) if pool is not None else 0, D.shape))
    if pool is not None: pool.append(e)
    return e


def expression(t, n, m, depth, pool, zero=True):
    """Random expression of a matrix n x m of at most `depth` operators on a path"""
    k = t.rng.random()
    if depth == 0 or k < .1: return terminal(t, n, m, pool)
    if k < .3:
        a = expression(t, m, n, depth - 1, pool, zero)
        return Expr(block_transpose(a.op), a.val.T, "T(%s)" % a.text)
    if k < .45:
        a, b = expression(t, n, m, depth - 1, pool, zero), expression(t, n, m, depth - 1, pool, zero)
        return Expr(block_add(a.op, b.op), a.val + b.val, '(%s + %s)' % (a.text, b.text))
    if k < .6:
        a, b = expression(t, n, m, depth - 1, pool, zero), expression(t, n, m, depth - 1, pool, zero)
        return Expr(block_sub(a.op, b.op), a.val - b.val, '(%s - %s)' % (a.text, b.text))
    if k < .75:
        c = t.rng.choice([2, -1, 0.5, 1, 0, -3.25, 1.0, 3])
        a = expression(t, n, m, depth - 1, pool, zero)
        if t.rng.random() < .5: return Expr(block_mul(c, a.op), c * a.val, '%s*%s' % (c, a.text))
        return Expr(block_mul(a.op, c), c * a.val, '%s*%s' % (a.text, c))
    if k < .8 and zero:
        a = expression(t, n, m, depth - 1, pool, zero)
        z = t.rng.choice([0, 0.])
        w = t.rng.randrange(4)
        if w == 0: return Expr(block_add(z, a.op), a.val, '(0 + %s)' % a.text)
        if w == 1: return Expr(block_add(a.op, z), a.val, '(%s + 0)' % a.text)
        if w == 2: return Expr(block_sub(a.op, z), a.val, '(%s - 0)' % a.text)
        return Expr(block_sub(z, a.op), -a.val, '(0 - %s)' % a.text)
    q = t.rng.randint(1, 5)
    a, b = expression(t, n, q, depth - 1, pool, zero), expression(t, q, m, depth - 1, pool, zero)
    return Expr(block_mul(a.op, b.op), a.val.dot(b.val), '%s*%s' % (a.text, b.text))


def blocks(t, rows, cols, numbers=True, scalars=(0, 1, 2.5, -1)):
    """Random block matrix as nested list, with dense meaning. Square diagonal numbers and offdiagonal zeros."""
    ops, val = [], []
    for i, n in enumerate(rows):
        ops.append([])
        val.append([])
        for j, m in enumerate(cols):
            k = t.rng.random()
            if numbers and i == j and n == m and k < .3:
                c = t.rng.choice(scalars)
                ops[-1].append(c)
                val[-1].append(c * np.eye(n))
            elif numbers and i != j and k < .3:
                ops[-1].append(t.rng.choice([0, 0.]))
                val[-1].append(np.zeros((n, m)))
            else:
                D = rand(t, n, m)
                ops[-1].append(petsc(D, keep_zeros=t.rng.random() < .3))
                val[-1].append(D)
    return ops, val


def fix_empty(t, rows, cols, ops, val):
    """cbc.block needs at least one matrix per row and column to know sizes"""
    for i in range(len(rows)):
        if all(isinstance(x, (int, float)) for x in ops[i]):
            j = t.rng.randrange(len(cols))
            val[i][j] = rand(t, rows[i], cols[j], 1.)
            ops[i][j] = petsc(val[i][j])
    for j in range(len(cols)):
        if all(isinstance(ops[i][j], (int, float)) for i in range(len(rows))):
            i = t.rng.randrange(len(rows))
            val[i][j] = rand(t, rows[i], cols[j], 1.)
            ops[i][j] = petsc(val[i][j])
    return ops, val


def sizes(t, n, lo=1, hi=5): return [t.rng.randint(lo, hi) for _ in range(n)]


def layout(val): return np.block(val)
