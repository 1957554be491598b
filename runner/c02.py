"""C02 on concrete block systems; oracle: numpy block assembly"""
import numpy as np
from runner.base import case
from runner.lin import *
from xii import ii_convert, nest, set_lg_map
import xii.linalg.convert as conv
import xii.linalg.collapse_iter as it
from xii.linalg.bc_apply import as_block
from xii.linalg import matrix_utils as mu
from xii.linalg.function import as_petsc_nest
from petsc4py import PETSc


def random_blocks(t, square=False, numbers=True):
    nb = t.rng.randint(1, 4)
    rows = sizes(t, nb)
    cols = rows if square or t.rng.random() < .5 else sizes(t, t.rng.randint(1, 4))
    if rows is not cols and t.rng.random() < .3: rows[0] = cols[0]
    ops, val = blocks(t, rows, cols, numbers)
    return (rows, cols) + tuple(fix_empty(t, rows, cols, ops, val))


@case('C02', n=600, thorough=3000)
def block_matrix(t, i):
    rows, cols, ops, val = random_blocks(t)
    t.input(rows, cols, [[x if isinstance(x, (int, float)) else 'M' for x in r] for r in ops], layout(val).tolist())
    A = block_mat(ops)
    want = layout(val)
    with t.guard('convert'):
        M = ii_convert(A)
        t.expect((M.size(0), M.size(1)) == want.shape, 'size')
        t.close(dense(M), want, 'convert block matrix', 1e-14)
        x = t.np.uniform(-1, 1, sum(cols))
        t.close(arr(M * vec(x)), want.dot(x), 'action', 1e-12)
    with t.guard('sizes'):
        r, c = conv.bmat_sizes(A)
        t.expect(tuple(r) == tuple(rows) and tuple(c) == tuple(cols), 'bmat_sizes', lambda: '%s %s' % (r, c))
    with t.guard('blockwise'):
        B = ii_convert(A, algorithm='')
        for a in range(len(rows)):
            for b in range(len(cols)): t.close(dense(B[a, b]), val[a][b], 'blockwise conversion', 1e-14)
        t.close(dense(conv.block_mat_to_petsc(B)), want, 'block_mat_to_petsc', 1e-14)
        t.close(conv.block_mat_to_numpy(B).toarray(), want, 'block_mat_to_numpy', 1e-14)
    with t.guard('monolithic'): t.close(dense(it.monolithic(block_mat(ops))), want, 'monolithic', 1e-14)
    for a in range(len(rows)):
        for b in range(len(cols)):
            if not isinstance(ops[a][b], (int, float)): t.close(dense(ops[a][b]), val[a][b], 'input changed', 0)
    # nest drops zero blocks off the diagonal; PETSc needs one block in each row and column to know its size
    kept = np.array([[not isinstance(ops[a][b], (int, float)) and (a == b or bool(np.any(val[a][b])))
                      for b in range(len(cols))] for a in range(len(rows))])
    if kept.any(axis=0).all() and kept.any(axis=1).all(): nested(t, A, want, rows)
    with t.guard('set_lg_map'):
        C = set_lg_map(ii_convert(A))
        t.close(dense(C), want, 'set_lg_map', 0)


def nested(t, A, want, rows):
    with t.guard('nest'):
        N = nest(A)
        t.close(dense(N), want, 'nest', 1e-13)
        ri, ci = N.getNestISs()
        o = np.cumsum([0] + rows)
        t.expect(all(list(s.array) == list(range(o[k], o[k + 1])) for k, s in enumerate(ri)), 'nest index sets')


@case('C02', n=240, thorough=600)
def block_vector(t, i):
    ns = sizes(t, t.rng.randint(1, 5), 1, 6)
    xs = [t.np.uniform(-3, 3, n) for n in ns]
    t.input(ns, [x.tolist() for x in xs])
    b = block_vec([vec(x, Vector if t.rng.random() < .5 else None) for x in xs])
    want = np.hstack(xs)
    with t.guard('convert'):
        v = ii_convert(b)
        t.close(arr(v), want, 'convert block vector', 0)
        v[0] = 1234.
        t.close(arr(b), want, 'conversion is a copy', 0)
    with t.guard('nest'):
        t.close(nest(b).getArray() if nest(b).getType() != 'nest' else np.hstack([q.getArray() for q in nest(b).getNestSubVecs()]), want, 'nest vector', 0)
        t.close(np.hstack([q.getArray() for q in as_petsc_nest(b).getNestSubVecs()]), want, 'as_petsc_nest', 0)
    with t.guard('sizes'): t.expect(tuple(conv.bmat_sizes(b)) == tuple(ns), 'bmat_sizes of a vector')
    with t.guard('numpy'): t.close(conv.block_vec_to_numpy(b), want, 'block_vec_to_numpy', 0)
    with t.guard('monolithic'): t.close(arr(it.monolithic(b)), want, 'monolithic vector', 0)
    with t.guard('split'):
        o = np.cumsum([0] + ns)
        for sets in ([PETSc.IS().createStride(n, int(f), 1) for n, f in zip(ns, o)],
                     [list(range(f, f + n)) for n, f in zip(ns, o)], [np.arange(f, f + n) for n, f in zip(ns, o)]):
            for m in (ii_convert(b), conv.as_petsc(ii_convert(b)), vec(want, Vector)):
                s = as_block(m, sets)
                t.expect(len(s) == len(ns), 'number of blocks')
                for a, x in zip(s, xs): t.close(arr(a), x, 'as_block of a vector', 0)


@case('C02', n=320, thorough=800)
def split_matrix(t, i):
    rows, cols, ops, val = random_blocks(t, square=True)
    t.input(rows, layout(val).tolist())
    o = np.cumsum([0] + rows)
    want = layout(val)
    M = ii_convert(block_mat(ops))
    with t.guard('as_block'):
        for sets in ([PETSc.IS().createStride(n, int(f), 1) for n, f in zip(rows, o)],
                     [list(range(f, f + n)) for n, f in zip(rows, o)]):
            for m in (M, conv.as_petsc(M)):
                S = as_block(m, sets)
                for a in range(len(rows)):
                    for b in range(len(rows)): t.close(dense(S[a, b]), val[a][b], 'as_block of a matrix', 0)
                t.close(dense(ii_convert(S)), want, 'split and join', 0)
    with t.guard('index lists'):
        p = t.np.permutation(sum(rows))
        sets = [list(map(int, p[f:f + n])) for n, f in zip(rows, o)]
        S = as_block(M, sets)
        for a in range(len(rows)):
            for b in range(len(rows)): t.close(dense(S[a, b]), want[np.ix_(sets[a], sets[b])], 'as_block by index lists', 0)
        v = t.np.uniform(-1, 1, sum(rows))
        for a, s in zip(as_block(vec(v), sets), sets): t.close(arr(a), v[s], 'as_block of a vector by index lists', 0)


@case('C02', n=320, thorough=800)
def regroup(t, i):
    nb = t.rng.randint(1, 5)
    rows = sizes(t, nb, 1, 3)
    ops, val = blocks(t, rows, rows, numbers=False)
    cuts = sorted(t.rng.sample(range(1, nb), t.rng.randint(0, nb - 1))) + [nb]
    t.input(rows, cuts, layout(val).tolist())
    A = block_mat(ops)
    with t.guard('block_reshape'):
        for offsets in (cuts, tuple(cuts)):
            R = mu.block_reshape(A, offsets)
            t.expect(R.blocks.shape == (len(cuts), ) * 2, 'shape', str(R.blocks.shape))
            oo = [0] + cuts
            for a, (f, l) in enumerate(zip(oo[:-1], oo[1:])):
                for b, (g, h) in enumerate(zip(oo[:-1], oo[1:])):
                    want = np.block([v[g:h] for v in val[f:l]])
                    x = R[a, b]
                    if isinstance(x, block_mat): t.expect(x.blocks.shape == (l - f, h - g), 'shape of a group')
                    t.close(dense(ii_convert(x) if isinstance(x, block_mat) else x), want, 'grouped block', 0)
    t.expect(A.blocks.shape == (nb, nb), 'input changed')
    for a in range(nb):
        for b in range(nb): t.close(dense(A[a, b]), val[a][b], 'input changed', 0)


@case('C02', n=4)
def function_spaces(t, i):
    """Splitting by function spaces, identity on spaces, dims of assembled systems"""
    mesh = df.UnitSquareMesh(2, 1 + i)
    W = [df.FunctionSpace(mesh, 'CG', 1), df.FunctionSpace(mesh, 'DG', 0), df.VectorFunctionSpace(mesh, 'CG', 1)][:2 + i % 2]
    ns = [w.dim() for w in W]
    t.input(ns)
    xs = [t.np.uniform(-1, 1, n) for n in ns]
    with t.guard('as_block'):
        for a, x in zip(as_block(vec(np.hstack(xs)), W), xs): t.close(arr(a), x, 'as_block by spaces', 0)
    with t.guard('identity'):
        I = mu.identity_matrix(W)
        t.close(dense(ii_convert(I)), np.eye(sum(ns)), 'identity of spaces', 0)
        t.close(dense(mu.identity_matrix(W[0])), np.eye(ns[0]), 'identity of a space', 0)
    D = rand(t, sum(ns), sum(ns), .7)
    o = np.cumsum([0] + ns)
    with t.guard('as_block matrix'):
        S = as_block(petsc(D), W)
        for a in range(len(W)):
            for b in range(len(W)): t.close(dense(S[a, b]), D[o[a]:o[a + 1], o[b]:o[b + 1]], 'as_block of a matrix by spaces', 0)
    u, v = df.TrialFunction(W[0]), df.TestFunction(W[0])
    A = df.assemble(df.inner(u, v) * df.dx)
    with t.guard('dims'):
        t.expect(tuple(conv.get_dims(A)) == (ns[0], ns[0]), 'get_dims of Matrix')
        t.expect(conv.get_dims(vec(xs[0])) == ns[0], 'get_dims of a vector')
        t.expect(conv.get_dims(2.) is None, 'get_dims of a number')


@case('C02', n=120, thorough=240)
def serial_matrix(t, i):
    n, m = t.rng.randint(1, 6), t.rng.randint(1, 6)
    D = rand(t, n, m)
    t.input(D.tolist())
    with t.guard('fill'):
        with mu.petsc_serial_matrix(n, m) as mat:
            for r in range(n):
                cols = np.flatnonzero(D[r])
                mat.setValues([r], cols.astype('int32'), D[r, cols], PETSc.InsertMode.INSERT_VALUES)
        t.close(dense(mat), D, 'petsc_serial_matrix')
    with t.guard('rows'): t.close(dense(mu.row_matrix([vec(d) for d in D])), D, 'row_matrix', 0)
    from xii import block_diag_mat
    with t.guard('block_diag'):
        ns = sizes(t, t.rng.randint(1, 4))
        Ds = [rand(t, k, k, 1.) for k in ns]
        B = block_diag_mat([petsc(d) for d in Ds])
        import scipy.linalg
        t.close(dense(ii_convert(B)), scipy.linalg.block_diag(*Ds), 'block_diag_mat', 0)
