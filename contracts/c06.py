"""C06: nested forms are assembled in place; the list helpers agree with shape, flatten and reshape of arrays.

shape_list    requires all items of one shape s        ensures (len(lst), ) + s
flatten_list  requires a grid of lists                 ensures entry (i0*n1 + i1)*n2 + .. is lst[i0][i1]..
package       requires count > 0 divides len(lst)      ensures piece k is lst[k*count:(k + 1)*count]
reshape_list  requires matching number of entries      ensures entries in the order of the flat list
assemble      ensures  the tensor of the shape of the form with assemble(entry) at every position
"""
import z3
from vc.contract import contract
from vc.engine import eng, Int, Real, SymSeq, VList, zz, wrap, seq, vc_eq, as_bool, SNum, concat, SBool
from vc import linmodel as lm, runtime as R
from vc.models import AVal, fun, indexed, some, lst

LISTS = 'xii.linalg.list_utils'
ASSUME = ['the reduced assemblers answer None or the assembly of the form (their contracts are those of C13)',
          'dolfin.assemble assembles a form']


class Item(AVal):
    """Entry of a list: not a list itself"""
    sort = 'Item'


class Sub(AVal):
    """A list of unknown rank"""
    sort = 'Sub'

    def __vc_isinstance__(self, cls): return cls is list
    def __vc_len__(self): return 1
    def __bool__(self): return True


def grid(dims, f):
    """Nested list with entries f(i0, i1, ..)"""
    def level(idx):
        if len(idx) == len(dims): return Item(f(*[zz(k) for k in idx]))
        return VList(SymSeq(dims[len(idx)], lambda k: level(idx + (k, ))))
    return level(())


def entries(rank): return fun(eng().fresh_name('x'), *(['Int'] * rank + ['Item']))


@contract('C06', LISTS + ':shape_list')
def shape_of_lists_of_any_rank(e):
    """Induction over the rank: the items have the shape the contract promises for them"""
    w = lm.world()
    m = w.load(LISTS)
    real = m.shape_list
    n = Int('n', 1)
    items, _ = indexed(Sub, 'item', n)
    rank = Int('rank', 0)
    S = fun(e.fresh_name('shape'), 'Sub', 'Int', 'Int')
    L = fun(e.fresh_name('rank_of'), 'Sub', 'Int')
    sh = lambda x: SymSeq(SNum(L(x.t)), lambda k: SNum(S(x.t, zz(k))), 'tuple')
    m.shape_list = lambda x: sh(x) if isinstance(x, Sub) else real(x)
    k, j = z3.Int(e.fresh_name('k')), z3.Int(e.fresh_name('j'))
    it = lambda q: items.get(SNum(q)).t
    alike = e.choose(2) == 0
    if alike:
        e.assume(z3.ForAll([k], L(it(k)) == rank.e))
        e.assume(z3.ForAll([k, j], z3.Implies(z3.And(j >= 0, j < rank.e), S(it(k), j) == S(it(z3.IntVal(0)), j))))
    else:
        p = some(n)
        e.assume(L(it(p.e)) != L(it(z3.IntVal(0))))
    try: r = seq(real(VList(items)))
    except AssertionError:
        if alike: e.fail('shapes of alike items are accepted')
        return
    if not alike: return e.fail('ragged lists are refused')
    e.prove(zz(r.n) == rank.e + 1, 'ensures rank')
    e.prove(zz(r.get(0)) == n.e, 'ensures shape[0] == len(lst)')
    q = some(rank)
    e.prove(zz(r.get(q + 1)) == S(it(z3.IntVal(0)), q.e), 'ensures shape[1:] is that of the items')


@contract('C06', LISTS + ':shape_list')
def shape_of_things_that_are_not_lists(e):
    m = lm.world().load(LISTS)
    x = Item() if e.choose(2) else VList([])
    e.prove(z3.BoolVal(m.shape_list(x) == ()), 'ensures ()')


def flatten(rank):
    def fn(e):
        m = lm.world().load(LISTS)
        dims = [Int('n%d' % j, 1) for j in range(rank)]
        f = entries(rank)
        # callee contract
        m.shape_list = lambda x: tuple(dims)
        r = seq(m.flatten_list(grid(dims, f)))
        size = dims[0]
        for d in dims[1:]: size = size * d
        e.prove(zz(r.n) == zz(size), 'ensures number of entries')
        idx = [some(d) for d in dims]
        flat = idx[0]
        for d, i in zip(dims[1:], idx[1:]): flat = flat * d + i
        got = at(r, idx, dims)
        e.prove(got.t == f(*[i.e for i in idx]), 'ensures entry (i0, i1, ..) at its row-major position')
    fn.__name__ = 'flatten_rank_%d' % rank
    return fn


def at(r, idx, dims):
    """Entry of a flat sequence by its grid position (dims of the sequence are merged as the code merged them)"""
    def merge(dims, idx, want):
        if len(want) == len(dims): return list(idx)
        return None
    if len(r.dims) == len(idx): return r.getnd(tuple(idx))
    if len(r.dims) == 2:          # (n0*n1*.., nk)
        i = idx[0]
        for d, k in zip(dims[1:-1], idx[1:-1]): i = i * d + k
        return r.getnd((i, idx[-1]))
    i = idx[0]
    for d, k in zip(dims[1:], idx[1:]): i = i * d + k
    return r.get(i)


for _r in (1, 2):
    contract('C06', LISTS + ':flatten_list', bounded='rank %d (lengths are arbitrary)' % _r)(flatten(_r))


@contract('C06', LISTS + ':package')
def package(e):
    """Induction over len(lst)"""
    m = lm.world().load(LISTS)
    count, q = Int('count', 1), Int('q', 0)
    x = entries(1)
    n = q * count
    items = VList(SymSeq(n, lambda k: Item(x(zz(k)))))
    real = m.package

    def callee(l, c):
        s = seq(l)
        e.prove(zz(s.n) < zz(n), 'recursion on a shorter list (decreases)')
        e.prove(zz(c) == count.e, 'recursion with the same count')
        e.prove(zz(s.n) == (q.e - 1) * count.e, 'requires: count divides the length of the rest')
        return VList(SymSeq(q - 1, lambda k: VList(SymSeq(c, lambda j: s.get(k * c + j)))))
    m.package = callee
    r = seq(real(items, count))
    e.prove(zz(r.n) == q.e, 'ensures number of pieces')
    if not (q > 0): return
    k, j = some(q), some(count)
    piece = seq(r.get(k))
    e.prove(zz(piece.n) == count.e, 'ensures length of a piece')
    e.prove(piece.get(j).t == x(k.e * count.e + j.e), 'ensures piece k is lst[k*count:(k + 1)*count]')


def package_contract(e):
    def callee(l, c):
        s = seq(l)
        n = s.n // c
        e.prove(z3.And(zz(c) > 0, zz(n) * zz(c) == zz(s.n)), 'requires of package: count divides the length')
        return VList(SymSeq(n, lambda k: VList(SymSeq(c, lambda j: s.get(k * c + j)))))
    return callee


def reshape(rank):
    def fn(e):
        m = lm.world().load(LISTS)
        dims = [Int('n%d' % j, 1) for j in range(rank)]
        x = entries(1)
        size = dims[0]
        for d in dims[1:]: size = size * d
        items = VList(SymSeq(size, lambda k: Item(x(zz(k)))))
        m.shape_list = lambda l: (size, )
        m.flatten_list = lambda l: l

        def callee(l, c):
            s = seq(l)
            # the length is a product of which c is the last factor
            left = dims[0] if callee.k == 1 else None
            n = dims[0]
            for d in dims[1:callee.k]: n = n * d
            e.prove(zz(n) * zz(c) == zz(s.n), 'requires of package: count divides the length')
            callee.k -= 1
            return VList(SymSeq(n, lambda k: VList(SymSeq(c, lambda j: s.get(k * c + j)))))
        callee.k = rank - 1
        m.package = callee
        r = m.reshape_list(items, tuple(dims))
        idx, flat = [], None
        for d in dims:
            e.prove(zz(seq(r).n) == zz(d), 'ensures shape')
            i = some(d)
            r = seq(r).get(i)
            flat = i if flat is None else flat * d + i
        e.prove(r.t == x(zz(flat)), 'ensures entries in row-major order')
    fn.__name__ = 'reshape_rank_%d' % rank
    return fn


for _r in (1, 2, 3):
    contract('C06', LISTS + ':reshape_list', bounded='rank %d (lengths are arbitrary)' % _r)(reshape(_r))


class Form(AVal):
    sort = 'Form'


class Tensor(AVal):
    sort = 'Tensor'


NAMES = ('trace', 'transpose_trace', 'average', 'flux_average', 'patch_average', 'mean', 'point_trace', 'gradient_point_trace',
         'surface_mean', 'restriction', 'injection', 'extension')


def assembly_world(e):
    """xii_assembly with the reduced assemblers under their contracts"""
    ASM = fun('asm', 'Form', 'Tensor')
    handles = {n: fun('handled_by_' + n, 'Form', 'Bool') for n in NAMES}

    def reduced(name):
        def assemble_form(form, arity):
            return Tensor(ASM(form.t)) if SBool(handles[name](form.t)) else None
        return assemble_form
    stubs = {}
    for n in NAMES:
        stubs['xii.assembler.%s_assembly' % n] = R.stub('xii.assembler.%s_assembly' % n, assemble_form=reduced(n))
    stubs['ufl_legacy.form'] = R.stub('ufl_legacy.form', Form=Form)
    stubs['xii.assembler.ufl_utils'] = R.stub('xii.assembler.ufl_utils', form_arity=lambda f: 1)
    w = lm.world(dolfin=dict(assemble=lambda f: Tensor(ASM(f.t))), stubs=stubs)
    m = w.load('xii.assembler.xii_assembly')
    return m, ASM


@contract('C06', 'xii.assembler.xii_assembly:assemble', assumes=ASSUME)
def assemble_a_form_or_a_number(e):
    m, ASM = assembly_world(e)
    if e.choose(2):
        f = Form('form')
        r = m.assemble(f)
        e.prove(r.t == ASM(f.t), 'ensures the assembly of the form, whoever handles it')
    else:
        x = Real('x') if e.choose(2) else Int('x')
        e.prove(zz(m.assemble(x)) == x.e, 'ensures numbers pass through')


def recursion(e, m, ASM):
    """assemble on the entries: contract (proved above)"""
    real = m.assemble
    def callee(x):
        if isinstance(x, Form): return Tensor(ASM(x.t))
        return x
    m.assemble = callee
    return real


@contract('C06', 'xii.assembler.xii_assembly:assemble', assumes=ASSUME)
def assemble_lists(e):
    m, ASM = assembly_world(e)
    n = Int('n', 1)
    forms, F = indexed(Form, 'form', n)
    m.shape_list = lambda l: (n, )
    m.flatten_list = lambda l: l
    m.reshape_list = lambda l, s: l
    real = recursion(e, m, ASM)
    r = real(VList(forms))
    e.prove(z3.BoolVal(isinstance(r, lm.block_vec)), 'ensures a block vector')
    e.prove(zz(R.v_len(r)) == n.e, 'ensures number of blocks')
    k = some(n)
    e.prove(r[k].t == ASM(F(k.e)), 'ensures block k is the assembly of form k')


@contract('C06', 'xii.assembler.xii_assembly:assemble', assumes=ASSUME)
def assemble_grids(e):
    m, ASM = assembly_world(e)
    n, k = Int('n', 1), Int('m', 1)
    F = fun(e.fresh_name('form'), 'Int', 'Int', 'Form')
    forms = VList(SymSeq(n, lambda i: VList(SymSeq(k, lambda j: Form(F(zz(i), zz(j)))))))
    m.shape_list = lambda l: (n, k)
    m.flatten_list = lambda l: VList(SymSeq(n * k, None, 'list', (n, k), lambda idx: seq(seq(l).get(idx[0])).get(idx[1])))

    def reshape(l, s):
        e.prove(z3.And(zz(s[0]) == n.e, zz(s[1]) == k.e), 'requires of reshape_list: shape of the form')
        x = seq(l)
        return VList(SymSeq(n, lambda i: VList(SymSeq(k, lambda j: x.getnd((i, j)) if len(x.dims) == 2 else x.get(i * k + j)))))
    m.reshape_list = reshape
    real = recursion(e, m, ASM)
    r = real(forms)
    e.prove(z3.BoolVal(isinstance(r, lm.block_mat)), 'ensures a block matrix')
    e.prove(z3.And(zz(r.blocks.nr) == n.e, zz(r.blocks.nc) == k.e), 'ensures shape')
    i, j = some(n), some(k)
    e.prove(r[i][j].t == ASM(F(i.e, j.e)), 'ensures block (i, j) is the assembly of form (i, j)')
