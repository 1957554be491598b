"""Names the transformed code uses (`_vc`), replacements of builtins, and the loader of modules of /repo."""
import builtins, functools, importlib, itertools, os, sys, types
import ast
import z3
from . import engine as E
from .engine import (Int, VList, SymSeq, SNum, SBool, Loop, comprehension, Unsupported, eng, seq, zz, vmin, vmax, wrap,
                     vc_eq, SArr2, Havocked, const_seq)
from .transform import transform

REPO = os.environ.get('VERIF_REPO', '/repo')


def first_or_empty(one):
    if not one: return []
    x = one[0]
    if isinstance(x, VList) and x.sym is not None:
        return x
    return x


def genexp(lst):
    """Generator expressions are evaluated eagerly (they are pure in the functions under contract)"""
    return GenList(lst)


class GenList(VList):
    """What a generator, map or filter yields; it can be gone through once"""
    def __init__(self, items=(), sym=None):
        VList.__init__(self, items, sym)
        self.taken = [0, len(eng().frames) if E.CURRENT else 0]

    def __next__(self):
        if E.CURRENT and len(eng().frames) != self.taken[1]: raise Unsupported('iterator used in another loop than it was made')
        if self.taken[0] is None: raise StopIteration
        if self.sym is None:
            if not list.__len__(self): raise StopIteration
            return list.pop(self, 0)
        k = self.taken[0]
        if not (k < self.sym.n): raise StopIteration
        self.taken[0] = k + 1
        return self.sym.get(k)


def _is_sym_list(x):
    return isinstance(x, SymSeq) or isinstance(x, VList) and x.sym is not None or hasattr(x, '__vc_seq__') \
        and not isinstance(x, VList)


def unpack(v, n, star):
    if isinstance(v, VList) and v.sym is None: return v
    if isinstance(v, VSet): return v
    if _is_sym_list(v):
        s = seq(v)
        if star < 0:
            if not (s.n == n): raise ValueError('unpack')
            return tuple(s.get(k) for k in range(n))
        k = n - 1
        if not (s.n >= k): raise ValueError('unpack')
        head = [s.get(j) for j in range(star)]
        tail = k - star
        return StarUnpack(head, VList(s[slice(star, s.n - tail)]), [s.get(s.n - tail + j) for j in range(tail)])
    return v


class StarUnpack(object):
    def __init__(self, head, mid, tail): raise Unsupported('starred assignment of a symbolic sequence')


def note_attr(obj, name=None):
    if E.CURRENT and eng().frames:
        if getattr(obj, '__vc_track__', False):
            # forgotten where a loop that sets it was passed by (see Loop._apply_objects)
            for f in eng().frames: f.attrs.append((obj.ident, name))
            return
        if getattr(obj, '__vc_attr_ok__', False): return
        # made in this very iteration
        if isinstance(obj, VList) and obj.ident is not None and all(obj.ident >= f.serial0 for f in eng().frames): return
        raise Unsupported('attribute assigned inside a symbolic loop')


def _mutate_guard(obj):
    if E.CURRENT and any(obj.ident < f.serial0 for f in eng().frames):
        raise Unsupported('dictionary or set updated inside a symbolic loop')


class VDict(object):
    """dict with symbolic-aware key comparison"""
    default_factory = None

    def __init__(self, items=(), **kw):
        self.ident = next(eng().serial) if E.CURRENT else -1
        self.d = []
        if isinstance(items, VDict): items = items.items()
        elif isinstance(items, dict): items = list(items.items())
        for k, v in E.loop_iterable(items) if not isinstance(E.loop_iterable(items), SymSeq) else _nosym():
            self[k] = v
        for k, v in kw.items(): self[k] = v

    def _find(self, k):
        for j, (q, _) in enumerate(self.d):
            if vc_eq(k, q): return j
        return -1

    def __getitem__(self, k):
        j = self._find(k)
        if j >= 0: return self.d[j][1]
        if self.default_factory is not None:
            v = self.default_factory()
            self[k] = v
            return v
        raise KeyError(k)

    def __setitem__(self, k, v):
        _mutate_guard(self)
        j = self._find(k)
        if j >= 0: self.d[j] = (self.d[j][0], v)
        else: self.d.append((k, v))

    def __contains__(self, k): return self._find(k) >= 0

    def get(self, k, default=None):
        j = self._find(k)
        return self.d[j][1] if j >= 0 else default

    def pop(self, k, *default):
        _mutate_guard(self)
        j = self._find(k)
        if j < 0:
            if default: return default[0]
            raise KeyError(k)
        return self.d.pop(j)[1]

    def setdefault(self, k, v=None):
        if k not in self: self[k] = v
        return self[k]

    def update(self, o):
        for k, v in (o.items() if hasattr(o, 'items') else o): self[k] = v

    def keys(self): return VList([k for k, _ in self.d])
    def values(self): return VList([v for _, v in self.d])
    def items(self): return VList(list(self.d))
    def __iter__(self): return iter([k for k, _ in self.d])
    def __len__(self): return len(self.d)
    def __bool__(self): return bool(self.d)

    def copy(self): return VDict(self)

    def __vc_subst__(self, pairs): raise Unsupported('dictionary made in a loop')


def _nosym():
    raise Unsupported('dictionary of a symbolic sequence')


class VSet(object):
    def __init__(self, items=()):
        self.ident = next(eng().serial) if E.CURRENT else -1
        self.s, self.sym, self.popped = [], None, None
        items = E.loop_iterable(items)
        if isinstance(items, SymSeq):
            self.sym = items
            return
        for x in items: self.add(x)

    def add(self, x):
        _mutate_guard(self)
        if x not in self: self.s.append(x)

    def __getattribute__(self, a):
        get = object.__getattribute__
        if a == 's' and get(self, 'sym') is not None: raise Unsupported('set of the items of a symbolic sequence')
        return get(self, a)

    def __contains__(self, x):
        if self.sym is not None and self.popped is None: return x in self.sym
        return any(bool(vc_eq(x, y)) for y in self.s)

    def __iter__(self):
        if self.sym is not None and self.popped is None and self.sym.n > 0:
            x = self.sym.get(0)
            self.popped = 0
            rest = bool(self)
            self.popped = None
            if not rest: return iter([x])
        return iter(list(self.s))

    def __len__(self): return len(self.s)

    def __bool__(self):
        if self.sym is not None:
            if self.popped is None: return bool(self.sym.n > 0)
            # anything else than what was taken?
            k = z3.Int(eng().fresh_name('k'))
            e = E.as_bool(eng().merged(lambda: vc_eq(self.sym.get(SNum(k)), self.sym.get(self.popped)), z3.And(k >= 0, k < zz(self.sym.n)), SBool(z3.BoolVal(True))))
            return bool(SBool(z3.Exists([k], z3.And(k >= 0, k < zz(self.sym.n), z3.Not(e)))))
        return bool(self.s)

    def pop(self):
        _mutate_guard(self)
        if self.sym is not None and self.popped is None:
            if not (self.sym.n > 0): raise KeyError
            p = SNum(z3.Int(eng().fresh_name('taken')))
            eng().assume(z3.And(p.e >= 0, p.e < zz(self.sym.n)))
            self.popped = p
            return self.sym.get(p)
        if not self.s: raise KeyError
        return self.s.pop(0)

    def remove(self, x):
        _mutate_guard(self)
        for k, y in enumerate(self.s):
            if vc_eq(x, y):
                self.s.pop(k)
                return
        raise KeyError

    def discard(self, x):
        if x in self: self.remove(x)

    def update(self, xs):
        for x in xs: self.add(x)

    def __sub__(self, o): return VSet([x for x in self.s if x not in o])
    def __and__(self, o): return VSet([x for x in self.s if x in o])
    def __or__(self, o): return VSet(list(self.s) + list(o))
    def __le__(self, o): return all(x in o for x in self.s)
    def __ge__(self, o): return all(x in self for x in o)
    def __lt__(self, o): return self <= o and not o <= self
    def __eq__(self, o): return isinstance(o, (VSet, set, frozenset)) and all(x in o for x in self.s) and all(x in self for x in o)
    __hash__ = None
    issubset = __le__
    issuperset = __ge__

    def union(self, *os):
        r = self
        for o in os: r = r | o
        return r

    def intersection(self, o): return self & o
    def difference(self, o): return self - o


# ------------------------------------------------------------------ builtins
def v_len(x):
    if isinstance(x, VList): return x.sym.n if x.sym is not None else list.__len__(x)
    if isinstance(x, SymSeq): return x.n
    if hasattr(x, '__vc_len__'): return x.__vc_len__()
    if hasattr(x, '__vc_seq__'): return seq(x).n
    return len(x)


def v_range(*a):
    if all(isinstance(x, int) for x in a): return range(*a)
    if len(a) == 1: lo, hi = 0, a[0]
    elif len(a) == 2: lo, hi = a
    else: raise Unsupported('range with a step')
    return SymSeq(vmax(0, hi - lo), lambda k: lo + k, 'range')


def _syms(its):
    return [E.loop_iterable(i) for i in its]


def v_enumerate(it, start=0):
    it, = _syms([it])
    if not isinstance(it, SymSeq): return enumerate(it, start)
    if len(it.dims) == 1: return E.once(SymSeq(it.n, lambda k: (start + k, it.get(k))))
    raise Unsupported('enumerate of a grid')


def v_zip(*its, strict=False):
    its = _syms(its)
    if not any(isinstance(i, SymSeq) for i in its): return zip(*its)
    ss = [i if isinstance(i, SymSeq) else const_seq(i) for i in its]
    n = ss[0].n
    same_dims = all(len(s.dims) == len(ss[0].dims) for s in ss)
    if same_dims and len(ss[0].dims) > 1:
        for s in ss[1:]:
            for d0, d1 in zip(ss[0].dims, s.dims):
                if not (d0 == d1): raise Unsupported('zip of different grids')
        return E.once(SymSeq._make(n, ss[0].dims, lambda idx: tuple(s.getnd(idx) for s in ss), 'list'))
    for s in ss[1:]:
        n = n if _must_equal(n, s.n) else vmin(n, s.n)
    return E.once(SymSeq(n, lambda k: tuple(s.get(k) for s in ss)))


def _unzip(items):
    """zip(*pairs)"""
    s = E.loop_iterable(items)
    if not isinstance(s, SymSeq): return v_zip(*items)
    if SBool(zz(s.n) <= 0): return VList([])
    k = Int('k', 0)
    eng().assume(k.e < zz(s.n))
    one = s.get(k)
    if not isinstance(one, tuple): raise Unsupported('zip of the items of a sequence')
    return VList([SymSeq(s.n, lambda k, j=j: s.get(k)[j], 'tuple') for j in range(len(one))])


v_zip.__vc_star__ = _unzip


def _must_equal(a, b):
    if isinstance(a, int) and isinstance(b, int): return a == b
    return eng()._check(zz(a) != zz(b)) == z3.unsat


def v_map(f, *its):
    if len(its) == 1: return GenList(comprehension(lambda x: [f(x)], its[0], 'list', 'map'))
    return GenList(comprehension(lambda x: [f(*x)], v_zip(*its), 'list', 'map'))


def v_filter(f, it):
    f = f or bool
    it = E.loop_iterable(it)
    if isinstance(it, SymSeq): return GenList(comprehension(lambda x: [x] if f(x) else [], it, 'list', ('filter', )))
    return GenList([x for x in it if f(x)])


class v_list(VList):
    """`list`: makes a VList; classes derived from list derive from this"""
    def __new__(cls, it=(), *a, **k):
        if cls is not v_list:
            o = VList.__new__(cls)
            o.sym = None
            o.ident = next(eng().serial) if E.CURRENT else None
            return o
        if isinstance(it, VList) and not hasattr(it, 'taken'): return VList(it._seq()) if it.sym is not None else VList(it)
        return VList(E.loop_iterable(it))


def v_tuple(it=()):
    s = E.loop_iterable(it)
    if isinstance(s, SymSeq): return s.like(s.getnd, 'tuple')
    return tuple(s)


def _zip_star(items):
    """zip(*items): the items are tuples of the same length"""
    s = E.seq(items)
    if not isinstance(s, SymSeq): return v_zip(*items)
    if s.n <= 0: return v_zip()
    k = E.Int('k', 0)
    eng().assume(k.e < E.zz(s.n))
    one = s.get(k)
    if not isinstance(one, tuple): raise Unsupported('zip of symbolic sequences')
    return tuple(SymSeq(s.n, lambda j, p=p: s.get(j)[p]) for p in range(len(one)))


v_zip.__vc_star__ = _zip_star


def v_sum(it, start=0):
    if hasattr(it, '__vc_total__'): return it.__vc_total__(start)
    s = E.loop_iterable(it)
    if not isinstance(s, SymSeq):
        for x in s: start = start + x
        return start
    if isinstance(start, list) and not list(start):
        return VList(flat_lists(s))
    if len(s.dims) != 1: raise Unsupported('sum of a grid')
    if isinstance(start, int) and start == 0 and not (s.n <= 0):
        u = SNum(z3.Int(eng().fresh_name('u')))
        probe = s.get(u)
        if hasattr(probe, '__vc_sum__'): return probe.__vc_sum__(s)
    acc = start
    L = Loop(s, 'sum', ('acc', ))
    for x in L:
        acc = L.enter('acc', acc)
        acc = acc + x
        L.post({'acc': acc})
    acc = L.out('acc', acc)
    return acc


def flat_lists(s):
    """Concatenation of a symbolic sequence of lists (uniform length: division; else prefix sums)"""
    probe = z3.Int(eng().fresh_name('u'))
    if _uniform(s):
        m = v_len(s.get(0))
        if isinstance(m, int) and m == 0: return SymSeq(0, lambda k: None)
        return SymSeq._make(s.n * m, (s.n, m), lambda idx: seq(s.get(idx[0])).get(idx[1]), 'list')
    return E.flat_map(s.n, lambda k: v_len(s.get(k)), lambda k: seq(s.get(k)), s.n, 'sum')


def _uniform(s):
    if not (s.n > 0): return True
    a, b = SNum(z3.Int(eng().fresh_name('u'))), 0
    e = eng()
    rng = z3.And(a.e >= 0, a.e < zz(s.n))
    la = e.merged(lambda: v_len(s.get(a)), rng, default=0)
    lb = e.merged(lambda: v_len(s.get(0)), rng, default=0)
    r = e._check(zz(la) != zz(lb), rng)
    return r == z3.unsat


def _quantified(s):
    """(bound indices, range of the indices, truth of the element); the element must not fork the path"""
    e = eng()
    if hasattr(s, 'pieces'):
        # concatenation of pieces: item q of piece k
        cnt, size, piece, _ = s.pieces
        ks = [z3.Int(e.fresh_name('k')), z3.Int(e.fresh_name('q'))]
        rng = z3.And(ks[0] >= 0, ks[0] < zz(cnt))
        rng = z3.And(rng, ks[1] >= 0, ks[1] < zz(e.merged(lambda: size(SNum(ks[0])), rng, 0)))
        item = lambda: piece(SNum(ks[0])).get(SNum(ks[1]))
    else:
        ks = [z3.Int(e.fresh_name('k')) for _ in s.dims]
        rng = z3.And([z3.And(k >= 0, k < zz(d)) for k, d in zip(ks, s.dims)])
        item = lambda: s.getnd(tuple(SNum(k) for k in ks))

    def truth():
        b = item()
        if isinstance(b, SNum): return SBool(b.e != 0)
        return b if isinstance(b, (bool, SBool)) else bool(b)
    return ks, rng, E.as_bool(e.merged(truth, rng, SBool(z3.BoolVal(True))))


def v_all(it):
    s = E.loop_iterable(it)
    if not isinstance(s, SymSeq): return all(s)
    if hasattr(s, 'parts'): return SBool(z3.And([E.as_bool(v_all(p)) for p in s.parts]))
    ks, rng, b = _quantified(s)
    return SBool(z3.ForAll(ks, z3.Implies(rng, b)))


def v_any(it):
    s = E.loop_iterable(it)
    if not isinstance(s, SymSeq): return any(s)
    if hasattr(s, 'parts'): return SBool(z3.Or([E.as_bool(v_any(p)) for p in s.parts]))
    ks, rng, b = _quantified(s)
    return SBool(z3.Exists(ks, z3.And(rng, b)))


def v_isinstance(x, cls):
    if isinstance(cls, tuple): return any(v_isinstance(x, c) for c in cls)
    if isinstance(x, SNum):
        return cls in (int, v_int) if x.is_int else cls in (float, v_float)
    if isinstance(x, SBool): return cls in (bool, int)
    cls = {v_type: type, v_list: list, v_tuple: tuple, v_int: int, v_float: float, v_set: set, v_dict: dict}.get(cls, cls)
    if isinstance(x, SymSeq): return {list: 'list', tuple: 'tuple', range: 'range'}.get(cls) == x.kind or \
        getattr(cls, '__name__', '') == 'ndarray' and x.kind == 'array'
    if isinstance(x, VDict): return cls is dict
    if isinstance(x, VSet): return cls is set
    if hasattr(x, '__vc_isinstance__'): return x.__vc_isinstance__(cls)
    if not isinstance(cls, type): raise Unsupported('isinstance of %r' % (cls, ))
    return isinstance(x, cls)


def v_type(x, *rest):
    """The names `list`, `int`, .. have in the module"""
    if rest: return type(x, *rest)
    if isinstance(x, SNum): return v_int if x.is_int else v_float
    if hasattr(x, '__vc_type__'): return x.__vc_type__()
    if isinstance(x, VList): return type(x) if isinstance(x, v_list) else v_list
    if isinstance(x, VDict): return v_dict
    if isinstance(x, VSet): return v_set
    if isinstance(x, SymSeq): return {'list': v_list, 'tuple': v_tuple}.get(x.kind, SymSeq)
    return FACTORY.get(type(x), type(x))


def v_int(x=0, *a):
    if isinstance(x, SNum):
        if x.is_int: return x
        raise Unsupported('int of a real')
    return int(x, *a)


def v_float(x=0.):
    if isinstance(x, SNum): return wrap(z3.ToReal(x.e)) if x.is_int else x
    return float(x)


def _extreme(s, first):
    """Least (largest) item of a symbolic sequence"""
    e = eng()
    if not (s.n > 0): raise ValueError('empty')
    if e.frames: raise Unsupported('min or max of a symbolic sequence in a loop')
    w, q = z3.Int(e.fresh_name('w')), z3.Int(e.fresh_name('q'))
    rng = z3.And(q >= 0, q < zz(s.n))
    m = e.merged(lambda: s.get(SNum(w)), z3.And(w >= 0, w < zz(s.n)))
    e.assume(z3.And(w >= 0, w < zz(s.n)))
    le = e.merged(lambda: SBool(z3.Implies(rng, E.as_bool(first(m, s.get(SNum(q)))))), rng, SBool(z3.BoolVal(True)))
    e.assume(z3.ForAll([q], E.as_bool(le)))
    return m


class DropWhile(object):
    """itertools.dropwhile over a symbolic sequence: the first item is available"""
    def __init__(self, f, s): self.f, self.s, self.used = f, s, False

    def __iter__(self): return self

    def __next__(self):
        if self.used: raise Unsupported('items after the first of dropwhile')
        self.used = True
        e, s, f = eng(), self.s, self.f
        if e.frames: raise Unsupported('dropwhile in a loop')
        w, q = z3.Int(e.fresh_name('w')), z3.Int(e.fresh_name('q'))
        rng = z3.And(q >= 0, q < zz(s.n))
        keep = lambda k: E.as_bool(f(s.get(SNum(k))))
        skip = E.as_bool(e.merged(lambda: SBool(keep(q)), rng, SBool(z3.BoolVal(True))))
        if e.choose(2) == 0:
            e.assume(z3.And(w >= 0, w < zz(s.n)))
            if e._check() == z3.unsat: raise E.Infeasible()
            e.assume(z3.Not(keep(w)))
            e.assume(z3.ForAll([q], z3.Implies(z3.And(rng, q < w), skip)))
            if e._check() == z3.unsat: raise E.Infeasible()
            return s.get(SNum(w))
        e.assume(z3.ForAll([q], z3.Implies(rng, skip)))
        if e._check() == z3.unsat: raise E.Infeasible()
        raise StopIteration


def v_dropwhile(f, it):
    s = E.loop_iterable(it)
    return DropWhile(f, s) if isinstance(s, SymSeq) else iter(itertools.dropwhile(f, VList(s)))


def v_min(*a, key=None, default=None):
    if len(a) == 1:
        s = E.loop_iterable(a[0])
        if isinstance(s, SymSeq):
            if key is not None: raise Unsupported('min with a key')
            return _extreme(s, lambda a, b: a <= b)
        a = list(s)
    if key is not None:
        if any(isinstance(key(x), SNum) for x in a): raise Unsupported('min with symbolic keys')
        return min(a, key=key)
    return functools.reduce(vmin, a) if any(isinstance(x, SNum) for x in a) else min(a)


def v_max(*a, key=None, default=None):
    if len(a) == 1:
        s = E.loop_iterable(a[0])
        if isinstance(s, SymSeq):
            if key is not None: raise Unsupported('max with a key')
            return _extreme(s, lambda a, b: a >= b)
        a = list(s)
    if key is not None:
        if any(isinstance(key(x), SNum) for x in a): raise Unsupported('max with symbolic keys')
        return max(a, key=key)
    return functools.reduce(vmax, a) if any(isinstance(x, SNum) for x in a) else max(a)


def v_abs(x): return abs(x)


def v_set(it=()): return it.__vc_set__() if hasattr(it, '__vc_set__') else VSet(it)


def v_dict(it=(), **kw): return VDict(it, **kw)


def v_iter(x):
    s = E.loop_iterable(x)
    if isinstance(s, SymSeq): return SymIter(s)
    return iter(s)


class SymIter(object):
    """Explicit iterator over a symbolic sequence: next() peels the front"""
    def __init__(self, s): self.s, self.k = s, 0

    def __next__(self):
        if self.k >= self.s.n: raise StopIteration
        x = self.s.get(self.k)
        self.k += 1
        return x

    def __vc_seq__(self):
        k, s = self.k, self.s
        return SymSeq(s.n - k, lambda j: s.get(k + j))

    def __iter__(self): return self


def v_next(it, *d):
    if isinstance(it, SymSeq) and hasattr(it, 'taken'):
        k = it.taken[0]
        if len(eng().frames) != it.taken[1]: raise Unsupported('iterator used in another loop than it was made')
        if k is None or not (k < it.n):
            if d: return d[0]
            raise StopIteration
        it.taken[0] = k + 1
        return it.get(k)
    if isinstance(it, SymSeq): raise TypeError('object is not an iterator') if it.kind in ('list', 'tuple', 'range', 'array') else Unsupported('next')
    return next(it, *d)


def v_sorted(it, key=None, reverse=False):
    s = E.loop_iterable(it)
    if isinstance(s, SymSeq): raise Unsupported('sorted of a symbolic sequence')
    items = list(s)
    ks = [key(x) if key else x for x in items]
    ks = [bool(k) if isinstance(k, SBool) else k for k in ks]
    if any(isinstance(k, (SNum, )) or isinstance(k, tuple) and any(isinstance(q, SNum) for q in k) for k in ks):
        # insertion sort: comparisons fork
        out = []
        for k, x in zip(ks, items):
            p = 0
            while p < len(out) and not _lt(k, out[p][0]): p += 1
            out.insert(p, (k, x))
        r = [x for _, x in out]
    else:
        r = [x for _, x in sorted(zip(ks, items), key=lambda t: t[0])]
    return VList(r[::-1] if reverse else r)


def _lt(a, b):
    if isinstance(a, tuple):
        for x, y in zip(a, b):
            if x < y: return True
            if not (x == y): return False
        return len(a) < len(b)
    return bool(a < b)


def v_reversed(x):
    s = E.loop_iterable(x)
    if isinstance(s, SymSeq): return s[::-1]
    return reversed(list(s))


def v_reduce(f, it, *init):
    s = E.loop_iterable(it)
    if not isinstance(s, SymSeq): return functools.reduce(f, s, *init)
    if init: acc, rest = init[0], s
    else:
        if not (s.n > 0): raise TypeError('reduce of empty sequence')
        acc, rest = s.get(0), s[slice(1, None)]
    if isinstance(rest.n, int):
        for x in rest: acc = f(acc, x)
        return acc
    L = Loop(rest, 'reduce', ('acc', ))
    for x in L:
        acc = L.enter('acc', acc)
        acc = f(acc, x)
        L.post({'acc': acc})
    return L.out('acc', acc)


def v_product(*its, repeat=1):
    its = _syms(list(its) * repeat)
    if not any(isinstance(i, SymSeq) for i in its): return VList(itertools.product(*its))
    ss = [i if isinstance(i, SymSeq) else const_seq(i) for i in its]
    n = functools.reduce(lambda a, b: a * b, [s.n for s in ss])
    return SymSeq._make(n, tuple(s.n for s in ss), lambda idx: tuple(s.get(k) for s, k in zip(ss, idx)), 'list')


def v_chain(*its):
    r = VList()
    for i in its: r = r + v_list(i)
    return r


def _chain_all(items):
    s = E.loop_iterable(items)
    if not isinstance(s, SymSeq): return v_chain(*items)
    return VList(flat_lists(s))


v_chain.__vc_star__ = _chain_all
v_chain.from_iterable = _chain_all


def v_print(*a, **k): pass


def v_hasattr(o, a):
    if hasattr(o, '__vc_hasattr__'): return o.__vc_hasattr__(a)
    return hasattr(o, a)


def v_id(x):
    return x.__vc_id__() if hasattr(x, '__vc_id__') else id(x)


class defaultdict(VDict):
    def __init__(self, factory=None, *a):
        VDict.__init__(self, *a)
        self.default_factory = factory


FACTORY = {list: v_list, set: v_set, dict: v_dict, tuple: v_tuple, int: v_int, float: v_float}

BUILTINS = dict(vars(builtins))
BUILTINS.update(len=v_len, range=v_range, enumerate=v_enumerate, zip=v_zip, map=v_map, filter=v_filter, list=v_list,
                tuple=v_tuple, sum=v_sum, all=v_all, any=v_any, isinstance=v_isinstance, type=v_type, int=v_int,
                float=v_float, min=v_min, max=v_max, set=v_set, dict=v_dict, iter=v_iter, next=v_next,
                sorted=v_sorted, reversed=v_reversed, print=v_print, hasattr=v_hasattr, id=v_id, frozenset=v_set)


def stub(name, **names):
    m = types.ModuleType(name)
    m.__dict__.update(names)
    return m


STD = {
    'itertools': stub('itertools', product=v_product, chain=v_chain, count=itertools.count,
                      combinations=itertools.combinations, repeat=itertools.repeat,
                      dropwhile=v_dropwhile),
    'functools': stub('functools', reduce=v_reduce, partial=functools.partial, wraps=functools.wraps,
                      lru_cache=lambda f=None, **k: f),
    'collections': stub('collections', defaultdict=defaultdict, namedtuple=__import__('collections').namedtuple,
                        OrderedDict=VDict, deque=v_list),
    'operator': importlib.import_module('operator'),
    'contextlib': importlib.import_module('contextlib'),
    'math': importlib.import_module('math'),
    'copy': importlib.import_module('copy'),
    'random': importlib.import_module('random'),
    'networkx': __import__('networkx'),
    'types': types, 'sys': stub('sys', argv=[]), 'os': stub('os'), 'warnings': importlib.import_module('warnings'),
}


def fmt(text, values):
    try:
        return text % values
    except (Unsupported, TypeError):
        return Text(text, values)


class Text(object):
    """Text made from symbolic values: good for messages only"""
    def __init__(self, *a): self.a = a
    def __getattr__(self, a): raise Unsupported('text of symbolic values is used')
    __eq__ = __hash__ = __add__ = __radd__ = __iter__ = __bool__ = lambda self, *a: self.used


def star(f, items):
    """f(*items)"""
    if hasattr(f, '__vc_star__'): return f.__vc_star__(items)
    return f(*items)


class VC(object):
    """The `_vc` name of transformed modules"""
    Loop, VList, VDict, VSet = Loop, VList, VDict, VSet
    comprehension = staticmethod(comprehension)
    first_or_empty = staticmethod(first_or_empty)
    genexp = staticmethod(genexp)
    unpack = staticmethod(unpack)
    note_attr = staticmethod(note_attr)
    fmt = staticmethod(fmt)
    star = staticmethod(star)


CODE = {}       # one read of /repo per process: all contracts of a run see the same source


class World(object):
    """Modules of /repo loaded for symbolic execution, with assumed contracts for what they import"""
    def __init__(self, stubs=(), contracts=None):
        self.stubs = dict(STD)
        self.stubs.update(stubs)
        self.contracts = contracts or {}      # 'xii.mod:function' -> replacement (callee contract)
        self.modules = {}
        self.used_contracts = set()
        self.sources = {}
        self.eager = set()                    # (module, generator): see transform

    def load(self, name):
        if name in self.modules: return self.modules[name]
        if name in self.stubs: return self.stubs[name]
        path = os.path.join(REPO, *name.split('.'))
        if os.path.isdir(path): path = os.path.join(path, '__init__.py')
        else: path += '.py'
        if not os.path.exists(path): raise Unsupported('no contract for the module %s' % name)
        eager = tuple(sorted(f for mod, f in self.eager if mod == name))
        code = CODE.get((path, eager))
        if code is None:
            src = open(path).read()
            try:
                code = CODE[path, eager] = compile(transform(src, path, eager), path, 'exec')
            except SyntaxError as e:
                raise Unsupported('cannot parse %s: %s' % (path, e))
        m = types.ModuleType(name)
        self.modules[name] = m
        self.sources[name] = path
        b = dict(BUILTINS)
        b['__import__'] = self._import
        m.__dict__.update(__builtins__=b, _vc=VC, __name__=name, __file__=path)
        exec(code, m.__dict__)
        for key, rep in self.contracts.items():
            mod, fn = key.split(':')
            if mod == name: m.__dict__[fn] = rep
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if name in self.stubs: 
            m = self.stubs[name]
        elif name == 'xii' or name.startswith('xii.'):
            m = self.package(name, fromlist)
        else:
            root = name.split('.')[0]
            if root in self.stubs and not fromlist: return self.stubs[root]
            m = Missing(name)
        if fromlist:
            if '*' in fromlist and isinstance(m, Missing): raise Unsupported('star import of %s' % name)
            for f in fromlist:
                if f != '*' and not hasattr(m, f) and not isinstance(m, Missing):
                    full = name + '.' + f
                    if full in self.stubs or name.startswith('xii'):
                        try:
                            setattr(m, f, self.stubs.get(full) or self.load(full))
                            continue
                        except Unsupported:
                            pass
                    setattr(m, f, Missing(full))
            return m
        parts = name.split('.')
        if len(parts) == 1: return m
        root = self.stubs.get(parts[0]) or self.modules.get(parts[0]) or types.ModuleType(parts[0])
        cur = root
        for k, p in enumerate(parts[1:], 2):
            sub = self.stubs.get('.'.join(parts[:k])) or (m if k == len(parts) else None)
            if sub is None: sub = getattr(cur, p, None) or types.ModuleType(p)
            try:
                setattr(cur, p, sub)
            except AttributeError:
                pass
            cur = sub
        if parts[0] not in self.stubs: self.modules.setdefault(parts[0], root)
        return root

    def package(self, name, fromlist):
        if name in ('xii', 'xii.linalg', 'xii.assembler', 'xii.meshing'):
            return self.modules.setdefault(name, types.ModuleType(name))
        return self.load(name)

    def func(self, spec):
        mod, fn = spec.split(':')
        obj = self.load(mod)
        for p in fn.split('.'): obj = getattr(obj, p)
        return obj


class Missing(object):
    """Imported thing without an assumed contract: importing is fine, using it is unsupported"""
    def __init__(self, name): self.__dict__['_n'] = name

    def __getattr__(self, a):
        if a.startswith('__'): raise AttributeError(a)
        return Missing(self._n + '.' + a)

    def __call__(self, *a, **k): raise Unsupported('no contract for %s' % self._n)
    def __mro_entries__(self, bases): return (object, )
    def __iter__(self): raise Unsupported('no contract for %s' % self._n)
