"""Values of uninterpreted sorts: things of dolfin / UFL / PETSc of which only identity matters."""
import z3
from .engine import SBool, SNum, SymSeq, VList, eng, zz, wrap, Unsupported, sub
from . import runtime as R

SORTS = {}


def sort(name):
    if name not in SORTS: SORTS[name] = z3.DeclareSort(name)
    return SORTS[name]


class AVal(object):
    """Element of an uninterpreted sort; subclasses stand for classes of the libraries"""
    sort = 'Val'

    def __init__(self, t=None, **kw):
        if t is None: t = self.sort.lower()
        if isinstance(t, str): t = z3.Const(eng().fresh_name(t), sort(self.sort))
        self.t = t
        self.kw = kw

    def __eq__(self, o):
        if isinstance(o, AVal) and o.t.sort() == self.t.sort(): return SBool(self.t == o.t)
        return False

    def __ne__(self, o):
        r = self == o
        return SBool(z3.Not(r.e)) if isinstance(r, SBool) else not r
    __hash__ = None

    def __vc_subst__(self, pairs):
        r = type(self).__new__(type(self))
        r.__dict__.update(self.__dict__)
        r.t = sub(self.t, pairs)
        return r

    def __vc_ite__(self, g, o):
        if o.t.sort() != self.t.sort(): raise Unsupported('merge of different sorts')
        r = type(self).__new__(type(self))
        r.__dict__.update(self.__dict__)
        r.t = z3.If(g, self.t, o.t)
        return r

    def __repr__(self): return '%s<%s>' % (type(self).__name__, self.t)


def fun(name, *sorts):
    """Uninterpreted function; sorts are names or z3 sorts, the last one is the range"""
    ss = [{'Int': z3.IntSort(), 'Real': z3.RealSort(), 'Bool': z3.BoolSort()}.get(s) if isinstance(s, str) and s in ('Int', 'Real', 'Bool')
          else sort(s) if isinstance(s, str) else s for s in sorts]
    return z3.Function(name, *ss)


def indexed(cls, name, n, **kw):
    """Sequence of n things name(0), name(1), ..."""
    f = fun(eng().fresh_name(name), 'Int', cls.sort)
    return SymSeq(n, lambda k: cls(f(zz(k)), **kw)), f


def lst(s): return VList(s)


def forall(n, body, name='q'):
    """for all 0 <= q < n: body(q) — body returns SBool / z3"""
    from .engine import as_bool
    q = z3.Int(eng().fresh_name(name))
    return z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < zz(n)), as_bool(body(SNum(q)))))


def some(n, name='q'):
    """An arbitrary index below n (a skolem constant: proving for it proves for all)"""
    from .engine import Int
    q = Int(name, 0)
    eng().assume(q.e < zz(n))
    return q


class State(object):
    """Object with attributes that loops may assign; what a loop leaves in them is unknown after it, and before they are
    assigned in an iteration"""
    __vc_track__ = True

    def __init__(self):
        e = eng()
        self.__dict__['ident'] = next(e.serial)
        e.tracked[self.ident] = self

    def __vc_forget__(self, name): self.__dict__[name] = FORGOTTEN

    def __getattribute__(self, a):
        v = object.__getattribute__(self, a)
        if v is FORGOTTEN: raise Unsupported('no invariant for attribute %s' % a)
        return v


FORGOTTEN = object()
