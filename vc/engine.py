"""Verification-condition generator for Python functions of /repo.

The *real* source of a module is read from /repo on every run, parsed, passed through the mechanical
transformation of transform.py (loops, comprehensions and list displays call back into this engine; nothing
else changes) and executed by CPython over symbolic values.  Every branch on a symbolic condition forks the
path (depth first re-execution).  A loop over a sequence of symbolic length is handled by the loop rule:

  probe   an arbitrary iteration from a havocked state, to read off how the body updates each variable
          (candidate loop invariant: closed form / prefix sum / appended-sequence / stored-array)
  iter    an arbitrary iteration i from the state given by the candidate invariant at i: every obligation
          of the body is emitted here, and that the body re-establishes the invariant at i + 1
  exit    the state after the loop: the candidate invariant at the number of iterations

so obligations hold for every number of iterations.  Obligations are discharged by z3 (cvc5 second).
"""
import time, itertools, fractions, re
import z3


class Unsupported(Exception):
    """The function left the subset the engine can decide: undecided, never a violation."""


class PathEnd(BaseException):
    """End of an arbitrary iteration"""


class Infeasible(BaseException):
    """The path condition became false"""


class Obligation(object):
    def __init__(self, name, status, backend, secs, detail='', tainted=False):
        self.name, self.status, self.backend, self.secs = name, status, backend, secs
        self.detail, self.tainted = detail, tainted

    def as_dict(self):
        return dict(name=self.name, status=self.status, backend=self.backend, secs=round(self.secs, 4),
                    detail=self.detail)


class Path(object):
    def __init__(self, kind, value, engine):
        self.kind, self.value = kind, value       # return | raise | iter
        self.pc = list(engine.pc)
        self.events = list(engine.events)
        self.loops = list(engine.loop_stack_snapshot)
        self.decisions = [d[0] for d in engine.decisions]


class Engine(object):
    def __init__(self, timeout_ms=4000, max_paths=3000, deadline=None):
        self.timeout_ms, self.max_paths = timeout_ms, max_paths
        self.deadline = deadline
        self.obligations = []
        self.stats = dict(paths=0, forks=0, queries=0, solver_s=0.0)
        self.knowledge, self.uids = {}, {}
        self._reset([])
        self.prefix_decisions = []

    # ---------------------------------------------------------------- paths
    def _reset(self, decisions):
        self.decisions = decisions
        self.pos = 0
        self.pc = []
        self.axioms = []
        self.events = []
        self.counter = itertools.count()
        self.serial = itertools.count()
        self.frames = []                  # active symbolic loop frames
        self.loop_stack_snapshot = []
        self.tainted = False
        self.solver = z3.Solver()
        self.solver.set('timeout', self.timeout_ms)
        self.objects = {}
        self.schemas, self.lazy = {}, {}
        self.tracked, self.hooks, self.exits, self.exit_hooks = {}, [], [], []
        self.psums = {}
        self.probing = False
        self.merge = None
        self.sums, self.walked = {}, {}
        self.linear_first = None          # light: solver of the linear facts, asked first

    def fresh_name(self, base):
        """Names made while the body of a loop is probed are marked: their meaning is bound to that iteration"""
        mark = [f.uid for f in self.frames if f.mode == 'probe'][-1:]
        return '%s!%d%s' % (base, next(self.counter), 'p%d' % mark[0] if mark else '')

    def assume(self, cond):
        cond = as_bool(cond)
        if z3.is_true(cond): return
        self.pc.append(cond)
        self.solver.add(cond)
        self._instances([cond])

    def axiom(self, cond):
        """A definition or a lemma (true whatever the path)"""
        self.axioms.append(cond)
        self.solver.add(cond)

    def schema(self, f, law):
        """law(*args) adds the axioms about f(*args), for all places where f is used"""
        self.schemas[f.name()] = law

    def _instances(self, exprs):
        """Instantiate the recursion of sums at the places they are used"""
        if not self.sums and not self.schemas: return
        todo = list(exprs)
        while todo:
            x = todo.pop()
            if x.get_id() in self.walked: continue
            self.walked[x.get_id()] = x
            if z3.is_app(x):
                at = self.sums.get(x.decl().name()) if x.num_args() == 1 else None
                if at is not None and not has_var(x): at(x.arg(0))
                law = self.schemas.get(x.decl().name()) if x.num_args() else None
                if law is not None and not has_var(x): law(*x.children())
                todo.extend(x.children())
            elif z3.is_quantifier(x): todo.append(x.body())

    def _check(self, *conds):
        self._instances(conds)
        t0 = time.time()
        self.stats['queries'] += 1
        r = self.linear_first(self, conds) if self.linear_first else None
        if r is None: r = self.solver.check(*conds)
        self.stats['solver_s'] += time.time() - t0
        return r

    def choose(self, n, feasible=None):
        """Fork into n alternatives; feasible: callable telling whether alternative k may be taken"""
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget of the proof used up')
        if self.merge is not None: raise Unsupported('choice inside a merged term')
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]
        else:
            alts = [k for k in range(n) if feasible is None or feasible(k)]
            if not alts: raise Infeasible()
            d = [alts[0], alts[1:]]
            self.decisions.append(d)
            self.stats['forks'] += len(alts) > 1
        self.pos += 1
        return d[0]

    def branch(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond): return True
        if z3.is_false(cond): return False
        if self.linear_first and self.merge is None:
            for k in (True, False):
                if self.linear_first(self, [z3.Not(cond) if k else cond]) == z3.unsat: return k
        both = (cond, z3.Not(cond))
        if self.merge is not None:
            m = self.merge
            if m['pos'] < len(m['dec']): k = m['dec'][m['pos']][0]
            else:
                ok = [k for k in (0, 1) if self._check(*(m['conds'] + [both[k]])) != z3.unsat]
                if not ok: raise Infeasible()
                m['dec'].append([ok[0], ok[1:]])
                k = ok[0]
            m['pos'] += 1
            m['conds'].append(both[k])
            m['local'].append(both[k])
            return k == 0
        k = self.choose(2, lambda k: self._check(both[k]) != z3.unsat)
        self.assume(both[k])
        return k == 0

    def merged(self, thunk, hyp=None, default=None):
        """Value of thunk as one term: its branches become if-then-else instead of forking the path.
        hyp: what may be taken for granted (e.g. the range of a bound variable)"""
        outer, dec, cases = self.merge, [], []
        base = list(outer['conds']) if outer else []
        while True:
            self.merge = dict(conds=base + ([hyp] if hyp is not None else []), local=[], dec=dec, pos=0)
            npc = len(self.pc)
            try:
                v = thunk()
                cases.append((z3.And(self.merge['local'] + [z3.BoolVal(True)]), v))
            except Infeasible:
                pass
            except (AssertionError, IndexError, ValueError, KeyError, ZeroDivisionError) as x:
                raise Unsupported('exception under a quantifier: %s' % type(x).__name__)
            finally:
                self.merge = outer
            if len(self.pc) != npc: raise Unsupported('assumption under a quantifier')
            while dec and not dec[-1][1]: dec.pop()
            if not dec: break
            dec[-1][0] = dec[-1][1].pop(0)
            if len(cases) > 200: raise Unsupported('merged term with more than 200 cases')
        if not cases:
            if outer is None and self._check() == z3.unsat: raise Infeasible()
            if default is not None: return default
            raise Unsupported('merged term without a case')
        return ite_chain(cases)

    def prefix(self):
        return tuple(d[0] for d in self.decisions[:self.pos])

    def explore(self, thunk):
        """All paths of thunk"""
        paths, decisions = [], []
        self.knowledge = {}
        while True:
            self._reset(decisions)
            CURRENT.append(self)
            try:
                try:
                    value = thunk()
                    if not any(f.mode == 'probe' for f in self.frames):
                        paths.append(Path('return', value, self))
                except PathEnd:
                    if not self.probing: paths.append(Path('iter', None, self))
                except Infeasible:
                    pass
                except (Unsupported, RecursionError, MemoryError):
                    raise
                except Exception as e:
                    if not any(f.mode == 'probe' for f in self.frames) and self._check() != z3.unsat:
                        paths.append(Path('raise', e, self))
            finally:
                CURRENT.pop()
            self.stats['paths'] += 1
            if self.stats['paths'] > self.max_paths: raise Unsupported('more than %d paths' % self.max_paths)
            while decisions and not decisions[-1][1]:
                decisions.pop()
            if not decisions: return paths
            last = decisions[-1]
            last[0] = last[1].pop(0)

    # ---------------------------------------------------------- obligations
    def prove(self, cond, name, detail=''):
        """Obligation: path condition => cond"""
        if self.frames and any(f.mode == 'probe' for f in self.frames):
            return True                   # candidate finding: nothing is claimed here
        cond = as_bool(cond)
        t0 = time.time()
        goal = z3.simplify(cond)
        if z3.is_true(goal):
            self.obligations.append(Obligation(name, 'discharged', 'z3-simplify', time.time() - t0, detail))
            return True
        r = self._check(z3.Not(goal))
        if r == z3.unsat:
            self.obligations.append(Obligation(name, 'discharged', 'z3', time.time() - t0, detail))
            return True
        if r == z3.unknown:
            if not self.linear_first and cvc5_unsat(self.pc + self.axioms + [z3.Not(goal)], self.timeout_ms * 2):
                self.obligations.append(Obligation(name, 'discharged', 'cvc5', time.time() - t0, detail))
                return True
            self.obligations.append(Obligation(name, 'unknown', 'z3+cvc5', time.time() - t0, detail))
            return False
        if self.lazy:
            # definitions (of products) that are left out above
            defs = list(self.lazy.values())
            r = self._check(z3.Not(goal), *defs)
            if r != z3.sat:
                ok = r == z3.unsat or cvc5_unsat(self.pc + self.axioms + defs + [z3.Not(goal)], self.timeout_ms * 2)
                self.obligations.append(Obligation(name, 'discharged' if ok else 'unknown', 'z3' if r == z3.unsat else 'cvc5' if ok else 'z3+cvc5',
                                                   time.time() - t0, detail))
                return ok
        m = self.solver.model()
        # instances of sums are not complete: a model may be spurious
        tainted = self.tainted or names_with(('havoc_', 'S!'), self.pc + [goal])
        txt = '; '.join('%s = %s' % (d.name(), m[d]) for d in m.decls()[:25])
        self.obligations.append(Obligation(name, 'unknown' if tainted else 'refuted', 'z3', time.time() - t0,
                                           'goal %s fails with %s %s' % (str(goal)[:300], txt[:1200], detail),
                                           tainted))
        return False

    def expect(self, ok, what):
        """The code has the form the contract can judge; otherwise undecided (not a violation)"""
        if not ok: raise Unsupported('form not covered by the contract: ' + what)

    def fail(self, name, detail=''):
        """An obligation whose goal is False here (path condition must be contradictory for it to hold)"""
        return self.prove(z3.BoolVal(False), name, detail)

    def event(self, kind, **data):
        self.events.append((kind, data))


CURRENT = []


def eng():
    return CURRENT[-1]


def cvc5_unsat(conds, timeout_ms):
    """Second back end on the same SMT-LIB text"""
    try:
        import cvc5
        s = z3.Solver()
        for c in conds: s.add(c)
        text = '(set-logic ALL)\n' + s.to_smt2()
        tm = cvc5.TermManager()
        slv = cvc5.Solver(tm)
        slv.setOption('tlimit', str(timeout_ms))
        p = cvc5.InputParser(slv)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, text, 'vc')
        sm = p.getSymbolManager()
        while True:
            cmd = p.nextCommand()
            if cmd.isNull(): break
            out = cmd.invoke(slv, sm)
            if 'unsat' in str(out): return True
        return False
    except BaseException as e:             # the second opinion is optional
        if isinstance(e, (KeyboardInterrupt, PathEnd, Infeasible)): raise
        return False


def ite_chain(cases):
    """if g1 then v1 elif g2 then v2 ... else vn"""
    r = cases[-1][1]
    for g, v in reversed(cases[:-1]):
        if v is r: continue
        if isinstance(v, (bool, SBool)) or isinstance(r, (bool, SBool)):
            r = SBool(z3.simplify(z3.If(g, as_bool(v), as_bool(r))))
        elif isinstance(v, (int, float, SNum)) and isinstance(r, (int, float, SNum)):
            a, b = zz(v), zz(r)
            if a.sort() != b.sort(): a, b = [z3.ToReal(q) if q.sort() == z3.IntSort() else q for q in (a, b)]
            r = wrap(z3.If(g, a, b))
        elif type(v) is type(r) and hasattr(v, '__vc_ite__'): r = v.__vc_ite__(g, r)
        elif isinstance(v, tuple) and isinstance(r, tuple) and len(v) == len(r):
            r = tuple(ite_chain([(g, x), (z3.BoolVal(True), y)]) for x, y in zip(v, r))
        else: raise Unsupported('cannot merge %s and %s' % (type(v).__name__, type(r).__name__))
    return r


# --------------------------------------------------------------------- values
def as_bool(c):
    if isinstance(c, SBool): return c.e
    if isinstance(c, bool): return z3.BoolVal(c)
    if z3.is_expr(c): return c
    raise Unsupported('not a truth value: %r' % (c, ))


def zz(v):
    """Number -> z3"""
    if isinstance(v, SNum): return v.e
    if isinstance(v, bool): return z3.IntVal(int(v))
    if isinstance(v, int): return z3.IntVal(v)
    if isinstance(v, float):
        return z3.RealVal(fractions.Fraction(v).limit_denominator(10**15) if v == v else None)
    if isinstance(v, fractions.Fraction): return z3.RealVal(v)
    if z3.is_expr(v): return v
    try:
        import numpy as np
        if isinstance(v, np.integer): return z3.IntVal(int(v))
        if isinstance(v, np.floating): return zz(float(v))
    except ImportError:
        pass
    raise Unsupported('not a number: %r' % (type(v), ))


def wrap(e):
    """z3 -> Python number if it is a numeral, else symbolic number"""
    e = z3.simplify(e)
    if z3.is_int_value(e): return e.as_long()
    return SNum(e)


class SBool(object):
    def __init__(self, e): self.e = e

    def __bool__(self): return eng().branch(self.e)

    def __and__(self, o): return SBool(z3.And(self.e, as_bool(o)))
    __rand__ = __and__

    def __or__(self, o): return SBool(z3.Or(self.e, as_bool(o)))
    __ror__ = __or__

    def __invert__(self): return SBool(z3.Not(self.e))

    def __eq__(self, o): return SBool(self.e == as_bool(o))
    __hash__ = None


def _cmp(op):
    def f(self, o):
        try:
            b = zz(o)
        except Unsupported:
            if op == 'eq': return False
            if op == 'ne': return True
            return NotImplemented
        a = self.e
        return SBool({'lt': lambda: a < b, 'le': lambda: a <= b, 'gt': lambda: a > b, 'ge': lambda: a >= b,
                      'eq': lambda: a == b, 'ne': lambda: a != b}[op]())
    return f


class SNum(object):
    """Symbolic number (Int: mathematical integer; Real: exact real)"""
    def __init__(self, e): self.e = e

    @property
    def is_int(self): return self.e.sort() == z3.IntSort()

    __lt__, __le__, __gt__, __ge__, __eq__, __ne__ = map(_cmp, ('lt', 'le', 'gt', 'ge', 'eq', 'ne'))

    def __hash__(self):
        e = z3.simplify(self.e)
        if z3.is_int_value(e): return hash(e.as_long())
        raise Unsupported('hash of a symbolic number')

    def _bin(self, o, f):
        if isinstance(o, (SymSeq, )) or hasattr(o, '__vc_array__'): return NotImplemented
        try:
            return wrap(f(self.e, zz(o)))
        except Unsupported:
            return NotImplemented

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: b + a)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._bin(o, lambda a, b: b * a)
    def __neg__(self): return wrap(-self.e)
    def __pos__(self): return self
    def __abs__(self): return wrap(z3.If(self.e >= 0, self.e, -self.e))

    def __truediv__(self, o):
        try:
            b = zz(o)
        except Unsupported:
            return NotImplemented
        if SBool(b == 0): raise ZeroDivisionError
        r = lambda x: z3.ToReal(x) if x.sort() == z3.IntSort() else x
        return wrap(r(self.e) / r(b))

    def __rtruediv__(self, o): return SNum(zz(o)).__truediv__(self)

    def __floordiv__(self, o):
        b = zz(o)
        if not self.is_int or b.sort() != z3.IntSort(): raise Unsupported('floor division of reals')
        if SBool(b == 0): raise ZeroDivisionError
        if SBool(b < 0): raise Unsupported('floor division by a negative number')
        return wrap(self.e / b)

    def __rfloordiv__(self, o): return SNum(zz(o)).__floordiv__(self)

    def __mod__(self, o):
        b = zz(o)
        if not self.is_int or b.sort() != z3.IntSort(): raise Unsupported('modulo of reals')
        if SBool(b == 0): raise ZeroDivisionError
        if SBool(b < 0): raise Unsupported('modulo by a negative number')
        return wrap(self.e % b)

    def __rmod__(self, o): return SNum(zz(o)).__mod__(self)

    def __divmod__(self, o): return (self // o, self % o)

    def __rdivmod__(self, o): return SNum(zz(o)).__divmod__(self)

    def __pow__(self, k):
        if k == 2: return self * self
        if k == 1: return self
        raise Unsupported('power %r' % (k, ))

    def __bool__(self): return eng().branch(self.e != 0)

    def __index__(self):
        e = z3.simplify(self.e)
        if z3.is_int_value(e): return e.as_long()
        raise Unsupported('symbolic number where CPython needs a concrete one')

    __int__ = __index__

    def __float__(self): raise Unsupported('float of a symbolic number')

    def __repr__(self): return 'S<%s>' % z3.simplify(self.e)
    __str__ = __repr__

    def __format__(self, spec): return repr(self)


def Int(name, lo=None):
    v = SNum(z3.Int(eng().fresh_name(name)))
    if lo is not None: eng().assume(v.e >= lo)
    return v


def Real(name):
    return SNum(z3.Real(eng().fresh_name(name)))


def Bool(name):
    return SBool(z3.Bool(eng().fresh_name(name)))


def inner_symbols(expr, uid):
    """Symbols of expr made inside the probed iteration of the loop uid"""
    mark = re.compile(r'^.*!\d+p%d$' % uid)
    out, todo, seen = [], [expr], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            if mark.match(x.decl().name()): out.append(x)
        todo.extend(x.children() if not z3.is_quantifier(x) else [x.body()])
    return out


class Gen(list):
    """Substitution of an iteration's index and state by those of another iteration; things introduced inside the
    iteration (witnesses of positions, ..) become new ones"""
    def __init__(self, pairs, uid):
        list.__init__(self, pairs)
        self.uid, self.memo = uid, []

    def sub(self, expr):
        for a, _ in self:
            if z3.eq(a, expr): break
        r = z3.substitute(expr, *self)
        if self.memo: r = z3.substitute(r, *self.memo)
        todo = {}
        for x in inner_symbols(r, self.uid):
            if x.num_args(): raise Unsupported('function introduced inside a loop (%s)' % x.decl().name())
            todo[x.get_id()] = x
        for x in todo.values():
            if eng().merge is not None: raise Unsupported('witness under a quantifier')
            self.memo.append((x, z3.Const(eng().fresh_name('w_' + x.decl().name().split('!')[0]), x.sort())))
        return z3.substitute(r, *self.memo) if todo else r


def sub(expr, pairs):
    return pairs.sub(expr) if isinstance(pairs, Gen) else z3.substitute(expr, *pairs)


def subst(v, pairs):
    """Substitute z3 constants inside a value"""
    if v is None or isinstance(v, (bool, int, float, str, fractions.Fraction, type)): return v
    if isinstance(v, SNum): return wrap(sub(v.e, pairs))
    if isinstance(v, SBool): return SBool(sub(v.e, pairs))
    if hasattr(v, '__vc_subst__'): return v.__vc_subst__(pairs)
    if isinstance(v, tuple): return tuple(subst(x, pairs) for x in v)
    if isinstance(v, list): return VList([subst(x, pairs) for x in v])
    if callable(v): return v
    raise Unsupported('cannot generalise a %s over a loop index' % type(v).__name__)


class Idx(tuple):
    """Index into a grid-structured sequence"""


class SymSeq(object):
    """Sequence of symbolic length; its index space is a product of ranges (mostly one)"""
    def __init__(self, n, get, kind='list', dims=None, getnd=None):
        self.kind = kind
        self.dims = tuple(dims) if dims is not None else (n, )
        if getnd is None:
            assert len(self.dims) == 1
            getnd = lambda idx: get(idx[0])
        self.getnd = getnd
        if get is None:
            nd = self.dims
            def get(k):
                assert len(nd) == 2
                return getnd((k // nd[1], k % nd[1]))
        self.get = get
        self.n = n
        self.by = None            # the loop it was made by

    def __vc_subst__(self, pairs):
        g = self.getnd
        return type(self)._make(subst(self.n, pairs), tuple(subst(d, pairs) for d in self.dims),
                                lambda idx: subst(g(idx), pairs), self.kind)

    @staticmethod
    def _make(n, dims, getnd, kind):
        if len(dims) == 1: return SymSeq(n, lambda k: getnd((k, )), kind)
        return SymSeq(n, None, kind, dims, getnd)

    def like(self, getnd, kind=None):
        return SymSeq._make(self.n, self.dims, getnd, kind or self.kind)

    def __len__(self):
        if isinstance(self.n, int): return self.n
        raise Unsupported('len of a symbolic sequence inside CPython')

    def __iter__(self):
        if isinstance(self.n, int): return iter([self.get(k) for k in range(self.n)])
        raise Unsupported('iteration over a symbolic sequence inside CPython')

    def __bool__(self):
        return bool(self.n > 0) if not isinstance(self.n, int) else self.n > 0

    def _norm(self, k):
        if isinstance(k, int) and k < 0:
            k = self.n + k
        if not (k >= 0 and k < self.n): raise IndexError('sequence index out of range')
        return k

    def bounds(self, s):
        if s.step not in (None, 1): raise Unsupported('slice step')
        n = self.n
        clip = lambda v: vmax(0, vmin(v if not _neg(v) else n + v, n))
        lo = 0 if s.start is None else clip(s.start)
        hi = n if s.stop is None else clip(s.stop)
        return lo, vmax(lo, hi)

    def __getitem__(self, k):
        if isinstance(k, slice):
            if k.step == -1 and k.start is None and k.stop is None:
                n, g = self.n, self.get
                return SymSeq(n, lambda j: g(n - 1 - j), self.kind)
            lo, hi = self.bounds(k)
            g = self.get
            return SymSeq(hi - lo, lambda j: g(lo + j), self.kind)
        if isinstance(k, (int, SNum)): return self.get(self._norm(k))
        if isinstance(k, SymSeq):                     # fancy indexing
            return k.like(lambda idx: self.get(self._norm(k.getnd(idx))), 'array')
        raise Unsupported('index %r' % type(k))

    def __add__(self, o):
        if self.kind == 'array': return elementwise(self, o, lambda a, b: a + b)
        return concat(self, o)

    def __radd__(self, o):
        if self.kind == 'array': return elementwise(self, o, lambda a, b: b + a)
        return concat(o, self)

    def __mul__(self, o):
        if self.kind == 'array': return elementwise(self, o, lambda a, b: a * b)
        if isinstance(o, (int, SNum)):
            n, g, d = self.n, self.get, self.dims
            if isinstance(n, int) and n == 1: return SymSeq(vmax(0, o), lambda k: g(0), self.kind)
            return SymSeq._make(n * o, (o, n), lambda idx: g(idx[1]), self.kind)
        return NotImplemented
    __rmul__ = __mul__

    def __sub__(self, o): return elementwise(self, o, lambda a, b: a - b)
    def __rsub__(self, o): return elementwise(self, o, lambda a, b: b - a)
    def __truediv__(self, o): return elementwise(self, o, lambda a, b: a / b)
    def __neg__(self): return elementwise(self, 0, lambda a, b: -a)

    def __eq__(self, o):
        o = seq(o)
        if o is None: return False
        return bool(seq_equal(self, o))
    __hash__ = None

    def __contains__(self, x):
        k = z3.Int(eng().fresh_name('mem'))
        rng = z3.And(k >= 0, k < zz(self.n))
        e = eng().merged(lambda: vc_eq(self.get(SNum(k)), x), rng, SBool(z3.BoolVal(True)))
        return bool(SBool(z3.Exists([k], z3.And(rng, as_bool(e)))))

    # arrays
    @property
    def shape(self): return (self.n, )

    @property
    def size(self): return self.n

    def tolist(self): return self.like(self.getnd, 'list')

    def flatten(self): return self

    def copy(self): return self

    def __repr__(self): return '<seq n=%s>' % (self.n, )


def _neg(v):
    return isinstance(v, int) and v < 0


def vmin(a, b):
    if isinstance(a, int) and isinstance(b, int): return min(a, b)
    return wrap(z3.If(zz(a) <= zz(b), zz(a), zz(b)))


def vmax(a, b):
    if isinstance(a, int) and isinstance(b, int): return max(a, b)
    return wrap(z3.If(zz(a) >= zz(b), zz(a), zz(b)))


def vc_eq(a, b):
    """Equality as a term (no fork) where possible"""
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        if isinstance(a, VList) and a.sym is not None or isinstance(b, VList) and b.sym is not None:
            return seq_equal(seq(a), seq(b))
        if len(a) != len(b): return SBool(z3.BoolVal(False))
        return SBool(z3.And([as_bool(vc_eq(x, y)) for x, y in zip(a, b)] or [z3.BoolVal(True)]))
    if isinstance(a, SymSeq) or isinstance(b, SymSeq):
        a, b = seq(a), seq(b)
        if a is None or b is None: return SBool(z3.BoolVal(False))
        return seq_equal(a, b)
    r = (a == b)
    if r is NotImplemented: return SBool(z3.BoolVal(a is b))
    return r if isinstance(r, SBool) else SBool(z3.BoolVal(bool(r)))


def seq_equal(a, b):
    if isinstance(a.n, int) and not a.n or isinstance(b.n, int) and not b.n: return SBool(zz(a.n) == zz(b.n))
    k = z3.Int(eng().fresh_name('k'))
    rng = z3.And(0 <= k, k < zz(a.n))
    body = as_bool(eng().merged(lambda: vc_eq(a.get(SNum(k)), b.get(SNum(k))), z3.And(rng, zz(a.n) == zz(b.n)), SBool(z3.BoolVal(True))))
    return SBool(z3.And(zz(a.n) == zz(b.n), z3.ForAll([k], z3.Implies(rng, body))))


def seq(v):
    """Any sequence value -> SymSeq"""
    if isinstance(v, SymSeq): return v
    if isinstance(v, VList):
        v._read()
        return v.sym if v.sym is not None else const_seq(list.__iter__(v))
    if isinstance(v, (list, tuple)): return const_seq(list(v), 'tuple' if isinstance(v, tuple) else 'list')
    if hasattr(v, '__vc_seq__'): return v.__vc_seq__()
    return None


def const_seq(items, kind='list'):
    items = list(items)

    def get(k):
        if isinstance(k, SNum):
            for j in range(len(items) - 1):
                if k == j: return items[j]
            if not items: raise IndexError
            return items[-1]
        return items[k]
    return SymSeq(len(items), get, kind)


def concat(a, b):
    a, b = seq(a), seq(b)
    if a is None or b is None: return NotImplemented
    na, nb, ga, gb = a.n, b.n, a.get, b.get
    if isinstance(na, int) and na == 0: return b
    if isinstance(nb, int) and nb == 0: return a
    r = SymSeq(na + nb, lambda k: ga(k) if k < na else gb(k - na), a.kind)
    r.parts = (a, b)
    return r


def elementwise(a, b, op):
    sb = seq(b) if isinstance(b, (SymSeq, list, tuple)) or hasattr(b, '__vc_seq__') else None
    if sb is None: return a.like(lambda idx: op(a.getnd(idx), b), 'array')
    if not (a.n == sb.n): raise ValueError('shape mismatch')
    if len(a.dims) == len(sb.dims): return a.like(lambda idx: op(a.getnd(idx), sb.getnd(idx)), 'array')
    return SymSeq(a.n, lambda k: op(a.get(k), sb.get(k)), 'array')


class Poison(object):
    def __getattr__(self, a): raise Unsupported('C level access to a symbolic list')


class VList(list):
    """Python list that may have symbolic content.  `sym` is None while the content is concrete."""
    view = False         # subclasses that share storage
    lost = False

    def _keeps(self):
        if self.lost: raise Unsupported('change of an item of a symbolic list')

    def __init__(self, items=(), sym=None):
        if isinstance(items, SymSeq):
            if isinstance(items.n, int): items = [items.get(k) for k in range(items.n)]
            else: items, sym = (), items
        elif isinstance(items, VList) and items.sym is not None:
            items, sym = (), items.sym
        list.__init__(self, items)
        self.sym = sym
        self.ident = None
        if CURRENT:
            self.ident = next(eng().serial)
            eng().objects[self.ident] = self
        if sym is not None: list.append(self, Poison())

    def __vc_seq__(self): return seq(self)

    def _set(self, s):
        if isinstance(s, SymSeq):
            self.sym = s
            if not list.__len__(self): list.append(self, Poison())
        else:
            self.sym = None
            list.__init__(self, s)

    def __vc_subst__(self, pairs):
        new = subst(self.sym, pairs) if self.sym is not None else [subst(x, pairs) for x in list.__iter__(self)]
        own = {k: v for k, v in self.__dict__.items() if k not in ('sym', 'ident', 'lost')}
        if not own: return VList(new)
        r = type(self).__new__(type(self))
        VList.__init__(r, new)
        for k, v in own.items(): r.__dict__[k] = subst(v, pairs)
        return r

    def _outer(self):
        """Active loop frames that began after this list was made, innermost last"""
        return [f for f in eng().frames if self.ident is not None and self.ident < f.serial0]

    def _read(self, k=None):
        """The content is read in a loop that may change it"""
        if not CURRENT: return None
        for f in reversed(self._outer()):
            if k == -1 and f is self._outer()[-1]:
                if f.mode == 'probe':
                    if self.ident not in f.last:
                        v = self.sym[-1] if self.sym is not None else list.__getitem__(self, -1)
                        if not isinstance(v, (int, float, SNum)) or isinstance(v, bool):
                            f.reads.add(self.ident)
                            return None
                        f.last[self.ident] = placeholder('last', v), v
                    if self.ident not in f.appends: return f.last[self.ident][0]
            else: f.reads.add(self.ident)
        return None

    def append(self, x):
        self._keeps()
        fr = self._outer()
        if fr: fr[-1].record_append(self, [x])
        if self.sym is not None: self.sym = concat(self.sym, const_seq([x]))
        else: list.append(self, x)

    def extend(self, xs):
        self._keeps()
        xs = materialise(xs)
        fr = self._outer()
        if fr: fr[-1].record_append(self, xs)
        if self.sym is None and not isinstance(xs, SymSeq) and not (isinstance(xs, VList) and xs.sym is not None):
            list.extend(self, xs)
        else:
            self._set(concat(self._seq(), seq(xs)))

    def _seq(self): return self.sym if self.sym is not None else const_seq(list.__iter__(self))

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __add__(self, o):
        if isinstance(o, SymSeq) and o.kind == 'array': return NotImplemented
        if self.sym is None and isinstance(o, list) and not (isinstance(o, VList) and o.sym is not None):
            return VList(list.__add__(self, o))
        r = concat(self, o)
        return VList(r) if isinstance(r, SymSeq) else NotImplemented

    def __radd__(self, o):
        if isinstance(o, list): return VList(list(o)) + self
        return NotImplemented

    def __mul__(self, k):
        if self.sym is None and isinstance(k, int): return VList(list.__mul__(self, k))
        if hasattr(k, '__vc_repeat__'): return k.__vc_repeat__(self)
        return VList(seq(self) * k)
    __rmul__ = __mul__

    def __getitem__(self, k):
        p = self._read(-1 if isinstance(k, int) and k == -1 else None)
        if p is not None: return p
        if self.sym is not None:
            r = self.sym[k]
            if isinstance(k, slice): return VList(r)
            if isinstance(r, VList) and not r.view: r.lost = True        # made anew by every access
            return r
        if isinstance(k, slice) and any(isinstance(q, SNum) for q in (k.start, k.stop)):
            return VList(seq(self)[k])
        if isinstance(k, SNum): return seq(self)[k]
        r = list.__getitem__(self, k)
        return VList(r) if isinstance(k, slice) else r

    def __setitem__(self, k, v):
        self._keeps()
        if self.view: return self.__vc_store__(k, v)
        fr = self._outer()
        if fr: fr[-1].record_store(self, (k, ), v)
        if self.sym is None and not isinstance(k, SNum):
            return list.__setitem__(self, k, v)
        self._set(stored(self._seq(), k, v))

    def __len__(self):
        self._read()
        if self.sym is not None: return len(self.sym)
        return list.__len__(self)

    def __iter__(self):
        self._read()
        if self.sym is not None: return iter(self.sym)
        return list.__iter__(self)

    def __bool__(self):
        self._read()
        if self.sym is not None: return bool(self.sym)
        return list.__len__(self) > 0

    def __contains__(self, x):
        self._read()
        if self.sym is not None: return x in self.sym
        return any(bool(vc_eq(x, y)) for y in list.__iter__(self))

    def __eq__(self, o):
        if not isinstance(o, list): return False
        return bool(vc_eq(self, o))

    def __ne__(self, o): return not self == o
    __hash__ = None

    def index(self, x):
        if self.sym is not None:
            from .runtime import v_dropwhile, v_enumerate
            for k, y in [next(v_dropwhile(lambda iy: iy[1] != x, v_enumerate(self.sym)), (None, None))]:
                if k is None: raise ValueError
                return k
        for k, y in enumerate(list.__iter__(self)):
            if vc_eq(x, y): return k
        raise ValueError

    def pop(self, k=-1):
        self._keeps()
        if self._outer(): raise Unsupported('pop inside a symbolic loop')
        if self.sym is not None:
            if k == -1:
                x = self.sym[-1]
                self._set(self.sym[slice(None, -1)])
                return x
            raise Unsupported('pop')
        return list.pop(self, k)

    def insert(self, k, x):
        self._keeps()
        if self._outer() or self.sym is not None: raise Unsupported('insert')
        return list.insert(self, k, x)

    def sort(self, **kw): raise Unsupported('sort') if self.sym is not None else list.sort(self, **kw)

    def copy(self): return self[:]

    def __repr__(self): return repr(self.sym) if self.sym is not None else list.__repr__(self)


def stored(s, k, v):
    k = s._norm(k)
    g = s.get
    return SymSeq(s.n, lambda j: v if j == k else g(j), s.kind)


def materialise(xs):
    if isinstance(xs, VList) and xs.sym is not None:
        xs._read()
        return xs.sym               # as it is now
    if isinstance(xs, (SymSeq, list, tuple)): return xs
    if hasattr(xs, '__vc_seq__'): return xs.__vc_seq__()
    if isinstance(xs, (dict, set, frozenset)): return list(xs)
    return list(xs)


class SArr2(object):
    """Two dimensional object array of symbolic shape"""
    __vc_array__ = True

    def __init__(self, nr, nc, get):
        self.nr, self.nc, self.g = nr, nc, get
        self.ident = next(eng().serial) if CURRENT else None
        if CURRENT: eng().objects[self.ident] = self

    @property
    def shape(self): return (self.nr, self.nc)

    def _outer(self):
        return [f for f in eng().frames if self.ident is not None and self.ident < f.serial0]

    def _norm(self, i, n):
        if isinstance(i, int) and i < 0: i = n + i
        if not (i >= 0 and i < n): raise IndexError
        return i

    def __getitem__(self, k):
        if not isinstance(k, tuple): k = (k, slice(None))
        i, j = k
        if not isinstance(i, slice) and not isinstance(j, slice):
            return self.g(self._norm(i, self.nr), self._norm(j, self.nc))
        g = self.g
        rows = SymSeq(self.nr, lambda q: q)
        cols = SymSeq(self.nc, lambda q: q)
        if isinstance(i, slice) and isinstance(j, slice):
            (r0, r1), (c0, c1) = rows.bounds(i), cols.bounds(j)
            return SArr2(r1 - r0, c1 - c0, lambda a, b: g(r0 + a, c0 + b))
        if isinstance(i, slice):
            (r0, r1), j = rows.bounds(i), self._norm(j, self.nc)
            return SymSeq(r1 - r0, lambda a: g(r0 + a, j), 'array')
        (c0, c1), i = cols.bounds(j), self._norm(i, self.nr)
        return SymSeq(c1 - c0, lambda b: g(i, c0 + b), 'array')

    def __setitem__(self, k, v):
        i, j = k
        i, j = self._norm(i, self.nr), self._norm(j, self.nc)
        fr = self._outer()
        if fr: fr[-1].record_store(self, (i, j), v)
        g = self.g
        self.g = lambda a, b: v if (a == i and b == j) else g(a, b)

    def __vc_seq__(self):
        return SymSeq(self.nr, lambda i: self[i, :], 'array')

    @property
    def T(self):
        g = self.g                  # a snapshot, not a view
        return Fixed(self.nc, self.nr, lambda a, b: g(b, a))

    def flatten(self):
        g = self.g
        return SymSeq(self.nr * self.nc, None, 'array', (self.nr, self.nc), lambda idx: g(*idx))

    def __vc_subst__(self, pairs):
        g = self.g
        return SArr2(subst(self.nr, pairs), subst(self.nc, pairs), lambda a, b: subst(g(a, b), pairs))


class Fixed(SArr2):
    def __setitem__(self, k, v): raise Unsupported('store through a view')


# ---------------------------------------------------------------- loop rule
class Frame(object):
    """One symbolic loop being executed in mode probe / iter"""
    def __init__(self, mode, idx, key, serial0):
        self.mode, self.idx, self.key, self.serial0 = mode, idx, key, serial0
        self.uid = eng().uids.setdefault(key, len(eng().uids))
        self.appends, self.stores, self.inherited = {}, {}, []
        self.reads, self.last, self.init = set(), {}, {}
        self.attrs = []
        self.pc0 = len(eng().pc)
        self.pre = {}

    def record_append(self, lst, items):
        self.appends.setdefault(lst.ident, []).append(items)
        for f in eng().frames:
            if f is not self and lst.ident < f.serial0: f.appends.setdefault(lst.ident, []).append(NESTED)

    def record_store(self, obj, where, v):
        self.stores.setdefault(obj.ident, []).append((where, v))
        for f in eng().frames:
            if f is not self and obj.ident < f.serial0: f.stores.setdefault(obj.ident, []).append((NESTED, None))


NESTED = object()


class Loop(object):
    """`for` over any iterable; concrete ones are unrolled, symbolic ones follow the loop rule"""
    def __init__(self, iterable, site, names):
        self.site, self.names = site, names
        it = loop_iterable(iterable)
        self.sym = isinstance(it, SymSeq)
        self.it = it
        self.mode = None
        self.snapshot = {}
        self.entry = {}
        self.lasts, self.candidates, self.tails = {}, {}, {}

    def __iter__(self):
        e = eng() if CURRENT else None
        if not self.sym:
            n0 = len(e.frames) if e else 0
            for x in self.it:
                if e and len(e.frames) != n0: raise Unsupported('generator that loops over a symbolic sequence')
                yield x
            return
        it = self.it
        key = (e.prefix(), self.site)
        self.key = key
        if SBool(zz(it.n) <= 0):
            self.mode = 'empty'
            for h in e.exit_hooks: h(self)
            return
        k = e.choose(3)
        self.mode = ('probe', 'iter', 'exit')[k]
        info = e.knowledge.setdefault(key, [])
        if self.mode == 'exit':
            self.idx = None
            self._apply_objects(None)
            e.exits.append((self.key, len(e.frames)))
            for h in e.exit_hooks: h(self)
            return
        idx = tuple(z3.Int(e.fresh_name('i')) for _ in it.dims)
        for i, d in zip(idx, it.dims): e.assume(z3.And(i >= 0, i < zz(d)))
        self.idx = idx
        frame = Frame(self.mode, idx, key, next(e.serial))
        self.frame = frame
        frame.n, frame.it, frame.exits0 = it.n, it, len(e.exits)
        if self.mode == 'iter': self._apply_objects(idx)
        e.frames.append(frame)
        frame.pc0 = len(e.pc)
        elem = frame.elem = it.getnd(tuple(SNum(i) for i in idx))
        yield elem
        # the iteration ended normally (or by continue)
        if self.mode == 'probe':
            for f in e.frames[e.frames.index(frame) + 1:]:
                raise Unsupported('loop frames out of order')
            guard = z3.And(e.pc[frame.pc0:] + [z3.BoolVal(True)])
            deltas = {n: (frame.pre[n], self.snapshot.get(n)) for n in frame.pre}
            info.append(dict(uid=frame.uid, idx=idx, guard=guard, deltas=deltas, pre=dict(frame.pre), appends=frame.appends, stores=frame.stores,
                             reads=frame.reads, last=frame.last, init=frame.init, attrs=frame.attrs))
        else:
            self._check_step()
            for h in e.hooks: h(self, frame)
        e.loop_stack_snapshot = [(f.key[1], f.idx, f.mode) for f in e.frames]
        e.probing = any(f.mode == 'probe' for f in e.frames)
        e.frames.remove(frame)
        raise PathEnd()

    # values of local names ------------------------------------------------
    def enter(self, name, value):
        """Start of the body: placeholder (probe) or value given by the invariant (iter)"""
        if not self.sym or self.mode not in ('probe', 'iter'): return value
        if self.mode == 'probe':
            p = placeholder(name, value)
            self.frame.pre[name] = p
            self.frame.init[name] = value
            return p
        v = self._value(name, value, SNum(self.idx[0]) if len(self.idx) == 1 else None, inside=True)
        self.entry[name] = (value, v)
        return v

    def post(self, env):
        self.snapshot = {n: env.get(n) for n in self.names}

    def out(self, name, value):
        if not self.sym or self.mode != 'exit': return value
        return self._value(name, value, self.it.n)

    def after(self):
        """After the loop statement: in iter / probe mode only reached when the body left by break"""
        if self.sym and self.mode in ('probe', 'iter'):
            e = eng()
            if self.mode == 'probe': raise PathEnd()
            if self.frame in e.frames: e.frames.remove(self.frame)

    def _value(self, name, value, k, inside=False, quiet=False):
        """Value of a local after k iterations, from what probe saw"""
        e = eng()
        if quiet and k is None: return value if all(same(*i['deltas'][name]) for i in e.knowledge[self.key] if name in i['deltas']) else None
        infos = e.knowledge[self.key]
        seen = [i for i in infos if name in i['deltas']]
        if all(same(*i['deltas'][name]) for i in seen): return value
        if hasattr(value, '__vc_fold__') and len(self.it.dims) == 1:
            r = value.__vc_fold__(self, name, seen, k)
            if r is not None: return r
        if isinstance(value, (int, float, SNum)) and not isinstance(value, bool) and len(self.it.dims) == 1:
            terms, ok = [], True
            pres = [zz(p) for i in infos for p, _ in i['deltas'].values() if isinstance(p, SNum)]
            for i in seen:
                p, v = i['deltas'][name]
                try:
                    d = z3.simplify(zz(v) - zz(p))
                except Unsupported:
                    return self._havoc(name, value)
                if mentions_any([d] + ([i['guard']] if len(seen) > 1 else []), pres) or inner_symbols(d, i['uid']) \
                        or len(seen) > 1 and inner_symbols(i['guard'], i['uid']):
                    return self._havoc(name, value)
                terms.append((i['idx'][0], i['guard'], d))
            if len(terms) == 1 and not mentions(terms[0][2], [terms[0][0]]):
                return wrap(zz(value) + zz(k) * terms[0][2])

            def d(q):
                r = None
                for i0, g, t in reversed(terms):
                    t_ = z3.substitute(t, (i0, q))
                    r = t_ if r is None else z3.If(z3.substitute(g, (i0, q)), t_, r)
                return r
            S = e.psums.get((self.key, name))
            if S is None: S = e.psums[(self.key, name)] = prefix_sum(d)
            return wrap(zz(value) + S(zz(k)))
        return self._havoc(name, value)

    def _havoc(self, name, value):
        if isinstance(value, (bool, SBool)): return Bool('havoc_' + name)
        if isinstance(value, int) or isinstance(value, SNum) and value.is_int: return Int('havoc_' + name)
        if isinstance(value, (float, SNum)): return Real('havoc_' + name)
        return Havocked(name)

    def _check_step(self):
        """Inductive step: the value after the body is the one the invariant gives at idx + 1"""
        e = eng()
        for n, (v0, v) in self.entry.items():
            v1 = self.snapshot.get(n)
            if same(v, v1) or isinstance(v, Havocked): continue
            if isinstance(v, SNum) and str(v.e).startswith('havoc_'): continue
            if isinstance(v, (SNum, int, float)) and not isinstance(v, bool):
                nxt = self._value(n, v0, SNum(self.idx[0] + 1))
                e.prove(zz(v1) == zz(nxt), 'loop invariant preserved (%s)' % n)
            elif hasattr(v0, '__vc_fold__'):
                nxt = self._value(n, v0, SNum(self.idx[0] + 1))
                e.prove(vc_eq(v1, nxt), 'loop invariant preserved (%s)' % n)

        witnesses = any(inner_symbols(i['guard'], i['uid']) for i in e.knowledge[self.key])
        for ident, pieces in self.frame.appends.items():
            if witnesses: break           # found again in every iteration: nothing to compare
            want = self.candidates.get(ident)
            if want is None or any(p is NESTED or not isinstance(p, (list, tuple)) or getattr(p, 'sym', None) is not None for p in pieces): continue
            got = [x for p in pieces for x in list.__iter__(VList(p))]
            if any(x is None for x in got) or not all(isinstance(x, (int, float, SNum)) and not isinstance(x, bool) for x in got): continue
            s = want((SNum(self.idx[0]), ) if len(self.idx) == 1 else tuple(SNum(i) for i in self.idx))
            e.prove(zz(s.n) == len(got), 'loop invariant preserved (items appended)')
            if isinstance(s.n, int) and s.n == len(got):
                for k, x in enumerate(got): e.prove(zz(x) == zz(s.get(k)), 'loop invariant preserved (item appended)')

    # containers mutated by the body ---------------------------------------
    def _apply_objects(self, idx):
        e = eng()
        infos = e.knowledge[self.key]
        if not infos: return
        for i in infos:
            for k, name in i['attrs']:
                if k not in e.tracked: continue            # made in the loop
                e.tracked[k].__vc_forget__(name)
                if idx is None:
                    for f in e.frames: f.attrs.append((k, name))
        ids = sorted(set(k for i in infos for k in list(i['appends']) + list(i['stores'])))
        for ident in ids:
            obj = e.objects[ident]
            apps = [i['appends'].get(ident, []) for i in infos]
            sts = [i['stores'].get(ident, []) for i in infos]
            if any(apps) and any(sts): raise Unsupported('list both appended to and stored into')
            if any(apps):
                if any(NESTED in a for a in apps): raise Unsupported('nested loops append to one list')
                if any(ident in i['reads'] for i in infos): raise Unsupported('list read while it is extended')
                self._apply_append(obj, [(i, pieces_of(a)) for i, a in zip(infos, apps)], idx)
                if idx is None:
                    # the loop is part of the body of an enclosing one: that iteration extends the list by all these items
                    fr = [f for f in e.frames if ident < f.serial0]
                    if fr:
                        fr[-1].record_append(obj, self.tails[ident])
                        fr[-1].inherited.append(ident)
            else:
                if idx is None:
                    for f in e.frames:
                        if ident < f.serial0: f.stores.setdefault(ident, []).append((NESTED, None))
                if any(s[0] is NESTED for st in sts for s in st):
                    # no invariant for what inner loops leave in it: unknown here and after the loop
                    if not isinstance(obj, VList): raise Unsupported('nested store')
                    obj._set(opaque_after_store(obj._seq()))
                    continue
                if any(len(s) > 1 for s in sts): raise Unsupported('multiple stores in a loop')
                self._apply_store(obj, [(i, s[0] if s else None) for i, s in zip(infos, sts)], idx)

    def _pick(self, cases, k):
        """Value for iteration k: the case whose guard holds there"""
        e = eng()
        gens = [Gen(list(zip(info['idx'], [zz(q) for q in k])) + self._state_at(info, k), info['uid']) for info, _ in cases]
        if not any(inner_symbols(info['guard'], info['uid']) for info, _ in cases):
            for n, ((info, v), g) in enumerate(zip(cases, gens)):
                if n == len(cases) - 1 or SBool(g.sub(info['guard'])): return subst(v, g)
        n = e.choose(len(cases)) if len(cases) > 1 else 0
        (info, v), g = cases[n], gens[n]
        e.assume(g.sub(info['guard']))
        if len(cases) > 1 and e._check() == z3.unsat: raise Infeasible()
        return subst(v, g)

    def _state_at(self, info, k):
        """Placeholders of the loop variables -> their values at iteration k (by the invariant)"""
        pairs = []
        for name, p in info['pre'].items():
            if not isinstance(p, (SNum, SBool)): continue
            v = self._value(name, info['init'][name], k[0] if len(k) == 1 else None, quiet=True)
            # a variable without an invariant: a fresh constant would be the same for all k
            if v is None or isinstance(v, Havocked) or isinstance(v, (SNum, SBool)) and str(v.e).startswith('havoc_'):
                v = OPAQUE(p, k)
            pairs.append((p.e, v.e if isinstance(v, SBool) else zz(v)))
        for ident, (p, v) in info['last'].items():
            f = self.lasts.get(ident) if len(k) == 1 else None
            pairs.append((p.e, zz(f(zz(k[0]))) if f else OPAQUE(p, k).e))
        return pairs

    def _apply_append(self, lst, cases, idx):
        e = eng()
        base = lst._seq()
        # items that add to the last one: offsets.append(offsets[-1] + d)
        if any(lst.ident in i['last'] for i, _ in cases):
            if len(cases) != 1 or len(self.it.dims) != 1 or seq(cases[0][1]).n != 1: raise Unsupported('recurrence of an appended list')
            info, items = cases[0]
            p, v0 = info['last'][lst.ident]
            d = z3.simplify(zz(seq(items).get(0)) - p.e)
            ph = [q.e for q in info['pre'].values() if isinstance(q, (SNum, SBool))] + [q.e for q, _ in info['last'].values()]
            if mentions_any([d], ph) or inner_symbols(d, info['uid']): raise Unsupported('recurrence of an appended list')
            i0 = info['idx'][0]
            key = (self.key, 'last', lst.ident)
            S = e.psums.get(key)
            if S is None: S = e.psums[key] = prefix_sum(lambda q: z3.substitute(d, (i0, q)))
            self.lasts[lst.ident] = lambda k: wrap(zz(v0) + S(k))
        elif any(i['last'] for i, _ in cases):
            for i, _ in cases:
                for ident in i['last']:
                    if not any(ident in j['appends'] for j in e.knowledge[self.key]): self.lasts[ident] = lambda k, v=i['last'][ident][1]: v
        sizes = [seq(x).n for _, x in cases]
        self.candidates[lst.ident] = lambda k: self._pick([(i, seq(x)) for i, x in cases], k)
        if all(isinstance(s, int) and s == 1 for s in sizes):
            cases1 = [(i, seq(x).get(0)) for i, x in cases]
            if len(self.it.dims) == 1:
                n = self.it.n if idx is None else SNum(idx[0])
                tail = SymSeq(n, lambda k: self._pick(cases1, (k, )))
            else:
                if idx is not None:            # not read inside the body in grid loops
                    lst._set(opaque_after_store(base))
                    return
                tail = SymSeq._make(self.it.n, self.it.dims, lambda k: self._pick(cases1, k), 'list')
            self.tails[lst.ident] = tail
            tail.by = self.key
            lst._set(concat(base, tail))
            return
        if len(self.it.dims) != 1: raise Unsupported('extend in a grid loop')

        # extend by pieces: flat sequence with prefix-sum offsets
        def size(k):
            rng = z3.And(zz(k) >= 0, zz(k) < zz(self.it.n))
            return e.merged(lambda: self._pick([(i, seq(x).n) for i, x in cases], (k, )), rng, default=0)
        n = self.it.n if idx is None else SNum(idx[0])
        key = (self.key, 'ext', lst.ident)
        try:
            flat = flat_map(n, size, lambda k: self._pick([(i, seq(x)) for i, x in cases], (k, )), self.it.n, key)
        except Unsupported as err:
            # what an iteration appends has no closed form: some number of unknown items
            flat = opaque_after_store(SymSeq(Int('m', 0), None), str(err))
        self.tails[lst.ident] = flat
        flat.by = self.key
        lst._set(concat(base, flat))

    def _own_places(self, cases, idx):
        """The place iteration idx writes to, if no two iterations write to the same one (so it has its first value before)"""
        if len(idx) != 1 or len(cases) != 1 or cases[0][1] is None or len(cases[0][1][0]) != 1: return None
        info, ((w, ), _) = cases[0]
        w, i0 = zz(w), info['idx'][0]
        ph = [q.e for q in info['pre'].values() if isinstance(q, (SNum, SBool))] + [q.e for q, _ in info['last'].values()]
        if mentions_any([w], ph) or inner_symbols(w, info['uid']): return None
        e = eng()
        q = z3.Int(e.fresh_name('q'))
        n = zz(self.it.n)
        a, b = z3.substitute(w, (i0, idx[0])), z3.substitute(w, (i0, q))
        if e._check(q >= 0, q < n, q != idx[0], a == b) != z3.unsat: return None
        return z3.simplify(a)

    def _apply_store(self, obj, cases, idx):
        if idx is not None:
            # body sees a partially filled container: only sound to read if it does not depend on it
            own_at = self._own_places(cases, idx)

            def own(*k):
                if len(k) == len(idx) and all(z3.eq(z3.simplify(zz(q)), i) for q, i in zip(k, idx)): return True
                if own_at is not None and len(k) == 1 and z3.eq(z3.simplify(zz(k[0])), own_at): return True
                raise Unsupported('container read while it is being filled')
            if isinstance(obj, VList):
                s, g = obj._seq(), obj._seq().get
                obj._set(SymSeq(s.n, lambda k: g(k) if own(k) else None, s.kind))
            elif isinstance(obj, SArr2):
                g = obj.g
                obj.g = lambda a, b: g(a, b) if own(a, b) else None
            return
        it = self.it
        cases = [(i, s) for i, s in cases]
        always = all(s is not None for _, s in cases)
        if not always: raise Unsupported('conditional store in a loop')
        direct = all(len(s[0]) == len(i['idx']) and
                     all(z3.eq(z3.simplify(zz(w)), ii) for w, ii in zip(s[0], i['idx'])) for i, s in cases)
        vals = [(i, s[1]) for i, s in cases]
        if direct:
            if isinstance(obj, SArr2):
                g = obj.g
                def get(a, b):
                    if not (a < it.dims[0] and b < it.dims[1]): return g(a, b)
                    return self._pick(vals, (a, b))
                obj.g = get
                return
            s = obj._seq()
            g = s.get
            obj._set(SymSeq(s.n, lambda k: self._pick(vals, (k, )) if k < it.n else g(k), s.kind))
            return
        # general: a position holds the value of the last iteration that wrote it
        if len(it.dims) != 1 or len(cases) != 1: raise Unsupported('scattered store in a grid loop')
        info, (where, val) = cases[0]
        i0 = info['idx'][0]
        ph = [q.e for q in info['pre'].values() if isinstance(q, (SNum, SBool))] + [q.e for q, _ in info['last'].values()]
        for w in where:
            if isinstance(w, SNum) and (mentions_any([zz(w)], ph) or inner_symbols(zz(w), info['uid'])):
                raise Unsupported('place of a store depends on a loop variable')

        def last(ps):
            """The last iteration that wrote there (None: no iteration did)"""
            e = eng()
            hit = lambda q: z3.And([z3.substitute(zz(w), (i0, q)) == zz(p) for w, p in zip(where, ps)])
            w, q = z3.Int(e.fresh_name('w')), z3.Int(e.fresh_name('q'))
            if e.choose(2) == 0:
                e.assume(z3.And(0 <= w, w < zz(it.n), hit(w)))
                e.assume(z3.ForAll([q], z3.Implies(z3.And(q > w, q < zz(it.n)), z3.Not(hit(q)))))
                if e._check() == z3.unsat: raise Infeasible()
                return w
            e.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < zz(it.n)), z3.Not(hit(q)))))
            if e._check() == z3.unsat: raise Infeasible()

        if isinstance(obj, SArr2):
            g2 = obj.g

            def get2(a, b):
                w = last((a, b))
                return g2(a, b) if w is None else self._pick([(info, val)], (SNum(w), ))
            obj.g = get2
            return
        s = obj._seq()
        g = s.get

        def get(p):
            w = last((p, ))
            return g(p) if w is None else self._pick([(info, val)], (SNum(w), ))
        obj._set(SymSeq(s.n, get, s.kind))


def OPAQUE(p, k):
    """Value of a loop variable without an invariant at iteration k: some function of k"""
    ks = [zz(q) for q in k]
    f = z3.Function('havoc_' + str(p.e), *([z3.IntSort()] * len(ks) + [p.e.sort()]))
    return (SNum if isinstance(p, SNum) else SBool)(f(*ks))


def pieces_of(a):
    """What one iteration appends to a list"""
    if not a: return []
    r = seq(a[0])
    for x in a[1:]: r = concat(r, seq(x))
    return r


def opaque_after_store(s, why='container read while it is being filled'):
    def get(k):
        raise Unsupported(why)
    return SymSeq(s.n, get, s.kind)


class Havocked(object):
    """Value of a variable for which no invariant was found: any use is unsupported"""
    def __init__(self, name): self.__dict__['_name'] = name

    def __getattr__(self, a):
        raise Unsupported('no invariant for the variable %r of a loop' % self._name)

    def __bool__(self): raise Unsupported('no invariant for %r' % self._name)
    __iter__ = __len__ = __add__ = __radd__ = __mul__ = __rmul__ = __sub__ = __rsub__ = __getitem__ = __call__ = \
        lambda self, *a: self.__getattr__('use')


def prefix_sum(term):
    """S with S(0) = 0 and S(k+1) = S(k) + term(k): returned as a z3 function of k.
    The recursion is instantiated where S is used."""
    e = eng()
    S = z3.Function('S!' + e.fresh_name(''), z3.IntSort(), term(z3.IntVal(0)).sort())
    k = z3.Int(e.fresh_name('k'))
    e.axiom(S(0) == 0)
    pos = e.pos
    t = z3.simplify(term(k))
    if e.pos != pos: raise Unsupported('case distinction in the terms of a sum')
    if not mentions(t, [k]):
        lin = lambda q: z3.simplify(t * (z3.ToReal(q) if t.sort() == z3.RealSort() else q))
        lin.ordered, lin.seen, lin.order = None, {}, lambda a, b: None
        return lin
    # sums of the same terms are the same function
    q = z3.Const('summand index', z3.IntSort())
    canon = z3.simplify(z3.substitute(t, (k, q)))
    old = e.psums.get(('sum of', canon.get_id()))
    if old is not None: return old[1]
    seen = {}

    def at(q):
        q = z3.simplify(q)
        if q.get_id() not in seen:
            seen[q.get_id()] = q
            before = z3.simplify(q - 1)
            e.axiom(z3.Implies(q >= 0, S(z3.simplify(q + 1)) == S(q) + term(q)))
            e.axiom(z3.Implies(q >= 1, S(q) == S(before) + term(before)))
            if at.ordered is not None:
                for p in list(seen.values()): at.order(p, q)
        return S(q)
    e.psums['sum of', canon.get_id()] = canon, at
    at.ordered = None

    def order(p, q):
        n = at.ordered
        for a, b in ((p, q), (q, p), (z3.simplify(p + 1), q), (z3.simplify(q + 1), p)):
            e.axiom(z3.Implies(z3.And(0 <= a, a <= b, b <= n), S(a) <= S(b)))
    at.order, at.seen = order, seen
    e.sums[S.name()] = at
    return at


def flat_map(n, size, piece, ntot, tag):
    """Concatenation of piece(0), ..., piece(n-1)"""
    e = eng()
    size0 = size
    size = lambda k: e.merged(lambda: size0(k), z3.And(zz(k) >= 0, zz(k) < zz(n)), default=0)
    S = prefix_sum(lambda q: zz(size(SNum(q))))
    # Lemma (induction over the axioms of S): offsets of pieces with non-negative sizes are ordered
    k = z3.Int(e.fresh_name('k'))
    if e._check(z3.And(k >= 0, k < zz(n), zz(size(SNum(k))) < 0)) == z3.unsat:
        S.ordered = zz(n)
        S(zz(n))
        S(z3.IntVal(0))
        for a in list(S.seen.values()):
            for b in list(S.seen.values()): S.order(a, b)

    def get(p):
        w = z3.Int(e.fresh_name('w'))
        e.assume(z3.And(0 <= w, w < zz(n), S(w) <= zz(p), zz(p) < S(w + 1)))   # assumes non-negative sizes
        return piece(SNum(w)).get(wrap(zz(p) - S(w)))
    f = SymSeq(wrap(S(zz(n))), get)
    f.pieces = (n, size, piece, S)
    return f


def has_var(x):
    if z3.is_var(x): return True
    return any(has_var(c) for c in (x.children() if not z3.is_quantifier(x) else [x.body()]))


def names_with(start, exprs):
    todo, seen = list(exprs), set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name().startswith(start):
            return True
        todo.extend(x.children() if not z3.is_quantifier(x) else [x.body()])
    return False


def same(a, b):
    if a is b: return True
    if isinstance(a, SNum) and isinstance(b, SNum): return z3.eq(a.e, b.e)
    return False


def mentions(expr, consts):
    consts = [c for c in consts]
    todo, seen = [expr], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if any(x.eq(c) for c in consts): return True
        todo.extend(x.children() if not z3.is_quantifier(x) else [x.body()])
    return False


def mentions_any(exprs, consts):
    return any(mentions(x, consts) for x in exprs)


def placeholder(name, v):
    if isinstance(v, (bool, SBool)): return Bool('p_' + name)
    if isinstance(v, int) or isinstance(v, SNum) and v.is_int: return Int('p_' + name)
    if isinstance(v, (float, SNum)): return Real('p_' + name)
    return v


def once(s):
    """s is an iterator: what was taken of it is gone"""
    s.taken = [0, len(eng().frames) if CURRENT else 0]
    return s


def take_rest(it):
    k, depth = it.taken
    if CURRENT and len(eng().frames) != depth: raise Unsupported('iterator used in another loop than it was made')
    it.taken[0] = None
    if k is None: return []
    if k == 0: return SymSeq._make(it.n, it.dims, it.getnd, it.kind) if not hasattr(it, 'pieces') else plain(it)
    get = it.get
    return SymSeq(it.n - k, lambda j: get(j + k), it.kind)


def plain(it):
    import copy
    it = copy.copy(it)
    del it.taken
    return it


def loop_iterable(it):
    if hasattr(it, 'taken') and isinstance(it, SymSeq): it = take_rest(it)
    if isinstance(it, SymSeq):
        return [it.get(k) for k in range(it.n)] if isinstance(it.n, int) else it
    if isinstance(it, VList) and hasattr(it, 'taken'):
        k, depth = it.taken
        if CURRENT and len(eng().frames) != depth: raise Unsupported('iterator used in another loop than it was made')
        it.taken[0] = None
        if k is None: return []
        if it.sym is None: return VList(list.__iter__(it))
        get = it.sym.get
        return it.sym if not k else SymSeq(it.sym.n - k, lambda j: get(j + k))
    if isinstance(it, VList) and it.sym is not None: return it.sym
    if hasattr(it, '__vc_seq__') and not isinstance(it, list):
        s = it.__vc_seq__()
        return loop_iterable(s) if isinstance(s, SymSeq) else s
    return it


def comprehension(f, iterable, kind, site):
    """f(x) is [elt] or [] for one element"""
    it = loop_iterable(iterable)
    if not isinstance(it, SymSeq):
        out = VList()
        for x in it: out.extend(f(x))
        return out
    if hasattr(it, 'pieces'):           # a concatenation: piece by piece
        n, _, piece, _ = it.pieces
        it0, it = it, SymSeq(n, lambda k: k)
        one = f
        f = lambda k: comprehension(one, piece(k), kind, (site, 'piece'))
    loop = Loop(it, site, ())
    out = VList()
    probe = None
    for x in loop:
        r = f(x)
        if not isinstance(r, (list, tuple)): raise Unsupported('comprehension')
        out.extend(r)
    # only reached on exit / empty
    return out
