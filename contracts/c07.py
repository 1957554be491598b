"""C07: what a cached operator returns does not depend on the requests made before.

Cached operators (each memoizer is applied, as the module does it, to a function that stands for the operator it decorates)
    ensures  after any two requests, of this or of another operator decorated the same way, the answer to a third request is
             the operator of that request; an operator is determined by the keys of its spaces, the values of its data and,
             where there is no precondition that it is the mesh of a space, the mesh
space_key   ensures  equal only for spaces with the same element, mesh, coordinates and connectivity, numbering of dofs
value_key   ensures  equal only for equal values; by the type, by induction for containers and objects; never for expressions
array_key   ensures  equal only for arrays with the same entries and shape
"""
import ast
import os
import types
import warnings
import z3
from vc.contract import contract
from vc.engine import eng, Int, Bool, SymSeq, VList, zz, wrap, seq, SNum, SBool, Unsupported, as_bool, const_seq
from vc import linmodel as lm, runtime as R
from vc.models import AVal, fun, indexed, some, sort

AM = 'xii.assembler.'
CK = AM + 'cache_keys'
ASSUME = ['sha1 and tobytes are injective', 'mesh.hash tells apart coordinates and connectivity of a mesh', 'mesh.id is different for each mesh',
          'an operator is a function of element, mesh and dofs of its spaces and values of its data (C08-C12, C18)',
          'functions given as radius or shape are not changed in place']


class Key(AVal): sort = 'Key'


class Thing(AVal):
    """Data; its values are an element of sort Data"""
    sort = 'Data'
    __hash__ = object.__hash__


class Mesh(AVal):
    sort = 'MeshState'
    def id(self): return SNum(fun('mesh_id', 'MeshState', 'Int')(self.t))
    def hash(self): return SNum(fun('mesh_hash', 'MeshState', 'Int')(self.t))
    def geometry(self): return types.SimpleNamespace(dim=lambda: 2)
    def topology(self): return types.SimpleNamespace(dim=lambda: 2)


class Element(AVal):
    sort = 'Element'
    def family(self): raise Unsupported('family in a key')


class Space(AVal):
    """State of a function space: what an operator is a function of"""
    sort = 'Space'
    def ufl_element(self): return Element(fun('el', 'Space', 'Element')(self.t))
    def mesh(self): return Mesh(fun('mesh', 'Space', 'MeshState')(self.t))
    def dofmap(self): return types.SimpleNamespace(entity_closure_dofs=lambda mesh, d: Array(fun('dofs', 'Space', 'Array')(self.t)))
    def dim(self): return SNum(fun('dim', 'Space', 'Int')(self.t))


class Array(AVal):
    sort = 'Array'

    @property
    def shape(self): return Key(fun('shape', 'Array', 'Key')(self.t))
    def tobytes(self): return Key(fun('bytes', 'Array', 'Key')(self.t))
    def flatten(self): raise Unsupported('flatten')


def same_space(a, b):
    """Same element, mesh (and no change to it) and dofs"""
    A, B = Space.ufl_element(a).t, Space.ufl_element(b).t
    return z3.And(A == B, a.mesh().id().e == b.mesh().id().e, a.mesh().hash().e == b.mesh().hash().e,
                  fun('dofs', 'Space', 'Array')(a.t) == fun('dofs', 'Space', 'Array')(b.t))


def array_axiom(e):
    a, b = z3.Consts('arr_a arr_b', sort('Array'))
    sh, by = fun('shape', 'Array', 'Key'), fun('bytes', 'Array', 'Key')
    e.assume(z3.ForAll([a, b], z3.Implies(z3.And(sh(a) == sh(b), by(a) == by(b)), a == b)))
    x, y = z3.Consts('key_a key_b', sort('Key'))
    h = fun('sha1', 'Key', 'Key')
    e.assume(z3.ForAll([x, y], z3.Implies(h(x) == h(y), x == y)))


class Constant(object):
    def __init__(self, v): self.v = v
    def values(self): return self.v
    __hash__ = object.__hash__


class Function(object):
    def __init__(self, V, v): self.V, self.v = V, v
    def function_space(self): return self.V
    def vector(self): return types.SimpleNamespace(get_local=lambda: self.v)
    def __call__(self, x): return Vec(fun('eval', 'Space', 'Array', 'Key', 'Vec')(self.V.t, self.v.t, x.t))


class Vec(AVal):
    """Short array of numbers with flatten; iterates as its entries, which are a function of it"""
    sort = 'Vec'
    def flatten(self): return self
    def __getitem__(self, k): return self
    def __iter__(self): return iter([Key(fun('entry%d' % k, 'Vec', 'Key')(self.t)) for k in range(2)])


def np_stub():
    def array(x, dtype=None):
        if isinstance(x, Vec): return x
        raise Unsupported('numpy.array in a key')
    return R.stub('numpy', ascontiguousarray=lambda a: a, array=array, asarray=array, ndarray=Array, float64=float, int32=int, int64=int,
                  uint32=int, uint64=int)


class Expression(object): pass
class UserExpression(object): pass


class Cell(object):
    def __init__(self, mesh, k): self.mesh, self.k = mesh, k
    def midpoint(self): return types.SimpleNamespace(array=lambda: Mid(fun('midpoint', 'MeshState', 'Data', 'Key')(self.mesh.t, self.k.t)))


class Mid(Key):
    def __getitem__(self, k): return self


class Any(object):
    def __getattr__(self, a):
        if a.startswith('__'): raise AttributeError(a)
        return Any()
    def __call__(self, *a, **k): raise Unsupported('call')


def any_stub(name):
    m = R.stub(name)
    m.__getattr__ = lambda a: (_ for _ in ()).throw(AttributeError(a)) if a.startswith('__') else Any()
    return m


def decorator(mod, name):
    """What decorates name in the source of the module, evaluated in it"""
    path = os.path.join(R.REPO, *mod.split('.')) + '.py'
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        tree = ast.parse(open(path).read())
    defs = [n for n in tree.body if isinstance(n, ast.FunctionDef) and n.name == name]
    if len(defs) != 1: raise Unsupported('%s is not a function of %s' % (name, mod))
    out = [ast.unparse(d) for d in defs[0].decorator_list]
    # or name = memoizer(name) afterwards
    for s in tree.body:
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id == name:
            if isinstance(s.value, ast.Call) and len(s.value.args) == 1 and isinstance(s.value.args[0], ast.Name) and s.value.args[0].id == name:
                out.insert(0, ast.unparse(s.value.func))
            else: raise Unsupported('%s is assigned' % name)
    return out


def world():
    """space_key and value_key by their contracts"""
    def space_key(V):
        if not isinstance(V, Space): raise Unsupported('space_key of %s' % type(V).__name__)
        return spk(V)

    def value_key(x):
        if isinstance(x, Thing): return thk(x)
        if x is None or isinstance(x, str): return x
        raise Unsupported('value_key of %s' % type(x).__name__)
    w = lm.world(dolfin=dict(Constant=Constant, Function=Function, Cell=Cell, Expression=Expression, UserExpression=UserExpression, Point=Any()),
                 stubs={CK: R.stub(CK, space_key=space_key, value_key=value_key, array_key=ark),
                        'numpy': np_stub(), 'scipy.sparse': any_stub('scipy.sparse'), 'tqdm': any_stub('tqdm')})
    return w


class DataKey(AVal): sort = 'Data'
class ArrayKey(AVal): sort = 'Array'


# some injective function of what it is that has to be the same: as only equality of keys is observed it may be the identity
def thk(x): return DataKey(x.t)
def ark(x): return ArrayKey(x.t)
def spk(V): return ('space', V.ufl_element(), V.mesh().id(), V.mesh().hash(), ark(Array(fun('dofs', 'Space', 'Array')(V.t))))


ENUM = ('', '+', '-', 'avg', 'jump')


class Request(object):
    """Arguments of an operator: spaces, mesh and data, all arbitrary; `values` is what the operator is a function of"""
    def __init__(self, e, what, mesh):
        self.V, self.TV = Space('V'), Space('TV')
        self.meshobj = Mesh('mesh')
        if mesh == 'target': self.meshobj = self.TV.mesh()
        elif mesh == 'source': self.meshobj = self.V.mesh()
        self.data, self.values, self.tags = {}, [], []
        for k, kind in what.items():
            if kind == 'thing': v = Thing(k)
            elif kind == 'thing or None': v = Thing(k) if e.choose(2) else None
            elif kind == 'enum': v = ENUM[e.choose(len(ENUM))] if not isinstance(what.get('_enum'), tuple) else what['_enum'][e.choose(len(what['_enum']))]
            elif kind == 'hashed': v = Thing(k)
            elif kind == 'tangent':
                c = e.choose(3)
                v = Constant(Vec('tangent')) if c == 0 else Function(Space('Q'), Array('tangent')) if c == 1 else Vec('tangent')
            elif kind == 'numbers':
                v = tuple(Thing('x') for _ in range(2)) if e.choose(2) else Thing(k)
            else: continue
            self.data[k] = v
            self.values.append(v)

    def args(self, whole): return (self.V, self.TV, self.meshobj, self.data if whole else None)


class Answer(object):
    def __init__(self, op, V, TV, mesh, data): self.op, self.V, self.TV, self.mesh, self.data = op, V, TV, mesh, data


def value(req, k):
    """Value of data k as a list of terms and literals, what the operator sees"""
    v = req.data[k]
    if isinstance(v, Vec): return [k.t for k in v]
    if isinstance(v, AVal): return [v.t]
    if isinstance(v, tuple): return [len(v)] + [x.t for x in v]
    if isinstance(v, Constant): return [k.t for k in v.v]
    if isinstance(v, Function):
        # the operator takes the value in the midpoint of the cell
        return [k.t for k in v(Mid(fun('midpoint', 'MeshState', 'Data', 'Key')(req.V.mesh().t, req.data['cell'].t)))]
    return [v]


def agree(x, y):
    if len(x) != len(y): return z3.BoolVal(False)
    out = []
    for a, b in zip(x, y):
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
            if a.sort() != b.sort(): return z3.BoolVal(False)
            out.append(a == b)
        elif isinstance(a, z3.ExprRef) or isinstance(b, z3.ExprRef): return z3.BoolVal(False)
        else: out.append(z3.BoolVal(a == b and type(a) == type(b)))
    return z3.And(out + [z3.BoolVal(True)])


def cached(mod, name, what, mesh='target', whole=True, free_mesh=False, others=True):
    def fn(e):
        w = world()
        m = w.load(AM + mod)
        decs = decorator(AM + mod, name)
        if not decs: raise Unsupported('%s is not cached' % name)
        # coordinates and ids are functions of the state of a mesh that the hash tells apart
        def wrap_(op):
            calls = []
            def foo(V, TV, mesh, data):
                r = next((r for r in reqs if r.V is V and r.TV is TV and r.meshobj is mesh), None)
                if r is None: raise Unsupported('arguments changed on the way')
                if whole: e.prove(z3.BoolVal(data is r.data), 'requires of the operator: its own data')
                return Answer(op, V, TV, mesh, data)
            f = foo
            for d in reversed(decs): f = eval(compile(d, '<decorator>', 'eval'), m.__dict__)(f)
            return f
        ops = [wrap_('this'), wrap_('other')]
        reqs = []
        other = e.choose(2) if others else 0
        first = Request(e, what, mesh)
        last = Request(e, what, mesh)
        reqs += [first, last]
        i, h = fun('mesh_id', 'MeshState', 'Int'), fun('mesh_hash', 'MeshState', 'Int')
        p, q = [r.V.mesh().t for r in reqs]
        e.assume(z3.Implies(z3.And(i(p) == i(q), h(p) == h(q)), p == q))
        for k, (r, op) in enumerate(((first, ops[other]), (last, ops[0]))):
            got = op(*r.args(whole))
        for r in reqs:
            if (r.V is got.V): src = r
        e.prove(z3.BoolVal(got.op == 'this'), 'ensures operators do not share answers')
        if src is last: return
        conds = [same_space(src.V, last.V), same_space(src.TV, last.TV)]
        if free_mesh: conds.append(src.meshobj.id().e == last.meshobj.id().e)
        for k in last.data: conds.append(agree(value(src, k), value(last, k)))
        names = ['the first space', 'the second space'] + (['the mesh'] if free_mesh else []) + list(last.data)
        for c, n in zip(conds, names): e.prove(c, 'ensures an earlier answer is given only if %s is the same' % n)
        # its own answer is found again
    fn.__name__ = 'cached_%s' % name
    contract('C07', '%s:%s' % (AM + mod, name), assumes=ASSUME)(fn)


cached('trace_matrix', 'trace_mat', dict(restriction='enum', normal='thing or None', tag_data='thing or None'))
cached('average_matrix', 'avg_mat', dict(shape='thing or None'))
cached('flux_average_matrix', 'flux_avg_mat', dict(shape='thing or None'))
for _n in ('patch_avg_mat', 'patch_avg_mat_coloring', 'dirac_avg_mat'):
    cached('patch_average_matrix', _n, dict(vertex_f='thing or None', patch_f='thing or None', patch_coloring='thing or None'), others=False)   # they call each other, the same request is the same matrix
cached('mean_matrix', 'mean_mat', dict(weight='thing or None', measure='thing or None'))
cached('surface_mean_matrix', 'surface_mean_mat', {})
cached('restriction_matrix', 'restriction_mat', {})
cached('injection_matrix', 'injection_matrix', dict(not_nested_method='enum', _enum=('interpolate', 'project')))
cached('point_trace_matrix', 'point_trace_mat', dict(point='numbers', cell='thing or None'))
cached('gradient_point_trace_matrix', 'gradient_point_trace_mat', dict(point='numbers', cell='thing', tangent='tangent'))
cached('transpose_trace_matrix', 'transpose_trace_mat', {}, mesh='source', whole=False)


# ----------------------------------------------------------------- the keys
class Measure(object):
    def __init__(self):
        self.type, self.id = Key('integral_type'), Key('subdomain_id')
        self.domain, self.meta, self.sub = Key('domain'), Thing('metadata'), Thing('subdomains')
    def integral_type(self): return self.type
    def ufl_domain(self): return self.domain
    def subdomain_id(self): return self.id
    def metadata(self): return self.meta
    def subdomain_data(self): return self.sub
    def same(self, o): return z3.And(self.type.t == o.type.t, self.id.t == o.id.t, self.domain.t == o.domain.t, self.meta.t == o.meta.t, self.sub.t == o.sub.t)


class Expr(object): pass


class Terminal(Expr):
    ufl_operands = ()
    def __init__(self): self.t = Key('terminal').t
    def __eq__(self, o): return SBool(self.t == o.t) if isinstance(o, Terminal) else False
    __hash__ = None
    def same(self, o): return self.t == o.t


class Operator(Expr):
    def __init__(self): self.ufl_operands = (Thing('left'), Thing('right'))
    def same(self, o): return z3.And([x.t == y.t for x, y in zip(self.ufl_operands, o.ufl_operands)]) if type(self) is type(o) else z3.BoolVal(False)


class Other(Operator): pass


class KConstant(object):
    def __init__(self): self.ufl_shape, self.v = Key('ufl_shape'), Array('values')
    def values(self): return self.v
    def same(self, o): return z3.And(self.ufl_shape.t == o.ufl_shape.t, self.v.t == o.v.t)


class KFunction(object):
    def __init__(self): self.V, self.v = Space('V'), Array('coefficients')
    def function_space(self): return self.V
    def vector(self): return types.SimpleNamespace(get_local=lambda: self.v)
    def same(self, o): return z3.And(same_space(self.V, o.V), self.v.t == o.v.t)


class KExpression(object):
    """Evaluates to something that its user can change at any time"""
    def same(self, o): return z3.BoolVal(False)


class KUserExpression(KExpression): pass


class Point(object):
    def __init__(self): self.v = Array('point')
    def array(self): return self.v
    def same(self, o): return self.v.t == o.v.t


class Seq(tuple):
    """List or tuple of any length"""


class KMeshFunction(object):
    def __init__(self): self.m, self.d, self.v = Mesh('mesh'), Int('dim'), Array('marks')
    def mesh(self): return self.m
    def dim(self): return self.d
    def array(self): return self.v
    def same(self, o): return z3.And(self.m.id().e == o.m.id().e, self.d.e == o.d.e, self.v.t == o.v.t)


class Shape(object):
    """Some object: it is itself and the values of its attributes at the time"""
    def __init__(self): self.attributes = Key('attributes_then')


def kinds(e, k):
    """Arbitrary value of kind k with its `same`"""
    if k == 'none': return None, lambda a, b: z3.BoolVal(True)
    if k == 'number':
        from vc.engine import Real
        return Real('number'), lambda a, b: a.e == b.e
    if k == 'text': return ('x', 'y')[e.choose(2)], lambda a, b: z3.BoolVal(a == b)
    if k == 'space': return Space('V'), same_space
    if k == 'array': return Array('array'), lambda a, b: a.t == b.t
    if k == 'sequence':
        n = Int('n', 0)
        return VList(indexed(Thing, 'x', n)[0]), lambda a, b: as_bool(E_seq(a, b))
    cls = dict(constant=KConstant, function=KFunction, expression=KExpression, user_expression=KUserExpression, measure=Measure, terminal=Terminal,
               operator=Operator, other_operator=Other, point=Point, meshfunction=KMeshFunction)[k]
    return cls(), lambda a, b: a.same(b)


def E_seq(a, b):
    from vc.engine import seq_equal
    return seq_equal(seq(a), seq(b))


def key_world(e, real_keys=False):
    core = types.SimpleNamespace(expr=types.SimpleNamespace(Expr=Expr))
    ufl = types.SimpleNamespace(Measure=Measure, core=core)
    hashlib = R.stub('hashlib', **{h: (lambda b: types.SimpleNamespace(hexdigest=lambda: Key(fun('sha1', 'Key', 'Key')(b.t)), digest=lambda: Key(fun('sha1', 'Key', 'Key')(b.t))))
                                   for h in ('sha1', 'sha256', 'md5')})
    import inspect
    w = lm.world(dolfin=dict(Constant=KConstant, Function=KFunction, FunctionSpace=Space, Expression=KExpression, UserExpression=KUserExpression, Point=Point),
                 stubs={'ufl_legacy': ufl, 'numpy': np_stub(), 'hashlib': hashlib, 'inspect': inspect,
                        'xii.linalg.matrix_utils': R.stub('mu', is_number=lambda x: isinstance(x, (int, float, SNum)))})
    m = w.load(CK)
    if real_keys: array_axiom(e)
    else: m.space_key, m.array_key = spk, ark
    return m


def equal(a, b):
    from vc.engine import vc_eq
    return as_bool(vc_eq(a, b))


@contract('C07', CK + ':array_key', assumes=ASSUME)
def array_key(e):
    m = key_world(e, True)
    a, b = Array('a'), Array('b')
    e.assume(equal(m.array_key(a), m.array_key(b)))
    e.prove(a.t == b.t, 'ensures equal only for equal arrays')
    c = Array(a.t)
    e.prove(equal(m.array_key(a), m.array_key(c)), 'ensures equal for equal arrays')


@contract('C07', CK + ':space_key', assumes=ASSUME)
def space_key(e):
    m = key_world(e, True)
    m.array_key = ark
    V, W = Space('V'), Space('W')
    e.assume(equal(m.space_key(V), m.space_key(W)))
    for what, c in (('element', V.ufl_element().t == W.ufl_element().t), ('mesh', V.mesh().id().e == W.mesh().id().e),
                    ('state of the mesh', V.mesh().hash().e == W.mesh().hash().e),
                    ('numbering of dofs', fun('dofs', 'Space', 'Array')(V.t) == fun('dofs', 'Space', 'Array')(W.t))):
        e.prove(c, 'ensures equal only for the same %s' % what)


KINDS = ('none', 'number', 'text', 'constant', 'function', 'space', 'expression', 'user_expression', 'measure', 'terminal', 'operator', 'other_operator', 'point', 'array',
         'sequence', 'meshfunction')
# of no operator the same data may be both
APART = {frozenset(p) for p in (('none', 'x'), )}


def of_kind(k):
    def fn(e):
        m = key_world(e)
        value_key = m.value_key
        m.value_key = lambda x: thk(x) if isinstance(x, Thing) else value_key(x)
        a, same = kinds(e, k)
        b, _ = kinds(e, k)
        ka, kb = value_key(a), value_key(b)
        e.prove(z3.Implies(equal(ka, kb), same(a, b)), 'ensures equal only for equal values')
        if k not in ('expression', 'user_expression', 'sequence'):
            e.prove(z3.Implies(z3.And(same(a, b), z3.BoolVal(k in ('none', 'number', 'text', 'array', 'point', 'constant'))), equal(ka, kb)),
                    'ensures equal for equal values')
    fn.__name__ = 'value_key_of_%s' % k
    contract('C07', CK + ':value_key', assumes=ASSUME)(fn)


for _k in KINDS: of_kind(_k)


@contract('C07', CK + ':value_key', assumes=ASSUME)
def value_keys_of_different_kinds(e):
    """What can stand for a weight, a radius, a normal or nothing at all"""
    m = key_world(e)
    value_key = m.value_key
    m.value_key = lambda x: thk(x) if isinstance(x, Thing) else value_key(x)
    few = ('none', 'number', 'constant', 'function', 'expression', 'terminal', 'operator', 'meshfunction', 'measure')
    i = e.choose(len(few))
    j = e.choose(len(few))
    if i == j: return
    a, b = kinds(e, few[i])[0], kinds(e, few[j])[0]
    e.prove(z3.Not(equal(value_key(a), value_key(b))), 'ensures different')


@contract('C07', CK + ':value_key', assumes=ASSUME)
def value_key_of_objects(e):
    """Shapes: the same object with the same attributes"""
    m = key_world(e)
    value_key = m.value_key
    seen = []

    def inner(x):
        if isinstance(x, dict): 
            seen.append(x)
            return x['attributes']
        return value_key(x)
    m.value_key = inner
    m.vars = vars
    s = Shape()
    before = value_key(s)
    first = s.attributes
    s.attributes = Key('attributes_now')
    now = value_key(s)
    e.prove(z3.Implies(equal(before, now), first.t == s.attributes.t), 'ensures a change to an attribute is noticed')
    e.prove(z3.Not(equal(now, value_key(Shape()))), 'ensures objects that do not compare are told apart')


@contract('C07', CK + ':value_key', assumes=ASSUME)
def value_key_of_collections(e):
    """Sets and dictionaries, of up to two elements: as the elements do"""
    m = key_world(e)
    value_key = m.value_key
    m.value_key = lambda x: thk(x) if isinstance(x, Thing) else value_key(x)

    class TSet(set): pass
    na, nb = 1 + e.choose(2), 1 + e.choose(2)
    xs, ys = [Thing('x') for _ in range(na)], [Thing('y') for _ in range(nb)]
    if e.choose(2):
        ka, kb = value_key(set(xs)), value_key(set(ys))
        def contained(p, q): return z3.And([z3.Or([a.t == b.t for b in q]) for a in p])
        e.prove(z3.Implies(z3.BoolVal(bool(ka == kb)), z3.And(contained(xs, ys), contained(ys, xs))), 'ensures equal only for sets with the same elements')
        return
    us, vs = [Thing('u') for _ in range(na)], [Thing('v') for _ in range(nb)]
    ka, kb = value_key(dict(zip(xs, us))), value_key(dict(zip(ys, vs)))

    def contained(p, q): return z3.And([z3.Or([z3.And(a.t == b.t, c.t == d.t) for b, d in zip(*q)]) for a, c in zip(*p)])
    e.prove(z3.Implies(z3.BoolVal(bool(ka == kb)), z3.And(contained((xs, us), (ys, vs)), contained((ys, vs), (xs, us)))),
            'ensures equal only for dictionaries with the same items')
