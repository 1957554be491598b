"""C09 on concrete meshes; oracle: vertex coordinates of mesh entities"""
import numpy as np
from runner.base import case, Skip
from runner.geo import *
from runner.c08 import base
from xii import EmbeddedMesh, SubDomainMesh, OverlapMesh, transfer_markers
from xii.meshing.embedded_mesh import build_embedding_map
from xii.assembler.trace_matrix import get_entity_map
import dolfin as df


def extracted(t, mesh, dim):
    mesh.init(dim)
    f = df.MeshFunction('size_t', mesh, dim, 0)
    n = len(f.array())
    style = t.rng.randrange(3)
    if style == 0: f.array()[:] = t.np.randint(0, 3, n)
    elif style == 1: f.array()[:] = 1
    else: f.array()[t.rng.randrange(n)] = 1
    if not (f.array() == 1).any(): f.array()[0] = 1
    tags = [1] if t.rng.random() < .5 else [1, 2]
    return EmbeddedMesh(f, tags)


def markers(t, mesh, dim):
    mesh.init(dim)
    g = df.MeshFunction('size_t', mesh, dim, 0)
    n = len(g.array())
    g.array()[:] = [t.rng.choice([0, 0, 1, 2, 5, 77]) for _ in range(n)] if t.rng.random() < .6 else 1 + t.np.permutation(n)
    return g


def wanted(emesh, mesh, g, tags, start=None):
    """Values by coordinates; the extracted mesh lies in mesh"""
    d = g.dim()
    val = dict(zip(entity_keys(mesh, d), g.array()))
    # An edge of the parent that joins two vertices of the extracted mesh is an edge there only if it is there
    out = []
    for k, key in enumerate(entity_keys(emesh, d)):
        v = val.get(key)
        out.append(v if v is not None and (tags is None or v in tags) else (0 if start is None else start[k]))
    return np.array(out)


@case('C09', n=600, thorough=1500)
def transfer(t, i):
    mesh = base(t, i)
    D = mesh.topology().dim()
    dim = t.rng.randint(1, D)
    e = extracted(t, mesh, dim)
    g = markers(t, mesh, t.rng.randrange(dim))
    keep = g.array().copy()
    vals = sorted(set(keep))
    for rep in range(3):
        tags = None if rep == 0 else t.rng.sample(vals, t.rng.randint(1, len(vals)))
        if tags is not None: tags = t.rng.choice([list, tuple, set])(int(q) for q in tags)
        t.input(describe(mesh), dim, g.dim(), keep.tolist(), tags)
        h = transfer_markers(e, g, tags) if rep else transfer_markers(e, g)
        t.expect(h.mesh().id() == e.id() and h.dim() == g.dim(), 'function on the extracted mesh')
        t.close(h.array(), wanted(e, mesh, g, tags), 'transferred markers', 0)
        t.expect(np.array_equal(g.array(), keep), 'argument changed')
        if t.rng.random() < .3:        # next time the values are others
            g.array()[:] = t.np.permutation(keep)
            keep = g.array().copy()


@case('C09', n=600, thorough=1500)
def translate(t, i):
    mesh = base(t, i)
    D = mesh.topology().dim()
    dim = t.rng.randint(1, D)
    e = extracted(t, mesh, dim)
    g = markers(t, mesh, t.rng.randrange(dim))
    keep = g.array().copy()
    vals = sorted(set(int(q) for q in keep))
    for rep in range(4):
        tags = [None, t.rng.choice(vals), tuple(t.rng.sample(vals, t.rng.randint(1, len(vals)))),
                list(t.rng.sample(vals, t.rng.randint(1, len(vals))))][rep]
        tt = None if tags is None else (tags, ) if isinstance(tags, int) else tags
        t.input(describe(mesh), dim, g.dim(), keep.tolist(), tags)
        h = e.translate_markers(g, tags) if rep else e.translate_markers(g)
        t.expect(h.mesh().id() == e.id() and h.dim() == g.dim(), 'function on the extracted mesh')
        t.close(h.array(), wanted(e, mesh, g, tt), 'translated markers', 0)
        # into given function
        m = df.MeshFunction('size_t', e, g.dim(), 0)
        m.array()[:] = t.np.randint(0, 9, len(m.array()))
        start = m.array().copy()
        r = e.translate_markers(g, tags=tags, marker_f=m)
        t.expect(r is m, 'returns the given function')
        t.close(m.array(), wanted(e, mesh, g, tt, start), 'markers translated into a function', 0)
        t.expect(np.array_equal(g.array(), keep), 'argument changed')
        if t.rng.random() < .3:
            g.array()[:] = t.np.permutation(keep)
            keep = g.array().copy()


@case('C09', n=120, thorough=300)
def overlap(t, i):
    mesh = base(t, 1 + i % 4)
    dim = mesh.topology().dim()
    f = df.MeshFunction('size_t', mesh, dim, 0)
    f.array()[:] = t.np.randint(1, 4, mesh.num_cells())
    if len(set(f.array())) < 3: raise Skip
    m1, m2 = SubDomainMesh(f, (1, 3)), SubDomainMesh(f, (3, 2))
    o = OverlapMesh(m1, m2)
    for m in (m1, m2):
        g = markers(t, m, t.rng.randrange(dim))
        t.input(describe(mesh), f.array().tolist(), g.dim(), g.array().tolist())
        t.close(transfer_markers(o, g).array(), wanted(o, m, g, None), 'markers transferred to an overlap', 0)
        t.close(o.translate_markers(g).array(), wanted(o, m, g, None), 'markers translated to an overlap', 0)


def volume(t, i): return [lambda: box(t, 2), lambda: box(t, 3, 2), lambda: box(t, 2), lambda: manifold(t, 2)][i % 4]()


def facets_of(t, mesh, dim, connected=None):
    """Marking function: tags 1.. for pieces"""
    mesh.init(dim)
    f = df.MeshFunction('size_t', mesh, dim, 0)
    f.array()[:] = [t.rng.choice([0, 1, 2, 3]) for _ in range(len(f.array()))]
    if t.rng.random() < .2:
        f.set_all(0)
        f.array()[t.rng.randrange(len(f.array()))] = 1
    if not f.array().any(): f.array()[0] = 1
    return f


def check_map(t, emap, emesh, mesh, dim, cells, key, exact=False):
    """emap relates given cells of emesh"""
    t.expect(set(emap) >= {0, dim}, key + ': vertex and cell map')
    t.expect(set(cells) <= set(emap[dim]), key + ': all cells of the tags', lambda: 'missing %s' % (set(cells) - set(emap[dim])))
    if exact: t.expect(set(cells) == set(emap[dim]), key + ': only cells of the tags')
    ek, k = entity_keys(emesh, dim), entity_keys(mesh, dim)
    t.expect(all(ek[c] == k[e] for c, e in emap[dim].items()), key + ': cell to the entity with its vertices')
    vs = {v for c in cells for v in emesh.cells()[c]}
    t.expect(vs <= set(emap[0]), key + ': all vertices of the cells')
    x, X = emesh.coordinates(), mesh.coordinates()
    t.expect(all(rnd(x[v]) == rnd(X[w]) for v, w in emap[0].items()), key + ': vertex to the vertex at its coordinates')


@case('C09', n=400, thorough=800)
def geometric(t, i):
    """Map to a mesh with the same cells in another order"""
    m1 = volume(t, i)
    m2 = shuffled(t, m1)
    dim = t.rng.randint(1, m1.topology().dim() - 1)
    f = facets_of(t, m1, dim)
    tags = sorted(set(int(q) for q in f.array()) - {0})
    e = EmbeddedMesh(f, tags)
    t.input(describe(m1), dim, f.array().tolist())
    with t.guard('embedding map'):
        check_map(t, build_embedding_map(e, m2), e, m2, dim, range(e.num_cells()), 'embedding map', True)
    with t.guard('embedding map of marked mesh'):
        check_map(t, build_embedding_map(e, m2, e.marking_function), e, m2, dim, range(e.num_cells()), 'embedding map of marked mesh', True)
    some = set(t.rng.sample(tags, t.rng.randint(1, len(tags))))
    with t.guard('embedding map of tags'):
        check_map(t, build_embedding_map(e, m2, e.marking_function, some), e, m2, dim,
                  np.where(np.isin(e.marking_function.array(), list(some)))[0], 'embedding map of tags', True)


@case('C09', n=160, thorough=320)
def boundary(t, i):
    mesh = [lambda: box(t, 2), lambda: box(t, 3, 2)][i % 2]()
    b = df.BoundaryMesh(mesh, 'exterior')
    if i % 3 == 0: b.parent_id = mesh.id()
    t.input(describe(mesh), i % 3)
    d = b.topology().dim()
    check_map(t, build_embedding_map(b, mesh), b, mesh, d, range(b.num_cells()), 'boundary', True)
    if i % 3 == 1:
        other = shuffled(t, mesh)
        check_map(t, build_embedding_map(b, other), b, other, d, range(b.num_cells()), 'boundary in another mesh', True)
        b.parent_id = mesh.id()
        check_map(t, build_embedding_map(b, other), b, other, d, range(b.num_cells()), 'boundary of another mesh', True)
    # as the assembler does
    t.expect(get_entity_map(mesh, b, df.MeshFunction('size_t', b, d, 0), {0}), 'map')
    check_map(t, b.parent_entity_map[mesh.id()], b, mesh, d, range(b.num_cells()), 'boundary by request')


@case('C09', n=320, thorough=640)
def compute_embedding(t, i):
    """Facets marked in another mesh with the same geometry"""
    m1 = volume(t, i)
    dim = t.rng.randint(1, m1.topology().dim() - 1)
    f = facets_of(t, m1, dim)
    tags = sorted(set(int(q) for q in f.array()) - {0})
    e = EmbeddedMesh(f, tags)
    m2 = shuffled(t, m1)
    m2.init(dim)
    tag = dict(zip(entity_keys(m1, dim), f.array()))
    g = df.MeshFunction('size_t', m2, dim, 0)
    keys = entity_keys(m2, dim)
    shift = t.rng.choice([0, 10])
    g.array()[:] = [tag[k] + shift if tag[k] else 0 for k in keys]
    some = t.rng.sample(tags, t.rng.randint(1, len(tags)))
    ask = [k + shift for k in some]
    ask = ask[0] if len(ask) == 1 and t.rng.random() < .5 else tuple(ask)
    t.input(describe(m1), dim, f.array().tolist(), ask)
    r = e.compute_embedding(g, ask)
    cells = np.where(np.isin(e.marking_function.array(), some))[0]
    check_map(t, r, e, m2, dim, cells, 'computed embedding', True)
    t.expect(e.parent_entity_map[m2.id()] is r or e.parent_entity_map[m2.id()] == r, 'embedding is stored')
    t.raises(ValueError, lambda: e.compute_embedding(g, ask), 'second embedding')
    # the rest on request
    for k in t.rng.sample(tags, len(tags)):
        with t.guard('completed embedding'):
            t.expect(get_entity_map(m2, e, e.marking_function, (k, )), 'map')
            check_map(t, e.parent_entity_map[m2.id()], e, m2, dim, np.where(e.marking_function.array() == k)[0], 'completed embedding')
    check_map(t, e.parent_entity_map[m1.id()], e, m1, dim, range(e.num_cells()), 'original embedding', True)


@case('C09', n=320, thorough=640)
def requests(t, i):
    """Any order of requests for tags and meshes"""
    m1 = volume(t, i)
    dim = m1.topology().dim() - 1
    f = facets_of(t, m1, dim)
    tags = sorted(set(int(q) for q in f.array()) - {0})
    e = EmbeddedMesh(f, tags)
    meshes = [m1, shuffled(t, m1), shuffled(t, m1)]
    t.input(describe(m1), f.array().tolist())
    done = {m.id(): set() for m in meshes}
    for rep in range(5):
        m, some = t.rng.choice(meshes), set(t.rng.sample(tags, t.rng.randint(1, len(tags))))
        with t.guard('request'):
            t.expect(get_entity_map(m, e, e.marking_function, some), 'map')
            done[m.id()] |= some
            check_map(t, e.parent_entity_map[m.id()], e, m, dim,
                      np.where(np.isin(e.marking_function.array(), list(done[m.id()])))[0], 'requested map')
            t.expect(set(e.marking_function.array()) <= set(tags), 'marks')


def moved(t, mesh, eps):
    """Another numbering, vertices moved by about eps"""
    m = shuffled(t, mesh)
    m.coordinates()[:] += eps * (1 + t.np.uniform(0, 1, m.coordinates().shape))
    return m


def same_points(emap, emesh, mesh, tol):
    x, X = emesh.coordinates(), mesh.coordinates()
    return all(np.linalg.norm(x[v] - X[w]) < tol for v, w in emap[0].items())


@case('C09', n=240, thorough=480)
def not_embedded(t, i):
    """No map, or one that relates equal points"""
    m1 = volume(t, i)
    dim = t.rng.randint(1, m1.topology().dim() - 1)
    f = facets_of(t, m1, dim)
    tags = sorted(set(int(q) for q in f.array()) - {0})
    e = EmbeddedMesh(f, tags)
    eps = t.rng.choice([1e-6, 1e-4, 1e-2, .3, 5.])
    m2 = moved(t, m1, eps)
    t.input(describe(m1), dim, f.array().tolist(), eps)
    for how in (lambda: build_embedding_map(e, m2), lambda: build_embedding_map(e, m2, e.marking_function, {tags[0]}),
                lambda: get_entity_map(m2, e, e.marking_function, {tags[0]}) and e.parent_entity_map[m2.id()]):
        try: r = how()
        except Exception: r = None
        t.expect(r is None or same_points(r, e, m2, eps / 100), 'map into a mesh without these vertices')
    m2 = moved(t, m1, eps)
    m2.init(dim)
    g = df.MeshFunction('size_t', m2, dim, 0)
    g.array()[t.rng.randrange(len(g.array()))] = 4
    try: r = e.compute_embedding(g, 4)
    except Exception: r = None
    t.expect(r is None or same_points(r, e, m2, eps / 100), 'computed map into a mesh without these vertices')
    t.expect(m2.id() not in e.parent_entity_map or same_points(e.parent_entity_map[m2.id()], e, m2, eps / 100), 'stored map into a mesh without these vertices')


@case('C09', n=160, thorough=320)
def scaled(t, i):
    """Small, large and far away meshes"""
    m1 = volume(t, i)
    s, far = [(1e-3, 0), (1e3, 0), (1e-2, 10), (1., 100.), (30., -40.)][i % 5]
    m1.coordinates()[:] = np.round((m1.coordinates() * s + far) * 2. ** 20) / 2. ** 20
    dim = t.rng.randint(1, m1.topology().dim() - 1)
    f = facets_of(t, m1, dim)
    tags = sorted(set(int(q) for q in f.array()) - {0})
    e = EmbeddedMesh(f, tags)
    m2 = shuffled(t, m1)
    t.input(describe(m1), s, far)
    with t.guard('embedding map'):
        check_map(t, build_embedding_map(e, m2, e.marking_function), e, m2, dim, range(e.num_cells()), 'embedding map', True)
    m2 = shuffled(t, m1)
    m2.init(dim)
    tag = dict(zip(entity_keys(m1, dim), f.array()))
    g = df.MeshFunction('size_t', m2, dim, 0)
    g.array()[:] = [tag[k] for k in entity_keys(m2, dim)]
    with t.guard('computed embedding'):
        check_map(t, e.compute_embedding(g, tuple(tags)), e, m2, dim, range(e.num_cells()), 'computed embedding', True)
    t.expect([m.id() for m in e.parent_meshes] == [m1.id(), m2.id()], 'parent meshes')
    t.expect(set(e.parent_entity_map) == {m1.id(), m2.id()}, 'parents')


@case('C09', n=160, thorough=320)
def plain(t, i):
    """Requests for meshes which do not remember where they come from, without tags, of tags in pieces"""
    m1 = volume(t, i)
    dim = m1.topology().dim() - 1
    f = facets_of(t, m1, dim)
    tags = sorted(set(int(q) for q in f.array()) - {0})
    e = EmbeddedMesh(f, tags)
    b = shuffled(t, build(e.coordinates(), e.cells(), dim))
    t.input(describe(m1), f.array().tolist())
    marks = df.MeshFunction('size_t', b, dim, 0)
    marks.array()[:] = t.np.randint(0, 3, b.num_cells())
    meshes = [m1, shuffled(t, m1)]
    done = {m.id(): set() for m in meshes}
    for rep in range(5):
        m = t.rng.choice(meshes)
        some = None if t.rng.random() < .3 else set(t.rng.sample(range(3), t.rng.randint(1, 3)))
        if some is not None: some = {k for k in some if (marks.array() == k).any()}
        if some is not None and not some: continue
        with t.guard('request'):
            if some is None: t.expect(get_entity_map(m, b), 'map')
            else: t.expect(get_entity_map(m, b, marks, t.rng.choice([set, list, tuple])(some)), 'map')
            done[m.id()] |= {0, 1, 2} if some is None else some
            check_map(t, b.parent_entity_map[m.id()], b, m, dim, np.where(np.isin(marks.array(), list(done[m.id()])))[0], 'requested map')
    # later for the extracted mesh, all cells
    with t.guard('request'):
        t.expect(get_entity_map(meshes[1], e), 'map')
        check_map(t, e.parent_entity_map[meshes[1].id()], e, meshes[1], dim, range(e.num_cells()), 'requested map of all')
