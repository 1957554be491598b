"""C08 on concrete meshes; oracle: vertex coordinates of mesh entities"""
import numpy as np
from runner.base import case, Skip
from runner.geo import *
from xii import EmbeddedMesh, SubDomainMesh, OverlapMesh
from xii.meshing.embedded_mesh import Skeleton
from xii.meshing.make_mesh_cpp import make_mesh


def base(t, i):
    k = i % 6
    if k == 0: m = box(t, 1)
    elif k in (1, 2): m = box(t, 2)
    elif k == 3: m = box(t, 3, 2)
    elif k == 4: m = manifold(t, 2)
    else: m = manifold(t, 1)
    return shuffled(t, m) if t.rng.random() < .5 else m


def check(t, emesh, f, tags, keep):
    """emesh is what comes from entities of f with the tags"""
    mesh, dim = f.mesh(), f.dim()
    want = np.where(np.isin(keep, list(tags)))[0]
    t.expect(emesh.num_cells() == len(want), 'one cell per selected entity', '%d for %d' % (emesh.num_cells(), len(want)))
    t.expect(emesh.topology().dim() == dim and emesh.geometry().dim() == mesh.geometry().dim(), 'dimensions')
    t.expect(list(emesh.parent_entity_map) == [mesh.id()], 'maps of the parent only')
    maps = emesh.parent_entity_map[mesh.id()]
    t.expect(set(maps) == {0, dim}, 'vertex and cell map')
    V, C = maps[0], maps[dim]
    t.expect(sorted(V) == list(range(emesh.num_vertices())), 'every vertex is mapped')
    t.expect(sorted(C) == list(range(emesh.num_cells())), 'every cell is mapped')
    t.expect(sorted(C.values()) == sorted(want), 'cells map to the selected entities, one each')
    x, X = emesh.coordinates(), mesh.coordinates()
    t.expect(len(set(V.values())) == len(V), 'vertices are not repeated')
    t.close(np.array([x[v] for v in sorted(V)]), np.array([X[V[v]] for v in sorted(V)]), 'vertex coordinates', 1e-15)
    e2v = entity_vertices(mesh, dim)
    ok = all({V[v] for v in c} == set(e2v[C[k]]) for k, c in enumerate(entity_vertices(emesh, dim)))
    t.expect(ok, 'vertices of a cell map to the vertices of its entity')
    t.expect({V[v] for v in V} == set(e2v[want].flatten()), 'only vertices of the selected entities')
    g = emesh.marking_function
    t.expect(g.dim() == dim and g.mesh().id() == emesh.id() and len(g.array()) == emesh.num_cells(), 'marking function is a cell function')
    bad = [k for k in range(emesh.num_cells()) if g.array()[k] != keep[C[k]]]
    t.expect(not bad, 'marking function', lambda: 'cell %d marked %d parent %d' % (bad[0], g.array()[bad[0]], keep[C[bad[0]]]))
    t.expect(set(emesh.tagged_cells) == set(tags), 'tagged cells')
    t.expect(mesh.id() in [m.id() for m in emesh.parent_meshes], 'parent mesh')
    t.expect(np.array_equal(f.array(), keep), 'argument changed')
    t.close(np.sort(volumes(emesh)), np.sort([measure(X[e2v[e]]) for e in want]), 'measure of cells', 1e-10)


def marks(t, mesh, dim):
    """Marker field and tags to ask for; at least one entity has one of the tags"""
    f = df.MeshFunction('size_t', mesh, dim, 0)
    colors = t.rng.sample([0, 1, 2, 3, 7, 42, 100003], t.rng.randint(1, 5))
    n = len(f.array())
    f.array()[:] = [t.rng.choice(colors) for _ in range(n)]
    keep = f.array().copy()
    tags = t.rng.sample(colors, t.rng.randint(1, len(colors)))
    if not set(tags) & set(keep): tags.append(int(keep[0]))
    if t.rng.random() < .2: tags.insert(t.rng.randrange(len(tags) + 1), 55)        # nobody has it
    return f, tags, keep


def ask(t, tags):
    if len(tags) == 1 and t.rng.random() < .6: return tags[0]
    return t.rng.choice([list, tuple, set])(tags)


@case('C08', n=640, thorough=1500)
def embedded(t, i):
    mesh = base(t, i)
    dim = t.rng.randint(1, mesh.topology().dim())
    mesh.init(dim)
    f, tags, keep = marks(t, mesh, dim)
    m = ask(t, tags)
    t.input(describe(mesh), dim, keep.tolist(), m)
    e = EmbeddedMesh(f, m)
    check(t, e, f, tags, keep)
    if t.rng.random() < .3:
        # Same function with other values, on the moved mesh; what was extracted does not change
        x, c, mf = e.coordinates().copy(), e.cells().copy(), e.marking_function.array().copy()
        f.array()[:] = t.np.permutation(f.array())
        keep = f.array().copy()
        relocate(t, mesh)
        t.input('again, moved', keep.tolist(), m)
        E = EmbeddedMesh(f, m)
        check(t, E, f, tags, keep)
        t.expect(np.array_equal(x, e.coordinates()) and np.array_equal(c, e.cells()) and np.array_equal(mf, e.marking_function.array()), 'extracted mesh is not changed by the next one')
        e = E
    # from the extracted mesh
    dim2 = t.rng.randint(1, dim)
    e.init(dim2)
    g, tags, keep = marks(t, e, dim2)
    if t.rng.random() < .3 and dim2 == dim: g, tags, keep = e.marking_function, [int(e.marking_function.array()[0])], e.marking_function.array().copy()
    check(t, EmbeddedMesh(g, ask(t, tags)), g, tags, keep)


@case('C08', n=240, thorough=500)
def subdomains(t, i):
    mesh = base(t, i)
    f, tags, keep = marks(t, mesh, mesh.topology().dim())
    m = ask(t, tags)
    t.input(describe(mesh), keep.tolist(), m)
    check(t, SubDomainMesh(f, m), f, tags, keep)
    f.array()[:] = t.np.permutation(f.array())
    t.input('again', f.array().tolist())
    check(t, SubDomainMesh(f, m), f, tags, f.array().copy())
    if mesh.topology().dim() > 1:
        mesh.init(1)
        g = df.MeshFunction('size_t', mesh, mesh.topology().dim() - 1, 1)
        t.raises(AssertionError, lambda: SubDomainMesh(g, 1), 'facet function is no cell function')


@case('C08', n=240, thorough=500)
def overlap(t, i):
    """Sub-domains a and b with a common part c"""
    mesh = base(t, i)
    if t.rng.random() < .5: mesh = df.refine(mesh)
    dim = mesh.topology().dim()
    f = df.MeshFunction('size_t', mesh, dim, 0)
    f.array()[:] = [t.rng.choice([1, 2, 3, 9]) for _ in range(mesh.num_cells())]
    if t.rng.random() < .5: f.array()[:] = 1 + (3 * np.argsort(np.argsort([c.midpoint().array()[0] for c in df.cells(mesh)]))) // mesh.num_cells()
    a = f.array().copy()
    if not {1, 2, 3} <= set(a): raise Skip
    c1, c2 = (1, 3), (3, 2)
    t.input(describe(mesh), a.tolist())
    m1, m2 = SubDomainMesh(f, c1), SubDomainMesh(f, c2)
    o = OverlapMesh(m1, m2)
    cells = [k for k in range(mesh.num_cells()) if a[k] == 3]
    keys = entity_keys(mesh, dim)
    t.expect(o.num_cells() == len(cells) and set(entity_keys(o, dim)) == {keys[k] for k in cells}, 'cells of the common tag')
    t.expect(set(o.marking_function.array()) == {3}, 'marking function')
    for m in (m1, m2):
        maps = o.parent_entity_map[m.id()]
        ok = np.array([m.coordinates()[maps[0][v]] for v in range(o.num_vertices())])
        t.close(o.coordinates(), ok, 'vertex map to a sub-domain mesh', 1e-13)
        mk = entity_keys(m, dim)
        t.expect(all(mk[maps[dim][k]] == q for k, q in enumerate(entity_keys(o, dim))), 'cell map to a sub-domain mesh')
        t.expect(set(maps[dim]) == set(range(o.num_cells())) if isinstance(maps[dim], dict) else len(maps[dim]) == o.num_cells(), 'all cells')


@case('C08', n=96, thorough=200)
def skeletons(t, i):
    mesh = [box(t, 2), box(t, 3, 2), manifold(t, 2)][i % 3]
    d = mesh.topology().dim()
    mesh.init(d - 1, d)
    f2c = mesh.topology()(d - 1, d)
    keys = entity_keys(mesh, d - 1)
    t.input(describe(mesh))
    every = set(range(len(keys)))
    inner = {k for k in every if len(f2c(k)) == 2}
    for boundary, want in ((False, inner), (True, every)):
        if not want: continue
        s = Skeleton(mesh, boundary)
        t.expect(s.num_cells() == len(want) and set(entity_keys(s, d - 1)) == {keys[k] for k in want}, 'facets of the skeleton')
        t.expect(all(keys[s.parent_entity_map[mesh.id()][d - 1][c]] == q for c, q in enumerate(entity_keys(s, d - 1))), 'map of the skeleton')
    relocate(t, mesh)
    keys = entity_keys(mesh, d - 1)
    s = Skeleton(mesh, True)
    t.expect(s.num_cells() == len(every) and set(entity_keys(s, d - 1)) == {keys[k] for k in every}, 'facets of the skeleton of the moved mesh')


@case('C08', n=240, thorough=500)
def from_arrays(t, i):
    mesh = base(t, i)
    x, c = mesh.coordinates().copy(), mesh.cells().copy()
    t.input(describe(mesh))
    y, d = x.copy(), c.copy()
    given = df.Mesh() if i % 2 else None
    m = make_mesh(y, d, mesh.topology().dim(), mesh.geometry().dim(), given)
    t.expect(given is None or m is given, 'fills the given mesh')
    t.expect(m.num_vertices() == len(x) and m.num_cells() == len(c), 'sizes')
    t.close(m.coordinates(), x, 'coordinates', 0)
    t.expect(np.array_equal(np.sort(m.cells(), 1), np.sort(c, 1)), 'cells')
    t.expect(np.array_equal(x, y) and np.array_equal(c, d), 'arguments changed')
