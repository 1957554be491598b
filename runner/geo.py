"""Random meshes and geometric identities of mesh entities (oracle: vertex coordinates only)"""
import numpy as np
import dolfin as df


def perturb(t, mesh, amount=.15):
    """Moves interior vertices of a mesh of a box; cells stay non-degenerate"""
    x = mesh.coordinates()
    b = df.BoundaryMesh(mesh, 'exterior')
    fixed = set(b.entity_map(0).array()) if mesh.topology().dim() > 1 else {int(np.argmin(x[:, 0])), int(np.argmax(x[:, 0]))}
    h = mesh.hmin()
    for v in range(mesh.num_vertices()):
        if v not in fixed: x[v] += amount * h * t.np.uniform(-1, 1, x.shape[1]) * .5
    return mesh


def box(t, dim, n=3, bend=True):
    """Mesh of a box with vertices moved"""
    k = [t.rng.randint(1, n) for _ in range(dim)]
    lo = t.np.uniform(-1, 1, dim)
    up = lo + t.np.uniform(.5, 2, dim)
    if dim == 1: m = df.IntervalMesh(max(2, k[0] + 2), lo[0], up[0])
    elif dim == 2: m = df.RectangleMesh(df.Point(*lo), df.Point(*up), k[0], k[1], t.rng.choice(['left', 'right', 'crossed', 'left/right', 'right/left']))
    else: m = df.BoxMesh(df.Point(*lo), df.Point(*up), min(k[0], 2), min(k[1], 2), min(k[2], 2))
    return perturb(t, m) if bend and t.rng.random() < .7 else m


def build(coords, cells, tdim):
    coords = np.asarray(coords, dtype=float)
    m = df.Mesh()
    e = df.MeshEditor()
    e.open(m, {1: 'interval', 2: 'triangle', 3: 'tetrahedron'}[tdim], tdim, coords.shape[1])
    e.init_vertices(len(coords))
    e.init_cells(len(cells))
    for i, x in enumerate(coords): e.add_vertex(i, np.asarray(x))
    for i, c in enumerate(cells): e.add_cell(i, np.array(c, dtype='uintp'))
    e.close()
    return m


def manifold(t, dim):
    """Surface in 3d (dim 2) or curve in 2d or 3d (dim 1): image of a flat mesh"""
    if dim == 2:
        m = box(t, 2, 3)
        x = m.coordinates()
        X = np.c_[x, .3 * np.sin(2 * x[:, 0]) + .4 * x[:, 1] ** 2]
    else:
        m = df.UnitIntervalMesh(t.rng.randint(2, 6))
        s = m.coordinates()[:, 0]
        X = np.c_[s, np.sin(2 * s)] if t.rng.random() < .5 else np.c_[np.cos(3 * s), np.sin(3 * s), s]
    return build(X, m.cells(), dim)


def shuffled(t, mesh):
    """Same mesh, other numbering of vertices and cells"""
    p, q = t.np.permutation(mesh.num_vertices()), t.np.permutation(mesh.num_cells())
    x = np.zeros_like(mesh.coordinates())
    x[p] = mesh.coordinates()
    return build(x, p[mesh.cells()][q], mesh.topology().dim())


def entity_vertices(mesh, dim):
    """Array of vertex indices of the entities"""
    if dim == 0: return np.arange(mesh.num_vertices()).reshape((-1, 1))
    mesh.init(dim, 0)
    c = mesh.topology()(dim, 0)
    n = mesh.num_entities(dim)
    return np.array([c(i) for i in range(n)]).reshape((n, -1))


def rnd(x): return tuple(np.round(x, 9) + 0.)


def entity_keys(mesh, dim):
    """Entity -> frozenset of coordinates"""
    x = mesh.coordinates()
    return [frozenset(rnd(x[v]) for v in e) for e in entity_vertices(mesh, dim)]


def entity_points(mesh, dim):
    x = mesh.coordinates()
    return [x[e] for e in entity_vertices(mesh, dim)]


def measure(X):
    """Measure of a simplex with vertices X (k+1, gdim)"""
    X = np.asarray(X)
    E = X[1:] - X[0]
    return np.sqrt(max(0, np.linalg.det(E @ E.T))) / np.prod(np.arange(1, len(E) + 1))


def volumes(mesh): return np.array([measure(mesh.coordinates()[c]) for c in mesh.cells()])


def describe(mesh): return 'mesh %dd/%dd %d cells %s' % (mesh.topology().dim(), mesh.geometry().dim(), mesh.num_cells(),
                                                         np.round(mesh.coordinates(), 3).tolist()[:6])


def inside(X, p, tol=1e-9):
    """p in simplex X (possibly embedded)"""
    E = (X[1:] - X[0]).T
    l, *_ = np.linalg.lstsq(E, p - X[0], rcond=None)
    return np.linalg.norm(E @ l - (p - X[0])) < tol and l.min() > -tol and l.sum() < 1 + tol


def relocate(t, mesh):
    """Mesh moved in place (rotation, scaling, shift): what was computed before for it must not be reused"""
    n = mesh.geometry().dim()
    q, _ = np.linalg.qr(t.np.standard_normal((n, n)))
    if n == 1: q = np.eye(1)
    s = t.rng.choice([.5, 1., 3.])
    mesh.coordinates()[:] = s * mesh.coordinates() @ q.T + t.np.uniform(-1, 1, n)
    mesh.bounding_box_tree().build(mesh)
    return mesh
