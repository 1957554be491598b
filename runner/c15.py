"""C15 on concrete meshes; oracle: coordinates, measures and barycentric coordinates of cells"""
import numpy as np
from runner.base import case, Skip
from runner.geo import *
from xii.meshing.refinement import centroid_refine, circumcenter_refine, inner_point_refine, simplex_area, point_is_inside, simplices
from xii.meshing.dual_mesh import dual_mesh
from xii.meshing import line_mesh as lm, generation as gen
from xii.meshing.union_mesh import union_mesh
from xii.meshing.make_mesh_cpp import make_mesh


def partition(t, fine, mesh, where, exact=False):
    """Cell map sends every child to the cell that contains it, children of a cell partition it"""
    tdim = mesh.topology().dim()
    t.expect(fine.topology().dim() == tdim and fine.geometry().dim() == mesh.geometry().dim(), where + ': dimensions')
    t.expect(list(fine.parent_entity_map) == [mesh.id()], where + ': maps of the parent')
    M = fine.parent_entity_map[mesh.id()]
    C, V = M[tdim], M[0]
    t.expect(sorted(C) == list(range(fine.num_cells())), where + ': every child cell is mapped')
    x, X = fine.coordinates(), mesh.coordinates()
    cells, parents = fine.cells(), mesh.cells()
    scale = mesh.hmax()
    t.expect(set(C.values()) <= set(range(len(parents))), where + ': to cells of the parent')
    bad = [k for k in C if not all(inside(X[parents[C[k]]], x[v], 1e-8 * max(1, scale)) for v in cells[k])]
    t.expect(not bad, where + ': child lies in its parent', lambda: 'cell %d' % bad[0])
    vol, VOL = volumes(fine), volumes(mesh)
    s = np.zeros(len(VOL))
    for k in C: s[C[k]] += vol[k]
    t.close(s, VOL, where + ': volume of children', 1e-9)
    t.expect(vol.min() > 0, where + ': children are not degenerate')
    # Together with equal volume: interiors do not meet, midpoint of a child is in no other child
    mid = x[cells].mean(axis=1)
    kids = {}
    for k in C: kids.setdefault(C[k], []).append(k)
    for p, ks in kids.items():
        for a in ks[:12]:
            t.expect(not [b for b in ks if b != a and inside(x[cells[b]], mid[a], -1e-9)], where + ': children overlap')
    # Vertices
    t.expect(sorted(V.values()) == list(range(mesh.num_vertices())), where + ': all parent vertices are met once')
    t.close(np.array([x[v] for v in V]), np.array([X[V[v]] for v in V]), where + ': vertex map', 1e-13)
    t.expect(len({rnd(y) for y in x}) == len(x), where + ': vertices are not repeated')
    t.expect(set(cells.flatten()) == set(range(len(x))), where + ': vertices are used')


def meshes(t, i):
    k = i % 7
    m = [lambda: box(t, 1), lambda: box(t, 2), lambda: box(t, 2), lambda: box(t, 3, 1), lambda: manifold(t, 2),
         lambda: manifold(t, 1), lambda: box(t, 2, 2)][k]()
    return shuffled(t, m) if t.rng.random() < .4 else m


@case('C15', n=126, thorough=400)
def centroid(t, i):
    mesh = meshes(t, i)
    tdim = mesh.topology().dim()
    nrefs = t.rng.choice([1, 1, 2, 3] if tdim < 3 else [1, 2])
    if mesh.num_cells() * (tdim + 1) ** nrefs > 1500: nrefs = 1
    t.input(describe(mesh), 'nrefs %d' % nrefs)
    keep = mesh.coordinates().copy(), mesh.cells().copy()
    fine = centroid_refine(mesh, nrefs=nrefs)
    t.expect(fine.num_cells() == mesh.num_cells() * (tdim + 1) ** nrefs, 'number of cells')
    partition(t, fine, mesh, 'centroid %d' % nrefs)
    if t.rng.random() < .5:
        X, Y = keep[0].copy(), fine.coordinates().copy()
        relocate(t, mesh)
        keep = mesh.coordinates().copy(), keep[1]
        t.close(Y, fine.coordinates(), 'children share no data with the parent', 0)
        fine = centroid_refine(mesh, nrefs=nrefs)
        partition(t, fine, mesh, 'centroid %d of the moved mesh' % nrefs)
    t.expect(np.array_equal(keep[0], mesh.coordinates()) and np.array_equal(keep[1], mesh.cells()), 'the parent is not touched')
    if nrefs == 1:
        c = {rnd(p) for p in mesh.coordinates()[mesh.cells()].mean(axis=1)}
        t.expect({rnd(p) for p in fine.coordinates()} == c | {rnd(p) for p in mesh.coordinates()}, 'centroids are the new vertices')


def acute(t, dim3):
    """Triangles with sharp angles only"""
    n, m = t.rng.randint(1, 4), t.rng.randint(1, 3)
    a, h = t.rng.uniform(.5, 2), t.rng.uniform(.8, 1.1)
    X, idx = [], {}
    for j in range(m + 1):
        for i in range(n + 1):
            idx[i, j] = len(X)
            X.append((a * (i + .5 * (j % 2)), a * h * j))
    cells = []
    for j in range(m):
        for i in range(n):
            if j % 2 == 0: cells += [(idx[i, j], idx[i + 1, j], idx[i, j + 1]), (idx[i + 1, j], idx[i, j + 1], idx[i + 1, j + 1])]
            else: cells += [(idx[i, j], idx[i, j + 1], idx[i + 1, j + 1]), (idx[i, j], idx[i + 1, j], idx[i + 1, j + 1])]
    X = np.array(X)
    if dim3:
        q, _ = np.linalg.qr(t.np.standard_normal((3, 3)))
        X = np.c_[X, np.zeros(len(X))] @ q.T
    return shuffled(t, build(X, cells, 2))


def circumcenter_of(P):
    E = P[1:] - P[0]
    return P[0] + np.linalg.solve(E @ E.T, .5 * (E ** 2).sum(axis=1)) @ E


@case('C15', n=42, thorough=150)
def circumcenter(t, i):
    k = i % 5
    if k < 2: mesh = acute(t, k == 1)
    elif k == 2: mesh = manifold(t, 1)
    elif k == 3:
        # Regular-ish tetrahedron
        X = np.array([[1, 1, 1], [1, -1, -1], [-1, 1, -1], [-1, -1, 1]]) + t.np.uniform(-.1, .1, (4, 3))
        mesh = build(X, [(0, 1, 2, 3)], 3)
    else: mesh = acute(t, False)
    t.input(describe(mesh))
    fine = circumcenter_refine(mesh)
    partition(t, fine, mesh, 'circumcenter')
    relocate(t, mesh)
    fine = circumcenter_refine(mesh)
    partition(t, fine, mesh, 'circumcenter of the moved mesh')
    c = {tuple(np.round(circumcenter_of(mesh.coordinates()[k]), 7) + 0.) for k in mesh.cells()}
    new = {tuple(np.round(p, 7) + 0.) for p in fine.coordinates()} - {tuple(np.round(p, 7) + 0.) for p in mesh.coordinates()}
    t.expect(len(new - c) == 0 and len(new) == len(c), 'circumcenters are the new vertices')
    if mesh.topology().dim() == 2:
        # obtuse triangle: center is outside, strict refuses
        bad = build([(0, 0), (4, 0), (2, .3)], [(0, 1, 2)], 2)
        t.raises(AssertionError, lambda: circumcenter_refine(bad), 'center outside of the cell')


@case('C15', n=60, thorough=200)
def own_points(t, i):
    """Any interior points"""
    mesh = meshes(t, i)
    tdim = mesh.topology().dim()
    nrefs = t.rng.choice([1, 1, 2])
    if mesh.num_cells() * (tdim + 1) ** nrefs > 900: nrefs = 1
    seed = t.rng.randrange(10**6)
    def points(m):
        r = np.random.RandomState(seed)
        l = r.uniform(.3, 1, (m.num_cells(), tdim + 1))
        l /= l.sum(axis=1, keepdims=True)
        return np.einsum('ij,ijk->ik', l, m.coordinates()[m.cells()])
    t.input(describe(mesh), 'nrefs %d' % nrefs, 'seed %d' % seed)
    partition(t, inner_point_refine(mesh, points, 1e-9, nrefs), mesh, 'inner point')


@case('C15', n=180, thorough=600)
def areas(t, i):
    tdim = t.rng.randint(1, 3)
    gdim = t.rng.randint(tdim, 3)
    X = t.np.uniform(-2, 2, (tdim + 1, gdim))
    t.input(X.tolist())
    t.close(simplex_area(X), measure(X), 'area', 1e-9)
    l = t.np.uniform(.05, 1, tdim + 1)
    p = (l / l.sum()) @ X
    subs = [np.array(s) for s in simplices(p, X)]
    t.close(sum(measure(s) for s in subs), measure(X), 'sub-simplices of an inner point', 1e-9)
    t.expect(point_is_inside(p, X, 1e-9), 'inner point is inside')
    m = t.rng.randrange(tdim + 1)
    l2 = l / l.sum()
    l2[m] = -t.rng.uniform(.05, .5)
    l2[(m + 1) % (tdim + 1)] += 1 - l2.sum()
    q = l2 @ X
    if measure(X) > 1e-2: t.expect(not point_is_inside(q, X, 1e-9), 'outer point is outside')
    many = np.array([p, p, q])
    if measure(X) > 1e-2:
        t.expect(point_is_inside(many[:2], np.array([X, X]), 1e-9) and not point_is_inside(many, np.array([X] * 3), 1e-9), 'many points')


@case('C15', n=60, thorough=200)
def dual(t, i):
    center = 'centroid' if i % 3 else 'circumcenter'
    if center == 'circumcenter': mesh = acute(t, t.rng.random() < .5)
    else: mesh = box(t, 2) if t.rng.random() < .7 else manifold(t, 2)
    if t.rng.random() < .3: mesh = shuffled(t, mesh)
    nrefs = t.rng.choice([1, 1, 2]) if center == 'centroid' and mesh.num_cells() < 13 else 1
    t.input(describe(mesh), center, 'nrefs %d' % nrefs)
    if t.rng.random() < .4:
        dual_mesh(mesh, center=center, nrefs=nrefs)
        relocate(t, mesh)
    d = dual_mesh(mesh, center=center, nrefs=nrefs)
    t.expect(d.num_cells() == 6 ** nrefs * mesh.num_cells(), 'number of cells')
    partition(t, d, mesh, 'dual ' + center)
    if nrefs > 1: return
    # Dual cell of a vertex is made of the new cells at it: for each cell around the vertex there are two, with the vertex,
    # the center and the midpoints of the edges at the vertex
    x, X = d.coordinates(), mesh.coordinates()
    V, C = (d.parent_entity_map[mesh.id()][k] for k in (0, 2))
    back = {V[v]: v for v in V}
    around = {}
    for k, c in enumerate(d.cells()):
        roots = [v for v in c if v in V]
        t.expect(len(roots) == 1, 'each new cell belongs to the dual cell of one vertex')
        around.setdefault(V[roots[0]], []).append(k)
    vol, VOL = volumes(d), volumes(mesh)
    for v in range(mesh.num_vertices()):
        cells = [k for k, c in enumerate(mesh.cells()) if v in c]
        t.expect(sorted(C[k] for k in around[v]) == sorted(cells * 2), 'dual cell meets each cell around the vertex')
        if center == 'centroid':
            t.close(sum(vol[k] for k in around[v]), VOL[cells].sum() / 3, 'measure of the dual cell', 1e-9)
        want = set()
        for k in cells:
            P = X[mesh.cells()[k]]
            want.add(tuple(np.round(P.mean(axis=0) if center == 'centroid' else circumcenter_of(P), 7) + 0.))
            want |= {tuple(np.round(.5 * (X[v] + X[w]), 7) + 0.) for w in mesh.cells()[k] if w != v}
        got = {tuple(np.round(x[w], 7) + 0.) for k in around[v] for w in d.cells()[k] if w != back[v]}
        t.expect(got == want, 'dual cell has centers and midpoints as vertices')


def network(t, gdim):
    """Branches (arrays of points) meeting only at end points"""
    n = t.rng.randint(2, 6)
    nodes = t.np.uniform(-2, 2, (n, gdim))
    branches = []
    for k in range(t.rng.randint(1, 6)):
        a, b = t.rng.randrange(n), t.rng.randrange(n)
        m = t.rng.randint(0, 4)
        if a == b: m = max(m, 2)
        inner = t.np.uniform(-2, 2, (m, gdim)) + 10 * (k + 1)
        if m == 0 and any(len(q) == 2 and {rnd(q[0]), rnd(q[1])} == {rnd(nodes[a]), rnd(nodes[b])} for q in branches): continue
        branches.append(np.vstack([nodes[[a]], inner, nodes[[b]]]))
    return branches


@case('C15', n=360, thorough=1000)
def lines(t, i):
    mod = t.rng.choice([lm, gen])
    gdim = t.rng.choice([2, 3])
    br = network(t, gdim)
    if not br: raise Skip
    arg = br if t.rng.random() < .7 else tuple(br)
    t.input([b.tolist() for b in br])
    keep = [b.copy() for b in br]
    mesh = mod.line_mesh(arg)
    t.expect(mesh.topology().dim() == 1 and mesh.geometry().dim() == gdim, 'dimensions')
    want = sorted(tuple(sorted((rnd(a), rnd(b)))) for q in br for a, b in zip(q[:-1], q[1:]))
    x = mesh.coordinates()
    have = sorted(tuple(sorted(rnd(x[v]) for v in c)) for c in mesh.cells())
    t.expect(have == want, 'each segment once', lambda: '%d cells for %d segments' % (len(have), len(want)))
    t.expect(len({rnd(y) for y in x}) == len(x), 'shared points are one vertex')
    t.expect({rnd(y) for y in x} == {rnd(p) for q in br for p in q}, 'vertices are the points')
    t.expect(all(np.array_equal(a, b) for a, b in zip(keep, br)), 'branches are not changed')


@case('C15', n=60, thorough=120)
def straight(t, i):
    mod = t.rng.choice([lm, gen])
    gdim = t.rng.choice([2, 3])
    A, B = t.np.uniform(-1, 1, (2, gdim))
    n = t.rng.choice([1, 2, 3, 7])
    t.input(A.tolist(), B.tolist(), n)
    mesh = mod.StraightLineMesh(A, B, n)
    t.expect(mesh.num_cells() == n and mesh.num_vertices() == n + 1, 'number of cells')
    P = [A + (B - A) * k / n for k in range(n + 1)]
    x = mesh.coordinates()
    have = sorted(tuple(sorted(rnd(x[v]) for v in c)) for c in mesh.cells())
    t.expect(have == sorted(tuple(sorted((rnd(a), rnd(b)))) for a, b in zip(P[:-1], P[1:])), 'cells')


def pieces(t, i):
    """Meshes that share boundary vertices only"""
    k = i % 5
    if k == 0:
        n, m = t.rng.choice([1, 2, 3]), t.rng.choice([1, 2])
        h = t.rng.randint(1, 3)
        out = [df.RectangleMesh(df.Point(a * .5, b * .5), df.Point(a * .5 + .5, b * .5 + .5), h, h) for a in range(n) for b in range(m)]
    elif k == 1:
        n, h = t.rng.randint(2, 3), t.rng.randint(1, 2)
        out = [df.BoxMesh(df.Point(a, 0, 0), df.Point(a + 1, 1, 1), h, h, h) for a in range(n)]
    elif k == 2:
        gdim = t.rng.choice([2, 3])
        o = t.np.uniform(-1, 1, gdim)
        out = []
        for a in range(t.rng.randint(2, 6)):
            e = t.np.uniform(-1, 1, gdim)
            s = np.linspace(0, 1, t.rng.randint(2, 5))
            if t.rng.random() < .5: s = s[::-1]
            out.append(build([o + y * e for y in s], [(j, j + 1) for j in range(len(s) - 1)], 1))
    elif k == 3:
        # In a loop: last piece meets the first
        n = t.rng.randint(3, 6)
        P = [np.array([np.cos(2 * np.pi * a / n), np.sin(2 * np.pi * a / n)]) for a in range(n)]
        out = [build([P[a], .5 * (P[a] + P[(a + 1) % n]), P[(a + 1) % n]], [(0, 1), (1, 2)], 1) for a in range(n)]
    else:
        # Possibly apart
        out = []
        for a in range(t.rng.randint(2, 5)):
            m = box(t, 2, 2)
            m.coordinates()[:, 0] += 10 * a
            out.append(m)
    out = [shuffled(t, m) if t.rng.random() < .5 else m for m in out]
    t.rng.shuffle(out)
    return out


def merged(t, u, parts, where):
    x = u.coordinates()
    want = sorted(tuple(sorted(rnd(y) for y in m.coordinates()[c])) for m in parts for c in m.cells())
    have = sorted(tuple(sorted(rnd(y) for y in x[c])) for c in u.cells())
    t.expect(have == want, where + ': every given cell once')
    t.expect(len({rnd(y) for y in x}) == len(x), where + ': matching vertices are one')
    t.expect({rnd(y) for y in x} == {rnd(y) for m in parts for y in m.coordinates()}, where + ': vertices are the given ones')
    leafs = getattr(u, 'leafs', None)
    t.expect(leafs is not None and sorted(l[0] for l in leafs) == sorted(m.id() for m in parts), where + ': the leafs are the given meshes')
    maps = {l[0]: l[1] for l in leafs}
    for m in parts:
        t.expect(len(maps[m.id()]) == m.num_vertices(), where + ': map of the vertices')
        t.close(x[np.asarray(maps[m.id()])], m.coordinates(), where + ': map of the vertices', 1e-11)


@case('C15', n=120, thorough=400)
def union(t, i):
    parts = pieces(t, i)
    t.input([describe(m) for m in parts])
    if t.rng.random() < .3 and i % 5 < 4:
        # Same meshes, all moved by the same map
        union_mesh(parts)
        s, b = t.rng.choice([.5, 2.]), t.np.randint(-2, 3, parts[0].geometry().dim())
        for m in parts: m.coordinates()[:] = s * m.coordinates() + b
    u = union_mesh(parts)
    if len(parts) == 1:
        t.expect(u is parts[0] or u.num_cells() == parts[0].num_cells(), 'nothing to do')
        return
    merged(t, u, parts, 'union')
    # Merged ones can be merged further
    if len(parts) > 2:
        a = union_mesh(parts[:2])
        before = list(a.leafs)
        b = union_mesh([a] + parts[2:])
        merged(t, b, parts, 'union of union')
        t.expect(len(a.leafs) == len(before), 'leafs of the argument are not changed')
        c = union_mesh(parts[2:] + [a])
        merged(t, c, parts, 'union with union')


@case('C15', n=120, thorough=400)
def union_network(t, i):
    """Branches of a network, tetrahedra of a box: vertices where pieces meet end up inside"""
    if i % 2:
        gdim = t.rng.choice([2, 3])
        n = t.rng.randint(3, 6)
        P = t.np.uniform(-3, 3, (n, gdim))
        pairs = [(a, b) for a in range(n) for b in range(a)]
        parts = []
        for a, b in t.rng.sample(pairs, t.rng.randint(3, min(len(pairs), 9))):
            s = np.linspace(0, 1, t.rng.randint(2, 4))
            X = [P[a] if y == 0 else P[b] if y == 1 else P[a] + y * (P[b] - P[a]) for y in s]
            parts.append(build(X, [(j, j + 1) for j in range(len(s) - 1)], 1))
    else:
        m = box(t, 2, 2) if i % 4 else box(t, 3, 2)
        d = m.topology().dim()
        cs = list(range(m.num_cells()))
        t.rng.shuffle(cs)
        k = t.rng.randint(3, 9)
        groups = [cs[a::k] for a in range(k)] if len(cs) <= 24 else [cs[a:a + 1] for a in range(k)]
        parts = []
        for g in groups:
            for c in (g if len(parts) < 12 else []):
                parts.append(build(m.coordinates()[m.cells()[c]], [tuple(range(d + 1))], d))
    parts = [shuffled(t, m) for m in parts]
    t.rng.shuffle(parts)
    t.input([describe(m) for m in parts])
    merged(t, union_mesh(parts), parts, 'union of a network')


@case('C15', n=30, thorough=60)
def union_tol(t, i):
    """Vertices that agree up to the tolerance are identified, others not"""
    eps = 10. ** -t.rng.randint(4, 9)
    n = t.rng.choice([2, 3, 4])
    parts = []
    for a in range(n):
        m = df.UnitSquareMesh(1, 2)
        m.coordinates()[:, 0] += a
        m.coordinates()[:] += eps * (a % 2) * .1
        parts.append(m)
    t.input(eps, n)
    u = union_mesh(parts, tol=eps)
    t.expect(u.num_vertices() == 6 + 3 * (n - 1), 'within the tolerance', '%d' % u.num_vertices())
    v = union_mesh(parts, tol=eps * 1e-3)
    t.expect(v.num_vertices() == 6 * n, 'outside of the tolerance')


@case('C15', n=60, thorough=120)
def from_arrays(t, i):
    mesh = meshes(t, i)
    tdim, gdim = mesh.topology().dim(), mesh.geometry().dim()
    x, c = mesh.coordinates().copy(), mesh.cells().copy()
    t.input(describe(mesh))
    m = make_mesh(x, c, tdim, gdim)
    t.close(m.coordinates(), x, 'coordinates', 0)
    t.expect([set(a) for a in m.cells()] == [set(a) for a in c], 'cells')
