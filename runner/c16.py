"""C16 on concrete networks and surfaces; oracle: incidence of segments and elementary geometry"""
import numpy as np
import networkx as nx
from runner.base import case, Skip
from runner.geo import *
from xii import EmbeddedMesh, OuterNormal, InnerNormal, TangentCurve
from xii.meshing import embedded_mesh as em
from xii.meshing.branching import color_branches, walk_vertices, walk_cells, is_loop, refine_contour, is_inside_contour
from xii.meshing import branching as br


def network(t, gdim, simple=None):
    """Segments of a random network: branches between nodes, loops at a node, closed loops apart, isolated branches"""
    n = t.rng.randint(2, 5)
    X = [t.np.uniform(-1, 1, gdim) for _ in range(n)]
    cells = []
    def path(a, b, m):
        ids = [a]
        for _ in range(m):
            X.append(t.np.uniform(-3, 3, gdim))
            ids.append(len(X) - 1)
        ids.append(b)
        cells.extend(zip(ids[:-1], ids[1:]))
    kind = simple or t.rng.choice(['net', 'net', 'net', 'path', 'loop', 'loops', 'mixed', 'lollipop', 'theta', 'eight'])
    if kind in ('net', 'mixed'):
        for _ in range(t.rng.randint(1, 7)):
            a, b = t.rng.randrange(n), t.rng.randrange(n)
            m = t.rng.randint(0, 4)
            if a == b: m = max(m, 2)
            elif m == 0 and any(set(c) == {a, b} for c in cells): continue
            path(a, b, m)
    if kind == 'path': path(0, 1, t.rng.randint(0, 6))
    if kind in ('loop', 'loops', 'mixed', 'eight'): path(0, 0, t.rng.randint(2, 6)) if kind != 'mixed' else None
    if kind == 'eight': path(0, 0, t.rng.randint(2, 4))
    if kind in ('loops', 'mixed'):
        for _ in range(t.rng.randint(1, 2)):
            X.append(t.np.uniform(-1, 1, gdim))
            a = len(X) - 1
            path(a, a, t.rng.randint(2, 5))
    if kind == 'lollipop':
        path(0, 1, t.rng.randint(0, 3))
        path(1, 1, t.rng.randint(2, 5))
    if kind == 'theta':
        path(0, 1, t.rng.randint(0, 3))
        path(1, 0, t.rng.randint(1, 3))
        path(0, 1, t.rng.randint(1, 4))
    used = sorted({v for c in cells for v in c})
    new = {v: i for i, v in enumerate(used)}
    cells = [(new[a], new[b]) for a, b in cells]
    X = np.array([X[v] for v in used])
    p = t.np.permutation(len(X))
    Y = np.zeros_like(X)
    Y[p] = X
    cells = [(p[a], p[b]) if t.rng.random() < .5 else (p[b], p[a]) for a, b in cells]
    if t.rng.random() < .8: t.rng.shuffle(cells)
    return build(Y, cells, 1)


def degrees(mesh):
    d = np.zeros(mesh.num_vertices(), dtype=int)
    for c in mesh.cells(): d[c] += 1
    return d


def oracle(mesh):
    """Branches: classes of segments joined through vertices of degree two; True for closed ones"""
    d = degrees(mesh)
    g = nx.Graph()
    g.add_nodes_from(range(mesh.num_cells()))
    at = {}
    for k, c in enumerate(mesh.cells()):
        for v in c: at.setdefault(v, []).append(k)
    for v, ks in at.items():
        if d[v] == 2: g.add_edge(*ks)
    out = {}
    for comp in nx.connected_components(g):
        count = {}
        for k in comp:
            for v in mesh.cells()[k]: count[v] = count.get(v, 0) + 1
        out[frozenset(comp)] = all(x == 2 for x in count.values())
    return out


def what(mesh): return 'segments %s' % mesh.cells().tolist()


@case('C16', n=750, thorough=3000)
def colors(t, i):
    mesh = network(t, t.rng.choice([2, 3]))
    t.input(what(mesh))
    f, branches, loops = color_branches(mesh)
    if t.rng.random() < .3:        # the answer is new each time
        f.array()[:] = 77
        relocate(t, mesh)
        f, branches, loops = color_branches(mesh)
    v = f.array()
    t.expect(f.dim() == 1 and len(v) == mesh.num_cells(), 'cell function')
    t.expect(v.min() > 0, 'every cell has a color')
    want = oracle(mesh)
    have = {}
    for k, c in enumerate(v): have.setdefault(int(c), set()).add(k)
    t.expect({frozenset(s) for s in have.values()} == set(want), 'colors are the branches',
             lambda: '%s wanted %s' % (v.tolist(), [sorted(s) for s in want]))
    t.expect(sorted(list(branches) + list(loops)) == sorted(have), 'colors are listed once')
    t.expect({int(c) for c in loops} == {c for c, s in have.items() if want.get(frozenset(s))}, 'loops are told from branches')
    d = degrees(mesh)
    t.expect(is_loop(mesh) == bool((d == 2).all()), 'is_loop')


@case('C16', n=360, thorough=1500)
def walks(t, i):
    mesh = network(t, t.rng.choice([2, 3]))
    if mesh.num_cells() < 2: raise Skip
    t.input(what(mesh))
    f, branches, loops = color_branches(mesh)
    cells = [set(c) for c in mesh.cells()]
    c2v = mesh.topology()(1, 0)
    mesh.init(0, 1)
    v2c = mesh.topology()(0, 1)
    for color in list(branches) + list(loops):
        loop = color in loops
        mine = [k for k in range(len(cells)) if f.array()[k] == color]
        vs = [int(v) for v in walk_vertices(f, color, is_loop=loop)]
        segs = [set(p) for p in zip(vs[:-1], vs[1:])]
        t.expect(len(segs) == len(mine) and all(s in [cells[k] for k in mine] for s in segs) and
                 len({frozenset(s) for s in segs}) == len(segs), 'walk visits the vertices of the branch in a linked way',
                 lambda: '%s on %s' % (vs, [sorted(cells[k]) for k in mine]))
        t.expect((vs[0] == vs[-1]) == loop, 'walk of a loop returns')
        if not loop:
            d = degrees(mesh)
            t.expect(d[vs[0]] >= d[vs[-1]], 'walk starts at the end with more branches')
        seq = list(walk_cells(f.array(), color, c2v, v2c, loop))
        t.expect(sorted(int(c) for c, _ in seq) == mine, 'cells of the branch once')
        t.expect(all([int(v) for v in (c2v(int(c)) if o else c2v(int(c))[::-1])] == [a, b]
                     for (c, o), a, b in zip(seq, vs[:-1], vs[1:])), 'orientation of cells in the walk')


@case('C16', n=60, thorough=200)
def walk_mesh(t, i):
    mesh = network(t, 2, t.rng.choice(['path', 'loop']))
    if mesh.num_cells() < 2: raise Skip
    loop = is_loop(mesh)
    t.input(what(mesh))
    vs = [int(v) for v in walk_vertices(mesh, is_loop=loop)]
    have = {frozenset(p) for p in zip(vs[:-1], vs[1:])}
    t.expect(len(vs) == mesh.num_cells() + 1 and have == {frozenset(int(v) for v in c) for c in mesh.cells()}, 'walk over the mesh', str(vs))


@case('C16', n=450, thorough=1500)
def tangents(t, i):
    gdim = t.rng.choice([2, 2, 3])
    mesh = network(t, gdim)
    d = degrees(mesh)
    roots = np.where(d == 1)[0]
    root = int(t.rng.choice(list(roots))) if len(roots) and t.rng.random() < .6 else None
    t.input(what(mesh), 'root %s' % root)
    if t.rng.random() < .3:
        # Of the mesh before it is moved, and oriented from elsewhere
        TangentCurve(mesh, int(t.rng.choice(list(roots)))) if len(roots) else TangentCurve(mesh)
        relocate(t, mesh)
    tau = TangentCurve(mesh, root) if root is not None else TangentCurve(mesh)
    V = tau.function_space()
    T = np.zeros((mesh.num_cells(), gdim))
    for k in range(mesh.num_cells()): T[k] = tau.vector().get_local()[V.dofmap().cell_dofs(k)]
    X = mesh.coordinates()
    E = np.array([X[b] - X[a] for a, b in mesh.cells()])
    L = np.linalg.norm(E, axis=1)
    t.close(np.linalg.norm(T, axis=1), np.ones(len(T)), 'unit', 1e-12)
    s = (T * E).sum(axis=1) / L
    t.close(np.abs(s), np.ones(len(T)), 'along the cell', 1e-12)
    # start and end of the cells in the direction of the tangent
    ends = [(a, b) if y > 0 else (b, a) for (a, b), y in zip(mesh.cells(), s)]
    bad = [v for v in np.where(d == 2)[0] if sum(e[0] == v for e in ends) != 1]
    t.expect(not bad, 'consistent along the branch', lambda: 'at vertices %s' % bad)
    if root is not None:
        t.expect([e for e in ends if root in e][0][0] == root, 'tangent leaves the root')


def patch(t, dim):
    """Box mesh with convex boundary"""
    m = box(t, dim, 3, bend=False)
    q, _ = np.linalg.qr(t.np.standard_normal((dim, dim)))
    m.coordinates()[:] = m.coordinates() @ q.T + t.np.uniform(-1, 1, dim)
    return m


def dg0(n):
    V = n.function_space()
    x = n.vector().get_local()
    return np.array([x[V.dofmap().cell_dofs(k)] for k in range(V.mesh().num_cells())])


def outward(mesh, facet):
    """Outer unit normal of an exterior facet and its midpoint"""
    tdim = mesh.topology().dim()
    mesh.init(tdim - 1, tdim)
    f2v, = entity_vertices(mesh, tdim - 1)[facet][None]
    X = mesh.coordinates()
    P = X[f2v]
    c = mesh.topology()(tdim - 1, tdim)(facet)[0]
    inner = X[mesh.cells()[c]].mean(axis=0)
    u, s, vt = np.linalg.svd(P[1:] - P[0])
    n = vt[-1]
    if n @ (inner - P[0]) > 0: n = -n
    return n


@case('C16', n=72, thorough=200)
def normals(t, i):
    dim = 2 if i % 3 else 3
    mesh = patch(t, dim)
    f = df.MeshFunction('size_t', mesh, dim - 1, 0)
    df.DomainBoundary().mark(f, 1)
    facets = np.where(f.array() == 1)[0]
    if t.rng.random() < .4:        # a part of the boundary
        for k in facets:
            if t.rng.random() < .5: f.array()[k] = 2
        if not (f.array() == 1).any(): f.array()[facets[0]] = 1
    emesh = EmbeddedMesh(f, 1)
    whole = not (f.array() == 2).any()
    mid = mesh.coordinates().mean(axis=0)
    lo, up = mesh.coordinates().min(axis=0), mesh.coordinates().max(axis=0)
    choices = ['point', 'list', 'mesh', 'facet', 'expr'] + (['none'] if whole else [])
    how = choices[i % len(choices)]
    if how == 'none': o = None
    elif how == 'point': o = mid
    elif how == 'list': o = tuple(mid) if t.rng.random() < .5 else list(mid)
    elif how == 'mesh': o = mesh
    elif how == 'facet': o = df.FacetNormal(mesh)
    else: o = df.Expression(['x[%d] - m%d' % (k, k) for k in range(dim)], degree=1, **{'m%d' % k: mid[k] for k in range(dim)})
    t.input(describe(mesh), 'orientation by ' + how, 'whole boundary' if whole else 'part')
    n = OuterNormal(emesh, o)
    C = emesh.parent_entity_map[mesh.id()][dim - 1]
    want = np.array([outward(mesh, C[k]) for k in range(emesh.num_cells())])
    t.close(dg0(n), want, 'outer normal by ' + how, 1e-9)
    m = InnerNormal(emesh, o)
    t.close(dg0(m), -want, 'inner normal by ' + how, 1e-9)
    t.close(dg0(n), want, 'outer normal is not changed by the inner one', 1e-9)
    if how in ('mesh', 'facet', 'none', 'point') and t.rng.random() < .6:
        q, _ = np.linalg.qr(t.np.standard_normal((dim, dim)))
        for m in (mesh, emesh):
            m.coordinates()[:] = (m.coordinates() - mid) @ q.T + mid
            m.bounding_box_tree().build(m)
        want = np.array([outward(mesh, C[k]) for k in range(emesh.num_cells())])
        t.close(dg0(OuterNormal(emesh, o)), want, 'outer normal of the moved mesh by ' + how, 1e-9)


@case('C16', n=36, thorough=120)
def normals_markers(t, i):
    """Cells with markers: from higher to lower, outer on the boundary"""
    dim = 2 if i % 4 else 3
    mesh = patch(t, dim)
    c = df.MeshFunction('size_t', mesh, dim, 0)
    c.array()[:] = [t.rng.choice([1, 2, 5]) for _ in range(mesh.num_cells())]
    mesh.init(dim - 1, dim)
    f2c = mesh.topology()(dim - 1, dim)
    f = df.MeshFunction('size_t', mesh, dim - 1, 0)
    for k in range(mesh.num_facets()):
        cs = f2c(k)
        if len(cs) == 1 or c.array()[cs[0]] != c.array()[cs[1]]: f.array()[k] = 1
    emesh = EmbeddedMesh(f, 1)
    t.input(describe(mesh), c.array().tolist())
    n = dg0(OuterNormal(emesh, c))
    C = emesh.parent_entity_map[mesh.id()][dim - 1]
    X, cells = mesh.coordinates(), mesh.cells()
    want = []
    for k in range(emesh.num_cells()):
        y = outward(mesh, C[k])
        cs = sorted(f2c(C[k]), key=lambda q: -c.array()[q])
        if (X[cells[cs[0]]].mean(axis=0) - X[entity_vertices(mesh, dim - 1)[C[k]][0]]) @ y > 0: y = -y
        want.append(y)
    t.close(n, np.array(want), 'from higher to lower marker', 1e-9)


@case('C16', n=36, thorough=100)
def normals_inside(t, i):
    """Interfaces inside of the mesh, oriented by its facet normals: unit, normal; outer on the boundary"""
    dim = 2 if i % 3 else 3
    mesh = patch(t, dim)
    mesh.init(dim - 1, dim)
    f2c = mesh.topology()(dim - 1, dim)
    f = df.MeshFunction('size_t', mesh, dim - 1, 0)
    for k in range(mesh.num_facets()): f.array()[k] = int(t.rng.random() < .5)
    if not f.array().any(): f.array()[0] = 1
    emesh = EmbeddedMesh(f, 1)
    t.input(describe(mesh), f.array().tolist())
    n = dg0(OuterNormal(emesh, df.FacetNormal(mesh)))
    C = emesh.parent_entity_map[mesh.id()][dim - 1]
    for k in range(emesh.num_cells()):
        y = outward(mesh, C[k])
        if len(f2c(C[k])) == 1: t.close(n[k], y, 'outer normal on the boundary', 1e-9)
        else: t.close(np.outer(n[k], n[k]), np.outer(y, y), 'normal of an inner facet', 1e-9)


@case('C16', n=30, thorough=80)
def winding(t, i):
    """Sign by the orientation of the tangent, values by the position"""
    n = t.rng.randint(40, 60)
    a = 2 * np.pi * np.arange(n) / n
    P = np.c_[np.cos(a), np.sin(a)] * t.np.uniform(.8, 1.4, 2) + t.np.uniform(-5, 5, 2)
    mesh = shuffled(t, build(P, [(k, (k + 1) % n) for k in range(n)], 1))
    mid = P.mean(axis=0)
    pts = np.array([mid, mid + [5, 1], mid + .3 * (P[0] - mid), mid + 2.5 * (P[3] - mid)])
    t.input(P.tolist())
    tau = dg0(TangentCurve(mesh))
    x = mesh.coordinates()[mesh.cells()[0]].mean(axis=0) - mid
    s = np.sign(x[0] * tau[0][1] - x[1] * tau[0][0])
    w = em.wind_number(mesh, pts)
    t.close(np.abs(w), np.array([1, 0, 1, 0]), 'wind number', 2e-2)
    t.expect(w[0] * s > 0 and w[2] * s > 0, 'sign of the wind number is the orientation')
    t.expect(list(em.encloses_points(mesh, pts[[1, 0]])) == [False, True], 'enclosed points')
    Q = np.vstack([P, P[:1]])
    w = br.wind_number(Q, pts)
    t.close(w, np.array([1, 0, 1, 0]), 'wind number of a contour', 2e-2)
    t.expect(list(is_inside_contour(Q, pts)) == [True, False, True, False], 'inside a contour')
    t.close(br.wind_number(Q[::-1], pts), -np.array([1, 0, 1, 0]), 'wind number of a contour', 2e-2)


def polygon(t, n):
    a = np.sort(t.np.uniform(0, 2 * np.pi / n * .8, n) + 2 * np.pi * np.arange(n) / n)
    P = np.c_[np.cos(a), np.sin(a)] * t.np.uniform(.7, 1.5, 2) + t.np.uniform(-5, 5, 2)
    return P


@case('C16', n=72, thorough=200)
def closed_curves(t, i):
    n = t.rng.randint(8, 14)
    P = polygon(t, n)
    if t.rng.random() < .5: P = P[::-1]
    mesh = build(P, [(k, (k + 1) % n) for k in range(n)], 1)
    if t.rng.random() < .7: mesh = shuffled(t, mesh)
    mid = P.mean(axis=0)
    far = mid + t.np.uniform(3, 6, 2) * t.np.choice([-1, 1], 2)
    t.input(P.tolist(), far.tolist())
    w = em.wind_number(mesh, np.array([mid, far]))
    t.expect(abs(abs(w[0]) - 1) < .35 and abs(w[1]) < 1e-2, 'wind number', str(w))
    t.expect(list(em.encloses_points(mesh, np.array([far, mid, mid]))) == [False, True, True], 'enclosed points')
    for kw, s in ((dict(), 1), (dict(outside=far), 1), (dict(outside=mid), -1)):
        N = dg0(em.NormalCurve(mesh, **kw))
        X = mesh.coordinates()
        t.close(np.linalg.norm(N, axis=1), np.ones(n), 'normal of a curve is unit', 1e-9)
        t.close(np.array([N[k] @ (X[b] - X[a]) for k, (a, b) in enumerate(mesh.cells())]), np.zeros(n), 'normal is normal', 1e-9)
        out = np.array([N[k] @ (X[c].mean(axis=0) - mid) for k, c in enumerate(mesh.cells())])
        t.expect((s * out > 0).all(), 'normal of a curve points to the outside')


@case('C16', n=120, thorough=300)
def contours(t, i):
    n = t.rng.randint(6, 14)
    P = polygon(t, n)
    if t.rng.random() < .5: P = P[::-1]
    Q = np.vstack([P, P[:1]])
    mid = P.mean(axis=0)
    far = mid + t.np.uniform(3, 6, 2) * t.np.choice([-1, 1], 2)
    k = t.rng.randint(0, 4)
    t.input(P.tolist(), k)
    R = refine_contour(Q, k)
    t.expect(len(R) == n * 2 ** k + 1, 'number of points')
    want = [Q[j] + (Q[j + 1] - Q[j]) * m / 2 ** k for j in range(n) for m in range(2 ** k)] + [Q[0]]
    t.close(R, np.array(want), 'refined contour', 1e-12)
    w = br.wind_number(Q, np.array([mid, far]), nrefs=4)
    t.close(np.abs(w), np.array([1., 0.]), 'wind number of a contour', 2e-2)
    t.expect(list(is_inside_contour(Q, np.array([mid, far]), nrefs=4)) == [True, False], 'inside a contour')
