"""C19 on concrete decompositions; oracle: tags of cells on both sides of facets, vertex coordinates"""
import numpy as np
import networkx as nx
from runner.base import case, Skip
from runner.geo import *
from xii import mortar_meshes, Trace, ii_assemble, ii_convert
from xii.meshing.mortar_mesh import is_continuous
from xii.assembler.trace_matrix import trace_mat_no_restrict, trace_mat


def facets_between(mesh, tags, markers):
    """facet -> sorted tags of its cells for facets between different subdomains"""
    d = mesh.topology().dim()
    F = {f: k for k, f in enumerate(map(frozenset, entity_vertices(mesh, d - 1)))}
    cells = {}
    for c, vs in enumerate(mesh.cells()):
        for v in vs: cells.setdefault(F[frozenset(vs) - {v}], []).append(c)
    out = {}
    for f, cs in cells.items():
        if len(cs) == 2:
            a = sorted(int(tags[c]) for c in cs)
            if a[0] != a[1] and set(a) <= set(markers): out[f] = tuple(a)
    return out


def components(cells, share):
    """Number of connected components of cells connected if they have so many vertices in common"""
    G = nx.Graph()
    G.add_nodes_from(range(len(cells)))
    at = {}
    import itertools
    for k, c in enumerate(cells):
        for s in itertools.combinations(sorted(c), share): at.setdefault(s, []).append(k)
    for ks in at.values(): G.add_edges_from(zip(ks, ks[1:]))
    return nx.number_connected_components(G)


def decomposed(t, i):
    """Mesh and cell function; pieces are half planes so that interfaces are often connected, or random"""
    dim = [2, 2, 3, 2][i % 4]
    mesh = box(t, dim, 5 if dim == 2 else 2)
    if t.rng.random() < .5: mesh = shuffled(t, mesh)
    scale = t.rng.choice([1, 1, 1, 1e-3, 50.])
    if scale != 1: mesh.coordinates()[:] *= scale
    colors = t.rng.sample([0, 1, 2, 3, 5, 8, 21], t.rng.randint(2, 4))
    f = df.MeshFunction('size_t', mesh, dim, 0)
    x = np.array([mesh.coordinates()[c].mean(axis=0) for c in mesh.cells()])
    how = t.rng.choice(['planes', 'planes', 'random', 'ball'])
    if how == 'planes':
        w = t.np.standard_normal((2, dim))
        s = (x - x.mean(axis=0)) @ w.T > 0
        code = s[:, 0] + 2 * s[:, 1]
        f.array()[:] = [colors[k % len(colors)] for k in code]
    elif how == 'ball':
        r = np.linalg.norm(x - x.mean(axis=0), axis=1)
        f.array()[:] = [colors[int(k)] for k in r > np.median(r)]
    else: f.array()[:] = [t.rng.choice(colors) for _ in x]
    have = sorted(set(map(int, f.array())))
    if len(have) < 2: raise Skip
    markers = t.rng.sample(have, t.rng.randint(2, len(have)))
    return mesh, f, markers, how


@case('C19', n=1000, thorough=2500)
def mortar(t, i):
    mesh, f, markers, how = decomposed(t, i)
    tags = f.array().copy()
    d = mesh.topology().dim()
    want = facets_between(mesh, tags, markers)
    it, tol = None, 1e-10 * mesh.hmin()
    if t.rng.random() < .25:        # only some of the facets
        g = df.MeshFunction('size_t', mesh, d - 1, 0)
        some = [k for k in range(mesh.num_entities(d - 1)) if t.rng.random() < .6]
        for k in some: g[k] = 1
        it = df.SubsetIterator(g, 1)
        want = {k: v for k, v in want.items() if k in some}
    if not want: raise Skip
    fv = entity_vertices(mesh, d - 1)
    weak, strong = (components([set(fv[k]) for k in want], s) for s in (1, d - 1))
    t.input(describe(mesh), how, tags.tolist(), markers, 'facets %s' % (sorted(want) if it is not None else 'all'))
    asked = t.rng.choice([list, tuple])(markers)
    run = lambda strict: mortar_meshes(f, asked, ifacet_iter=it, strict=strict, tol=tol) if t.rng.random() < .5 else mortar_meshes(f, asked, it, strict)
    if weak > 1 and t.rng.random() < .5:
        t.raises(AssertionError, lambda: run(True), 'interface in pieces')
        return
    if t.rng.random() < .25:
        # Asked before with other markers and other cells
        first = f.array().copy()
        f.array()[:] = t.np.permutation(first)
        if facets_between(mesh, f.array(), markers): mortar_meshes(f, t.rng.sample(markers, len(markers)), strict=False, tol=tol)
        f.array()[:] = first
    subs, gamma, color_map = run(t.rng.random() < .5 and strong == 1)
    t.expect(np.array_equal(f.array(), tags), 'argument changed')
    t.expect(len(subs) == len(markers), 'number of submeshes')
    e2v, X, keys = entity_vertices(mesh, d), mesh.coordinates(), entity_keys(mesh, d)
    for m, sub in zip(markers, subs):
        cells = np.where(tags == m)[0]
        C = sub.parent_entity_map[mesh.id()][d]
        t.expect(sorted(map(int, C.values())) == cells.tolist() and sub.num_cells() == len(cells), 'cells of a submesh')
        k = entity_keys(sub, d)
        t.expect(all(k[c] == keys[C[c]] for c in range(sub.num_cells())), 'submesh cell is its parent')
        t.expect(set(sub.marking_function.array()) == {m}, 'marker of submesh')
    fkeys = entity_keys(mesh, d - 1)
    gkeys = entity_keys(gamma, d - 1)
    t.expect(gamma.topology().dim() == d - 1 and sorted(map(sorted, gkeys)) == sorted(sorted(fkeys[k]) for k in want), 'interface cells are the facets between subdomains')
    back = {fkeys[k]: v for k, v in want.items()}
    colors = gamma.marking_function.array()
    pairs = [tuple(markers[j] for j in ab) for ab in color_map]
    t.expect(len(set(map(frozenset, pairs))) == len(pairs), 'one color for each pair')
    t.expect(set(pairs) == set(want.values()), 'pairs of subdomains', lambda: '%s for %s' % (pairs, set(want.values())))
    if gkeys and set(gkeys) <= set(back):
        t.expect(all(pairs[int(c)] == back[k] for c, k in zip(colors, gkeys)), 'color is that of neighbours in order')
        P = gamma.parent_entity_map[mesh.id()][d - 1]
        t.expect(all(fkeys[P[c]] == gkeys[c] for c in range(gamma.num_cells())), 'map to facets of the mesh')
        for m, sub in zip(markers, subs):
            mine = [c for c in range(gamma.num_cells()) if m in back[gkeys[c]]]
            E = gamma.parent_entity_map[sub.id()][d - 1]
            sk = entity_keys(sub, d - 1)
            t.expect(isinstance(E, dict), 'map to a submesh is a map')
            t.expect(all(E[c] is not None and sk[E[c]] == gkeys[c] for c in mine), 'facet of the neighbour is the interface cell')
            t.expect(isinstance(E, dict) and set(E) == set(mine), 'only cells of the subdomain are mapped')
            # the two neighbours are what the color says
            for c in mine[:10]: t.expect(any(markers[j] == m for j in color_map[int(colors[c])]), 'neighbours')
    t.expect(all(s.id() in gamma.parent_entity_map for s in subs), 'every submesh is mapped')


@case('C19', n=240, thorough=600)
def traces(t, i):
    """Traces from both sides on the interface"""
    mesh, f, markers, how = decomposed(t, 4 * i + i % 4)
    d = mesh.topology().dim()
    want = facets_between(mesh, f.array(), markers)
    if not want: raise Skip
    t.input(describe(mesh), how, f.array().tolist(), markers)
    subs, gamma, color_map = mortar_meshes(f, markers, strict=False, tol=1e-10 * mesh.hmin())
    color = t.rng.randrange(len(color_map))
    cells = np.where(gamma.marking_function.array() == color)[0]
    for m in color_map[color]:
        sub = subs[m]
        V, Q = df.FunctionSpace(sub, 'CG', 1), df.FunctionSpace(gamma, 'DG', 1)
        x = V.tabulate_dof_coordinates().reshape((V.dim(), -1))
        w = t.np.standard_normal(x.shape[1])
        T = df.PETScMatrix(trace_mat_no_restrict(V, Q, gamma, (gamma.marking_function, {color}))).array()
        y = T @ (1 + x @ w)
        z = Q.tabulate_dof_coordinates().reshape((Q.dim(), -1))
        for c in cells: t.close(y[Q.dofmap().cell_dofs(c)], 1 + z[Q.dofmap().cell_dofs(c)] @ w, 'trace from a side', 1e-9)
        other = [k for k in range(gamma.num_cells()) if k not in cells]
        for c in other: t.close(y[Q.dofmap().cell_dofs(c)], np.zeros(d), 'nothing on other pieces', 0)


@case('C19', n=600, thorough=1500)
def continuous(t, i):
    """Curves and surfaces in one or in several pieces"""
    mesh, f, markers, how = decomposed(t, i)
    want = facets_between(mesh, f.array(), markers)
    if not want: raise Skip
    from xii import EmbeddedMesh
    d = mesh.topology().dim()
    g = df.MeshFunction('size_t', mesh, d - 1, 0)
    some = [k for k in want if t.rng.random() < t.rng.choice([.3, 1])] or [list(want)[0]]
    for k in some: g[k] = 1
    e = EmbeddedMesh(g, 1)
    fv = [set(c) for c in e.cells()]
    weak, strong = components(fv, 1), components(fv, d - 1)
    t.input(describe(mesh), [e.coordinates()[list(c)].round(3).tolist() for c in fv][:10])
    if (weak == 1) != (strong == 1): raise Skip
    t.expect(bool(is_continuous(e)) == (strong == 1), 'connected')
