'''Embedded meshes and their maps'''
from xii import *
from meshes import *
from xii.meshing.embedded_mesh import build_embedding_map

BOOST = 8
RULE = ('Case = (mesh of an interval/square/cube with any diagonals, graded, perturbed, mapped; dimension of entities; tags of entities; which tags and how they are given; '
        'markers of lower dimensional entities; the mesh is then embedded further or looked for in other meshes that share it). '
        'Non-trivial: some but not all entities are embedded or there are several tags.')
ASSUMPTIONS = ['dolfin mesh connectivity', 'vertices of generated meshes which coincide have the same coordinates']


def body(s):
    mesh = mesh_of(s['mesh'])
    tdim = mesh.topology().dim()
    dim = max(1, tdim - s['codim'])
    rng = rng_of(s['seed'])
    f, tags = mark_entities(mesh, dim, s['mark'])
    given = tags if s['some'] == 'all' else [tags[i] for i in rng.permutation(len(tags))[:1+rng.randint(len(tags))]]
    if s['zero'] and 0 in f.array():
        given = given + [0]
    given = [given[i] for i in rng.permutation(len(given))]
    arg = {'list': list, 'tuple': tuple, 'set': set}[s['how']](given)
    if len(given) == 1 and s['scalar']:
        arg = given[0]
    values = np.array(f.array())
    emesh = EmbeddedMesh(f, arg)
    what = f'entities of dim {dim} in {tdim}d'
    is_embedding(emesh, f, given, what)
    require(np.array_equal(f.array(), values), 'markers changed')

    # Markers of smaller entities
    if dim > 0:
        for edim in range(dim):
            mesh.init(edim)
            g = df.MeshFunction('size_t', mesh, edim, 0)
            g.array()[:] = rng.randint(0, 4, mesh.num_entities(edim)) if edim or True else 0
            present = sorted(set(map(int, g.array())))
            some = [t for t in present if t and rng.randint(3)] or [t for t in present if t]
            child = emesh.translate_markers(g)
            markers_of(emesh, g, child, present, f'{what} translate dim {edim}')
            if some:
                child = emesh.translate_markers(g, tags=tuple(some) if len(some) > 1 or rng.randint(2) else int(some[0]))
                markers_of(emesh, g, child, some, f'{what} translate dim {edim} some')
                # Into the existing one
                again = df.MeshFunction('size_t', emesh, edim, 0)
                for t in some:
                    emesh.translate_markers(g, tags=t, marker_f=again)
                markers_of(emesh, g, again, some, f'{what} translate dim {edim} in place')
            if dim == tdim:
                markers_of(emesh, g, transfer_markers(emesh, g), present, f'{what} transfer dim {edim}')
                if some:
                    markers_of(emesh, g, transfer_markers(emesh, g, set(some)), some, f'{what} transfer dim {edim} some')
            else:
                markers_of(emesh, g, transfer_markers(emesh, g), present, f'{what} transfer dim {edim}')

    # Look for it in another mesh
    if dim < tdim:
        other = other_view(emesh, mesh, s['seed'])
        okeys, ekeys = entity_keys(other, dim), entity_keys(emesh, dim)
        index = {k: e for e, k in enumerate(okeys)}
        h = df.MeshFunction('size_t', other, dim, 0)
        shared = [c for c, k in enumerate(ekeys) if k in index]
        for c in shared:
            h[index[ekeys[c]]] = 1 + rng.randint(2)
        hv = h.array()
        present = sorted({int(hv[index[ekeys[c]]]) for c in shared})
        look = present if s['some'] == 'all' else present[:1]
        if look:
            maps = emesh.compute_embedding(h, tuple(look) if len(look) > 1 else look[0])
            require(maps is emesh.parent_entity_map[other.id()], 'map is not remembered')
            want = {c: index[ekeys[c]] for c in shared if hv[index[ekeys[c]]] in look}
            require({int(k): int(v) for k, v in maps[dim].items()} == want, f'{what}: computed embedding {maps[dim]} expected {want}')
            x, y = emesh.coordinates(), other.coordinates()
            need = {int(v) for c in want for v in emesh.cells()[c]}
            require(need == set(map(int, maps[0])), f'{what}: vertices of computed embedding are {sorted(maps[0])} expected {sorted(need)}')
            for v, w in maps[0].items():
                require(np.linalg.norm(x[v]-y[w]) < 1E-12, f'{what}: computed embedding of vertex {v}')
            raises(ValueError, lambda: emesh.compute_embedding(h, look), 'embedding again')
            # The first one is fine
            is_embedding(emesh, f, given, what + ' after other embedding')

        # With no record
        keep = other_view(emesh, mesh, s['seed']+1) if s['seed'] % 2 else mesh
        index = {k: e for e, k in enumerate(entity_keys(keep, dim))}
        found = [c for c, k in enumerate(ekeys) if k in index]
        sub = df.MeshFunction('size_t', emesh, dim, 0)
        for c in found:
            sub[c] = 1 + rng.randint(3)
        look = [t for t in (1, 2, 3) if t in sub.array()][:1+rng.randint(3)]
        requests = [(sub, look)] if look else []
        if len(found) == emesh.num_cells():
            requests.append((None, None))
            requests.append((sub, None))
        for marks, t in requests:
            if t is None and marks is not None:
                marks = df.MeshFunction('size_t', emesh, dim, 0)
            maps = build_embedding_map(emesh, keep, marks, None if t is None else set(t), tol=1E-10)
            cells = [c for c in range(emesh.num_cells()) if t is None or sub[c] in t]
            require({int(k): int(v) for k, v in maps[dim].items()} == {c: index[ekeys[c]] for c in cells}, f'{what}: embedding map {marks, t}')
            need = {int(v) for c in cells for v in emesh.cells()[c]}
            require(need == set(map(int, maps[0])), f'{what}: vertices of embedding map {marks, t}')
            for v, w in maps[0].items():
                require(np.linalg.norm(emesh.coordinates()[v]-keep.coordinates()[w]) < 1E-10, f'{what}: embedding map of vertex {v}')

    # Further
    if dim > 1 and s['deeper']:
        below = dim - rng.randint(2) if s['deeper'] > 1 else dim - 1
        g, tags2 = mark_entities(emesh, below, dict(s['mark'], seed=s['seed']+1))
        third = EmbeddedMesh(g, tags2)
        is_embedding(third, g, tags2, what + ' embedded again')
    if not 0 < len(given):
        return None
    if emesh.num_cells() == mesh.num_entities(dim) and len(given) == 1:
        return None
    return f'{what} {s["mark"]["how"]}'


def body_skeleton(s):
    mesh = mesh_of(s['mesh'])
    tdim = mesh.topology().dim()
    cells = entity_cells(mesh, tdim-1)
    f = df.MeshFunction('size_t', mesh, tdim-1, 0)
    f.array()[:] = [1 if s['boundary'] or len(c) == 2 else 0 for c in cells]
    if 1 not in f.array():
        return None
    is_embedding(Skeleton(mesh, s['boundary']) if s['boundary'] or s['seed'] % 2 else Skeleton(mesh), f, [1], f'skeleton {s["boundary"]}')
    # Mesh of the boundary
    bm = df.BoundaryMesh(mesh, 'exterior')
    bm.parent_id = mesh.id()
    index = {k: e for e, k in enumerate(entity_keys(mesh, tdim-1))}
    want = {c: index[k] for c, k in enumerate(entity_keys(bm, tdim-1))}
    for known in (True, False):
        if not known:
            bm = df.Mesh(bm)
        maps = build_embedding_map(bm, mesh, tol=1E-10)
        require({int(k): int(v) for k, v in maps[tdim-1].items()} == want, f'boundary mesh {known}')
        for v in range(bm.num_vertices()):
            require(np.linalg.norm(bm.coordinates()[v]-mesh.coordinates()[maps[0][v]]) < 1E-10, f'boundary mesh vertex {known}')
    return f'skeleton {tdim} {s["boundary"]}'


def cases(tdim):
    return st.fixed_dictionaries(dict(mesh=MESH[tdim], mark=MARK, codim=st.integers(0, tdim-1), seed=SEED, some=st.sampled_from(['all', 'some']), zero=st.booleans(),
                                      how=st.sampled_from(['list', 'tuple', 'set']), scalar=st.booleans(), deeper=st.integers(0, 2)))


SUBCHECKS = [Sub('2d', cases(2), body, quick=90, thorough=2000, chunks=2),
             Sub('3d', cases(3), body, quick=60, thorough=1200, chunks=4),
             Sub('1d', cases(1), body, quick=30, thorough=300),
             Sub('skeleton', st.fixed_dictionaries(dict(mesh=st.one_of(MESH[2], MESH[3]), boundary=st.booleans(), seed=SEED)), body_skeleton, quick=50, thorough=600)]
