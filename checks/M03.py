'''Mortar decomposition'''
from xii import *
from meshes import *
from xii.meshing.mortar_mesh import is_continuous

BOOST = 8
RULE = ('Case = (mesh of a square/cube with any diagonals, graded, perturbed, mapped (also far from the origin); subdomains as random or connected regions of cells; the markers in any order, all or some; '
        'facets to be considered; strict or not). Non-trivial: there is an interface.')
ASSUMPTIONS = ['dolfin mesh connectivity']


def connected(mesh):
    '''As a set'''
    groups = {v: v for v in range(mesh.num_vertices())}
    def root(v):
        while groups[v] != v:
            v = groups[v]
        return v
    for c in mesh.cells():
        for v in c[1:]:
            groups[root(v)] = root(c[0])
    return len({root(v) for v in groups}) == 1


def body(s):
    mesh = mesh_of(s['mesh'])
    if s['far']:
        mesh.coordinates()[:] += np.array([123.4, -1234.5, 77.7])[:mesh.geometry().dim()]
    tdim = mesh.topology().dim()
    rng = rng_of(s['seed'])
    ntags = min(s['ntags'], mesh.num_cells())
    tags = [int(t) for t in rng.permutation(9)[:ntags]]
    f = df.MeshFunction('size_t', mesh, tdim, 0)
    mids = np.array([c.midpoint().array()[:tdim] for c in df.cells(mesh)])
    if s['regions']:
        seeds = mids[rng.permutation(len(mids))[:ntags]]
        which = np.argmin(np.linalg.norm(mids[:, None]-seeds[None], axis=2), axis=1)
    else:
        which = rng.randint(ntags, size=len(mids))
    values = f.array()
    values[:] = [tags[w] for w in which]
    for i, t in enumerate(tags):
        if t not in values:
            values[i] = t
    tags = [t for t in tags if t in values]
    if len(tags) < 2:
        return None
    markers = tags if s['all'] else tags[:max(2, rng.randint(len(tags))+1)]
    markers = [markers[i] for i in rng.permutation(len(markers))]
    cells_of = entity_cells(mesh, tdim-1)
    # Our own
    allowed = None
    kwargs = {}
    if s['iter']:
        m = df.MeshFunction('size_t', mesh, tdim-1, 0)
        m.array()[:] = rng.uniform(size=m.size()) < 0.7
        allowed = set(map(int, m.where_equal(1)))
        kwargs['ifacet_iter'] = df.SubsetIterator(m, 1)
    pairs = {}
    for e, cs in enumerate(cells_of):
        if len(cs) == 2 and (allowed is None or e in allowed):
            t = {int(values[c]) for c in cs}
            if len(t) == 2 and t <= set(markers):
                pairs[e] = tuple(sorted(t))
    given = tuple(markers) if s['seed'] % 2 else list(markers)
    if not pairs:
        raises((AssertionError, ValueError), lambda: mortar_meshes(f, given, strict=False, **kwargs), 'no interface')
        return None
    submeshes, iface, colors = mortar_meshes(f, given, strict=False, **kwargs)
    what = f'mortar {tdim}d'
    # Submeshes
    require(len(submeshes) == len(markers), f'{what}: number of submeshes')
    for t, sub in zip(markers, submeshes):
        is_embedding(sub, f, [t], f'{what}: submesh')
    require(sum(m.num_cells() for m in submeshes) == int(np.sum(np.isin(values, markers))), f'{what}: cells of submeshes')
    # Interface as a mesh made of facets
    g = df.MeshFunction('size_t', mesh, tdim-1, len(colors))
    require(len({tuple(sorted(c)) for c in colors}) == len(colors), f'{what}: colors repeat {colors}')
    require({tuple(sorted(markers[i] for i in c)) for c in colors} == set(pairs.values()), f'{what}: colors are {colors} for markers {markers} expected {set(pairs.values())}')
    color_of = {tuple(sorted(markers[i] for i in c)): k for k, c in enumerate(colors)}
    for e, p in pairs.items():
        g[e] = color_of[p]
    is_embedding(iface, g, list(range(len(colors))), f'{what}: interface')
    parent = iface.parent_entity_map[mesh.id()][tdim-1]
    ikeys = entity_keys(iface, tdim-1)
    marks = iface.marking_function
    for k, sub in enumerate(submeshes):
        require(sub.id() in iface.parent_entity_map, f'{what}: no map to submesh {k}')
        maps = iface.parent_entity_map[sub.id()][tdim-1]
        require(isinstance(maps, dict), f'{what}: map to submesh {k} is {type(maps)}')
        want = [c for c in range(iface.num_cells()) if k in colors[marks[c]]]
        require(sorted(map(int, maps)) == want, f'{what}: cells mapped to submesh {k} are {sorted(maps)} expected {want}')
        skeys = entity_keys(sub, tdim-1)
        for c in want:
            require(skeys[int(maps[c])] == ikeys[c], f'{what}: cell {c} is mapped to other facet of submesh {k}')
    # Seen by traces
    if s['trace']:
        k = rng.randint(len(submeshes))
        mine = [c for c in range(len(colors)) if k in colors[c]]
        if mine:
            u = rand_fun(df.FunctionSpace(submeshes[k], 'CG', 1), s['seed'])
            dx = df.dx(domain=iface, subdomain_data=marks)
            x = iface.coordinates()
            sx = {key(y): u.vector()[d] for y, d in zip(u.function_space().tabulate_dof_coordinates(), range(u.function_space().dim()))}
            for c in mine:
                have = ii_assemble(Trace(u, iface, tag=c)*dx(c))
                sub = [i for i in range(iface.num_cells()) if marks[i] == c]
                expect = sum(df.Cell(iface, i).volume()*np.mean([sx[key(x[v])] for v in iface.cells()[i]]) for i in sub)
                close(have, expect, 1E-9, f'{what}: trace from submesh')
    # Strict
    ok = connected(iface)
    require(is_continuous(iface) == ok, f'{what}: is_continuous expected {ok}')
    kwargs = {}
    if not s['iter']:
        if ok:
            mortar_meshes(f, given)
        else:
            raises(AssertionError, lambda: mortar_meshes(f, given), 'disconnected interface')
    return f'{what} {len(markers)} {ok}'


def cases(d):
    return st.fixed_dictionaries(dict(mesh=MESH[d], seed=SEED, ntags=st.integers(2, 5), regions=st.sampled_from([True, True, False]), all=st.booleans(), iter=st.sampled_from([False, False, True]),
                                      far=st.booleans(), trace=st.booleans()))


SUBCHECKS = [Sub('2d', cases(2), body, quick=80, thorough=2000, chunks=4), Sub('3d', cases(3), body, quick=80, thorough=1500, chunks=4)]
