'''Meshes of curves and unions of meshes'''
from xii import *
from meshes import *
from xii.meshing.line_mesh import line_mesh as line_mesh_a, line, StraightLineMesh as straight_a
from xii.meshing.generation import line_mesh as line_mesh_b, StraightLineMesh as straight_b
from xii.meshing.union_mesh import union_mesh
from xii.meshing.make_mesh_cpp import make_mesh

BOOST = 4
RULE = 'Case = network given by branches (arrays of linked points), segment and number of cells, or mesh cut in parts by a cell function with an order/tree of the union. Non-trivial: at least 2 branches, 2 cells, 2 parts which touch.'
ASSUMPTIONS = ['dolfin mesh connectivity']


def body_branches(s):
    rng = rng_of(s['seed'])
    gdim = s['gdim']
    nodes = np.round(rng.uniform(-1, 1, (s['nodes'], gdim)), 6)
    branches, want = [], []
    for i, (a, b, m) in enumerate(s['branches']):
        a, b = a % len(nodes), b % len(nodes)
        if a == b:
            # Loop with at least 3 cells
            m = max(m, 2)
        inside = np.round(rng.uniform(-1, 1, (m, gdim)), 6)
        pts = np.vstack([nodes[a], inside, nodes[b]])
        if m == 0 and any({key(nodes[a]), key(nodes[b])} == {x, y} for x, y in want):
            # This edge is there already
            continue
        for p, q in zip(pts, pts[1:]):
            want.append((key(p), key(q)))
        if s['noise']:
            # Same but for rounding
            pts = pts.copy()
            pts[[0, -1]] += rng.choice([-1E-15, 0, 1E-15], (2, gdim))
        branches.append(pts)
    if not branches:
        return None
    make = [line_mesh_a, line_mesh_b][s['which']]
    mesh = make(branches)
    what = f'{len(branches)} branches in {gdim}d'
    require(mesh.topology().dim() == 1 and mesh.geometry().dim() == gdim, f'{what}: dimension')
    have = [k for k in entity_keys(mesh, 1)]
    require(sorted(have) == sorted(tuple(sorted(w)) for w in want), f'{what}: cells {len(have)} are not the {len(want)} segments')
    used = {p for w in want for p in w}
    points = [key(x) for x in mesh.coordinates()]
    require(sorted(points) == sorted(used), f'{what}: {len(points)} vertices expected {len(used)}')
    return f'{gdim}d' if len(branches) > 1 else None


def body_straight(s):
    rng = rng_of(s['seed'])
    gdim, n = s['gdim'], s['n']
    A, B = rng.uniform(-1, 1, (2, gdim))*[1, 100, 1E-2][rng.randint(3)]
    mesh = [straight_a, straight_b][s['which']](A, B, n)
    x = mesh.coordinates()
    require(mesh.topology().dim() == 1 and x.shape == (n+1, gdim) and mesh.num_cells() == n, f'{mesh.num_cells()} cells with {x.shape} vertices expected {n}')
    size = np.abs([A, B]).max()
    t = np.array([np.dot(y-A, B-A) for y in x])/np.dot(B-A, B-A)
    require(np.linalg.norm(x-(A+np.outer(t, B-A)), axis=1).max() < 1E-13*size*10, 'vertices are not on the line')
    order = np.argsort(t)
    close(t[order], np.linspace(0, 1, n+1), 1E-11, f'vertices of {n} cells')
    rank = np.argsort(order)
    require(sorted(tuple(sorted(rank[c])) for c in mesh.cells()) == [(i, i+1) for i in range(n)], 'cells are not between the neighbors')
    close(line(A, B, n+1), A+np.outer(np.linspace(0, 1, n+1), B-A), 1E-12*size, 'points on a line')
    return f'{gdim}d' if n > 1 else None


def body_make(s):
    '''Any mesh from its data'''
    mesh = network(s['mesh']) if 'parts' in s['mesh'] else mesh_of(s['mesh'])
    if s['surface'] and mesh.topology().dim() > 1:
        f, tags = mark_entities(mesh, mesh.topology().dim()-1, s['mark'])
        mesh = EmbeddedMesh(f, tags)
    x, cells = mesh.coordinates(), mesh.cells()
    kind = rng_of(s['mark']['seed']).randint(4)
    dtype = ['uintp', int, 'int32', 'uint32'][kind]
    x_ = x if kind else np.asfortranarray(x)
    other = make_mesh(x_, np.array(cells, dtype=dtype), mesh.topology().dim(), mesh.geometry().dim())
    require(np.array_equal(other.coordinates(), x), 'coordinates')
    require(np.array_equal(other.cells(), cells), 'cells')
    require(other.ufl_cell() == mesh.ufl_cell(), 'cell')
    # Into a given one
    given = df.Mesh()
    require(make_mesh(x, np.array(cells, dtype=dtype), mesh.topology().dim(), mesh.geometry().dim(), mesh=given) is given, 'filled other mesh')
    require(np.array_equal(given.cells(), cells), 'cells of the given mesh')
    return str(mesh.ufl_cell()) if len(cells) > 1 else None


def body_union(s):
    mesh = mesh_of(s['mesh'])
    tdim, gdim = mesh.topology().dim(), mesh.geometry().dim()
    if s['surface'] and tdim > 1:
        # Part of the plane in 3d
        x = mesh.coordinates()
        if tdim == 2:
            new = np.c_[x, x@[0.3, -0.7]]
            mesh = make_mesh(new, mesh.cells(), 2, 3)
            gdim = 3
    rng = rng_of(s['seed'])
    f = df.MeshFunction('size_t', mesh, tdim, 0)
    n = s['n']
    if s['how'] == 'random':
        f.array()[:] = rng.randint(0, n, mesh.num_cells())
    else:
        # Slabs
        mids = np.array([c.midpoint().array()[:gdim] for c in df.cells(mesh)])@rng.uniform(-1, 1, gdim)
        f.array()[:] = np.searchsorted(np.quantile(mids, np.linspace(0, 1, n+1)[1:-1]), mids)
    tags = rng.permutation(sorted(set(map(int, f.array()))))
    parts = [EmbeddedMesh(f, int(t)) for t in tags]
    before = [(p.coordinates().copy(), p.cells().copy()) for p in parts]
    # Vertices on the boundary are those that can be shared
    which = [set(p.parent_entity_map[mesh.id()][0].values()) for p in parts]
    made = []

    def glue(meshes):
        if len(meshes) == 1:
            return meshes[0]
        if s['tree'] == 0 or len(meshes) == 2:
            u = union_mesh(meshes if s['tree'] < 2 else tuple(meshes))
        elif s['tree'] == 1:
            k = 1+rng.randint(len(meshes)-1)
            u = union_mesh([glue(meshes[:k]), glue(meshes[k:])])
        else:
            u = meshes[0]
            for m in meshes[1:]:
                u = union_mesh([u, m])
                made.append((u, [l for l in u.leafs]))
        made.append((u, [l for l in u.leafs]))
        return u

    union = glue(parts)
    if len(parts) == 1:
        require(union is parts[0], 'union of a single mesh')
        return None
    what = f'{len(parts)} parts of {tdim}d in {gdim}d'
    for p, (x, c) in zip(parts, before):
        require(np.array_equal(p.coordinates(), x) and np.array_equal(p.cells(), c), f'{what}: part was changed')
    y = union.coordinates()
    require(sorted(entity_keys(union, tdim)) == sorted(entity_keys(mesh, tdim)), f'{what}: cells')
    require(sorted(map(key, y)) == sorted(map(key, mesh.coordinates())), f'{what}: vertices {len(y)} expected {mesh.num_vertices()}')
    # Maps from the parts; in all the unions also after they are used
    for u, leafs in made:
        now = [int(id_) for id_, _ in u.leafs]
        require(now == [int(id_) for id_, _ in leafs], f'{what}: leafs changed to {now}')
        require(len(set(now)) == len(now), f'{what}: leafs {now}')
        z = u.coordinates()
        for id_, vmap in u.leafs:
            part = [p for p in parts if p.id() == id_]
            require(len(part) == 1, f'{what}: leaf {id_} is not a part')
            x = part[0].coordinates()
            require(len(vmap) == len(x), f'{what}: map of a leaf has {len(vmap)} values for {len(x)} vertices')
            require(np.abs(z[np.array(vmap, dtype=int)]-x).max() < 1E-11, f'{what}: map of a leaf')
    require(sorted(int(i) for i, _ in union.leafs) == sorted(p.id() for p in parts), f'{what}: leafs are not the parts')
    return what if any(which[i] & which[j] for i in range(len(which)) for j in range(i)) else None


BRANCHES = st.fixed_dictionaries(dict(seed=SEED, gdim=st.sampled_from([2, 3]), nodes=st.integers(1, 5), noise=st.booleans(), which=st.integers(0, 1),
                                      branches=st.lists(st.tuples(st.integers(0, 4), st.integers(0, 4), st.integers(0, 4)).map(list), min_size=1, max_size=6)))
STRAIGHT = st.fixed_dictionaries(dict(seed=SEED, gdim=st.sampled_from([2, 3]), n=st.integers(1, 12), which=st.integers(0, 1)))
MAKE = st.fixed_dictionaries(dict(mesh=st.one_of(MESH[2], MESH[3], MESH[1], NETWORK), mark=MARK, surface=st.booleans()))
# NOTE: vertices of the interface must be on boundaries of the parts
UNION = st.fixed_dictionaries(dict(mesh=st.one_of(MESH[2], MESH[3], MESH[1]), seed=SEED, n=st.integers(1, 5), how=st.sampled_from(['random', 'slab']), tree=st.integers(0, 2), surface=st.booleans()))

SUBCHECKS = [Sub('branches', BRANCHES, body_branches, quick=2000, thorough=5000, chunks=2), Sub('straight', STRAIGHT, body_straight, quick=600, thorough=2000, chunks=1),
             Sub('make', MAKE, body_make, quick=400, thorough=2000, chunks=2), Sub('union', UNION, body_union, quick=1500, thorough=12000, chunks=3)]
