'''Geometry of meshes and their maps'''
from lib import *


def key(x):
    return tuple(np.round(x, 10) + 0.)


def entity_keys(mesh, dim):
    '''Geometry of each entity'''
    x = mesh.coordinates()
    if dim == 0:
        return [(key(y), ) for y in x]
    mesh.init(dim, 0)
    e2v = mesh.topology()(dim, 0)
    return [tuple(sorted(key(x[v]) for v in e2v(e))) for e in range(mesh.num_entities(dim))]


def is_embedding(emesh, f, tags, what):
    '''emesh is made of entities marked by f with tags'''
    mesh, dim = f.mesh(), f.dim()
    values = f.array()
    parent = entity_keys(mesh, dim)
    child = entity_keys(emesh, dim)
    require(emesh.topology().dim() == dim and emesh.geometry().dim() == mesh.geometry().dim(), f'{what}: dimension')
    wanted = [e for e in range(len(parent)) if values[e] in tags]
    require(sorted(child) == sorted(parent[e] for e in wanted), f'{what}: {len(child)} cells are not the {len(wanted)} marked entities')
    # Vertices; precisely
    used = sorted({v for e in wanted for v in df.MeshEntity(mesh, dim, e).entities(0)})
    x, y = mesh.coordinates(), emesh.coordinates()
    require(len(y) == len(used), f'{what}: {len(y)} vertices expected {len(used)}')
    maps = emesh.parent_entity_map
    require(mesh.id() in maps, f'{what}: no map to the parent')
    vmap, cmap = maps[mesh.id()][0], maps[mesh.id()][dim]
    require(sorted(vmap.keys()) == list(range(len(y))), f'{what}: keys of vertex map')
    require(sorted(cmap.keys()) == list(range(emesh.num_cells())), f'{what}: keys of cell map')
    require(sorted(map(int, vmap.values())) == used, f'{what}: vertices of the parent')
    require(sorted(map(int, cmap.values())) == wanted, f'{what}: entities of the parent')
    for v in range(len(y)):
        require(np.array_equal(y[v], x[vmap[v]]), f'{what}: vertex {v} at {y[v]} is mapped to one at {x[vmap[v]]}')
    marks = emesh.marking_function
    require(marks.dim() == dim and marks.mesh().id() == emesh.id(), f'{what}: marking function')
    e2v = emesh.cells()
    for c in range(emesh.num_cells()):
        require(child[c] == parent[cmap[c]], f'{what}: cell {c} is not the entity {cmap[c]}')
        require({int(vmap[v]) for v in e2v[c]} == set(map(int, df.MeshEntity(mesh, dim, int(cmap[c])).entities(0))), f'{what}: cell {c} has other vertices')
        require(marks[c] == values[cmap[c]], f'{what}: cell {c} is marked {marks[c]} entity has {values[cmap[c]]}')
    require(set(emesh.tagged_cells) == set(tags), f'{what}: tagged cells')
    require(any(m.id() == mesh.id() for m in emesh.parent_meshes), f'{what}: parent mesh')


def other_view(emesh, mesh, seed):
    '''Mesh which has all cells of the mesh in a different order (or part of those)'''
    rng = rng_of(seed)
    tdim = mesh.topology().dim()
    x, cells = mesh.coordinates(), mesh.cells()
    keep = cells[rng.permutation(len(cells))[:max(1, int(len(cells)*[1, 1, 0.5][rng.randint(3)]))]]
    used = rng.permutation(np.unique(keep))
    table = {v: i for i, v in enumerate(used)}
    other = df.Mesh()
    ed = df.MeshEditor()
    ed.open(other, {1: 'interval', 2: 'triangle', 3: 'tetrahedron'}[tdim], tdim, x.shape[1])
    ed.init_vertices(len(used))
    ed.init_cells(len(keep))
    for i, v in enumerate(used):
        ed.add_vertex(i, x[v])
    for i, c in enumerate(keep):
        ed.add_cell(i, np.array(sorted(table[v] for v in c), dtype='uintp'))
    ed.close()
    return other


def markers_of(emesh, g, child, tags, what):
    '''child are the markers of g carried to the embedded mesh'''
    mesh, dim = g.mesh(), g.dim()
    table = dict(zip(entity_keys(mesh, dim), g.array()))
    # For it to be an entity of emesh we have to have it in the cells
    for e, k in enumerate(entity_keys(emesh, dim)):
        want = table[k] if table[k] in tags else 0
        require(child[e] == want, f'{what}: entity at {k} has {child[e]} expected {want}')


# Strategies by dimension
MESH = {2: mesh2d(4), 3: mesh3d(2), 1: st.fixed_dictionaries(dict(k=st.just('line'), n=st.tuples(st.integers(1, 6)).map(list), jit=st.none() | SEED, aff=st.integers(0, 3), refine=st.none()))}


# Networks of lines. {'parts': [kind, ..], 'gdim': 2|3, 'seed': SEED, 'len': max number of cells of a piece}
PARTS = ['path', 'loop', 'star', 'theta', 'eight', 'lollipop', 'tree', 'dumbbell']


def network_edges(s):
    '''-> number of vertices, edges (before renumbering)'''
    rng = rng_of(s['seed'])
    edges, n = [], 0

    def path(a, b, m):
        '''From vertex a to vertex b by m edges'''
        nonlocal n
        last = a
        for _ in range(m-1):
            edges.append((last, n))
            last = n
            n += 1
        edges.append((last, b))

    def vertex():
        nonlocal n
        n += 1
        return n-1

    length = lambda lo=1: lo + rng.randint(s['len'])
    for part in s['parts']:
        a = vertex()
        if part == 'path':
            path(a, vertex(), length())
        elif part == 'loop':
            path(a, a, length(3))
        elif part == 'star':
            for _ in range(3+rng.randint(3)):
                path(a, vertex(), length())
        elif part == 'theta':
            b = vertex()
            path(a, b, length())
            path(a, b, length(2))
            path(a, b, length(2))
        elif part == 'eight':
            path(a, a, length(3))
            path(a, a, length(3))
        elif part == 'lollipop':
            path(a, a, length(3))
            path(a, vertex(), length())
        elif part == 'dumbbell':
            b = vertex()
            path(a, a, length(3))
            path(a, b, length())
            path(b, b, length(3))
        else:
            vs = [a]
            for _ in range(length(2)):
                b = vertex()
                edges.append((vs[rng.randint(len(vs))], b))
                vs.append(b)
    return n, edges


def network(s):
    from shapes import line_mesh
    n, edges = network_edges(s)
    rng = rng_of(s['seed']+1)
    perm = rng.permutation(n)
    cells = [(perm[a], perm[b]) for a, b in edges]
    rng.shuffle(cells)
    x = np.round(rng.uniform(-1, 1, (n, s['gdim'])), 6)
    return line_mesh(x, cells)


NETWORK = st.fixed_dictionaries(dict(parts=st.lists(st.sampled_from(PARTS), min_size=1, max_size=3), gdim=st.sampled_from([2, 3]), seed=SEED, len=st.integers(1, 5)))


def branches_of(mesh):
    '''Sets of cells which are connected through vertices with 2 cells; -> list of (cells, is_closed)'''
    v2c = {}
    for c, vs in enumerate(mesh.cells()):
        for v in vs:
            v2c.setdefault(int(v), []).append(c)
    group = list(range(mesh.num_cells()))
    def root(c):
        while group[c] != c:
            c = group[c]
        return c
    for v, cs in v2c.items():
        if len(cs) == 2:
            group[root(cs[0])] = root(cs[1])
    ans = {}
    for c in range(mesh.num_cells()):
        ans.setdefault(root(c), set()).add(c)
    out = []
    for cells in ans.values():
        count = {}
        for c in cells:
            for v in mesh.cells()[c]:
                count[int(v)] = count.get(int(v), 0)+1
        out.append((frozenset(cells), all(k % 2 == 0 for k in count.values())))
    return out
