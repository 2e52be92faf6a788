'''Meshes from gmsh data'''
import sys, types
if 'gmsh' not in sys.modules:
    try:
        import gmsh
    except ImportError:
        # Functions below do not need it
        sys.modules['gmsh'] = types.ModuleType('gmsh')
from xii import *
from meshes import *
from xii.meshing.gmsh_interopt import mesh_from_gmsh, build_mesh
import ufl_legacy as ufl

BOOST = 12
RULE = 'Case = (mesh of a curve/plane/surface/solid, its numbering with gaps (nodes which are not in cells), tagged entities of some dimensions). Non-trivial: at least 2 cells and tagged entities of lower dimension.'
ASSUMPTIONS = ['gmsh data: node table (3d coordinates), element type -> topology and tags']
ELEMENT = {1: 1, 2: 2, 3: 4}


def body(s):
    mesh = mesh_of(s['mesh'])
    rng = rng_of(s['seed'])
    if s['surface']:
        f, tags = mark_entities(mesh, mesh.topology().dim()-1, s['mark'])
        mesh = EmbeddedMesh(f, tags)
    tdim = mesh.topology().dim()
    x = mesh.coordinates()
    x3 = np.zeros((len(x), 3))
    x3[:, :x.shape[1]] = x
    # Nodes and where the vertices are
    extra = rng.randint(0, 5) if s['gaps'] else 0
    nodes = rng.uniform(5, 6, (len(x)+extra, 3))
    place = rng.permutation(len(nodes))[:len(x)] if s['shuffle'] else np.sort(rng.permutation(len(nodes))[:len(x)])
    nodes[place] = x3
    data, tables = {}, {}
    for dim in [tdim]+[d for d in range(1, tdim) if d in s['dims']]:
        mesh.init(dim, 0)
        e2v = mesh.topology()(dim, 0)
        n = mesh.num_entities(dim)
        which = rng.permutation(n)
        if dim < tdim:
            which = which[:1+rng.randint(n)]
        tags = rng.randint(1, 5, len(which))*(0 if rng.randint(6) == 0 else 1)
        topology = np.array([rng.permutation(place[e2v(e)]) for e in which])
        data[dim] = {'topology': topology.astype([int, 'uint64'][s['unsigned']]), 'cell_data': tags}
        keys = entity_keys(mesh, dim)
        tables[dim] = {keys[e]: int(t) for e, t in zip(which, tags)}
    order = list(data)
    rng.shuffle(order)
    what = f'{tdim}d with {sorted(data)}'
    flat = np.linalg.norm(x3[:, 2]) < 1E-13
    new, fs = mesh_from_gmsh(nodes, {ELEMENT[d]: data[d] for d in order})
    gdim = 2 if flat else 3
    require(new.topology().dim() == tdim and new.geometry().dim() == gdim, f'{what}: {new.topology().dim()}d in {new.geometry().dim()}d')

    def keys_of(m, dim):
        if gdim == x.shape[1]:
            return entity_keys(m, dim)
        return [tuple(sorted(tuple(list(p)+[0.]*(x.shape[1]-gdim))[:x.shape[1]] for p in k)) for k in entity_keys(m, dim)]

    require(sorted(keys_of(new, tdim)) == sorted(tables[tdim]), f'{what}: cells')
    require(new.num_vertices() == len(x), f'{what}: {new.num_vertices()} vertices expected {len(x)}')
    # Cells are in the order
    k = keys_of(new, tdim)
    for dim, table in tables.items():
        if not any(table.values()):
            require(dim not in fs, f'{what}: function of untagged {dim}')
            continue
        f = fs[dim]
        require(f.dim() == dim and f.mesh().id() == new.id(), f'{what}: function for {dim}')
        for e, k in enumerate(keys_of(new, dim)):
            require(f[e] == table.get(k, 0), f'{what}: entity {k} of dim {dim} has {f[e]} expected {table.get(k, 0)}')
    require(set(fs) == {d for d, t in tables.items() if any(t.values())}, f'{what}: functions {set(fs)}')
    return what if new.num_cells() > 1 and len(data) > 1 else None


def body_build(s):
    mesh = mesh_of(s['mesh'])
    if s['surface']:
        f, tags = mark_entities(mesh, mesh.topology().dim()-1, s['mark'])
        mesh = EmbeddedMesh(f, tags)
    other = build_mesh(mesh.coordinates(), mesh.cells(), mesh.ufl_cell())
    require(np.array_equal(other.coordinates(), mesh.coordinates()) and np.array_equal(other.cells(), mesh.cells()) and other.ufl_cell() == mesh.ufl_cell(), 'other mesh')
    return str(mesh.ufl_cell())


CASE = dict(mesh=st.one_of(MESH[2], MESH[3]), mark=MARK, seed=SEED, gaps=st.booleans(), shuffle=st.booleans(), unsigned=st.integers(0, 1), dims=st.sampled_from([[], [1], [2], [1, 2], [1, 2]]), surface=st.sampled_from([False, False, True]))
CASE = st.fixed_dictionaries(CASE)

SUBCHECKS = [Sub('gmsh', CASE, body, quick=200, thorough=5000, chunks=4), Sub('build', CASE, body_build, quick=60, thorough=500, chunks=1)]
