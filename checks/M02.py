'''Submeshes and overlaps'''
from xii import *
from meshes import *

BOOST = 4
RULE = ('Case = (mesh of an interval/square/cube with any diagonals, graded, perturbed, mapped; tags of cells of which one is common to two submeshes (made from the mesh, or from a submesh of it)). '
        'Non-trivial: the overlap is not all of a submesh.')
ASSUMPTIONS = ['dolfin mesh connectivity', 'vertices of generated meshes which coincide have the same coordinates']


def check_map(emesh, mesh, what):
    '''Map from the cells and vertices of emesh to those of mesh'''
    tdim = mesh.topology().dim()
    maps = emesh.parent_entity_map[mesh.id()]
    v, c = maps[0], maps[tdim]
    require(isinstance(v, dict) and isinstance(c, dict), f'{what}: maps are {type(v), type(c)}')
    require(sorted(v) == list(range(emesh.num_vertices())), f'{what}: vertices')
    require(sorted(c) == list(range(emesh.num_cells())), f'{what}: cells')
    x, y = emesh.coordinates(), mesh.coordinates()
    for i in v:
        require(np.linalg.norm(x[i]-y[v[i]]) < 1E-12, f'{what}: vertex {i}')
    for i in c:
        require({int(v[k]) for k in emesh.cells()[i]} == set(map(int, mesh.cells()[int(c[i])])), f'{what}: cell {i}')


def body(s):
    mesh = mesh_of(s['mesh'])
    tdim = mesh.topology().dim()
    rng = rng_of(s['seed'])
    f, tags = mark_entities(mesh, tdim, dict(s['mark'], ntags=min(s['mark']['ntags'], mesh.num_cells())))
    values = f.array()
    if s['zero'] and 0 in values:
        tags = tags + [0]
    rng.shuffle(tags)
    common, rest = tags[0], tags[1:]
    k = rng.randint(len(rest)+1) if rest else 0
    one, two = [common] + rest[:k], [common] + rest[k:]
    rng.shuffle(one), rng.shuffle(two)
    parent, g = mesh, f
    if s['nested']:
        # Submesh of submesh
        parent = SubDomainMesh(f, tags)
        g = parent.marking_function
        is_embedding(parent, f, tags, 'parent')
    mesh1, mesh2 = SubDomainMesh(g, one if len(one) > 1 or s['seed'] % 2 else one[0]), SubDomainMesh(g, tuple(two))
    is_embedding(mesh1, g, one, 'submesh')
    is_embedding(mesh2, g, two, 'other submesh')
    emesh = OverlapMesh(mesh1, mesh2)
    is_embedding(emesh, mesh1.marking_function, [common], 'overlap')
    for m in (mesh1, mesh2):
        check_map(emesh, m, 'overlap')
    require(sorted(entity_keys(emesh, tdim)) == sorted(x for x, t in zip(entity_keys(parent, tdim), g.array()) if t == common), 'cells of the overlap')
    for m in (mesh1, mesh2):
        for edim in range(tdim):
            h = df.MeshFunction('size_t', m, edim, 0)
            m.init(edim)
            h.array()[:] = rng.randint(0, 3, m.num_entities(edim))
            present = sorted(set(map(int, h.array())))
            markers_of(emesh, h, emesh.translate_markers(h), present, f'overlap translate dim {edim}')
            markers_of(emesh, h, transfer_markers(emesh, h), present, f'overlap transfer dim {edim}')
    # Functions
    V = df.FunctionSpace(mesh1, 'DG', 1)
    W = df.FunctionSpace(mesh2, 'CG', 1)
    u, w = rand_fun(V, s['seed']), rand_fun(W, s['seed'])
    dx = df.dx(domain=emesh)
    integral = df.dx(domain=mesh1, subdomain_data=mesh1.marking_function)
    close(ii_assemble(Restriction(u, emesh)*dx), df.assemble(u*integral(common)), 1E-10, 'restriction from the first')
    integral = df.dx(domain=mesh2, subdomain_data=mesh2.marking_function)
    close(ii_assemble(Restriction(w, emesh)**2*dx), df.assemble(w**2*integral(common)), 1E-10, 'restriction from the second')
    # Tags have to be unique
    if len(rest) > 0:
        raises(AssertionError, lambda: OverlapMesh(mesh1, SubDomainMesh(g, one)) if len(one) > 1 else OverlapMesh(SubDomainMesh(g, two), mesh2), 'overlap with several tags')
    if k < len(rest) and k > 0:
        raises(AssertionError, lambda: OverlapMesh(SubDomainMesh(g, rest[:k]), SubDomainMesh(g, rest[k:])), 'no overlap')
    return f'overlap {tdim}d {"nested" if s["nested"] else ""}' if rest else None


SUBCHECKS = [Sub(f'{d}d', st.fixed_dictionaries(dict(mesh=MESH[d], mark=MARK, seed=SEED, zero=st.booleans(), nested=st.booleans())), body, quick=80 if d > 1 else 40, thorough=1500, chunks=3 if d > 1 else 1) for d in (1, 2, 3)]
