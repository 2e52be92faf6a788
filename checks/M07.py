'''Centers of cells and facets'''
from xii import *
from meshes import *
from xii.meshing.cell_centers import CentroidVector, CircumVector, CircumDistance2, CentroidVector2, CircumVector2

BOOST = 3
RULE = 'Case = mesh (interval network, planar, surface in space, solid; graded, perturbed, mapped, cells in random order). Non-trivial: at least 2 cells; in facets at least one interior facet.'
ASSUMPTIONS = ['dolfin mesh connectivity and dofmaps']


def the_mesh(s):
    if 'parts' in s:
        return network(s)
    mesh = mesh_of(s['mesh'])
    if s['center']:
        # So that the centers might be at the origin
        x = mesh.coordinates()
        x -= 0.5*(x.min(axis=0) + x.max(axis=0))
    if s['surface']:
        tdim = mesh.topology().dim()
        f, tags = mark_entities(mesh, tdim-1, dict(s['mark'], how='boundary' if s['surface'] == 1 else 'random'))
        return EmbeddedMesh(f, tags)
    if s['shuffle'] is not None:
        mesh = other_view(mesh, mesh, s['shuffle'])
    return mesh


def vector_dofs(V, c):
    '''component x node'''
    n = V.num_sub_spaces()
    if not n:
        return np.array([V.dofmap().cell_dofs(c)])
    return np.array([V.sub(i).dofmap().cell_dofs(c) for i in range(n)])


def circumcenter(x):
    E = x[1:]-x[0]
    G = E@E.T
    y = np.linalg.solve(G, 0.5*np.diag(G))
    return x[0] + y@E, np.linalg.cond(G)


def centers_of(mesh, how):
    x = mesh.coordinates()
    if how == 'centroid':
        return np.array([x[c].mean(axis=0) for c in mesh.cells()])
    return np.array([circumcenter(x[c])[0] for c in mesh.cells()])


def body_cells(s):
    mesh = the_mesh(s)
    gdim, tdim = mesh.geometry().dim(), mesh.topology().dim()
    x = mesh.coordinates()
    scale = np.abs(x).max()
    for how, make in [('centroid', CellCentroid), ('circumcenter', CellCircumcenter)]:
        f = make(mesh)
        V = f.function_space()
        require(V.mesh().id() == mesh.id() and V.ufl_element().family() == 'Discontinuous Lagrange' and V.ufl_element().degree() == 0 and f.ufl_shape == (gdim, ), f'{how}: space')
        values = f.vector().get_local()
        for c, vs in enumerate(mesh.cells()):
            have = values[vector_dofs(V, c)[:, 0]]
            if how == 'centroid':
                want, tol = x[vs].mean(axis=0), 1E-12*scale
            else:
                want, cond = circumcenter(x[vs])
                tol = 1E-13*cond*max(scale, np.linalg.norm(want))+1E-12*scale
                if cond > 1E8:
                    continue
            require(np.linalg.norm(have-want) < tol, f'{how} of {tdim}d in {gdim}d cell {c}: {have} expected {want}')
    return f'{tdim}d in {gdim}d' if mesh.num_cells() > 1 else None


def body_facets(s):
    mesh = the_mesh(s)
    gdim, tdim = mesh.geometry().dim(), mesh.topology().dim()
    x = mesh.coordinates()
    cells_of = entity_cells(mesh, tdim-1)
    if max(map(len, cells_of)) > 2:
        return None
    fmid = np.array([f.midpoint().array()[:gdim] for f in df.facets(mesh)])
    scale = np.abs(x).max()
    what = f'{tdim}d in {gdim}d'

    def at_facets(f):
        V = f.function_space()
        values = f.vector().get_local()
        out = np.full((mesh.num_facets(), max(1, V.num_sub_spaces())), np.nan)
        for c in range(mesh.num_cells()):
            dofs = vector_dofs(V, c)
            for i, e in enumerate(df.Cell(mesh, c).entities(tdim-1)):
                out[e] = values[dofs[:, i]]
        return out

    close(at_facets(FacetCentroid(mesh)), fmid, 1E-11, f'{what}: facet centers')
    for how in ('centroid', 'circumcenter'):
        centers = centers_of(mesh, how)
        size = max(scale, np.abs(centers).max())
        tol = 1E-11*(size if how == 'centroid' else size*max(circumcenter(x[c])[1] for c in mesh.cells()))
        if tol > 1E-5*mesh.hmin():
            continue
        vector = at_facets({'centroid': CentroidVector, 'circumcenter': CircumVector}[how](mesh))
        for e, cs in enumerate(cells_of):
            want = centers[cs[0]] - (centers[cs[1]] if len(cs) == 2 else fmid[e])
            ok = np.linalg.norm(vector[e]-want) < tol or (len(cs) == 2 and np.linalg.norm(vector[e]+want) < tol)
            require(ok, f'{what} {how} vector of facet {e} with cells {cs}: {vector[e]} expected {want}')
        # NOTE: square root amplifies errors close to 0
        direct = np.array([np.linalg.norm(centers[cs[0]] - (centers[cs[1]] if len(cs) == 2 else fmid[e])) for e, cs in enumerate(cells_of)])
        have = at_facets({'centroid': CentroidDistance, 'circumcenter': CircumDistance}[how](mesh))[:, 0]
        bad = np.abs(have-direct) > tol
        require(not bad.any(), f'{what} {how} distance {have[bad]} expected {direct[bad]}')

        through = np.array([sum(np.linalg.norm(centers[c] - fmid[e]) for c in cs) for e, cs in enumerate(cells_of)])
        have = at_facets({'centroid': CentroidDistance2, 'circumcenter': CircumDistance2}[how](mesh))[:, 0]
        bad = np.abs(have-through) > tol
        require(not bad.any(), f'{what} {how} distance through facet center {have[bad]} expected {through[bad]}')
        # Both of the centers
        f = {'centroid': CentroidVector2, 'circumcenter': CircumVector2}[how](mesh)
        a, b = map(at_facets, f.split(deepcopy=True))
        for e, cs in enumerate(cells_of):
            p, q = centers[cs[0]], centers[cs[-1]]
            ok = min(np.linalg.norm(a[e]-p)+np.linalg.norm(b[e]-q), np.linalg.norm(a[e]-q)+np.linalg.norm(b[e]-p)) < 2*tol
            require(ok, f'{what} {how}: centers of facet {e} with cells {cs}: {a[e]}, {b[e]} expected {p}, {q}')
    return what if any(len(c) == 2 for c in cells_of) else None


def cases(d, surface):
    return st.fixed_dictionaries(dict(mesh=MESH[d], mark=MARK, surface=surface, center=st.booleans(), shuffle=st.none() | SEED))


CELLS = st.one_of(cases(2, st.sampled_from([0, 0, 2])), cases(3, st.integers(0, 2)), NETWORK)
TWO = st.fixed_dictionaries(dict(mesh=mesh2d(1, refine=False).map(lambda m: dict(m, aff=0)), mark=MARK, surface=st.just(0), center=st.booleans(), shuffle=st.none()))
FACETS = st.one_of(cases(2, st.just(0)), cases(3, st.integers(0, 1)), TWO)

SUBCHECKS = [Sub('cells', CELLS, body_cells, quick=120, thorough=4000, chunks=4), Sub('facets', FACETS, body_facets, quick=60, thorough=1500, chunks=4)]
