'''Subdivision of cells'''
from xii import *
from meshes import *
from xii.meshing.refinement import centroid_refine, circumcenter_refine, inner_point_refine, point_is_inside, simplex_area
from xii.meshing.dual_mesh import dual_mesh
from checks.M07 import circumcenter

BOOST = 3
RULE = 'Case = (mesh: curve network, planar, surface in space, solid; mapped, perturbed, graded, in random order), method, number of refinements. Non-trivial: at least 2 cells.'
ASSUMPTIONS = ['dolfin mesh connectivity']


def measure(x):
    '''Of the simplex'''
    E = x[1:]-x[0]
    return np.sqrt(max(0, np.linalg.det(E@E.T)))/math.factorial(len(E))


def barycentric(x, p):
    '''Of points, + their distance from the plane of the simplex'''
    E = x[1:]-x[0]
    y, *_ = np.linalg.lstsq(E.T, (p-x[0]).T, rcond=None)
    return np.vstack([1-y.sum(axis=0), y]).T, np.linalg.norm(E.T@y-(p-x[0]).T, axis=0)


def lattice(s):
    '''Acute triangles/tetrahedra'''
    rng = rng_of(s['seed'])
    if s['dim'] == 3:
        x = np.array([[0, 0, 0], [1, 0, 0], [0.5, 3**0.5/2, 0], [0.5, 3**0.5/6, (2/3)**0.5], [0.5, 3**0.5/6, -(2/3)**0.5]])
        x = x+0.04*rng.uniform(-1, 1, x.shape)
        cells = [(0, 1, 2, 3), (0, 1, 2, 4)][:1+rng.randint(2)]
        x = x[:max(max(c) for c in cells)+1]
        gdim = 3
    else:
        n, m = s['n']
        x = np.array([[i+0.5*j, j*3**0.5/2] for j in range(m+1) for i in range(n+1)])
        x = x+0.05*rng.uniform(-1, 1, x.shape)
        at = lambda i, j: i+(n+1)*j
        cells = [c for j in range(m) for i in range(n) for c in ((at(i, j), at(i+1, j), at(i, j+1)), (at(i+1, j), at(i+1, j+1), at(i, j+1)))]
        gdim = s['gdim']
        if gdim == 3:
            x = np.c_[x, 0.05*rng.uniform(-1, 1, len(x))]
    # Some position, numbering
    if s['move']:
        Q, _ = np.linalg.qr(rng.randn(gdim, gdim))
        x = (x@Q)*[1, 1E-2, 50][rng.randint(3)] + rng.uniform(-1, 1, gdim)
    perm = rng.permutation(len(x))
    z = np.zeros_like(x)
    z[perm] = x
    cells = [sorted(int(perm[v]) for v in c) for c in cells]
    rng.shuffle(cells)
    mesh = df.Mesh()
    ed = df.MeshEditor()
    tdim = 3 if s['dim'] == 3 else 2
    ed.open(mesh, {2: 'triangle', 3: 'tetrahedron'}[tdim], tdim, gdim)
    ed.init_vertices(len(z))
    ed.init_cells(len(cells))
    for i, y in enumerate(z):
        ed.add_vertex(i, y)
    for i, c in enumerate(cells):
        ed.add_cell(i, np.array(c, dtype='uintp'))
    ed.close()
    return mesh


def subdivided(mesh, fine, pieces, centers, what):
    '''fine is mesh with cells cut in pieces'''
    tdim, gdim = mesh.topology().dim(), mesh.geometry().dim()
    require(fine.topology().dim() == tdim and fine.geometry().dim() == gdim, f'{what}: dimensions')
    require(set(fine.parent_entity_map) == {mesh.id()}, f'{what}: maps to {set(fine.parent_entity_map)} not to {mesh.id()}')
    x, y = mesh.coordinates(), fine.coordinates()
    cells, fcells = mesh.cells(), fine.cells()
    vmap, cmap = fine.parent_entity_map[mesh.id()][0], fine.parent_entity_map[mesh.id()][tdim]
    # Vertices of mesh are there
    require(sorted(map(int, vmap.values())) == list(range(len(x))), f'{what}: vertices of the mesh found {sorted(vmap.values())}')
    for k, v in vmap.items():
        require(np.array_equal(y[k], x[v]), f'{what}: vertex {k} at {y[k]} is mapped to vertex at {x[v]}')
    require(len(set(map(tuple, y))) == len(y), f'{what}: repeated vertices')
    require(sorted(set(map(int, fcells.ravel()))) == list(range(len(y))), f'{what}: vertices not in cells')
    # Cells
    require(sorted(cmap) == list(range(len(fcells))), f'{what}: keys of the cell map')
    children = {}
    for c in range(len(fcells)):
        children.setdefault(int(cmap[c]), []).append(c)
    require(sorted(children) == list(range(len(cells))), f'{what}: refined cells {sorted(children)}')
    size = max(np.abs(x).max(), 1E-300)
    for c, cs in children.items():
        require(len(cs) == pieces, f'{what}: {len(cs)} pieces of cell {c} expected {pieces}')
        a = x[cells[c]]
        sizes = [measure(y[fcells[k]]) for k in cs]
        total = measure(a)
        require(abs(sum(sizes)-total) < 1E-9*total, f'{what}: pieces of cell {c} have size {sum(sizes)} expected {total}')
        require(min(sizes) > 0, f'{what}: empty cell')
        used = np.unique(fcells[cs])
        bary, off = barycentric(a, y[used])
        require(bary.min() > -1E-8 and off.max() < 1E-9*size, f'{what}: pieces of cell {c} are not in it {bary.min()} {off.max()}')
    # Conforming
    count = lambda mesh: [len(cs) for cs in entity_cells(mesh, tdim-1)]
    coarse, finer = count(mesh), count(fine)
    if tdim > 1:
        mesh.init(tdim-1, 0), fine.init(tdim-1, 0)
        f2v, g2v = mesh.topology()(tdim-1, 0), fine.topology()(tdim-1, 0)
        for k in set(coarse):
            want = sum(measure(x[f2v(e)]) for e, n in enumerate(coarse) if n == k)
            have = sum(measure(y[g2v(e)]) for e, n in enumerate(finer) if n == k)
            if k != 2:
                require(abs(want-have) < 1E-9*want, f'{what}: size of facets with {k} cells {have} expected {want}')
        require(set(finer) <= set(coarse) | {2}, f'{what}: facets with {set(finer)} cells')
    if centers is not None:
        # Where the new points are
        new = np.array([v for v in range(len(y)) if v not in vmap])
        z = y[new]
        for p in centers:
            require(np.linalg.norm(z-p, axis=1).min() < 1E-9*size, f'{what}: no vertex at {p}')
        return new


def body(s):
    how, nrefs = s['how'], s['nrefs']
    if 'parts' in s['mesh']:
        mesh = network(s['mesh'])
    elif 'dim' in s['mesh']:
        mesh = lattice(s['mesh'])
    else:
        mesh = mesh_of(s['mesh'])
        if s['surface']:
            f, tags = mark_entities(mesh, mesh.topology().dim()-1, s['mark'])
            mesh = EmbeddedMesh(f, tags)
        elif s['shuffle'] is not None:
            mesh = other_view(mesh, mesh, s['shuffle'])
    tdim = mesh.topology().dim()
    # Keep it small
    while mesh.num_cells()*(tdim+1 if how != 'dual' else 6)**nrefs > 6000:
        nrefs -= 1
    if nrefs == 0:
        return None
    x, cells = mesh.coordinates(), mesh.cells()
    centroids = np.array([x[c].mean(axis=0) for c in cells])
    circum = np.array([circumcenter(x[c])[0] for c in cells])
    # Is the circumcenter well inside?
    margin = min(barycentric(x[c], p[None, :])[0].min() for c, p in zip(cells, circum))
    what = f'{how}-{s["center"]} {nrefs} of {tdim}d in {mesh.geometry().dim()}d'
    if how == 'refine':
        if s['center'] == 'centroid':
            fine = centroid_refine(mesh, nrefs=nrefs)
            new = subdivided(mesh, fine, (tdim+1)**nrefs, centroids, what)
            if nrefs == 1:
                require(len(new) == len(cells), f'{what}: {len(new)} new vertices')
        elif margin > 1E-3:
            # NOTE: pieces do not contain their circumcenters so only once
            if nrefs > 1 and tdim > 1:
                nrefs = 1
            fine = circumcenter_refine(mesh, nrefs=nrefs)
            subdivided(mesh, fine, (tdim+1)**nrefs, circum, what)
        elif margin < -1E-3:
            raises(AssertionError, lambda: circumcenter_refine(mesh), 'circumcenter out of the cell')
            what = 'rejected'
        else:
            return None
        return what if len(cells) > 1 else None
    if tdim != 2:
        raises(NotImplementedError, lambda: dual_mesh(mesh), 'dual mesh which is not of triangles')
        return None
    if s['center'] != 'centroid':
        if margin < 1E-3:
            return None
        nrefs = 1
    fine = dual_mesh(mesh, center=s['center'], nrefs=nrefs)
    new = subdivided(mesh, fine, 6**nrefs, centroids if s['center'] == 'centroid' else circum, what)
    if nrefs == 1:
        # Centers and midpoints of edges
        mesh.init(1)
        mids = np.array([e.midpoint().array()[:x.shape[1]] for e in df.edges(mesh)])
        y = fine.coordinates()[new]
        require(len(y) == len(cells)+len(mids), f'{what}: {len(y)} new vertices')
        for p in mids:
            require(np.linalg.norm(y-p, axis=1).min() < 1E-9*np.abs(x).max(), f'{what}: no vertex at midpoint {p}')
        # Around each vertex
        cmap = fine.parent_entity_map[mesh.id()][2]
        for c, vs in enumerate(fine.cells()):
            old = [v for v in vs if v < len(x)]
            require(len(old) == 1, f'{what}: cell {c} has {len(old)} vertices of the mesh')
    return what if len(cells) > 1 else None


def body_simplex(s):
    '''Predicates for one or more cells'''
    rng = rng_of(s['seed'])
    tdim, gdim = s['tdim'], s['gdim']
    cells = rng.uniform(-1, 1, (s['n'], tdim+1, gdim))
    label = None
    if (tdim, gdim) != (3, 2):
        for c in cells:
            close(simplex_area(c), measure(c), 1E-10, f'size of {tdim}d simplex in {gdim}d')
    points, truth = [], []
    for c in cells:
        w = rng.dirichlet(np.ones(tdim+1))
        if rng.randint(2):
            # One of the coordinates becomes negative
            i = rng.randint(tdim+1)
            w[i] = -0.05-rng.uniform()
            w /= w.sum() if abs(w.sum()) > 0.1 else 1
            w = w + (1-w.sum())*np.eye(tdim+1)[(i+1) % (tdim+1)]
        points.append(w@c)
        truth.append(bool(w.min() > 0))
    for p, c, t in zip(points, cells, truth):
        tol = 1E-6*measure(c)
        require(bool(point_is_inside(p, c, tol)) == t, f'point {p} in {c}: {not t}')
        # Move out of the plane
        if gdim > tdim:
            n = np.linalg.svd(c[1:]-c[0])[2][-1]
            require(not point_is_inside(p+0.3*n, c, tol), f'point {p+0.3*n} out of plane of {c}')
    require(bool(point_is_inside(np.array(points), cells, 1E-6*min(map(measure, cells)))) == all(truth), f'{truth}')
    return f'{tdim}d in {gdim}d'


LATTICE = st.fixed_dictionaries(dict(dim=st.sampled_from([2, 2, 3]), gdim=st.sampled_from([2, 3]), n=st.tuples(st.integers(1, 4), st.integers(1, 4)).map(list), seed=SEED, move=st.booleans()))
CASE = st.fixed_dictionaries(dict(mesh=st.one_of(MESH[2], MESH[3], NETWORK, LATTICE), mark=MARK, shuffle=st.none() | SEED, surface=st.sampled_from([0, 0, 1]),
                                  how=st.sampled_from(['refine', 'refine', 'dual']), center=st.sampled_from(['centroid', 'circumcenter']), nrefs=st.sampled_from([1, 1, 2, 3])))
ACUTE = st.fixed_dictionaries(dict(mesh=LATTICE, mark=MARK, shuffle=st.none(), surface=st.just(0), how=st.sampled_from(['refine', 'dual']), center=st.just('circumcenter'), nrefs=st.just(1)))
SIMPLEX = st.fixed_dictionaries(dict(tdim=st.integers(1, 3), gdim=st.integers(1, 3), n=st.integers(1, 4), seed=SEED)).filter(lambda s: s['tdim'] <= s['gdim'])

SUBCHECKS = [Sub('refine', CASE, body, quick=120, thorough=4000, chunks=5), Sub('acute', ACUTE, body, quick=40, thorough=1000, chunks=2), Sub('simplex', SIMPLEX, body_simplex, quick=200, thorough=4000, chunks=1)]
