'''Normals and tangents'''
from xii import *
from meshes import *
from checks.M08 import polygon, points_for, inside, distance
from xii.meshing.embedded_mesh import NormalCurve, wind_number as wind, encloses_points

BOOST = 4
RULE = ('Case = (mesh of a square/cube, graded, perturbed, mapped; facets (boundary, random, all, between subdomains); how the orientation is given) or (network of lines) or (polygon with points). '
        'Non-trivial: at least 2 cells.')
ASSUMPTIONS = ['dolfin mesh connectivity']


def per_cell(n):
    '''Values of DG0 vector function in cells'''
    V = n.function_space()
    require(V.ufl_element().family() == 'Discontinuous Lagrange' and V.ufl_element().degree() == 0, 'element')
    mesh = V.mesh()
    return np.array([eval_in_cell(n, c.midpoint().array()[:mesh.geometry().dim()], c.index()) for c in df.cells(mesh)])


def facet_geometry(mesh):
    '''facet -> (unit normal pointing out of its first cell, cells)'''
    tdim = mesh.topology().dim()
    x = mesh.coordinates()
    mesh.init(tdim-1, 0)
    f2v = mesh.topology()(tdim-1, 0)
    cells = entity_cells(mesh, tdim-1)
    out = []
    for e in range(mesh.num_entities(tdim-1)):
        vs = list(map(int, f2v(e)))
        a = x[vs]
        if tdim == 2:
            t = a[1]-a[0]
            n = np.array([t[1], -t[0]])
        else:
            n = np.cross(a[1]-a[0], a[2]-a[0])
        n = n/np.linalg.norm(n)
        mid = x[mesh.cells()[cells[e][0]]].mean(axis=0)
        if np.dot(n, mid-a[0]) > 0:
            n = -n
        out.append(n)
    return out, cells


def orthogonal(have, normals, what):
    for c, (h, n) in enumerate(zip(have, normals)):
        require(abs(np.linalg.norm(h)-1) < 1E-9, f'{what}: length {np.linalg.norm(h)} in cell {c}')
        require(abs(abs(np.dot(h, n))-1) < 1E-9, f'{what}: {h} is not along {n} in cell {c}')


def body(s):
    mesh = mesh_of(s['mesh'])
    tdim = mesh.topology().dim()
    rng = rng_of(s['seed'])
    how = s['how']
    normals, cells_of = facet_geometry(mesh)
    exterior = [e for e, c in enumerate(cells_of) if len(c) == 1]
    f, tags = mark_entities(mesh, tdim-1, dict(s['mark'], how='boundary' if how in ('none', 'inside', 'mesh') else s['mark']['how']))
    if how in ('none', 'inside', 'mesh'):
        # Only and all of it
        f.array()[:] = [f[e] if len(c) == 1 else 0 for e, c in enumerate(cells_of)]
        for e in exterior:
            f[e] = max(1, f[e])
        tags = sorted(set(map(int, f.array())) - {0})
        if how == 'mesh':
            tags = tags[:1+rng.randint(len(tags))]
    what = f'normal {how} {tdim}d'
    emesh = EmbeddedMesh(f, tags)
    facets = [emesh.parent_entity_map[mesh.id()][tdim-1][c] for c in range(emesh.num_cells())]
    mine = [normals[e] for e in facets]
    mids = np.array([c.midpoint().array()[:tdim] for c in df.cells(emesh)])
    x = emesh.coordinates()
    label = f'{what} {emesh.num_cells() > 1}' if emesh.num_cells() > 1 else None

    if how in ('none', 'inside', 'mesh', 'facet', 'boundary mesh'):
        # Out of the domain where it is the boundary
        if how == 'none':
            bm, arg = emesh, None
        elif how == 'inside':
            w = rng.uniform(0.1, 1, mesh.num_vertices())
            p = (w/w.sum())@mesh.coordinates()
            bm, arg = emesh, [list, tuple, np.array][rng.randint(3)](p)
        elif how == 'mesh':
            bm, arg = emesh, mesh
        elif how == 'facet':
            bm, arg = emesh, df.FacetNormal(mesh)
        else:
            bm, arg = df.BoundaryMesh(mesh, 'exterior'), None
            index = {k: e for e, k in enumerate(entity_keys(mesh, tdim-1))}
            facets = [index[k] for k in entity_keys(bm, tdim-1)]
            mine = [normals[e] for e in facets]
        n = OuterNormal(bm, arg)
        have = per_cell(n)
        orthogonal(have, mine, what)
        for c, e in enumerate(facets):
            if len(cells_of[e]) == 1:
                close(have[c], normals[e], 1E-9, f'{what}: facet of the boundary, cell {c}')
        m = InnerNormal(bm, arg)
        close(per_cell(m), -have, 1E-9, f'{what}: inner')
        close(per_cell(n), have, 1E-14, f'{what}: outer normal changed by the inner')
        return label

    if how in ('point', 'expression'):
        # Away from the point
        p = rng.uniform(-3, 3, tdim)
        if how == 'point':
            arg = [list, tuple, np.array][rng.randint(3)](p)
            field = lambda x: x-p
        else:
            a = np.round(rng.uniform(-1, 1, tdim), 3)
            k = rng.randint(3)
            arg = df.Expression(tuple('%.16g+x[%d]*%d' % (a[i], i, k*i) for i in range(tdim)), degree=1)
            field = lambda x: a + k*np.arange(tdim)*x
        n = OuterNormal(emesh, arg)
        have = per_cell(n)
        orthogonal(have, mine, what)
        for c, y in enumerate(mids):
            v = np.dot(have[c], field(y))
            require(v > -1E-8, f'{what}: normal in cell {c} at {y} is {have[c]} on the other side')
        close(per_cell(InnerNormal(emesh, arg)), -have, 1E-12, f'{what}: inner')
        return label

    # From subdomains
    cf = df.MeshFunction('size_t', mesh, tdim, 0)
    cf.array()[:] = rng.randint(0, 4, mesh.num_cells())
    n = OuterNormal(emesh, cf)
    have = per_cell(n)
    orthogonal(have, mine, what)
    for c, e in enumerate(facets):
        cs = cells_of[e]
        if len(cs) == 1:
            close(have[c], normals[e], 1E-9, f'{what}: facet of the boundary, cell {c}')
        elif cf[cs[0]] != cf[cs[1]]:
            # From higher to lower
            close(have[c], normals[e] if cf[cs[0]] > cf[cs[1]] else -normals[e], 1E-9, f'{what}: cell {c} between {cf[cs[0]]} and {cf[cs[1]]}')
    # On the facets
    g = OrientedFacetNormal(cf)
    V = g.function_space()
    dm = [V.sub(i).dofmap() for i in range(tdim)]
    mesh.init(tdim, tdim-1)
    for c in range(mesh.num_cells()):
        dofs = np.array([d.cell_dofs(c) for d in dm])
        for i, e in enumerate(df.Cell(mesh, c).entities(tdim-1)):
            v = g.vector().get_local()[dofs[:, i]]
            cs = cells_of[e]
            if len(cs) == 1:
                close(v, normals[e], 1E-9, f'oriented normal of boundary facet {e}')
            elif cf[cs[0]] != cf[cs[1]]:
                close(v, normals[e] if cf[cs[0]] > cf[cs[1]] else -normals[e], 1E-9, f'oriented normal of facet {e}')
            else:
                require(abs(abs(np.dot(v, normals[e]))-1) < 1E-9, f'oriented normal of facet {e} is {v}')
    # Submeshes
    for tag in sorted(set(cf.array())):
        sub = EmbeddedMesh(cf, int(tag))
        shared = {k: i for i, k in enumerate(entity_keys(sub, tdim-1))}
        its, its_cells = facet_geometry(sub)
        ekeys = entity_keys(emesh, tdim-1)
        # Facets which are on its boundary
        sf = df.MeshFunction('size_t', sub, tdim-1, 0)
        for c, k in enumerate(ekeys):
            if k in shared and len(its_cells[shared[k]]) == 1:
                sf[shared[k]] = 1
        if 1 not in sf.array():
            continue
        bm = EmbeddedMesh(sf, 1)
        have = per_cell(OuterNormal(bm, sub))
        for c in range(bm.num_cells()):
            close(have[c], its[bm.parent_entity_map[sub.id()][tdim-1][c]], 1E-9, f'outer normal of submesh in cell {c}')
    return label


def body_tangent(s):
    mesh = network(s)
    x, cells = mesh.coordinates(), mesh.cells()
    nv = np.bincount(cells.ravel())
    leaves = [v for v in range(len(x)) if nv[v] == 1]
    rng = rng_of(s['seed'])
    what = f'tangent {s["parts"]}'
    root = leaves[rng.randint(len(leaves))] if leaves and s['root'] else None
    t = per_cell(TangentCurve(mesh, root) if root is not None else TangentCurve(mesh))
    unit = np.array([(x[b]-x[a])/np.linalg.norm(x[b]-x[a]) for a, b in cells])
    for c in range(len(cells)):
        require(abs(np.linalg.norm(t[c])-1) < 1E-10 and abs(abs(np.dot(t[c], unit[c]))-1) < 1E-10, f'{what}: cell {c} has {t[c]}, it is along {unit[c]}')
    # From where to where
    steps = [tuple(map(int, c)) if np.dot(t[k], unit[k]) > 0 else tuple(map(int, c))[::-1] for k, c in enumerate(cells)]
    if len(s['parts']) == 1:
        if len(cells) == len(x)-1:
            # A tree is directed away from the root
            heads = [b for _, b in steps]
            require(len(set(heads)) == len(heads), f'{what}: directions {steps}')
            start, = set(range(len(x))) - set(heads)
            require(start in leaves and (root is None or start == root), f'{what}: starts in {start} not in {root}')
        elif not leaves and len(cells) == len(x):
            require(sorted(a for a, _ in steps) == list(range(len(x))) and sorted(b for _, b in steps) == list(range(len(x))), f'{what}: directions on a loop {steps}')
    if leaves:
        inner = [v for v in range(len(x)) if v not in leaves]
        if inner:
            raises(AssertionError, lambda: TangentCurve(mesh, inner[0]), 'root which is not an end')
    return f'{"+".join(sorted(s["parts"]))}' if len(cells) > 1 else None


def body_loop(s):
    '''Polygon'''
    x = polygon(s)
    from shapes import line_mesh
    rng = rng_of(s['seed'])
    m = 8
    # Refine
    y = np.vstack([[a + (b-a)*k/m for k in range(m)] for a, b in zip(x, np.roll(x, -1, axis=0))])
    n = len(y)
    perm = rng.permutation(n)
    z = np.zeros_like(y)
    z[perm] = y
    mesh = line_mesh(z, [(perm[i], perm[(i+1) % n]) for i in rng.permutation(n)])
    t = per_cell(TangentCurve(mesh))
    close(np.linalg.norm(t, axis=1), np.ones(n), 1E-10, 'tangent length')
    points = points_for(x, s, 0.35)
    label = None
    if len(points):
        truth = np.array([inside(x, p) for p in points])
        w = wind(mesh, points)
        require(np.all(np.abs(np.abs(w)-truth) < 0.05), f'winding number {w} expected {truth}')
        require(len(set(np.sign(w[truth]))) <= 1, f'sign of winding number {w}')
        label = 'loop'
    outs = [p for p in points if not inside(x, p)]
    ins = [p for p in points if inside(x, p)]
    for given, sign in [(None, 1)] + [(p, 1) for p in outs[:1]] + [(p, -1) for p in ins[:1]]:
        v = per_cell(NormalCurve(mesh) if given is None else NormalCurve(mesh, outside=given))
        for c, (a, b) in enumerate(mesh.cells()):
            mid, d = (z[a]+z[b])/2, z[b]-z[a]
            require(abs(np.linalg.norm(v[c])-1) < 1E-9 and abs(np.dot(v[c], d)) < 1E-9, f'normal in cell {c} is {v[c]}')
            require(inside(x, mid + 1E-4*sign*s['scale']*v[c]) == False and inside(x, mid - 1E-4*sign*s['scale']*v[c]), f'normal with {given} points to the other side in cell {c}')
    return label


def cases(d):
    return st.fixed_dictionaries(dict(mesh=MESH[d], mark=MARK, seed=SEED, how=st.sampled_from(['none', 'inside', 'mesh', 'facet', 'boundary mesh', 'point', 'expression', 'cells', 'cells'])))


TANGENT = st.fixed_dictionaries(dict(parts=st.one_of(st.lists(st.sampled_from(PARTS), min_size=1, max_size=3), st.sampled_from(PARTS).map(lambda p: [p])), gdim=st.sampled_from([2, 3]), seed=SEED,
                                     len=st.integers(1, 5), root=st.booleans()))
LOOP = st.fixed_dictionaries(dict(n=st.integers(3, 8), seed=SEED, cw=st.booleans(), scale=st.sampled_from([1., 2., 0.5])))

SUBCHECKS = [Sub('2d', cases(2), body, quick=80, thorough=2000, chunks=4), Sub('3d', cases(3), body, quick=60, thorough=1200, chunks=4),
             Sub('tangent', TANGENT, body_tangent, quick=80, thorough=2000, chunks=2), Sub('loop', LOOP, body_loop, quick=30, thorough=300)]
