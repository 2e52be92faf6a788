'''Patch averages'''
from xii import *
from shapes import *

BOOST = 4
RULE = ('Case = (2d/3d mesh, curve mesh, grouping of the cells into patches by tag, assignment of patches to the dofs of a space on the curve, optional colouring of '
        'patches which do not touch, element, coefficients). Non-trivial: at least one dof has a patch.')
ASSUMPTIONS = ['dolfin assembly of plain forms is trusted']

ELM = {'CG1': ('CG', 1), 'CG2': ('CG', 2), 'DG0': ('DG', 0), 'DG1': ('DG', 1), 'CR': ('CR', 1)}


def assignments(s):
    mesh = mesh_of(s['mesh'])
    rng = rng_of(s['seed'])
    gdim = mesh.geometry().dim()
    ncells = mesh.num_cells()
    # Patches
    ntags = min(s['npatch'], ncells)
    tags = rng.permutation(20)[:ntags] + 1
    patch = df.MeshFunction('size_t', mesh, gdim, 0)
    if s['seeded']:
        # Connected: nearest seed
        mids = np.array([c.midpoint().array()[:gdim] for c in df.cells(mesh)])
        seeds = mids[rng.permutation(ncells)[:ntags]]
        which = np.argmin(np.linalg.norm(mids[:, None] - seeds[None], axis=2), axis=1)
    else:
        which = rng.randint(ntags, size=ncells)
        which[rng.permutation(ncells)[:ntags]] = np.arange(ntags)
    a = tags[which]
    if s['holes'] and ncells > ntags:
        off = rng.uniform(size=ncells) < 0.3
        a = np.where(off, 0, a)
    patch.array()[:] = a
    present = sorted(set(map(int, a)) - {0})
    # The curve
    n = s['nline']
    x = rng.uniform(0, 1, (n+1, gdim))
    curve = line_mesh(x, [(i, i+1) for i in range(n)])
    TV = df.FunctionSpace(curve, *s['TV'])
    vertex_f = df.Function(TV)
    choices = present + [0]
    colors = [choices[rng.randint(len(choices))] if present else 0 for _ in range(TV.dim())]
    if s['unique']:
        k = list(rng.permutation(present))
        colors = [k.pop() if k and rng.randint(3) else 0 for _ in colors]
    vertex_f.vector().set_local(np.array(colors, dtype=float))
    vertex_f.vector().apply('insert')

    coloring = None
    if s['coloring']:
        # Patches in the group do not touch
        cell_vertices = mesh.cells()
        reach = {c: set(cell_vertices[a == c].ravel()) for c in present}
        groups, coloring = [], {}
        for c in rng.permutation(present) if present else []:
            c = int(c)
            for g, members in enumerate(groups):
                if all(not (reach[c] & reach[m]) for m in members):
                    break
            else:
                groups.append([])
                g, members = len(groups)-1, groups[-1]
            members.append(c)
            coloring[c] = g
    return mesh, curve, TV, vertex_f, patch, coloring, np.array(a), colors


def roles(u, curve, TV, op, seed):
    '''Representation of the reduced u in TV'''
    V = u.function_space()
    dx = df.dx(domain=curve)
    q, p = df.TestFunction(TV), df.TrialFunction(TV)
    b = ii_assemble(df.inner(op(u), q)*dx)
    A = ii_convert(ii_assemble(df.inner(op(df.TrialFunction(V)), q)*dx))
    B = ii_convert(ii_assemble(df.inner(p, op(df.TestFunction(V)))*dx))
    close(arr(A*u.vector()), arr(b), what='trial function vs function')
    close(dense(B), dense(A).T, what='test vs trial function', scale=1+np.max(np.abs(dense(A))))
    w = rand_fun(TV, seed)
    c = ii_assemble(df.inner(w, op(df.TestFunction(V)))*dx)
    close(c.inner(u.vector()), w.vector().inner(b), what='linear form with test function')
    # Nodal values
    M = dense(df.assemble(df.inner(p, q)*dx))
    return np.linalg.solve(M, arr(b)), np.linalg.cond(M)


def body(s):
    mesh, curve, TV, vertex_f, patch, coloring, a, colors = assignments(s)
    V = df.FunctionSpace(mesh, *ELM[s['elm']])
    u = rand_fun(V, s['u'])
    mine, cond = roles(u, curve, TV, lambda v: CellPatchAverage(v, vertex_f, patch, coloring), s['u']+1)
    W = df.TestFunction(df.FunctionSpace(mesh, 'DG', 0))
    ints, vols = arr(df.assemble(u*W*df.dx)), arr(df.assemble(W*df.dx))
    # DG0 dofs vs. cells
    dm = W.function_space().dofmap()
    dofs = [dm.cell_dofs(c)[0] for c in range(mesh.num_cells())]
    ints, vols = ints[dofs], vols[dofs]
    expected = np.array([ints[a == c].sum()/vols[a == c].sum() if c else 0 for c in colors])
    close(mine, expected, what='patch averages for colors %r' % colors, tol=1E-10*max(cond, 10))
    return '%s %s%s' % (s['elm'], s['TV'], ' coloring' if coloring else '') if any(colors) else None


def body_dirac(s):
    '''No patch: value at the nodes of the space on the curve, which are nodes in the volume'''
    mesh = mesh_of(s['mesh'])
    f, tags = mark_entities(mesh, 1, s['mark'])
    curve = EmbeddedMesh(f, tags)
    V = df.FunctionSpace(mesh, 'CG', s['degree'])
    u = rand_fun(V, s['u'])
    TV = df.FunctionSpace(curve, 'CG', s['degree'])
    vertex_f = df.Function(TV)
    mine, cond = roles(u, curve, TV, lambda v: CellPatchAverage(v, vertex_f, None), s['u']+1)
    mesh.init(1, mesh.topology().dim())
    parents = facet_of_cell(curve, mesh)
    g = df.Function(TV)
    g.vector().set_local(mine)
    g.vector().apply('insert')
    for c, x, val in at_nodes(g):
        K = int(mesh.topology()(1, mesh.topology().dim())(parents[c])[0])
        close(val, eval_in_cell(u, x, K), what=f'value at {x}', tol=1E-9*max(cond, 10))
    return 'dirac CG%d dim%d' % (s['degree'], mesh.topology().dim())


# Long one allows for several patches that do not touch
STRIP = st.fixed_dictionaries(dict(k=st.just('sq'), n=st.tuples(st.integers(5, 10), st.just(1)).map(list), diag=st.sampled_from(['right', 'crossed']), jit=st.none(), aff=st.integers(0, 2), refine=st.none()))
MESH = st.one_of(mesh2d(4), STRIP, mesh3d(2), mesh2d(3))

CASES = st.fixed_dictionaries(dict(mesh=MESH, seed=SEED, npatch=st.integers(1, 8), seeded=st.booleans(), holes=st.booleans(),
                                   nline=st.integers(1, 5), TV=st.sampled_from([('CG', 1), ('DG', 0), ('CG', 2)]),
                                   unique=st.booleans(), coloring=st.sampled_from([True, True, False]), elm=st.sampled_from(list(ELM)), u=SEED))


def of(elm):
    return CASES.map(lambda s: dict(s, elm=elm))


SUBCHECKS = [Sub('patch-%s' % e, of(e), body, quick=40, thorough=800) for e in ELM] + \
            [Sub('dirac', st.fixed_dictionaries(dict(mesh=MESH, mark=MARK, degree=st.integers(1, 2), u=SEED)), body_dirac, quick=40, thorough=800)]
