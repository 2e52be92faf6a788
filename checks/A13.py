'''Restriction to a mesh made of cells of another mesh'''
from xii import *
from xii.meshing.subdomain_mesh import OverlapMesh
from shapes import *

RULE = ('Case = (bulk mesh 1d/2d/3d, cell markers, tags selecting the cells of submeshes or an overlap of two submeshes, element, coefficients). '
        'Non-trivial: restricted function is not constant.')
ASSUMPTIONS = ['dolfin evaluation of functions in a given cell and assembly of plain forms are trusted',
               'for spaces that are not continuous across facets and dofs shared between cells (H(div), H(curl), CR) the value from any cell of the bulk is the same for the shared degree of freedom']

ELM = {
    'CG1': (lambda c: df.FiniteElement('CG', c, 1), 1),
    'CG2': (lambda c: df.FiniteElement('CG', c, 2), 2),
    'CG3': (lambda c: df.FiniteElement('CG', c, 3), 3),
    'DG0': (lambda c: df.FiniteElement('DG', c, 0), 0),
    'DG1': (lambda c: df.FiniteElement('DG', c, 1), 1),
    'DG2': (lambda c: df.FiniteElement('DG', c, 2), 2),
    'CR': (lambda c: df.FiniteElement('CR', c, 1), 1),
    'vCG1': (lambda c: df.VectorElement('CG', c, 1), 1),
    'vCG2': (lambda c: df.VectorElement('CG', c, 2), 2),
    'vDG1': (lambda c: df.VectorElement('DG', c, 1), 1),
    'tCG1': (lambda c: df.TensorElement('CG', c, 1), 1),
    'RT1': (lambda c: df.FiniteElement('RT', c, 1), 1),
    'RT2': (lambda c: df.FiniteElement('RT', c, 2), 2),
    'BDM1': (lambda c: df.FiniteElement('BDM', c, 1), 1),
    'N1': (lambda c: df.FiniteElement('N1curl', c, 1), 1),
    'TH': (lambda c: df.MixedElement([df.VectorElement('CG', c, 2), df.FiniteElement('CG', c, 1)]), 2),
    'RTDG': (lambda c: df.MixedElement([df.FiniteElement('RT', c, 1), df.FiniteElement('DG', c, 0)]), 1),
}


def submesh(s):
    '''(mesh, submesh, our parent cells)'''
    mesh = mesh_of(s['mesh'])
    tdim = mesh.topology().dim()
    cf, present = mark_entities(mesh, tdim, s['mark'])
    rng = rng_of(s['pick'])
    if s['how'] == 'overlap' and mesh.num_cells() > 2:
        # Three subdomains, the common one is 3
        a = rng.randint(1, 4, mesh.num_cells())
        a[rng.permutation(mesh.num_cells())[:3]] = [1, 2, 3]
        cf.array()[:] = a
        mesh1, mesh2 = SubDomainMesh(cf, [1, 3]), SubDomainMesh(cf, (2, 3))
        sub = OverlapMesh(mesh1, mesh2)
        bulk = (mesh1, mesh2)[rng.randint(2)]
        return bulk, sub, facet_of_cell(sub, bulk), [mesh, mesh1, mesh2]
    tags = present if s['how'] != 'single' else [present[0]]
    arg = [tags, tuple(tags), set(tags)][rng.randint(3)] if len(tags) > 1 else tags[0]
    sub = (SubDomainMesh if rng.randint(2) else EmbeddedMesh)(cf, arg)
    return mesh, sub, facet_of_cell(sub, mesh), []


def body(s):
    mesh, sub, parents, keep = submesh(s)
    label = one(s, mesh, sub, parents)
    if s['more']:
        # Different cells (in the same number) of the mesh
        tdim = mesh.topology().dim()
        cf = df.MeshFunction('size_t', mesh, tdim, 0)
        cf.array()[parents] = 1
        cf.array()[:] = rng_of(s['pick']).permutation(cf.array())
        other = EmbeddedMesh(cf, 1)
        one(s, mesh, other, facet_of_cell(other, mesh))
        label = label and label + ' two'
        if s['more'] > 1:
            one(s, mesh, sub, parents)
    return label


def one(s, mesh, sub, parents):
    make, deg = ELM[s['elm']]
    V = df.FunctionSpace(mesh, make(mesh.ufl_cell()))
    u = rand_fun(V, s['u'])
    TV = dg_space(sub, deg, u.ufl_shape)
    g = fill_dg(df.Function(TV), lambda c, x: eval_in_cell(u, x, parents[c]))

    dxs = df.Measure('dx', domain=sub)
    q, p = df.TestFunction(TV), df.TrialFunction(TV)
    b0 = arr(df.assemble(df.inner(g, q)*dxs))
    R = lambda v: Restriction(v, sub)
    b = ii_assemble(df.inner(R(u), q)*dxs)
    scale = 1+np.max(np.abs(arr(u.vector())))*(20 if s['elm'][0] in 'RBN' else 1)
    close(arr(b), b0, what='linear form with restriction', scale=scale)
    A = ii_convert(ii_assemble(df.inner(R(df.TrialFunction(V)), q)*dxs))
    close(arr(A*u.vector()), b0, what='restricted trial function', scale=scale)
    w = rand_fun(TV, s['u']+1)
    c = ii_assemble(df.inner(w, R(df.TestFunction(V)))*dxs)
    close(c.inner(u.vector()), df.assemble(df.inner(g, w)*dxs), what='restricted test function', scale=scale*10)
    B = ii_convert(ii_assemble(df.inner(p, R(df.TestFunction(V)))*dxs))
    close(dense(B), dense(A).T, what='test vs trial', scale=scale)
    # Integral over the cells in the bulk mesh
    mf = df.MeshFunction('size_t', mesh, mesh.topology().dim(), 0)
    mf.array()[parents] = 1
    dxm = df.Measure('dx', domain=mesh, subdomain_data=mf)
    z = rand_fun(V, s['u']+2)
    close(ii_assemble(df.inner(R(u), R(z))*dxs), df.assemble(df.inner(u, z)*dxm(1)), what='integral over the subdomain', scale=scale**2)
    if s['elm'] not in ('DG0', ):
        # Including derivatives, and marker of the submesh
        close(ii_assemble(df.inner(df.grad(R(u)), df.grad(R(z)))*dxs), df.assemble(df.inner(df.grad(u), df.grad(z))*dxm(1)),
              what='integral of gradients', scale=None, tol=1E-8)
    else:
        M = ii_convert(ii_assemble(df.inner(R(df.TrialFunction(V)), R(df.TestFunction(V)))*dxs))
        close(dense(M), dense(df.assemble(df.inner(df.TrialFunction(V), df.TestFunction(V))*dxm(1))), what='mass matrix')
    return '%s %s tdim%d' % (s['elm'], s['how'], mesh.topology().dim()) if np.ptp(b0) > 1E-8 else None


LINE = st.fixed_dictionaries(dict(k=st.just('line'), n=st.tuples(st.integers(1, 10)).map(list), jit=st.none() | SEED, aff=st.integers(0, 3), refine=st.none() | SEED))


def cases(elm):
    meshes = [mesh2d(4), mesh2d(4), mesh3d(2)] if elm in ('CG1', 'DG1', 'CR', 'RT1', 'N1', 'vCG1') else [mesh2d(4)]
    if elm in ('CG1', 'DG1', 'CG2'):
        meshes.append(LINE)
    return st.fixed_dictionaries(dict(mesh=st.one_of(*meshes), mark=MARK, pick=SEED, elm=st.just(elm), u=SEED, more=st.integers(0, 2),
                                      how=st.sampled_from(['tags', 'tags', 'single', 'overlap'])))


SUBCHECKS = [Sub('restriction-%s' % e, cases(e), body, quick=12, thorough=300) for e in ELM]
