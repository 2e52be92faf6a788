'''Transpose trace'''
from xii import *
from shapes import *

RULE = ('Case = (bulk mesh 2d/3d, marked facets, continuous Lagrange element, coefficients). Non-trivial: function on the embedded mesh is not zero.')
ASSUMPTIONS = ['dolfin evaluation of functions in a given cell and assembly of plain forms are trusted']

ELM = {
    'CG1': lambda c: df.FiniteElement('CG', c, 1),
    'CG2': lambda c: df.FiniteElement('CG', c, 2),
    'vCG1': lambda c: df.VectorElement('CG', c, 1, dim=c.geometric_dimension()),
    'vCG2': lambda c: df.VectorElement('CG', c, 2, dim=c.geometric_dimension()),
    'tCG1': lambda c: df.TensorElement('CG', c, 1, shape=(c.geometric_dimension(), )*2),
}


def nodes(V):
    '''(point, component) -> dof'''
    comps = [V] if V.num_sub_spaces() == 0 else [V.sub(i) for i in range(V.num_sub_spaces())]
    table = {}
    for i, C in enumerate(comps):
        dm, el = C.dofmap(), C.element()
        for c in df.cells(V.mesh()):
            for d, x in zip(dm.cell_dofs(c.index()), el.tabulate_dof_coordinates(c)):
                table[(tuple(np.round(x, 9) + 0.), i)] = int(d)
    return table


def body(s):
    '''Surfaces of the same mesh one by one'''
    mesh = mesh_of(s['mesh'])
    keep = []
    for other in s['more']:
        request(dict(s, **other), mesh, keep)
    return request(s, mesh, keep)


def request(s, mesh, keep):
    tdim = mesh.topology().dim()
    V = df.FunctionSpace(mesh, ELM[s['elm']](mesh.ufl_cell()))
    if s.get('reuse') and keep:
        # The same surface, possibly some other element
        bm, ff, present = keep[-1]
    else:
        ff, present = mark_entities(mesh, tdim-1, s['mark'])
        bm = EmbeddedMesh(ff, present)
    keep.append((bm, ff, present))
    Q = df.FunctionSpace(bm, ELM[s['elm']](bm.ufl_cell()))
    f = rand_fun(Q, s['u'])
    E = df.Function(V)
    big, small = nodes(V), nodes(Q)
    Ev = np.zeros(V.dim())
    for key, d in small.items():
        require(key in big, 'harness: node')
        Ev[big[key]] = f.vector()[d]
    E.vector().set_local(Ev)

    ds = df.Measure('ds', domain=mesh, subdomain_data=ff)
    dS = df.Measure('dS', domain=mesh, subdomain_data=ff)
    v, q, p = df.TestFunction(V), df.TestFunction(Q), df.TrialFunction(Q)
    TT = lambda w: TransposeTrace(w, bm, *([mesh] if s['full'] else []))
    dx = df.dx(domain=mesh)
    # Function in the volume
    k = rand_fun(df.FunctionSpace(mesh, 'DG', 0), s['u']+1)
    for what, form in (('volume', lambda a, b: (1+k)*df.inner(a, b)*dx), ('exterior facets', lambda a, b: df.inner(a, b)*ds(present[0])),
                       ('interior facets', lambda a, b: df.inner(df.avg(a), df.avg(b))*dS(present[-1])),
                       ('gradients', lambda a, b: k*df.inner(df.grad(a), df.grad(b))*dx)):
        if what == 'interior facets' and mesh.num_cells() == 1:
            continue
        b0 = arr(df.assemble(form(E, v)))
        scale = 1+np.max(np.abs(b0))*10
        close(arr(ii_assemble(form(TT(f), v))), b0, what=what + ' function', scale=scale)
        A = ii_convert(ii_assemble(form(TT(p), v)))
        close(arr(A*f.vector()), b0, what=what + ' trial', scale=scale)
        B = ii_convert(ii_assemble(form(df.TrialFunction(V), TT(q))))
        close(dense(B), dense(A).T, what=what + ' test', scale=scale)
    u = rand_fun(V, s['u']+2)
    # Surface
    f_ = lambda a, b: sum((df.inner(a, b)*ds(t) for t in present[1:]), df.inner(a, b)*ds(present[0]))
    onb = [e for e, cs in enumerate(entity_cells(mesh, tdim-1)) if len(cs) == 1 and ff[e] in present]
    b = ii_assemble(f_(u, TT(q)))
    if len(onb) == bm.num_cells():
        b0 = ii_assemble(df.inner(Trace(u, bm), q)*df.dx(domain=bm))
        close(arr(b), arr(b0), what='adjoint of the trace')
    return '%s tdim%d %s' % (s['elm'], tdim, s['mark']['how'])


def cases(elm):
    meshes = [mesh2d(4)] + ([mesh3d(2)] if elm in ('CG1', 'CG2', 'vCG1') else [])
    elms = {'CG1': ('CG1', 'CG2', 'vCG1'), 'CG2': ('CG1', 'CG2'), 'vCG1': ('vCG1', 'vCG2', 'CG1'), 'vCG2': ('vCG2', 'CG2'), 'tCG1': ('tCG1', 'vCG1')}[elm]
    more = st.fixed_dictionaries(dict(mark=MARK, u=SEED, full=st.booleans(), reuse=st.booleans(), elm=st.sampled_from(elms)))
    return st.fixed_dictionaries(dict(mesh=st.one_of(*meshes), mark=MARK, elm=st.just(elm), u=SEED, full=st.booleans(), reuse=st.booleans(),
                                      more=st.lists(more, max_size=2)))


SUBCHECKS = [Sub('extension-%s' % e, cases(e), body, quick=20, thorough=400) for e in ELM]
