'''Average operator'''
from shapes import *
from xii import *
from xii.assembler.average_matrix import MeasureFunction

RULE = ('Case = (3d mesh (jitter, affine image), curve from edges of the mesh or a free polygonal curve, shape with constant or position dependent size, degree of the rule, '
        'element, polynomial or random coefficients). Non-trivial: average is not constant.')
ASSUMPTIONS = ['dolfin evaluation of functions in a given cell and assembly on the curve are trusted',
               'shapes are inside of the 3d mesh',
               'for random coefficients the mean is with respect to the points and weights of the shape (property A07)']

ELM = {
    'CG1': (lambda c: df.FiniteElement('CG', c, 1), 1),
    'CG2': (lambda c: df.FiniteElement('CG', c, 2), 2),
    'DG1': (lambda c: df.FiniteElement('DG', c, 1), 1),
    'DG0': (lambda c: df.FiniteElement('DG', c, 0), 0),
    'vCG1': (lambda c: df.VectorElement('CG', c, 1), 1),
    'vCG2': (lambda c: df.VectorElement('CG', c, 2), 2),
    'tCG1': (lambda c: df.TensorElement('CG', c, 1), 1),
    'RT1': (lambda c: df.FiniteElement('RT', c, 1), 1),
}


def sequence(request):
    '''Requests on the same meshes'''
    def body(s):
        mesh, curve = curve_in_cube(s['curve'])
        spaces = {}
        for other in s['more']:
            # A different shape/function
            shape = dict(s['shape'], **other['shape'])
            if shape['kind'] in ('square', 'rim') and curve.num_cells() > 1:
                shape['kind'] = s['shape']['kind']
            request(fix(dict(s, **dict(other, elm=other['elm'] or s['elm'], shape=shape))), mesh, curve, spaces)
        return request(s, mesh, curve, spaces)
    return body


def setup(s, mesh, curve, spaces):
    make, deg = ELM[s['elm']]
    if s['elm'] not in spaces:
        spaces[s['elm']] = df.FunctionSpace(mesh, make(mesh.ufl_cell()))
    V = spaces[s['elm']]
    if s['poly']:
        p = Poly(3, 0 if s['elm'] == 'RT1' else deg, int(np.prod(V.ufl_element().value_shape() or (1,))), s['u'])
        u = interp(p, V)
    else:
        p, u = None, rand_fun(V, s['u'])
    return mesh, curve, V, u, p, deg


def assemble_all(V, u, curve, TV, red, u_seed):
    '''In each of the roles'''
    q, dxc = df.TestFunction(TV), df.Measure('dx', domain=curve)
    b = ii_assemble(df.inner(red(u), q)*dxc)
    A = ii_convert(ii_assemble(df.inner(red(df.TrialFunction(V)), q)*dxc))
    close(arr(A*u.vector()), arr(b), what='bilinear form applied vs linear form')
    p = rand_fun(TV, u_seed+1)
    c = ii_assemble(df.inner(p, red(df.TestFunction(V)))*dxc)
    close(c.inner(u.vector()), p.vector().inner(b), what='average of test function', scale=1+np.abs(arr(p.vector()))@np.abs(arr(b)))
    return b


@sequence
def body(s, mesh, curve, spaces):
    mesh, curve, V, u, p, deg = setup(s, mesh, curve, spaces)
    ref = Ref(s['shape'])
    TV = dg_space(curve, deg, u.ufl_shape)
    if ref.kind in ('square', 'rim'):
        ref.n = tangent(curve, 0)
    red = lambda v: Average(v, curve, ref.shape)
    b = assemble_all(V, u, curve, TV, red, s['u'])
    g = nodal_values(TV, b)
    loc = Locator(mesh)
    scale = 10*max(1, u.vector().norm('linf'))
    for c, x, mine in at_nodes(g):
        n = tangent(curve, c)
        if p is not None:
            close(mine, ref.mean(p, x, n), tol=1E-8, what='mean of polynomial', scale=scale)
        else:
            q = ref.shape.quadrature(x, -n)
            w = np.array(q.weights)
            lo = hi = 0
            for xq, wq in zip(q.points, w/w.sum()):
                vs = [wq*eval_in_cell(u, xq, k) for k in loc(xq)]
                require(len(vs) > 0, 'harness: point outside')
                lo, hi = lo + np.min(vs, axis=0), hi + np.max(vs, axis=0)
            require(np.all(mine > lo-1E-8*scale) and np.all(mine < hi+1E-8*scale), f'mean at {x}: got {mine} expected {lo}, {hi}')
    # Measure as function
    if s['elm'] != 'RT1':
      m = MeasureFunction(red(u))
      for c, x, val in at_nodes(m):
          close(val, [ref.nodes(x, tangent(curve, c))[2]], tol=1E-5 if ref.degree > 15 else 1E-9, what='measure of the shape')
    return '%s %s %s' % (s['elm'], ref.kind, s['curve']['kind']) if np.ptp(arr(g.vector())) > 1E-8 else None


def body_trace(s):
    '''3d-1d'''
    mesh, curve = curve_in_cube(s['curve'])
    mesh, curve, V, u, p, deg = setup(s, mesh, curve, {})
    TV = dg_space(curve, deg, u.ufl_shape)
    b = assemble_all(V, u, curve, TV, lambda v: Average(v, curve, None), s['u'])
    loc = Locator(mesh)
    scale = 10*max(1, u.vector().norm('linf'))
    for c, x, mine in at_nodes(nodal_values(TV, b)):
        if p is not None:
            close(mine, p(x), tol=1E-8, what='trace of polynomial', scale=scale)
        else:
            e = min(np.max(np.abs(mine-eval_in_cell(u, x, k))) for k in loc(x))
            require(e < 1E-8*scale, f'trace at {x} is {mine}, off by {e}')
    return s['elm'] + ' ' + s['curve']['kind'] + (' poly' if p is not None else '') if np.ptp(arr(b)) > 1E-8 else None


def fix(s):
    '''Combinations that are supported'''
    kind = s['shape']['kind']
    if s['poly']:
        # Rule that is exact
        s['shape']['degree'] = {'circle': 24, 'disk': 5, 'square': 4, 'rim': 4}[kind] + s['shape']['degree'] % 3
    if kind in ('square', 'rim'):
        # Single direction: corner depends on it
        s['curve']['nc'] = 1
    return s


def fix_trace(s):
    if s['curve']['kind'] == 'free' and s['elm'] != 'DG0':
        # Cells of the curve are not inside the cells of the mesh
        s['poly'] = True
    if s['elm'] == 'DG0':
        # Value from any cell that has the midpoint
        s['curve']['kind'] = 'free'
    return s


def cases(elms, fixer, kinds=('circle', 'disk', 'square', 'rim')):
    # NOTE: the kind, size, degree is there only if it changes
    shape = st.fixed_dictionaries({}, optional=dict(kind=st.sampled_from(kinds), size=SEED, const=st.booleans(), degree=st.integers(3, 12)))
    more = st.fixed_dictionaries(dict(elm=st.sampled_from(['', '', 'CG1', 'DG0']), u=SEED, poly=st.booleans(), shape=shape))
    return st.fixed_dictionaries(dict(curve=CURVE, elm=st.sampled_from(elms), u=SEED, poly=st.booleans(), more=st.lists(more, max_size=2),
                                      shape=shapes(kinds, st.integers(3, 12)))).map(fixer)


SUBCHECKS = [Sub('avg-%s' % e, cases([e], fix), body, quick=12, thorough=300) for e in ('CG1', 'CG2', 'DG1', 'DG0', 'vCG1', 'vCG2', 'tCG1', 'RT1')] + \
            [Sub('trace3d1d-%s' % e, cases([e], fix_trace), body_trace, quick=20, thorough=300) for e in ('CG1', 'CG2', 'vCG1', 'vCG2', 'tCG1', 'DG0')]
