'''Point traces'''
from xii import *
from shapes import *

BOOST = 3
RULE = ('Case = (random tree or cycle of line segments in R^1, R^2 or R^3, vertex, cell connected to it, DG degree, coefficients, tangent in one of the supported types). '
        'Non-trivial: the vertex is shared by at least two cells or the value is not zero.')
ASSUMPTIONS = ['dolfin assembly on the line mesh and evaluation of a function in a given cell are trusted']

GRAPH = st.fixed_dictionaries(dict(gdim=st.integers(1, 3), n=st.integers(1, 7), seed=SEED,
                                   shape=st.sampled_from(['random', 'star', 'path', 'cycle'])))


def graph_mesh(s):
    '''Mesh, vertices shuffled and cells randomly oriented'''
    rng = rng_of(s['seed'])
    n, gdim = s['n'], s['gdim']
    if gdim == 1:
        edges = [(i, i+1) for i in range(n)]
        x = np.cumsum(rng.uniform(0.2, 1, n+1)).reshape((-1, 1))
    else:
        edges = []
        for i in range(n):
            edges.append(({'random': rng.randint(i+1), 'star': 0, 'path': i, 'cycle': i}[s['shape']], i+1))
        if s['shape'] == 'cycle' and n > 1:
            edges.append((n, 0))
        while True:
            x = rng.uniform(-1, 1, (n+1, gdim))
            if all(np.linalg.norm(x[a]-x[b]) > 0.15 for a in range(n+1) for b in range(a)):
                # The collision tests of dolfin should not find cells that do not have the vertex
                break
    perm = rng.permutation(n+1)
    y = np.zeros_like(x)
    y[perm] = x
    cells = [(perm[a], perm[b]) if rng.randint(2) else (perm[b], perm[a]) for a, b in edges]
    cells = [cells[i] for i in rng.permutation(len(cells))]
    return line_mesh(y, cells)


def body(s):
    mesh = graph_mesh(s['graph'])
    V = df.FunctionSpace(mesh, 'DG', s['degree'])
    R = df.FunctionSpace(mesh, 'R', 0)
    K = df.FunctionSpace(mesh, 'DG', 1)
    f, k = rand_fun(V, s['f']), rand_fun(K, s['f']+1)
    u, v = df.TrialFunction(V), df.TestFunction(V)
    q, p = df.TestFunction(R), df.TrialFunction(R)
    rng = rng_of(s['pick'])
    dx = df.dx(domain=mesh)
    size = df.assemble(df.Constant(1)*dx)
    gdim = mesh.geometry().dim()
    label, seen = None, []
    mesh.init(0, 1)
    X = mesh.coordinates()
    for visit in range(s['visits']):
        cell = int(rng.randint(mesh.num_cells()))
        vertex = int(mesh.cells()[cell][rng.randint(2)])
        x = X[vertex]
        if not s['grad']:
            op = lambda w: PointTrace(w, point=vertex, cell=cell)
            val = eval_in_cell(f, x, cell)[0]
        else:
            tau = rng.uniform(-1, 1, gdim)
            # Derivative along the cell from the values
            a, b = X[mesh.cells()[cell]]
            t = (b-a)/np.linalg.norm(b-a)
            ts = np.linspace(0, 1, s['degree']+1)
            ys = [eval_in_cell(f, a+(b-a)*ti, cell)[0] for ti in ts]
            dp = np.polyder(np.polyfit(ts, ys, s['degree']))
            d = np.polyval(dp, np.dot(x-a, t)/np.linalg.norm(b-a))/np.linalg.norm(b-a)
            # Gradient on the curve is tangential
            val = d*np.dot(t, tau)
            kind = s['tangent']
            if kind == 'array':
                arg = tau
            elif kind == 'tuple':
                arg = tuple(map(float, tau))
            elif kind == 'constant':
                arg = df.Constant(tau) if gdim > 1 else df.Constant((tau[0], ))
            else:
                T = df.VectorFunctionSpace(mesh, 'DG', 0) if gdim > 1 else df.FunctionSpace(mesh, 'DG', 0)
                arg = fill_dg(df.Function(T), lambda c, y: tau if c == cell else 0*tau+7)
            op = lambda w: GradientPointTrace(w, point=vertex, cell=cell, tangent=arg)
        A = ii_convert(ii_assemble(df.inner(op(u), q)*dx))
        what = '%s at vertex %d of cell %d' % ('gradient' if s['grad'] else 'value', vertex, cell)
        scale = 1+abs(val)+20*f.vector().norm('linf')*(10 if s['grad'] else 1)
        close(arr(A*f.vector())/size, [val], what=what + ' trial', scale=scale)
        b = ii_assemble(df.inner(op(f), q)*dx)
        close(arr(b)/size, [val], what=what + ' function', scale=scale)
        B = ii_convert(ii_assemble(df.inner(p, op(v))*dx))
        close(dense(B), dense(A).T, what=what + ' test', scale=1+np.max(np.abs(dense(A))))
        # A weighted functional
        c = ii_assemble(df.inner(k, op(v))*dx)
        close(c.inner(f.vector()), val*df.assemble(k*dx), what=what + ' weighted', scale=scale*(1+size))
        if mesh.num_cells() > 1:
            # As in the coupling
            h = mesh.num_cells()
            J = df.assemble(df.avg(k)*df.dS(domain=mesh))
            c = ii_assemble(df.inner(df.avg(op(f)), df.avg(k*q))*df.dS(domain=mesh))
            close(arr(c), [val*J], what=what + ' dS', scale=scale*h)
        many = len([c for c in range(mesh.num_cells()) if vertex in mesh.cells()[c]])
        if many > 1 or abs(val) > 1E-8:
            label = 'gdim%d DG%d %s' % (gdim, s['degree'], 'grad '+s['tangent'] if s['grad'] else 'value')
    return label


def cases(grad, degs):
    return st.fixed_dictionaries(dict(graph=GRAPH, degree=st.sampled_from(degs), f=SEED, pick=SEED, visits=st.integers(1, 4),
                                      grad=st.just(grad), tangent=st.sampled_from(['array', 'tuple', 'constant', 'function'])))


SUBCHECKS = [Sub('value', cases(False, (0, 1, 2)), body, quick=150, thorough=3000, chunks=3),
             Sub('gradient', cases(True, (1, 2, 3)), body, quick=150, thorough=3000, chunks=3)]
