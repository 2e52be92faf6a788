'''Meshes, functions and strategies shared by the checks. All builders are functions of JSON specs.'''
import itertools, logging, math, os, sys
import numpy as np
import dolfin as df

df.set_log_level(50)
try:
    import ufl_legacy
    ufl_legacy.set_level(50)
    logging.getLogger('FFC').setLevel(50)
    logging.getLogger('UFL_LEGACY').setLevel(50)
except Exception:
    pass

from hypothesis import strategies as st
from core import Violation, require, close, Sub, raises


def rng_of(seed):
    return np.random.RandomState(seed % 2**32)


def vals(seed, n, lo=-1., hi=1.):
    return rng_of(seed).uniform(lo, hi, n)


SEED = st.integers(0, 2**31-1)

# Meshes -------------------------------------------------------------------------------------------

def affine_map(k, gdim):
    '''A few well conditioned affine maps'''
    if k == 0:
        return np.eye(gdim), np.zeros(gdim)
    R = rng_of(1000+k)
    Q, _ = np.linalg.qr(R.randn(gdim, gdim))
    D = np.diag(R.uniform(0.5, 2, gdim))
    return Q@D, R.uniform(-2, 2, gdim)


def mesh_of(spec):
    '''
    {'k': 'sq'|'cube'|'line', 'n': [...], 'diag': .., 'jit': seed or None, 'aff': int, 'refine': seed or None}
    '''
    kind, n = spec['k'], spec['n']
    if kind == 'sq':
        mesh = df.UnitSquareMesh(n[0], n[1], spec.get('diag', 'right'))
    elif kind == 'cube':
        mesh = df.UnitCubeMesh(*n)
    elif kind == 'line':
        mesh = df.UnitIntervalMesh(n[0])
    else:
        raise ValueError(kind)
    gdim = mesh.geometry().dim()

    if spec.get('refine') is not None:
        cf = df.MeshFunction('bool', mesh, mesh.topology().dim(), False)
        cf.array()[:] = vals(spec['refine'], mesh.num_cells()) > 0.4
        mesh = df.refine(mesh, cf)

    if spec.get('jit') is not None:
        x = mesh.coordinates()
        h = 0.22*mesh.hmin()/math.sqrt(gdim)/2
        inside = np.all(np.logical_and(x > 1E-10, x < 1-1E-10), axis=1)
        dx = vals(spec['jit'], x.size).reshape(x.shape)*h
        x[inside] += dx[inside]
    if spec.get('aff'):
        A, b = affine_map(spec['aff'], gdim)
        x = mesh.coordinates()
        x[:] = x@A.T + b
    # Trees/geometry computed from now on
    return mesh


def mesh2d(nmax=4, refine=True):
    return st.fixed_dictionaries(dict(
        k=st.just('sq'), n=st.tuples(st.integers(1, nmax), st.integers(1, nmax)).map(list),
        diag=st.sampled_from(['right', 'left', 'crossed', 'right/left']),
        jit=st.none() | SEED, aff=st.integers(0, 5),
        refine=(st.none() | SEED) if refine else st.none()))


def mesh3d(nmax=2, refine=False):
    return st.fixed_dictionaries(dict(
        k=st.just('cube'), n=st.tuples(*[st.integers(1, nmax)]*3).map(list),
        jit=st.none() | SEED, aff=st.integers(0, 5),
        refine=(st.none() | SEED) if refine else st.none()))


def ref_coords(mesh, spec):
    '''Entities midpoints etc. are classified in the reference domain'''
    x = mesh.coordinates()
    if spec.get('aff'):
        A, b = affine_map(spec['aff'], mesh.geometry().dim())
        return np.linalg.solve(A, (x-b).T).T
    return np.array(x)


# Marking ------------------------------------------------------------------------------------------
# {'how': 'random'|'boundary'|'all'|'interior'|'one', 'seed':, 'ntags': }

MARK = st.fixed_dictionaries(dict(how=st.sampled_from(['random', 'random', 'random', 'boundary', 'all', 'interior', 'one']),
                                  seed=SEED, ntags=st.integers(1, 3)))


def mark_entities(mesh, edim, spec):
    '''MeshFunction with tags 0 (unmarked), 1...ntags; at least one entity gets each tag'''
    f = df.MeshFunction('size_t', mesh, edim, 0)
    mesh.init(edim)
    n = mesh.num_entities(edim)
    how, ntags = spec['how'], spec['ntags']
    rng = rng_of(spec['seed'])
    tags = rng.randint(1, ntags+1, n)
    tdim = mesh.topology().dim()
    mesh.init(edim, tdim)
    if how == 'random':
        on = rng.uniform(0, 1, n) < rng.choice([0.15, 0.4, 0.8])
    elif how == 'all':
        on = np.ones(n, dtype=bool)
    elif how == 'one':
        on = np.zeros(n, dtype=bool)
        on[rng.randint(n)] = True
    else:
        if edim == tdim-1:
            bdry = np.array([e.num_entities(tdim) == 1 for e in df.entities(mesh, edim)])
        else:
            bm = df.MeshFunction('size_t', mesh, tdim-1, 0)
            df.DomainBoundary().mark(bm, 1)
            bdry = np.zeros(n, dtype=bool)
            if edim < tdim-1:
                mesh.init(tdim-1, edim)
                for facet in df.SubsetIterator(bm, 1):
                    bdry[facet.entities(edim)] = True
            else:
                for facet in df.SubsetIterator(bm, 1):
                    bdry[facet.entities(edim)] = True
        on = bdry if how == 'boundary' else ~bdry
    a = np.where(on, tags, 0)
    for t in range(1, ntags+1):
        if not np.any(a == t):
            a[rng.randint(n)] = t
    present = sorted(set(a) - {0})
    f.array()[:] = a
    return f, [int(t) for t in present]


def facet_of_cell(bm, mesh):
    '''For each cell of bm the entity of mesh with the same vertex coordinates. Our own matching'''
    edim = bm.topology().dim()
    mesh.init(edim, 0)
    x, y = mesh.coordinates(), bm.coordinates()
    e2v = mesh.topology()(edim, 0)
    table = {}
    for e in range(mesh.num_entities(edim)):
        table[tuple(sorted(tuple(x[v]) for v in e2v(e)))] = e
    return [table[tuple(sorted(tuple(y[v]) for v in c))] for c in bm.cells()]


def entity_cells(mesh, edim):
    tdim = mesh.topology().dim()
    mesh.init(edim, tdim)
    c = mesh.topology()(edim, tdim)
    return [list(map(int, c(e))) for e in range(mesh.num_entities(edim))]


# Functions ----------------------------------------------------------------------------------------

def rand_fun(V, seed):
    f = df.Function(V)
    f.vector().set_local(vals(seed, V.dim()))
    f.vector().apply('insert')
    return f


def eval_in_cell(f, x, cell):
    out = np.zeros(int(np.prod(f.ufl_shape)) if f.ufl_shape else 1)
    f.eval_cell(out, np.array(x, dtype=float), df.Cell(f.function_space().mesh(), cell))
    return out


def dg_space(mesh, degree, shape):
    '''DG space of given value shape'''
    cell = mesh.ufl_cell()
    if shape == ():
        elm = df.FiniteElement('Discontinuous Lagrange', cell, degree)
    elif len(shape) == 1:
        elm = df.VectorElement('Discontinuous Lagrange', cell, degree, dim=shape[0])
    else:
        elm = df.TensorElement('Discontinuous Lagrange', cell, degree, shape=shape)
    return df.FunctionSpace(mesh, elm)


def fill_dg(g, value):
    '''Set dofs of g in a DG space (scalar, vector, tensor Lagrange) so that g = value(cell_index, x) at the nodes'''
    V = g.function_space()
    mesh = V.mesh()
    comps = V.num_sub_spaces()
    vec = g.vector().get_local()
    if comps == 0:
        dm, el = V.dofmap(), V.element()
        for cell in df.cells(mesh):
            xs = el.tabulate_dof_coordinates(cell)
            for d, x in zip(dm.cell_dofs(cell.index()), xs):
                vec[d] = np.ravel(value(cell.index(), x))[0]
    else:
        subs = [V.sub(i) for i in range(comps)]
        el = subs[0].element()
        dms = [s.dofmap() for s in subs]
        for cell in df.cells(mesh):
            c = cell.index()
            xs = el.tabulate_dof_coordinates(cell)
            vs = [np.ravel(value(c, x)) for x in xs]
            for i, dm in enumerate(dms):
                for d, v in zip(dm.cell_dofs(c), vs):
                    vec[d] = v[i]
    g.vector().set_local(vec)
    g.vector().apply('insert')
    return g


class Poly:
    '''Polynomial R^gdim -> R^m of total degree <= deg with coefficients from the seed'''
    def __init__(self, gdim, deg, m, seed):
        self.exps = [e for e in itertools.product(range(deg+1), repeat=gdim) if sum(e) <= deg]
        self.c = vals(seed, m*len(self.exps)).reshape((m, -1))

    def __call__(self, x):
        mono = np.array([np.prod([xi**e for xi, e in zip(x, ex)]) for ex in self.exps])
        return self.c@mono

    def grad(self, x):
        '''m x gdim'''
        gdim = len(self.exps[0])
        out = np.zeros((len(self.c), gdim))
        for j in range(gdim):
            mono = np.array([ex[j]*(x[j]**(ex[j]-1) if ex[j] else 0)
                             * np.prod([x[i]**ex[i] for i in range(gdim) if i != j]) for ex in self.exps])
            out[:, j] = self.c@mono
        return out


class PyExpr(df.UserExpression):
    '''Python callable as an Expression'''
    def __init__(self, f, shape, **kwargs):
        self.f_, self.shape_ = f, tuple(shape)
        super().__init__(**kwargs)

    def eval(self, values, x):
        values[:] = np.ravel(self.f_(x))

    def value_shape(self):
        return self.shape_


def interp(f, V):
    return df.interpolate(PyExpr(f, V.ufl_element().value_shape(), element=V.ufl_element()), V)


def arr(v):
    '''Vector -> array'''
    import block
    if isinstance(v, block.block_vec):
        return np.concatenate([arr(b) for b in v])
    return v.get_local()


def dense(A):
    '''PETScMatrix or cbc.block matrix -> numpy'''
    import xii
    if not hasattr(A, 'array') or isinstance(A, (list, tuple)):
        A = xii.ii_convert(A)
    return np.array(A.array())
