'''Curves in 3d meshes and averaging shapes with reference integration'''
from lib import *
from numpy.polynomial.legendre import leggauss
from xii.assembler.average_shape import Circle, Disk, Square, SquareRim


def frame(n):
    n = n/np.linalg.norm(n)
    a = np.eye(3)[np.argmin(np.abs(n))]
    e1 = np.cross(n, a)
    e1 /= np.linalg.norm(e1)
    return e1, np.cross(n, e1), n


def line_mesh(x, cells):
    mesh = df.Mesh()
    ed = df.MeshEditor()
    ed.open(mesh, 'interval', 1, x.shape[1])
    ed.init_vertices(len(x))
    for i, xi in enumerate(x):
        ed.add_vertex(i, xi)
    ed.init_cells(len(cells))
    for i, c in enumerate(cells):
        ed.add_cell(i, np.array(c, dtype='uintp'))
    ed.close()
    return mesh


# {'mesh': {...}, 'curve': 'edges' | 'free', 'cs': seed, 'nc': number of cells}
CURVE = st.fixed_dictionaries(dict(
    mesh=st.fixed_dictionaries(dict(k=st.just('cube'), n=st.just([3, 3, 3]), jit=st.none() | SEED, aff=st.integers(0, 3), refine=st.none())),
    kind=st.sampled_from(['edges', 'free']), seed=SEED, nc=st.integers(1, 4)))


def curve_in_cube(s):
    '''(3d mesh, line mesh) where the latter is at least 0.25 (in ref. coordinates) away from boundary'''
    from xii import EmbeddedMesh
    spec = s['mesh']
    mesh = mesh_of(spec)
    rng = rng_of(s['seed'])
    if s['kind'] == 'edges':
        f = df.MeshFunction('size_t', mesh, 1, 0)
        mesh.init(1, 0)
        X = ref_coords(mesh, spec)
        inside = np.all(np.logical_and(X > 0.25, X < 0.75), axis=1)
        e2v = mesh.topology()(1, 0)
        ok = [e for e in range(mesh.num_entities(1)) if all(inside[v] for v in e2v(e))]
        for e in rng.permutation(ok)[:s['nc']]:
            f[int(e)] = 1
        return mesh, EmbeddedMesh(f, 1)
    x = rng.uniform(0.3, 0.7, (s['nc']+1, 3))
    if rng.randint(3) == 0:
        x[:, :2] = x[0, :2]   # Along the axis
        x[:, 2] = np.linspace(0.3, 0.7, len(x))
    cells = [(i, i+1) if rng.randint(2) else (i+1, i) for i in range(s['nc'])]
    if spec.get('aff'):
        A, b = affine_map(spec['aff'], 3)
        x = x@A.T + b
    return mesh, line_mesh(x, cells)


# {'kind':, 'size': seed, 'const': bool, 'degree': int}
def shapes(kinds, degree):
    return st.fixed_dictionaries(dict(kind=st.sampled_from(kinds), size=SEED, const=st.booleans(), degree=degree))


RMAX = 0.1


class Ref:
    '''Shape and its reference'''
    def __init__(self, s):
        rng = rng_of(s['size'])
        self.kind = s['kind']
        R = RMAX*rng.uniform(0.3, 0.8)
        c = rng.uniform(-1, 1, 3)
        self.degree = s['degree']
        if self.kind in ('circle', 'disk'):
            self.radius = (lambda x: R) if s['const'] else (lambda x: R*(1+0.2*np.sin(np.dot(c, x)*3)))
            make = Circle if self.kind == 'circle' else Disk
            self.shape = make(R if s['const'] else self.radius, degree=s['degree'])
        else:
            make = SquareRim if self.kind == 'rim' else Square
            # The corner has to be in plane with normal along the curve, which is what the harness tells here
            self.n = None
            self.t = rng.uniform(0, 2*np.pi)
            self.size = (lambda x: R) if s['const'] else (lambda x: R*(1+0.2*np.sin(np.dot(c, x)*3)))
            self.shape = make(self.corner, degree=s['degree'])

    def corner(self, x0):
        e1, e2, _ = frame(self.n)
        return x0 + self.size(x0)*(np.cos(self.t)*e1 + np.sin(self.t)*e2)

    def nodes(self, x0, n, m=12):
        '''Quadrature of the harness'''
        e1, e2, n = frame(n)
        if self.kind == 'circle':
            R, t = self.radius(x0), 2*np.pi*np.arange(m)/m
            return [x0 + R*(np.cos(a)*e1 + np.sin(a)*e2) for a in t], np.ones(m)/m, 2*np.pi*R
        if self.kind == 'disk':
            R, t = self.radius(x0), 2*np.pi*np.arange(m)/m
            q, w = leggauss(6)
            pts, wts = [], []
            for r, wr in zip(0.5*(1+q), 0.5*w):
                for a in t:
                    pts.append(x0 + R*r*(np.cos(a)*e1 + np.sin(a)*e2))
                    wts.append(2*r*wr/m)
            return pts, np.array(wts), np.pi*R**2
        # Squares
        P = self.corner(x0)
        v = P - x0
        f = np.cross(n, v)
        C = [x0+v, x0+f, x0-v, x0-f]
        a = np.sqrt(2)*np.linalg.norm(v)
        q, w = leggauss(6)
        pts, wts = [], []
        if self.kind == 'rim':
            for A, B in zip(C, C[1:] + C[:1]):
                for xi, wi in zip(q, w):
                    pts.append(0.5*A*(1-xi) + 0.5*B*(1+xi))
                    wts.append(wi/8)
            return pts, np.array(wts), 4*a
        for xi, wi in zip(q, w):
            for xj, wj in zip(q, w):
                pts.append(C[0] + 0.5*(C[1]-C[0])*(1+xi) + 0.5*(C[3]-C[0])*(1+xj))
                wts.append(wi*wj/4)
        return pts, np.array(wts), a**2

    def mean(self, p, x0, n):
        pts, w, _ = self.nodes(x0, n)
        return sum(wi*np.array(p(x)) for x, wi in zip(pts, w))

    def own_mean(self, f, x0, n):
        '''With the points of the shape's quadrature'''
        q = self.shape.quadrature(np.array(x0), np.array(n))
        w = np.array(q.weights)
        return sum(wi*np.array(f(x)) for x, wi in zip(q.points, w))/w.sum()


class Locator:
    '''Cells of mesh containing the point'''
    def __init__(self, mesh):
        X = mesh.coordinates()
        self.o = X[mesh.cells()[:, 0]]
        T = np.stack([X[mesh.cells()[:, i+1]] - self.o for i in range(mesh.cells().shape[1]-1)], axis=2)
        self.Ti = np.linalg.inv(T)

    def __call__(self, x, tol=1E-9):
        lam = np.einsum('ijk,ik->ij', self.Ti, x - self.o)
        return np.where(np.minimum(lam.min(axis=1), 1-lam.sum(axis=1)) > -tol)[0]


def tangent(mesh, c):
    a, b = mesh.coordinates()[mesh.cells()[c]]
    return b - a


def nodal_values(TV, b):
    '''Representation of the functional q -> b(q)'''
    q = df.TestFunction(TV)
    g = df.Function(TV)
    M = df.assemble(df.inner(df.TrialFunction(TV), q)*df.dx)
    df.solve(M, g.vector(), b, 'lu')
    close(arr(M*g.vector()), arr(b), what='solver of the harness')
    return g


def at_nodes(g):
    '''Iterate over (cell, node, values)'''
    TV = g.function_space()
    gv = g.vector().get_local()
    comps = [TV] if TV.num_sub_spaces() == 0 else [TV.sub(i) for i in range(TV.num_sub_spaces())]
    el = comps[0].element()
    dms = [C.dofmap() for C in comps]
    for c in range(TV.mesh().num_cells()):
        for i, x in enumerate(el.tabulate_dof_coordinates(df.Cell(TV.mesh(), c))):
            yield c, x, np.array([gv[dm.cell_dofs(c)[i]] for dm in dms])
