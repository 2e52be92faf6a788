'''
Every reduction operator on generated data. World(spec) owns meshes, spaces and the data of operators (normals, markers, weights ...)
which can be changed; its operators are addressed by their names and can be assembled in each of the roles.
Import after `from xii import *`
'''
from xii import *
from shapes import *
from xii.assembler.average_shape import Circle, Disk

# {'kind': 'flat'|'space'|'curve', 'mesh':, 'seed':}


class Op:
    '''v in V -> reduced v. Integrals over mesh, with the test/trial functions in T'''
    def __init__(self, V, apply, mesh, T, fun=True):
        self.V, self.apply, self.mesh, self.T, self.fun = V, apply, mesh, T, fun
        self.dx = df.dx(domain=mesh)


class World:
    def __init__(self, spec):
        self.spec, self.rng = spec, rng_of(spec['seed'])
        self.mesh = mesh_of(spec['mesh'])
        self.spaces = {}
        self.ops = {}
        getattr(self, 'build_' + spec['kind'])()

    def space(self, mesh, *elm):
        key = (mesh.id(), ) + elm
        if key not in self.spaces:
            if elm[0] == 'R':
                self.spaces[key] = df.FunctionSpace(mesh, 'R', 0)
            elif elm[0][0] == 'v':
                self.spaces[key] = df.VectorFunctionSpace(mesh, elm[0][1:], elm[1])
            else:
                self.spaces[key] = df.FunctionSpace(mesh, *elm)
        return self.spaces[key]

    def markers(self, edim, ntags=2, p=0.5):
        '''All tags are there'''
        mesh = self.mesh
        mesh.init(edim)
        f = df.MeshFunction('size_t', mesh, edim, 0)
        n = mesh.num_entities(edim)
        a = np.where(self.rng.uniform(size=n) < p, self.rng.randint(1, ntags+1, n), 0)
        for t, e in enumerate(self.rng.permutation(n)[:ntags], 1):
            a[e] = t
        f.array()[:] = a
        return f, sorted(set(map(int, a)) - {0})

    # --
    def build_flat(self):
        self.surface()
        self.cellops()
        self.patches()

    def build_space(self):
        # In the cube
        self.surface()
        spec = self.spec['mesh']
        x = self.rng.uniform(0.35, 0.65, (4, 3))
        if spec.get('aff'):
            A, b = affine_map(spec['aff'], 3)
            x = x@A.T + b
        self.curve = line_mesh(x, [(0, 1), (2, 1), (2, 3)])
        curve = self.curve
        curve2 = self.curve2 = line_mesh(x[:2][::-1], [(0, 1)])
        Q2 = self.space(curve2, 'CG', 1)
        r1, r2 = 0.03, 0.06
        shapes = {'circle1': Circle(r1, degree=6), 'circle2': Circle(r2, degree=6), 'circle3': Circle(r2, degree=9),
                  'circle4': Circle(lambda x: r1, degree=6), 'circle5': Circle(lambda x: r1*(1.1 + np.sin(5*np.sum(x))), degree=6),
                  'disk1': Disk(r1, degree=3), 'disk2': Disk(r2, degree=3), 'disk3': Disk(r2, degree=4), 'none': None}
        Q, D = self.space(curve, 'CG', 1), self.space(curve, 'DG', 0)
        for name, shape in shapes.items():
            for elm in (('CG', 1), ('DG', 0)):
                if shape is None and elm[0] == 'DG':
                    continue
                V = self.space(self.mesh, *elm)
                self.ops['average %s %s%d' % ((name, ) + elm)] = Op(V, lambda v, s=shape: Average(v, curve, s), curve, Q)
                if name in ('circle1', 'none') and elm[0] == 'CG':
                    self.ops['average %s CG1 other' % name] = Op(V, lambda v, s=shape: Average(v, curve2, s), curve2, Q2)
            if name.startswith('circle'):
                self.ops['flux %s' % name] = Op(self.space(self.mesh, 'vCG', 1), lambda v, s=shape: FluxAverage(v, curve, s), curve, Q, fun=False)
        self.patches()

    def build_curve(self):
        mesh = self.mesh
        n = 4
        gdim = self.rng.randint(2, 4)
        x = self.rng.uniform(-1, 1, (n+1, gdim))
        # Apart
        x = np.array([[np.cos(t), np.sin(t), 0.3*t][:gdim] for t in np.linspace(0, 4, n+1)]) + 0.05*x
        mesh = self.mesh = line_mesh(x, [(i, i+1) if self.rng.randint(2) else (i+1, i) for i in range(n)])
        R = self.space(mesh, 'R', 0)
        taus = [self.rng.uniform(-1, 1, gdim) for _ in range(2)]
        self.tau = df.Constant(taus[1])
        for elm in (('DG', 0), ('DG', 1)):
            V = self.space(mesh, *elm)
            for vertex in range(1, 4):
                for cell in (vertex-1, vertex):
                    self.ops['point %d %d DG%d' % (vertex, cell, elm[1])] = Op(V, lambda v, p=vertex, c=cell: PointTrace(v, point=p, cell=c), mesh, R)
                    if elm[1] > 0:
                        for i, tau in enumerate((taus[0], self.tau)):
                            self.ops['grad %d %d %d' % (vertex, cell, i)] = Op(V, lambda v, p=vertex, c=cell, t=tau: GradientPointTrace(v, point=p, cell=c, tangent=t), mesh, R)

    # --
    def surface(self):
        mesh, tdim = self.mesh, self.mesh.topology().dim()
        self.ff, tags = self.markers(tdim-1, 3)
        bm = self.bm = EmbeddedMesh(self.ff, tags)
        self.tags = tags
        self.normals = []
        for i in range(2):
            n = df.Function(df.VectorFunctionSpace(bm, 'DG', 0))
            x, gdim = bm.coordinates(), mesh.geometry().dim()
            a = np.zeros((bm.num_cells(), gdim))
            for k, c in enumerate(bm.cells()):
                if gdim == 2:
                    t = x[c[1]] - x[c[0]]
                    a[k] = [t[1], -t[0]]
                else:
                    a[k] = np.cross(x[c[1]] - x[c[0]], x[c[2]] - x[c[0]])
            a /= np.linalg.norm(a, axis=1)[:, None]
            a *= self.rng.choice([-1, 1], bm.num_cells())[:, None]
            fill_dg(n, lambda c, y: a[c])
            self.normals.append(n)
        Q = self.space(bm, 'CG', 1)
        # One sided trace is only defined in the interior
        cells_of = entity_cells(mesh, tdim-1)
        interior = all(len(cells_of[e]) == 2 for e in facet_of_cell(bm, mesh))
        for elm in (('CG', 1), ('DG', 1), ('DG', 0), ('vCG', 1)):
            V = self.space(mesh, *elm)
            name = '%s%d' % elm
            T = self.space(bm, 'vCG', 1) if elm[0] == 'vCG' else Q
            self.ops['trace %s' % name] = Op(V, lambda v: Trace(v, bm), bm, T)
            for tag in [(t, ) for t in tags] + [tuple(tags[:2]), tuple(tags[1:])]:
                self.ops['trace %s tag %r' % (name, tag)] = Op(V, lambda v, t=tag: Trace(v, bm, tag=t), bm, T)
            if elm[0] == 'DG':
                for side in ('+', '-', 'avg', 'jump') if interior else ('avg', 'jump'):
                    for i, n in enumerate(self.normals):
                        self.ops['trace %s %s%d' % (name, side, i)] = Op(V, lambda v, r=side, n=n: Trace(v, bm, restriction=r, normal=n), bm, T)
        # Different surface with some of the facets
        bm2 = self.bm2 = EmbeddedMesh(self.ff, tags[-1:])
        Q2 = self.space(bm2, 'CG', 1)
        for elm in (('CG', 1), ('DG', 1)):
            V = self.space(mesh, *elm)
            self.ops['trace %s%d other' % elm] = Op(V, lambda v: Trace(v, bm2), bm2, Q2)
        V = self.space(mesh, 'CG', 1)
        self.ops['smean other'] = Op(V, lambda v: SurfaceMean(v, bm2), bm2, Q2)
        self.ops['ttrace'] = Op(Q, lambda v: TransposeTrace(v, bm), mesh, V)
        self.ops['smean'] = Op(V, lambda v: SurfaceMean(v, bm), bm, Q)
        c, g = self.c, self.g = df.Constant(1.5), rand_fun(self.space(mesh, 'DG', 0), self.spec['seed']+5)
        df_, _ = self.markers(tdim, 2)
        self.cells_f = df_
        dx1 = df.Measure('dx', domain=mesh, subdomain_data=df_)(1)
        for elm in (('CG', 1), ('DG', 0)):
            W = self.space(mesh, *elm)
            self.ops['mean %s%d' % elm] = Op(W, lambda v: Mean(v), mesh, V)
            self.ops['mean %s%d constant' % elm] = Op(W, lambda v: Mean(v, weight=c), mesh, V)
            self.ops['mean %s%d function' % elm] = Op(W, lambda v: Mean(v, weight=g), mesh, V)
            self.ops['mean %s%d measure' % elm] = Op(W, lambda v: Mean(v, measure=dx1), mesh, V)
            self.ops['mean %s%d function measure' % elm] = Op(W, lambda v: Mean(v, weight=g, measure=dx1), mesh, V)

    def cellops(self):
        mesh, tdim = self.mesh, self.mesh.topology().dim()
        self.cf, tags = self.markers(tdim, 2, 0.9)
        self.subs = [EmbeddedMesh(self.cf, t) for t in tags]
        self.fines = []
        for i in range(2):
            mark = df.MeshFunction('bool', mesh, tdim, True)
            if i:
                mark.array()[:] = self.rng.uniform(size=mesh.num_cells()) < 0.5
                mark.array()[0] = True
            fine = df.refine(mesh, mark)
            fine.parent_entity_map = {mesh.id(): {tdim: dict(enumerate(map(int, fine.data().array('parent_cell', tdim))))}}
            self.fines.append(fine)
        for elm in (('CG', 1), ('DG', 0), ('vCG', 1)):
            V = self.space(mesh, *elm)
            for i, sub in enumerate(self.subs):
                self.ops['restrict %s%d %d' % (elm + (i, ))] = Op(V, lambda v, m=sub: Restriction(v, m), sub, self.space(sub, *elm))
            for i, fine in enumerate(self.fines):
                for method in (None, 'interpolate'):
                    if method and elm[0] == 'DG':
                        continue
                    self.ops['inject %s%d %d %s' % (elm + (i, method))] = Op(V, lambda v, m=fine, k=method: Injection(v, m, not_nested_method=k), fine, self.space(fine, *elm))

    def patches(self):
        mesh, tdim = self.mesh, self.mesh.topology().dim()
        n = self.npatch = min(3, mesh.num_cells())
        self.patch_fs = [self.markers(tdim, n, 0.9)[0] for _ in range(2)]
        gdim = mesh.geometry().dim()
        if not hasattr(self, 'curve'):
            self.curve = line_mesh(self.rng.uniform(0, 1, (3, gdim)), [(0, 1), (1, 2)])
        TV = self.space(self.curve, 'CG', 1)
        self.vertex_fs = []
        for i in range(2):
            f = df.Function(TV)
            f.vector().set_local(self.rng.randint(0, n+1, TV.dim()).astype(float))
            self.vertex_fs.append(f)
        for elm in (('CG', 1), ('DG', 0)):
            V = self.space(mesh, *elm)
            for i in range(2):
                for j in range(2):
                    if elm[0] == 'DG':
                        # NOTE: the patches can be integrated at once. Some are left out
                        for k in range(2):
                            col = {p: 0 for p in range(1, n+1) if k or p > 1}
                            self.ops['patch %s%d %d %d coloring %d' % (elm + (i, j, k))] = Op(V, lambda v, p=self.patch_fs[i], f=self.vertex_fs[j], c=col: CellPatchAverage(v, f, p, c), self.curve, TV)
                    self.ops['patch %s%d %d %d' % (elm + (i, j))] = Op(V, lambda v, p=self.patch_fs[i], f=self.vertex_fs[j]: CellPatchAverage(v, f, p), self.curve, TV)

    # Changes of data -- (name, seed)
    def mutations(self):
        k = self.spec['kind']
        return {'flat': ['normal0', 'normal1', 'weight', 'constant', 'patch', 'vertex', 'markers', 'cells'],
                'space': ['normal0', 'normal1', 'weight', 'constant', 'patch', 'vertex', 'markers', 'cells'],
                'curve': ['tangent']}[k]

    def mutate(self, what, seed):
        rng = rng_of(seed)
        if what.startswith('normal'):
            n = self.normals[int(what[-1])]
            gdim = self.mesh.geometry().dim()
            v = n.vector().get_local().reshape((-1, gdim))
            n.vector().set_local((v*rng.choice([-1, 1], len(v))[:, None]).ravel())
        elif what == 'weight':
            self.g.vector().set_local(rng.uniform(-1, 1, self.g.vector().size()))
        elif what == 'constant':
            self.c.assign(float(rng.uniform(-1, 1)))
        elif what == 'patch':
            f = self.patch_fs[rng.randint(2)]
            f.array()[:] = rng.permutation(f.array())
        elif what == 'vertex':
            f = self.vertex_fs[rng.randint(2)]
            f.vector().set_local(rng.randint(0, self.npatch+1, f.vector().size()).astype(float))
        elif what == 'markers':
            a = self.bm.marking_function.array()
            a[:] = rng.permutation(a)
        elif what == 'cells':
            a = self.cells_f.array()
            a[:] = rng.permutation(a)
        elif what == 'tangent':
            self.tau.assign(df.Constant(rng.uniform(-1, 1, self.mesh.geometry().dim())))

    # Assembly -- {'op':, 'role':, 'seed':}
    ROLES = ('function', 'trial', 'test', 'form', 'functional', 'both')

    def form(self, name, role, seed, data=None):
        '''data: coefficients which are used'''
        op = self.ops[name]
        q, p = df.TestFunction(op.T), df.TrialFunction(op.T)
        v, u = df.TestFunction(op.V), df.TrialFunction(op.V)
        if not op.fun and role in ('function', 'functional'):
            role = 'form'
        f = rand_fun(op.V, seed)
        w = rand_fun(op.T, seed+1)
        if role == 'function':
            return df.inner(op.apply(f), q)*op.dx
        if role == 'trial':
            return df.inner(op.apply(u), q)*op.dx
        if role == 'test':
            return df.inner(p, op.apply(v))*op.dx
        if role == 'form':
            return df.inner(w, op.apply(v))*op.dx
        if role == 'functional':
            return df.inner(op.apply(f), w)*op.dx
        if role == 'both':
            return df.inner(op.apply(u), op.apply(v))*op.dx

    def assemble(self, name, role, seed):
        '''Array, and the object'''
        A = ii_assemble(self.form(name, role, seed))
        if isinstance(A, (int, float)):
            return np.array([float(A)]), None
        if isinstance(A, df.GenericVector):
            return arr(A), A
        A = ii_convert(A)
        return np.array(A.array()), A


def opnames(kind):
    '''Superset of the names in the worlds of this kind'''
    spec = dict(kind=kind, seed=1, mesh=dict(k='cube' if kind == 'space' else 'sq', n=[2, 2, 2], jit=None, aff=0, refine=None))
    return sorted(World(spec).ops)
