'''Reduced test, trial functions and coefficients give consistent tensors'''
from zoo import *

RULE = ('Case = (world of meshes, markers, normals, shapes, weights..., one of its 20-70 operators (or two of them with the same target mesh), coefficients). Non-trivial: the assembled tensors are not zero.')
ASSUMPTIONS = ['dense linear algebra of numpy']


def tensor(form):
    A = ii_assemble(form)
    if isinstance(A, (int, float)):
        return float(A)
    if isinstance(A, df.GenericVector):
        return arr(A)
    return np.array(ii_convert(A).array())


def body(s):
    world = World(dict(kind=s['kind'], mesh=s['mesh'], seed=s['seed']))
    names = [n for n in sorted(world.ops) if n.startswith(s['family'])]
    name = names[s['op'] % len(names)]
    op = world.ops[name]
    R, V, T, dx = op.apply, op.V, op.T, op.dx
    u, v, p, q = df.TrialFunction(V), df.TestFunction(V), df.TrialFunction(T), df.TestFunction(T)
    f, g, w = rand_fun(V, s['u']), rand_fun(V, s['u']+1), rand_fun(T, s['u']+2)
    k = rand_fun(df.FunctionSpace(op.mesh, 'DG', 0), s['u']+3)
    F, G, W = arr(f.vector()), arr(g.vector()), arr(w.vector())
    al, be = map(float, np.round(vals(s['u']+4, 2), 3))

    A = tensor(df.inner(R(u), q)*dx)
    B = tensor(df.inner(p, R(v))*dx)
    a = 10*(1 + np.max(np.abs(A)))
    close(B, A.T, what=name + ': test vs trial function', scale=a)
    close(tensor(df.inner(w, R(v))*dx), A.T@W, what=name + ': linear form with reduced test function', scale=a)
    # Form with both
    C = tensor(k*df.inner(R(u), R(v))*dx)
    c = 10*(1 + np.max(np.abs(C)))*(1+V.dim()**0.5)
    close(C, C.T, what=name + ': symmetry', scale=c)
    if op.fun:
        close(tensor(df.inner(R(f), q)*dx), A@F, what=name + ': function', scale=a)
        close(tensor(df.inner(R(f), w)*dx), W@A@F, what=name + ': functional', scale=a*(1+np.abs(W).sum()))
        close(tensor(k*df.inner(R(f), R(v))*dx), C@F, what=name + ': function and test function', scale=c)
        close(tensor(k*df.inner(R(g), R(f))*dx), G@C@F, what=name + ': two functions', scale=c*(1+np.abs(G).sum()))
        # Current values
        h = df.Function(V)
        Rh = R(h)
        for x, what in ((F, 'new values'), (al*F + be*G, 'linear combination')):
            h.vector().set_local(x)
            close(tensor(df.inner(Rh, q)*dx), A@x, what=name + ': ' + what, scale=a)
        # Nonlinear weight
        nl = (1+df.inner(R(f), R(f)))
        D = tensor(nl*df.inner(R(u), q)*dx)
        close(tensor(nl*df.inner(R(f), q)*dx), D@F, what=name + ': coefficient and function', scale=10*(1+np.max(np.abs(D))))
        close(tensor(nl*df.inner(p, R(v))*dx), D.T, what=name + ': coefficient and test function', scale=10*(1+np.max(np.abs(D))))
    # Scaling
    close(tensor(df.Constant(al)*df.inner(R(u), q)*dx), al*A, what=name + ': scaled', scale=a)
    close(tensor(-df.inner(p, R(v))*dx), -A.T, what=name + ': minus', scale=a)
    # Sums; with a plain integral, with a weighted integral
    M = np.array(df.assemble(k*df.inner(p, q)*dx).array())
    A2 = tensor(k*df.inner(R(u), q)*dx)
    close(tensor(df.inner(R(u), q)*dx - df.Constant(be)*k*df.inner(R(u), q)*dx), A - be*A2, what=name + ': sum of integrals', scale=a)
    close(tensor((1-df.Constant(be)*k)*df.inner(R(u), q)*dx), A - be*A2, what=name + ': sum in the integrand', scale=a)
    N = np.array(df.assemble(df.inner(u, v)*df.dx).array())
    if op.fun:
      # Flux is for a scalar argument so that form would have two of them
      close(tensor(df.inner(u, v)*df.dx + k*df.inner(R(u), R(v))*dx), N + C, what=name + ': added to an integral over the domain', scale=c)
    if op.fun:
        close(tensor(df.inner(w, q)*dx + df.inner(R(f), q)*dx), arr(df.assemble(df.inner(w, q)*dx)) + A@F, what=name + ': next to not reduced function', scale=a)
        close(tensor(df.inner(w + R(f), q)*dx), arr(df.assemble(df.inner(w, q)*dx)) + A@F, what=name + ': together with not reduced function', scale=a)
    # Other operators of the same mesh
    others = [n for n in sorted(world.ops) if world.ops[n].mesh.id() == op.mesh.id() and world.ops[n].V == V and world.ops[n].T == T and n != name]
    if others:
        other = others[s['other'] % len(others)]
        S = world.ops[other].apply
        E = tensor(df.inner(S(u), q)*dx)
        close(tensor(df.inner(R(u), q)*dx + df.inner(S(u), q)*dx), A + E, what=f'{name} + {other}', scale=2*a)
        close(tensor(k*df.inner(R(u), q)*dx - df.Constant(2)*df.inner(S(u), q)*dx), A2 - 2*E, what=f'{name} - {other}', scale=2*a)
        if op.fun:
            b = tensor(df.inner(R(f), q)*dx + df.inner(S(g), q)*dx + df.inner(S(f), q)*dx)
            close(b, A@F + E@(F+G), what=f'{name} + {other} of functions', scale=4*a)
    if np.max(np.abs(A)) > 1E-8:
        return '%s %s' % (s['kind'], name if s['kind'] != 'curve' else name.split(' ')[0])


def cases(kind, family):
    mesh = {'flat': mesh2d(3), 'curve': mesh2d(1, refine=False),
            'space': st.fixed_dictionaries(dict(k=st.just('cube'), n=st.just([2, 2, 2]), jit=st.none() | SEED, aff=st.integers(0, 3), refine=st.none()))}[kind]
    return st.fixed_dictionaries(dict(kind=st.just(kind), family=st.just(family), mesh=mesh, seed=SEED, op=st.integers(0, 200), other=st.integers(0, 200), u=SEED))


FAMILIES = {'flat': ['trace CG1', 'trace DG1', 'trace DG0', 'trace vCG1', 'ttrace', 'smean', 'mean', 'restrict', 'inject', 'patch'],
            'space': ['average', 'flux', 'trace CG1', 'trace DG1', 'patch'],
            'curve': ['point', 'grad']}

SUBCHECKS = [Sub('%s-%s' % (kind, f.replace(' ', '')), cases(kind, f), body, quick=8, thorough=250)
             for kind in FAMILIES for f in FAMILIES[kind]]
