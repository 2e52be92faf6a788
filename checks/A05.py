'''Block assembly = block by block'''
from zoo import *
from block import block_mat, block_vec

RULE = ('Case = (world of reduction operators, row and column spaces chosen (with repetition) from the domain, the target and an extra space of an operator; block by block a number, plain form, form with reduced arguments, or a sum of such). '
        'Non-trivial: at least one block has a reduced argument.')
ASSUMPTIONS = ['dolfin assembly of plain forms is trusted, sums of reduced forms are compared with sums of separately assembled integrals']


def tensor(A):
    if isinstance(A, (int, float)):
        return float(A)
    if isinstance(A, df.GenericVector):
        return arr(A)
    return np.array(ii_convert(A).array())


def body(s):
    world = World(dict(kind=s['kind'], mesh=s['mesh'], seed=s['seed']))
    rng = rng_of(s['layout'])
    names = [n for n in sorted(world.ops) if n.startswith(s['family'])]
    name = names[s['op'] % len(names)]
    op = world.ops[name]
    # Another one with the spaces
    same = [n for n in names if world.ops[n].mesh.id() == op.mesh.id() and world.ops[n].V == op.V and world.ops[n].T == op.T]
    op2 = world.ops[same[rng.randint(len(same))]]
    X = df.FunctionSpace(op.V.mesh(), 'DG', 1)
    spaces = [op.V, op.T, X]
    dxV, dxT = df.dx(domain=op.V.mesh()), op.dx
    meshV, meshT = op.V.mesh().id(), op.mesh.id()
    kV, kT = rand_fun(df.FunctionSpace(op.V.mesh(), 'DG', 0), s['layout']+1), rand_fun(df.FunctionSpace(op.mesh, 'DG', 0), s['layout']+2)
    reduced = [0]

    def scalar(u):
        return u if u.ufl_shape == () else u[0] + u[1]

    def on(i, mesh, arg):
        '''Argument of i-th space on the mesh'''
        V = spaces[i]
        u = arg(V)
        out = []
        if V.mesh().id() == mesh:
            out.append(scalar(u))
        if i == 0 and mesh == meshT:
            reduced[0] += 1
            out.extend([scalar(op.apply(u)), scalar(op2.apply(u))])
        return out

    def integral(i, j=None):
        '''(integral, is it plain)'''
        mesh = [meshV, meshT, meshT][rng.randint(3)]
        dx, k = (dxV, kV) if mesh == meshV else (dxT, kT)
        before = reduced[0]
        vs = on(i, mesh, df.TestFunction)
        if not vs:
            return None
        if j is not None:
            us = on(j, mesh, df.TrialFunction)
            if not us:
                return None
        else:
            us = [df.Constant(0.5), k]
        l, r = rng.randint(len(vs)), rng.randint(len(us))
        v, u = vs[l], us[r]
        plain = reduced[0] == before or (l == 0 and spaces[i].mesh().id() == mesh and (j is None or (r == 0 and spaces[j].mesh().id() == mesh)))
        if (l > 0 and r > 0 and j is not None) and l != r and meshV == meshT:
            # Two reductions at once is not supported
            return None
        c = [1, k, df.Constant(-2)][rng.randint(3)]
        return c*df.inner(u, v)*dx, plain

    def entry(i, j=None):
        '''(form or number, its tensor, can be only plain)'''
        kind = rng.randint(6)
        if kind == 0 and j is not None:
            number = [0, 0, 2, 0.25, -1.5, 1][rng.randint(6)]
            return number, number
        got = [g for g in (integral(i, j) for _ in range(1 + rng.randint(3))) if g is not None]
        if not got:
            return 0, 0
        forms = [f for f, _ in got]
        form = sum(forms[1:], forms[0])
        if all(p for _, p in got):
            return form, tensor(df.assemble(form))
        return form, sum(tensor(ii_assemble(f)) for f in forms)

    m, n = rng.randint(1, 4), rng.randint(1, 4)
    rows, cols = rng.randint(0, 3, m), rng.randint(0, 3, n)
    if not op.fun:
        # Flux averaged arguments are from a scalar space
        rows, cols = np.where(rows == 0, 1, rows), cols
    # List of forms
    forms = [[entry(int(i), int(j)) for j in cols] for i in rows]
    if all(not isinstance(f, df.cpp.fem.Form) and isinstance(f, (int, float)) for r in forms for f, _ in r):
        return None
    AA = ii_assemble([[f for f, _ in r] for r in forms])
    require(isinstance(AA, block_mat) and AA.blocks.shape == (m, n), f'shape {AA.blocks.shape} of {m}, {n}')
    full = [[None]*n for _ in range(m)]
    for i in range(m):
        for j in range(n):
            f, A = forms[i][j]
            what = f'{name}: block {i}, {j} of {m}, {n}'
            if isinstance(f, (int, float)):
                require(isinstance(AA[i][j], (int, float)) and AA[i][j] == f, f'{what}: number {f} became {AA[i][j]}')
                full[i][j] = f
            else:
                scale = 10*(1 + np.max(np.abs(A)))
                close(tensor(AA[i][j]), A, what=what, scale=scale, tol=1E-10)
                close(tensor(ii_assemble(f)), A, what=what + ' alone', scale=scale, tol=1E-10)
                full[i][j] = A
    # The action
    is_num = lambda x: isinstance(x, (int, float))
    if all(any(not is_num(x) for x in r) for r in full) and all(any(not is_num(full[i][j]) for i in range(m)) for j in range(n)):
        ok = all(not is_num(full[i][j]) or full[i][j] == 0 or (rows[i] == cols[j] and i == j) for i in range(m) for j in range(n))
        if ok:
            nr, nc = [spaces[i].dim() for i in rows], [spaces[j].dim() for j in cols]
            D = np.block([[x*np.eye(nr[i], nc[j]) if is_num(x) else x for j, x in enumerate(r)] for i, r in enumerate(full)])
            scale = 10*(1 + np.max(np.abs(D)))
            close(dense(AA), D, what=name + ': monolithic', scale=scale, tol=1E-10)
            x = vals(s['seed'], D.shape[1])
            xx = AA.create_vec(1)
            at = np.cumsum([0] + nc)
            for k in range(n):
                xx[k].set_local(x[at[k]:at[k+1]])
            close(arr(AA*xx), D@x, what=name + ': action', scale=scale*(1+D.shape[1]), tol=1E-10)
    # Vector
    pieces = [entry(int(i)) for i in rows]
    if any(not is_num(f) for f, _ in pieces):
        bb = ii_assemble([f for f, _ in pieces])
        require(isinstance(bb, block_vec) and len(bb) == m, 'block vector')
        for i, (f, b) in enumerate(pieces):
            if is_num(f):
                require(bb[i] == f, f'number {f} in vector became {bb[i]}')
            else:
                close(arr(bb[i]), b, what=f'{name}: block {i}, of {m}')
    # Ragged
    if m > 1:
        raises((AssertionError, ValueError), lambda: ii_assemble([[f for f, _ in r][:n-(i == 0 and n > 1)] + [0]*(i == 0 and n == 1) for i, r in enumerate(forms)]), 'ragged list')
    return '%s %s' % (s['kind'], s['family']) if reduced[0] else None


def cases(kind, family):
    mesh = {'flat': mesh2d(3), 'curve': mesh2d(1, refine=False),
            'space': st.fixed_dictionaries(dict(k=st.just('cube'), n=st.just([2, 2, 2]), jit=st.none() | SEED, aff=st.integers(0, 3), refine=st.none()))}[kind]
    return st.fixed_dictionaries(dict(kind=st.just(kind), family=st.just(family), mesh=mesh, seed=SEED, op=st.integers(0, 200), layout=SEED))


def mixed(s):
    world = World(dict(kind=s['kind'], mesh=s['mesh'], seed=s['seed']))
    rng = rng_of(s['layout'])
    arity = s['arity']
    ops = {n: op for n, op in world.ops.items() if arity or op.fun}
    # Operators of one space, of possibly different kinds and target meshes
    V = world.ops[sorted(ops)[rng.randint(len(ops))]].V
    names = [n for n in sorted(ops) if ops[n].V == V]
    # Flux averaged arguments are scalar so UFL does not combine them with others
    flux = [n for n in names if n.startswith('flux')]
    alone = bool(flux) and rng.randint(2)
    names = flux if alone else [n for n in names if n not in flux]
    by_kind = {}
    for n in names:
        by_kind.setdefault((n.split()[0], ops[n].mesh.id()), []).append(n)
    kinds = [sorted(by_kind)[i] for i in rng.permutation(len(by_kind))]
    chosen = [by_kind[k][rng.randint(len(by_kind[k]))] for k in (kinds*2)[:s['n']]]
    scalar = lambda u: u if u.ufl_shape == () else u[0] - 2*u[1]
    f = rand_fun(V, s['layout'])
    args = [df.TestFunction(V), df.TrialFunction(V)]
    dxV = df.dx(domain=V.mesh())

    def term(op):
        k = [df.Constant(rng.uniform(1, 2)), rand_fun(df.FunctionSpace(op.mesh, 'DG', 0), rng.randint(1000))][rng.randint(2)]
        if arity == 0:
            return k*scalar(op.apply(f))**rng.randint(1, 3)*op.dx
        if arity == 1:
            return k*scalar(op.apply(args[0]))*(scalar(op.apply(f)) if op.fun and rng.randint(2) else 1)*op.dx
        if op.fun and rng.randint(2):
            k = k*scalar(op.apply(f))
        return k*df.inner(op.apply(args[1]), op.apply(args[0]))*op.dx

    forms = [term(ops[n]) for n in chosen]
    if s['plain'] and not alone:
        forms.insert(rng.randint(len(forms)+1), [scalar(f)**2*dxV, scalar(f)*scalar(args[0])*dxV, df.inner(*args)*dxV][arity])
    get = (lambda a: ii_assemble(a)) if arity == 0 else (lambda a: tensor(ii_assemble(a)))
    pieces = [get(a) for a in forms]
    scale = 10*(1 + max(np.max(np.abs(p)) for p in pieces))
    close(get(sum(forms[1:], forms[0])), sum(pieces), what='sum of %s' % chosen, scale=scale, tol=1E-10)
    # Another order
    perm = rng.permutation(len(forms))
    block = [sum([forms[i] for i in perm[1:]], forms[perm[0]]), forms[0]]
    if arity == 1:
        block = ii_assemble(block)
        for b, b0 in zip(block, (sum(pieces), pieces[0])):
            close(arr(b), b0, what='block of sums of %s' % chosen, scale=scale, tol=1E-10)
    elif arity == 2:
        block = ii_assemble([block])
        for b, b0 in zip(block[0], (sum(pieces), pieces[0])):
            close(tensor(b), b0, what='block of sums of %s' % chosen, scale=scale, tol=1E-10)
    return '%s %d: %d kinds' % (s['kind'], arity, len({(n.split()[0], ops[n].mesh.id()) for n in chosen}))


FAMILIES = {'flat': ['trace CG1', 'trace DG1', 'trace vCG1', 'smean', 'mean', 'restrict', 'inject', 'patch'],
            'space': ['average', 'flux', 'trace CG1', 'patch'],
            'curve': ['point', 'grad']}

SUBCHECKS = [Sub('%s-%s' % (kind, f.replace(' ', '')), cases(kind, f), body, quick=10, thorough=300)
             for kind in FAMILIES for f in FAMILIES[kind]]
for kind in FAMILIES:
    mixed_cases = lambda kind: st.tuples(cases(kind, ''), st.fixed_dictionaries(dict(arity=st.integers(0, 2), n=st.integers(1, 4), plain=st.booleans()))).map(lambda p: dict(p[0], **p[1]))
    SUBCHECKS.append(Sub('sum-%s' % kind, mixed_cases(kind), mixed, quick={'flat': 30, 'space': 20, 'curve': 10}[kind], thorough=1200))
