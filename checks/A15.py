'''Block forms'''
from zoo import *
from xii.assembler.block_form import (block_form, permute, form_adjoint, make_selfadjoint, is_upper_triangular, is_lower_triangular,
                                      is_bilinear_form, is_linear_form)

RULE = ('Case = (list of 1-4 distinct spaces on a volume mesh, meshes embedded in it and curves; random integrals, plain or with reduced arguments, for some of their pairs; permutation). '
        'Non-trivial: at least two blocks are filled, or there is only one.')
ASSUMPTIONS = ['ii_assemble of a single form (A04)']


def tensor(form, shape):
    '''Dense; numbers are multiples of identity'''
    A = ii_assemble(form)
    if isinstance(A, (int, float)):
        return A*np.eye(*shape) if shape[0] == shape[1] else np.zeros(shape)
    if isinstance(A, df.GenericVector):
        return arr(A)
    return np.array(ii_convert(A).array())


class Pieces:
    '''Spaces and integrals'''
    def __init__(self, s):
        rng = self.rng = rng_of(s['seed'])
        mesh = mesh_of(s['mesh'])
        tdim = mesh.topology().dim()
        ff, tags = mark_entities(mesh, tdim-1, s['mark'])
        bm = EmbeddedMesh(ff, tags)
        cf, ctags = mark_entities(mesh, tdim, s['mark'])
        sub = EmbeddedMesh(cf, ctags)
        # All of them
        V1, V2 = df.FunctionSpace(mesh, 'CG', 1), df.FunctionSpace(mesh, 'DG', 0)
        Q, S = df.FunctionSpace(bm, 'CG', 1), df.FunctionSpace(sub, 'CG', 1)
        V3 = df.VectorFunctionSpace(mesh, 'CG', 1)
        pool = [V1, Q, S, V3, V2]
        self.W = [pool[i] for i in s['spaces']]
        k = rand_fun(V2, s['seed'] % 1000)
        kb = rand_fun(df.FunctionSpace(bm, 'DG', 0), s['seed'] % 1000 + 1)
        dx, dxb, dxs = df.dx(domain=mesh), df.dx(domain=bm), df.dx(domain=sub)
        e0 = df.Constant((1, )+(2, )*(tdim-1))
        self.k, self.kb = k, kb
        # On each of the meshes how to get a scalar function from the one in the space
        self.on = {mesh.id(): (dx, k, {0: [lambda u: u, lambda u: u.dx(0)], 3: [lambda u: u[0], lambda u: df.div(u), lambda u: df.dot(u, e0)], 4: [lambda u: u]}),
                   bm.id(): (dxb, kb, {0: [lambda u: Trace(u, bm)], 1: [lambda u: u], 3: [lambda u: Trace(u, bm)[0], lambda u: df.dot(Trace(u, bm), e0)]}),
                   sub.id(): (dxs, df.Constant(2), {0: [lambda u: Restriction(u, sub)], 2: [lambda u: u, lambda u: u.dx(0)], 3: [lambda u: Restriction(u, sub)[1], lambda u: df.div(Restriction(u, sub)) if False else Restriction(u, sub)[0]]})}
        self.index = s['spaces']

    def integral(self, i, j=None):
        '''Test in space i, trial in space j'''
        rng = self.rng
        a, b = self.index[i], None if j is None else self.index[j]
        on = [m for m, (_, _, f) in self.on.items() if a in f and (j is None or b in f)]
        if not on:
            return None
        dx, k, f = self.on[sorted(on)[rng.randint(len(on))]]
        left = f[a][rng.randint(len(f[a]))](df.TestFunction(self.W[i]))
        right = df.Constant(float(np.round(rng.uniform(-2, 2), 2))) if j is None else f[b][rng.randint(len(f[b]))](df.TrialFunction(self.W[j]))
        c = [1, k, 1+k**2, df.Constant(-0.5)][rng.randint(4)]
        return [c*left*right, -left*right, left*right*c + c**2*right*left][rng.randint(3)]*dx


def body(s):
    P = Pieces(s)
    W, rng = P.W, P.rng
    n = len(W)
    sizes = [V.dim() for V in W]

    def fill(which):
        '''Forms, in order in which they are to be added'''
        out = []
        for i, j in which:
            for _ in range(rng.randint(1, 3)):
                f = P.integral(i, j)
                if f is not None:
                    out.append((i, j, f))
        return [out[k] for k in rng.permutation(len(out))]

    def build(forms, arity):
        a = block_form(W, arity)
        how = s['add']
        if how == 'one':
            for _, _, f in forms:
                require(a.add(f) is a, 'add returns the form')
        elif how == 'sum' and forms:
            require(a.add(sum((f for _, _, f in forms[1:]), forms[0][2])) is a, 'add returns the form')
        else:
            for i, j, f in forms:
                if j is None:
                    a[i] = a[i] + f
                else:
                    a[i][j] = a[i][j] + f
        return a

    def expected(forms):
        A = [[np.zeros((m, k)) for k in sizes] for m in sizes]
        for i, j, f in forms:
            A[i][j] = A[i][j] + tensor(f, None)
        return A

    pairs = [(i, j) for i in range(n) for j in range(n)]
    use = [pairs[k] for k in rng.permutation(len(pairs))[:rng.randint(1, len(pairs)+1)]]
    shape = s['shape']
    if shape == 'upper':
        use = [p for p in use if p[0] <= p[1]]
    if shape == 'lower':
        use = [p for p in use if p[0] >= p[1]]
    forms = fill(use)
    a, A = build(forms, 2), expected(forms)
    filled = {(i, j) for i, j, _ in forms}
    scale = 10*(1+max([np.max(np.abs(x)) for r in A for x in r]))

    def same(b, B, what, order=range(n)):
        require(len(b) == len(B) and all(len(r) == len(R) for r, R in zip(b, B)), what + ': size')
        for i in range(len(B)):
            for j in range(len(B)):
                close(tensor(b[i][j], (sizes[order[i]], sizes[order[j]])), B[i][j], what=f'{what}: block {i}, {j}', scale=scale, tol=1E-10)

    same(a, A, 'sum of added forms')
    AA = ii_assemble(a)
    require(AA.blocks.shape == (n, n), 'shape of assembled')
    for (i, j) in filled:
        close(np.array(ii_convert(AA[i][j]).array()), A[i][j], what=f'assembled block {i}, {j}', scale=scale, tol=1E-10)
    if all(any((i, j) in filled for j in range(n)) and any((j, i) in filled for j in range(n)) for i in range(n)):
        close(dense(AA), np.block(A), what='monolithic', scale=scale, tol=1E-10)
    for i, j in set(pairs) - filled:
        require(a[i][j] == 0 and AA[i][j] == 0, 'empty block is zero')
    require(is_upper_triangular(a) == all(i <= j for i, j in filled), 'upper triangular')
    require(is_lower_triangular(a) == all(i >= j for i, j in filled), 'lower triangular')
    # Sum
    other = fill([pairs[k] for k in rng.permutation(len(pairs))[:rng.randint(1, len(pairs)+1)]])
    B = expected(other)
    scale += 10*max([np.max(np.abs(x)) for r in B for x in r])
    b = build(other, 2)
    same(a + b, [[x+y for x, y in zip(r, R)] for r, R in zip(A, B)], 'sum')
    same(a, A, 'operand of sum')
    # Adjoint of the blocks
    for i, j in sorted(filled):
        close(tensor(form_adjoint(a[i][j]), None), A[i][j].T, what=f'adjoint of {i}, {j}', scale=scale, tol=1E-10)
        close(tensor(form_adjoint(form_adjoint(a[i][j])), None), A[i][j], what=f'double adjoint of {i}, {j}', scale=scale, tol=1E-10)
    # Permutation
    order = list(map(int, rng.permutation(n)))
    for by in (order, tuple(order), [W[i] for i in order]):
        p = permute(a, by)
        require(p.V0 == [W[i] for i in order], 'spaces of permutation')
        same(p, [[A[i][j] for j in order] for i in order], f'permutation {order}', order)
        inverse = [order.index(i) for i in range(n)]
        same(permute(p, inverse), A, 'permuted back')
        # Is a block form
        extra = fill([(0, 0)])
        if extra:
            f, = [f for _, _, f in extra[:1]]
            p.add(f)
            close(tensor(p[order.index(0)][order.index(0)], None), A[0][0] + tensor(f, None), what='adding to permuted', scale=2*scale, tol=1E-10)
    # Self adjoint
    if all(i <= j for i, j in filled) or all(i >= j for i, j in filled):
        sa = make_selfadjoint(build(forms, 2))
        same(sa, [[A[i][j] if (i, j) in filled else A[j][i].T for j in range(n)] for i in range(n)], 'made self adjoint')
    else:
        raises(ValueError, lambda: make_selfadjoint(build(forms, 2)), 'not triangular')
    # Layout is protected
    for _ in range(2):
        i, j = rng.randint(n), rng.randint(n)
        k, l = rng.randint(n), rng.randint(n)
        f = P.integral(int(k), int(l))
        if f is not None and (i, j) != (k, l):
            def assign(i=i, j=j, f=f):
                a[i][j] = f
            raises((AssertionError, ValueError), assign, f'{k}, {l} as block {i}, {j}')
    same(a, A, 'after rejections')
    # Linear
    lin = [(i, None, P.integral(i)) for i in map(int, rng.randint(0, n, 4))]
    L = build(lin, 1)
    require(len(L) == n, 'size of linear')
    bs = ii_assemble(L)
    vec = [np.zeros(m) for m in sizes]
    for i, _, f in lin:
        vec[i] = vec[i] + tensor(f, None)
    for i in range(n):
        close(arr(bs[i]), vec[i], what=f'linear, component {i}')
    pL = permute(L, order)
    for i, x in zip(order, ii_assemble(pL)):
        close(arr(x), vec[i], what='permuted linear')
    for x, y in zip(ii_assemble(L + L), vec):
        close(arr(x), 2*y, what='sum of linear')
    def assign():
        L[0] = P.integral(n-1)
    if n > 1:
        raises((AssertionError, ValueError), assign, 'linear for other space')
    raises((AssertionError, ValueError), lambda: L + a, 'linear + bilinear')
    if len(filled) > 1 or n == 1:
        return '%r %s %s' % (s['spaces'], s['shape'], s['add'])


CASES = st.fixed_dictionaries(dict(mesh=mesh2d(3), mark=MARK, seed=SEED, spaces=st.permutations(range(5)).flatmap(lambda p: st.integers(1, 4).map(lambda n: list(p[:n]))),
                                   shape=st.sampled_from(['any', 'any', 'upper', 'lower']), add=st.sampled_from(['one', 'sum', 'assign'])))

SUBCHECKS = [Sub('blocks-%d' % i, CASES, body, quick=7, thorough=150) for i in range(8)]
