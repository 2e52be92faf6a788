'''Conversion of operator expressions'''
from xii import *
from la import *
from xii.linalg import convert as cv, collapse_iter as ci

BOOST = 10
RULE = ('Case = (expression tree of matrices, numbers, diagonal and matrix free operators, with shared subexpressions; or a block matrix of such expressions; or a block vector). '
        'Non-trivial: expressions with at least one operation, block matrices with at least 2 blocks.')
ASSUMPTIONS = ['numpy dense arithmetic', 'numbers stand for multiples of identity as in cbc.block']

WAYS = {'convert': ii_convert, 'collapse': ii_collapse, 'iterative': monolithic, 'iterative collapse': ci.collapse}


@st.composite
def tree(draw, leaves, depth):
    m, n = draw(st.integers(1, 4)), draw(st.integers(1, 4))
    e = draw(expr(m, n, draw(st.integers(0, depth)), [], leaves))
    return dict(m=m, n=n, e=e, x=draw(SEED))


def body_tree(ways):
    def body(s):
        m, n = s['m'], s['n']
        env = Env()
        a, A = build(s['e'], env, [])
        if isinstance(A, (int, float)):
            return None
        x = rng_of(s['x']).uniform(-1, 1, n)
        scale = 10*max(1, np.max(np.abs(a)))*10**min(3, size(s['e'])/4)
        for way in ways:
            B = WAYS[way](A)
            b = value(B, m, n)
            close(b, a, 1E-12, way, scale=scale)
            if not isinstance(B, (int, float)):
                require((B.size(0), B.size(1)) == (m, n), f'{way}: sizes')
                # Have it as an operator
                close(np.array((B*df.Vector(vector(x))).get_local()), a.dot(x), 1E-12, way+' action', scale=scale*n)
            env.unchanged(way)
        if not (uses(s['e'], 'free') or uses(s['e'], 'diag') or uses(s['e'], 'invdiag')):
            dims = cv.get_dims(A)
            require(dims is None or tuple(dims) == (m, n), f'get_dims {dims} expected {(m, n)}')
        return f'size{min(9, size(s["e"]))}' if size(s['e']) > 1 else None
    return body


@st.composite
def blocks(draw, leaves, pure=False):
    rows = draw(st.lists(st.integers(1, 4), min_size=1, max_size=3))
    cols = rows if draw(st.booleans()) else draw(st.lists(st.integers(1, 4), min_size=1, max_size=3))
    pool, B = [], []
    for i, m in enumerate(rows):
        B.append([])
        for j, n in enumerate(cols):
            kind = draw(st.sampled_from(['expr', 'expr', 'zero', 'num']))
            # Something that has the size in each of the rows and columns
            must = i == j or (i >= len(cols) and j == 0) or (j >= len(rows) and i == 0)
            if pure or kind == 'expr' or (kind == 'zero' and must and j == 0) or (kind == 'num' and m != n):
                B[-1].append(draw(expr(m, n, draw(st.integers(0, 2)), pool, leaves)))
            elif kind == 'zero':
                B[-1].append(['num', draw(st.sampled_from([0, 0.0])), m])
            else:
                B[-1].append(['num', draw(st.sampled_from([2, 1, -0.5])), m])
    return dict(rows=rows, cols=cols, B=B, x=draw(SEED))


def build_blocks(s):
    env, table = Env(), []
    vals = []
    a = []
    for m, row in zip(s['rows'], s['B']):
        vals.append([])
        a.append([])
        for n, e in zip(s['cols'], row):
            if e[0] == 'num' and m != n:
                x, X = np.zeros((m, n)), 0
            else:
                x, X = build(e, env, table)
            vals[-1].append(X)
            a[-1].append(x)
    return env, a, block_mat(vals)


def has_size(A):
    try:
        return A.create_vec(0) is not None
    except Exception:
        return False


def body_blocks(iterative):
    def body(s):
        env, a, AA = build_blocks(s)
        rows, cols = s['rows'], s['cols']
        ok = np.array([[has_size(A) for A in row] for row in AA.blocks])
        if not (ok.any(axis=0).all() and ok.any(axis=1).all()):
            return None
        # cbc.block cannot get sizes if there is an expression with only numbers
        if not all(o or isinstance(A, (int, float)) for o, A in zip(ok.ravel(), AA.blocks.ravel())):
            return None
        # cbc block allocates by the first which does not fail; ambiguous if it is a chain with numbers inside
        if [[v.size() for v in AA.create_vec(d)] for d in (0, 1)] != [rows, cols]:
            return None
        require(tuple(map(tuple, cv.bmat_sizes(AA))) == (tuple(rows), tuple(cols)), 'sizes of the block matrix')
        dense = np.block(a)
        scale = 1E3*max(1, np.max(np.abs(dense)))
        x = rng_of(s['x']).uniform(-1, 1, sum(cols))
        pieces = np.split(x, np.cumsum(cols)[:-1])
        kept = ii_convert(AA, '')
        require(isinstance(kept, block_mat) and kept.blocks.shape == AA.blocks.shape, 'block layout')
        for i, m in enumerate(rows):
            for j, n in enumerate(cols):
                close(value(kept[i, j], m, n), a[i][j], 1E-12, f'block {i, j}', scale=scale)
        ways = [('numpy', lambda: ii_convert(AA)), ('of collapsed', lambda: ii_convert(kept)), ('assembly', lambda: cv.block_mat_to_petsc(kept))]
        if iterative:
            ways.append(('iterative', lambda: monolithic(AA)))
        for what, f in ways:
            B = f()
            close(value(B, *dense.shape), dense, 1E-12, what, scale=scale)
            close(np.array((B*df.Vector(vector(x))).get_local()), dense.dot(x), 1E-12, what+' action', scale=10*scale)
        y = kept*block_vec([df.Vector(vector(xi)) for xi in pieces])
        close(arr(ii_convert(y)), dense.dot(x), 1E-12, 'blocks action', scale=10*scale)
        env.unchanged('blocks')
        return f'{len(rows)}x{len(cols)}' if len(rows)*len(cols) > 1 else None
    return body


@st.composite
def vecs(draw):
    return dict(sizes=draw(st.lists(st.integers(1, 5), min_size=1, max_size=5)), seed=draw(SEED),
                kinds=draw(st.lists(st.sampled_from(['petsc', 'vector']), min_size=5, max_size=5)))


def body_vec(s):
    rng = rng_of(s['seed'])
    xs = [rng.uniform(-1, 1, n) for n in s['sizes']]
    bb = block_vec([vector(x, k) for x, k in zip(xs, s['kinds'])])
    for what, f in (('convert', ii_convert), ('iterative', monolithic)):
        v = f(bb)
        close(arr(v), np.hstack(xs), 1E-15, what)
        # It is a copy
        v *= 2
        for x, b in zip(xs, bb):
            close(arr(b), x, 1E-15, what+' changed the blocks')
            w = f(b)
            close(arr(w), x, 1E-15, what+' of vector')
    require(tuple(cv.bmat_sizes(bb)) == tuple(s['sizes']), 'sizes of blocks')
    return f'{len(xs)}' if len(xs) > 1 else None


@st.composite
def wrong(draw):
    m = draw(st.integers(1, 4))
    n = draw(st.integers(1, 4).filter(lambda n: n != m))
    return dict(m=m, n=n, c=draw(st.sampled_from([1, 2., -0.5])), seed=draw(SEED), at=draw(st.integers(0, 1)))


def body_wrong(s):
    '''What has no meaning'''
    m, n = s['m'], s['n']
    A, B = petsc_mat(rand_dense(m, m, s['seed'])), petsc_mat(rand_dense(n, n, s['seed']))
    R = petsc_mat(rand_dense(m, n, s['seed'], fill=1))
    bad = (Exception, )
    AA = block_mat([[A, s['c']], [0, B]]) if s['at'] else block_mat([[A, 0], [s['c'], B]])
    raises(bad, lambda: ii_convert(AA), 'number as a block of rectangular shape')
    for op, what in ((A+B, 'sum'), (A-B, 'difference'), (A*B, 'product'), (R*R, 'product of rectangular'), (R+s['c'], 'shift of rectangular')):
        raises(bad, lambda: ii_convert(op), what)
        raises(bad, lambda: monolithic(op), what + ' iterative')
    return 'rejected'


ALL = ('mat', 'num', 'diag', 'invdiag', 'free')
SUBCHECKS = [Sub('tree', tree(('mat', 'num'), 4), body_tree(tuple(WAYS)), quick=250, thorough=4000, chunks=3),
             Sub('operators', tree(ALL, 3), body_tree(('convert', 'collapse')), quick=150, thorough=3000, chunks=2),
             Sub('blocks', blocks(('mat', 'num')), body_blocks(True), quick=120, thorough=2500, chunks=2),
             Sub('blocks operators', blocks(('mat', 'mat', 'diag', 'free')), body_blocks(False), quick=100, thorough=2000, chunks=1),
             Sub('vectors', vecs(), body_vec, quick=100, thorough=1000),
             Sub('rejected', wrong(), body_wrong, quick=30, thorough=200)]
