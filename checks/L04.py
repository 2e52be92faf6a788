'''Nullspaces of block operators'''
from xii import *
from la import *

BOOST = 10
RULE = ('Case = (block space, vectors: random, constants, numbers, tuples of numbers, linear combinations of earlier ones; vectors to be orthogonalized). '
        'Non-trivial: there are at least two vectors in the basis.')
ASSUMPTIONS = ['numpy']


@st.composite
def cases(draw):
    names = draw(st.lists(st.sampled_from(['CG1', 'DG0', 'vCG1', 'vDG0']), min_size=1, max_size=3))
    vecs = []
    for k in range(draw(st.integers(1, 5))):
        kind = draw(st.sampled_from(['random', 'random', 'const', 'const', 'combination', 'near']))
        vecs.append([kind, draw(SEED)])
    return dict(spaces=names, nx=draw(st.integers(1, 2)), vecs=vecs, seed=draw(SEED), at_once=draw(st.booleans()))


def body(s):
    mesh = df.UnitSquareMesh(s['nx'], 1)
    W = [(df.VectorFunctionSpace if n[0] == 'v' else df.FunctionSpace)(mesh, n[-3:-1], int(n[-1])) for n in s['spaces']]
    n = len(W)
    dims = [V.dim() for V in W]
    cuts = np.cumsum(dims)[:-1]
    Q = np.zeros((0, sum(dims)))
    raw = []

    def project(x):
        for _ in range(2):
            x = x - Q.T.dot(Q.dot(x))
        return x

    made, Z = [], BlockNullspace(W)
    require(len(Z) == 0, 'empty')
    for kind, seed in s['vecs']:
        rng = rng_of(seed)
        b = block_vec(n)
        if kind in ('combination', 'near') and not raw:
            kind = 'random'
        if kind == 'const':
            parts = []
            for i, V in enumerate(W):
                vec = V.num_sub_spaces() > 0
                c = [float(x) for x in rng.randint(-2, 3, 2 if vec else 1)]
                how = rng.randint(4)
                f = df.interpolate(df.Constant(c if vec else c[0]), V)
                parts.append(arr(f.vector()))
                if how == 0:
                    b[i] = df.Constant(c if vec else c[0])
                elif how == 1:
                    b[i] = tuple(c) if vec else c[0]
                elif how == 2:
                    b[i] = list(c) if vec else int(c[0])
                else:
                    b[i] = vector(parts[-1])
            x = np.hstack(parts)
        else:
            if kind == 'random':
                x = np.round(rng.uniform(-2, 2, sum(dims)), 2)
                if rng.randint(2) and n > 1:
                    # Some blocks are zero
                    k = rng.randint(n)
                    x = np.hstack([p*(j != k) for j, p in enumerate(np.split(x, cuts))])
            else:
                x = np.array(raw).T.dot(rng.choice([-2., -1, 0, 1, 3], len(raw)))
                if kind == 'near':
                    x = x + 0.05*np.round(rng.uniform(-2, 2, sum(dims)), 2)
            for i, p in enumerate(np.split(x, cuts)):
                b[i] = vector(p)
        r = project(x)
        ratio = np.linalg.norm(r)/np.linalg.norm(x) if np.linalg.norm(x) > 0 else 0
        if 1E-12 < ratio < 1E-3:
            return None    # Too close to tell
        if ratio <= 1E-12:
            size = len(Z)
            raises((AssertionError, ZeroDivisionError, ValueError), lambda: Z.add_vector(b), 'dependent vector')
            require(len(Z) == size, 'basis changed by the rejected vector')
            # Want to see that the basis is not modified
        else:
            Z.add_vector(b)
            for i, p in enumerate(np.split(x, cuts)):
                if isinstance(b[i], df.GenericVector):
                    close(arr(b[i]), p, 1E-15, 'added vector was modified')
            Q = np.vstack([Q, r/np.linalg.norm(r)])
            raw.append(x)
            made.append(b)
        got = np.array([np.hstack([arr(p) for p in z]) for z in Z])
        require(len(Z) == len(Q), f'size of the basis {len(Z)} expected {len(Q)}')
        if not len(Q):
            continue
        close(got.dot(got.T), np.eye(len(Q)), 1E-9, 'orthonormality')
        close(got.T.dot(got), Q.T.dot(Q), 1E-8, 'span')
    if not len(Q):
        return None
    if s['at_once']:
        Z = BlockNullspace(W, made)
        require(len(Z) == len(Q), 'basis from list')
        got = np.array([np.hstack([arr(p) for p in z]) for z in Z])
        close(got.dot(got.T), np.eye(len(Q)), 1E-9, 'orthonormality (list)')
        close(got.T.dot(got), Q.T.dot(Q), 1E-8, 'span (list)')
    # Use
    rng = rng_of(s['seed'])
    x = np.round(rng.uniform(-3, 3, sum(dims)), 2)
    b = block_vec([vector(p) for p in np.split(x, cuts)])
    angles = Z.angles(b)
    close(angles, got.dot(x), 1E-11, 'angles', scale=100)
    y = Z.orthogonalize(b)
    y = np.hstack([arr(p) for p in y])
    close(y, project(x), 1E-8, 'orthogonalization', scale=10)
    # Twice is once
    b = block_vec([vector(p) for p in np.split(y, cuts)])
    close(np.hstack([arr(p) for p in Z.orthogonalize(b)]), y, 1E-9, 'projection', scale=10)
    # The vectors in the span have nothing left
    for x in raw:
        b = block_vec([vector(p) for p in np.split(x, cuts)])
        close(np.hstack([arr(p) for p in Z.orthogonalize(b)]), 0*x, 1E-9, 'vector in nullspace', scale=10*np.linalg.norm(x))
    after = np.array([np.hstack([arr(p) for p in z]) for z in Z])
    close(after, got, 1E-15, 'basis changed')
    return f'{len(Q)} vectors' if len(Q) > 1 else None


SUBCHECKS = [Sub('basis', cases(), body, quick=250, thorough=4000, chunks=4)]
