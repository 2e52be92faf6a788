'''Random matrices, vectors and operator expressions with dense values'''
from lib import *
from scipy.sparse import csr_matrix
from petsc4py import PETSc
from block import block_mat, block_vec, block_mul, block_add, block_sub, block_transpose
from block.block_base import block_base


def rand_dense(m, n, seed, fill=0.7):
    rng = rng_of(seed)
    a = np.round(rng.uniform(-2, 2, (m, n)), 2)
    a[rng.uniform(size=(m, n)) > fill] = 0
    # Every now and then with structure
    what = rng.randint(12)
    k = min(m, n)
    if what == 0:
        a[range(k), range(k)] = 0                             # No diagonal
    elif what == 1 and m == n:
        a = np.triu(a, 1) - np.triu(a, 1).T                   # Skew
    elif what == 2 and m == n:
        a = np.triu(a) + np.triu(a, 1).T
    elif what == 3:
        a = a - np.round(a.sum(axis=1)/n, 2).reshape(-1, 1)   # Rows which sum to about zero
    elif what == 4:
        a = np.round(-abs(a), 2)
    elif what == 5 and m == n:
        a = np.diag(np.diag(a))
    elif what == 6:
        a[rng.randint(m)] = 0                                 # Empty row
    elif what == 7:
        a[:, rng.randint(n)] = 0
    return a + 0.


def petsc_mat(a, kind='petsc', sparse=True):
    '''dolfin matrix with these values'''
    a = np.asarray(a, dtype=float)
    m, n = a.shape
    if sparse:
        s = csr_matrix(a)
    else:
        s = csr_matrix((a.ravel(), np.tile(np.arange(n), m), np.arange(0, m*n+1, n)), shape=(m, n))
    A = PETSc.Mat().createAIJ(comm=PETSc.COMM_WORLD, size=s.shape, csr=(s.indptr.astype('int32'), s.indices.astype('int32'), s.data))
    A.assemble()
    A = df.PETScMatrix(A)
    return df.Matrix(A) if kind == 'matrix' else A


def vector(x, kind='petsc'):
    x = np.asarray(x, dtype=float)
    v = PETSc.Vec().createWithArray(np.array(x))
    v.assemble()
    v = df.PETScVector(v)
    return df.Vector(v) if kind == 'vector' else v


class Free(block_base):
    '''Matrix known only by its action'''
    def __init__(self, a):
        self.values = a

    def matvec(self, b):
        return df.Vector(vector(self.values.dot(b.get_local())))

    def transpmult(self, b):
        return df.Vector(vector(self.values.T.dot(b.get_local())))

    def create_vec(self, dim=1):
        return df.Vector(vector(np.zeros(self.values.shape[dim])))


class Env:
    '''All the leaves that were made'''
    def __init__(self):
        self.leaves = []

    def leaf(self, a, A):
        self.leaves.append((np.array(a), A))
        return A

    def unchanged(self, what=''):
        for a, A in self.leaves:
            if isinstance(A, (df.Matrix, df.PETScMatrix)):
                close(np.array(A.array()), a, 1E-15, what + ': operand changed')


OPS = ('mul', 'add', 'sub', 'T', 'scale', 'rscale', 'neg', 'shift', 'cut')


@st.composite
def expr(draw, m, n, depth, pool, leaves):
    '''
    JSON tree for operator R^n -> R^m. Leaves are lists too. [ref, k] is k-th subexpression that was built
    before and has the right shape
    '''
    fits = [k for k, s in enumerate(pool) if s == (m, n)]
    kinds = [k for k in leaves if m == n or k == 'mat']
    if depth == 0:
        op = draw(st.sampled_from(kinds + (['ref'] if fits else [])))
    else:
        op = draw(st.sampled_from(['mul', 'add', 'sub', 'T', 'mul', 'add', 'sub', 'scale', 'rscale', 'neg', 'mat'] + (['shift', 'cut', 'rshift', 'rcut', 'num'] if m == n else []) + (['ref', 'ref'] if fits else [])))
    sub = lambda a, b, d=depth-1: draw(expr(a, b, max(0, d), pool, leaves))
    num = st.sampled_from([0, 2, -1, 1, 0.5, -3.25, 0.0, 1E-3])
    if op == 'mat':
        ans = ['mat', m, n, draw(SEED), draw(st.sampled_from([0.7, 1, 0.3])), draw(st.sampled_from(['petsc', 'matrix']))]
    elif op in ('diag', 'invdiag', 'free'):
        ans = [op, m, draw(SEED)]
    elif op == 'num':
        return ['num', draw(num), m]
    elif op == 'ref':
        return ['ref', draw(st.sampled_from(fits))]
    elif op == 'mul':
        k = draw(st.integers(1, 4))
        ans = ['mul', sub(m, k), sub(k, n)]
    elif op in ('add', 'sub'):
        ans = [op, sub(m, n), sub(m, n)]
    elif op in ('T', ):
        ans = ['T', sub(n, m)]
    elif op == 'neg':
        ans = ['neg', sub(m, n)]
    else:
        ans = [op, draw(num), sub(m, n)]
    # NOTE: in the order in which they are finished
    pool.append((m, n))
    return ans


def build(e, env, table):
    '''-> dense, expression'''
    op, args = e[0], e[1:]
    if op == 'ref':
        return table[args[0]]
    if op == 'num':
        return args[0]*np.eye(args[1]), args[0]
    if op == 'mat':
        m, n, seed, fill, kind = args
        a = rand_dense(m, n, seed, fill)
        ans = a, env.leaf(a, petsc_mat(a, kind))
    elif op in ('diag', 'invdiag'):
        from block.algebraic.petsc import Diag, InvDiag
        n, seed = args
        d = rand_dense(n, n, seed) + 3*np.eye(n)
        A = env.leaf(d, petsc_mat(d))
        a = np.diag(np.diag(d) if op == 'diag' else 1./np.diag(d))
        ans = a, (Diag if op == 'diag' else InvDiag)(A)
    elif op == 'free':
        n, seed = args
        a = rand_dense(n, n, seed)
        ans = a, Free(a)
    elif op in ('mul', 'add', 'sub'):
        (a, A), (b, B) = [build(x, env, table) for x in args]
        f = {'mul': block_mul, 'add': block_add, 'sub': block_sub}[op]
        ans = {'mul': a.dot(b) if op == 'mul' else None, 'add': a+b if op != 'mul' else None, 'sub': a-b if op != 'mul' else None}[op], f(A, B)
    elif op == 'T':
        a, A = build(args[0], env, table)
        ans = a.T, block_transpose(A)
    elif op == 'neg':
        a, A = build(args[0], env, table)
        ans = -a, -A
    else:
        c, (a, A) = args[0], build(args[1], env, table)
        if op == 'scale':
            ans = c*a, block_mul(c, A)
        elif op == 'rscale':
            ans = a*c, block_mul(A, c)
        elif op == 'shift':
            ans = a+c*np.eye(len(a)), block_add(A, c)
        elif op == 'rshift':
            ans = c*np.eye(len(a))+a, block_add(c, A)
        elif op == 'cut':
            ans = a-c*np.eye(len(a)), block_sub(A, c)
        elif op == 'rcut':
            ans = c*np.eye(len(a))-a, block_sub(c, A)
        else:
            raise ValueError(op)
    table.append(ans)
    return ans


def size(e):
    return 1 + sum(size(x) for x in e[1:] if isinstance(x, list))


def uses(e, kind):
    return e[0] == kind or any(uses(x, kind) for x in e[1:] if isinstance(x, list))


def is_mat(A):
    return isinstance(A, (df.Matrix, df.PETScMatrix))


def value(A, m, n):
    '''Dense of the result'''
    if isinstance(A, (int, float)):
        return A*np.eye(m, n)
    require(is_mat(A), f'result is not a matrix {type(A)}')
    return np.array(A.array())
