'''Quadratures of the averaging shapes'''
from lib import *
from numpy.polynomial.legendre import leggauss
from xii.assembler.average_shape import Circle, Disk, Square, SquareRim
from xii.assembler.disk_quadrature import disk_quadrature

RULE = ('Case = (shape, centre, normal (axis aligned, close to axis, generic; any length), size (constant or function of the centre), degree of the rule, random polynomial). '
        'Non-trivial: polynomial of degree at least 1 or a rule with more than 1 point.')
ASSUMPTIONS = ['reference integrals by Gauss/trapezoidal rules in a frame of our own',
               'disk rules of degree 17, 19 are only accurate to the digits of the published tables (1E-6)',
               'circle rules are Gauss rules in the angle: exactness is expected of rules with at least 24 nodes, for polynomials of degree up to 4']


def normal_of(s):
    rng = rng_of(s['nrm'])
    how = s['nhow']
    if how == 'axis':
        n = np.eye(3)[rng.randint(3)]*rng.choice([-1, 1])
    elif how == 'near':
        n = np.eye(3)[rng.randint(3)]*rng.choice([-1, 1]) + 10**rng.uniform(-3, -1)*rng.uniform(-1, 1, 3)
    else:
        n = rng.uniform(-1, 1, 3)
        while np.linalg.norm(n) < 0.1:
            n = rng.uniform(-1, 1, 3)
    return n*rng.choice([1, 0.3, 2.7])


def frame(n):
    n = n/np.linalg.norm(n)
    a = np.eye(3)[np.argmin(np.abs(n))]
    e1 = np.cross(n, a)
    e1 /= np.linalg.norm(e1)
    return e1, np.cross(n, e1), n


def poly(s, k):
    return Poly(3, k, 1, s['p'])


def common(s):
    rng = rng_of(s['x'])
    x0 = rng.uniform(-2, 2, 3)
    n = normal_of(s)
    size = rng.uniform(0.1, 1.5)
    return x0, n, size


def check_quad(quad, x0, n, measure, what, tol=1E-10):
    pts, w = np.array(quad.points), np.array(quad.weights)
    require(pts.shape == (len(w), 3), what + ': %d points %d weights' % (len(pts), len(w)))
    close(w.sum(), measure, tol=tol, what=what + ' sum of weights', scale=measure)
    close((pts-x0)@n/np.linalg.norm(n), np.zeros(len(pts)), tol=1E-10, what=what + ' points off the plane')
    return pts, w


def integrate(p, pts, w):
    return sum(wi*p(x)[0] for x, wi in zip(pts, w)), sum(abs(wi*p(x)[0]) for x, wi in zip(pts, w))


def call(shape, x0, n):
    x0_, n_ = x0.copy(), n.copy()
    q = shape.quadrature(x0, n)
    require(np.all(x0 == x0_) and np.all(n == n_), 'quadrature changed its input')
    return q


def body_disk(s):
    x0, n, R = common(s)
    d = s['d']
    shape = Disk(R if s['const'] else (lambda x, R=R: R*(1+0.1*np.sin(x[0]+x[1]))), degree=d)
    if not s['const']:
        R = R*(1+0.1*np.sin(x0[0]+x0[1]))
    tol = 1E-10 if d < 16 else 4E-6
    pts, w = check_quad(call(shape, x0, n), x0, n, np.pi*R**2, 'disk', tol=tol)
    k = min(s['k'], d, 19)
    p = poly(s, k)
    e1, e2, _ = frame(n)
    rq, rw = leggauss(k//2+3)
    ref = mag = 0
    m = 2*k+4
    for r, wr in zip(0.5*R*(1+rq), 0.5*R*rw):
        for t in 2*np.pi*np.arange(m)/m:
            v = p(x0 + r*np.cos(t)*e1 + r*np.sin(t)*e2)[0]*wr*r*2*np.pi/m
            ref, mag = ref+v, mag+abs(v)
    num, nmag = integrate(p, pts, w)
    close(num, ref, tol=tol, what='disk rule of degree %d for polynomial of degree %d' % (d, k), scale=max(mag, nmag, 1E-3))
    return 'disk k=%d' % min(k, 5) if len(w) > 1 or k else None


def body_table(s):
    '''Unit disk'''
    d = s['d']
    xq, wq = disk_quadrature(d)
    tol = 1E-11 if d < 16 else 2E-6
    dmax = min(d, 19)
    from math import gamma
    for a in range(dmax+1):
        for b in range(dmax+1-a):
            ref = 0. if a % 2 or b % 2 else 2*gamma((a+1)/2)*gamma((b+1)/2)/gamma((a+b+2)/2)/(a+b+2)
            close(np.sum(wq*xq[:, 0]**a*xq[:, 1]**b), ref, tol=tol, what='x^%d y^%d' % (a, b))
    return 'degree %d' % d


def body_circle(s):
    x0, n, R = common(s)
    d = s['d']
    shape = Circle(R if s['const'] else (lambda x, R=R: R*(1+0.1*np.sin(x[0]+x[1]))), degree=d)
    if not s['const']:
        R = R*(1+0.1*np.sin(x0[0]+x0[1]))
    pts, w = check_quad(call(shape, x0, n), x0, n, 2*np.pi*R, 'circle')
    close(np.linalg.norm(pts-x0, axis=1), R*np.ones(len(pts)), tol=1E-10, what='distance from the centre')
    # With normals
    quad, nq = shape.quadrature_normal(x0, n)
    pts_, w_ = check_quad(quad, x0, n, 2*np.pi*R, 'circle (with normal)')
    close(np.array(nq), (pts_-x0)/R, tol=1E-10, what='outer normal')
    if d >= 24:
        p = poly(s, s['k'])
        e1, e2, _ = frame(n)
        ref = mag = 0
        for t in 2*np.pi*np.arange(16)/16:
            v = p(x0 + R*np.cos(t)*e1 + R*np.sin(t)*e2)[0]*2*np.pi*R/16
            ref, mag = ref + v, mag+abs(v)
        for P, W in ((pts, w), (pts_, w_)):
            num, nmag = integrate(p, P, W)
            close(num, ref, tol=1E-9, what='circle rule of degree %d for polynomial of degree %d' % (d, s['k']), scale=max(mag, 1E-3))
    return 'circle' + (' exact' if d >= 24 else '')


def corner(s, x0, n, size):
    e1, e2, _ = frame(n)
    t = rng_of(s['p']+5).uniform(0, 2*np.pi)
    vec = size*(np.cos(t)*e1 + np.sin(t)*e2)
    P = x0 + vec
    # Other one
    e = vec/np.linalg.norm(vec)
    f = np.cross(n/np.linalg.norm(n), e)
    r = np.linalg.norm(vec)
    return P, [x0 + r*e, x0 + r*f, x0 - r*e, x0 - r*f]


def body_square(s, rim=False):
    x0, n, size = common(s)
    P, C = corner(s, x0, n, size)
    d = s['d']
    make = SquareRim if rim else Square
    shape = make(list(P) if s['const'] and s['p'] % 2 else (np.array(P) if s['const'] else (lambda x: x + (P-x0))), degree=d)
    a = np.sqrt(2)*np.linalg.norm(P-x0)
    pts, w = check_quad(call(shape, x0, n), x0, n, 4*a if rim else a**2, make.__name__)
    k = min(s['k'], 2*d-1)
    p = poly(s, k)
    q, v = leggauss(k//2+2)
    ref = mag = 0
    if rim:
        for A, B in zip(C, C[1:] + C[:1]):
            for xi, wi in zip(q, v):
                val = 0.5*a*wi*p(0.5*A*(1-xi) + 0.5*B*(1+xi))[0]
                ref, mag = ref+val, mag+abs(val)
    else:
        u1, u2 = C[1]-C[0], C[3]-C[0]
        for xi, wi in zip(q, v):
            for xj, wj in zip(q, v):
                val = 0.25*a**2*wi*wj*p(C[0] + 0.5*u1*(1+xi) + 0.5*u2*(1+xj))[0]
                ref, mag = ref+val, mag+abs(val)
    num, _ = integrate(p, pts, w)
    close(num, ref, tol=1E-10, what='%s rule of degree %d for polynomial of degree %d' % (make.__name__, d, k), scale=max(mag, 1E-3))
    return make.__name__


def body_rim(s):
    return body_square(s, rim=True)


def cases(d, k):
    return st.fixed_dictionaries(dict(x=SEED, nrm=SEED, p=SEED, const=st.booleans(), nhow=st.sampled_from(['axis', 'near', 'any']), d=d, k=k))


SUBCHECKS = [
    Sub('disk', cases(st.integers(1, 23), st.integers(0, 12)), body_disk, quick=120, thorough=4000),
    Sub('disk-high', cases(st.integers(8, 23), st.integers(10, 19)), body_disk, quick=16, thorough=500),
    Sub('table', st.fixed_dictionaries(dict(d=st.integers(1, 30))), body_table, quick=0, thorough=0, examples=[{'d': d} for d in range(1, 26)]),
    Sub('circle', cases(st.integers(1, 40), st.integers(0, 4)), body_circle, quick=300, thorough=5000),
    Sub('circle-exact', cases(st.integers(24, 40), st.integers(1, 4)), body_circle, quick=150, thorough=5000),
    Sub('square', cases(st.integers(1, 9), st.integers(0, 7)), body_square, quick=200, thorough=5000),
    Sub('rim', cases(st.integers(1, 9), st.integers(0, 7)), body_rim, quick=200, thorough=5000),
]
