'''Collisions of cells with lines'''
from xii import *
from lib import *
from fractions import Fraction as F
from xii.meshing.line_collision import collides_cell, bbox

BOOST = 3
RULE = 'Case = cell (segment in plane, triangle in space) and a segment with coordinates which are small rationals, in a general position (not parallel). Non-trivial: boxes of the two intersect.'
ASSUMPTIONS = ['exact rational arithmetic of the reference']


def det(rows):
    if len(rows) == 2:
        return rows[0][0]*rows[1][1]-rows[0][1]*rows[1][0]
    (a, b, c), (d, e, f), (g, h, i) = rows
    return a*(e*i-f*h)-b*(d*i-f*g)+c*(d*h-e*g)


def body(s):
    d, scale = s['dim'], F(s['scale'])
    pts = [[F(v)*scale for v in p] for p in s['pts']]
    if s['touch']:
        # End of the segment is a point of the cell
        w = [F(v, 8) for v in s['w']]
        w = w[:d-1] + [1-sum(w[:d-1])]
        pts[d] = [sum(wi*p[k] for wi, p in zip(w, pts[:d])) for k in range(d)]
    cell, (X, Y) = pts[:d], pts[d:d+2]
    sub = lambda p, q: [a-b for a, b in zip(p, q)]
    cols = [sub(p, cell[0]) for p in cell[1:]] + [sub(X, Y)]
    D = det(cols)
    if D == 0 or s['scale'] == 0:
        return None
    rhs = sub(X, cell[0])
    # Cramer, D of the transpose is the same
    sol = [det(cols[:i]+[rhs]+cols[i+1:])/D for i in range(d)]
    inside = [v for v in sol[:-1]] + [1-sum(sol[:-1]), sol[-1], 1-sol[-1]]
    # Rounding
    if any(v != 0 and abs(v) < F(1, 10**9) for v in inside):
        return None
    want = all(v >= 0 for v in inside)
    have = collides_cell(np.array(cell, dtype=float), np.array([X, Y], dtype=float), **({'tol': s['tol']} if s['tol'] else {}))
    require(bool(have) == want, f'cell {cell} and segment {X}-{Y}: {have} expected {want}')
    # Order does not matter
    for k in range(1, d):
        have = collides_cell(np.roll(np.array(cell, dtype=float), k, axis=0), np.array([Y, X], dtype=float))
        require(bool(have) == want, f'cell {cell} in other order and segment {Y}-{X}: {have} expected {want}')
    lo, hi = bbox(np.array(cell, dtype=float))
    require(all(lo[k] == float(min(p[k] for p in cell)) and hi[k] == float(max(p[k] for p in cell)) for k in range(d)), f'box {lo} {hi}')
    overlap = all(max(min(p[k] for p in cell), min(X[k], Y[k])) <= min(max(p[k] for p in cell), max(X[k], Y[k])) for k in range(d))
    return f'{d}d {"hit" if want else "miss"}{" boundary" if 0 in inside else ""}' if overlap else None


def cases(d):
    return st.fixed_dictionaries(dict(dim=st.just(d), pts=st.lists(st.lists(st.integers(-6, 6), min_size=d, max_size=d), min_size=d+2, max_size=d+2), w=st.lists(st.integers(0, 9), min_size=d, max_size=d),
                                      touch=st.booleans(), scale=st.sampled_from(['1', '1/8', '100', '1/3']), tol=st.sampled_from([None, 1E-10])))


SUBCHECKS = [Sub('plane', cases(2), body, quick=2000, thorough=40000, chunks=1), Sub('space', cases(3), body, quick=2000, thorough=40000, chunks=1)]
