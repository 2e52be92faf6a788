'''Branches of curves'''
from xii import *
from meshes import *
from xii.meshing.branching import color_branches, walk_vertices, walk_cells, is_loop, is_inside_contour, wind_number, refine_contour

BOOST = 8
RULE = ('Case = (networks of lines of paths, loops, stars, loops with tails, figures of eight, trees, ... and their disjoint unions with random numbering) or (polygon, points inside and outside). '
        'Non-trivial: more than one cell.')
ASSUMPTIONS = ['dolfin mesh connectivity']


def body(s):
    mesh = network(s)
    cells = mesh.cells()
    nv = [0]*mesh.num_vertices()
    for c in cells:
        for v in c:
            nv[v] += 1
    require(is_loop(mesh) == all(n == 2 for n in nv), 'is_loop')
    want = branches_of(mesh)
    f, branches, loops = color_branches(mesh)
    values = f.array()
    what = f'network {s["parts"]}'
    require(f.dim() == 1 and len(values) == len(cells), f'{what}: marking function')
    colors = sorted(branches + loops)
    require(len(set(colors)) == len(colors) and 0 not in colors, f'{what}: colors {branches} {loops}')
    require(sorted(set(map(int, values))) == colors, f'{what}: cells have colors {sorted(set(values))} while branches are {branches} and loops {loops}')
    have = {}
    for c, k in enumerate(values):
        have.setdefault(int(k), set()).add(c)
    require(sorted(map(sorted, have.values())) == sorted(sorted(w) for w, _ in want), f'{what}: branches {have} expected {want}')
    closed = {w: c for w, c in want}
    for k, cs in have.items():
        require((k in loops) == closed[frozenset(cs)], f'{what}: {k} in loops {k in loops} expected {closed[frozenset(cs)]}')

    # Walk them
    mesh.init(0, 1)
    c2v, v2c = mesh.topology()(1, 0), mesh.topology()(0, 1)
    for k, cs in have.items():
        loop = k in loops
        path = [int(v) for v in walk_vertices(f, tag=k, is_loop=loop)] if len(cells) > 1 else None
        walked = [(int(c), bool(o)) for c, o in walk_cells(values, k, c2v, v2c, loop)]
        require(sorted(c for c, _ in walked) == sorted(cs), f'{what}: walk visits cells {walked} expected {cs}')
        links = [tuple(map(int, cells[c])) if o else tuple(map(int, cells[c]))[::-1] for c, o in walked]
        require(all(a[1] == b[0] for a, b in zip(links[:-1], links[1:])), f'{what}: walk by {links}')
        if loop:
            require(links[0][0] == links[-1][1], f'{what}: loop is not closed {links}')
        else:
            ends = links[0][0], links[-1][1]
            require(all(nv[v] != 2 for v in ends), f'{what}: walk ends in {ends}')
            # Starts in the one with more cells
            require(nv[ends[0]] >= nv[ends[1]], f'{what}: walk starts in vertex with {nv[ends[0]]} and ends in one with {nv[ends[1]]} cells')
        if path is not None:
            require(path == [links[0][0]] + [l[1] for l in links], f'{what}: walk by vertices {path} and by cells {links}')

    if len(want) == 1 and len(cells) > 1:
        # The mesh itself
        path = [int(v) for v in walk_vertices(mesh, is_loop=bool(loops))]
        edges = sorted(tuple(sorted(e)) for e in zip(path[:-1], path[1:]))
        require(edges == sorted(tuple(sorted(map(int, c))) for c in cells), f'{what}: walk of the mesh {path}')
    return f'{"+".join(sorted(set(s["parts"])))}' if len(cells) > 1 else None


def polygon(s):
    '''Star shaped polygon and a radius function'''
    rng = rng_of(s['seed'])
    n = s['n']
    angles = np.sort(2*np.pi*(np.arange(n) + rng.uniform(-0.3, 0.3, n))/n)
    r = rng.uniform(0.6, 1.2, n)
    x = np.c_[r*np.cos(angles), r*np.sin(angles)]*s['scale'] + np.round(rng.uniform(-2, 2, 2), 2)
    return x[::-1] if s['cw'] else x


def inside(x, p):
    '''Even-odd rule'''
    ans = False
    for a, b in zip(x, np.roll(x, -1, axis=0)):
        if (a[1] > p[1]) != (b[1] > p[1]) and p[0] < (b[0]-a[0])*(p[1]-a[1])/(b[1]-a[1])+a[0]:
            ans = not ans
    return ans


def distance(x, p):
    best = np.inf
    for a, b in zip(x, np.roll(x, -1, axis=0)):
        t = np.clip(np.dot(p-a, b-a)/np.dot(b-a, b-a), 0, 1)
        best = min(best, np.linalg.norm(a+t*(b-a)-p))
    return best


def points_for(x, s, far):
    rng = rng_of(s['seed']+3)
    ps = x.mean(axis=0) + rng.uniform(-1.6, 1.6, (12, 2))*s['scale']
    return np.array([p for p in ps if distance(x, p) > far*s['scale']])


def body_contour(s):
    x = polygon(s)
    contour = np.vstack([x, x[:1]])
    # Refinement
    n = s['nrefs']
    fine = refine_contour(contour, n)
    require(len(fine) == (len(contour)-1)*2**n+1, f'refined contour has {len(fine)} points')
    expect = np.vstack([[a + (b-a)*k/2**n for k in range(2**n)] for a, b in zip(contour[:-1], contour[1:])] + [contour[:1]])
    close(fine, expect, 1E-12, 'refined contour')
    points = points_for(x, s, 0.2)
    if not len(points):
        return None
    truth = np.array([inside(x, p) for p in points])
    # Edges are at most 2*1.2 so that about 1/32 should be enough
    w = wind_number(contour, points, nrefs=5)
    close(w, np.where(truth, -1. if s['cw'] else 1., 0), 5E-3, 'winding number')
    require(np.array_equal(is_inside_contour(contour, points, nrefs=5), truth), f'is inside {truth}')
    return f'contour {s["n"]} {s["cw"]}'


CONTOUR = st.fixed_dictionaries(dict(n=st.integers(3, 8), seed=SEED, cw=st.booleans(), nrefs=st.integers(0, 3), scale=st.sampled_from([1., 0.1, 10.])))

SUBCHECKS = [Sub('branches', NETWORK, body, quick=400, thorough=6000, chunks=4),
             Sub('contour', CONTOUR, body_contour, quick=100, thorough=1000)]
