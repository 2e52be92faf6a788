'''Pictures of meshes and stored meshes'''
from xii import *
from meshes import *
import re, tempfile, contextlib, io
from xii.meshing.tikz import tikzify_2d_mesh, load_mesh

BOOST = 6
RULE = 'Case = mesh (planar, surface in space), markers of cells, edges and vertices, styles of some of the tags. Non-trivial: at least 2 cells and two kinds of entities in the picture.'
ASSUMPTIONS = ['numbers in the picture have 6 digits']

NUM = r'(-?[\d.]+(?:e[+-]?\d+)?)'
POINT = re.compile(r'\(([^()]*)\)')


def points_of(text):
    out = []
    for p in POINT.findall(text):
        try:
            out.append(tuple(float(v) for v in p.split(',')))
        except ValueError:
            pass
    return out


def rounded(p):
    return tuple(float('%g' % v)+0. for v in p)


def body(s):
    mesh = mesh_of(s['mesh'])
    tdim = mesh.topology().dim()
    if tdim == 3:
        f, tags = mark_entities(mesh, 2, s['mark'])
        mesh = EmbeddedMesh(f, tags)
    gdim = mesh.geometry().dim()
    x, cells = mesh.coordinates(), mesh.cells()
    rng = rng_of(s['seed'])
    want = {'fill': [], 'draw': [], 'node': []}
    comments = []

    def styles(values, name):
        return {int(t): f'{name} {t}, thick' for t in values if rng.randint(3)}

    cell_info = None
    if s['cells']:
        cf = df.MeshFunction('size_t', mesh, 2, 0)
        cf.array()[:] = rng.randint(0, 3, len(cells))
        st_ = {int(t): f'cell{t}' for t in set(cf.array())} if rng.randint(4) else None
        cell_info = (cf, st_)
        if st_ is not None:
            want['fill'] = [(st_[int(cf[c])], tuple(rounded(p) for p in x[cells[c]])) for c in range(len(cells))]
        for t in sorted(set(map(int, cf.array()))):
            a = [(df.Cell(mesh, c).volume(), x[cells[c]].mean(axis=0)) for c in range(len(cells)) if cf[c] == t]
            comments.append((f'mid {t}', sum(v*m for v, m in a)/sum(v for v, _ in a)))
    infos, mesh1 = [], None
    mesh.init(1, 0)
    e2v = mesh.topology()(1, 0)
    nv = 0
    for _ in range(s['facets']):
        ff, _ = mark_entities(mesh, 1, dict(s['mark'], seed=int(rng.randint(2**31))))
        st_ = {int(t): [None, f'edge{t}', f'edge{t}, thick'][rng.randint(3)] for t in set(ff.array()) if rng.randint(4)}
        infos.append((ff, st_))
        for e in range(mesh.num_entities(1)):
            style = st_.get(int(ff[e]))
            if style is not None:
                want['draw'].append((style, tuple(rounded(p) for p in x[e2v(e)])))
        touch = {}
        for e in range(mesh.num_entities(1)):
            if ff[e]:
                for v in e2v(e):
                    touch.setdefault(int(v), set()).add(int(ff[e]))
        for v, ts in touch.items():
            ts = sorted(ts)
            for i in range(len(ts)):
                for j in range(i):
                    comments.append((f'isect {ts[j]} {ts[i]}', x[v]))
    comments.append(('ll', x.min(axis=0)))
    comments.append(('ur', x.max(axis=0)))
    vertex_info = None
    if s['vertices']:
        vertex_info = []
        for _ in range(s['vertices']):
            vf = df.MeshFunction('size_t', mesh, 0, 0)
            vf.array()[:] = rng.randint(0, 3, len(x))
            st_ = {t: ([None, 'circle', 'red'][rng.randint(3)], '$%d$' % t) for t in range(3) if rng.randint(3)}
            vertex_info.append((vf, st_))
            for v in range(len(x)):
                if int(vf[v]) in st_ and st_[int(vf[v])][0] is not None:
                    style, text = st_[int(vf[v])]
                    want['node'].append((style, (rounded(x[v]), ), text))
        if len(vertex_info) == 1 and rng.randint(2):
            vertex_info = vertex_info[0]
    kwargs = {}
    if s['bif']:
        last = infos[-1][0]
        tags = [int(t) for t in sorted(set(last.array()) - {0})]
        tags = tags[:1+rng.randint(len(tags))]
        kwargs['bifurcation_nodes_for'] = tags
        count = {}
        for e in range(mesh.num_entities(1)):
            if last[e] in tags:
                for v in e2v(e):
                    count[int(v)] = count.get(int(v), 0)+1
        comments.extend(('bif', x[v]) for v, n in count.items() if n > 2)
    with contextlib.redirect_stdout(io.StringIO()):
        if s['colors']:
            kwargs['colors'] = {'mine': (0.125, 0.5, 0.75)}
        text = tikzify_2d_mesh(infos[0] if len(infos) == 1 and rng.randint(2) else infos, cell_info, vertex_info, **kwargs)
    lines = text.split('\n')
    if s['colors']:
        require(any(re.match(r'\\definecolor\{mine\}\{rgb\}\{0.125, 0.5, 0.75\}', l) for l in lines), 'color is not defined')
    have = {'fill': [], 'draw': [], 'node': []}
    marks, named, pictured = [], {}, []
    for l in lines:
        m = re.match(r'\\(fill|draw)\[(.*?)\] (.*);$', l)
        if m:
            have[m.group(1)].append((m.group(2), tuple(rounded(p) for p in points_of(m.group(3)))))
            require((m.group(1) == 'fill') == l.endswith('-- cycle;'), f'path {l}')
            continue
        m = re.match(r'\\node\[(.*?)\] at (\(.*?\)) \{(.*)\};$', l)
        if m:
            pts = points_of(m.group(2))
            if pts:
                have['node'].append((m.group(1), (rounded(pts[0]), ), m.group(3)))
            else:
                pictured.append(m.group(2)[1:-1])
            continue
        m = re.match(r'\\coordinate \((\w+)\) at (\(.*?\));  % (.*)$', l)
        if m:
            require(m.group(1) not in named, f'coordinate {m.group(1)} again')
            c = m.group(3)
            named[m.group(1)] = c
            m_ = re.match(r'isect of (\d+) and (\d+)', c)
            if m_:
                c = 'isect %d %d' % tuple(sorted(map(int, m_.groups())))
            marks.append((c, points_of(m.group(2))[0]))
    what = f'{gdim}d'
    for k in want:
        require(sorted(have[k]) == sorted(want[k]), f'{what}: {k} has {len(have[k])} commands expected {len(want[k])}')
    require(sorted(c for c, _ in marks) == sorted(c for c, _ in comments), f'{what}: coordinates {sorted(marks)} expected {sorted(comments, key=str)}')
    left = list(comments)
    for c, p in marks:
        match = [i for i, (d, q) in enumerate(left) if c == d and np.linalg.norm(np.array(p)-q) < 1E-8*(1+np.abs(x).max())]
        require(match, f'{what}: coordinate {c} at {p}')
        left.pop(match[0])
    require(sorted(pictured) == sorted(n for n, c in named.items() if c == 'bif'), f'{what}: nodes of bifurcations')
    require(text.count('\\begin{tikzpicture}') == 1 and text.count('\\end{document}') == 1, 'document')
    return what if sum(map(bool, want.values())) > 1 and len(cells) > 1 else None


def body_load(s):
    mesh = mesh_of(s['mesh'])
    tdim = mesh.topology().dim()
    rng = rng_of(s['seed'])
    fs = {}
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, 'mesh.h5')
        h5 = df.HDF5File(mesh.mpi_comm(), path, 'w')
        h5.write(mesh, 'mesh')
        for dim in range(0 if s['vertices'] else 1, tdim+1):
            if rng.randint(3):
                f, _ = mark_entities(mesh, dim, dict(s['mark'], how='random'))
                h5.write(f, f'tags{dim}')
                fs[dim] = f
        h5.close()
        asked = [(dim, f'tags{dim}') for dim in range(1, tdim+1)]
        rng.shuffle(asked)
        asked = [(int(a), str(b)) for a, b in asked]
        other, loaded = load_mesh(path, asked)
    require(sorted(entity_keys(other, tdim)) == sorted(entity_keys(mesh, tdim)), 'cells')
    require(len(loaded) == len(asked), f'{len(loaded)} functions expected {len(asked)}')
    for (dim, _), f in zip(asked, loaded):
        if dim not in fs:
            require(f is None, f'function for {dim} is not in the file')
            continue
        require(f.dim() == dim and f.mesh().id() == other.id(), f'function for {dim}')
        table = dict(zip(entity_keys(mesh, dim), fs[dim].array()))
        require(all(f[e] == table[k] for e, k in enumerate(entity_keys(other, dim))), f'values for {dim}')
    return f'{tdim}d' if fs and mesh.num_cells() > 1 else None


CASE = st.fixed_dictionaries(dict(mesh=st.one_of(MESH[2], MESH[2], MESH[3]), mark=MARK, seed=SEED, cells=st.booleans(), facets=st.integers(1, 2), vertices=st.integers(0, 2), bif=st.booleans(), colors=st.booleans()))

SUBCHECKS = [Sub('picture', CASE, body, quick=200, thorough=4000, chunks=4), Sub('load', CASE, body_load, quick=100, thorough=1500, chunks=2)]
