'''Assembly does not depend on what was assembled before'''
from zoo import *
from pristine import Zygote

RULE = ('Case = two worlds (meshes, spaces, markers, normals, shapes, weights, patches with 20-70 operators in total) and a sequence of requests for assembly of an operator of a family in one of the roles, '
        'changes of the data of operators and overwriting of earlier results. Non-trivial: at least two different requests with the same volume mesh were assembled.')
ASSUMPTIONS = ['reference is the same request made in a process forked before anything was assembled, with the same data rebuilt from scratch and the same changes of data']

# Requests that could be mistaken for each other
FAMILIES = {
    'flat': ['trace CG1', 'trace DG1', 'trace DG0', 'trace vCG1', 'trace', 'mean', 'restrict', 'inject', 'patch CG1', 'patch DG0', 'inject CG1', ''],
    'space': ['average', 'average', 'flux', 'average', 'trace', 'patch', ''],
    'curve': ['point', 'grad', ''],
}


def pick(world, family, i):
    names = [n for n in sorted(world.ops) if n.startswith(family)]
    return names[i % len(names)]


def alone(arg):
    '''The request alone'''
    spec, changes, name, role, seed = arg
    world = World(spec)
    for what, k in changes:
        world.mutate(what, k)
    return world.assemble(name, role, seed)[0]


pristine = Zygote(alone)


def body(s):
    specs = [dict(kind=s['kind'], mesh=s['mesh'], seed=s['seed']), dict(kind=s['kind'], mesh=dict(s['mesh'], aff=s['mesh']['aff']+1), seed=s['seed']+s['other'])]
    worlds = {}
    changes = [[], []]
    results = []
    asked = []
    for step in s['steps']:
        i = step['world']
        if i not in worlds:
            worlds[i] = World(specs[i])
        world = worlds[i]
        if step['what'] == 'change':
            ms = world.mutations()
            # The ones that matter
            about = {'trace': ['normal', 'markers'], 'mean': ['weight', 'constant', 'cells'], 'patch': ['patch', 'vertex'], 'grad': ['tangent']}.get(s['family'].split(' ')[0])
            ms = [m for m in ms if about is None or any(m.startswith(a) for a in about)]
            m = ms[step['i'] % len(ms)]
            world.mutate(m, step['seed'])
            changes[i].append((m, step['seed']))
        elif step['what'] == 'spoil':
            if results:
                A = results[step['i'] % len(results)]
                if A is not None:
                    A *= 0.
        else:
            name = pick(world, s['family'], step['i'])
            role = World.ROLES[step['role']]
            mine, A = world.assemble(name, role, step['seed'])
            results.append(A)
            expected = pristine((specs[i], changes[i], name, role, step['seed']))
            close(mine, expected, tol=1E-11, what=f'{name} as {role} after {asked}')
            asked.append((i, name, role))
    if len(set(asked)) > 1:
        return '%s %s' % (s['kind'], s['family'])


STEP = st.fixed_dictionaries(dict(what=st.sampled_from(['ask', 'ask', 'ask', 'ask', 'change', 'spoil']), world=st.sampled_from([0, 0, 0, 1]),
                                  i=st.integers(0, 200), role=st.integers(0, len(World.ROLES)-1), seed=st.integers(0, 5)))


def cases(kind, family):
    mesh = {'flat': mesh2d(3, refine=False), 'curve': mesh2d(1, refine=False),
            'space': st.fixed_dictionaries(dict(k=st.just('cube'), n=st.just([2, 2, 2]), jit=st.none() | SEED, aff=st.integers(0, 3), refine=st.none()))}[kind]
    return st.fixed_dictionaries(dict(kind=st.just(kind), family=st.just(family), mesh=mesh, seed=SEED, other=st.integers(0, 1),
                                      steps=st.lists(STEP, min_size=2, max_size=8)))


SUBCHECKS = [Sub('%s-%d-%s' % (kind, i, f.replace(' ', '')), cases(kind, f), body, quick=6 if kind == 'space' else 10, thorough=250)
             for kind in FAMILIES for i, f in enumerate(FAMILIES[kind])]
