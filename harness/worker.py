'''
Runs the tasks of one worker: python worker.py JOB.json
JOB: {property, tier, tasks: [{sub, chunk, n, seed}], known: [keys], out, cur, deadline}
  or {property, spec, sub, ...} for the single case of a replay
Results go to JOB['out'] as JSON lines.
'''
import sys, os, json, time, traceback, importlib

job = json.load(open(sys.argv[1]))
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(here))
sys.path.insert(0, here)

out = open(job['out'], 'a', buffering=1)
t_start = time.time()


def emit(**kw):
    out.write(json.dumps(kw, default=repr) + '\n')


def set_cur(sub, spec):
    # The case being run: what a crash or a hang is blamed on
    with open(job['cur'] + '.tmp', 'w') as f:
        json.dump({'sub': sub, 'spec': spec, 't': time.time()}, f, default=repr)
    os.replace(job['cur'] + '.tmp', job['cur'])


import hypothesis
from hypothesis import settings, given, HealthCheck, Phase
import core
from core import Violation, canon, digest

KNOWN = set(job.get('known', ()))
SHRINK_SECONDS = 45


class Known(Exception):
    pass


def import_checks():
    mod = importlib.import_module('checks.' + job['property'])
    return {s.name: s for s in mod.SUBCHECKS}


def harness_error(e):
    '''An exception of ours: not something the code under test did'''
    return isinstance(e, (MemoryError, hypothesis.errors.InvalidArgument, SyntaxError))


def case(sub, spec):
    '''Returns ('ok', label) or ('known', key) or ('fail', message)'''
    set_cur(sub.name, spec)
    try:
        label = sub.body(spec)
        return 'ok', label
    except Violation as e:
        if e.key in KNOWN:
            return 'known', e.key
        return 'fail', f'{e}'
    except Exception as e:
        if harness_error(e):
            raise
        tb = traceback.format_exc()
        return 'fail', f'unexpected {type(e).__name__}: {str(e)[:300]}\n{tb[-2500:]}'


def run_task(sub, task):
    stats = {'evaluations': 0, 'trivial': 0, 'labels': {}, 'known': {}, 'samples': []}
    seen = set()
    fail = {'spec': None, 'msg': None, 't': None, 'size': None}
    stopped = [False]

    def one(spec):
        if time.time() > job['deadline']:
            stopped[0] = True
            return
        if fail['t'] is not None and time.time() - fail['t'] > SHRINK_SECONDS:
            return
        status, info = case(sub, spec)
        if fail['t'] is None:
            # During the shrinking we do not count
            stats['evaluations'] += 1
            if status == 'known':
                stats['known'][info] = stats['known'].get(info, 0) + 1
            if status == 'ok':
                if info is None:
                    stats['trivial'] += 1
                else:
                    stats['labels'][info] = stats['labels'].get(info, 0) + 1
                    key = digest(sub.name, canon(spec))
                    if key not in seen and len(stats['samples']) < 2 and len(canon(spec)) < 3000:
                        stats['samples'].append({'sub': sub.name, 'case': spec, 'class': info})
                    seen.add(key)
        if status == 'fail':
            size = len(canon(spec))
            if fail['t'] is None:
                fail['t'] = time.time()
            fail.update(spec=spec, msg=info, size=size)
            raise AssertionError(info)

    try:
        if task['chunk'] == 0:
            for spec in sub.examples:
                one(json.loads(canon(spec)))

        n = task['n']
        if n:
            test = given(sub.strategy)(lambda spec: one(json.loads(canon(spec))))
            test = settings(max_examples=n, deadline=None, database=None, derandomize=False,
                            phases=(Phase.generate, Phase.shrink), report_multiple_bugs=False,
                            print_blob=False, verbosity=hypothesis.Verbosity.quiet,
                            suppress_health_check=list(HealthCheck))(test)
            test = hypothesis.seed(task['seed'])(test)
            test()
    except BaseException as e:
        if fail['spec'] is None or isinstance(e, (KeyboardInterrupt, SystemExit)):
            raise
    stats['distinct'] = [f'{k:x}' for k in seen]
    stats['stopped'] = stopped[0]
    emit(kind='task', sub=sub.name, chunk=task['chunk'], stats=stats,
         fail=None if fail['spec'] is None else {'spec': fail['spec'], 'msg': fail['msg']},
         wall=time.time()-t_start)
    return fail['spec'] is not None


def main():
    subs = import_checks()
    emit(kind='started', wall=time.time()-t_start)
    if 'spec' in job:
        status, info = case(subs[job['sub']], job['spec'])
        emit(kind='single', status=status, info=info)
    else:
        for task in job['tasks']:
            if run_task(subs[task['sub']], task):
                break
    emit(kind='done')


try:
    main()
except BaseException:
    emit(kind='error', tb=traceback.format_exc())
    out.close()
    os._exit(3)
out.close()
# No interpreter teardown: PETSc/dolfin finalization is of no interest here
os._exit(0)
