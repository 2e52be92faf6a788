'''
python main.py <PROPERTY> [--replay FILE] [--tier T] [--seed N] [--only SUB] [--scale X]

Exit 0: no (unlisted) violation found; 1: VIOLATION line printed; 2: error of the check
'''
import sys, os, json, time, tempfile, shutil, subprocess, signal, argparse, glob, zipfile, atexit

T0 = time.time()
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('XII_REPO', '/repo')
NPROC = int(os.environ.get('VERIF_JOBS', '8'))
STALL = 240        # Seconds without progress on a case: hanging


def hypothesis_path(scratch):
    '''Make hypothesis importable for the interpreter which has dolfin'''
    dst = os.path.join(scratch, 'hyp')
    os.makedirs(dst)
    names = ('hypothesis', '_hypothesis_globals.py', '_hypothesis_ftz_detector.py', 'attr', 'attrs', 'sortedcontainers')
    for site in glob.glob('/opt/veriftools/pyvenv/lib/python3.12/site-packages'):
        if all(os.path.exists(os.path.join(site, n)) for n in names if 'ftz' not in n):
            for n in names:
                if os.path.exists(os.path.join(site, n)):
                    os.symlink(os.path.join(site, n), os.path.join(dst, n))
            return dst
    wheels = []
    for pat in ('hypothesis-*-cp312-*x86_64.whl', 'attrs-*.whl', 'sortedcontainers-*.whl'):
        wheels.append(sorted(glob.glob('/opt/veriftools/wheels/' + pat))[-1])
    for w in wheels:
        zipfile.ZipFile(w).extractall(dst)
    return dst


def die(msg):
    print('CHECK ERROR:', msg, flush=True)
    sys.exit(2)


def load_known(prop):
    path = os.path.join(ROOT, 'known_findings.json')
    entries = json.load(open(path))['findings'] if os.path.exists(path) else []
    return [e for e in entries if e['property'] == prop and e['status'] == 'known']


def fast_compiler(scratch):
    '''
    Compiler for the code generated by FFC, which has the headers precompiled. Most of the time of a check is
    spent on compiling forms.
    '''
    cxx = os.environ.get('CXX', 'c++')
    d = os.path.join(scratch, 'cxx')
    os.makedirs(d)
    inc = '/usr/lib/python3/dist-packages/ffc/backends/ufc'
    with open(os.path.join(d, 'pre.h'), 'w') as f:
        f.write(''.join('#include <%s>\n' % h for h in ('algorithm', 'cmath', 'cstring', 'iostream', 'stdexcept', 'vector', 'ufc.h')))
    try:
        subprocess.run([cxx, '-Wall', '-fPIC', '-std=c++11', '-O2', '-I' + inc, '-x', 'c++-header', os.path.join(d, 'pre.h'), '-o', os.path.join(d, 'pre.h.gch')],
                       check=True, timeout=60, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    except Exception:
        return cxx
    wrapper = os.path.join(d, 'cxx')
    with open(wrapper, 'w') as f:
        f.write(f"""#!/bin/sh
case "$*" in
  *"-O2 -I{inc}"*/ffc_*) exec {cxx} -include {d}/pre.h "$@" ;;
  *) exec {cxx} "$@" ;;
esac
""")
    os.chmod(wrapper, 0o755)
    return wrapper


class Runner:
    def __init__(self, prop, scratch, known):
        self.prop, self.scratch, self.known = prop, scratch, known
        jit = os.path.join(scratch, 'jit')
        if os.path.isdir('/opt/vp/cache/dijitso'):
            shutil.copytree('/opt/vp/cache/dijitso', jit)
        else:
            os.makedirs(jit)
        tmp = os.path.join(scratch, 'tmp')
        os.makedirs(tmp)
        self.env = dict(os.environ, CXX=fast_compiler(scratch), DIJITSO_CACHE_DIR=jit, INSTANT_CACHE_DIR=os.path.join(scratch, 'inst'),
                        MPLCONFIGDIR=os.path.join(scratch, 'mpl'), TMPDIR=tmp, XII_SCRATCH=tmp,
                        PYTHONPATH=os.pathsep.join([REPO, hypothesis_path(scratch)]),
                        XII_REPO=REPO)
        self.count = 0

    def launch(self, **job):
        i = self.count
        self.count += 1
        base = os.path.join(self.scratch, f'w{i}')
        job.update(property=self.prop, out=base + '.out', cur=base + '.cur',
                   known=[e['key'] for e in self.known])
        json.dump(job, open(base + '.job', 'w'))
        open(job['out'], 'w').close()
        log = open(base + '.log', 'w')
        cwd = os.path.join(self.scratch, f'cwd{i}')
        os.makedirs(cwd)
        p = subprocess.Popen([sys.executable, '-W', 'ignore', os.path.join(ROOT, 'harness', 'worker.py'), base + '.job'],
                             stdout=log, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, env=self.env, cwd=cwd,
                             start_new_session=True)
        return {'p': p, 'job': job, 'base': base, 'hung': False}

    def wait(self, workers, stop_on_fail=True):
        '''Until they are all finished; kills the ones which hang'''
        while True:
            alive = [w for w in workers if w['p'].poll() is None]
            if not alive:
                return
            time.sleep(0.1)
            for w in alive:
                try:
                    t = os.path.getmtime(w['job']['cur'])
                except OSError:
                    t = None
                w.setdefault('t0', time.time())
                t = max(t or 0, w['t0'])
                if time.time() - t > STALL:
                    w['hung'] = True
                    kill(w['p'])
            if stop_on_fail and any(self.failed(w) for w in workers if w['p'].poll() is not None):
                # There is a failure to report, the rest are not needed
                for w in alive:
                    if w['p'].poll() is None:
                        w['cut'] = True
                        kill(w['p'])

    def results(self, w):
        return [json.loads(l) for l in open(w['job']['out']) if l.endswith('\n')]

    def failed(self, w):
        if w.get('cut'):
            return None
        for r in self.results(w):
            if r['kind'] == 'task' and r['fail']:
                return {'sub': r['sub'], 'spec': r['fail']['spec'], 'msg': r['fail']['msg']}
            if r['kind'] == 'single' and r['status'] == 'fail':
                return {'sub': w['job']['sub'], 'spec': w['job']['spec'], 'msg': r['info']}
        rc = w['p'].returncode
        if w['hung'] or (rc is not None and rc < 0 and rc != -signal.SIGKILL):
            try:
                cur = json.load(open(w['job']['cur']))
            except (OSError, ValueError):
                return None
            what = 'no progress for %d s' % STALL if w['hung'] else 'died of signal %d' % -rc
            return {'sub': cur['sub'], 'spec': cur['spec'], 'msg': what, 'abnormal': True}
        return None

    def error(self, w):
        if w.get('cut'):
            return None
        rs = self.results(w)
        for r in rs:
            if r['kind'] == 'error':
                return r['tb']
        if not any(r['kind'] == 'done' for r in rs):
            return 'worker ended with %s\n%s' % (w['p'].returncode, open(w['base'] + '.log').read()[-2000:])


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--replay')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or '1'))
    ap.add_argument('--only')
    ap.add_argument('--scale', type=float, default=1.)
    ap.add_argument('-v', action='store_true')
    args = ap.parse_args()
    tier = 'thorough' if args.tier == 'thorough' else 'quick'

    scratch = tempfile.mkdtemp(prefix=f'xiiverif-{args.prop}-')
    atexit.register(shutil.rmtree, scratch, ignore_errors=True)
    signal.signal(signal.SIGTERM, lambda *a: sys.exit(2))

    known = load_known(args.prop)
    r = Runner(args.prop, scratch, known)
    budget = 640 if tier == 'quick' else 6*3600
    deadline = T0 + budget

    if args.replay:
        data = json.load(open(args.replay))
        w = r.launch(sub=data['sub'], spec=data['spec'], deadline=deadline)
        r.wait([w])
        f = r.failed(w)
        if f is None and data.get('tasks') and data.get('needs_history'):
            w = r.launch(tasks=data['tasks'], tier=data['tier'], deadline=deadline)
            r.wait([w])
            f = r.failed(w)
        if f:
            print(f['msg'])
            print(f'VIOLATION property={args.prop} replay={args.replay}', flush=True)
            return 1
        e = r.error(w)
        if e:
            die(e)
        print('replay: no violation')
        return 0

    # What there is to do is listed by a worker with no tasks
    sys.path.insert(0, ROOT), sys.path.insert(0, os.path.join(ROOT, 'harness'))
    lister = subprocess.run([sys.executable, '-W', 'ignore', '-c', f'''
import sys, json, os
sys.path.insert(0, {ROOT!r}); sys.path.insert(0, {os.path.join(ROOT, 'harness')!r})
import importlib
o = os.dup(1); os.dup2(2, 1)
m = importlib.import_module('checks.{args.prop}')
os.write(o, ('@@' + json.dumps(dict(rule=m.RULE, assumptions=getattr(m, 'ASSUMPTIONS', []),
   subs=[[s.name, s.quick*getattr(m, 'BOOST', 2), s.thorough, s.chunks] for s in m.SUBCHECKS]))).encode())
os._exit(0)
'''], env=r.env, cwd=scratch, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if '@@' not in lister.stdout:
        die('cannot import the check (or the code under test): ' + lister.stderr[-3000:])
    info = json.loads(lister.stdout.split('@@', 1)[1])

    from core import digest
    tasks = []
    for name, quick, thorough, chunks in info['subs']:
        if args.only and args.only not in name:
            continue
        n = int((quick if tier == 'quick' else thorough)*args.scale)
        if tier == 'thorough':
            chunks = max(chunks, min(8, n//25))
        else:
            chunks = max(chunks, min(4, n//150))
        for c in range(chunks):
            nc = n//chunks + (c < n % chunks)
            tasks.append({'sub': name, 'chunk': c, 'n': nc, 'seed': digest(args.seed, args.prop, name, c) % 2**32})

    # Static, so that what a worker goes through is a function of the seed
    workers = []
    for i in range(NPROC):
        mine = tasks[i::NPROC]
        if mine:
            workers.append(r.launch(tasks=mine, tier=tier, deadline=deadline))
    r.wait(workers)

    # Report
    stats = {'evaluations': 0, 'trivial': 0, 'labels': {}, 'known': {}}
    samples, distinct, persub, stopped = [], set(), {}, False
    for w in workers:
        for res in r.results(w):
            if res['kind'] != 'task':
                continue
            s = res['stats']
            ps = persub.setdefault(res['sub'], {'evaluations': 0, 'distinct_nontrivial': 0})
            ps['evaluations'] += s['evaluations']
            ps['distinct_nontrivial'] += len(s['distinct'])
            stats['evaluations'] += s['evaluations']
            stats['trivial'] += s['trivial']
            for d in ('labels', 'known'):
                for k, v in s[d].items():
                    k = res['sub'] + ': ' + k if d == 'labels' else k
                    stats[d][k] = stats[d].get(k, 0) + v
            distinct.update(s['distinct'])
            stopped = stopped or s['stopped']
            if res['chunk'] == 0:
                samples.extend(s['samples'][:1])

    failures = [(w, f) for w in workers for f in [r.failed(w)] if f]
    errors = [e for w in workers if not r.failed(w) for e in [r.error(w)] if e]

    confirmed, replay = None, None
    if failures:
        w, f = failures[0]
        again = r.launch(sub=f['sub'], spec=f['spec'], deadline=time.time()+600)
        r.wait([again])
        f2 = r.failed(again)
        os.makedirs(os.path.join(ROOT, 'replays'), exist_ok=True)
        replay = os.path.join('replays', f'{args.prop}-{digest(f["sub"], json.dumps(f["spec"], sort_keys=True)):x}.json')
        # A hang has to be seen twice
        if f2 is not None or not w['hung']:
            confirmed = f
            json.dump({'property': args.prop, 'sub': f['sub'], 'spec': f['spec'], 'message': f['msg'], 'seed': args.seed,
                       'tier': tier, 'tasks': w['job']['tasks'], 'needs_history': f2 is None},
                      open(os.path.join(ROOT, replay), 'w'), indent=1)

    wall = time.time() - T0
    evidence = {'property': args.prop, 'tier': tier, 'seed': args.seed, 'level': 'exploration',
                'coverage': {'evaluations': stats['evaluations'], 'distinct_nontrivial': len(distinct),
                             'rule': info['rule'], 'samples': samples[:12], 'trivial': stats['trivial'],
                             'per_subcheck': persub, 'classes': stats['labels'],
                             'known_findings_hit': stats['known'], 'cut_by_time_budget': stopped},
                'assumptions': info['assumptions'], 'wall_s': round(wall, 2),
                'violations': 1 if confirmed else 0}
    if not args.only:
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        json.dump(evidence, open(os.path.join(ROOT, 'evidence', args.prop + '.json'), 'w'), indent=1)

    if args.v:
        print(json.dumps(evidence['coverage']['per_subcheck'], indent=1))
        print(json.dumps(evidence['coverage']['classes'], indent=1))
        for w in workers:
            rs = r.results(w)
            print('worker', [(x.get('sub', x['kind']), round(x.get('wall', 0), 1)) for x in rs])
    for e in known:
        if stats['known'].get(e['key']):
            print(f'KNOWN-FINDING: property={args.prop} {e["what"]}')
    if confirmed:
        print(f'[{confirmed["sub"]}] case: {json.dumps(confirmed["spec"])[:1500]}')
        print(confirmed['msg'])
        print(f'VIOLATION property={args.prop} replay={replay}', flush=True)
        return 1
    if errors:
        die('\n'.join(errors)[:6000])
    if failures:
        die('a hang was not reproduced: ' + failures[0][1]['msg'])
    print(f'OK property={args.prop} tier={tier} seed={args.seed} cases={stats["evaluations"]} '
          f'nontrivial={len(distinct)} wall={wall:.1f}s')
    return 0


sys.exit(main())
