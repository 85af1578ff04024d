"""Runs the monitors of one property against the current tree of /repo and gives the verdict.

driver.py ID TIER   exit 0: held on everything explored; 1: violation (with a VIOLATION line); 2: harness error
driver.py replay F  runs the recorded case of a violation again
"""
import concurrent.futures, hashlib, importlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
B = '/repo/_build'
PY = B + '/inst/lib/x86_64-linux-gnu/yade/py'
EVID = os.path.join(VERIF, 'evidence')
CORES = 8
sys.path.insert(0, os.path.join(VERIF, 'monitors'))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


class HarnessError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def build(work):
    t = time.time()
    out = os.path.join(work, 'build.log')
    with open(out, 'w') as f:
        rc = subprocess.run(['bash', os.path.join(HERE, 'build.sh')], stdin=subprocess.DEVNULL, stdout=f, stderr=subprocess.STDOUT,
                            env=dict(os.environ, VERIF_WORK=work)).returncode
    txt = open(out, errors='replace').read()
    steps = re.findall(r'\[(\d+)/(\d+)\]', txt)
    log('build: rc=%d %.0fs, %s ninja steps' % (rc, time.time() - t, steps[-1][1] if steps else '0'))
    if rc != 0:
        log(txt[-4000:])
        raise HarnessError('build failed')


def job_env(job, work):
    env = {k: v for k, v in os.environ.items() if k in ('PATH', 'HOME', 'LANG', 'LC_ALL', 'VERIF_SEED')}
    env.update(HOME=work, LANG='C.UTF-8', LC_ALL='C.UTF-8', OMP_NUM_THREADS=str(job.get('threads', 1)), OPENBLAS_NUM_THREADS='1',
               MPLBACKEND='Agg', PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', PYTHONWARNINGS='ignore', TMPDIR=work,
               OMP_WAIT_POLICY='passive',
               PYTHONPATH=':'.join([HERE, os.path.join(VERIF, 'monitors'), '/opt/vp/py3compat/modules', PY]))
    for k, v in job.get('env', {}).items():
        env[k] = str(v).replace('@WORK@', work)
    return env


def run_job(pid, job, seed, work, only=None):
    """One worker process; returns its result dict (with 'status': ok | crash | hang | error)."""
    name = re.sub(r'[^A-Za-z0-9_.-]', '_', job['name'])
    d = os.path.join(work, name)
    attempt = 0
    hangs = 0
    skip = []
    merged = None
    t0 = time.time()
    while True:
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        spec = dict(job, property=pid, seed=seed, only=only, skip=skip, out=os.path.join(d, 'result.json'), progress=os.path.join(d, 'progress'))
        json.dump(spec, open(os.path.join(d, 'spec.json'), 'w'))
        if job.get('direct'):
            cmd = ['/usr/bin/python3', os.path.join(HERE, 'worker_direct.py'), os.path.join(d, 'spec.json')]
        else:
            cmd = list(job.get('wrap', [])) + ['/usr/bin/python3', os.path.join(HERE, 'worker.py'), os.path.join(d, 'spec.json')]
        cmd = [c.replace('@DIR@', d) for c in cmd]
        attempt += 1
        with open(os.path.join(d, 'log'), 'w') as f:
            p = subprocess.Popen(cmd, cwd=d, stdin=subprocess.DEVNULL, stdout=f, stderr=subprocess.STDOUT, env=job_env(job, d), start_new_session=True)
            try:
                rc = p.wait(timeout=job.get('timeout', 300))
            except subprocess.TimeoutExpired:
                rc = 'hang'
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
        logtxt = open(os.path.join(d, 'log'), errors='replace').read()
        prog = ''
        try:
            prog = open(spec['progress']).read()
        except OSError:
            pass
        res = None
        try:
            res = json.load(open(spec['out']))
        except (OSError, ValueError):
            pass
        if res is not None and res.get('done'):
            res['status'] = 'ok'
        elif rc == 'hang':
            hangs += 1
            if hangs == 1:  # run it once more before it counts
                log('  job %s timed out at case %s; running it again' % (job['name'], prog[:200]))
                continue
            res = res or blank()
            res['status'] = 'hang'
            res['violations'].append(dict(key='hang:%s' % job['func'], case=first_int(prog), detail='no answer within %d s, twice; case: %s' % (job.get('timeout', 300), prog[:500])))
        elif not prog:
            raise HarnessError('job %s failed before its first case (rc %s):\n%s' % (job['name'], rc, logtxt[-3000:]))
        elif isinstance(rc, int) and rc in (3,):
            raise HarnessError('job %s: error in the monitor (rc %s):\n%s' % (job['name'], rc, logtxt[-3000:]))
        else:
            res = res or blank()
            res['status'] = 'crash'
            res['violations'].append(dict(key='crash:%s' % job['func'], case=first_int(prog), detail='the process ended with %s in case: %s\n%s' % (rc, prog[:500], logtxt[-1500:])))
        res['wall'] = time.time() - t0
        res['job'] = job['name']
        res['log_tail'] = logtxt[-1500:]
        return res


def first_int(s):
    m = re.match(r'\s*(\d+)', s or '')
    return int(m.group(1)) if m else None


def blank():
    return dict(evaluations=0, distinct=[], samples=[], violations=[], notes={})


def run_jobs(pid, jobs, seed, work, only=None):
    """Runs the jobs with at most CORES threads at a time."""
    if any(j.get('prepare') == 'native' for j in jobs):
        r = subprocess.run(['gcc', '-O1', '-g', '-shared', '-fPIC', '-o', os.path.join(work, 'libminigomp.so'), os.path.join(VERIF, 'native', 'minigomp.c'), '-lpthread'],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise HarnessError('native helper does not compile:\n' + r.stdout)
    free = [CORES]
    cond = threading.Condition()
    results = [None] * len(jobs)

    def one(i):
        job = jobs[i]
        need = min(CORES, max(1, int(job.get('cores', job.get('threads', 1)))))
        with cond:
            while free[0] < need:
                cond.wait()
            free[0] -= need
        try:
            return run_job(pid, job, seed, work, only)
        finally:
            with cond:
                free[0] += need
                cond.notify_all()

    order = sorted(range(len(jobs)), key=lambda i: -jobs[i].get('weight', 1))
    with concurrent.futures.ThreadPoolExecutor(max(1, len(jobs))) as ex:
        futs = {i: ex.submit(one, i) for i in order}
        for i, f in futs.items():
            results[i] = f.result()
    return results


def known_findings():
    p = os.path.join(VERIF, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else []


def load(pid):
    return importlib.import_module(pid)


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == 'replay':
        return replay(sys.argv[2])
    pid, tier = sys.argv[1], sys.argv[2]
    assert tier in ('quick', 'thorough')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    work = tempfile.mkdtemp(prefix='verif-%s-' % pid)
    try:
        if not os.environ.get('VERIF_NOBUILD'):
            build(work)
        mod = load(pid)
        jobs = mod.plan(tier)
        for j in jobs:
            j.setdefault('module', pid)
            j.setdefault('name', j['func'])
            j['tier'] = tier
        names = [j['name'] for j in jobs]
        assert len(set(names)) == len(names), 'job names differ'
        results = run_jobs(pid, jobs, seed, work)
    except HarnessError as e:
        log('ERROR: %s' % e)
        return 2
    finally:
        if not os.environ.get('VERIF_KEEP'):
            shutil.rmtree(work, ignore_errors=True)
    distinct, samples, evals, viols, per_job = set(), [], 0, [], {}
    for job, r in zip(jobs, results):
        evals += r['evaluations']
        distinct.update(r['distinct'])
        samples += r['samples'][:3]
        per_job[job['name']] = dict(status=r['status'], evaluations=r['evaluations'], wall_s=round(r['wall'], 1), notes=r.get('notes', {}))
        for v in r['violations']:
            viols.append(dict(v, job=job, seed=seed, property=pid))
        log('  job %-28s %-6s evaluations=%d distinct=%d violations=%d %.1fs %s' % (job['name'], r['status'], r['evaluations'], len(r['distinct']), len(r['violations']), r['wall'], json.dumps(r.get('notes', {}))[:300]))
        if r['status'] == 'ok' and r['evaluations'] == 0 and not r['violations']:
            log('ERROR: job %s observed nothing' % job['name'])
            return 2
    known, new = [], []
    kf = [k for k in known_findings() if k['property'] == pid and not k.get('fixed')]
    for v in viols:
        hit = [k for k in kf if re.fullmatch(k['key'], v['key'])]
        (known if hit else new).append((v, hit))
    for k in kf:
        if any(h and h[0] is k for _, h in known):
            log('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    rdir = os.path.join(EVID, 'replay')
    os.makedirs(rdir, exist_ok=True)
    seen = set()
    nrep = 0
    for v, _ in new:
        if v['key'] in seen:
            if os.environ.get('VERIF_ALL'): log('  also: %s %s %s' % (v['job']['name'], v.get('case'), v['detail'][:1500]))
            continue
        seen.add(v['key'])
        nrep += 1
        path = os.path.join(rdir, '%s-%d.json' % (pid, nrep))
        json.dump(v, open(path, 'w'), indent=1)
        log('violation key=%s job=%s case=%s: %s' % (v['key'], v['job']['name'], v.get('case'), v['detail'][:1500]))
        log('VIOLATION property=%s replay=%s' % (pid, path))
    ev = dict(property=pid, tier=tier, seed=seed, level='exploration',
              coverage=dict(evaluations=evals, distinct_nontrivial=len(distinct), rule=mod.RULE, samples=[s if isinstance(s, str) else json.dumps(s) for s in samples[:12]], jobs=per_job),
              wall_s=round(time.time() - t0, 1), violations=len(seen), assumptions=list(getattr(mod, 'ASSUMPTIONS', [])))
    json.dump(ev, open(os.path.join(EVID, pid + '.json'), 'w'), indent=1)
    log('%s %s: evaluations=%d distinct=%d violations=%d known=%d %.0fs' % (pid, tier, evals, len(distinct), len(seen), len(known), time.time() - t0))
    return 1 if seen else 0


def replay(path):
    v = json.load(open(path))
    work = tempfile.mkdtemp(prefix='verif-replay-')
    try:
        if not os.environ.get('VERIF_NOBUILD'):
            build(work)
        r = run_job(v['property'], v['job'], v['seed'], work, only=v.get('case'))
    except HarnessError as e:
        log('ERROR: %s' % e)
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)
    print(json.dumps(r['violations'], indent=1))
    print(r['log_tail'])
    if r['violations']:
        log('VIOLATION property=%s replay=%s' % (v['property'], path))
        return 1
    return 0


try:
    sys.exit(main())
except SystemExit:
    raise
except BaseException:
    import traceback
    traceback.print_exc()
    sys.exit(2)
