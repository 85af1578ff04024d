"""Memory safety of the scripting interface: random call histories on the real library, plainly with poisoned heap memory, and under valgrind's memcheck."""
import json, os, re, subprocess
from vctx import each
HERE = os.path.dirname(os.path.abspath(__file__))

RULE = ('a history is a random scene (any contact law, open or periodic, clumps, facets, boxes) and a random sequence of calls: building, erasing, clumping, stepping, editing from inside a step, saving and loading, measuring, imposing motions, '
        'recording, with ids and indices that exist, were erased or never existed. Plain histories run with freed and fresh heap memory filled with a pattern and must not end the process; histories under memcheck must in addition show no invalid '
        'read, write or free and no decision on an unset value with the library on the stack; distinct = (call, outcome)')
ASSUMPTIONS = ['bodies have a shape and a material, laws are used with the contacts they are made for (other combinations are errors of configuration that may end the run)',
               'code that uses CGAL runs only in the plain histories: its directed rounding does not work under valgrind', 'functions that return numpy arrays through the C interface are left out: this build does not initialise that interface']


def plan(tier):
    q = tier == 'quick'
    J = [dict(func='plain', name='plain-%d' % i, threads=t, args=dict(n=12 if q else 150), env=dict(MALLOC_PERTURB_=str(p)), timeout=600 if q else 3000) for i, (t, p) in enumerate(((1, 165), (2, 90), (1, 255)))]
    J += [dict(func='memcheck', name='memcheck-%d' % i, direct=True, args=dict(n=1, part=i, calls=500 if q else 6000), timeout=600 if q else 3000) for i in range(5)]
    J += [dict(func='memcheck', name='memcheck-ids', direct=True, args=dict(n=1, part=99, calls=350 if q else 4000), timeout=600 if q else 3000)]
    return J


@each(12)
def plain(ctx, case):
    import p25ops, shutil, tempfile
    d = tempfile.mkdtemp(dir=os.path.dirname(ctx.spec['out']))
    last = []

    def trace(k, res):
        if res is None:
            last.append(k); ctx.mark('call %s after %s' % (k, last[-12:-1])); del last[:-30]
        else: ctx.observed((k, res), 1)
    w = p25ops.World(case.rng, d)
    p25ops.history(w, 120, trace)
    shutil.rmtree(d)


def memcheck(ctx):
    for c in ctx.cases(1):
        ctx.guard(one, ctx, c)


def one(ctx, c):
    d = os.path.dirname(ctx.spec['out'])
    log, tr = os.path.join(d, 'memcheck.log'), os.path.join(d, 'calls.txt')
    env = dict(os.environ, OMP_NUM_THREADS='1', OMP_WAIT_POLICY='passive', PYTHONMALLOC='malloc', OPENBLAS_NUM_THREADS='1')
    cmd = ['valgrind', '--error-limit=no', '--num-callers=16', '--log-file=' + log, '/usr/bin/python3', '-W', 'ignore', os.path.join(HERE, 'p25vg.py'), str(ctx.spec['seed']), str(ctx.args['part']), str(ctx.args['calls']), d, log, tr]
    p = subprocess.run(cmd, env=env, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    txt = open(log, errors='replace').read()
    calls = [l.split() for l in open(tr, errors='replace')] if os.path.exists(tr) else []
    for l in calls:
        if l[1] != '-': ctx.observed((l[0], l[1]), 1)
    done = bool(calls) and calls[-1][0] == 'DONE'
    recent = [l[0] for l in calls if l[1] == '-'][-12:]
    suspects = [l[0] for l in calls if len(l) > 2]
    ctx.check(p.returncode == 0 and done, 'process ended', lambda: 'rc %s during %s\n%s\n%s' % (p.returncode, recent, p.stdout[-1200:], '\n'.join(l for l in txt.splitlines()[-40:])[-2000:]))
    ctx.note('histories under memcheck')
    seen = {}
    for blk in re.split(r'\n==\d+== \n', txt):
        m = re.search(r'== (Invalid (?:read|write|free)[^\n]*|Conditional jump[^\n]*|Use of uninit[^\n]*|Mismatched free[^\n]*|Source and destination overlap[^\n]*|Jump to the invalid[^\n]*)', blk)
        if not m: continue
        stack = [(s, o) for s, o in re.findall(r'(?:at|by) 0x[0-9A-F]+: (.*) \((?:in )?([^()]*)\)$', re.split(r'Address 0x|was (?:al|de)located|Uninitialised value was', blk)[0], re.M)]
        mine = [s.split('(')[0] for s, o in stack if '/yade/' in o]
        if not mine:
            ctx.note('reports outside the library'); continue
        seen.setdefault((m.group(1), mine[0]), blk)
    for (what, where), blk in list(sorted(seen.items()))[:6]:
        ctx.report('%s in %s' % (what, where), 'calls during which reports appeared: %s\n%s' % (suspects[:5], blk))
