"""P11: results do not depend on threads; no races."""
import ctypes, hashlib, json, re, struct, subprocess, sys
from common import *

RULE = ('Each random scene (every contact law, periodic and not, clumps, walls, imposed motions, energy tracking, time steppers, insertion and erasure between steps, more than 1000 bodies) is run several times. '
        'A stand-in for the OpenMP runtime runs the members of every team concurrently, in order, in reverse order and in random order: with the same number of threads contacts, forces, positions and velocities must be equal bit for bit after every step. '
        'With one thread, repeated runs must be equal bit for bit; with 1 to 8 threads the contacts must be the same and forces, positions and velocities equal up to rounding, also under the real runtime. '
        'The same scenes run under a happens-before race detector (drd), where the only ordering is that of team start and end, critical sections and locks: no conflicting access is reported.')
ASSUMPTIONS = ['Iterations of dynamically scheduled loops are given to threads by a fixed rule in the bitwise comparison.',
               'Runs with different numbers of threads are compared over a limited number of steps, as long as rounding is not amplified.',
               'Conflicting accesses to single bytes (flags that all threads set to the same value, as the synced flag of the force container) are not counted as races, nor is the double-checked registration of energy names.']

HERE = os.path.dirname(os.path.abspath(__file__))


def plan(tier):
    q = tier == 'quick'
    pre = dict(LD_PRELOAD='@WORK@/../libminigomp.so', MG_THREADS='8')
    j = [dict(func='orders', name='orders-%d' % i, prepare='native', env=pre, args=dict(n=28 if q else 500), weight=3, cores=2, timeout=800) for i in range(3)]
    j += [dict(func='big', prepare='native', env=pre, args=dict(n=4 if q else 60), weight=4, cores=2, timeout=800)]
    j += [dict(func='threads', name='threads-%d' % i, threads=8, cores=4, args=dict(n=20 if q else 400), weight=2, timeout=800) for i in range(2)]
    j += [dict(func='repeat', args=dict(n=12 if q else 200), weight=1)]
    j += [dict(func='races', name='races-%d' % i, prepare='native', direct=True, args=dict(n=1, part=i, parts=4, scenes=9 if q else 60), weight=5, timeout=850 if q else 6000) for i in range(4)]
    return j


# ---------------------------------------------------------------- scenes
def scene(r, n=None, law=None, features=True, energy=True):
    """Builds a random scene; all randomness comes from r. Returns a function applied between steps."""
    import laws
    fresh()
    L = laws.LAWS()
    names = sorted(L)
    nm = law or r.choice(names)
    mat, ig, ip, lw, rangef = L[nm]
    n = n or r.randint(30, 90)
    per = r.random() < .4
    R = .12
    if per:
        n = max(n, 60)
    box = (n * 4 / 3. * 3.14 * R**3 / r.uniform(.35, .6)) ** (1 / 3.)
    m = mat(r)
    O.materials.append(m)
    if per:
        O.periodic = True
        a = box
        sh = r.uniform(-.3, .3) if r.random() < .5 else 0
        O.cell.hSize = Matrix3(a, sh * a, 0, 0, a, 0, 0, 0, a)
        if r.random() < .5:
            O.cell.velGrad = Matrix3(*[r.uniform(-1, 1) for _ in range(9)])
    for _ in range(n):
        O.bodies.append(utils.sphere((r.uniform(0, box), r.uniform(0, box), r.uniform(0, box)), R * r.uniform(.7, 1.3), material=m))
        O.bodies[-1].state.vel = rvec(r, 1)
        O.bodies[-1].state.angVel = rvec(r, 5)
    label = nm + ('/periodic' if per else '')
    clumpable = nm in ('CundallStrack', 'CundallStrack6D', 'Mindlin', 'ViscEl', 'FrictVisco', 'Luding', 'ViscoFrict')
    if clumpable and r.random() < .4 and not per:
        for k in range(r.randint(1, n // 6)):
            c = (r.uniform(0, box), r.uniform(0, box), r.uniform(0, box))
            O.bodies.appendClumped([utils.sphere((c[0] + dx, c[1], c[2]), R, material=m) for dx in (0, R)])
        label += '/clumps'
    extra_ig, bo = [], [Bo1_Sphere_Aabb(aabbEnlargeFactor=rangef)]
    engines = []
    if nm in ('CundallStrack', 'Mindlin', 'ViscEl', 'FrictVisco', 'Luding', 'ViscoFrict') and not per and r.random() < .5:
        O.bodies.append(utils.box((box / 2, box / 2, -.05), (box, box, .1), fixed=True, material=m))
        O.bodies.append(utils.wall(box, axis=r.randint(0, 2), material=m))
        O.bodies.append(utils.facet([(0, 0, 0), (box, 0, .3), (0, box, .2)], material=m))
        extra_ig = [Ig2_Box_Sphere_ScGeom(), Ig2_Wall_Sphere_ScGeom(), Ig2_Facet_Sphere_ScGeom()]
        bo += [Bo1_Box_Aabb(), Bo1_Wall_Aabb(), Bo1_Facet_Aabb()]
        label += '/walls'
    some = [b.id for b in O.bodies if r.random() < .2] or [0]
    engines = []
    if features:
        k = r.randint(0, 7)
        if k == 1:
            engines.append(GravityEngine(gravity=rvec(r, 9))); label += '/gravity'
        elif k == 2:
            engines.append(CentralGravityEngine(centralBody=0, accel=3.)); label += '/central'
        elif k == 3:
            engines.append(AxialGravityEngine(axisPoint=rvec(r), axisDirection=Vector3(0, 0, 1), acceleration=2.)); label += '/axial'
        elif k == 4:
            engines.append(TranslationEngine(ids=some, velocity=1., translationAxis=rvec(r))); label += '/translation'
        elif k == 5:
            engines.append(RotationEngine(ids=some, angularVelocity=3., rotateAroundZero=True, rotationAxis=rvec(r), zeroPoint=rvec(r))); label += '/rotation'
        elif k == 6:
            engines.append(HarmonicMotionEngine(ids=some, A=Vector3(.1, .2, .1), f=Vector3(3, 5, 7))); label += '/harmonic'
        elif k == 7:
            engines.append(HarmonicRotationEngine(ids=some, A=.1, f=5., rotationAxis=rvec(r), rotateAroundZero=True, zeroPoint=rvec(r))); label += '/harmonic rotation'
    newton = NewtonIntegrator(damping=r.choice((0, .3)), gravity=rvec(r, 5), exactAsphericalRot=r.random() < .5, kinSplit=r.random() < .5)
    col = InsertionSortCollider(bo, verletDist=r.choice((0, .02, -.3)), targetInterv=r.choice((-1, 20, 50)), sortThenCollide=r.random() < .3)
    law = lw(r)
    if r.random() < .2:
        loop = [IGeomDispatcher([ig()] + extra_ig), IPhysDispatcher([ip()]), LawDispatcher([law])]
        label += '/dispatchers'
    else:
        loop = [InteractionLoop([ig()] + extra_ig, [ip()], [law])]
    O.engines = [ForceResetter(), col] + loop
    if features and nm in ('CundallStrack', 'Mindlin', 'CohFrict', 'ViscEl') and r.random() < .3:
        O.engines = O.engines + [GlobalStiffnessTimeStepper(active=True, timeStepUpdateInterval=r.choice((1, 5)), timestepSafetyCoefficient=.3)]
        label += '/timestepper'
    O.engines = O.engines + engines + [newton]
    if features and energy and r.random() < .3:
        O.trackEnergy = True
        label += '/energy'
    O.dt = r.choice((1e-5, 1e-4))
    if nm == 'ViscElRoll' or nm == 'ViscElRoll2':
        O.dt = 1e-6
    events = {r.randint(1, 11): r.choice(('erase', 'insert', 'none')) for _ in range(2)} if features and '/clumps' not in label and '/central' not in label else {}

    def between(step):
        e = events.get(step)
        if e == 'erase':
            for _ in range(3):
                i = r.randrange(n)
                if O.bodies[i] is not None:
                    O.bodies.erase(i)
        elif e == 'insert':
            O.bodies.append(utils.sphere((r.uniform(0, box), r.uniform(0, box), r.uniform(0, box)), R, material=m))

    return label, between


def digest():
    """Everything a step produced, in a form that compares bit for bit."""
    h = hashlib.sha256()
    O.forces.f(0, sync=True)
    for b in O.bodies:
        if b is None:
            continue
        s = b.state
        h.update(struct.pack('i19d', b.id, *s.pos, *s.vel, *s.angVel, *s.ori, *O.forces.f(b.id), *O.forces.t(b.id)))
    il = sorted((i.id1, i.id2, i.isReal) for i in O.interactions.all())
    h.update(repr(il).encode())
    if O.trackEnergy:
        h.update(repr(sorted(O.energy.items())).encode())
    h.update(struct.pack('d', O.dt))
    return h.hexdigest()[:16]


def snapshot():
    O.forces.f(0, sync=True)
    d = {}
    for b in O.bodies:
        if b is None:
            continue
        s = b.state
        d[b.id] = [*s.pos, *s.vel, *s.angVel, *s.ori, *O.forces.f(b.id), *O.forces.t(b.id)]
    il = sorted((min(i.id1, i.id2), max(i.id1, i.id2), tuple(i.cellDist) if i.id1 < i.id2 else tuple(-x for x in i.cellDist)) for i in O.interactions)
    return d, il, dict(O.energy.items()) if O.trackEnergy else {}, O.dt


def run(seed, steps, how, **kw):
    import random
    r = random.Random(seed)
    label, between = scene(r, **kw)
    out = []
    for k in range(steps):
        between(k)
        O.step()
        out.append(how())
        if not max(vmax(b.state.vel) for b in O.bodies if b is not None) < 1e3:
            break  # unstable: nothing to learn from it
    return label, out


def differ(a, b):
    if len(a) != len(b):
        return min(len(a), len(b))
    return next((i for i in range(len(a)) if a[i] != b[i]), None)


def mg():
    return ctypes.CDLL(None)


MODES = {0: 'concurrent', 1: 'in order', 2: 'reversed', 3: 'shuffled'}


@each(20)
def orders(ctx, c):
    g = mg()
    nt = c.rng.choice((2, 3, 4, 5, 8))
    ref = None
    steps = 14
    for mode, sd in ((1, 0), (2, 0), (3, 1), (3, 2), (0, 3)):
        g.mg_set(nt, mode, ctypes.c_ulong(7))
        label, out = run(c.seed, steps, digest)
        if ref is None:
            ref = out
        else:
            bad = differ(out, ref)
            ctx.check(bad is None, 'the order in which threads run matters', lambda: '%s, %d threads: step %d %s differs from in order' % (label, nt, bad, MODES[mode]))
            ctx.observed((label, nt, mode), n=steps)
    stat(ctx, g)
    ctx.sample('%s, %d threads: %s' % (label, nt, ref[-1]))


def stat(ctx, g):
    s = (ctypes.c_ulong * 3)()
    g.mg_stats(s)
    ctx.notes['parallel regions'], ctx.notes['team members'], ctx.notes['scheduled loops'] = [int(x) for x in s]


@each(4)
def big(ctx, c):
    """More than 1000 bodies: the collider sorts in parallel."""
    g = mg()
    nt = c.rng.choice((2, 3, 4, 8))
    nb = c.rng.randint(1001, 2200)
    law = c.rng.choice(('CundallStrack', 'Mindlin', 'ViscEl'))
    ref = None
    for mode in (1, 2, 3, 0):
        g.mg_set(nt, mode, ctypes.c_ulong(3))
        label, out = run(c.seed, 6, digest, n=nb, law=law)
        if ref is None:
            ref = out
        else:
            bad = differ(out, ref)
            ctx.check(bad is None, 'the order in which threads run matters', lambda: '%s, %d bodies, %d threads: step %d %s differs from in order' % (label, nb, nt, bad, MODES[mode]))
            ctx.observed((label, nt, mode, nb), n=6)
    g.mg_set(1, 1, ctypes.c_ulong(3))
    _, one = run(c.seed, 4, snapshot, n=nb, law=law)
    g.mg_set(nt, 3, ctypes.c_ulong(3))
    _, many = run(c.seed, 4, snapshot, n=nb, law=law)
    compare(ctx, label, nt, one, many)
    stat(ctx, g)


def compare(ctx, label, nt, a, b):
    for k, (x, y) in enumerate(zip(a, b)):
        ctx.check(sorted(x[0]) == sorted(y[0]), 'bodies differ with the number of threads', label)
        ctx.check(x[1] == y[1], 'contacts differ with the number of threads', lambda: '%s, %d threads, step %d: %r' % (label, nt, k, sorted(set(x[1]) ^ set(y[1]))[:5]))
        sc = [max([abs(z) for v in x[0].values() for z in v[i:j]] + [1e-12]) for i, j in ((0, 3), (3, 6), (6, 9), (9, 13), (13, 16), (16, 19))]
        sc[5] = max(sc[5], .1 * sc[4])  # a torque of rounded forces
        sc[2] = max(sc[2], sc[1])
        for i, v in x[0].items():
            w = y[0][i]
            for g, (p, q) in enumerate(((0, 3), (3, 6), (6, 9), (9, 13), (13, 16), (16, 19))):
                for z in range(p, q):
                    ctx.check(abs(v[z] - w[z]) <= 1e-8 * sc[g], '%s differ with the number of threads' % ('positions velocities spins orientations forces torques'.split()[g]),
                              lambda: '%s, %d threads, step %d, body %d: %r %r' % (label, nt, k, i, v[p:q], w[p:q]))
        for e in set(x[2]) | set(y[2]):
            ctx.check(e in x[2] and e in y[2] and abs(x[2][e] - y[2][e]) <= 1e-8 * (max(abs(t) for t in x[2].values()) + 1e-9), 'energy differs with the number of threads', lambda: '%s %s: %r %r' % (label, e, x[2].get(e), y[2].get(e)))
        ctx.check(abs(x[3] - y[3]) <= 1e-9 * x[3], 'time step differs with the number of threads', lambda: '%s %r %r' % (label, x[3], y[3]))
        ctx.observed((label, nt, k > 2), n=len(x[0]))
    ctx.note('contacts compared', sum(len(x[1]) for x in a))


@each(20)
def threads(ctx, c):
    """The real runtime, 1 to 8 threads."""
    g = ctypes.CDLL('libgomp.so.1')
    steps = 10
    g.omp_set_num_threads(1)
    label, one = run(c.seed, steps, snapshot)
    for nt in c.rng.sample((2, 3, 4, 5, 6, 7, 8), 2):
        g.omp_set_num_threads(nt)
        _, many = run(c.seed, steps, snapshot)
        compare(ctx, label, nt, one, many)
    g.omp_set_num_threads(8)


@each(10)
def repeat(ctx, c):
    a = run(c.seed, 25, digest)
    b = run(c.seed, 25, digest)
    bad = differ(a[1], b[1])
    ctx.check(bad is None, 'two runs with one thread differ', lambda: '%s: step %d' % (a[0], bad))
    ctx.observed((a[0],), n=25)


# ---------------------------------------------------------------- race detector
def races(ctx):
    """Starts the scenes under valgrind's drd and reads its report."""
    for c in ctx.cases(1):
        ctx.guard(one_race, ctx, c)


RACESCENES = None


def one_race(ctx, c):
    d = os.path.dirname(ctx.spec['out'])
    log = os.path.join(d, 'drd.log')
    env = dict(os.environ, LD_PRELOAD=os.path.join(d, '..', 'libminigomp.so'), MG_THREADS='3', MG_MODE='0', OMP_NUM_THREADS='3', OPENBLAS_NUM_THREADS='1')
    cmd = ['valgrind', '--tool=drd', '--check-stack-var=no', '--num-callers=16', '--error-limit=no', '--log-file=' + log, '/usr/bin/python3', '-W', 'ignore', os.path.join(HERE, 'p11races.py'),
           str(ctx.spec['seed']), str(ctx.args['part']), str(ctx.args['parts']), str(ctx.args['scenes']), os.path.join(d, 'scenes.json')]
    p = subprocess.run(cmd, env=env, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    txt = open(log, errors='replace').read()
    done = json.load(open(os.path.join(d, 'scenes.json'))) if os.path.exists(os.path.join(d, 'scenes.json')) else None
    ctx.check(p.returncode == 0 and done, 'scene under the race detector fails', lambda: 'rc %s, %s\n%s\n%s' % (p.returncode, done, p.stdout[-1500:], txt[-1500:]))
    seen = {}
    for blk in re.split(r'\n==\d+== \n', txt):
        m = re.search(r'Conflicting (load|store) by thread \d+ at \S+ size (\d+)', blk)
        if not m:
            continue
        stack = re.findall(r'(?:at|by) 0x[0-9A-F]+: (.*?)(?: \((?:in )?[^()]*\))?$', blk.split('Address')[0], re.M)
        if int(m.group(2)) == 1:
            ctx.note('one-byte flags')
            continue
        if not any('_omp_fn' in s for s in stack):
            ctx.note('conflicts outside parallel regions')
            continue
        key = stack[0].split('(')[0]
        seen.setdefault(key, blk)
    ctx.observed(n=1)
    for s in done:
        ctx.observed(('race', s['label']), n=s['steps'])
        ctx.note('scenes under drd')
        ctx.note('contacts under drd', s['contacts'])
    for k, blk in sorted(seen.items()):
        ctx.report('data race in ' + k, blk)
