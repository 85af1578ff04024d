"""Saving and restoring loses nothing; a restored simulation goes on as the uninterrupted one."""
from common import *
import json, pickle, subprocess, sys, tempfile
import laws, P06

RULE = ('a case is a random simulation (every contact law, open or periodic, walls, facets, clumps, masks, erased bodies, permanent forces, drivers) saved after a random number of steps in one format; '
        'evaluations are the deep comparisons of all attributes of all objects (after saving, after loading, after loading again) and, per continued step, the comparison of every body with the uninterrupted run; '
        'distinct = (kind of simulation, format, what it contains); a simulation without any contact counts as its own kind')
ASSUMPTIONS = ['saved between steps; attributes the classes document as not saved because they are recomputed by the next step (bounds, penetration depth, shear increment, cell of the previous step, per-functor energy counters) are not compared',
               'the order of summation may differ after loading, so continuation is compared to 1e-7 of the velocities and displacements over the steps observed']
NOSAVE = {'Bound': ('min', 'max'), 'ScGeom': ('penetrationDepth', 'shearInc'), 'Law2_ScGeom_MindlinPhys_Mindlin': ('frictionDissipation', 'shearEnergy', 'normDampDissip', 'shearDampDissip'),
          'Law2_ScGeom_ViscElCapPhys_Basic': ('VLiqBridg', 'NLiqBridg'), 'Cell': ('prevHSize',)}
FORMATS = ('.xml', '.xml.gz', '.xml.bz2', '.yade', '.yade.gz', '.yade.bz2', ':memory:', ':string:')


def plan(tier):
    k = 1 if tier == 'quick' else 8
    jobs = [dict(func='laws_', name='laws-%d' % i, args=dict(n=30 * k)) for i in range(3)]
    jobs += [dict(func='mixed', name='mixed-%d' % i, args=dict(n=40 * k)) for i in range(3)]
    jobs += [dict(func='mixed', name='mixed-t3', threads=3, args=dict(n=20 * k))]
    jobs += [dict(func='otherprocess', name='other', args=dict(n=6 * k))]
    jobs += [dict(func='scenes', name='scenes', args=dict(n=20 * k))]
    return jobs


# ---------------------------------------------------------------- deep dump
def skipped(o):
    s = set()
    for k in type(o).__mro__:
        s.update(NOSAVE.get(k.__name__, ()))
    return s


def val(x, depth=0):
    if x is None or isinstance(x, (bool, int, str)): return x
    if isinstance(x, float): return x
    if isinstance(x, Serializable): return obj(x, depth + 1)
    if isinstance(x, dict): return dict((str(k), val(v, depth + 1)) for k, v in x.items())
    if isinstance(x, (list, tuple)): return [val(v, depth + 1) for v in x]
    n = type(x).__name__
    if n.startswith(('Vector', 'Quaternion')): return [n] + [x[i] for i in range(len(x))]
    if n.startswith('Matrix'): return [n] + [float(y) for r in range(x.rows()) for y in x.row(r)]
    if n.startswith('AlignedBox'): return [n] + val(x.min) + val(x.max)
    try: return [n] + [val(v, depth + 1) for v in x]
    except TypeError: return n


def obj(o, depth=0):
    if depth > 8: return '...'
    sk = skipped(o)
    d = dict((k, val(v, depth)) for k, v in o.dict().items() if k not in sk)
    d['class'] = type(o).__name__
    if isinstance(o, (IPhys, IGeom, Material)):   # read-only values kept outside the attributes
        for k in dir(type(o)):
            if k not in d and k not in sk and k[0] != '_' and isinstance(getattr(type(o), k), property) and k not in ('dispIndex',):
                try: d['.' + k] = val(getattr(o, k), depth)
                except Exception: pass
    if type(o).__name__ == 'Clump': d['members'] = dict((k, val(v)) for k, v in o.members.items())
    return d


def dump():
    D = dict(iter=O.iter, time=O.time, dt=O.dt, stopAtIter=O.stopAtIter, stopAtTime=O.stopAtTime, subStepping=O.subStepping, periodic=O.periodic, trackEnergy=O.trackEnergy)
    D['len'] = len(O.bodies)
    D['bodies'] = dict((b.id, obj(b)) for b in O.bodies)
    D['shared'] = dict((b.id, [k for k, m in enumerate(O.materials) if b.material is not None and m == b.material]) for b in O.bodies)
    D['materials'] = [obj(m) for m in O.materials]
    I = [i for i in O.interactions.all() if i.isReal]
    D['interactions'] = dict(('%d-%d' % (i.id1, i.id2), obj(i)) for i in I)
    D['nreal'] = O.interactions.countReal()
    D['engines'] = [obj(e) for e in O.engines]
    D['cell'] = obj(O.cell) if O.periodic else None
    D['energy'] = dict(O.energy.items())
    D['tags'] = dict((k, O.tags[k]) for k in O.tags.keys())
    D['misc'] = [obj(o) for o in O.miscParams]
    if len(O.bodies): O.forces.f(0, sync=True)
    D['perm'] = dict((b.id, val(O.forces.permF(b.id)) + val(O.forces.permT(b.id))) for b in O.bodies)
    return D


def diff(a, b, path='', tol=0., out=None):
    if out is None: out = []
    if len(out) > 4: return out
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b), key=str):
            if k not in a or k not in b: out.append('%s/%s only %s' % (path, k, 'before' if k in a else 'after'))
            else: diff(a[k], b[k], '%s/%s' % (path, k), tol, out)
    elif isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b): out.append('%s has %d elements before, %d after' % (path, len(a), len(b)))
        else:
            for k, (x, y) in enumerate(zip(a, b)): diff(x, y, '%s/%d' % (path, k), tol, out)
    elif isinstance(a, float) and isinstance(b, float):
        if not (a == b or (a != a and b != b) or abs(a - b) <= tol * max(abs(a), abs(b))): out.append('%s: %r before, %r after' % (path, a, b))
    elif type(a) != type(b) or a != b: out.append('%s: %r before, %r after' % (path, a, b))
    return out


def save(fmt, d, name):
    if fmt == ':memory:': O.saveTmp(name, quiet=True); return name
    f = os.path.join(d, name + ('.yade' if fmt == ':string:' else fmt))
    O.save(f, quiet=True)
    return f


def load(fmt, f):
    if fmt == ':memory:': O.loadTmp(f, quiet=True)
    else: O.load(f, quiet=True)


# ---------------------------------------------------------------- trajectories
def traj(m, ctx=None):
    T = []
    for _ in range(m):
        if ctx: ctx.mark('%d continued at step %d' % (ctx.case.idx, O.iter))
        O.step()
        T.append((O.iter, O.time, O.dt, dict((b.id, [list(map(float, b.state.pos)), list(map(float, b.state.vel)), list(map(float, b.state.angVel)), [float(b.state.ori[i]) for i in range(4)]]) for b in O.bodies),
                  sorted((i.id1, i.id2) if i.id1 < i.id2 else (i.id2, i.id1) for i in O.interactions), val(O.cell.hSize) if O.periodic else None, dict(O.energy.items()),
                  [obj(e) for e in O.engines if isinstance(e, PeriodicEngine)]))
    return T


def compare(ctx, ref, got, key, where, tol=1e-7):
    p0 = None
    for s, (a, b) in enumerate(zip(ref, got)):
        ctx.check(a[0] == b[0] and close(a[1], b[1], 1e-12) and close(a[2], b[2], 1e-9), 'clock:' + key, lambda: '%s: %d steps after saving: step %s time %r dt %r, uninterrupted %s %r %r' % (where, s + 1, b[0], b[1], b[2], a[0], a[1], a[2]))
        ctx.check(set(a[3]) == set(b[3]), 'bodies:' + key, lambda: '%s: %d steps after: bodies differ: %s' % (where, s + 1, sorted(set(a[3]) ^ set(b[3]))))
        if not a[3]: continue
        big = lambda T, k: max([1e-12] + [abs(x) for v in T.values() for x in v[k] if x == x])
        if p0 is None: p0 = dict((i, v[0]) for i, v in a[3].items())
        vs, ws = big(a[3], 1), big(a[3], 2)
        if not (vs < 1e4 and ws < 1e6): ctx.note('blown up, not judged further'); return
        ds = (vs + 1e-3) * a[2] * (s + 3)
        for i in a[3]:
            for k, sc in ((0, ds), (1, vs), (2, ws + vs), (3, 1.)):
                if k == 0: sc = max(sc, 1e-8 * max(abs(x) for x in a[3][i][0]))
                e = max(abs(x - y) if x == x or y == y else 0. for x, y in zip(a[3][i][k], b[3][i][k]))
                ctx.check(e <= tol * sc, 'continuation:' + key, lambda: '%s: %d steps after saving body %d has %s %s, uninterrupted %s' % (where, s + 1, i, ('position', 'velocity', 'spin', 'orientation')[k], b[3][i][k], a[3][i][k]))
        ctx.check(a[4] == b[4], 'contacts:' + key, lambda: '%s: %d steps after saving the contacts differ: %s' % (where, s + 1, sorted(set(a[4]) ^ set(b[4]))[:5]))
        if a[5]: ctx.check(max(abs(x - y) for x, y in zip(a[5][1:], b[5][1:])) <= 1e-9 * max(map(abs, a[5][1:])), 'cell:' + key, lambda: '%s: %d steps after saving the cell is %s, uninterrupted %s' % (where, s + 1, b[5], a[5]))
        es = sum(abs(x) for x in a[6].values() if x == x)
        for k in a[6]:
            if a[6][k] == a[6][k]: ctx.check(k in b[6] and abs(a[6][k] - b[6][k]) <= 1e-6 * es, 'energy:' + key, lambda: '%s: %d steps after saving energy %s is %s, uninterrupted %s' % (where, s + 1, k, b[6].get(k), a[6][k]))
        for x, y in zip(a[7], b[7]):
            d = diff(dict((k, x[k]) for k in ('class', 'nDone', 'iterLast', 'virtLast', 'dead') if k in x), dict((k, y[k]) for k in ('class', 'nDone', 'iterLast', 'virtLast', 'dead') if k in y), tol=1e-9)
            ctx.check(not d, 'schedule:' + key, lambda: '%s: %d steps after saving: %s' % (where, s + 1, d))
        ctx.observed(None, len(a[3]))


# ---------------------------------------------------------------- kinds of simulations
def mixed_scene(rng):
    """Everything a usual script contains."""
    fresh()
    what = set()
    per = rng.random() < .35
    for k in range(rng.choice((1, 2, 3))):
        O.materials.append(FrictMat(young=rng.choice((1e6, 1e7)), poisson=rng.uniform(.1, .4), frictionAngle=rng.choice((0, .3, .6)), density=rng.choice((1000, 2600)), label='mat%d' % k))
    nm = len(O.materials)
    if per:
        what.add('periodic')
        O.periodic = True
        O.cell.setBox(5, 5, 5)
        if rng.random() < .5: O.cell.hSize = Matrix3(5, rng.uniform(-1, 1), 0, 0, 5, 0, rng.uniform(-1, 1), 0, 5); what.add('sheared')
        O.cell.trsf = Matrix3.Identity
        if rng.random() < .7: O.cell.velGrad = Matrix3(*[rng.uniform(-.3, .3) for _ in range(9)]); what.add('deforming')
        O.cell.homoDeform = rng.choice((0, 1, 2, 2, 2))
        if O.cell.homoDeform == 0: O.cell.velGrad = Matrix3.Zero
    else:
        if rng.random() < .7: O.bodies.append(utils.wall(-2.2, axis=2, material=0)); what.add('wall')
        if rng.random() < .5: O.bodies.append(utils.facet([(-4, -4, -2), (4, -4, -2), (0, 5, -2.1)], material=0, fixed=rng.random() < .8)); what.add('facet'); O.bodies[-1].state.mass = 50.; O.bodies[-1].state.inertia = (60, 70, 80)
        if rng.random() < .4: O.bodies.append(utils.box((0, 3, 0), (3, .3, 3), material=0, fixed=True, orientation=rquat(rng))); what.add('box')
    n = rng.choice((5, 20, 50, 90))
    for k in range(n):
        b = utils.sphere(rvec(rng, 1.9), rng.uniform(.2, .45), material=rng.randrange(nm) if rng.random() < .9 else FrictMat(young=1e6, density=1500))
        b.state.vel = rvec(rng, 1); b.state.angVel = rvec(rng, 3)
        b.groupMask = rng.choice((1, 1, 3, 2))
        if rng.random() < .1: b.state.blockedDOFs = rng.choice(('x', 'XYZ', 'xyzXYZ', 'yZ'))
        if rng.random() < .1: b.state.isDamped = False
        if rng.random() < .1: b.shape.wire = True; b.shape.highlight = True
        if rng.random() < .05: b.bounded = False
        O.bodies.append(b)
    if rng.random() < .5:
        what.add('clump')
        for k in range(2):
            p = rvec(rng, 1.5)
            cid, _ = O.bodies.appendClumped([utils.sphere(p, .3, material=0), utils.sphere(p + Vector3(.4, .1, 0), .25, material=0), utils.sphere(p + Vector3(.1, .4, .2), .2, material=0)])
            O.bodies[cid].state.vel = rvec(rng, 1); O.bodies[cid].state.angMom = rvec(rng, 1)
    nw = NewtonIntegrator(damping=rng.choice((0, .2)), gravity=rng.choice(((0, 0, 0), (0, 0, -9.81))), mask=rng.choice((-1, -1, -1, 1)), kinSplit=rng.random() < .3)
    col = InsertionSortCollider([Bo1_Sphere_Aabb(), Bo1_Box_Aabb(), Bo1_Facet_Aabb(), Bo1_Wall_Aabb()], verletDist=rng.choice((0, .05, .1, -.2)), targetInterv=rng.choice((-1, 50)))
    E = frict_engines(newton=nw, collider=col, law=Law2_ScGeom_FrictPhys_CundallStrack(neverErase=False, label='lawLabel'))
    O.dt = 2e-4
    if rng.random() < .3: E.insert(3, GlobalStiffnessTimeStepper(timeStepUpdateInterval=rng.choice((1, 7)), timestepSafetyCoefficient=.3, maxDt=3e-4, defaultDt=1e-4)); what.add('timestepper')
    if rng.random() < .5: E.append(PyRunner(command='pass', iterPeriod=rng.choice((1, 3, 7)), virtPeriod=rng.choice((0, 5e-4)), initRun=rng.random() < .5, nDo=rng.choice((-1, -1, 4)), firstIterRun=rng.choice((0, 0, 5)))); what.add('periodic engine')
    sph = [b.id for b in O.bodies if isinstance(b.shape, Sphere) and b.isStandalone]
    if rng.random() < .25: E.insert(-1, TranslationEngine(ids=sph[:2], velocity=2., translationAxis=(1, 1, 0))); what.add('translation'); [setattr(O.bodies[i].state, 'blockedDOFs', 'xyzXYZ') for i in sph[:2]]
    if rng.random() < .25: E.insert(-1, HarmonicMotionEngine(ids=sph[2:3], A=(.1, 0, .2), f=(30, 0, 70), fi=(.3, 0, 0))); what.add('harmonic'); O.bodies[sph[2]].state.blockedDOFs = 'xyzXYZ'
    if rng.random() < .25: E.insert(-1, InterpolatingDirectedForceEngine(ids=sph[3:5], times=[0, .002, .005], magnitudes=[1, 30, -20], direction=(0, 1, 1), wrap=True)); what.add('interpolated force')
    if rng.random() < .2: E.insert(-1, RotationEngine(ids=sph[4:5], angularVelocity=30., rotationAxis=(0, 0, 1), rotateAroundZero=True, zeroPoint=(0, 0, 0))); what.add('rotation'); O.bodies[sph[4]].state.blockedDOFs = 'xyzXYZ'
    if rng.random() < .2: E.insert(1, GravityEngine(gravity=(0, 1, 0), mask=2)); what.add('gravity')
    if per and rng.random() < .4: E.insert(-1, PeriTriaxController(goal=(-1e4, -1e4, -.1), stressMask=3, maxUnbalanced=1e-9, dynCell=rng.random() < .5, mass=100., maxStrainRate=(.3, .3, .3), globUpdate=5)); what.add('PeriTriax')
    O.engines = E
    O.trackEnergy = rng.random() < .4
    if O.trackEnergy: what.add('energy')
    O.tags['comment'] = 'a b c'
    if rng.random() < .4:
        for i in rng.sample(sph, 2): O.forces.setPermF(i, rvec(rng, 100)); O.forces.setPermT(i, rvec(rng, 5))
        what.add('permanent force')
    return what


def churn(rng, what):
    """Steps, with changes between them."""
    for s in range(rng.choice((0, 1, 5, 20, 45))):
        O.step()
        r = rng.random()
        sph = [b.id for b in O.bodies if isinstance(b.shape, Sphere) and b.isStandalone]
        drv = set(i for e in O.engines if hasattr(e, 'ids') for i in e.ids)
        sph = [i for i in sph if i not in drv]
        if r < .05 and len(sph) > 2: O.bodies.erase(rng.choice(sph)); what.add('erased')
        elif r < .08: O.bodies.append(utils.sphere(rvec(rng, 1.9), .3, material=0)); what.add('added')
        elif r < .10 and len(sph) > 3: O.bodies.clump(rng.sample(sph, 2)); what.add('clump')
        elif r < .12 and O.interactions.countReal(): i = rng.choice([i for i in O.interactions]); O.interactions.erase(i.id1, i.id2); what.add('erased contact')
        elif r < .14 and O.periodic and O.cell.homoDeform: O.cell.velGrad = Matrix3(*[rng.uniform(-.3, .3) for _ in range(9)]); what.add('new gradient')


def verify(ctx, c, what, kind, d, m=12):
    """Save, go on, restore, go on again."""
    rng = c.rng
    fmt = FORMATS[(c.idx + rng.randrange(2)) % len(FORMATS)]
    key = kind
    if fmt == ':string:': fmt = '.yade'
    what = sorted(what)
    where = 'case %d, %s, saved as %s at step %d, contains %s' % (c.idx, kind, fmt, O.iter, ' '.join(what))
    ctx.mark('%d %s' % (c.idx, where))
    tol = 1e-15 if 'xml' in fmt else 0.
    d0 = dump()
    f = save(fmt, d, 'a')
    d1 = dump(); dd = diff(d0, d1)
    ctx.check(not dd, 'altered-by-saving:' + key, lambda: '%s: %s' % (where, dd))
    ref = traj(m)
    load(fmt, f)
    d2 = dump(); dd = diff(d0, d2, tol=tol)
    ctx.check(not dd, 'lost:' + key, lambda: '%s: %s' % (where, dd))
    # in another format from the restored one, without running
    fmt2 = rng.choice(FORMATS[:7])
    f2 = save(fmt2, d, 'b')
    got = traj(m, ctx)
    compare(ctx, ref, got, key, where)
    if O.bodies: list(O.bodies)[0].state.pos += Vector3(1, 1, 1)
    load(fmt2, f2)
    d3 = dump(); dd = diff(d2, d3, tol=1e-15)
    ctx.check(not dd, 'second-save:' + key, lambda: '%s then %s: %s' % (where, fmt2, dd))
    if rng.random() < .4:   # a second time from the first file
        load(fmt, f)
        dd = diff(d2, dump())
        ctx.check(not dd, 'reload:' + key, lambda: '%s, loaded a second time: %s' % (where, dd))
        compare(ctx, ref, traj(m, ctx), key, where + ' loaded again')
    ctx.observed((kind, fmt, tuple(what), d0['nreal'] > 0), 4)
    ctx.note('bodies compared', len(d0['bodies'])); ctx.note('contacts compared', d0['nreal']); ctx.note('saved as ' + fmt)


@each(30)
def laws_(ctx, c):
    rng = c.rng
    names = sorted(laws.LAWS())
    name = names[(c.idx + sum(map(ord, ctx.spec['name']))) % len(names)]
    ctx.mark('%d %s' % (c.idx, name))
    n = rng.choice((3, 12, 25))
    P06.build(rng, name, n, False)
    what = {name}
    if rng.random() < .3:
        O.periodic = True; O.cell.setBox(30, 30, 30); what.add('periodic')
        if rng.random() < .5: O.cell.velGrad = Matrix3(*[rng.uniform(-.2, .2) for _ in range(9)])
    if rng.random() < .3: O.trackEnergy = True
    for s in range(rng.choice((1, 3, 20, 60))): O.step()
    if rng.random() < .3 and O.interactions.countReal():
        i = rng.choice([i for i in O.interactions]); i.isActive = False; what.add('inactive contact')
    with tempfile.TemporaryDirectory(prefix='vp10') as d: verify(ctx, c, what, 'law ' + name, d)


@each(40)
def mixed(ctx, c):
    rng = c.rng
    what = mixed_scene(rng)
    churn(rng, what)
    with tempfile.TemporaryDirectory(prefix='vp10') as d: verify(ctx, c, what, 'mixed', d, m=15)


@each(20)
def scenes(ctx, c):
    """Several saved simulations in memory and files do not mix."""
    rng = c.rng
    D = {}
    with tempfile.TemporaryDirectory(prefix='vp10') as d:
        for k in range(rng.choice((2, 3))):
            what = mixed_scene(rng); churn(rng, what)
            fmt = rng.choice(FORMATS[:7])
            D[k] = (fmt, save(fmt, d, 's%d' % k), dump())
        for k in [rng.choice(sorted(D)) for _ in range(5)]:
            fmt, f, d0 = D[k]
            load(fmt, f)
            dd = diff(d0, dump(), tol=1e-15)
            ctx.check(not dd, 'mixed-up', lambda: 'simulation %d of %d saved as %s: %s' % (k, len(D), fmt, dd))
            for _ in range(3): O.step()
            ctx.observed(('scenes', len(D), fmt))
        marks = [D[k][1] for k in D if D[k][0] == ':memory:']
        ctx.check(set(marks) <= set(O.lsTmp()), 'lsTmp', 'memory-saved %s, listed %s' % (marks, O.lsTmp()))
        for k in D:
            if D[k][0] == ':memory:':
                ext = rng.choice(('.yade', '.yade.gz', '.yade.bz2'))
                f = os.path.join(d, 'm%d%s' % (k, ext))
                O.tmpToFile(f, D[k][1])
                O.load(f, quiet=True)
                dd = diff(D[k][2], dump())
                ctx.check(not dd, 'tmpToFile', lambda: 'memory-saved simulation written to a %s file: %s' % (ext, dd))
                ctx.observed(('tmpToFile', ext))
        # what cannot be loaded is refused, and the program goes on
        bad = os.path.join(d, 'bad' + rng.choice(FORMATS[:6]))
        kind = rng.choice(('missing', 'empty', 'garbage'))
        if kind != 'missing': open(bad, 'wb').write(b'' if kind == 'empty' else bytes(rng.randrange(32, 120) for _ in range(200)))
        try:
            O.load(bad, quiet=True)
            ctx.violation('bad-file', 'loading a %s file as %s raised nothing' % (kind, bad))
        except (RuntimeError, OSError, IndexError, ValueError, MemoryError): pass
        fmt, f, d0 = D[0]
        load(fmt, f)
        dd = diff(d0, dump(), tol=1e-15)
        ctx.check(not dd, 'after-bad-file', lambda: str(dd))
        ctx.observed(('bad file', kind))


CHILD = r'''
import sys; sys.dont_write_bytecode=True
import yade, vp_iter; vp_iter.patch()
import pickle, os
spec=pickle.load(open(sys.argv[1],'rb'))
import P10
from common import *
O.load(spec['file'],quiet=True)
d=P10.dump(); t=P10.traj(spec['m'])
pickle.dump((d,t),open(spec['out'],'wb'))
os._exit(0)
'''


@each(6)
def otherprocess(ctx, c):
    rng = c.rng
    with tempfile.TemporaryDirectory(prefix='vp10') as d:
        J = []
        what = mixed_scene(rng); churn(rng, what)
        fmt = FORMATS[c.idx % 6]
        d0 = dump(); f = save(fmt, d, 'x')
        ref = traj(12)
        open(d + '/child.py', 'w').write(CHILD)
        pickle.dump(dict(file=f, m=12, out=d + '/out'), open(d + '/spec', 'wb'))
        env = dict(os.environ); env['PYTHONPATH'] = os.pathsep.join(p for p in sys.path if p)
        p = subprocess.run([sys.executable, '-W', 'ignore', d + '/child.py', d + '/spec'], env=env, capture_output=True, timeout=200)
        where = 'loaded in another process from %s, contains %s' % (fmt, ' '.join(sorted(what)))
        ctx.check(p.returncode == 0 and os.path.exists(d + '/out'), 'other-process', lambda: '%s: ended with %s\n%s' % (where, p.returncode, p.stderr.decode(errors='replace')[-1500:]))
        d1, got = pickle.load(open(d + '/out', 'rb'))
        for D in (d0, d1): D['tags'] = dict((k, v) for k, v in D['tags'].items())
        dd = diff(d0, d1, tol=1e-15)
        ctx.check(not dd, 'lost:other-process', lambda: '%s: %s' % (where, dd))
        compare(ctx, ref, got, 'other-process', where)
        ctx.observed(('other', fmt, tuple(sorted(what))), 2)
