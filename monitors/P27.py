"""Sources, sinks and periodically scheduled engines: every particle and every activation is accounted for, step by step."""
from common import *
import math, tempfile, shutil, time
try:
    import numpy as np
except ImportError:
    np = None

RULE = ('a case is one run of a random set of sources, sinks or scheduled engines; after every step the bodies, counters and activations are compared with an independent account; '
        'distinct = (engine, options, outcome of the step)')
ASSUMPTIONS = ['factories in periodic cells are refused by the collider', 'the centre of an inserted sphere lies in the region (the whole sphere radially, for circular ones)',
               'when starting the count is not a run (initRun off), it still counts against nDo', 'wall-clock periods are judged only by the smallest interval between runs']


def plan(tier):
    k = 1 if tier == 'quick' else 12
    return [dict(func='factory', name='factory-a', args=dict(n=250 * k)), dict(func='factory', name='factory-b', args=dict(n=250 * k)), dict(func='factory', name='factory-threads', threads=4, args=dict(n=90 * k)),
            dict(func='psd', name='psd', args=dict(n=120 * k)), dict(func='limiter', name='limiter', args=dict(n=400 * k)), dict(func='schedule', name='schedule-a', args=dict(n=450 * k)),
            dict(func='schedule', name='schedule-b', args=dict(n=450 * k)), dict(func='clock', name='clock', args=dict(n=4 * k)), dict(func='recorder', name='recorder', args=dict(n=400 * k)),
            dict(func='resetpos', name='resetpos', args=dict(n=400 * k))]


def rot_to(normal):
    """Rotation taking z to the normal."""
    q = Quaternion(); q.setFromTwoVectors(Vector3(0, 0, 1), normal)
    return q


def in_region(f, c, r, eps=1e-9):
    n = f.normal / f.normal.norm()
    d = c - f.center
    if isinstance(f, BoxFactory):
        l = rot_to(n).inverse() * d
        return all(abs(l[a]) <= f.extents[a] + eps for a in range(3))
    ax = d.dot(n)
    return abs(ax) <= f.length / 2 + eps and (d - n * ax).norm() <= max(f.radius - r, 0) + eps


def dist_segment(p, a, b):
    t = max(0, min(1, (p - a).dot(b - a) / (b - a).squaredNorm()))
    return (p - a - (b - a) * t).norm()


def dist_triangle(p, v):
    n = (v[1] - v[0]).cross(v[2] - v[0]); n.normalize()
    q = p - n * (p - v[0]).dot(n)
    inside = all(((v[(i + 1) % 3] - v[i]).cross(q - v[i])).dot(n) >= 0 for i in range(3))
    return abs((p - v[0]).dot(n)) if inside else min(dist_segment(p, v[i], v[(i + 1) % 3]) for i in range(3))


def overlap(c, r, b):
    """Overlap of a sphere with a body (positive = they overlap)."""
    s = b[0]
    if s == 'Sphere': return r + b[2] - (c - b[1]).norm()
    if s == 'Box':
        l = b[3].inverse() * (c - b[1])
        d = Vector3(*[max(abs(l[a]) - b[2][a], 0) for a in range(3)])
        return r - d.norm()
    if s == 'Facet': return r - dist_triangle(c, b[2])
    if s == 'Wall': return r - abs(c[b[2]] - b[1][b[2]])
    return -1


def snapshot():
    out = {}
    for b in O.bodies:
        s = b.shape
        if isinstance(s, Sphere): out[b.id] = ('Sphere', Vector3(b.state.pos), s.radius)
        elif isinstance(s, Box): out[b.id] = ('Box', Vector3(b.state.pos), Vector3(s.extents), Quaternion(b.state.ori))
        elif isinstance(s, Facet): out[b.id] = ('Facet', Vector3(b.state.pos), [b.state.pos + b.state.ori * v for v in s.vertices])
        elif isinstance(s, Wall): out[b.id] = ('Wall', Vector3(b.state.pos), s.axis)
    return out


def make_factory(rng, mats):
    n = rvec(rng)
    if rng.random() < 0.4: n = Vector3([(0, 0, 1), (0, 0, -1), (1, 0, 0), (0, -1, 0)][rng.randrange(4)])
    rmin = rng.uniform(0.02, 0.06)
    kw = dict(rMin=rmin, rMax=rmin * rng.choice([1, 1.5, 2.5]), vMin=rng.uniform(0, 1), normal=n * rng.uniform(0.3, 3), massFlowRate=10 ** rng.uniform(1, 4), materialId=rng.choice([0, 1, -1]),
              maxParticles=rng.choice([-1, 5, 40]), mask=rng.choice([-1, 1, 4, 6]), maxAttempt=rng.choice([20, 500]), stopIfFailed=rng.random() < 0.5, silent=True)
    kw['vMax'] = kw['vMin'] + rng.choice([0, 1])
    if kw['maxParticles'] == -1 and rng.random() < 0.5: kw['maxMass'] = 10 ** rng.uniform(0, 2)
    if rng.random() < 0.3: kw['normalVel'] = rvec(rng) * 2
    if rng.random() < 0.3: kw['blockedDOFs'] = rng.choice(['X', 'zXYZ', 'y'])
    if rng.random() < 0.3: kw['color'] = (0.1, 0.2, 0.3)
    kw['center'] = rvec(rng, 0.3)
    if rng.random() < 0.5: return BoxFactory(extents=Vector3(*[rng.uniform(0.0, 0.5) for _ in range(3)]), **kw)
    return CircularFactory(radius=rng.uniform(0.2, 0.6), length=rng.choice([0, 0.3, 1]), **kw)


def factory(ctx):
    @each(ctx.args['n'])
    def go(ctx, case):
        rng = case.rng
        fresh()
        mats = [O.materials.append(FrictMat(young=1e5, density=rng.uniform(500, 3000), frictionAngle=.3)), O.materials.append(CpmMat(density=rng.uniform(500, 3000), young=1e5) if rng.random() < .2 else FrictMat(density=rng.uniform(500, 3000)))]
        m0 = O.materials[0]
        for _ in range(rng.randrange(5)): O.bodies.append(utils.sphere(rvec(rng, 0.5), rng.uniform(0.02, 0.15), material=m0, fixed=rng.random() < 0.5))
        if rng.random() < 0.3: O.bodies.append(utils.box(rvec(rng, 0.5), (0.2, 0.1, 0.05), orientation=rquat(rng), material=m0, fixed=True))
        if rng.random() < 0.3: O.bodies.append(utils.facet([rvec(rng, .5), rvec(rng, .5), rvec(rng, .5)], material=m0))
        if rng.random() < 0.2: O.bodies.append(utils.wall(rng.uniform(-.5, .5), rng.randrange(3), material=m0))
        for b in O.bodies: b.state.vel = rvec(rng, 0.5) if b.state.blockedDOFs == '' else Vector3.Zero
        F = [make_factory(rng, mats) for _ in range(rng.choice([1, 1, 1, 2]))]
        coll = InsertionSortCollider([Bo1_Sphere_Aabb(), Bo1_Box_Aabb(), Bo1_Facet_Aabb(), Bo1_Wall_Aabb()], verletDist=rng.choice([0, -.3, .02]))
        loop = InteractionLoop([Ig2_Sphere_Sphere_ScGeom(), Ig2_Box_Sphere_ScGeom(), Ig2_Facet_Sphere_ScGeom(), Ig2_Wall_Sphere_ScGeom()], [Ip2_FrictMat_FrictMat_FrictPhys(), Ip2_CpmMat_CpmMat_CpmPhys()], [Law2_ScGeom_FrictPhys_CundallStrack()])
        place = rng.choice(['after', 'last']) if len(F) == 1 else 'last'
        core = [ForceResetter(), coll]
        if isinstance(O.materials[1], FrictMat) and type(O.materials[1]) is FrictMat: core.append(loop)
        newton = NewtonIntegrator(damping=0)
        O.engines = core + ([F[0], newton] if place == 'after' else [newton] + F)
        O.dt = 10 ** rng.uniform(-4, -2.5)
        known = set(b.id for b in O.bodies)
        log = [dict(goal=0.0, n=0, m=0.0, v=0.0, ids=[], stopped=False) for _ in F]
        desc = '%s, %s' % (', '.join(type(f).__name__ for f in F), place)
        for s in range(rng.randint(2, 25)):
            ctx.mark('%s step %d' % (desc, s))
            if rng.random() < 0.1: O.dt = 10 ** rng.uniform(-4, -2.5)
            if rng.random() < 0.1 and len(O.bodies):
                i = rng.randrange(len(O.bodies))
                if O.bodies[i]: O.bodies.erase(i); known.discard(i)
            rate = [f.massFlowRate for f in F]
            pre = snapshot() if place == 'after' else None
            O.step()
            if place == 'last': pre = {k: v for k, v in snapshot().items() if k in known}
            new = [b for b in O.bodies if b.id not in known]
            got = [[i for i in f.ids[L['n']:]] for f, L in zip(F, log)]
            ctx.check(sorted(b.id for b in new) == sorted(i for g in got for i in g), 'reported ids', '%s step %d: new bodies %s, reported %s' % (desc, s, [b.id for b in new], got))
            placed = []
            for k, (f, L, g) in enumerate(zip(F, log, got)):
                n = (f.normalVel if f.normalVel.norm() > 0 else f.normal)
                n = n / n.norm()
                speeds = set()
                L['goal'] += rate[k] * O.dt
                for i in g:
                    b = O.bodies[i]
                    c, r, st, mat = b.state.refPos, b.shape.radius, b.state, O.materials[f.materialId]
                    w = '%s step %d body %d at %s r=%g' % (desc, s, i, tuple(c), r)
                    ctx.check(in_region(f, c, r), 'outside the region', w + ' ' + str(f.dict()))
                    ctx.check(f.rMin - 1e-12 <= r <= f.rMax + 1e-12, 'radius', w + ' limits %r %r' % (f.rMin, f.rMax))
                    for j, o in pre.items(): ctx.check(overlap(c, r, o) <= 1e-9, 'overlaps an existing body', w + ': overlap %g with body %d, %s' % (overlap(c, r, o), j, o[0]))
                    for j, cc, rr in placed: ctx.check(r + rr - (c - cc).norm() <= 1e-9, 'overlaps another new body', w + ': with body %d' % j)
                    placed.append((i, Vector3(c), r))
                    V = 4 / 3. * math.pi * r ** 3
                    ctx.check(close(st.mass, V * mat.density) and all(close(st.inertia[a], .4 * V * mat.density * r * r) for a in range(3)), 'mass', w + ' mass %r inertia %s density %r' % (st.mass, st.inertia, mat.density))
                    ctx.check(b.material is mat or b.material.id == mat.id, 'material', w)
                    ctx.check(b.mask == (f.mask if f.mask > 0 else 1), 'mask', w + ' mask %d instead of %d' % (b.mask, f.mask))
                    ctx.check(sorted(st.blockedDOFs) == sorted(f.blockedDOFs), 'blocked', w + ' %s %s' % (st.blockedDOFs, f.blockedDOFs))
                    if f.color[0] >= 0: ctx.check(vclose(b.shape.color, f.color, 1e-12), 'colour', w)
                    sp = st.vel.dot(n)
                    ctx.check((st.vel - n * sp).norm() <= 1e-9 and f.vMin - 1e-9 <= sp <= f.vMax + 1e-9, 'velocity', w + ' velocity %s, direction %s, limits %r %r' % (st.vel, n, f.vMin, f.vMax))
                    before = L['m']
                    ctx.check(before < L['goal'] * (1 + 1e-9), 'more than the flow rate', w + ': %r already produced, goal %r' % (before, L['goal']))
                    if f.maxMass > 0: ctx.check(before < f.maxMass, 'more than maxMass', w + ': %r already produced, limit %r' % (before, f.maxMass))
                    L['m'] += st.mass; L['v'] += V; L['n'] += 1
                    if f.maxParticles >= 0: ctx.check(L['n'] <= f.maxParticles, 'more than maxParticles', w + ': %d' % L['n'])
                w = '%s step %d' % (desc, s)
                ctx.check(f.numParticles == L['n'] == len(f.ids), 'numParticles', w + ': %d, counted %d' % (f.numParticles, L['n']))
                ctx.check(close(f.totalMass, L['m'], 1e-9, 1e-12) and close(f.totalVolume, L['v'], 1e-9, 1e-15), 'totals', w + ': %r %r, counted %r %r' % (f.totalMass, f.totalVolume, L['m'], L['v']))
                full = f.maxParticles >= 0 and L['n'] >= f.maxParticles or f.maxMass > 0 and L['m'] >= f.maxMass
                out = 'idle'
                if L['m'] < L['goal'] * (1 - 1e-9) and not full:
                    # could not place a sphere
                    out = 'failed'
                    if f.stopIfFailed:
                        ctx.check(f.massFlowRate == 0 and close(f.goalMass, f.totalMass, 1e-9, 1e-12), 'less than the flow rate', w + ': produced %r of %r, rate %r goal %r' % (L['m'], L['goal'], f.massFlowRate, f.goalMass))
                        L['goal'] = L['m']
                        out = 'stopped'
                elif full: out = 'full'
                elif g: out = 'placed'
                ctx.check(close(f.goalMass, L['goal'], 1e-9, 1e-12), 'goal', w + ': %r, expected %r' % (f.goalMass, L['goal']))
                ctx.observed((type(f).__name__, place, out, min(len(g), 3), len(F)))
                ctx.note('spheres inserted', len(g))
            known = set(b.id for b in O.bodies)
    go(ctx)


def psd(ctx):
    """The prescribed size distribution is followed within one particle per bin."""
    @each(ctx.args['n'])
    def go(ctx, case):
        rng = case.rng
        fresh()
        O.materials.append(FrictMat(density=1000))
        nb = rng.randint(1, 5)
        cum = [rng.uniform(0.1, 1) for _ in range(nb)]
        share = [c / sum(cum) for c in cum]
        cum = [sum(share[:i + 1]) for i in range(nb)]
        scale = rng.choice([1, 1, 100, 0.37])
        exact, mass = rng.random() < 0.6, rng.random() < 0.6
        sizes = sorted(rng.uniform(0.02, 0.08) for _ in range(nb if exact else nb + 1))
        f = BoxFactory(center=(0, 0, 0), extents=(2, 2, 2), normal=(0, 0, 1), massFlowRate=1e9, vMin=0, vMax=0, materialId=-1, maxParticles=rng.choice([80, 200]), PSDsizes=sizes, PSDcum=[c * scale for c in cum], PSDcalculateMass=mass, exactDiam=exact, maxAttempt=20000)
        O.engines = [ForceResetter(), InsertionSortCollider([Bo1_Sphere_Aabb()]), NewtonIntegrator(), f]
        for _ in range(rng.choice([1, 4])): O.step()
        N = f.numParticles
        ctx.check(N == f.maxParticles, 'not all produced', '%d of %d' % (N, f.maxParticles))
        amount, mmax = [0.0] * nb, 0
        for i in f.ids:
            b = O.bodies[i]; d = 2 * b.shape.radius
            if exact:
                k = min(range(nb), key=lambda j: abs(sizes[j] - d))
                ctx.check(abs(sizes[k] - d) < 1e-12, 'diameter not of the list', '%r not in %r' % (d, sizes))
            else:
                k = max([j for j in range(nb) if sizes[j] <= d + 1e-12] or [-1])
                ctx.check(k >= 0 and d <= sizes[-1] + 1e-12, 'diameter outside the list', '%r not in %r' % (d, sizes))
            a = b.state.mass if mass else 1
            amount[k] += a; mmax = max(mmax, a)
        tot = sum(amount)
        for k in range(nb):
            ctx.check(abs(amount[k] / tot - share[k]) <= nb * mmax / tot + 1e-9, 'size distribution', 'sizes %s, cumulative %s (x%g), exact=%s, by mass=%s: share of bin %d is %r instead of %r' % (sizes, cum, scale, exact, mass, k, amount[k] / tot, share[k]))
            ctx.observed((nb, scale, exact, mass, k))
    go(ctx)


def limiter(ctx):
    @each(ctx.args['n'])
    def go(ctx, case):
        rng = case.rng
        fresh()
        O.materials.append(FrictMat(density=1000, young=1e5))
        for _ in range(rng.randint(0, 25)):
            k = rng.random()
            if k < .65: O.bodies.append(utils.sphere(rvec(rng, 2), rng.uniform(0.01, 0.1), mask=rng.choice([1, 2, 3, 5])))
            elif k < .75: O.bodies.append(utils.box(rvec(rng, 2), (.1, .1, .1), mask=rng.choice([1, 2])))
            elif k < .8: O.bodies.append(utils.facet([rvec(rng, 2), rvec(rng, 2), rvec(rng, 2)]))
            else:
                c = rvec(rng, 2)
                cid, m = O.bodies.appendClumped([utils.sphere(c, .05, mask=2), utils.sphere(c + Vector3(.08, 0, 0), .04, mask=1)])
                O.bodies[cid].mask = rng.choice([1, 2, 4])
                O.bodies.updateClumpProperties()
        for b in O.bodies:
            if not b.isClumpMember: b.state.vel = rvec(rng, 3)
        L = []
        for _ in range(rng.choice([1, 1, 2])):
            lo = rvec(rng, 1) - Vector3(1, 1, 1)
            L.append(DomainLimiter(lo=lo, hi=lo + Vector3(rng.uniform(0, 4), rng.uniform(0, 4), rng.uniform(0, 4)), mask=rng.choice([-1, -1, 1, 2, 6]), iterPeriod=rng.choice([1, 3]), initRun=True))
        O.engines = [ForceResetter(), InsertionSortCollider([Bo1_Sphere_Aabb()]), NewtonIntegrator(damping=0)] + L
        O.dt = 0.02
        acc = [[0, 0.0, 0.0] for _ in L]
        for s in range(rng.randint(1, 12)):
            it = O.iter
            O.step()
            alive = {}
            # bodies before the limiters ran: keep a model of everything known
            if s == 0: model = {}
            ctx.note('steps')
            if s == 0: continue_model = None
            now = {b.id: b for b in O.bodies}
            # positions at the moment the limiters ran are those of now; the vanished ones are predicted from the previous step
            if s:
                for i, (p, v, kind, mask, mass, vol, member) in prev.items():
                    if member is not None: continue
                    q = p + v * O.dt
                    gone = None
                    for k, l in enumerate(L):
                        if it % l.iterPeriod: continue
                        if kind not in ('Sphere', 'clump') or (l.mask > 0 and not (mask & l.mask)): continue
                        if any(q[a] < l.lo[a] or q[a] > l.hi[a] for a in range(3)): gone = k; break
                    margin = min([abs(q[a] - x[a]) for l in L for x in (l.lo, l.hi) for a in range(3)])
                    if margin < 1e-9: continue
                    fam = [i] + [j for j, x in prev.items() if x[6] == i]
                    if gone is None: ctx.check(all(j in now for j in fam), 'removed a body inside', 'body %d (%s, mask %d) at %s, limits %s' % (i, kind, mask, tuple(q), [(tuple(l.lo), tuple(l.hi), l.mask) for l in L]))
                    else:
                        ctx.check(not any(j in now for j in fam), 'kept a body outside', 'body %d (%s, mask %d, family %s) at %s, limits %s' % (i, kind, mask, fam, tuple(q), [(tuple(l.lo), tuple(l.hi), l.mask) for l in L]))
                        acc[gone][0] += 1; acc[gone][1] += mass
                        if kind == 'Sphere': acc[gone][2] += vol
                    ctx.observed((kind, gone, len(L), mask))
                for k, l in enumerate(L):
                    a = [x + y for x, y in zip(acc[k], base[k])]
                    ctx.check(l.nDeleted == a[0] and close(l.mDeleted, a[1], 1e-9, 1e-12) and close(l.vDeleted, a[2], 1e-9, 1e-12), 'report', 'limiter %d reports %r, counted %r' % (k, (l.nDeleted, l.mDeleted, l.vDeleted), a))
            else: base = [(l.nDeleted, l.mDeleted, l.vDeleted) for l in L]
            prev = {b.id: (Vector3(b.state.pos), Vector3(b.state.vel), 'clump' if b.isClump else type(b.shape).__name__, b.mask, b.state.mass, 4 / 3. * math.pi * b.shape.radius ** 3 if isinstance(b.shape, Sphere) else 0, b.clumpId if b.isClumpMember else None) for b in O.bodies}
    go(ctx)


class Sched:
    """Independent model of the documented schedule."""
    def __init__(self, e): self.e, self.started, self.runs, self.used, self.it, self.t = e, False, 0, 0, 0, 0.0

    def step(self, it, t):
        e = self.e
        if e['dead']: return False
        if e['firstIterRun'] > 0 and not self.started:
            if it != e['firstIterRun']: return False
            self.started = True
            return self._run(it, t)
        if not self.started:
            # the run before the count started happens only if a whole period has passed since step and time zero
            due = self._due(it, t)
            self.started = True
            if due or e['initRun']: return self._run(it, t)
            self.it, self.t, self.used = it, t, self.used + 1
            return False
        if self._due(it, t): return self._run(it, t)
        return False

    def _due(self, it, t):
        e = self.e
        return (e['nDo'] < 0 or self.used < e['nDo']) and (e['virtPeriod'] > 0 and t - self.t >= e['virtPeriod'] or e['iterPeriod'] > 0 and it - self.it >= e['iterPeriod'])

    def _run(self, it, t):
        self.it, self.t, self.used, self.runs = it, t, self.used + 1, self.runs + 1
        return True


def schedule(ctx):
    import __main__, builtins
    @each(ctx.args['n'])
    def go(ctx, case):
        rng = case.rng
        fresh()
        ran = []
        __main__._vp_ran = ran
        n = rng.randint(1, 4)
        E, M = [], []
        for k in range(n):
            kw = dict(iterPeriod=rng.choice([0, 1, 2, 3, 7]), virtPeriod=rng.choice([0, 0, 0, .01, .0305, .25]), nDo=rng.choice([-1, -1, 0, 1, 2, 5]), initRun=rng.random() < .4, firstIterRun=rng.choice([0, 0, 0, 1, 4, 9]))
            E.append(PyRunner(command='import __main__; __main__._vp_ran.append((%d, O.iter))' % k, **kw))
            M.append(Sched(dict(kw, dead=False)))
        if rng.random() < .5:
            # the count starts at a later step
            O.engines = []
            O.run(rng.randint(1, 20), True)
        O.engines = E
        O.dt = rng.choice([1e-3, 1e-2, 7e-3])
        edits = []
        for s in range(rng.randint(3, 40)):
            if rng.random() < .1: O.dt = rng.choice([1e-3, 1e-2, 7e-3])
            if rng.random() < .1:
                k = rng.randrange(n); a = rng.choice(['iterPeriod', 'virtPeriod', 'dead', 'nDo'])
                v = dict(iterPeriod=rng.choice([0, 1, 2, 5]), virtPeriod=rng.choice([0, .02, .1]), dead=rng.random() < .5, nDo=rng.choice([-1, 3, 8]))[a]
                setattr(E[k], a, v); M[k].e[a] = v; edits.append((s, k, a, v))
            it, t = O.iter, O.time
            # times within rounding of a period are not judged: keep away from them
            amb = False
            for m in M:
                if m.e['virtPeriod'] > 0 and abs(t - m.t - m.e['virtPeriod']) < 1e-9: amb = True
            del ran[:]
            O.step()
            if amb: return
            want = [(k, it) for k, m in enumerate(M) if m.step(it, t)]
            ctx.check(ran == want, 'schedule', 'step %d (iteration %d, time %r): ran %s, expected %s; engines %s; edits %s' % (s, it, t, ran, want, [m.e for m in M], edits))
            for k, m in enumerate(M):
                ctx.check(m.e['nDo'] < 0 or m.runs <= max(m.e['nDo'], 1 if m.e['initRun'] or m.e['firstIterRun'] else 0) or any(x[1] == k and x[2] == 'nDo' for x in edits), 'more than nDo', 'engine %d ran %d times, nDo %d' % (k, m.runs, m.e['nDo']))
            for k, _ in want: ctx.observed((M[k].e['iterPeriod'], M[k].e['virtPeriod'], M[k].e['nDo'], M[k].e['initRun'], M[k].e['firstIterRun']))
            ctx.note('activations', len(want))
            ctx.note('engine steps', n)
    go(ctx)


def clock(ctx):
    import __main__
    @each(ctx.args['n'])
    def go(ctx, case):
        rng = case.rng
        fresh()
        ran = []
        __main__._vp_ran = ran
        P = rng.uniform(0.05, 0.15)
        O.engines = [PyRunner(command='import __main__, time; __main__._vp_ran.append(time.time())', realPeriod=P, nDo=rng.choice([-1, 4]), initRun=True)]
        end = time.time() + 1.0
        while time.time() < end: O.step(); time.sleep(rng.uniform(0, 0.004))
        for a, b in zip(ran, ran[1:]): ctx.check(b - a >= P - 2e-3, 'too often', 'runs %g s apart, period %g' % (b - a, P))
        ctx.check(len(ran) <= (O.engines[0].nDo if O.engines[0].nDo > 0 else 1 + 1.1 / P), 'too many', '%d' % len(ran))
        ctx.check(len(ran) >= 2, 'never ran', '%d' % len(ran))
        ctx.observed((len(ran), O.engines[0].nDo))
    go(ctx)


def recorder(ctx):
    """Force and torque recorders: one line per run with the resultant of the listed bodies."""
    @each(ctx.args['n'])
    def go(ctx, case):
        rng = case.rng
        fresh()
        O.materials.append(FrictMat(density=1000, young=1e5))
        N = rng.randint(1, 6)
        for _ in range(N): O.bodies.append(utils.sphere(rvec(rng, 3), .1))
        d = tempfile.mkdtemp()
        try:
            ids = [rng.randrange(N) for _ in range(rng.randint(0, 4))] + ([N + 5] if rng.random() < .2 else [])
            kw = dict(iterPeriod=rng.choice([1, 2]), truncate=rng.random() < .3, addIterNum=rng.random() < .3)
            fr = ForceRecorder(ids=ids, file=d + '/f', **kw)
            ax, z = rvec(rng), rvec(rng)
            tr = TorqueRecorder(ids=ids, file=d + '/t', rotationAxis=ax, zeroPoint=z, **kw)
            O.engines = [ForceResetter(), NewtonIntegrator(damping=0), fr, tr]
            wf, wt = {}, {}
            for s in range(rng.randint(1, 6)):
                it = O.iter
                if rng.random() < .1 and N > 1:
                    i = rng.randrange(N)
                    if O.bodies[i]: O.bodies.erase(i)
                f = {}
                for b in O.bodies:
                    f[b.id] = (rvec(rng, 10), rvec(rng, 10))
                    O.forces.setPermF(b.id, f[b.id][0]); O.forces.setPermT(b.id, f[b.id][1])
                O.step()
                due = it % kw['iterPeriod'] == 0
                if due:
                    F = sum((f[i][0] for i in ids if i in f), Vector3.Zero)
                    a = ax / ax.norm()
                    T = sum((a.dot(f[i][1] + (O.bodies[i].state.pos - z).cross(f[i][0])) for i in ids if i in f), 0.0)
                    key = '-%d' % it if kw['addIterNum'] else ''
                    for w, v in ((wf, [it, F[0], F[1], F[2], F.norm()]), (wt, [it, T])):
                        if kw['truncate']: w[key] = []
                        w.setdefault(key, []).append(v)
                    ctx.check(vclose(fr.totalForce, F, 1e-9 * (1 + vmax(F))), 'total force', '%s instead of %s' % (fr.totalForce, F))
                    ctx.check(close(tr.totalTorque, T, 1e-9, 1e-8), 'total torque', 'axis %s through %s: %r instead of %r' % (ax, z, tr.totalTorque, T))
                ctx.observed((len(ids), due, kw['truncate'], kw['addIterNum']))
            for name, w in (('f', wf), ('t', wt)):
                ctx.check(sorted(x[1:] for x in os.listdir(d) if x[0] == name) == sorted(w), 'files', '%s: %s instead of %s' % (name, sorted(os.listdir(d)), sorted(w)))
                for key, rows in w.items():
                    got = [[float(x) for x in l.split()] for l in open(d + '/' + name + key)]
                    ok = len(got) == len(rows) and all(len(a) == len(b) and all(close(x, y, 1e-5, 1e-4) for x, y in zip(a, b)) for a, b in zip(got, rows))
                    ctx.check(ok, 'recorded lines', '%s%s: %s instead of %s (%s)' % (name, key, got, rows, kw))
        finally: shutil.rmtree(d)
    go(ctx)


def resetpos(ctx):
    """Spheres that crossed the plane are put back on the section without overlap, the others are left alone."""
    @each(ctx.args['n'])
    def go(ctx, case):
        rng = case.rng
        fresh()
        O.materials.append(FrictMat(density=1000, young=1e5))
        T = []
        for _ in range(rng.randint(1, 3)): T.append(O.bodies.append(utils.facet([rvec(rng, 3) + Vector3(0, 10, 0), rvec(rng, 3) + Vector3(0, 10, 0), rvec(rng, 3) + Vector3(0, 10, 0)], mask=2)))
        if rng.random() < .4: O.bodies[T[0]].state.ori = rquat(rng)
        blockers = rng.choice([0, 0, 1, 3])
        for _ in range(blockers): O.bodies.append(utils.sphere(rvec(rng, 3) + Vector3(0, 10, 0), rng.uniform(.1, .5), fixed=True))
        S = [O.bodies.append(utils.sphere(rvec(rng, 3) + Vector3(0, -1 + 2 * (i % 2), 0), rng.uniform(.05, .2))) for i in range(rng.randint(1, 8))]
        sub = [i for i in S if rng.random() < .8]
        if rng.random() < .2 and len(S) > 1: O.bodies.erase(S[-1])
        v0, vr, w0, wr = rvec(rng), Vector3(.1, 0, .3), rvec(rng), Vector3(0, .2, .1)
        vol = rng.random() < .5
        R = ResetRandomPosition(factoryFacets=T, subscribedBodies=sub, point=(0, 0, 0), normal=(0, 1, 0), volumeSection=vol, maxAttempts=rng.choice([1, 200]), velocity=v0, velocityRange=vr, angularVelocity=w0, angularVelocityRange=wr, iterPeriod=1)
        O.engines = [ForceResetter(), InsertionSortCollider([Bo1_Sphere_Aabb()] + ([Bo1_Facet_Aabb()] if rng.random() < .5 else []), verletDist=0), InteractionLoop([Ig2_Sphere_Sphere_ScGeom()], [Ip2_FrictMat_FrictMat_FrictPhys()], [Law2_ScGeom_FrictPhys_CundallStrack()]), R]
        O.step()
        verts = {t: [O.bodies[t].state.pos + O.bodies[t].state.ori * v for v in O.bodies[t].shape.vertices] for t in T}
        before = {b.id: (Vector3(b.state.pos), Vector3(b.state.vel), Vector3(b.state.angVel)) for b in O.bodies}
        before_n = len([i for i in sub if O.bodies[i] and O.bodies[i].state.pos[1] < 0])
        for _ in range(3):
            O.step()
            moved = []
            for b in O.bodies:
                p, v, w = before[b.id]
                if (b.state.pos - p).norm() > 0:
                    ctx.check(b.id in sub and p[1] < 0, 'moved a body it should not', 'body %d from %s to %s' % (b.id, p, b.state.pos))
                    moved.append(b)
                    if vol:
                        allv = [x for t in T for x in verts[t]]
                        ok = all(min(x[a] for x in allv) - 1e-9 <= b.state.pos[a] <= max(x[a] for x in allv) + 1e-9 for a in range(3))
                    else: ok = min(dist_triangle(b.state.pos, verts[t]) for t in T) < 1e-6
                    ctx.check(ok, 'outside the section', 'body %d at %s, facets %s' % (b.id, b.state.pos, verts))
                    for a in range(3):
                        ctx.check(abs(b.state.vel[a] - v0[a]) <= vr[a] + 1e-12, 'velocity', '%s, mean %s' % (b.state.vel, v0))
                        ctx.check(abs(b.state.angVel[a] - w0[a]) <= wr[a] + 1e-12, 'angular velocity', '%s, mean %s' % (b.state.angVel, w0))
                else: ctx.check(b.state.vel == v and b.state.angVel == w, 'changed the velocity of a body left in place', 'body %d' % b.id)
            for b in moved:
                for o in O.bodies:
                    if o.id != b.id and isinstance(o.shape, Sphere): ctx.check((o.state.pos - b.state.pos).norm() >= o.shape.radius + b.shape.radius - 1e-9, 'overlaps', 'body %d at %s and %d at %s' % (b.id, b.state.pos, o.id, o.state.pos))
            left = [i for i in sub if O.bodies[i] and O.bodies[i].state.pos[1] < 0]
            if R.maxAttempts == 200 and not blockers: ctx.check(len(left) < max(1, before_n), 'nothing put back', '%d spheres below the plane, none was put back' % len(left))
            before_n = len(left)
            ctx.observed((vol, len(moved), len(left)))
            ctx.note('spheres put back', len(moved))
            ctx.note('spheres left below', len(left))
            before = {b.id: (Vector3(b.state.pos), Vector3(b.state.vel), Vector3(b.state.angVel)) for b in O.bodies}
    go(ctx)
