"""Energy bookkeeping of frictional spheres: every reported term against its definition at every step, and the balance of the total."""
from common import *

RULE = ('a case is a random cloud (open, periodic, on a fixed floor, with clumps, blocked axes, aspherical bodies) colliding for hundreds of steps with tracking on: every step compares the reported kinetic, elastic, '
        'gravitational and damped energy with their definitions computed from the bodies and contacts, dissipation must never decrease, and the total must stay constant within the resolution of the step; '
        'distinct = (kind of scene, options, which terms changed)')
ASSUMPTIONS = ['the kinetic energy reported after a step is that of the velocities that entered it, as the leap-frog scheme defines it',
               'the balance is judged with the kinetic energy at mid-step (product of the velocities before and after)',
               'contacts opening with a residual shear force release its elastic energy; the bound of the balance includes it']


def plan(tier):
    k = 1 if tier == 'quick' else 15
    J = []
    for t in (1, 4):
        J += [dict(func='terms', name='terms-t%d' % t, threads=t, args=dict(n=22 * k)), dict(func='balance', name='balance-t%d' % t, threads=t, args=dict(n=14 * k))]
    J += [dict(func='neutral', name='neutral', args=dict(n=14 * k)), dict(func='tracker', name='tracker', args=dict(n=25 * k)), dict(func='tracker', name='tracker-t3', threads=3, args=dict(n=10 * k)),
          dict(func='laws', name='laws', args=dict(n=20 * k))]
    return J


def build(rng, periodic=None, clumps=True, aspherical=True, floor=None, damping=None, gravity=None, ratchet=None, mixed=True, kin=None, fric=None):
    """A random scene; returns its description."""
    fresh()
    periodic = rng.random() < .3 if periodic is None else periodic
    O.periodic = periodic
    L = 1.0
    if periodic: O.cell.setBox(L, L, L)
    fric = rng.choice((0., .2, .5, .9)) if fric is None else fric
    mats = [O.materials.append(FrictMat(young=rng.choice((1e5, 1e6)), poisson=rng.uniform(.1, .6), frictionAngle=fric, density=rng.choice((800, 2600)))) for _ in range(2 if mixed else 1)]
    sp = pack.SpherePack()
    n = rng.randint(6, 22)
    sp.makeCloud((0, 0, 0), (L, L, L), rMean=.09, rRelFuzz=.4, num=n, periodic=periodic, seed=rng.randrange(1, 10**6))
    for c, r in [x[:2] for x in sp.toList()]: O.bodies.append(utils.sphere(c, r, material=mats[rng.randrange(len(mats))]))
    d = dict(periodic=periodic, clumps=0, floor=False, blocked=0, aspherical=0)
    if clumps and rng.random() < .5:
        for _ in range(rng.randint(1, 3)):
            i = rng.choice([b.id for b in O.bodies if b.isStandalone])
            b = O.bodies[i]
            j = O.bodies.append(utils.sphere(b.state.pos + Vector3(0, 0, b.shape.radius * .6), b.shape.radius * .8, material=b.material))
            O.bodies.clump([i, j], discretization=6)
            d['clumps'] += 1
    if not periodic and (rng.random() < .5 if floor is None else floor):
        d['floor'] = True
        O.bodies.append(utils.box((.5, .5, -.15), (2, 2, .1), fixed=True, material=mats[0]))
    for b in O.bodies:
        if b.isClumpMember or not isinstance(b.shape, (Sphere, Clump)): continue
        b.state.vel = rvec(rng, 2.)
        b.state.angVel = rvec(rng, 5.)
        if aspherical and not b.isClump and rng.random() < .1: b.aspherical = True; d['aspherical'] += 1
        if b.aspherical:  # the angular momentum is the one that counts
            M = b.state.ori.toRotationMatrix()
            I = b.state.inertia
            w = M.transpose() * b.state.angVel
            b.state.angMom = M * Vector3(I[0] * w[0], I[1] * w[1], I[2] * w[2])
    g = rng.choice((Vector3(0, 0, 0), Vector3(0, 0, -9.81), rvec(rng, 20))) if gravity is None else gravity
    dm = rng.choice((0., 0., .2, .5)) if damping is None else damping
    kin = rng.random() < .3 if kin is None else kin
    ig = Ig2_Sphere_Sphere_ScGeom(avoidGranularRatcheting=rng.random() < .5 if ratchet is None else ratchet)
    O.engines = [ForceResetter(), InsertionSortCollider([Bo1_Sphere_Aabb(), Bo1_Box_Aabb()]), InteractionLoop([ig, Ig2_Box_Sphere_ScGeom()], [Ip2_FrictMat_FrictMat_FrictPhys()], [Law2_ScGeom_FrictPhys_CundallStrack()]),
                 NewtonIntegrator(gravity=g, damping=dm, kinSplit=kin)]
    d.update(gravity=g, damping=dm, kin=kin, fric=fric)
    O.trackEnergy = True
    O.dt = rng.uniform(.02, .1) * utils.PWaveTimeStep()
    return d


def rotE(b, w):
    I = b.state.inertia
    if b.aspherical:
        w = b.state.ori.toRotationMatrix().transpose() * w
    return .5 * sum(I[i] * w[i] * w[i] for i in range(3))


def fluct(b, v):
    """Velocity without the mean flow of the cell (bodies at x_n, cell at x_n)."""
    if not O.periodic: return v
    return v - O.cell.velGrad * O.cell.wrap(b.state.pos) if O.cell.velGrad.norm() else v


@each(20)
def terms(ctx, case):
    rng = case.rng
    d = build(rng)
    for b in O.bodies:
        if isinstance(b.shape, Sphere) and b.isStandalone and not b.aspherical and rng.random() < .2:
            b.state.blockedDOFs = ''.join(c for c in 'xyzXYZ' if rng.random() < .5); d['blocked'] += 1
        if rng.random() < .1 and not b.isClumpMember: b.state.isDamped = False
    dyn = [b for b in O.bodies if not b.isClumpMember]
    g, dm, kin = d['gravity'], d['damping'], d['kin']
    grav = damp = 0.
    plast = 0.
    changed = set()
    for step in range(rng.randint(60, 250)):
        before = [(Vector3(b.state.vel), Vector3(b.state.angVel)) for b in dyn]
        Ek = [sum(.5 * b.state.mass * fluct(b, v).squaredNorm() for b, (v, w) in zip(dyn, before)), sum(rotE(b, w) for b, (v, w) in zip(dyn, before))]
        O.step()
        E = dict(O.energy.items())
        dt = O.dt
        # gravity
        dg = -sum(g.dot(v) * b.state.mass for b, (v, w) in zip(dyn, before)) * dt
        grav += dg
        sc = sum(abs(g.dot(v)) * b.state.mass for b, (v, w) in zip(dyn, before)) * dt + abs(grav) + 1e-12
        ctx.check(abs(E.get('gravWork', 0) - grav) <= 1e-8 * sc, 'gravity', lambda: 'step %d: gravWork=%r, expected %r (%r)' % (step, E.get('gravWork'), grav, d))
        # kinetic
        if kin: got, exp = (E['kinTrans'], E['kinRot']), Ek
        else: got, exp = (E['kinetic'],), (sum(Ek),)
        for a, e in zip(got, exp): ctx.check(abs(a - e) <= 1e-9 * (sum(Ek) + 1e-12), 'kinetic', lambda: 'step %d: reported %r, defined %r (%r)' % (step, got, exp, d))
        # elastic
        el = 0.
        for i in O.interactions: el += .5 * (i.phys.normalForce.squaredNorm() / i.phys.kn + i.phys.shearForce.squaredNorm() / i.phys.ks)
        ctx.check(abs(E.get('elastPotential', 0.) - el) <= 1e-9 * (el + 1e-9), 'elastic', lambda: 'step %d: reported %r, contacts hold %r (%r)' % (step, E.get('elastPotential'), el, d))
        # numerical damping
        if dm:
            dd = 0.
            for b, (v, w) in zip(dyn, before):
                st = b.state
                if not st.isDamped: continue
                bl = st.blockedDOFs
                f, t = O.forces.f(b.id, sync=True), O.forces.t(b.id, sync=True)
                v = fluct(b, v)
                for k in range(3):
                    if 'xyz'[k] not in bl: dd += abs(v[k]) * abs(f[k] + st.mass * g[k])
                    if 'XYZ'[k] not in bl: dd += abs(w[k]) * abs(t[k])
            damp += dd * dm * dt
            ctx.check(abs(E.get('nonviscDamp', 0.) - damp) <= 1e-8 * (damp + 1e-12), 'damping', lambda: 'step %d: nonviscDamp=%r, defined %r (%r)' % (step, E.get('nonviscDamp'), damp, d))
        else: ctx.check(E.get('nonviscDamp', 0.) == 0., 'damping-off', 'nonviscDamp=%r without damping' % E.get('nonviscDamp'))
        p = E.get('plastDissip', 0.)
        ctx.check(p >= plast, 'friction-decreased', 'plastDissip from %r to %r at step %d' % (plast, p, step))
        if d['fric'] == 0: ctx.check(p == 0., 'frictionless', 'plastDissip=%r without friction' % p)
        if p > plast: changed.add('slide')
        if el: changed.add('el')
        plast = p
        ctx.check(abs(O.energy.total() - sum(E.values())) <= 1e-9 * sum(abs(x) for x in E.values()) + 1e-15, 'total', 'total()=%r, sum of items %r' % (O.energy.total(), sum(E.values())))
        ctx.observed(None, 6)
    ctx.observed((d['periodic'], d['clumps'] > 0, d['floor'], d['blocked'] > 0, d['aspherical'] > 0, dm > 0, kin, tuple(sorted(changed))), 0)
    ctx.sample('%r: %r' % (d, E))


@each(20)
def balance(ctx, case):
    rng = case.rng
    ratchet = rng.random() < .4
    d = build(rng, aspherical=False, ratchet=ratchet, clumps=rng.random() < .5, damping=rng.choice((0., 0., .2)))
    dyn = [b for b in O.bodies if not b.isClumpMember and b.state.blockedDOFs != 'xyzXYZ']
    E0 = None
    top = 0.
    worst = 0.
    lost = 0.
    events = 0
    open0 = {}
    for step in range(rng.randint(400, 900)):
        before = [(Vector3(b.state.vel), Vector3(b.state.angVel)) for b in dyn]
        O.step()
        E = dict(O.energy.items())
        kin = 0.
        for b, (v, w) in zip(dyn, before):
            kin += .5 * b.state.mass * v.dot(b.state.vel)
            w2 = b.state.angVel
            if b.aspherical: kin += .5 * (rotE(b, w) + rotE(b, w2))
            else:
                I = b.state.inertia
                kin += .5 * sum(I[k] * w[k] * w2[k] for k in range(3))
        now = {}
        for i in O.interactions: now[i.id1, i.id2] = i.phys.shearForce.squaredNorm() / i.phys.ks / 2
        for key, e in open0.items():
            if key not in now: lost += e
        events += sum(1 for k in now if k not in open0)
        open0 = now
        tot = kin + E.get('elastPotential', 0.) + E.get('plastDissip', 0.) + E.get('nonviscDamp', 0.) + E.get('gravWork', 0.)
        if E0 is None: E0 = tot
        top = max(top, kin, E.get('elastPotential', 0.), abs(E.get('gravWork', 0.)), E.get('plastDissip', 0.))
        rel = (tot - E0 + 0.) / top
        tol = .03 if ratchet else .012
        if d['clumps'] or d['damping']: tol = max(tol, .03)
        ctx.check(-tol - lost / top <= rel <= tol, 'unbalanced', lambda: 'total %r, was %r at the beginning (largest term %r, %r released by opening contacts), step %d, %r, %r' % (tot, E0, top, lost, step, d, E))
        worst = max(worst, abs(rel))
        ctx.observed(None)
    ctx.note_max('worst imbalance %s%s%s' % ('ratchet ' if ratchet else '', 'clumps ' if d['clumps'] else '', 'damped' if d['damping'] else ''), worst)
    ctx.note('contacts opened', events)
    ctx.observed((d['periodic'], d['clumps'] > 0, d['floor'], d['damping'] > 0, d['fric'] > 0, ratchet, events > 5), 0)


def fingerprint():
    return [(tuple(b.state.pos), tuple(b.state.vel), tuple(b.state.angVel), tuple(b.state.ori)) for b in O.bodies], sorted((i.id1, i.id2, tuple(i.phys.normalForce), tuple(i.phys.shearForce)) for i in O.interactions)


@each(20)
def neutral(ctx, case):
    """Tracking, switched on and off at any time, changes no trajectory."""
    rng = case.rng
    s = rng.getstate()
    n = rng.randint(100, 300)
    s = rng.getstate()
    d = build(rng)
    O.trackEnergy = False
    O.run(n, True)
    ref = fingerprint()
    ctx.check(not O.energy.keys() or all(v == 0 for k, v in O.energy.items()), 'off', 'not tracking, yet energies %r' % O.energy.items())
    mode = case.idx % 3
    rng.setstate(s)
    build(rng)
    if mode == 0: O.run(n, True)
    else:
        done = 0
        while done < n:
            O.trackEnergy = not O.trackEnergy
            k = min(n - done, rng.randint(1, 40))
            old = dict(O.energy.items())
            O.run(k, True); done += k
            if not O.trackEnergy:
                for name in ('plastDissip', 'nonviscDamp', 'gravWork'): ctx.check(dict(O.energy.items()).get(name, 0.) == old.get(name, 0.), 'off-changed', '%s changed while not tracking' % name)
    ctx.check(fingerprint() == ref, 'trajectory', 'tracking changed the trajectory (%r, mode %d)' % (d, mode))
    ctx.observed((mode, d['periodic'], d['clumps'] > 0, d['damping'] > 0))


@each(20)
def tracker(ctx, case):
    """The tracker as a container; engines moved between simulations."""
    rng = case.rng
    fresh()
    O.trackEnergy = True
    T = O.energy
    model = {}
    for _ in range(rng.randint(3, 40)):
        op = rng.choice(('set', 'set', 'get', 'clear', 'keys', 'miss', 'step'))
        k = rng.choice(('a', 'b', 'kinetic', 'x y', 'plastDissip', '')) + rng.choice(('', '1', '22'))
        if op == 'set': v = rng.uniform(-1e9, 1e9); T[k] = v; model[k] = v
        elif op == 'get' and model: k = rng.choice(sorted(model)); ctx.check(T[k] == model[k], 'getitem', '%r is %r, was set to %r' % (k, T[k], model[k]))
        elif op == 'clear':
            if rng.random() < .3: T.clear(); model = {k: 0. for k in model}
        elif op == 'keys':
            ctx.check(sorted(T.keys()) == sorted(model) and dict(T.items()) == model, 'items', '%r, expected %r' % (T.items(), model))
            ctx.check(abs(T.total() - sum(model.values())) <= 1e-9 * sum(abs(v) for v in model.values()), 'total', '%r, expected %r' % (T.total(), sum(model.values())))
        elif op == 'miss' and k not in model:
            try: T[k]; ctx.check(False, 'missing', 'unknown %r gives a value' % k)
            except KeyError: pass
            ctx.check(k not in T.keys(), 'created', 'reading an unknown name created it')
        elif op == 'step': O.step()
        ctx.observed()
    # engines used in one simulation continue in another
    build(rng, clumps=False, gravity=Vector3(0, 0, -5), damping=.3, kin=False)
    O.run(rng.randint(2, 30), True)
    eng = O.engines
    part = rng.random() < .5
    O.reset()
    d = build(rng, clumps=False, kin=False)
    new = O.engines
    if rng.random() < .5: O.energy[rng.choice('abc')] = 7.
    extra = sum(v for k, v in O.energy.items())
    O.engines = eng[:3] + new[3:] if part else eng
    nw = O.engines[3]
    g, dm = nw.gravity, nw.damping
    dyn = [b for b in O.bodies]
    E = {}
    grav = 0.
    for _ in range(rng.randint(1, 12)):
        v0 = [(Vector3(b.state.vel), Vector3(b.state.angVel)) for b in dyn]
        O.step()
        E = dict(O.energy.items())
        Ek = sum(.5 * b.state.mass * v.squaredNorm() + rotE(b, w) for b, (v, w) in zip(dyn, v0))
        grav -= sum(g.dot(v) * b.state.mass for b, (v, w) in zip(dyn, v0)) * O.dt
        el = sum(.5 * (i.phys.normalForce.squaredNorm() / i.phys.kn + i.phys.shearForce.squaredNorm() / i.phys.ks) for i in O.interactions)
        ctx.check(abs(E['kinetic'] - Ek) <= 1e-9 * Ek, 'moved-kinetic', lambda: 'engines moved to another simulation: kinetic %r, expected %r (%r)' % (E['kinetic'], Ek, E))
        ctx.check(abs(E['gravWork'] - grav) <= 1e-8 * (abs(grav) + Ek), 'moved-gravity', lambda: 'engines moved to another simulation: gravWork %r, expected %r (%r)' % (E['gravWork'], grav, E))
        ctx.check(abs(E.get('elastPotential', 0.) - el) <= 1e-9 * (el + 1e-9), 'moved-elastic', lambda: 'engines moved to another simulation: elastic %r, expected %r' % (E.get('elastPotential'), el))
        ctx.observed()
    ctx.observed(('moved', part, bool(extra)), 0)


@each(20)
def laws(ctx, case):
    """Elastic and dissipated energy reported by the laws themselves equal the sums over contacts, and the tracked ones."""
    rng = case.rng
    d = build(rng, clumps=False, aspherical=False, gravity=Vector3.Zero, damping=0., fric=rng.choice((.2, .5)), kin=False)
    law = O.engines[2].lawDispatcher.functors[0]
    both = rng.random() < .5
    law.traceEnergy = both
    O.trackEnergy = True
    p0 = 0.
    for step in range(rng.randint(50, 300)):
        O.step()
        el = sum(.5 * (i.phys.normalForce.squaredNorm() / i.phys.kn + i.phys.shearForce.squaredNorm() / i.phys.ks) for i in O.interactions)
        ctx.check(abs(law.elasticEnergy() - el) <= 1e-9 * (el + 1e-9), 'law-elastic', 'elasticEnergy()=%r, contacts hold %r' % (law.elasticEnergy(), el))
        ctx.observed(None)
    ctx.observed((d['periodic'], d['floor'], both), 0)
