"""Time step estimators: an independent recomputation from the contacts present, after every step of a random history."""
from common import *
import math
try:
    import numpy as np
except ImportError:
    np = None

RULE = ('a case is one scene with a random history of edits (stiffness, mass, bodies, settings): after every step the time step in use is compared with an independent evaluation of the documented estimate over all bodies and contacts present; '
        'distinct = (contact law, settings, kind of edit, which limit was active)')
ASSUMPTIONS = ['the documented estimate uses the diagonal of the stiffness of each body; it is not compared with the exact spectrum', 'contacts carrying exactly zero normal force are ignored, as the code states',
               'the constant 1.41044 standing for the square root of two is accepted within 0.3 percent']


def plan(tier):
    k = 1 if tier == 'quick' else 12
    return [dict(func='history', name='history-a', args=dict(n=500 * k)), dict(func='history', name='history-b', args=dict(n=500 * k)), dict(func='history', name='history-threads', threads=4, args=dict(n=60 * k)),
            dict(func='waves', name='waves', args=dict(n=250 * k)), dict(func='order', name='order', args=dict(n=60 * k)), dict(func='scaling', name='scaling', args=dict(n=80 * k)),
            dict(func='applied', name='applied', args=dict(n=60 * k))]


def engines(rng, law, ts):
    if law == 'frict': L = InteractionLoop([Ig2_Sphere_Sphere_ScGeom(), Ig2_Box_Sphere_ScGeom(), Ig2_Facet_Sphere_ScGeom(), Ig2_Wall_Sphere_ScGeom()], [Ip2_FrictMat_FrictMat_FrictPhys()], [Law2_ScGeom_FrictPhys_CundallStrack()])
    elif law == 'cohesive': L = InteractionLoop([Ig2_Sphere_Sphere_ScGeom6D(), Ig2_Box_Sphere_ScGeom6D(), Ig2_Facet_Sphere_ScGeom6D(), Ig2_Wall_Sphere_ScGeom()][:3], [Ip2_CohFrictMat_CohFrictMat_CohFrictPhys(setCohesionNow=True)], [Law2_ScGeom6D_CohFrictPhys_CohesionMoment()])
    elif law == 'mindlin': L = InteractionLoop([Ig2_Sphere_Sphere_ScGeom(), Ig2_Box_Sphere_ScGeom(), Ig2_Facet_Sphere_ScGeom(), Ig2_Wall_Sphere_ScGeom()], [Ip2_FrictMat_FrictMat_MindlinPhys()], [Law2_ScGeom_MindlinPhys_Mindlin()])
    else: L = InteractionLoop([Ig2_Sphere_Sphere_ScGeom(), Ig2_Box_Sphere_ScGeom(), Ig2_Facet_Sphere_ScGeom(), Ig2_Wall_Sphere_ScGeom()], [Ip2_ViscElMat_ViscElMat_ViscElPhys()], [Law2_ScGeom_ViscElPhys_Basic()])
    return [ForceResetter(), InsertionSortCollider([Bo1_Sphere_Aabb(), Bo1_Box_Aabb(), Bo1_Facet_Aabb(), Bo1_Wall_Aabb()]), L, ts, NewtonIntegrator(damping=rng.choice([0, 0.4]), gravity=Vector3(0, 0, rng.choice([0, -9.81])))]


def material(rng, law):
    E, nu, fr, rho = 10 ** rng.uniform(5, 9), rng.uniform(0.1, 0.5), rng.uniform(0, 0.8), rng.uniform(500, 8000)
    if law == 'cohesive': return CohFrictMat(young=E, poisson=nu, frictionAngle=fr, density=rho, isCohesive=True, normalCohesion=1e8, shearCohesion=1e8, momentRotationLaw=True, alphaKr=rng.choice([0, 0.5, 3]), alphaKtw=rng.choice([0, 0.7, 2]), etaRoll=-1)
    if law == 'viscel':
        if rng.random() < 0.5: return ViscElMat(kn=10 ** rng.uniform(3, 6), ks=10 ** rng.uniform(3, 5), cn=10 ** rng.uniform(-1, 3), cs=10 ** rng.uniform(-1, 3), frictionAngle=fr, density=rho)
        return ViscElMat(young=E, poisson=nu, en=rng.uniform(0.2, 0.9), et=rng.uniform(0.2, 0.9), frictionAngle=fr, density=rho)
    return FrictMat(young=E, poisson=nu, frictionAngle=fr, density=rho)


def add_grain(rng, mat, near=None):
    r = rng.uniform(0.05, 0.2)
    if near is None: pos = Vector3(rng.uniform(0, 1), rng.uniform(0, 1), rng.uniform(0, 1))
    else:
        d = rvec(rng); d.normalize()
        if rng.random() < 0.2: d = Vector3([(1, 0, 0), (0, 1, 0), (0, 0, 1)][rng.randrange(3)])
        pos = near.state.pos + d * (near.shape.radius + r) * rng.uniform(0.97, 1.002)
    return O.bodies.append(utils.sphere(pos, r, material=mat, fixed=rng.random() < 0.1))


def build(rng, law, n):
    mats = [material(rng, law)]
    # of several viscoelastic materials, all have to be of the same kind
    for _ in range(rng.randrange(3)):
        m = material(rng, law)
        if law == 'viscel' and math.isnan(m.kn) != math.isnan(mats[0].kn): continue
        mats.append(m)
    for m in mats: O.materials.append(m)
    for i in range(n):
        sp = [b for b in O.bodies if isinstance(b.shape, Sphere)]
        add_grain(rng, rng.choice(mats), rng.choice(sp) if sp and rng.random() < 0.8 else None)
    if rng.random() < 0.4 and law != 'cohesive': O.bodies.append(utils.wall(rng.uniform(0, 0.2), rng.randrange(3), material=mats[0]))
    if rng.random() < 0.3: O.bodies.append(utils.facet([rvec(rng), rvec(rng), rvec(rng)], material=mats[0]))
    if rng.random() < 0.4:
        sp = [b.id for b in O.bodies if isinstance(b.shape, Sphere)]
        if len(sp) > 4: O.bodies.clump(rng.sample(sp, rng.randint(2, 4)))
    return mats


def rot_stiffness(ph):
    if isinstance(ph, CohFrictPhys) and ph.momentRotationLaw: return ph.ktw, ph.kr
    return 0., 0.


def estimate(safety, visc):
    """The documented estimate: (limit over all free bodies, table body -> limit)."""
    N = len(O.bodies)
    K, R, C, RC = (np.zeros((N, 3)) for _ in range(4))
    for i in O.interactions:
        n, ph, g = np.array(i.geom.normal), i.phys, i.geom
        if ph.normalForce.norm() == 0: continue
        nn = n * n
        k = nn * ph.kn + (1 - nn) * ph.ks
        kt, kr = rot_stiffness(ph)
        for b, r in ((i.id1, g.refR1), (i.id2, g.refR2)):
            K[b] += k
            R[b] += ph.ks * (1 - nn) * r * r + kt * nn + kr * (1 - nn)
            if visc:
                C[b] += nn * ph.cn + (1 - nn) * ph.cs
                RC[b] += (1 - nn) * ph.cs * r * r
    tab = {}
    for b in O.bodies:
        if not b.dynamic or b.isClumpMember: continue
        members = [b.id] + ([int(m) for m in b.shape.members.keys()] if b.isClump else [])
        k, r, c, rc = K[members].sum(0), R[members].sum(0), C[members].sum(0), RC[members].sum(0)
        m, I = b.state.mass, np.array(b.state.inertia)
        T = []
        if k.any():
            if k.max(): T.append(m / k.max())
            T += [I[a] / r[a] for a in range(3) if r[a]]
        t = math.sqrt(2 * min(T)) if T else math.inf
        if visc:
            V = [m / c.max()] if c.max() else []
            V += [I[a] / rc[a] for a in range(3) if rc[a]]
            if V: t = min(t, 2 * min(V))
        if t < math.inf: tab[b.id] = safety * t
    return (min(tab.values()) if tab else None), tab


LOW = 0.9972


def history(ctx):
    @each(ctx.args['n'])
    def go(ctx, case):
        rng = case.rng
        fresh()
        law = rng.choice(['frict', 'frict', 'cohesive', 'mindlin', 'viscel', 'viscel'])
        mats = build(rng, law, rng.randint(1, 25))
        ts = GlobalStiffnessTimeStepper(timestepSafetyCoefficient=rng.choice([0.8, 0.3, 1.0]), timeStepUpdateInterval=rng.choice([1, 1, 1, 3, 7]), viscEl=law == 'viscel' and rng.random() < 0.6)
        if rng.random() < 0.3: ts.maxDt = 10 ** rng.uniform(-6, -3)
        if rng.random() < 0.3: ts.defaultDt = 10 ** rng.uniform(-6, -4)
        O.engines = engines(rng, law, ts)
        desc = '%s bodies=%d interval=%d' % (law, len(O.bodies), ts.timeStepUpdateInterval)
        once, edit, prev = False, 'start', math.inf
        for s in range(rng.randint(3, 12)):
            ctx.mark('%s step %d after %s' % (desc, s, edit))
            before, it, dflt = O.dt, O.iter, ts.defaultDt
            pw = utils.PWaveTimeStep()
            O.step()
            lim, tab = estimate(ts.timestepSafetyCoefficient, ts.viscEl)
            got, what = O.dt, '%s, step %d (iteration %d), after %s' % (desc, s, it, edit)
            cap = ts.maxDt if ts.maxDt > 0 else math.inf
            if ts.active:
                ctx.check(got > 0 and math.isfinite(got), 'step not positive', '%s: dt=%r' % (what, got))
                due = it % ts.timeStepUpdateInterval == 0 or not once or it < 2
                if lim is not None and due:
                    w = min(lim, cap, 1.05 * prev)
                    ctx.check(LOW * min(lim, cap / LOW, 1.05 * prev / LOW) * (1 - 1e-9) <= got <= w * (1 + 1e-9), 'automatic step',
                              '%s: dt=%r, the contacts present allow %r, maximum %r, last value %r' % (what, got, lim, cap, prev))
                    once, prev = True, got
                    ctx.observed((law, ts.viscEl, edit, 'cap' if w == cap else 'growth' if w < lim else 'contacts'))
                elif lim is None and not once:
                    w = min(dflt if dflt >= 0 else ts.timestepSafetyCoefficient * pw, cap)
                    ctx.check(close(got, w, 1e-9), 'default step', '%s: no contact yet, dt=%r instead of %r' % (what, got, w))
                    ctx.observed((law, 'default', dflt < 0, w == cap))
                else:
                    ctx.check(got == before or (lim is not None and got <= lim * (1 + 1e-9)), 'step between updates', '%s: dt=%r, before %r, contacts allow %r' % (what, got, before, lim))
                    ctx.observed((law, 'kept'))
            else:
                ctx.check(got == before, 'fixed step changed', '%s: fixed dt %r became %r' % (what, before, got))
                ctx.observed((law, 'fixed'))
            # an edit
            edit = rng.choice(['none', 'none', 'stiffness', 'mass', 'add', 'erase', 'maxDt', 'safety', 'fixed', 'auto', 'interval', 'move', 'viscous', 'inertia', 'block'])
            I = [i for i in O.interactions]
            S = [b for b in O.bodies if isinstance(b.shape, Sphere)]
            if edit == 'stiffness' and I:
                i = rng.choice(I); f = 10 ** rng.uniform(-1, 1)
                i.phys.kn *= f; i.phys.ks *= f
            elif edit == 'mass' and S: rng.choice(S).state.mass *= 10 ** rng.uniform(-1, 1)
            elif edit == 'inertia' and S: rng.choice(S).state.inertia *= 10 ** rng.uniform(-1, 1)
            elif edit == 'add': add_grain(rng, rng.choice(mats), rng.choice(S) if S else None)
            elif edit == 'erase' and S:
                b = rng.choice(S)
                if b.isStandalone: O.bodies.erase(b.id)
            elif edit == 'block' and S: rng.choice(S).state.blockedDOFs = rng.choice(['', 'x', 'xyzXYZ'])
            elif edit == 'maxDt': ts.maxDt = rng.choice([-1, 10 ** rng.uniform(-7, -3), 1e300])
            elif edit == 'safety': ts.timestepSafetyCoefficient = rng.uniform(0.1, 1)
            elif edit == 'fixed':
                O.dynDt = False
                O.dt = 10 ** rng.uniform(-7, -5)
            elif edit == 'auto': O.dt = -1
            elif edit == 'interval': ts.timeStepUpdateInterval = rng.choice([1, 2, 5])
            elif edit == 'viscous' and law == 'viscel': ts.viscEl = not ts.viscEl
            elif edit == 'move' and S: rng.choice(S).state.vel = rvec(rng, 5)
            if edit == 'fixed': ctx.check(O.dynDt is False and ts.active is False, 'dynDt', 'automatic step still on')
            if edit == 'auto': ctx.check(O.dynDt is True and ts.active is True, 'dynDt', 'automatic step not switched on by a negative dt')
            ctx.note('edits ' + edit)
    go(ctx)


def waves(ctx):
    """P-wave and Rayleigh estimates over mixed particles."""
    @each(ctx.args['n'])
    def go(ctx, case):
        rng = case.rng
        from yade import polyhedra_utils
        fresh()
        n = rng.randint(1, 15)
        P, R, Q = [], [], []
        kinds = []
        for _ in range(n):
            E, nu, rho = 10 ** rng.uniform(4, 11), rng.uniform(0, 0.5), 10 ** rng.uniform(2, 4)
            k = rng.choice(['sphere', 'sphere', 'sphere', 'clump', 'erased', 'box', 'facet', 'nonelastic', 'mass', 'polyhedron', 'fixed'])
            if k == 'polyhedron':
                m = PolyhedraMat(young=E, poisson=nu, density=rho)
                b = polyhedra_utils.polyhedra(m, size=Vector3(1, 1, 1) * rng.uniform(0.1, 1), seed=rng.randint(1, 10 ** 6))
                O.bodies.append(b)
                V = b.shape.GetVolume()
                Q.append((3 * V / (4 * math.pi)) ** (1 / 3.) / math.sqrt(E * (3 * V / (4 * math.pi)) ** (1 / 3.) / (b.state.mass / V)))
                kinds.append(k)
                continue
            m = Material(density=rho) if k == 'nonelastic' else rng.choice([FrictMat, ElastMat, CohFrictMat])(young=E, poisson=nu, density=rho)
            if k == 'box': O.bodies.append(utils.box(rvec(rng, 5), (1, 1, 1), material=m))
            elif k == 'facet': O.bodies.append(utils.facet([rvec(rng), rvec(rng), rvec(rng)], material=m))
            else:
                r = 10 ** rng.uniform(-3, 0)
                if k == 'clump': new = O.bodies.appendClumped([utils.sphere((0, 0, 0), r, material=m), utils.sphere((3 * r, 0, 0), r, material=m)])[1]
                else: new = [O.bodies.append(utils.sphere(rvec(rng, 5), r, material=m, fixed=k == 'fixed'))]
                if k == 'erased': O.bodies.erase(new[0]); kinds.append(k); continue
                if k == 'nonelastic': kinds.append(k); continue
                for i in new:
                    b = O.bodies[i]
                    if k == 'mass': b.state.mass *= rng.uniform(0.1, 10)
                    d = b.state.mass / (4 / 3. * math.pi * r ** 3)
                    P.append(r * math.sqrt(d / E))
                    R.append(math.pi * r / (0.1631 * nu + 0.8766) * math.sqrt(d * 2 * (1 + nu) / E))
            kinds.append(k)
        got = utils.PWaveTimeStep()
        ctx.check(close(got, min(P) if P else 1.0, 1e-9), 'P-wave step', '%s: %r instead of %r' % (kinds, got, min(P) if P else 1.0))
        if R:
            g2 = utils.RayleighWaveTimeStep()
            ctx.check(close(g2, min(R), 1e-4), 'Rayleigh step', '%s: %r instead of %r' % (kinds, g2, min(R)))
        g3 = polyhedra_utils.PWaveTimeStep()
        w3 = min(P + Q) if P + Q else 1.0
        ctx.check(close(g3, w3, 1e-9), 'P-wave step with polyhedra', '%s: %r instead of %r' % (kinds, g3, w3))
        r, d, E = 10 ** rng.uniform(-3, 0), 10 ** rng.uniform(2, 4), 10 ** rng.uniform(4, 11)
        ctx.check(close(utils.SpherePWaveTimeStep(r, d, E), r * math.sqrt(d / E), 1e-9), 'P-wave step of one sphere', '%r %r %r' % (r, d, E))
        ctx.observed(tuple(sorted(set(kinds))))
    go(ctx)


def order(ctx):
    """The same packing with its bodies in another order gives the same step."""
    @each(ctx.args['n'])
    def go(ctx, case):
        rng = case.rng
        seed = rng.randint(1, 10 ** 9)
        import random
        res = []
        for perm in range(3):
            r2 = random.Random(seed)
            fresh()
            m = FrictMat(young=10 ** r2.uniform(5, 9), poisson=r2.uniform(0.1, 0.5), density=2600); O.materials.append(m)
            sp = []
            for i in range(r2.randint(3, 30)):
                r = r2.uniform(0.05, 0.2)
                if sp:
                    p, q = r2.choice(sp); d = rvec(r2); d.normalize(); c = p + d * (q + r) * r2.uniform(0.98, 1.0)
                else: c = Vector3.Zero
                sp.append((c, r))
            if perm: rng.shuffle(sp)
            for c, r in sp: O.bodies.append(utils.sphere(c, r, material=m))
            O.engines = engines(r2, 'frict', GlobalStiffnessTimeStepper())
            O.step()
            res.append((O.dt, utils.PWaveTimeStep(), utils.RayleighWaveTimeStep()))
        for x in res[1:]: ctx.check(all(close(a, b, 1e-9) for a, b in zip(x, res[0])), 'depends on the order of bodies', '%d spheres: %r and %r' % (len(sp), res[0], x))
        ctx.observed(len(sp))
    go(ctx)


def scaling(ctx):
    """Density scaling: every body is made slow enough for the target step."""
    @each(ctx.args['n'])
    def go(ctx, case):
        rng = case.rng
        fresh()
        law = rng.choice(['frict', 'cohesive', 'mindlin'])
        build(rng, law, rng.randint(2, 25))
        ts = GlobalStiffnessTimeStepper(timestepSafetyCoefficient=rng.choice([0.8, 0.4]), targetDt=10 ** rng.uniform(-5, 0))
        O.engines = engines(rng, law, ts)
        O.engines[-1].densityScaling = True
        ctx.check(ts.densityScaling is True, 'density scaling not passed on', '')
        last = {}
        for s in range(rng.randint(2, 8)):
            O.step()
            ctx.check(close(O.dt, min(ts.targetDt, ts.maxDt), 1e-9), 'target step not used', 'dt=%r, target %r' % (O.dt, ts.targetDt))
            lim, tab = estimate(ts.timestepSafetyCoefficient, False)
            for b in O.bodies:
                if not b.dynamic or b.isClumpMember: continue
                f = b.state.densityScaling
                if b.id in tab:
                    w = (tab[b.id] / ts.targetDt) ** 2
                    if last.get(b.id, -1) > 0: w = min(w, last[b.id] * 1.05)
                    ctx.check(LOW ** 2 * w * (1 - 1e-9) <= f <= w * (1 + 1e-9), 'density scaling', '%s step %d body %d: factor %r instead of %r' % (law, s, b.id, f, w))
                    ctx.observed((law, s > 0, b.isClump))
                last[b.id] = f
            ctx.note('steps')
    go(ctx)


def applied(ctx):
    """The step reported is the one used: time advances by it and free particles move by it."""
    @each(ctx.args['n'])
    def go(ctx, case):
        rng = case.rng
        fresh()
        law = rng.choice(['frict', 'viscel', 'mindlin'])
        build(rng, law, rng.randint(2, 15))
        m = O.bodies[0].material
        far = O.bodies.append(utils.sphere((1e3, 1e3, 1e3), 0.1, material=m))
        v = rvec(rng); O.bodies[far].state.vel = v
        ts = GlobalStiffnessTimeStepper()
        O.engines = engines(rng, law, ts)
        O.engines[-1].gravity = Vector3.Zero; O.engines[-1].damping = 0
        for s in range(rng.randint(2, 10)):
            t, p = O.time, Vector3(O.bodies[far].state.pos)
            O.step()
            ctx.check(close(O.time - t, O.dt, 1e-7, 1e-15), 'time advance', 'time advanced by %r, step %r' % (O.time - t, O.dt))
            d = O.bodies[far].state.pos - p
            ctx.check(vclose(d, v * O.dt, 1e-12 * 1e3 + 1e-9 * O.dt), 'step not applied', 'free particle moved by %r, expected %r' % (d, v * O.dt))
            ctx.observed((law, s))
        # two steppers are an error, none makes automatic mode an error
        if rng.random() < 0.3:
            O.engines = O.engines + [GlobalStiffnessTimeStepper()]
            try: O.dt = -1; bad = True
            except RuntimeError: bad = False
            ctx.check(not bad, 'two time steppers accepted', '')
            O.engines = [e for e in O.engines if not isinstance(e, GlobalStiffnessTimeStepper)]
            try: O.dt = -1; bad = True
            except RuntimeError: bad = False
            ctx.check(not bad and not O.dynDtAvailable, 'automatic step without a stepper', '')
    go(ctx)
