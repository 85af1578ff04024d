"""Imposed motions and loads: paths, forces and servo targets recomputed independently at every step."""
from common import *
import math
try:
    import numpy as np
except ImportError:
    np = None

RULE = ('a case is one run of randomly configured engines on random bodies; after every step the velocity, place and force of every body (or the shape of the sample) is compared with what the engines prescribe; '
        'distinct = (engine, options, phase of the history)')
ASSUMPTIONS = ['a body is listed once per engine', 'interpolation tables are not empty and increasing', 'servo loops are judged with the rate limits, the reported values and the target held within a tolerance',
               'the walls of the triaxial box are boxes added in the documented order']


def plan(tier):
    k = 1 if tier == 'quick' else 12
    return [dict(func='kinematic', name='kinematic-a', args=dict(n=260 * k)), dict(func='kinematic', name='kinematic-b', args=dict(n=260 * k)), dict(func='kinematic', name='kinematic-threads', threads=4, args=dict(n=120 * k)),
            dict(func='forces', name='forces', args=dict(n=500 * k)), dict(func='forces', name='forces-threads', threads=4, args=dict(n=150 * k)), dict(func='pid', name='pid', args=dict(n=300 * k)),
            dict(func='uniax', name='uniax', args=dict(n=300 * k)), dict(func='triax', name='triax', args=dict(n=60 * k), timeout=600), dict(func='peritriax', name='peritriax', args=dict(n=60 * k), timeout=600),
            dict(func='peri3d', name='peri3d', args=dict(n=120 * k)), dict(func='hold', name='hold', args=dict(n=3 * k), timeout=600)]


def unit(rng):
    while True:
        v = rvec(rng)
        if v.norm() > 0.1: return v / v.norm()


def axis_of(rng):
    v = rng.choice([unit(rng), Vector3(1, 0, 0), Vector3(0, 0, 1), Vector3(0, 0, -1), Vector3(0, 1, 0)])
    return v * rng.choice([1, 1, 3.5, 0.2])


def interp(t, tt, vv):
    return float(np.interp(t, tt, vv))


def wrapped(t, tt):
    p = tt[-1] - tt[0]
    return tt[0] + (t - tt[0]) - p * math.floor((t - tt[0]) / p)


def table(rng, dt):
    n = rng.choice([1, 2, 2, 3, 6])
    t, tt = rng.uniform(-3, 6) * dt, []
    for _ in range(n):
        tt.append(t); t += rng.uniform(0.3, 6) * dt
    return tt, [rng.uniform(-5, 5) for _ in tt]


class Motion:
    """One engine with an independent statement of the velocities it prescribes."""
    def __init__(self, rng, dt):
        k = self.kind = rng.choice(['translation', 'rotation', 'around', 'helix', 'ihelix', 'harmonic', 'harmrot', 'pedal'])
        self.axis = axis_of(rng); self.n = self.axis / self.axis.norm()
        self.w, self.v, self.c = rng.uniform(-20, 20), rng.uniform(-5, 5), rvec(rng)
        self.turned = 0.; self.phase = None
        if k == 'translation': self.e = TranslationEngine(velocity=self.v, translationAxis=self.axis)
        elif k == 'rotation': self.e = RotationEngine(angularVelocity=self.w, rotationAxis=self.axis)
        elif k == 'around': self.e = RotationEngine(angularVelocity=self.w, rotationAxis=self.axis, rotateAroundZero=True, zeroPoint=self.c)
        elif k == 'helix': self.e = HelixEngine(angularVelocity=self.w, rotationAxis=self.axis, linearVelocity=self.v, zeroPoint=self.c)
        elif k == 'ihelix':
            self.tt, self.vv = table(rng, dt); self.slope = rng.uniform(-2, 2); self.wrap = len(self.tt) > 1 and rng.random() < 0.5
            self.e = InterpolatingHelixEngine(times=self.tt, angularVelocities=self.vv, slope=self.slope, wrap=self.wrap, rotationAxis=self.axis, zeroPoint=self.c)
        elif k == 'harmonic':
            self.A, self.f, self.fi = rvec(rng), Vector3(*[rng.choice([0, rng.uniform(0, 3)]) for _ in range(3)]), rvec(rng, 4)
            self.e = HarmonicMotionEngine(A=self.A, f=self.f, fi=self.fi)
        elif k == 'harmrot':
            self.A, self.f, self.fi = rng.uniform(-3, 3), rng.uniform(0, 3), rng.uniform(-4, 4); self.around = rng.random() < 0.5
            self.e = HarmonicRotationEngine(A=self.A, f=self.f, fi=self.fi, rotationAxis=self.axis, rotateAroundZero=self.around, zeroPoint=self.c)
        else:
            self.r = rng.uniform(0.1, 2)
            self.e = BicyclePedalEngine(angularVelocity=self.w, rotationAxis=self.axis, radius=self.r, fi=rng.uniform(-4, 4))

    def change(self, rng):
        """The user changes a parameter during the run."""
        if self.kind in ('translation', 'helix'):
            self.v = rng.uniform(-5, 5); setattr(self.e, 'velocity' if self.kind == 'translation' else 'linearVelocity', self.v)
        if self.kind in ('rotation', 'around', 'helix'): self.w = rng.uniform(-20, 20); self.e.angularVelocity = self.w
        if self.kind in ('around', 'helix', 'rotation') and rng.random() < 0.5:
            self.axis = axis_of(rng); self.n = self.axis / self.axis.norm(); self.e.rotationAxis = self.axis

    def omega(self, t):
        if self.kind in ('rotation', 'around', 'helix'): return self.w
        if self.kind == 'ihelix': return interp(wrapped(t, self.tt) if self.wrap else t, self.tt, self.vv)
        if self.kind == 'harmrot': return -self.A * 2 * math.pi * self.f * math.sin(2 * math.pi * self.f * t + self.fi)
        return 0.

    def velocity(self, x, t, dt):
        w = self.omega(t)
        v = Vector3(0, 0, 0)
        if self.kind == 'translation': v += self.n * self.v
        if self.kind == 'harmonic': v += Vector3(*[-self.A[a] * 2 * math.pi * self.f[a] * math.sin(2 * math.pi * self.f[a] * t + self.fi[a]) for a in range(3)])
        if self.kind == 'helix': v += self.n * self.v
        if self.kind == 'ihelix': v += self.n * (w * self.slope)
        if self.kind in ('around', 'helix', 'ihelix') or (self.kind == 'harmrot' and self.around):
            l = x - self.c
            par = self.n * l.dot(self.n); per = l - par          # rotation of the arm about the axis by w·dt
            v += (par + per * math.cos(w * dt) + self.n.cross(per) * math.sin(w * dt) - l) / dt
        return v, self.n * w


def sphere(rng, **kw):
    return utils.sphere(rvec(rng, 3), rng.uniform(0.05, 0.3), **kw)


def kinematic(ctx):
    @each(ctx.args['n'])
    def go(ctx, case):
        rng = case.rng
        fresh()
        dt = O.dt = 10 ** rng.uniform(-4, -1.3)
        O.materials.append(FrictMat())
        N = rng.choice([3, 6, 12, 40])
        for i in range(N):
            b = sphere(rng); b.state.vel, b.state.angVel, b.state.ori = rvec(rng), rvec(rng), rquat(rng)
            O.bodies.append(b)
        allids = list(range(N))
        clump = None
        if N >= 6 and rng.random() < 0.5:
            clump = O.bodies.clump(rng.sample(allids, rng.randint(2, 3)))
        members = [] if clump is None else [int(m) for m in O.bodies[clump].shape.members.keys()]
        free = [i for i in allids if i not in members] + ([clump] if clump is not None else [])
        for i in free: O.bodies[i].state.blockedDOFs = 'xyzXYZ' if rng.random() < 0.85 else ''
        motions = [Motion(rng, dt) for _ in range(rng.randint(1, 3))]
        for m in motions: m.ids = rng.sample(free, rng.randint(1, len(free)))
        extra = []
        if rng.random() < 0.3: extra = rng.sample([N + 5000, -1, -7, 10 ** 9], 1)   # ids that belong to no body
        comb = None
        if len(motions) > 1 and rng.random() < 0.5:
            comb = motions[0].e + motions[1].e
            for m in motions[2:]: comb = comb + m.e
            for m in motions: m.ids = motions[0].ids
            comb.ids = motions[0].ids + extra
        for m in motions: m.e.ids = m.ids + extra
        newton = NewtonIntegrator(damping=rng.choice([0, 0.4]), exactAsphericalRot=rng.random() < 0.5)
        O.engines = ([ForceResetter()] + ([comb] if comb else [m.e for m in motions]) + [newton])
        forced = [i for i in free if O.bodies[i].state.blockedDOFs]
        if forced and rng.random() < 0.5:
            for i in rng.sample(forced, min(3, len(forced))):   # blocked bodies do not react to loads
                O.forces.setPermF(i, rvec(rng, 100)); O.forces.setPermT(i, rvec(rng, 100))
        erased = None
        desc = '%s%s on %d bodies%s' % ('+'.join(m.kind for m in motions), ' combined' if comb else '', N, ' (clump)' if clump is not None else '')
        steps = rng.randint(3, 15)
        path = {}
        for s in range(steps):
            t = O.time
            if rng.random() < 0.15:
                m = rng.choice(motions); m.change(rng)
            if rng.random() < 0.1:
                m = rng.choice(motions); m.e.dead = not m.e.dead
            if erased is None and rng.random() < 0.1 and N > 3:
                c = [i for i in free if i != clump]
                erased = rng.choice(c); O.bodies.erase(erased); free = [i for i in free if i != erased]
            before = {b.id: (Vector3(b.state.pos), Quaternion(b.state.ori), Vector3(b.state.vel), Vector3(b.state.angVel)) for b in O.bodies}
            ctx.mark('%s step %d' % (desc, s))
            O.step()
            for i in free:
                x, q, v0, w0 = before[i]
                st = O.bodies[i].state
                v, w = v0, w0
                active = [m for m in motions if i in m.ids and not m.e.dead]
                pedal = Vector3(0, 0, 0); uncertain = False
                if comb:
                    if i in comb.ids: v, w = Vector3(0, 0, 0), Vector3(0, 0, 0)
                    for m in active:
                        a, b = m.velocity(x, t, dt); v += a; w += b
                        uncertain |= m.kind == 'pedal'
                elif active:
                    m = active[-1]                       # a motion replaces what was set before
                    v, w = m.velocity(x, t, dt); uncertain = m.kind == 'pedal'
                tol = 1e-9 * (1 + vmax(v)) + 1e-13 * (1 + vmax(x)) / dt
                if uncertain:
                    ped = [m for m in active if m.kind == 'pedal']
                    if len(ped) > 1 and comb: continue
                    m = ped[-1]; d = Vector3(st.vel) - v
                    L = 2 * m.r * abs(math.sin(m.w * dt / 2)) / dt
                    ctx.check(abs(d.norm() - L) <= tol + 1e-9 * L and abs(d.dot(m.n)) <= tol + 1e-9 * L, 'pedal velocity', '%s: body %d moves at %s, circle of radius %r at %r rad/s about %s' % (desc, i, d, m.r, m.w, m.axis))
                    if m.phase is not None and m.phase[0] == s - 1:
                        p = m.phase[1]; a = m.w * dt
                        want = p * math.cos(a) + m.n.cross(p) * math.sin(a)
                        ctx.check((d - want).norm() <= tol + 1e-8 * L, 'pedal path', '%s: body %d moves at %s, expected %s' % (desc, i, d, want))
                        ctx.observed(('pedal path', bool(comb)))
                    m.now = (s, d)
                    v = v + d
                ctx.check(vclose(st.vel, v, tol), 'prescribed velocity', '%s, step %d: body %d has velocity %s, prescribed %s' % (desc, s, i, st.vel, v))
                ctx.check(vclose(st.angVel, w, 1e-9 * (1 + vmax(w))) or (i == clump or not O.bodies[i].state.blockedDOFs), 'prescribed spin', '%s, step %d: body %d has angular velocity %s, prescribed %s' % (desc, s, i, st.angVel, w))
                ctx.check(vclose(st.pos, x + v * dt, 1e-12 * (1 + vmax(x) + vmax(v) * dt) + tol * dt), 'prescribed path', '%s, step %d: body %d is at %s, expected %s' % (desc, s, i, st.pos, x + v * dt))
                if O.bodies[i].state.blockedDOFs and i != clump:
                    a = w.norm() * dt
                    h = Quaternion(w / w.norm() if a > 0 else Vector3(1, 0, 0), a) * q
                    dq = abs(h[0] * st.ori[0] + h[1] * st.ori[1] + h[2] * st.ori[2] + h[3] * st.ori[3])
                    ctx.check(abs(dq - 1) < 1e-9, 'prescribed orientation', '%s, step %d: body %d has orientation %s, expected %s' % (desc, s, i, st.ori, h))
                for m in active: ctx.observed((m.kind, bool(comb), clump == i, 'blocked' if O.bodies[i].state.blockedDOFs else 'free'))
                if not active: ctx.observed(('not listed', bool(comb)))
            for m in motions:
                if m.kind == 'pedal' and hasattr(m, 'now') and m.now[0] == s: m.phase = m.now
                if m.kind in ('helix', 'ihelix') and not m.e.dead:
                    m.turned += m.omega(t) * dt
                    ctx.check(abs(m.e.angleTurned - m.turned) < 1e-9 * (1 + abs(m.turned)), 'angle turned', '%s: %r reported, %r turned' % (desc, m.e.angleTurned, m.turned))
    go(ctx)


def drive_list(rng, N):
    l = rng.sample(range(N), rng.randint(0, N))
    if rng.random() < 0.3: l += rng.sample([N + 3, N + 100, -1, -12], rng.randint(1, 2))
    return l


def forces(ctx):
    @each(ctx.args['n'])
    def go(ctx, case):
        rng = case.rng
        fresh()
        dt = O.dt = 10 ** rng.uniform(-4, -1)
        O.materials.append(FrictMat(density=rng.uniform(100, 5000)))
        N = rng.choice([2, 5, 12, 30])
        for i in range(N):
            b = sphere(rng, mask=rng.randint(1, 7)) if rng.random() < 0.85 else utils.box(rvec(rng, 3), (0.1, 0.2, 0.3), mask=rng.randint(1, 7))
            b.state.vel = rng.choice([Vector3(0, 0, 0), rvec(rng, 4)])
            O.bodies.append(b)
        if N >= 5 and rng.random() < 0.5: O.bodies.clump(rng.sample(range(N), 3))
        M = len(O.bodies)
        if N >= 5 and rng.random() < 0.5: O.bodies.erase(rng.choice([b.id for b in O.bodies if not b.isClump and not b.isClumpMember]))
        eng, law = [], []
        for _ in range(rng.randint(1, 4)):
            k = rng.choice(['force', 'torque', 'iforce', 'radial', 'drag', 'ldrag', 'gravity', 'central', 'axial', 'displace'])
            l = drive_list(rng, M); f = rvec(rng, 100)
            p = dict(k=k, ids=l, f=f)
            if k == 'force': e = ForceEngine(ids=l, force=f)
            elif k == 'torque': e = TorqueEngine(ids=l, moment=f)
            elif k == 'iforce':
                p['tt'], p['vv'] = table(rng, dt); p['wrap'] = len(p['tt']) > 1 and rng.random() < 0.5; p['d'] = axis_of(rng)
                e = InterpolatingDirectedForceEngine(ids=l, times=p['tt'], magnitudes=p['vv'], wrap=p['wrap'], direction=p['d'])
            elif k == 'radial': p['a'], p['c'], p['n'] = axis_of(rng), rvec(rng), rng.uniform(-50, 50); e = RadialForceEngine(ids=l, axisPt=p['c'], axisDir=p['a'], fNorm=p['n'])
            elif k == 'drag': p['rho'], p['cd'] = rng.uniform(0, 1000), rng.uniform(0, 2); e = DragEngine(ids=l, Rho=p['rho'], Cd=p['cd'])
            elif k == 'ldrag': p['nu'] = rng.uniform(0, 10); e = LinearDragEngine(ids=l, nu=p['nu'])
            elif k == 'displace':
                p['mov'], p['rot'], p['sv'] = rvec(rng), rquat(rng), rng.random() < 0.5
                e = StepDisplacer(ids=l, mov=p['mov'], rot=p['rot'], setVelocities=p['sv'])
            else:
                p['mask'] = rng.choice([0, 0, 1, 2, 4, 6]); p['g'] = rvec(rng, 20); p['acc'] = rng.uniform(-20, 20)
                if k == 'gravity': e = GravityEngine(gravity=p['g'], mask=p['mask'], warnOnce=False)
                elif k == 'central':
                    c = rng.choice([b.id for b in O.bodies if not b.isClump]); p['c'], p['r'] = c, rng.random() < 0.5
                    e = CentralGravityEngine(centralBody=c, accel=p['acc'], reciprocal=p['r'], mask=p['mask'])
                else: p['a'], p['c'] = axis_of(rng), rvec(rng); e = AxialGravityEngine(axisPoint=p['c'], axisDirection=p['a'], acceleration=p['acc'], mask=p['mask'])
            eng.append(e); law.append(p)
        O.engines = [ForceResetter()] + eng
        desc = '+'.join(p['k'] for p in law)
        for s in range(rng.randint(1, 5)):
            F, T = np.zeros((M, 3)), np.zeros((M, 3)); t = O.time
            alive = {b.id: b for b in O.bodies}
            pos = {i: Vector3(b.state.pos) for i, b in alive.items()}; ori = {i: Quaternion(b.state.ori) for i, b in alive.items()}
            vel = {i: Vector3(b.state.vel) for i, b in alive.items()}; av = {i: Vector3(b.state.angVel) for i, b in alive.items()}
            for p in law:
                k = p['k']; listed = [i for i in p['ids'] if i in alive]
                for i in listed:
                    if k == 'force': F[i] += p['f']
                    elif k == 'torque': T[i] += p['f']
                    elif k == 'iforce': F[i] += np.array(p['d'] / p['d'].norm()) * interp(wrapped(t, p['tt']) if p['wrap'] else t, p['tt'], p['vv'])
                    elif k == 'radial':
                        n = p['a'] / p['a'].norm(); d = pos[i] - p['c']; d = d - n * d.dot(n)
                        F[i] += np.array(d / d.norm()) * p['n']
                    elif k in ('drag', 'ldrag') and isinstance(alive[i].shape, Sphere):
                        r, v = alive[i].shape.radius, vel[i]
                        F[i] += np.array(v * (-0.5 * p['rho'] * math.pi * r * r * p['cd'] * v.norm()) if k == 'drag' else v * (-6 * math.pi * p['nu'] * r))
                    elif k == 'displace':
                        if p['sv']:
                            vel[i] = p['mov'] / dt
                            ax, an = p['rot'].toAxisAngle() if hasattr(p['rot'], 'toAxisAngle') else (None, None)
                            if an is not None and an > math.pi: ax, an = -ax, 2 * math.pi - an
                            av[i] = ax * (an / dt)
                        else: pos[i] = pos[i] + p['mov']; ori[i] = p['rot'] * ori[i]
                if k in ('gravity', 'central', 'axial'):
                    for i, b in alive.items():
                        if b.isClump or (p['mask'] and not (b.mask & p['mask'])): continue
                        m = b.state.mass
                        if k == 'gravity': F[i] += np.array(p['g']) * m
                        elif k == 'central':
                            if i == p['c']: continue
                            d = pos[p['c']] - pos[i]; d = np.array(d / d.norm()) * p['acc'] * m
                            F[i] += d
                            if p['r']: F[p['c']] -= d
                        else:
                            n = p['a'] / p['a'].norm(); d = p['c'] - pos[i]; d = d - n * d.dot(n)
                            F[i] += np.array(d / d.norm()) * p['acc'] * m
            ctx.mark('%s step %d' % (desc, s))
            O.step()
            for i, b in alive.items():
                if b.isClump:      # members hand their forces over only when motion is integrated
                    own = F[i]
                    got = np.array(O.forces.f(i, sync=True))
                    ctx.check(np.abs(got - own).max() <= 1e-9 * (1 + np.abs(F).max() * 5), 'force on a clump', '%s: clump %d receives %s, expected %s' % (desc, i, got, own)); continue
                got, tq = np.array(O.forces.f(i, sync=True)), np.array(O.forces.t(i, sync=True))
                ctx.check(np.abs(got - F[i]).max() <= 1e-9 * (1 + np.abs(F).max()), 'prescribed force', '%s, step %d: body %d receives %s, prescribed %s' % (desc, s, i, got, F[i]))
                ctx.check(np.abs(tq - T[i]).max() <= 1e-9 * (1 + np.abs(T).max()), 'prescribed torque', '%s, step %d: body %d receives %s, prescribed %s' % (desc, s, i, tq, T[i]))
                ctx.check(vclose(b.state.pos, pos[i], 1e-9) and vclose(b.state.vel, vel[i], 1e-9 * (1 + vmax(vel[i]))) and vclose(b.state.angVel, av[i], 1e-7 * (1 + vmax(av[i]))), 'state', '%s: body %d at %s moving at %s spinning %s, expected %s %s %s' % (desc, i, b.state.pos, b.state.vel, b.state.angVel, pos[i], vel[i], av[i]))
                ctx.check(abs(abs(sum(b.state.ori[j] * ori[i][j] for j in range(4))) - 1) < 1e-9, 'orientation', '%s: body %d has %s, expected %s' % (desc, i, b.state.ori, ori[i]))
            ctx.check(len(O.bodies) == M, 'number of bodies', '%s: %d' % (desc, len(O.bodies)))
            for p in law: ctx.observed((p['k'], p.get('mask'), p.get('wrap'), len(p['ids']) > 0))
            if rng.random() < 0.3:
                p, e = rng.choice(list(zip(law, eng)))
                if p['k'] == 'force': p['f'] = rvec(rng); e.force = p['f']
                elif p['k'] in ('radial', 'drag', 'torque', 'ldrag', 'iforce'): p['ids'] = drive_list(rng, M); e.ids = p['ids']
            if rng.random() < 0.3:
                b = O.bodies[rng.choice(list(alive))]
                if not b.isClump and not b.isClumpMember: b.state.vel = rvec(rng)
    go(ctx)


def pid(ctx):
    @each(ctx.args['n'])
    def go(ctx, case):
        rng = case.rng
        fresh()
        O.dt = 10 ** rng.uniform(-5, -2)
        O.materials.append(FrictMat())
        N = rng.randint(2, 8)
        for i in range(N):
            b = sphere(rng); b.state.blockedDOFs = 'xyzXYZ'; O.bodies.append(b)
        l = rng.sample(range(N), rng.randint(1, N)) + ([N + 4] if rng.random() < 0.2 else [])
        ax = axis_of(rng); n = ax / ax.norm()
        e = ServoPIDController(axis=ax, maxVelocity=rng.choice([1, -1]) * rng.uniform(0.1, 5), target=rng.uniform(0, 100), kP=rng.uniform(-1, 1), kI=rng.uniform(-0.1, 0.1), kD=rng.uniform(-0.5, 0.5), iterPeriod=rng.choice([1, 1, 2, 5]), ids=l)
        for i in range(N): O.forces.setPermF(i, rvec(rng, 40))
        first = rng.random() < 0.5
        O.engines = [ForceResetter(), e, NewtonIntegrator(damping=0)] if first else [ForceResetter(), NewtonIntegrator(damping=0), e]
        I, prev, last, vel = 0., 0., None, 0.
        if first: O.forces.f(0, sync=True)
        for s in range(rng.randint(3, 20)):
            it = O.iter
            ctx.mark('pid step %d first=%r' % (s, first))
            old = {i: Vector3(O.bodies[i].state.vel) for i in range(N)}
            O.step()
            if last is None or it - last >= e.iterPeriod:
                F = sum((O.forces.permF(i) for i in l if i < N), Vector3(0, 0, 0))
                err = Vector3(*[F[a] * n[a] for a in range(3)]).norm() - e.target
                I += err * e.kI
                vel = err * e.kP + I + (err - prev) * e.kD
                prev, last = err, it
                if abs(vel) > abs(e.maxVelocity): vel = math.copysign(abs(e.maxVelocity), vel)
                ctx.observed(('pid update', abs(vel) == abs(e.maxVelocity), first))
                ctx.check(abs(e.errorCur - err) < 1e-9 * (1 + abs(err)), 'reported error', '%r, expected %r' % (e.errorCur, err))
            ctx.check(abs(e.curVel - vel) < 1e-9 * (1 + abs(vel)), 'controller velocity', 'step %d: %r, expected %r' % (s, e.curVel, vel))
            for i in range(N):
                want = n * vel if i in l else Vector3(0, 0, 0)
                ctx.check(vclose(O.bodies[i].state.vel, want, 1e-9 * (1 + abs(vel))), 'controlled velocity', 'step %d: body %d moves at %s, expected %s' % (s, i, O.bodies[i].state.vel, want))
                ctx.check(O.bodies[i].state.vel.norm() <= abs(e.maxVelocity) * (1 + 1e-12), 'maximum velocity', 'body %d moves at %s, limit %r' % (i, O.bodies[i].state.vel, e.maxVelocity))
            if rng.random() < 0.2: e.target = rng.uniform(0, 100)
            if rng.random() < 0.2: O.forces.setPermF(rng.randrange(N), rvec(rng, 40))
    go(ctx)


def uniax(ctx):
    @each(ctx.args['n'])
    def go(ctx, case):
        rng = case.rng
        fresh()
        dt = O.dt = 10 ** rng.uniform(-4, -2)
        O.materials.append(FrictMat())
        ax = rng.randrange(3)
        N = rng.randint(6, 15)
        for i in range(N):
            b = sphere(rng); p = Vector3(b.state.pos); p[ax] = i * 0.7; b.state.pos = p
            O.bodies.append(b)
        k = rng.randint(1, 2)
        neg, pos = list(range(k)), list(range(N - 1, N - 1 - k, -1))
        asym = rng.choice([-1, 0, 0, 1]); sign = rng.choice([-1, 1])
        L0 = O.bodies[pos[0]].state.pos[ax] - O.bodies[neg[0]].state.pos[ax]
        steps = rng.randint(10, 60)
        rate = sign * rng.uniform(0.001, 0.2) / (steps * dt)
        e = UniaxialStrainer(axis=ax, asymmetry=asym, negIds=neg, posIds=pos, crossSectionArea=rng.uniform(0.1, 3), blockDisplacements=rng.random() < 0.5, blockRotations=rng.random() < 0.5, stressUpdateInterval=rng.choice([1, 3]))
        absolute = rng.random() < 0.3
        if absolute: e.absSpeed = rate * L0
        else: e.strainRate = rate
        ramp = 0
        mode = rng.choice(['speeds', 'ramp', 'none'])
        if mode == 'speeds': e.setSpeeds = True
        elif mode == 'none': e.initAccelTime = 0
        else: ramp = rng.uniform(1, 20) * dt; e.initAccelTime = rng.choice([ramp, -ramp / dt])
        what = rng.choice(['stop', 'limit', 'plain', 'stop'])
        lim = rate * dt * rng.uniform(2, steps)
        if what == 'stop': e.stopStrain = lim
        if what == 'limit': e.limitStrain = lim
        perm = {i: rvec(rng, 10) for i in neg + pos}
        for i, f in perm.items(): O.forces.setPermF(i, f)
        O.engines = [ForceResetter(), e, NewtonIntegrator(damping=0)]
        desc = 'axis %d asymmetry %d rate %r %s %s%s' % (ax, asym, rate, mode, what, ' absolute' if absolute else '')
        x0 = {i: O.bodies[i].state.pos[ax] for i in neg + pos}
        cur, dirn, stopped = 0., 1, False
        length = L0
        for s in range(steps):
            t, it = O.time, O.iter
            ctx.mark('%s step %d' % (desc, s))
            O.step()
            r = rate * dirn
            if ramp and t < ramp: r *= t / ramp
            d = 0 if stopped else r * L0 * dt
            if what == 'stop' and not stopped and (length + d) / L0 - 1 != 0 and abs((length + d) / L0 - 1) >= abs(lim) * (1 - 1e-12) and ((length + d) / L0 - 1) * lim > 0:
                d = L0 * (1 + lim) - length; last = True
            else: last = False
            start, length = length, length + d
            new = O.bodies[pos[0]].state.pos[ax] - O.bodies[neg[0]].state.pos[ax]
            ctx.check(abs(new - length) <= 1e-9 * L0, 'imposed strain', '%s, step %d: length %r, prescribed %r (strain %r, rate limit %r)' % (desc, s, new, length, new / L0 - 1, rate))
            length = new
            for i in neg + pos:
                sh = {-1: -1 if i in neg else 0, 0: -0.5 if i in neg else 0.5, 1: 0 if i in neg else 1}[asym]
                want = x0[i] + sh * (length - L0)
                ctx.check(abs(O.bodies[i].state.pos[ax] - want) <= 1e-9 * L0, 'moved boundary', '%s, step %d: body %d at %r, expected %r' % (desc, s, i, O.bodies[i].state.pos[ax], want))
                blocked = O.bodies[i].state.blockedDOFs
                ctx.check(set('xyz' if e.blockDisplacements else 'xyz'[ax]) <= set(blocked) and (set('XYZ') <= set(blocked)) == e.blockRotations, 'blocked directions', '%s: body %d has %r' % (desc, i, blocked))
            if not stopped:
                ctx.check(abs(e.strain - (start / L0 - 1)) <= 1e-9, 'reported strain', '%s, step %d: %r, expected %r' % (desc, s, e.strain, start / L0 - 1))
                if it % e.stressUpdateInterval == 0:
                    want = (sum(perm[i][ax] for i in neg) - sum(perm[i][ax] for i in pos)) / (2 * e.crossSectionArea)
                    ctx.check(abs(e.avgStress - want) <= 1e-9 * (1 + abs(want)), 'reported stress', '%s: %r, expected %r' % (desc, e.avgStress, want))
            if what == 'limit' and dirn == 1 and abs(start / L0 - 1) > abs(lim): dirn = -1
            ctx.observed((mode, what, asym, sign, dirn, stopped or last))
            if last:
                ctx.check(abs(new / L0 - 1 - lim) <= 1e-9 and not e.active, 'stop strain', '%s: stopped at %r, requested %r' % (desc, new / L0 - 1, lim))
                stopped = True
                for i in neg + pos: O.bodies[i].state.vel = Vector3(0, 0, 0)
    go(ctx)


def box_sample(rng, fill=True):
    """Six boxes in the documented order around loose spheres."""
    O.materials.append(FrictMat(young=1e6, poisson=0.4, frictionAngle=rng.choice([0, 0.3, 0.6]), density=2600))
    size = Vector3(*[rng.uniform(0.8, 1.6) for _ in range(3)])
    O.bodies.append(utils.aabbWalls([(0, 0, 0), size], thickness=0))
    if fill:
        sp = pack.SpherePack()
        sp.makeCloud((0, 0, 0), size, rMean=0.12, rRelFuzz=0.2, num=80, seed=rng.randint(1, 10 ** 6))
        for c, r in sp.toList(): O.bodies.append(utils.sphere(c, r))
    return size


WALLS = ['left', 'right', 'bottom', 'top', 'back', 'front']


def triax(ctx):
    """Walls of the triaxial box."""
    @each(ctx.args['n'])
    def go(ctx, case):
        rng = case.rng
        fresh()
        size = box_sample(rng, rng.random() < 0.7)
        loads = len(O.bodies) == 6
        O.dt = 0.3 * (utils.PWaveTimeStep() if not loads else 1e-3)
        mask = rng.choice([7, 0, 1, 2, 4, 3, 5, 6])
        e = TriaxialStressController(internalCompaction=False, stressMask=mask, max_vel=rng.choice([0.01, 0.1, 1]), stressDamping=rng.choice([0.25, 0.25, 0, 0.6]), strainDamping=rng.choice([0.99, 0.5, 0]), thickness=0,
                                     computeStressStrainInterval=rng.choice([1, 1, 4]), stiffnessUpdateInterval=rng.choice([1, 10]))
        act = {}
        for w in WALLS:
            act[w] = rng.random() < 0.85; setattr(e, 'wall_%s_activated' % w, act[w])
        goal = [0, 0, 0]
        def set_goals():
            for a in range(3):
                goal[a] = -rng.uniform(100, 5000) if mask & (1 << a) else rng.choice([0, rng.uniform(-0.5, 0.5)])
                setattr(e, 'goal%d' % (a + 1), goal[a])
        set_goals()
        if loads:
            for i in range(6): O.forces.setPermF(i, rvec(rng, 2000))
        O.engines = frict_engines(newton=NewtonIntegrator(damping=0.2))[:3] + [e, NewtonIntegrator(damping=0.2)]
        if rng.random() < 0.3: O.engines = O.engines[:3] + [GlobalStiffnessTimeStepper(timestepSafetyCoefficient=0.6, defaultDt=O.dt)] + O.engines[3:]
        desc = 'mask %d damping %r/%r' % (mask, e.stressDamping, e.strainDamping)
        vprev = np.zeros(6); dtprev = O.dt
        work = 0.; moved = np.zeros(6); L0 = None
        strong = None
        for s in range(rng.randint(5, 60)):
            x = np.array([list(O.bodies[i].state.pos) for i in range(6)])
            v0 = np.array([list(O.bodies[i].state.vel) for i in range(6)])
            it = O.iter
            ctx.mark('%s step %d' % (desc, s))
            O.step()
            dt = O.dt
            L = np.array([x[1][0] - x[0][0], x[3][1] - x[2][1], x[5][2] - x[4][2]])
            if L0 is None: L0 = L
            area = [L[1] * L[2], L[0] * L[2], L[0] * L[1]]
            F = np.array([list(O.forces.f(i)) for i in range(6)])
            v = np.array([list(O.bodies[i].state.vel) for i in range(6)])
            for i, w in enumerate(WALLS):
                a = i // 2; inward = 1 if i % 2 == 0 else -1
                cap = 3 * L[a] / L.sum() * e.max_vel
                lateral = [v[i][b] for b in range(3) if b != a]
                ctx.check(lateral == [0, 0], 'wall moves sideways', '%s: %s wall has velocity %s' % (desc, w, v[i]))
                if not act[w]:
                    ctx.check(not v[i].any(), 'inactive wall', '%s: %s wall moves at %s' % (desc, w, v[i])); ctx.observed((w, 'inactive'))
                    continue
                if mask & (1 << a):
                    # inward push while the sample pushes back less than the target, limited in speed, with the documented memory
                    need = inward * (F[i][a] - inward * goal[a] * area[a])
                    tr = (v[i][a] * dt - 0.8 * moved[i]) * inward
                    lim = (1 - e.stressDamping) * cap * dt
                    ctx.check(abs(tr) <= lim * (1 + 1e-6) + 1e-9 * cap * dt, 'wall faster than allowed', '%s: %s wall moves %r, limit %r' % (desc, w, tr, lim))
                    if abs(need) > 1e-9 and e.stressDamping < 1 and abs(tr) > 1e-9 * cap * dt:
                        ctx.check(tr * need > 0, 'wall moves away from the target', '%s, step %d: %s wall moves %r inwards, missing force %r' % (desc, s, w, tr, need))
                    if loads: ctx.check(abs(abs(tr) - lim) <= 1e-6 * lim, 'wall without contact', '%s: %s wall moves %r, expected the maximum %r' % (desc, w, tr, lim))
                    moved[i] = v[i][a] * dt
                    ctx.observed((w, 'stress', 'max' if abs(tr) > 0.999 * lim else 'controlled', need > 0))
                else:
                    want = v0[i][a] + (-inward * 0.5 * goal[a] * L[a] - v0[i][a]) * (1 - e.strainDamping)
                    ctx.check(abs(v[i][a] - want) <= 1e-9 * (1 + abs(want)), 'strain rate', '%s: %s wall moves at %r, expected %r' % (desc, w, v[i][a], want))
                    ctx.observed((w, 'strain', goal[a] != 0))
                work += v[i].dot(F[i]) * dt
            ctx.check(abs(e.externalWork - work) <= 1e-9 * (abs(work) + 1) + 1e-6 * abs(work), 'external work', '%s, step %d: %r, expected %r' % (desc, s, e.externalWork, work))
            if it % e.computeStressStrainInterval == 0:
                got = [np.array(e.stress(j)) for j in range(6)]
                want = [(1 if j % 2 == 0 else -1) * F[j] / area[j // 2] for j in range(6)]      # positive in tension
                for j in range(6):
                    ctx.check(np.abs(got[j] - want[j]).max() <= 1e-9 * (1 + np.abs(want[j]).max()), 'reported stress', '%s: boundary %d reports %s, expected %s' % (desc, j, got[j], want[j]))
                mean = (F[0][0] / area[0] - F[1][0] / area[0] + F[2][1] / area[1] - F[3][1] / area[1] + F[4][2] / area[2] - F[5][2] / area[2]) / 6
                ctx.check(abs(e.meanStress - mean) <= 1e-9 * (1 + abs(mean)), 'mean stress', '%s: %r, expected %r' % (desc, e.meanStress, mean))
                st = np.log(L / L0)
                ctx.check(np.abs(np.array(e.strain) - st).max() < 1e-9, 'reported strain', '%s: %s, expected %s' % (desc, e.strain, st))
                vol = sum(4 / 3. * math.pi * b.shape.radius ** 3 for b in O.bodies if isinstance(b.shape, Sphere))
                ctx.check(abs(e.porosity - (1 - vol / L.prod())) < 1e-6, 'porosity', '%s: %r, expected %r' % (desc, e.porosity, 1 - vol / L.prod()))
            if rng.random() < 0.1: set_goals()
    go(ctx)


def peri_sample(rng, num=30, r=0.1):
    O.materials.append(FrictMat(young=1e6, poisson=0.4, frictionAngle=rng.choice([0, 0.3]), density=2600))
    O.periodic = True
    size = Vector3(*[rng.uniform(1, 1.6) for _ in range(3)])
    O.cell.setBox(size)
    sp = pack.SpherePack()
    sp.makeCloud((0, 0, 0), size, rMean=r, rRelFuzz=0.2, num=num, periodic=True, seed=rng.randint(1, 10 ** 6))
    for c, r in sp.toList(): O.bodies.append(utils.sphere(c, r))
    O.dt = 0.3 * utils.PWaveTimeStep()
    return size


def peritriax(ctx):
    """Strain goals, rate limits and reported values of the periodic triaxial controller."""
    @each(ctx.args['n'])
    def go(ctx, case):
        rng = case.rng
        fresh()
        peri_sample(rng)
        dt = O.dt
        mask = rng.choice([0, 0, 1, 2, 4, 5, 3])
        gd = rng.choice([0.25, 0.25, 0.6])
        rate = Vector3(*[rng.uniform(0.5, 10) for _ in range(3)])
        goal = Vector3(*[-rng.uniform(10, 1000) if mask & (1 << a) else rng.uniform(-1, 1) * rate[a] * dt * 40 for a in range(3)])
        e = PeriTriaxController(goal=goal, stressMask=mask, maxStrainRate=rate, growDamping=gd, globUpdate=rng.choice([1, 1, 3, 5]), dynCell=rng.random() < 0.3, maxUnbalanced=rng.choice([1e-4, 1e30]), mass=rng.choice([0.1, 2]))
        O.engines = frict_engines()[:3] + [e, NewtonIntegrator(damping=0.2)]
        hit = []
        yade._p23 = hit
        e.doneHook = 'import yade; yade._p23.append(O.iter)'
        desc = 'mask %d goal %s rate %s dynCell %r' % (mask, goal, rate, e.dynCell)
        strains = [a for a in range(3) if not mask & (1 << a)]
        work = 0.
        off0 = np.array(O.cell.velGrad)
        for s in range(160):
            n = len(hit)
            ctx.mark('%s step %d' % (desc, s))
            O.step()
            vg = np.array([[O.cell.velGrad[a, b] for b in range(3)] for a in range(3)])
            for a in range(3):
                ctx.check(abs(vg[a][a]) <= rate[a] * (1 + 1e-12), 'strain rate limit', '%s, step %d: rate %r along %d, limit %r' % (desc, s, vg[a][a], a, rate[a]))
            off = vg - np.diag(np.diag(vg))
            ctx.check(not off.any(), 'no shear', '%s: velocity gradient %s' % (desc, vg.tolist()))
            # the strain reported is that of the cell (exact at each update, one step of prediction otherwise)
            eps = np.array([math.log(O.cell.trsf[a, a]) for a in range(3)])
            pred = eps + np.array([vg[a][a] * dt for a in range(3)])
            slack = 3 * e.globUpdate * (np.array([rate[a] for a in range(3)]) * dt) ** 2 * 10 + 1e-12
            ctx.check((np.abs(np.array(e.strain) - pred) <= slack + np.array(rate) * dt * 0 + 1e-9).all() or e.globUpdate > 1, 'reported strain', '%s, step %d: %s reported, cell at %s' % (desc, s, e.strain, pred))
            if len(hit) > n:
                for a in strains:
                    ctx.check(abs(eps[a] - goal[a]) <= 1e-4 * abs(goal[a]) + 2e-6 + 2 * abs(vg[a][a]) * dt, 'goal reported but not reached', '%s: strain %s when the hook ran' % (desc, eps))
                ctx.observed(('hook', mask, e.dynCell))
            ctx.observed((mask, e.dynCell, e.globUpdate, [abs(vg[a][a]) >= rate[a] * 0.999 for a in range(3)].count(True)))
        eps = np.array([math.log(O.cell.trsf[a, a]) for a in range(3)])
        for a in strains:
            tol = max(2e-3 * abs(goal[a]), 1e-9) if not e.dynCell else max(1e-6 * abs(goal[a]), 1e-9)
            ctx.check(abs(eps[a] - goal[a]) <= tol, 'strain goal', '%s: strain along %d is %r after %d steps' % (desc, a, eps[a], 160))
            ctx.observed(('strain goal', e.dynCell, goal[a] > 0))
    go(ctx)


def hold(ctx):
    """A stress target is reached and held."""
    @each(ctx.args['n'])
    def go(ctx, case):
        rng = case.rng
        fresh()
        peri_sample(rng, 160, 0.08)
        target = -rng.uniform(5000, 20000)
        e = PeriTriaxController(goal=(target, target, target), stressMask=7, maxStrainRate=(10, 10, 10), dynCell=True, mass=0.5, globUpdate=1, maxUnbalanced=0.05, relStressTol=0.02)
        O.engines = frict_engines()[:3] + [e, NewtonIntegrator(damping=0.3)]
        hit = yade._p23 = []
        e.doneHook = 'import yade; yade._p23.append(O.iter)'
        for s in range(200):
            ctx.mark('loading %d' % s)
            O.run(100, True)
            if hit: break
        ctx.check(bool(hit), 'target never reached', 'goal %r, stress %s after %d steps' % (target, e.stress, O.iter))
        st = utils.getStress()
        O.run(500, True)
        for a in range(3):
            s = utils.getStress()[a, a]
            ctx.check(abs(s - target) <= 0.1 * abs(target), 'target not held', 'goal %r along %d, stress %r' % (target, a, s))
            ctx.check(abs(e.stress[a] - s) <= 0.05 * abs(target), 'reported stress', '%r, measured %r' % (e.stress[a], s))
        ctx.observed(('held', O.iter // 2000))
    go(ctx)


def voigt(v):
    return np.array([[v[0], v[5] / 2, v[4] / 2], [v[5] / 2, v[1], v[3] / 2], [v[4] / 2, v[3] / 2, v[2]]])


def peri3d(ctx):
    """Prescribed strain paths of the general periodic controller."""
    @each(ctx.args['n'])
    def go(ctx, case):
        rng = case.rng
        fresh()
        peri_sample(rng, 8)
        dt = O.dt
        n = rng.choice([10, 17, 40, 49, 100])
        goal = [rng.choice([0, rng.uniform(-0.1, 0.1)]) for _ in range(6)]
        curved = n >= 40 and rng.random() < 0.7           # parts of a path shorter than a step cannot be followed
        e = Peri3dController(goal=goal, stressMask=0, nSteps=n)
        paths = {}
        for j, nm in enumerate(['xx', 'yy', 'zz', 'yz', 'zx', 'xy']):
            if curved and rng.random() < 0.6:
                k = rng.randint(1, 4); t, p = 0, []
                for _ in range(k):
                    t += rng.randint(1, 5); p.append((float(t), rng.choice([0.5, 1., -1., 2.])))
                setattr(e, nm + 'Path', [Vector2(*q) for q in p])
                T = p[-1][0]; scale = goal[j] / p[-1][1]
                paths[j] = [(0., 0.)] + [(q[0] / T, q[1] * scale) for q in p]
            else: paths[j] = [(0., 0.), (1., goal[j])]
        limit = rng.random() < 0.3
        # the largest rate anywhere on the paths
        top = max(max(abs((q[1] - p[1]) / (q[0] - p[0])) for p, q in zip(paths[j], paths[j][1:])) for j in range(6)) / (n * dt)
        if limit and top > 0: e.maxStrainRate = top * rng.uniform(0.3, 0.9)
        O.engines = frict_engines()[:3] + [e, NewtonIntegrator(damping=0.2)]
        desc = 'goal %s in %d steps%s' % (['%.3g' % g for g in goal], n, ' limited' if limit else '')
        k = 0
        while not e.dead and k < 5 * n + 50:
            ctx.mark('%s step %d' % (desc, k))
            O.step(); k += 1
            r = max(abs(x) for x in e.strainRate)
            ctx.check(r <= e.maxStrainRate * (1 + 1e-12), 'strain rate limit', '%s: rate %r, limit %r' % (desc, r, e.maxStrainRate))
            if not limit:
                kk = k          # after the k-th activation the path has been followed up to k/n
                want = np.array([np.interp(kk / float(n), [p[0] for p in paths[j]], [p[1] for p in paths[j]]) for j in range(6)])
                slack = 1.5 * top * dt * (1 + 1e-9) if any(len(p) > 2 for p in paths.values()) else 1e-9
                ctx.check(np.abs(np.array(e.strain) - want).max() <= slack, 'strain path', '%s, step %d: strain %s, prescribed %s' % (desc, k, e.strain, want.tolist()))
            ctx.observed((limit, sorted(len(p) for p in paths.values())[-1], n))
        ctx.check(e.dead, 'does not end', '%s: progress %r after %d steps' % (desc, e.progress, k))
        if not limit:
            ctx.check(k == n, 'number of steps', '%s: finished after %d steps' % (desc, k))
        O.step()
        slack = (1e-9 if all(len(p) == 2 for p in paths.values()) else 1.5 * top * dt) if not limit else 1.5 * top * dt
        got = np.array([[O.cell.trsf[a, b] for b in range(3)] for a in range(3)]) - np.eye(3)
        sym = 0.5 * (got + got.T)
        ctx.check(np.abs(got - voigt(goal)).max() <= slack + 1e-9, 'final strain', '%s: the cell is deformed by %s, prescribed %s' % (desc, got.tolist(), voigt(goal).tolist()))
    go(ctx)
