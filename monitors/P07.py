"""Laws of motion: an independent integrator predicts every body at every step."""
from common import *

RULE = ('a case is a random set of bodies (free, partly or fully blocked, undamped, masked out, aspherical, with prescribed displacements) under random permanent and contact forces, gravity, damping, open or in a deforming periodic cell; '
        'each body at each step is one evaluation (velocity, position, spin, orientation); distinct = (blocked axes, damped, masked, aspherical, cell mode, prescribed motion, damping, threads)')
ASSUMPTIONS = ['a sign of the numerical damping decided by rounding (velocity crossing zero within 1e-12) is not judged',
               'rotation of aspherical bodies is compared with a finely integrated rigid body to third order in spin times step',
               'bodies left out by NewtonIntegrator.mask do not move; their velocities are still updated (documented)']
AX = 'xyzXYZ'


def plan(tier):
    k = 1 if tier == 'quick' else 10
    jobs = [dict(func='predict', name='open-%d' % i, args=dict(n=60 * k)) for i in range(2)]
    jobs += [dict(func='predict', name='open-t%d' % t, threads=t, args=dict(n=25 * k)) for t in (2, 4)]
    jobs += [dict(func='predict', name='periodic-%d' % i, args=dict(n=60 * k, periodic=1)) for i in range(2)]
    jobs += [dict(func='contacts', name='contacts', args=dict(n=12 * k)), dict(func='tumble', name='tumble', args=dict(n=12 * k))]
    return jobs


def sgn(x): return (x > 0) - (x < 0)


def qmul(a, b):
    w, x, y, z = a; W, X, Y, Z = b
    return (w * W - x * X - y * Y - z * Z, w * X + x * W + y * Z - z * Y, w * Y - x * Z + y * W + z * X, w * Z + x * Y - y * X + z * W)


def qrot(q, v):
    p = qmul(qmul(q, (0, v[0], v[1], v[2])), (q[0], -q[1], -q[2], -q[3]))
    return Vector3(p[1], p[2], p[3])


def qinv(q): return (q[0], -q[1], -q[2], -q[3])


def qt(q): return (q[3], q[0], q[1], q[2])   # minieigen gives x,y,z,w


def qexp(r):
    a = r.norm()
    if a == 0: return (1., 0., 0., 0.)
    s = sin(a / 2) / a
    return (cos(a / 2), s * r[0], s * r[1], s * r[2])


def qnorm(q):
    n = sqrt(sum(x * x for x in q))
    return tuple(x / n for x in q)


def qdist(a, b):
    """Angle between two orientations."""
    d = qmul(qnorm(a), qinv(qnorm(b)))
    return 2 * sqrt(d[1]**2 + d[2]**2 + d[3]**2)


def rigid(q, L, M, I, dt, scale, n=8):
    """Orientation after dt of a body with angular momentum L (now) under the constant moment M, integrated finely."""
    h = dt / n

    def om(q, t):
        l = qrot(qinv(q), L + t * M)
        return qrot(q, Vector3(l[0] / I[0], l[1] / I[1], l[2] / I[2]) * scale)
    for k in range(n):
        t = k * h
        w1 = om(q, t)
        w2 = om(qmul(qexp(.5 * h * w1), q), t + .5 * h)
        q = qnorm(qmul(qexp(h * w2), q))
    return q


def setup_bodies(ctx, rng, n, periodic):
    B = []
    for i in range(n):
        kind = rng.choice(('sphere', 'sphere', 'box', 'asph'))
        if kind == 'box':
            b = utils.box(rvec(rng, 2), Vector3(rng.uniform(.1, .5), rng.uniform(.1, .5), rng.uniform(.1, .5)), fixed=False)
        else:
            b = utils.sphere(rvec(rng, 2), rng.uniform(.1, .5))
        O.bodies.append(b)
        s = b.state
        if kind == 'asph':
            s.inertia = Vector3(rng.uniform(.5, 2), rng.uniform(.5, 2), rng.uniform(.5, 2)) * rng.choice((.1, 1, 30))
        b.aspherical = kind == 'asph' or (kind == 'box' and rng.random() < .5)
        s.mass = rng.choice((s.mass, rng.uniform(.1, 100)))
        bl = rng.choice(('', '', '', 'xyzXYZ', None))
        if bl is None:
            bl = ''.join(a for a in AX if rng.random() < .4)
        if b.aspherical and any(a in bl for a in 'XYZ'):   # spins about one axis only: the case documented as exact
            bl = ''.join(a for a in bl if a in 'xyz') + rng.choice(('XY', 'XYZ'))
            a = rng.uniform(0, 6)
            s.ori = Quaternion(Vector3(0, 0, 1), a)
            s.angVel = Vector3(0, 0, rng.uniform(-3, 3))
        else:
            s.ori = rquat(rng)
            s.angVel = rvec(rng, rng.choice((0, 1, 20)))
        if b.aspherical:
            s.angMom = rvec(rng, rng.choice((0, 1, 10)) * s.inertia.norm())
        if rng.random() < .15 and kind == 'sphere':
            b.dynamic = False
            bl = 'xyzXYZ'
        else:
            s.blockedDOFs = bl
        s.vel = Vector3(rng.choice((0, rng.uniform(-3, 3))), rng.choice((0, rng.uniform(-3, 3))), rng.choice((0, rng.uniform(-30, 30))))
        s.isDamped = rng.random() < .8
        b.mask = rng.choice((1, 2, 3, 4, 5))
        if periodic: s.pos += O.cell.hSize * Vector3(rng.randint(-2, 2), rng.randint(-2, 2), rng.randint(-2, 2))
        B.append(b)
    return B


def snapshot(b):
    s = b.state
    return dict(pos=Vector3(s.pos), vel=Vector3(s.vel), ori=qt(s.ori), w=Vector3(s.angVel), L=Vector3(s.angMom), m=s.mass, I=Vector3(s.inertia), bl=s.blockedDOFs, damped=s.isDamped, asph=b.aspherical, mask=b.mask, scale=s.densityScaling)


def check_body(ctx, b, o, F, T, move, rot, E, where):
    """E: dt, gravity, damping, mask, exact, scaling, periodic, homo, prevG, dG."""
    dt, damp = E['dt'], E['damping'] if o['damped'] else 0.
    sc = o['scale'] if E['scaling'] else 1.
    moves = E['mask'] <= 0 or (o['mask'] & E['mask']) != 0
    s = b.state
    asph = E['exact'] and o['asph'] and not any(a in o['bl'] for a in 'XYZ')
    homo = E['homo'] if E['periodic'] else 0
    fluct = o['vel'] - E['prevG'] * o['pos'] if E['periodic'] else o['vel']
    v = list(o['vel']); amb = False
    allblocked = len(o['bl']) == 6
    vs = o['vel'].norm() + 1e-9
    for i in range(3):
        if AX[i] not in o['bl'] and not allblocked:
            a = (F[i] / o['m'] + E['gravity'][i]) * sc
            x = fluct[i] + .5 * dt * a
            if damp and abs(x) <= 1e-12 * (abs(o['vel'][i]) + abs((E['prevG'] * o['pos'])[i]) + abs(dt * a)) and a != 0 and x != 0:
                amb = True
            v[i] += dt * a * (1 - damp * sgn(a * x))
            vs += abs(dt * a)
    v = Vector3(*v)
    if homo > 1: v += dt * (E['prevG'] * o['vel'])
    pos = o['pos'] + move
    if homo:
        v += E['dG'] * pos
        vs += (E['dG'] * pos).norm() + (E['prevG'] * pos).norm()
    if not amb:
        ctx.check((s.vel - v).norm() <= 1e-11 * vs, 'velocity', lambda: '%s: body %d velocity %s -> %s, expected %s (force %s, mass %g, blocked %r, damped %s, %s)' % (where, b.id, o['vel'], s.vel, v, F, o['m'], o['bl'], o['damped'], E))
    p = pos + (dt * s.vel if moves else Vector3(0, 0, 0))
    ctx.check((s.pos - p).norm() <= 1e-12 * (p.norm() + vs * dt), 'position', lambda: '%s: body %d position %s -> %s, expected %s (velocity %s, mask %d, %s)' % (where, b.id, o['pos'], s.pos, p, s.vel, o['mask'], E))
    q = qt(s.ori)
    ctx.check(abs(sum(x * x for x in q) - 1) < 1e-10, 'unit-orientation', lambda: '%s: body %d orientation %s' % (where, b.id, q))
    dr = qexp(rot) if moves else (1., 0, 0, 0)
    if not asph:
        w = list(o['w']); amb = False
        for i in range(3):
            if AX[i + 3] not in o['bl']:
                a = T[i] / o['I'][i] * sc
                x = o['w'][i] + .5 * dt * a
                if damp and a and x and abs(x) <= 1e-12 * (abs(o['w'][i]) + abs(dt * a)):
                    amb = True
                w[i] += dt * a * (1 - damp * sgn(a * x))
        w = Vector3(*w)
        if homo:
            G = E['dG']
            w += .5 * Vector3(G[2, 1] - G[1, 2], G[0, 2] - G[2, 0], G[1, 0] - G[0, 1])
        ws = w.norm() + o['w'].norm() + 1e-9
        if not amb:
            ctx.check((s.angVel - w).norm() <= 1e-11 * ws, 'spin', lambda: '%s: body %d spin %s -> %s, expected %s (torque %s, inertia %s, blocked %r, %s)' % (where, b.id, o['w'], s.angVel, w, T, o['I'], o['bl'], E))
        q1 = qmul(dr, qmul(qexp(dt * s.angVel), o['ori']) if moves else o['ori'])
        ctx.check(qdist(q1, q) <= 3e-9, 'orientation', lambda: '%s: body %d orientation %s -> %s, expected %s (spin %s, mask %d, %s)' % (where, b.id, o['ori'], q, q1, s.angVel, o['mask'], E))
    else:
        M = Vector3(*[T[i] * (1 - damp * sgn(T[i] * o['w'][i])) for i in range(3)])
        L = o['L'] + dt * M
        ctx.check((s.angMom - L).norm() <= 1e-11 * (L.norm() + o['L'].norm() + dt * M.norm()), 'angular-momentum', lambda: '%s: body %d angular momentum %s -> %s, expected %s (torque %s, %s)' % (where, b.id, o['L'], s.angMom, L, T, E))
        Imin, Imax = min(o['I']), max(o['I'])
        wm = sc * (L.norm() + dt * M.norm()) / Imin * dt
        if wm < .05:
            q1 = qmul(dr, rigid(o['ori'], o['L'] + .5 * dt * M, M, o['I'], dt, sc) if moves else o['ori'])
            ctx.check(qdist(q1, q) <= 3 * wm**3 + wm * sc * dt * dt * M.norm() / Imin + 3e-9, 'orientation-aspherical', lambda: '%s: body %d orientation %s -> %s, expected %s (distance %g, angle per step %g, mask %d, %s)' % (where, b.id, o['ori'], q, q1, qdist(q1, q), wm, o['mask'], E))
            # spin at the middle of the step
            qm = qmul(dr, o['ori'])
            l = qrot(qinv(q), L)
            wexp = sc * qrot(q, Vector3(l[0] / o['I'][0], l[1] / o['I'][1], l[2] / o['I'][2]))
            ctx.check((s.angVel - wexp).norm() * dt <= 6 * wm**2 * Imax / Imin + wm * (2 * rot.norm()) + 1e-12, 'spin-aspherical', lambda: '%s: body %d spin %s, expected about %s (%s)' % (where, b.id, s.angVel, wexp, E))
    ctx.observed((o['bl'], damp > 0, moves, asph, homo, move.norm() > 0, E['scaling'], ctx.spec.get('threads', 1)), 4)


@each(20)
def predict(ctx, c):
    rng = c.rng
    fresh()
    per = bool(ctx.args.get('periodic'))
    O.dt = rng.choice((1e-4, 1e-3, 1e-2))
    if per:
        O.periodic = True
        O.cell.hSize = Matrix3(rng.uniform(3, 6), rng.uniform(-1, 1), rng.uniform(-1, 1), rng.uniform(-1, 1), rng.uniform(3, 6), rng.uniform(-1, 1), rng.uniform(-1, 1), rng.uniform(-1, 1), rng.uniform(3, 6))
        O.cell.homoDeform = rng.choice((0, 1, 2, 2))
    B = setup_bodies(ctx, rng, rng.choice((3, 20, 60)), per)
    nw = NewtonIntegrator(damping=rng.choice((0, .2, .7)), gravity=rng.choice(((0, 0, 0), (0, 0, -9.81), tuple(rvec(rng, 5)))), mask=rng.choice((-1, -1, 1, 2, 6)), exactAsphericalRot=rng.random() < .85)
    ts = GlobalStiffnessTimeStepper(dead=True, active=False)
    O.engines = [ForceResetter(), ts, nw]
    scaling = rng.random() < .25
    if scaling:
        nw.densityScaling = True
        ts.densityScaling = False
        for b in B: b.state.densityScaling = rng.choice((1, .3, 2.5))
    PF, PT = {}, {}
    Z = Matrix3.Zero
    G, newG = Z, None
    if per:
        newG = Matrix3(*[rng.uniform(-.3, .3) for _ in range(9)]); O.cell.velGrad = newG
    useMove = rng.random() < .4
    for s in range(25):
        ctx.mark('%d step %d' % (c.idx, s))
        for b in B:
            if rng.random() < .3 or s == 0:
                k = rng.choice((0, 1, 100))
                PF[b.id] = rvec(rng, k); PT[b.id] = rvec(rng, .1 * k)
                O.forces.setPermF(b.id, PF[b.id]); O.forces.setPermT(b.id, PT[b.id])
        mv, rt = {}, {}
        if useMove:
            for b in B:
                if rng.random() < .3: mv[b.id] = rvec(rng, .05)
                if rng.random() < .3: rt[b.id] = rvec(rng, .3)
            # added after the resetter of the previous step, removed by the next one: use a runner between the resetter and the integrator
            def go():
                for i, x in mv.items(): O.forces.addMove(i, x)
                for i, x in rt.items(): O.forces.addRot(i, x)
            import __main__
            __main__._p07 = go
            if len(O.engines) == 3:
                O.engines = [O.engines[0], O.engines[1], PyRunner(command='_p07()', iterPeriod=1, initRun=True), O.engines[2]]
        if per and s and rng.random() < .2:
            newG = rng.choice((Z, Matrix3(*[rng.uniform(-.3, .3) for _ in range(9)])))
            O.cell.velGrad = newG
        if rng.random() < .1: O.dt *= rng.choice((.5, 2, 1))
        if rng.random() < .05:   # a body released, blocked, or changed in the middle of the run
            b = rng.choice(B)
            if not b.aspherical: b.state.blockedDOFs = ''.join(a for a in AX if rng.random() < .5)
            b.state.vel = rvec(rng, 2)
            b.state.mass *= rng.choice((.5, 1, 3))
        old = dict((b.id, snapshot(b)) for b in B)
        O.step()
        prevG = G
        if newG is not None: G = newG
        E = dict(dt=O.dt, gravity=nw.gravity, damping=nw.damping, mask=nw.mask, exact=nw.exactAsphericalRot, scaling=scaling, periodic=per, homo=O.cell.homoDeform if per else 0, prevG=prevG, dG=G - prevG)
        for b in B:
            check_body(ctx, b, old[b.id], PF[b.id], PT[b.id], mv.get(b.id, Vector3(0, 0, 0)), rt.get(b.id, Vector3(0, 0, 0)), E, 'case %d step %d' % (c.idx, s))
    ctx.sample('%d bodies, damping %g, mask %d' % (len(B), nw.damping, nw.mask))


@each(10)
def contacts(ctx, c):
    """Forces of real contacts, read back after the step, explain the motion; bodies added and erased meanwhile."""
    rng = c.rng
    fresh()
    n = 40
    for i in range(n):
        b = utils.sphere(rvec(rng, 1.2), rng.uniform(.15, .3), fixed=rng.random() < .15)
        b.state.vel = rvec(rng, 1); b.state.angVel = rvec(rng, 1)
        if not b.state.blockedDOFs and rng.random() < .2: b.state.blockedDOFs = rng.choice(('xXYZ', 'z', 'XY', 'xyz'))
        O.bodies.append(b)
    O.materials[0].young = 1e6
    nw = NewtonIntegrator(damping=rng.choice((0, .3)), gravity=(0, 0, rng.choice((0, -10))))
    O.engines = frict_engines(newton=nw)
    O.dt = .3 * utils.PWaveTimeStep()
    for s in range(30):
        if rng.random() < .1:
            i = rng.randrange(len(O.bodies))
            if O.bodies[i]: O.bodies.erase(i)
        old = dict((b.id, snapshot(b)) for b in O.bodies)
        O.step()
        E = dict(dt=O.dt, gravity=nw.gravity, damping=nw.damping, mask=-1, exact=True, scaling=False, periodic=False, homo=0, prevG=Matrix3.Zero, dG=Matrix3.Zero)
        for b in O.bodies:
            check_body(ctx, b, old[b.id], O.forces.f(b.id), O.forces.t(b.id), Vector3(0, 0, 0), Vector3(0, 0, 0), E, 'contacts case %d step %d' % (c.idx, s))


@each(6)
def tumble(ctx, c):
    """A free tumbling body keeps angular momentum and rotational energy; its orientation agrees with a fine integration."""
    rng = c.rng
    fresh()
    B = []
    for k in range(5):
        b = utils.sphere((3 * k, 0, 0), 1); O.bodies.append(b)
        b.aspherical = True
        b.state.inertia = (rng.uniform(1, 2), rng.uniform(1, 2), rng.uniform(1, 2))
        b.state.ori = rquat(rng); b.state.angMom = rvec(rng, 2)
        B.append(b)
    O.dt = 5e-3
    O.engines = [ForceResetter(), NewtonIntegrator(damping=0)]
    Ls = [Vector3(b.state.angMom) for b in B]; Q = [qt(b.state.ori) for b in B]

    def energy(b, L):
        l = qrot(qinv(qt(b.state.ori)), L); I = b.state.inertia
        return .5 * sum(l[i]**2 / I[i] for i in range(3))
    E0 = [energy(b, L) for b, L in zip(B, Ls)]
    N = 400
    O.run(N, True)
    for b, L, q, e in zip(B, Ls, Q, E0):
        I = b.state.inertia
        ctx.observed(('tumble', [int(10 * x) for x in I]), 3)
        ctx.check((b.state.angMom - L).norm() <= 1e-12 * L.norm(), 'tumble-momentum', '%s -> %s' % (L, b.state.angMom))
        w = L.norm() / min(I)
        tol = 5 * (w * O.dt)**2 * w * O.dt * N
        ctx.check(abs(energy(b, L) - e) <= tol * e, 'tumble-energy', lambda: 'energy %g -> %g after %d steps, inertia %s' % (e, energy(b, L), N, I))
        q1 = rigid(q, L, Vector3(0, 0, 0), I, O.dt * N, 1., 4 * N)
        ctx.check(qdist(q1, qt(b.state.ori)) <= max(1e-3, 5 * tol), 'tumble-orientation', lambda: 'orientation %s, expected %s, off by %g (tolerance %g)' % (qt(b.state.ori), q1, qdist(q1, qt(b.state.ori)), tol))
