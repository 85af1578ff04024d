"""The periodic cell: an independent integrator of base vectors and deformation gradient; wrapping round trips; homogeneous motion of particles."""
from common import *
import numpy as np

RULE = ('a case is a random cell with a random history of velocity gradients, or a random cell and point; each step (or point) is one evaluation; distinct = (kind, homoDeform, gradient class, changed, skewed, handedness, distance class of the point)')
ASSUMPTIONS = ['a point within rounding of a face may be returned on either face', 'the sign decisions of the numerical damping use a mean velocity half a step off and may differ between images: images are compared without damping', 'O.dt changed between two steps by the script affects cell and particles one step apart: not judged', 'without a NewtonIntegrator a new gradient is not taken up (documented)']


def plan(tier):
    k = 1 if tier == 'quick' else 10
    return [dict(func='deform', name='deform-%d' % i, args=dict(n=120 * k)) for i in range(3)] + [dict(func='deform', name='deform-t4', threads=4, args=dict(n=40 * k))] + \
           [dict(func='points', name='points-%d' % i, args=dict(n=300 * k)) for i in range(2)] + [dict(func='images', name='images', args=dict(n=80 * k)), dict(func='setters', name='setters', args=dict(n=100 * k))]


def N(m): return np.array([[m[i, j] for j in range(3)] for i in range(3)])
def M(a): return Matrix3(*[float(a[i, j]) for i in range(3) for j in range(3)])
def V(v): return np.array([v[0], v[1], v[2]])


def rcell(rng, skew=.4, scale=None):
    s = scale or rng.choice((1, 1, 1e-3, 100))
    h = np.diag([rng.uniform(2, 6) for _ in range(3)]) * s
    sk = rng.choice((0, skew, skew))
    if sk: h = h + np.array([[0 if i == j else rng.uniform(-sk, sk) * h[j][j] for j in range(3)] for i in range(3)])
    if rng.random() < .3:
        q = rquat(rng).toRotationMatrix(); h = N(q) @ h
    return h, s


def rgrad(rng):
    k = rng.choice(('zero', 'full', 'shear', 'iso', 'rot'))
    g = np.zeros((3, 3))
    a = rng.choice((.01, .3, 2))
    if k == 'full': g = np.array([[rng.uniform(-a, a) for _ in range(3)] for _ in range(3)])
    elif k == 'shear': i, j = rng.sample(range(3), 2); g[i, j] = a
    elif k == 'iso': g = np.eye(3) * rng.uniform(-a, a)
    elif k == 'rot': w = [rng.uniform(-a, a) for _ in range(3)]; g = np.array([[0, -w[2], w[1]], [w[2], 0, -w[0]], [-w[1], w[0], 0]])
    return k, g


def consistent(ctx, h, F, L, where):
    """Everything derived from the base vectors and the deformation gradient."""
    c = O.cell
    sc = np.abs(h).max()
    H, T = N(c.hSize), N(c.trsf)
    ctx.check(np.abs(H - h).max() <= 1e-10 * sc, 'hSize', lambda: '%s: base vectors %s, expected %s' % (where, H.tolist(), h.tolist()))
    ctx.check(np.abs(T - F).max() <= 1e-10 * np.abs(F).max(), 'trsf', lambda: '%s: deformation gradient %s, expected %s' % (where, T.tolist(), F.tolist()))
    ctx.check(np.abs(N(c.velGrad) - L).max() == 0, 'velGrad', lambda: '%s: gradient %s, expected %s' % (where, c.velGrad, L.tolist()))
    ctx.check(abs(c.volume - np.linalg.det(h)) <= 1e-10 * sc**3, 'volume', lambda: '%s: volume %g, expected %g' % (where, c.volume, np.linalg.det(h)))
    size = np.sqrt((h**2).sum(0))
    ctx.check(np.abs(V(c.size) - size).max() <= 1e-10 * sc, 'size', lambda: '%s: size %s, expected %s' % (where, c.size, size))
    ctx.check(np.abs(N(c.shearTrsf) - h / size).max() <= 1e-10, 'shearTrsf', lambda: '%s: %s, expected %s' % (where, c.shearTrsf, (h / size).tolist()))
    ctx.check(np.abs(N(c.unshearTrsf) @ (h / size) - np.eye(3)).max() <= 1e-9, 'unshearTrsf', lambda: '%s: %s' % (where, c.unshearTrsf))
    I = np.eye(3)
    U2 = F.T @ F
    al = np.abs(np.linalg.inv(F @ F.T)).max()
    for name, got, exp, tol in (('getSmallStrain', c.getSmallStrain(), .5 * (F + F.T) - I, 1e-10), ('getRCauchyGreenDef', c.getRCauchyGreenDef(), U2, 1e-10), ('getLCauchyGreenDef', c.getLCauchyGreenDef(), F @ F.T, 1e-10),
                           ('getLagrangianStrain', c.getLagrangianStrain(), .5 * (U2 - I), 1e-10), ('getEulerianAlmansiStrain', c.getEulerianAlmansiStrain(), .5 * (I - np.linalg.inv(F @ F.T)), 1e-8 * (1 + al)), ('getDefGrad', c.getDefGrad(), F, 1e-10)):
        ctx.check(np.abs(N(got) - exp).max() <= tol * (1 + np.abs(exp).max()), 'strain-' + name, lambda: '%s: %s = %s, expected %s' % (where, name, got, exp.tolist()))
    if np.linalg.det(F) > 1e-3:
        R, U = (N(x) for x in c.getPolarDecOfDefGrad())
        ctx.check(np.abs(R @ R.T - I).max() < 1e-8 and np.abs(U - U.T).max() < 1e-8 * np.abs(U).max() and np.abs(R @ U - F).max() < 1e-8 * np.abs(F).max() and min(np.linalg.eigvalsh(.5 * (U + U.T))) > 0, 'polar', lambda: '%s: R %s U %s of F %s' % (where, R.tolist(), U.tolist(), F.tolist()))
        ctx.check(np.abs(N(c.getRotation()) - R).max() < 1e-8 and np.abs(N(c.getLeftStretch()) - U).max() < 1e-8 * np.abs(U).max() and np.abs(N(c.getRightStretch()) @ R - F).max() < 1e-8 * np.abs(F).max(), 'polar-parts', where)
    w = V(c.getSpin())
    ctx.check(np.abs(w - .5 * np.array([L[2, 1] - L[1, 2], L[0, 2] - L[2, 0], L[1, 0] - L[0, 1]])).max() <= 1e-12 * (1 + np.abs(L).max()), 'spin', lambda: '%s: spin %s of %s' % (where, w, L.tolist()))
    h0 = np.linalg.solve(F, h)
    ctx.check(np.abs(N(c.hSize0) - h0).max() <= 1e-8 * np.abs(h0).max() * np.linalg.cond(F), 'hSize0', lambda: '%s: %s, expected %s' % (where, c.hSize0, h0.tolist()))


@each(20)
def deform(ctx, c):
    rng = c.rng
    fresh()
    O.periodic = True
    h, sc = rcell(rng)
    O.cell.hSize = M(h)
    F = np.eye(3)
    if rng.random() < .2:
        F = np.eye(3) + .2 * np.array([[rng.uniform(-1, 1) for _ in range(3)] for _ in range(3)]); O.cell.trsf = M(F)
    homo = O.cell.homoDeform = rng.choice((2, 2, 2, 1, 0))
    O.dt = rng.choice((1e-4, 1e-3, 1e-2))
    nb = rng.choice((1, 8))
    S = []
    for k in range(nb):
        s = np.array([rng.uniform(-2, 3) for _ in range(3)])
        b = utils.sphere(Vector3(*(h @ s)), .05 * sc, fixed=rng.random() < .2); O.bodies.append(b); S.append(s)
        if rng.random() < .2: b.state.blockedDOFs = 'XYZ'
    O.dt = min(O.dt, .02)
    vmx = 0.
    cmd = rng.random() < .3   # gradient changed by an engine before the integrator, or from the script
    O.engines = [ForceResetter(), NewtonIntegrator(damping=rng.choice((0, .4)))]
    if cmd:
        import __main__
        __main__._p09 = lambda: None
        O.engines = [O.engines[0], PyRunner(command='_p09()', iterPeriod=1, initRun=True), O.engines[1]]
    L = np.zeros((3, 3)); pend = None
    kind = 'zero'
    pos0 = [V(b.state.pos) for b in O.bodies]
    for s in range(rng.choice((10, 60))):
        change = s == 0 or rng.random() < .1
        if change:
            kind, pend = rgrad(rng)
            if cmd:
                g = M(pend)
                def f(g=g): O.cell.velGrad = g
                import __main__
                __main__._p09 = f
            else:
                O.cell.velGrad = M(pend)
                if rng.random() < .2:   # the last assignment counts
                    kind, pend = rgrad(rng); O.cell.velGrad = M(pend)
        if np.abs(F).max() > 50 or np.linalg.det(F) < .05: break
        prev = h.copy()
        O.step()
        h = h + O.dt * L @ h          # by the gradient known at the beginning of the step
        F = F + O.dt * L @ F
        if pend is not None: L, pend = pend, None
        where = 'case %d step %d (%s, homoDeform %d)' % (c.idx, s, kind, homo)
        consistent(ctx, h, F, L, where)
        ctx.check(np.abs(N(O.cell.prevHSize) - prev).max() <= 1e-10 * np.abs(h).max(), 'prevHSize', where)
        nxt = h + O.dt * L @ h        # where the cell will be when the particle positions just computed are used
        for b, s0, p0 in zip(O.bodies, S, pos0):
            p = V(b.state.pos)
            if homo == 2:
                e = nxt @ s0
                ctx.check(np.abs(p - e).max() <= 1e-9 * (np.abs(nxt) @ np.abs(s0)).max(), 'homogeneous', lambda: '%s: particle at %s, homogeneous deformation puts it at %s' % (where, p, e))
                v = L @ (h @ s0)
                vmx = max(vmx, (np.abs(L) @ np.abs(h) @ np.abs(s0)).max())
                ctx.check(np.abs(V(b.state.vel) - v).max() <= 1e-10 * vmx, 'mean-velocity', lambda: '%s: velocity %s, mean field %s' % (where, b.state.vel, v))
            elif homo == 0:
                ctx.check(np.abs(p - p0).max() == 0, 'no-homoDeform', lambda: '%s: particle moved from %s to %s' % (where, p0, p))
        ctx.observed((kind, homo, change, cmd, sc, ctx.spec.get('threads', 1)), 10 + nb)
    ctx.sample('%s homoDeform=%d cell %s' % (kind, homo, np.round(h, 3).tolist()))


@each(40)
def points(ctx, c):
    rng = c.rng
    fresh()
    O.periodic = True
    h, sc = rcell(rng, skew=rng.choice((.2, .9)))
    if abs(np.linalg.det(h)) < 1e-2 * np.prod(np.sqrt((h**2).sum(0))): return
    O.cell.hSize = M(h)
    size = np.sqrt((h**2).sum(0)); hn = h / size
    hi = np.linalg.inv(h)
    for k in range(20):
        far = rng.choice((1, 10, 1e4))
        s = np.array([rng.choice((rng.uniform(-far, far), rng.uniform(0, 1), float(rng.randint(-3, 3)))) for _ in range(3)])
        p = h @ s
        tol = 1e-9 * far
        w = V(O.cell.wrap(Vector3(*p)))
        sw = hi @ w
        d = s - sw
        where = 'point %s in cell %s' % (p.tolist(), h.tolist())
        ctx.check(sw.min() >= -tol and sw.max() <= 1 + tol, 'wrap-inside', lambda: '%s: wrapped to %s, relative %s' % (where, w, sw))
        ctx.check(np.abs(d - np.round(d)).max() <= tol, 'wrap-equivalent', lambda: '%s: wrapped to %s, %s periods away' % (where, w, d))
        w2 = V(O.cell.wrap(Vector3(*w)))
        d2 = hi @ (w2 - w)
        ctx.check(np.abs(d2 - np.round(d2)).max() <= tol, 'wrap-idempotent', lambda: '%s: %s then %s' % (where, w, w2))
        sh, un = V(O.cell.shearPt(Vector3(*p))), V(O.cell.unshearPt(Vector3(*p)))
        ctx.check(np.abs(sh - hn @ p).max() <= 1e-10 * np.abs(p).sum() + 1e-300, 'shear', lambda: '%s: sheared %s, expected %s' % (where, sh, hn @ p))
        ctx.check(np.abs(V(O.cell.unshearPt(Vector3(*sh))) - p).max() <= 1e-8 * np.abs(p).max() + 1e-300 and np.abs(V(O.cell.shearPt(Vector3(*un))) - p).max() <= 1e-8 * np.abs(p).max() + 1e-300, 'shear-roundtrip', where)
        q = V(O.cell.wrapPt(Vector3(*p)))
        for i in range(3):
            r = (p[i] - q[i]) / size[i]
            ctx.check(-tol * size[i] <= q[i] <= size[i] * (1 + tol) and abs(r - round(r)) <= 1e-9 * max(1, abs(r)), 'wrapPt', lambda: '%s: box-wrapped %s' % (where, q))
        ctx.observed(('point', far, sc, int(np.floor(s).clip(-2, 2).sum())), 6)


@each(20)
def images(ctx, c):
    """The same free and pushed particles stored in different images stay images of each other in a deforming cell."""
    rng = c.rng
    fresh()
    O.periodic = True
    h, sc = rcell(rng, scale=1)
    O.cell.hSize = M(h); O.cell.homoDeform = 2
    O.dt = rng.choice((1e-4, 1e-3))
    kind, L = rgrad(rng)
    O.cell.velGrad = M(L)
    pairs = []
    for k in range(4):
        s = np.array([rng.random() for _ in range(3)]); n = np.array([rng.randint(-3, 3) for _ in range(3)])
        v = rvec(rng, 1); w = rvec(rng, 1)
        ids = []
        for q in (s, s + n):
            b = utils.sphere(Vector3(*(h @ q)), .1); b.state.vel = v; b.state.angVel = w; ids.append(O.bodies.append(b))
        f = rvec(rng, 10)
        for i in ids: O.forces.setPermF(i, f)
        pairs.append((ids, n))
    O.engines = [ForceResetter(), NewtonIntegrator(damping=0, gravity=(0, 0, rng.choice((0, -5))))]
    for t in range(40):
        if t == 20: kind, L = rgrad(rng); O.cell.velGrad = M(L)
        if abs(np.linalg.det(h)) < 1: break
        O.step()
        h = N(O.cell.hSize)
        nxt = h + O.dt * L @ h
        for (i, j), n in pairs:
            d = V(O.bodies[j].state.pos) - V(O.bodies[i].state.pos)
            e = nxt @ n
            dv = V(O.bodies[j].state.vel) - V(O.bodies[i].state.vel)
            ctx.check(np.abs(d - e).max() <= 1e-8 * (1 + np.abs(e).max()), 'image-position', lambda: 'step %d: image %s periods away is at distance %s, should be %s' % (t, n, d, e))
            ctx.check(np.abs(dv - L @ (h @ n)).max() <= 1e-8 * (1 + np.abs(dv).max()), 'image-velocity', lambda: 'step %d: image %s periods away has relative velocity %s, should be %s' % (t, n, dv, L @ (h @ n)))
            ctx.check((O.bodies[j].state.angVel - O.bodies[i].state.angVel).norm() <= 1e-12 * (1 + O.bodies[i].state.angVel.norm()), 'image-spin', 'step %d' % t)
            ctx.observed(('image', kind, tuple(np.sign(n))), 3)


@each(20)
def setters(ctx, c):
    """Assignments to the cell from the script."""
    rng = c.rng
    fresh()
    O.periodic = True
    h, F, L = np.eye(3), np.eye(3), np.zeros((3, 3))
    hist = []
    for s in range(12):
        op = rng.choice(('hSize', 'setBox', 'setBox3', 'trsf', 'velGrad'))
        hist.append(op)
        if op == 'hSize': h, _ = rcell(rng); O.cell.hSize = M(h)
        elif op == 'setBox':
            v = [rng.uniform(.1, 9) for _ in range(3)]; O.cell.setBox(Vector3(*v)); h = np.diag(v); F = np.eye(3)
        elif op == 'setBox3':
            v = [rng.uniform(.1, 9) for _ in range(3)]; O.cell.setBox(*v); h = np.diag(v); F = np.eye(3)
        elif op == 'trsf':
            F = np.eye(3) + .3 * np.array([[rng.uniform(-1, 1) for _ in range(3)] for _ in range(3)]); O.cell.trsf = M(F)
            if abs(np.linalg.det(F)) < .05: F = np.eye(3); O.cell.trsf = M(F)
        elif op == 'velGrad':
            O.cell.velGrad = M(np.ones((3, 3)))   # deferred to the integrator
            ctx.check(N(O.cell.velGrad).max() == 0, 'deferred', 'velGrad active before the integrator ran')
        consistent(ctx, h, F, L, 'after ' + ' '.join(hist))
        ctx.observed((op, hist[-2] if s else ''))
