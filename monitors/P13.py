"""Elastic-frictional contact law: two driven spheres against an independent incremental model, and against themselves seen by another observer."""
from common import *

RULE = ('a case drives two spheres (random radii, materials, sizes of step) through a random history of approach, shear, rolling, twist, separation and return; every step is one evaluation of normal force, shear force, '
        'forces and torques on both bodies, and of the dissipated energy; distinct = (new/old contact, sticking/sliding, ratcheting option, energy tracing, periodic image, friction source, refR source)')
ASSUMPTIONS = ['the incremental rule is the documented one: first-order rotation of the shear force with the normal and the mean twist',
               'comparison of the whole history seen by a rotated, translated or order-swapped observer to 1e-7 of the largest force']


def plan(tier):
    k = 1 if tier == 'quick' else 12
    return [dict(func='model', name='model-%d' % i, args=dict(n=150 * k)) for i in range(3)] + \
           [dict(func='model', name='periodic', args=dict(n=120 * k, periodic=1)),
            dict(func='observer', name='observer', args=dict(n=150 * k)),
            dict(func='materials', name='materials', args=dict(n=150 * k)),
            dict(func='against', name='walls', args=dict(n=120 * k)),
            dict(func='many', name='many-t1', args=dict(n=5 * k)), dict(func='many', name='many-t4', threads=4, args=dict(n=5 * k)),
            dict(func='local', name='local', args=dict(n=60 * k))]


def rmat(rng, label):
    return FrictMat(young=10**rng.uniform(4, 8), poisson=rng.uniform(.05, .5), frictionAngle=rng.choice((0, .05, .3, .6, 1.2)) if rng.random() < .6 else rng.uniform(0, 1), density=1000, label=label)


def engines(ratchet, never, trace, geoms=None):
    law = Law2_ScGeom_FrictPhys_CundallStrack(neverErase=never, traceEnergy=trace, label='law')
    ip = Ip2_FrictMat_FrictMat_FrictPhys()
    O.engines = [ForceResetter(), InsertionSortCollider([Bo1_Sphere_Aabb(), Bo1_Box_Aabb(), Bo1_Facet_Aabb(), Bo1_Wall_Aabb()], verletDist=.1),
                 InteractionLoop(geoms or [Ig2_Sphere_Sphere_ScGeom(avoidGranularRatcheting=ratchet)], [ip], [law]), NewtonIntegrator(damping=0)]
    return law, ip


class Path:
    """Random piecewise-constant velocities of two bodies that keep the pair near contact (but also separates it now and then)."""

    def __init__(self, rng, r1, r2, dt):
        self.rng, self.r, self.dt = rng, (r1, r2), dt
        self.t = 0
        self.v = [Vector3(0, 0, 0)] * 2; self.w = [Vector3(0, 0, 0)] * 2

    def next(self, d):
        """d: vector from body 1 to body 2 (nearest image)."""
        rng = self.rng
        if self.t == 0:
            self.t = rng.randint(1, 12)
            sp = min(self.r) / self.dt
            # size of a step relative to the radius: small enough that contact is not lost at once
            a = 10**rng.uniform(-5, -2) * sp
            self.v = [rvec(rng, a), rvec(rng, a)]
            self.w = [rvec(rng, 10**rng.uniform(-4, -1.5) / self.dt) if rng.random() < .7 else Vector3(0, 0, 0) for _ in range(2)]
            m = rng.choice(('free', 'approach', 'leave', 'tangent', 'still'))
            n = d / d.norm()
            gap = d.norm() - sum(self.r)
            if gap > .02 * min(self.r) or gap < -.4 * min(self.r): m = 'correct'
            rel = self.v[1] - self.v[0]
            vn = rel.dot(n)
            want = dict(free=vn, approach=-abs(vn), leave=abs(vn), tangent=0., still=vn, correct=(-.05 * min(self.r) - gap) / (self.t * self.dt))[m]
            self.v[1] = self.v[1] + (want - vn) * n
            if m == 'still': self.v = [Vector3(0, 0, 0)] * 2
        self.t -= 1
        return self.v, self.w


def step_model(C, ratchet, r1, r2, x1, x2, v1, v2, w1, w2, dt, shiftVel, never):
    """Updates C (dict with n, Fs, diss or {}) and returns force on body 1, torques; None when no contact."""
    d = x2 - x1
    dist = d.norm(); n = d / dist
    un = r1 + r2 - dist
    if un < 0:
        if not C: return None
        if not never:
            C.clear(); return None
        C['Fs'] = Vector3(0, 0, 0)
    new = not C
    if new: C.update(Fs=Vector3(0, 0, 0), Fn=0, slide=0, new=1)
    else:
        C['new'] = 0
        Fs, no = C['Fs'], C['n']
        Fs = Fs - Fs.cross(no.cross(n))
        Fs = Fs - Fs.cross(no * (.5 * dt * no.dot(w1 + w2)))
        C['Fs'] = Fs
    C['n'] = n
    if ratchet:
        al = (r1 + r2) / (r1 + r2 - un)
        v = (v2 - v1 + shiftVel) * al - r2 * w2.cross(n) - r1 * w1.cross(n)
    else:
        b1 = n * (r1 - un / 2); b2 = n * (-(r2 - un / 2))
        v = v2 + shiftVel + w2.cross(b2) - v1 - w1.cross(b1)
    vt = v - n * n.dot(v)
    C['Fs'] = C['Fs'] - vt * (dt * C['ks'])
    C['Fn'] = C['kn'] * max(un, 0)
    lim = C['Fn'] * C['tan']
    C['slide'] = 0
    C['dis'] = 0.
    C['trial'] = C['Fs'].norm()
    if C['Fs'].norm() > lim:
        f = C['Fs'].norm()
        C['dis'] = (f - lim) * lim / C['ks']
        C['Fs'] = C['Fs'] * (lim / f)
        C['slide'] = 1
    F = n * (-C['Fn']) - C['Fs']
    return F, (r1 - un / 2) * n.cross(F), (r2 - un / 2) * n.cross(F)


def stiff(m1, m2, r1, r2):
    a, b = m1.young * r1, m2.young * r2
    kn = 2 * a * b / (a + b)
    a *= m1.poisson; b *= m2.poisson
    return kn, 2 * a * b / (a + b)


@each(60)
def model(ctx, c):
    rng = c.rng
    fresh()
    per = ctx.args.get('periodic')
    O.dt = 10**rng.uniform(-6, -3)
    if per:
        O.periodic = True
        O.cell.hSize = Matrix3(8, rng.uniform(-2, 2), 0, 0, 7, rng.uniform(-2, 2), 0, 0, 9)
        O.cell.homoDeform = 0
    r1, r2 = rng.uniform(.3, .8), rng.uniform(.2, .8)
    m1, m2 = rmat(rng, 'a'), rmat(rng, 'b')
    O.materials.append(m1); O.materials.append(m2)
    ratchet, never = rng.random() < .5, rng.random() < .3
    mode = rng.choice(('none', 'trace', 'track'))
    law, ip = engines(ratchet, never, mode == 'trace')
    O.trackEnergy = mode == 'track'
    n0 = rquat(rng) * Vector3(1, 0, 0)
    x1 = rvec(rng, 20) if not per else Vector3(rng.uniform(0, 8), rng.uniform(0, 7), rng.uniform(0, 9))
    shift = Vector3(rng.randint(-2, 2), rng.randint(-2, 2), rng.randint(-2, 2)) if per else Vector3(0, 0, 0)
    x2 = x1 + n0 * ((r1 + r2) * rng.uniform(.9, 1.01)) + (O.cell.hSize * shift if per else Vector3(0, 0, 0))
    for x, r, m in ((x1, r1, m1), (x2, r2, m2)):
        O.bodies.append(utils.sphere(x, r, material=m, fixed=True))
    kn, ks = stiff(m1, m2, r1, r2)
    tan = math.tan(min(m1.frictionAngle, m2.frictionAngle))
    C = {}
    path = Path(rng, r1, r2, O.dt)
    diss = 0.
    G = Matrix3(0, 0, 0, 0, 0, 0, 0, 0, 0)
    if per and rng.random() < .6:
        a = 10**rng.uniform(-5, -3) / O.dt
        O.cell.velGrad = Matrix3(*[rng.uniform(-a, a) for _ in range(9)])
    for k in range(rng.randint(60, 160)):
        S = [b.state for b in O.bodies]
        H = Matrix3(O.cell.hSize) if per else None
        sh = H * shift if per else Vector3(0, 0, 0)
        v, w = path.next(S[1].pos - sh - S[0].pos)
        for s, vv, ww in zip(S, v, w): s.vel = vv; s.angVel = ww
        X = [Vector3(s.pos) for s in S]; V = [Vector3(s.vel) for s in S]; W = [Vector3(s.angVel) for s in S]
        O.step()
        sv = Vector3(0, 0, 0)
        if per:   # the cell moves first in the step
            sh = O.cell.hSize * shift
            # image velocity: measured as the motion of the lattice vector over this step
            sv = (O.cell.hSize - H) * shift * (-1 / O.dt)
        r = None
        if C or (X[1] - sh - X[0]).norm() <= r1 + r2:
            if not C:
                tmp = dict(kn=kn, ks=ks, tan=tan, n=None)
                # first evaluation: no rotation
                C.update(tmp)
                first = True
            else: first = False
            r = run(C, first, ratchet, r1, r2, X[0], X[1] - sh, V[0], V[1], W[0], W[1], O.dt, sv, never)
        i = O.interactions[0, 1] if O.interactions.has(0, 1) else None
        real = i is not None and i.isReal
        where = 'step %d, ratchet=%s, radii %g %g, %s' % (k, ratchet, r1, r2, mode)
        gap = (X[1] - sh - X[0]).norm() - r1 - r2
        if abs(gap) < 1e-12 * (1 + X[0].norm()): return   # touching or not is a matter of rounding here
        ctx.check(real == (r is not None), 'contact', '%s: contact %s, expected %s (gap %g)' % (where, real, r is not None, gap))
        if r is None:
            ctx.check(O.forces.f(0) == Vector3(0, 0, 0) and O.forces.f(1) == Vector3(0, 0, 0), 'pull', '%s: force %s without contact' % (where, O.forces.f(0)))
            ctx.observed(('gap', mode))
            continue
        p = i.phys
        sg = 1 if i.id1 == 0 else -1
        F, T1, T2 = r
        # rounding: positions far from the origin, and shear increments accumulated
        sc = kn * (abs(r1 + r2) * 1e-14 + 1e-15 * (X[0].norm() + X[1].norm())) * (k + 10) + 1e-10 * (C['Fn'] + C['trial'])
        # a sliding decision within rounding: both outcomes agree to that rounding anyway
        nf = p.normalForce * sg
        ctx.check((nf - C['n'] * C['Fn']).norm() <= sc, 'normal-force', lambda: '%s: normal force %s, expected %s' % (where, nf, C['n'] * C['Fn']))
        ctx.check((p.shearForce * sg - C['Fs']).norm() <= sc, 'shear-force', lambda: '%s: shear force %s, expected %s (limit %g)' % (where, p.shearForce * sg, C['Fs'], C['Fn'] * tan))
        ctx.check(p.shearForce.norm() <= C['Fn'] * tan * (1 + 1e-9) + sc, 'coulomb', '%s: shear %g over limit %g' % (where, p.shearForce.norm(), C['Fn'] * tan))
        ctx.check((O.forces.f(0) - F).norm() <= sc and (O.forces.f(1) + F).norm() <= sc, 'force', lambda: '%s: forces %s %s, expected +-%s' % (where, O.forces.f(0), O.forces.f(1), F))
        ctx.check((O.forces.t(0) - T1).norm() <= sc * (r1 + X[0].norm() * 1e-3) * 4 and (O.forces.t(1) - T2).norm() <= 4 * sc * (r2 + X[1].norm() * 1e-3), 'torque', lambda: '%s: torques %s %s, expected %s %s' % (where, O.forces.t(0), O.forces.t(1), T1, T2))
        if mode != 'none':
            diss += C['dis']
            got = law.plasticDissipation() if mode == 'trace' else dict(O.energy.items()).get('plastDissip', 0.)
            ctx.check(C['dis'] >= 0 and abs(got - diss) <= 1e-7 * (diss + C['trial']**2 / ks) + sc * sc / ks * 1e3, 'dissipation', lambda: '%s: dissipated %g, expected %g' % (where, got, diss))
            el = .5 * (C['Fn']**2 / kn + C['Fs'].squaredNorm() / ks)
            ctx.check(abs(law.elasticEnergy() - el) <= 1e-7 * el + sc * sc / ks * 1e3 + 1e-300 + sc * (C['Fn'] / kn + C['Fs'].norm() / ks), 'elastic-energy', lambda: '%s: elastic energy %g, expected %g' % (where, law.elasticEnergy(), el))
        ctx.observed(('m', C['new'], C['slide'], ratchet, never, mode, tuple(shift) if per else 0, bool(C['Fn'])))
    ctx.note('histories')


def run(C, first, ratchet, r1, r2, *a):
    kn, ks, tan = C['kn'], C['ks'], C['tan']
    if first:
        C.clear()
        D = _Defer(kn, ks, tan)
        r = step_model(D, ratchet, r1, r2, *a)
        C.update(D)
        return r
    r = step_model(C, ratchet, r1, r2, *a)
    return r


class _Defer(dict):
    """A fresh contact: empty for the model's purposes, but it knows its stiffness."""

    def __init__(self, kn, ks, tan):
        super().__init__()
        self.k = dict(kn=kn, ks=ks, tan=tan)

    def update(self, *a, **kw):
        super().update(*a, **kw)
        super().update(self.k)


def history(rng, nst):
    dt = 10**rng.uniform(-5, -3)
    r1, r2 = rng.uniform(.3, .8), rng.uniform(.2, .8)
    x1 = rvec(rng, 3)
    x2 = x1 + (rquat(rng) * Vector3(1, 0, 0)) * ((r1 + r2) * .97)
    path = Path(rng, r1, r2, dt)
    X = [x1, x2]; H = []
    for k in range(nst):
        v, w = path.next(X[1] - X[0])
        H.append((v[0], v[1], w[0], w[1]))
        X = [X[0] + dt * v[0], X[1] + dt * v[1]]
    return dt, r1, r2, x1, x2, H


def play(hist, mats, opts, order, q, off):
    """Forces on the first and second body of a history seen by an observer rotated by q, translated by off; order swaps the ids."""
    dt, r1, r2, x1, x2, H = hist
    fresh()
    O.dt = dt
    m1, m2 = [FrictMat(**m) for m in mats]
    if order: m1, m2 = m1, m2
    law, ip = engines(opts['ratchet'], opts['never'], False)
    B = [utils.sphere(q * x1 + off, r1, material=m1, fixed=True), utils.sphere(q * x2 + off, r2, material=m2, fixed=True)]
    if order: B.reverse()
    ids_ = [O.bodies.append(b) for b in B]
    if order: B.reverse()
    out = []
    for h in H:
        B[0].state.vel = q * h[0]; B[1].state.vel = q * h[1]
        B[0].state.angVel = q * h[2]; B[1].state.angVel = q * h[3]
        O.step()
        out.append([q.conjugate() * O.forces.f(b.id) for b in B] + [q.conjugate() * O.forces.t(b.id) for b in B])
    return out


@each(60)
def observer(ctx, c):
    rng = c.rng
    hist = history(rng, rng.randint(40, 120))
    mats = [dict(young=10**rng.uniform(4, 7), poisson=rng.uniform(.1, .5), frictionAngle=rng.uniform(0, 1), density=1000) for _ in range(2)]
    opts = dict(ratchet=rng.random() < .5, never=rng.random() < .3)
    ref = play(hist, mats, opts, 0, Quaternion(1, 0, 0, 0), Vector3(0, 0, 0))
    big = max(v.norm() for row in ref for v in row)
    if big == 0: return
    for what in ('rotated', 'swapped', 'both'):
        q = Quaternion(1, 0, 0, 0) if what == 'swapped' else rquat(rng)
        off = Vector3(0, 0, 0) if what == 'swapped' else rvec(rng, 5)
        got = play(hist, mats, opts, what != 'rotated', q, off)
        for k, (a, b) in enumerate(zip(ref, got)):
            for j in range(4):
                ctx.check((a[j] - b[j]).norm() <= 1e-7 * big, 'observer-' + what, lambda: 'step %d: %s of body %d is %s, %s observer sees %s (%s, radii %g %g)' % (k, ('force', 'torque')[j // 2], j % 2, a[j], what, b[j], opts, hist[1], hist[2]))
            ctx.observed(('obs', what, opts['ratchet'], opts['never'], a[0].norm() > 0))


def mm(rng, algo, pairs):
    return MatchMaker(algo=algo, matches=pairs) if pairs is not None else MatchMaker(algo=algo)


@each(60)
def materials(ctx, c):
    """Stiffness and friction of every pair of a handful of bodies follow from their two materials."""
    rng = c.rng
    fresh()
    nm = rng.randint(2, 4)
    M = [rmat(rng, 'm%d' % i) for i in range(nm)]
    for m in M: O.materials.append(m)
    law, ip = engines(True, False, False)
    algo = rng.choice((None, None, 'avg', 'min', 'max', 'harmAvg', 'val'))
    pairs = {}
    if algo:
        for i in range(nm):
            for j in range(i, nm):
                if rng.random() < .4: pairs[tuple(rng.sample((i, j), 2))] = rng.uniform(0, 1)
        ip.frictAngle = MatchMaker(matches=[(a, b, v) for (a, b), v in pairs.items()], algo=algo, **(dict(val=.37) if algo == 'val' else {}))
    # overlapping spheres in a row, each with a random material
    x = 0; R = []; K = []
    n = rng.randint(3, 8)
    for i in range(n):
        r = rng.uniform(.1, 1)
        x += r * .9
        k = rng.randrange(nm)
        O.bodies.append(utils.sphere((x, 0, 0), r, material=M[k], fixed=True))
        x += r
        R.append(r); K.append(k)
    O.step()
    O.step()
    cnt = 0
    for i in O.interactions:
        a, b = M[K[i.id1]], M[K[i.id2]]
        kn, ks = stiff(a, b, R[i.id1], R[i.id2])
        fa, fb = a.frictionAngle, b.frictionAngle
        if algo is None: fr, src = min(fa, fb), 'min'
        else:
            key = (K[i.id1], K[i.id2])
            if key in pairs: fr, src = pairs[key], 'pair'
            elif key[::-1] in pairs: fr, src = pairs[key[::-1]], 'pair'
            else:
                src = algo
                fr = dict(avg=(fa + fb) / 2, min=min(fa, fb), max=max(fa, fb), harmAvg=2 * fa * fb / (fa + fb) if fa + fb else float('nan'), val=.37)[algo]
        ctx.check(close(i.phys.kn, kn) and close(i.phys.ks, ks), 'stiffness', '%s-%s: kn %g ks %g, expected %g %g' % (a.dict(), b.dict(), i.phys.kn, i.phys.ks, kn, ks))
        if fr == fr:
            ctx.check(close(i.phys.tangensOfFrictionAngle, math.tan(fr), atol=1e-15), 'friction', 'friction of materials %d,%d (%g, %g): tan %g, expected %g (%s, matches %s)' % (K[i.id1], K[i.id2], fa, fb, i.phys.tangensOfFrictionAngle, math.tan(fr), algo, pairs))
            ctx.check(close(i.phys.frictionAngle if hasattr(i.phys, 'frictionAngle') else math.atan(math.tan(fr)), fr, 1e-9, 1e-12) or fr > 1.5, 'friction-angle', '')
        ctx.observed(('mat', src, K[i.id1] == K[i.id2], fr == 0))
        cnt += 1
    ctx.check(cnt >= n - 1, 'contacts', '%d contacts of %d spheres in a row' % (cnt, n))


@each(50)
def against(ctx, c):
    """A driven sphere on a box, facet or wall: normal force, Coulomb bound, elastic shear, dissipation never negative."""
    rng = c.rng
    fresh()
    O.dt = 10**rng.uniform(-6, -4)
    r = rng.uniform(.3, 1)
    ms, mw = rmat(rng, 's'), rmat(rng, 'w')
    O.materials.append(ms); O.materials.append(mw)
    kind = rng.choice(('box', 'facet', 'wall'))
    law, ip = engines(True, False, True, [Ig2_Box_Sphere_ScGeom(), Ig2_Facet_Sphere_ScGeom(), Ig2_Wall_Sphere_ScGeom()])
    q = rquat(rng) if kind != 'wall' else Quaternion(1, 0, 0, 0)
    n = q * Vector3(0, 0, 1)
    off = rvec(rng, 2)
    if kind == 'box':
        b = utils.box(off - n * 1, Vector3(4, 4, 1), orientation=q, material=mw, fixed=True)
    elif kind == 'facet':
        b = utils.facet([q * Vector3(-8, -8, 0) + off, q * Vector3(8, -8, 0) + off, q * Vector3(0, 9, 0) + off], material=mw, fixed=True)
    else:
        b = utils.wall(off, 2, sense=rng.choice((0, 1)), material=mw)
    order = rng.random() < .5
    s = utils.sphere(off + n * (r * rng.uniform(.9, .999)) + q * Vector3(rng.uniform(-1, 1), rng.uniform(-1, 1), 0), r, material=ms, fixed=True)
    for x in ((s, b) if order else (b, s)): O.bodies.append(x)
    kn, ks = stiff(ms, mw, r, 2 * r if kind == 'facet' else r)   # a facet counts as a sphere of twice the radius
    tan = math.tan(min(ms.frictionAngle, mw.frictionAngle))
    Fs = Vector3(0, 0, 0); diss = 0.; last = 0.
    a = 10**rng.uniform(-4, -2) * r / O.dt
    for k in range(60):
        if k % 7 == 0:
            v = rvec(rng, a)
            h = (s.state.pos - off).dot(n)
            vn = v.dot(n)
            want = vn if .8 * r < h < .99 * r else (.95 * r - h) / (7 * O.dt)
            s.state.vel = v + (want - vn) * n
            s.state.angVel = rvec(rng, a / r) if rng.random() < .6 else Vector3(0, 0, 0)
        X, V, W = Vector3(s.state.pos), Vector3(s.state.vel), Vector3(s.state.angVel)
        O.step()
        h = (X - off).dot(n)
        i = O.interactions[s.id, b.id] if O.interactions.has(s.id, b.id) else None
        if abs(h - r) < 1e-9 * r: return
        ctx.check((i is not None and i.isReal) == (h < r), 'contact', '%s: step %d height %g of radius %g, contact %s' % (kind, k, h, r, i is not None and i.isReal))
        if h >= r: Fs = Vector3(0, 0, 0); continue
        un = r - h
        p = i.phys
        sg = 1 if i.id1 == s.id else -1    # force on the sphere = -sg*(normal+shear)
        F = O.forces.f(s.id)
        ctx.check(close(p.kn, kn) and close(p.ks, ks) and close(p.tangensOfFrictionAngle, tan, atol=1e-15), 'stiffness', '%s: kn %g ks %g tan %g expected %g %g %g' % (kind, p.kn, p.ks, p.tangensOfFrictionAngle, kn, ks, tan))
        sc = 1e-9 * kn * r * .1
        ctx.check(abs(F.dot(n) - kn * un) <= sc, 'normal-force', lambda: '%s: step %d overlap %g force along the normal %g, expected %g' % (kind, k, un, F.dot(n), kn * un))
        Ft = F - n * F.dot(n)
        ctx.check(Ft.norm() <= kn * un * tan * (1 + 1e-9) + sc, 'coulomb', lambda: '%s: step %d shear %g over limit %g' % (kind, k, Ft.norm(), kn * un * tan))
        # slip of the sphere's surface at the contact: between the two documented lever arms (radius, or distance to the contact point)
        ok = []
        for arm, al in ((r, 1.), (r - un / 2, 1.), (r, None)):
            aa = al if al else (r + r) / (2 * r - un)
            g = i.geom
            aa = al if al else (g.refR1 + g.refR2) / (g.refR1 + g.refR2 - un)
            v = V * aa + W.cross(n) * (-arm)
            v = v - n * n.dot(v)
            tr = Fs - Fs.cross(n * (.5 * O.dt * n.dot(W))) - ks * O.dt * v
            lim = kn * un * tan
            res = tr * (lim / tr.norm()) if tr.norm() > lim else tr
            ok.append((res - Ft).norm())
        ctx.check(min(ok) <= 1e-6 * (Fs.norm() + kn * un) + sc, 'shear-force', lambda: '%s: step %d shear %s -> %s with slip rate %s spin %s: off by %g' % (kind, k, Fs, Ft, V, W, min(ok)))
        d = law.plasticDissipation()
        ctx.check(d >= last * (1 - 1e-12), 'dissipation-negative', '%s: step %d dissipation %g after %g' % (kind, k, d, last))
        ctx.check((O.forces.f(b.id) + F).norm() <= sc, 'reaction', '%s: step %d %s %s' % (kind, k, F, O.forces.f(b.id)))
        ctx.observed(('wall', kind, order, d > last, tan == 0))
        last = d
        Fs = Ft


@each(5)
def many(ctx, c):
    """A dense agitated packing: after every step every contact satisfies the law with its own data."""
    rng = c.rng
    fresh()
    M = [rmat(rng, 'm%d' % i) for i in range(3)]
    for m in M: O.materials.append(m)
    periodic = rng.random() < .5
    if periodic:
        O.periodic = True
        O.cell.hSize = Matrix3(4, .5, 0, 0, 4, 0, .3, 0, 4)
    law, ip = engines(rng.random() < .5, False, True)
    R = []
    for i in range(120):
        r = rng.uniform(.2, .5)
        b = utils.sphere((rng.uniform(0, 4), rng.uniform(0, 4), rng.uniform(0, 4)), r, material=rng.choice(M))
        O.bodies.append(b); R.append(r)
        b.state.vel = rvec(rng, .5); b.state.angVel = rvec(rng, 1)
    O.dt = .1 * utils.PWaveTimeStep()
    last = 0; prev = {}
    for k in range(40):
        X = [(Vector3(b.state.pos), Vector3(b.state.vel), Vector3(b.state.angVel)) for b in O.bodies]
        H0 = O.cell.hSize if periodic else None
        O.step()
        cur = {}
        for i in O.interactions:
            a, b = i.id1, i.id2
            sh = O.cell.hSize * Vector3(*i.cellDist) if periodic else Vector3(0, 0, 0)
            d = X[b][0] + sh - X[a][0]
            n = d / d.norm(); un = R[a] + R[b] - d.norm()
            m1, m2 = O.bodies[a].material, O.bodies[b].material
            kn, ks = stiff(m1, m2, R[a], R[b])
            p = i.phys
            tan = math.tan(min(m1.frictionAngle, m2.frictionAngle))
            ctx.check(un >= -1e-12, 'pull', 'step %d contact %d-%d kept with gap %g' % (k, a, b, -un))
            ctx.check((p.normalForce - n * (kn * max(un, 0))).norm() <= 1e-9 * kn * (R[a] + R[b]), 'normal-force', lambda: 'step %d %d-%d: %s expected %s' % (k, a, b, p.normalForce, n * kn * un))
            ctx.check(p.shearForce.norm() <= kn * max(un, 0) * tan * (1 + 1e-9) + 1e-12 * kn, 'coulomb', lambda: 'step %d %d-%d: shear %g limit %g' % (k, a, b, p.shearForce.norm(), kn * un * tan))
            # the change of the shear force is bounded by the slip of the step (plus the turn of the force)
            if (a, b) in prev:
                w = X[a][2].norm() + X[b][2].norm()
                slip = O.dt * ((X[b][1] - X[a][1]).norm() * 1.1 * (R[a] + R[b]) / d.norm() + (X[a][2].norm() * R[a] + X[b][2].norm() * R[b]))
                turn = O.dt * (w + 2 * (X[b][1] - X[a][1]).norm() / d.norm())
                fo = prev[a, b]
                ctx.check(p.shearForce.norm() <= fo.norm() * (1 + turn) + ks * slip * 1.01 + 1e-9 * kn, 'shear-growth', lambda: 'step %d %d-%d: shear %s -> %s with slip at most %g' % (k, a, b, fo, p.shearForce, slip))
            cur[a, b] = Vector3(p.shearForce)
            ctx.observed(('many', periodic, un > .1 * R[a], tan == 0))
        prev = cur
        dd = law.plasticDissipation()
        ctx.check(dd >= last * (1 - 1e-12), 'dissipation-negative', 'step %d: %g after %g' % (k, dd, last))
        last = dd


@each(30)
def local(ctx, c):
    """The law in local coordinates (L3Geom) obeys the same normal force, Coulomb bound and, to first order, shear."""
    rng = c.rng
    hist = history(rng, 80)
    mats = [dict(young=10**rng.uniform(4, 7), poisson=rng.uniform(.1, .5), frictionAngle=rng.uniform(0, 1), density=1000) for _ in range(2)]
    dt, r1, r2, x1, x2, H = hist
    # small steps: the two formulations agree to first order
    H = [tuple(x * .05 for x in h) for h in H]
    res = []
    for which in ('sc', 'l3'):
        fresh()
        O.dt = dt
        if which == 'sc':
            engines(False, False, False)
        else:
            O.engines = [ForceResetter(), InsertionSortCollider([Bo1_Sphere_Aabb()], verletDist=.1),
                         InteractionLoop([Ig2_Sphere_Sphere_L3Geom(approxMask=0)], [Ip2_FrictMat_FrictMat_FrictPhys()], [Law2_L3Geom_FrictPhys_ElPerfPl()]), NewtonIntegrator(damping=0)]
        for x, r, m in ((x1, r1, mats[0]), (x2, r2, mats[1])):
            O.bodies.append(utils.sphere(x, r, material=FrictMat(**m), fixed=True))
        out = []
        for h in H:
            for b, v, w in zip(O.bodies, h[:2], h[2:]): b.state.vel = v; b.state.angVel = w
            O.step()
            out.append((Vector3(O.forces.f(0)), Vector3(O.forces.f(1)), Vector3(O.bodies[1].state.pos - O.bodies[0].state.pos)))
        res.append(out)
        tan = math.tan(min(m['frictionAngle'] for m in mats))
    big = max(a[0].norm() for a in res[0])
    if big == 0: return
    d = x2 - x1
    for k, (a, b) in enumerate(zip(*res)):
        n = d / d.norm()
        fn = b[0].dot(n); ft = b[0] - n * fn
        ctx.check(fn <= 1e-9 * big, 'l3-pull', 'step %d: force %s along %s' % (k, b[0], n))
        ctx.check(ft.norm() <= abs(fn) * tan * (1 + 1e-4) + 1e-9 * big, 'l3-coulomb', 'step %d: shear %.10g over %.10g' % (k, ft.norm(), abs(fn) * tan))
        ctx.check((b[0] + b[1]).norm() <= 1e-9 * big, 'l3-reaction', '')
        ctx.check(abs(fn - a[0].dot(n)) <= 1e-6 * big, 'l3-normal', 'step %d: normal %g, other formulation %g' % (k, fn, a[0].dot(n)))
        ctx.check((a[0] - b[0]).norm() <= .05 * big, 'l3-shear', lambda: 'step %d: force %s, other formulation %s' % (k, b[0], a[0]))
        ctx.note_max('l3_rel_diff', (a[0] - b[0]).norm() / big)
        ctx.observed(('l3', ft.norm() > .99 * abs(fn) * tan))
        d = b[2]
