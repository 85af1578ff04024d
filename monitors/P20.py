"""Macroscopic measures: every reported quantity against its definition, summed in Python over the bodies and contacts present."""
from common import *
import itertools, tempfile
import numpy as np

RULE = ('a case is a random scene (spheres, clumps, fixed boxes, facets; open, periodic or sheared cell; erased bodies; masks) run for some steps and paused; every measure is asked for with random arguments and compared '
        'with its definition summed over the bodies and contacts present, and the saved simulation must be the same text before and after asking; distinct = (measure, kind of scene)')
ASSUMPTIONS = ['definitions are those of the documentation: Love-Weber stress, contact-normal fabric, members counted with their clump where a mass is summed, contacts whose body was erased do not exist',
               'the kinetic energy in a periodic cell is that of the velocity minus the mean flow, at the position the body had before its last motion']


def plan(tier):
    k = 1 if tier == 'quick' else 20
    J = [dict(func='scene_measures', name='measures-t%d' % t, threads=t, args=dict(n=60 * k)) for t in (1, 3)]
    J += [dict(func='profiles', name='profiles', args=dict(n=60 * k)), dict(func='geometry', name='geometry', args=dict(n=200 * k)), dict(func='steps', name='steps', args=dict(n=20 * k)), dict(func='voxel', name='voxel', args=dict(n=12 * k)),
          dict(func='sizes', name='sizes', args=dict(n=60 * k)), dict(func='tesselation', name='tesselation', args=dict(n=12 * k))]
    return J


def build(rng, periodic=None, steps=None, clumps=True, obstacles=True):
    fresh()
    periodic = rng.random() < .5 if periodic is None else periodic
    O.periodic = periodic
    kind = 'open'
    if periodic:
        kind = rng.choice(('cell', 'sheared'))
        H = Matrix3(1, 0, 0, 0, 1.2, 0, 0, 0, .9)
        if kind == 'sheared': H = Matrix3(1, rng.uniform(-.4, .4), rng.uniform(-.4, .4), 0, 1.2, rng.uniform(-.3, .3), 0, rng.uniform(-.2, .2), .9)
        O.cell.hSize = H
        if rng.random() < .6: O.cell.velGrad = Matrix3(*[rng.uniform(-.5, .5) for _ in range(9)])
    mats = [O.materials.append(FrictMat(young=1e6, poisson=.3, frictionAngle=rng.choice((0., .5)), density=rng.choice((1000, 2600)))) for _ in range(2)]
    n = rng.randint(4, 60)
    for _ in range(n):
        x = Vector3(rng.random(), rng.random(), rng.random())
        if periodic and rng.random() < .3: x += Vector3(rng.randint(-2, 2), rng.randint(-1, 1), rng.randint(-2, 2))
        p = O.cell.hSize * x if periodic else x
        b = utils.sphere(p, rng.uniform(.04, .12), material=mats[rng.randrange(2)], mask=rng.choice((1, 2, 3, 4)))
        b.state.vel = rvec(rng, .5); b.state.angVel = rvec(rng, 3)
        if rng.random() < .1: b.state.blockedDOFs = 'xyzXYZ'
        elif rng.random() < .1: b.state.blockedDOFs = 'xZ'
        O.bodies.append(b)
    nc = 0
    if clumps and rng.random() < .6:
        for _ in range(rng.randint(1, 4)):
            c = O.cell.hSize * Vector3(rng.random(), rng.random(), rng.random()) if periodic else Vector3(rng.random(), rng.random(), rng.random())
            cid, mem = O.bodies.appendClumped([utils.sphere(c + rvec(rng, .06), rng.uniform(.05, .09), material=mats[0], mask=rng.choice((1, 2))) for _ in range(rng.randint(2, 4))], discretization=rng.choice((0, 5)))
            O.bodies[cid].state.vel = rvec(rng, .5)
            nc += 1
    if obstacles and not periodic:
        if rng.random() < .6: O.bodies.append(utils.box((.5, .5, -.1), (1, 1, .12), fixed=True, material=mats[1], mask=1))
        if rng.random() < .6:
            for _ in range(rng.randint(1, 3)): O.bodies.append(utils.facet([Vector3(rng.uniform(-.2, 1.2), rng.uniform(-.2, 1.2), rng.uniform(-.2, 1.2)) for _ in range(3)], material=mats[0]))
    g = rvec(rng, 10) if rng.random() < .6 else Vector3(0, 0, 0)
    O.engines = [ForceResetter(), InsertionSortCollider([Bo1_Sphere_Aabb(), Bo1_Box_Aabb(), Bo1_Facet_Aabb()], verletDist=rng.choice((0., .05)), allowBiggerThanPeriod=True),
                 InteractionLoop([Ig2_Sphere_Sphere_ScGeom(), Ig2_Box_Sphere_ScGeom(), Ig2_Facet_Sphere_ScGeom()], [Ip2_FrictMat_FrictMat_FrictPhys()], [Law2_ScGeom_FrictPhys_CundallStrack()]),
                 NewtonIntegrator(gravity=g, damping=rng.choice((0., .3)))]
    O.dt = .05 * utils.PWaveTimeStep()
    O.run(rng.randint(2, 30) if steps is None else steps, True)
    er = 0
    if rng.random() < .6:
        for b in [b for b in O.bodies if b.isStandalone and isinstance(b.shape, Sphere)]:
            if rng.random() < .15: O.bodies.erase(b.id); er += 1
    return dict(kind=kind, clumps=nc, erased=er, g=g)


def N(v): return np.array([float(x) for x in v])


def M(m): return np.array([[m[i, j] for j in range(3)] for i in range(3)])


def close_m(a, b, tol=1e-9): return np.abs(a - b).max() <= tol * (np.abs(b).max() + 1e-300) + 1e-15


class State_:
    """The bodies and contacts present, in numpy."""
    def __init__(s):
        s.bodies = [b for b in O.bodies]
        s.H = M(O.cell.hSize) if O.periodic else None
        s.V = abs(np.linalg.det(s.H)) if O.periodic else None
        s.pos = {b.id: N(b.state.pos) for b in s.bodies}
        s.sph = [b for b in s.bodies if isinstance(b.shape, Sphere)]
        s.R = {b.id: b.shape.radius for b in s.sph}
        s.I = [(i.id1, i.id2, N(i.phys.normalForce), N(i.phys.shearForce), N(i.geom.normal), N(i.geom.contactPoint), i.geom.refR1, i.geom.refR2, N(i.cellDist), i.phys.kn, i.phys.ks) for i in O.interactions]

    def aabb(s, cutoff=0., centers=False):
        if not s.sph: return None
        lo = np.min([s.pos[b.id] - (0 if centers else s.R[b.id]) for b in s.sph], axis=0); hi = np.max([s.pos[b.id] + (0 if centers else s.R[b.id]) for b in s.sph], axis=0)
        d = hi - lo
        return lo + .5 * cutoff * d, hi - .5 * cutoff * d

    def branch(s, i):
        d = s.pos[i[0]] - s.pos[i[1]]
        return d - s.H @ i[8] if s.H is not None else d


def snapshot():
    f = tempfile.mktemp(suffix='.xml', dir=os.environ.get('TMPDIR', '/tmp'))
    O.save(f, quiet=True); t = open(f).read(); os.unlink(f)
    return t


@each(50)
def scene_measures(ctx, case):
    rng = case.rng
    d = build(rng)
    S = State_()
    if not S.sph: return
    where = (d['kind'], d['clumps'] > 0, d['erased'] > 0, len(S.I) > 0)
    before = snapshot()
    lo, hi = S.aabb()
    box = float(np.prod(hi - lo))

    def chk(name, got, exp, tol=1e-8, scale=None):
        g, e = np.asarray(got, float), np.asarray(exp, float)
        sc = (np.abs(e).max() if e.size else 0.) if scale is None else scale
        ok = g.shape == e.shape and bool(np.all(np.abs(g - e) <= tol * sc + 1e-14))
        ctx.check(ok, name, lambda: '%s=%r, defined as %r (%r)' % (name, np.asarray(got).tolist(), e.tolist(), d))
        ctx.observed((name,) + where)

    # stresses
    V = rng.choice((0., rng.uniform(.5, 3)))
    vol = V if V else (S.V if O.periodic else box)
    fsc = sum(np.linalg.norm(i[2] + i[3]) for i in S.I) + 1e-12
    chk('getStress', M(utils.getStress(V)), sum((np.outer(i[2] + i[3], S.branch(i)) for i in S.I), np.zeros((3, 3))) / vol, scale=fsc / vol)
    vol2 = V if V else (S.V if O.periodic else 1.)
    # (for clump members the tangent operator takes the centres of the clumps)
    center = {b.id: (S.pos[b.clumpId] if b.isClumpMember else S.pos[b.id]) for b in S.bodies}
    br2 = lambda i: center[i[0]] - center[i[1]] - (S.H @ i[8] if O.periodic else 0)
    st, tg = utils.getStressAndTangent(V)
    chk('getStressAndTangent', M(st), sum((np.outer(i[2] + i[3], br2(i)) for i in S.I), np.zeros((3, 3))) / vol2, scale=fsc / vol2)
    T = np.zeros((6, 6)); voigt = [(0, 0), (1, 1), (2, 2), (1, 2), (0, 2), (0, 1)]
    for i in S.I:
        b, n = br2(i), i[4]; t = i[3] / np.linalg.norm(i[3]) if np.linalg.norm(i[3]) > 0 else np.zeros(3)
        for v, k in ((n, i[9]), (t, i[10])):
            a = np.array([.5 * (v[p] * b[q] + v[q] * b[p]) for p, q in voigt]); T += k * np.outer(a, a)
    chk('tangent', [[tg[i, j] for j in range(i, 6)] [k] for i in range(6) for k in range(6 - i)], [T[i, j] / vol2 for i in range(6) for j in range(i, 6)], scale=np.abs(T).max() / vol2)
    if O.periodic:
        cp = rng.random() < .5; sg = -1 if cp else 1
        a, b = utils.normalShearStressTensors(cp)
        sN = np.zeros((3, 3)); sT = np.zeros((3, 3))
        for i in S.I:
            R = .5 * (i[6] + i[7]); sN += 2 * R / S.V * sg * i[2].dot(i[4]) * np.outer(i[4], i[4]); sT += 2 * R / S.V * sg * np.outer(i[4], i[3])
        chk('normalStress', M(a), sN, scale=fsc / S.V)
        up = np.triu(np.ones((3, 3)))
        chk('shearStress', M(b) * up, sT * up, scale=fsc / S.V)
        sn, sw = utils.normalShearStressTensors(cp, splitNormalTensor=True)
        chk('normalStressSplit', M(sn) + M(sw), sN, scale=fsc / S.V)
    # fabric (contacts with their point inside of the box of the spheres)
    for cut in (0., rng.uniform(0, .8)):
        l, h = S.aabb(cut)
        near = any(np.any(np.abs(i[5] - l) < 1e-9) or np.any(np.abs(i[5] - h) < 1e-9) for i in S.I)
        ins = [i for i in S.I if np.all(i[5] >= l) and np.all(i[5] <= h)]
        if ins and not near:
            F = sum(np.outer(i[4], i[4]) for i in ins) / len(ins)
            chk('fabricTensor', M(utils.fabricTensor(cut)[0]), F)
            mean = sum(-i[2].dot(i[4]) for i in ins) / len(ins)
            th = rng.choice((None, mean * rng.uniform(.2, 2)))
            strong = [i for i in ins if -i[2].dot(i[4]) < (mean if th is None else th)]; weak = [i for i in ins if not -i[2].dot(i[4]) < (mean if th is None else th)]
            amb = th is None and any(abs(-i[2].dot(i[4]) - mean) < 1e-9 * abs(mean) + 1e-15 for i in ins)
            a, b = utils.fabricTensor(cut, True) if th is None else utils.fabricTensor(cut, True, th)
            if not amb:
                if strong: chk('fabricStrong', M(a), sum(np.outer(i[4], i[4]) for i in strong) / len(strong))
                if weak: chk('fabricWeak', M(b), sum(np.outer(i[4], i[4]) for i in weak) / len(weak))
    # stress in each body
    B = utils.bodyStressTensors()
    ctx.check(len(B) == len(O.bodies), 'bodyStress-len', '%d tensors, %d bodies' % (len(B), len(O.bodies)))
    exp = {b.id: np.zeros((3, 3)) for b in S.sph}
    for i in S.I:
        f = i[2] + i[3]
        if i[0] in exp: exp[i[0]] -= 3 / (4 * pi * i[6] ** 3) * np.outer(f, i[5] - S.pos[i[0]])
        if i[1] in exp: exp[i[1]] += 3 / (4 * pi * i[7] ** 3) * np.outer(f, i[5] - S.pos[i[1]] - (S.H @ i[8] if O.periodic else 0))
    for b in S.sph: chk('bodyStressTensors', M(B[b.id]), exp[b.id], scale=np.abs(exp[b.id]).max() + 1e-9)
    # energy and momentum
    L = M(O.cell.velGrad) if O.periodic else np.zeros((3, 3))
    W = .5 * (L - L.T); spin = np.array([W[2, 1], W[0, 2], W[1, 0]])
    E = {}
    for b in S.bodies:
        if b.isClumpMember or not b.dynamic: continue
        s = b.state; v = N(s.vel)
        if O.periodic: v = v - L @ (N(s.pos) - v * O.dt)
        w = N(s.angVel) - spin
        Q = np.array([[s.ori.toRotationMatrix()[i, j] for j in range(3)] for i in range(3)])
        wl = Q.T @ w if b.aspherical else w
        E[b.id] = .5 * s.mass * v.dot(v) + .5 * (N(s.inertia) * wl).dot(wl)
    chk('kineticEnergy', utils.kineticEnergy(), sum(E.values()))
    if E:
        e, m = utils.kineticEnergy(True)
        chk('kineticEnergy-total', e, sum(E.values()))
        ctx.check(m in E and E[m] >= max(E.values()) * (1 - 1e-9), 'kineticEnergy-maxId', 'body %r with %r, the largest is %r' % (m, E.get(m), max(E.values())))
    ind = [b for b in S.bodies if not b.isClumpMember]
    chk('momentum', N(utils.momentum()), sum((b.state.mass * N(b.state.vel) for b in ind), np.zeros(3)), scale=sum(b.state.mass * b.state.vel.norm() for b in ind) + 1e-12)
    o = rvec(rng, 2)
    am = np.zeros(3)
    for b in ind: am += np.cross(S.pos[b.id] - N(o), b.state.mass * N(b.state.vel)) + (N(b.state.angMom) if b.aspherical else N(b.state.inertia) * N(b.state.angVel))
    chk('angularMomentum', N(utils.angularMomentum(o)), am, scale=sum(b.state.mass * b.state.vel.norm() * (b.state.pos - o).norm() for b in ind) + 1e-12)
    chk('getTotalDynamicStress', M(utils.getTotalDynamicStress(vol2)), -sum((b.state.mass * np.outer(N(b.state.vel) - L @ S.pos[b.id], N(b.state.vel) - L @ S.pos[b.id]) for b in ind), np.zeros((3, 3))) / vol2)
    D = utils.getDynamicStress()
    ctx.check(len(D) == len(O.bodies), 'getDynamicStress-len', '%d tensors, %d bodies' % (len(D), len(O.bodies)))
    for b in S.sph:
        v = N(b.state.vel) - L @ S.pos[b.id]
        chk('getDynamicStress', M(D[b.id]), -3 / (4 * pi * S.R[b.id] ** 3) * b.state.mass * np.outer(v, v))
    # forces
    ids = [b.id for b in S.bodies if rng.random() < .4]
    F = {b.id: N(O.forces.f(b.id, sync=True)) for b in S.bodies}; Tq = {b.id: N(O.forces.t(b.id, sync=True)) for b in S.bodies}
    ax, pt = rvec(rng), rvec(rng, 2)
    sc = sum(np.linalg.norm(F[i]) for i in ids) + sum(np.linalg.norm(Tq[i]) for i in ids) + 1e-9
    chk('sumForces', utils.sumForces(ids, ax), sum(F[i].dot(N(ax)) for i in ids), scale=sc)
    chk('sumTorques', utils.sumTorques(ids, ax, pt), sum(N(ax).dot(Tq[i] + np.cross(S.pos[i] - N(pt), F[i])) for i in ids), scale=sc * 5)
    fid = [b.id for b in S.bodies if isinstance(b.shape, Facet)]
    if fid: chk('sumFacetNormalForces', utils.sumFacetNormalForces(fid), sum(F[i].dot(N(O.bodies[i].shape.normal)) for i in fid), scale=sc + sum(np.linalg.norm(F[i]) for i in fid))
    g = N(d['g'])
    dyn = [b for b in ind if b.dynamic]
    if dyn and S.I:
        # the force on a clump is that on its members
        fb = []
        for b in dyn:
            f = F[b.id]
            if b.isClump and np.linalg.norm(f + b.state.mass * g) == 0: f = f + sum(F[m] for m in b.shape.members.keys())
            fb.append(np.linalg.norm(f + b.state.mass * g))
        mean = sum(np.linalg.norm(i[2] + i[3]) for i in S.I) / len(S.I)
        if mean > 0:
            chk('unbalancedForce', utils.unbalancedForce(), np.mean(fb) / mean, 1e-6)
            chk('unbalancedForce-max', utils.unbalancedForce(True), np.max(fb) / mean, 1e-6)
    if not O.periodic:
        pp, nn = Vector3(rng.random(), rng.random(), rng.random()), rvec(rng).normalized()
        tot = np.zeros(3)
        for i in S.I:
            d1, d2 = (S.pos[i[0]] - N(pp)).dot(N(nn)), (S.pos[i[1]] - N(pp)).dot(N(nn))
            if d1 * d2 < 0: tot += (1 if d1 < 0 else -1) * (i[2] + i[3])
        chk('forcesOnPlane', N(utils.forcesOnPlane(pp, nn)), tot, scale=fsc)
        a = rng.randrange(3); x = rng.random(); tot = np.zeros(3)
        for i in S.I:
            d1, d2 = S.pos[i[0]][a] - x, S.pos[i[1]][a] - x
            if d1 * d2 < 0: tot += (1 if d1 < 0 else -1) * (i[2] + i[3])
        chk('forcesOnCoordPlane', N(utils.forcesOnCoordPlane(x, a)), tot, scale=fsc)
    tf, ts = utils.totalForceInVolume()
    chk('totalForceInVolume', N(tf), sum((np.abs(i[2] + i[3]) for i in S.I), np.zeros(3)), scale=fsc)
    chk('averageStiffness', ts, sum(i[9] / 3 + 2 * i[10] / 3 for i in S.I) / len(S.I) if S.I else -1.)
    # volumes
    mask = rng.choice((-1, 1, 2, 4))
    sel = [b for b in S.sph if mask < 0 or b.mask & mask]
    chk('getSpheresVolume', utils.getSpheresVolume(mask), sum(4 / 3. * pi * S.R[b.id] ** 3 for b in sel))
    chk('getSpheresMass', utils.getSpheresMass(mask), sum(b.state.mass for b in sel))
    chk('getSpheresVolume2D', utils.getSpheresVolume2D(mask), sum(pi * S.R[b.id] ** 2 for b in sel))
    Vs = sum(4 / 3. * pi * S.R[b.id] ** 3 for b in S.sph)
    pv = rng.choice((-1, rng.uniform(1, 4)))
    PV = S.V if O.periodic else (pv if pv > 0 else box)
    chk('porosity', utils.porosity(pv), (PV - Vs) / PV)
    if O.periodic:
        z = rng.uniform(.1, 2); A = sum(pi * S.R[b.id] ** 2 for b in S.sph)
        chk('voidratio2D', utils.voidratio2D(z), (S.V / z - A) / A)
    # boxes and lists
    cut, cen = rng.choice((0., rng.random())), rng.random() < .5
    a, b = utils.aabbExtrema(cut, cen); l, h = S.aabb(cut, cen)
    chk('aabbExtrema', [N(a), N(b)], [l, h], scale=1.)
    chk('aabbDim', utils.aabbDim(cut, cen), h - l, scale=1.)
    ax_ = rng.randrange(3); fct = rng.choice((1., 1.5))
    mn, mx = utils.negPosExtremeIds(ax_, fct)
    ctx.check(sorted(mn) == sorted(b.id for b in S.sph if S.pos[b.id][ax_] - S.R[b.id] * fct <= lo[ax_]) and sorted(mx) == sorted(b.id for b in S.sph if S.pos[b.id][ax_] + S.R[b.id] * fct >= hi[ax_]), 'negPosExtremeIds', '%r %r' % (mn, mx))
    cc = utils.coordsAndDisplacements(ax_)
    chk('coordsAndDisplacements', cc, [[b.state.pos[ax_] for b in S.bodies], [b.state.pos[ax_] - b.state.refPos[ax_] for b in S.bodies]], scale=5.)
    # coordination
    deg = {b.id: 0 for b in S.bodies}
    for i in S.I: deg[i[0]] += 1; deg[i[1]] += 1
    num = utils.numIntrsOfEachBody(); lst = utils.intrsOfEachBody()
    ctx.check(all(num[b] == deg[b] and len(lst[b]) == deg[b] for b in deg) and all(num[i] == 0 for i in range(len(num)) if i not in deg), 'numIntrsOfEachBody', '%r, contacts are %r' % (num, deg))
    for b in rng.sample(sorted(deg), min(5, len(deg))):
        got = sorted(utils.getBodyIdsContacts(b)); ex = sorted([i[1] for i in S.I if i[0] == b] + [i[0] for i in S.I if i[1] == b])
        ctx.check(got == ex, 'getBodyIdsContacts', 'body %d: %r, contacts are with %r' % (b, got, ex))
    chk('avgNumInteractions', utils.avgNumInteractions(), 2. * len(S.I) / len(S.bodies))
    for cut, skip, cl in ((0., False, True), (0., True, False), (rng.uniform(.05, .6), False, False), (rng.uniform(.05, .6), True, True)):
        l, h = S.aabb(cut)
        inb = lambda i: bool(np.all(S.pos[i] > l) and np.all(S.pos[i] < h))
        cnt = {}
        for i in S.I:
            for k in i[:2]:
                if inb(k): own = O.bodies[k].clumpId if O.bodies[k].isClumpMember else k; cnt[own] = cnt.get(own, 0) + 1
        hist = [cnt[b.id] if b.id in cnt else 0 for b in S.bodies if b.id in cnt or (inb(b.id) and not b.isClumpMember)]
        CC, NN, n0, n1 = sum(hist), len(hist), hist.count(0), hist.count(1)
        if not skip: ex = CC / NN if NN else float('nan')
        else: ex = (CC - n1) / (NN - n0 - n1) if NN - n0 - n1 else float('nan')
        got = utils.avgNumInteractions(cut, skip, cl)
        ctx.check((math.isnan(ex) and math.isnan(got)) or abs(got - ex) < 1e-9, 'coordination', lambda: 'avgNumInteractions(%r,%r,%r)=%r, counted %r (%r)' % (cut, skip, cl, got, ex, d))
        ctx.observed(('avgNumInteractions', cut > 0, skip) + where)
    both = [i for i in S.I if i[0] in S.R and i[1] in S.R]
    ov = -1.
    for i in O.interactions:
        if i.id1 in S.R and i.id2 in S.R: ov = max(ov, i.geom.penetrationDepth / (2 * S.R[i.id1] * S.R[i.id2] / (S.R[i.id1] + S.R[i.id2])))
    chk('maxOverlapRatio', utils.maxOverlapRatio(), ov)
    # direction histogram
    axis, bins = rng.randrange(3), rng.choice((1, 5, 20)); ss = rng.random() < .5
    mid, val = utils.interactionAnglesHistogram(axis, 0, bins, (), ss)
    tot = 0.
    for i in (both if ss else S.I):
        n = i[4].copy(); n[axis] = 0
        if np.linalg.norm(n) >= 1e-6: tot += np.linalg.norm(n)
    chk('anglesHistogram-total', sum(val), tot, 1e-6)
    ctx.check(len(mid) == bins and len(val) == bins, 'anglesHistogram', '%d bins' % len(val))
    after = snapshot()
    ctx.check(before == after, 'changed', lambda: 'asking for measures changed the simulation: %r' % [(x, y) for x, y in zip(before.split('\n'), after.split('\n')) if x != y][:4])
    if case.idx % 10 == 0: ctx.sample('%r: %d spheres, %d contacts' % (d, len(S.sph), len(S.I)))


@each(50)
def profiles(ctx, case):
    """Measures by layers, against the same cut done in Python."""
    rng = case.rng
    d = build(rng, periodic=False)
    S = State_()
    if not S.sph: return
    n = rng.randint(1, 12); dz = rng.uniform(.02, .4); z0 = rng.uniform(-.3, .5); vol = rng.uniform(.1, 2)
    before = snapshot()
    dr = rng.randrange(3)
    sel = rng.random() < .3; rad = rng.choice(S.sph).shape.radius
    phi = np.zeros(n); mv = np.zeros((n, 3))

    def cap(x, r):  # volume of a sphere below height x over its centre
        x = max(-r, min(r, x)); return pi * (r * r * x - x ** 3 / 3 + 2 * r ** 3 / 3)
    for b in S.sph:
        r = S.R[b.id]
        if sel and r != rad: continue
        z = S.pos[b.id][dr] - z0
        for k in range(n):
            v = cap((k + 1) * dz - z, r) - cap(k * dz - z, r)
            if v > 0: phi[k] += v; mv[k] += v * N(b.state.vel)
    got = utils.getDepthProfiles(vol, n, dz, z0, sel, rad, dr)
    sc = 4 / 3. * pi * .12 ** 3
    ctx.check(np.abs(np.array(got[0]) * vol - phi).max() < 1e-9 * sc, 'depth-volume', lambda: 'solid volume per layer %r, is %r (%r)' % ((np.array(got[0]) * vol).tolist(), phi.tolist(), dict(n=n, dz=dz, z0=z0, dir=dr)))
    for a in range(3):
        ctx.check(all(abs(got[1 + a][k] - mv[k][a] / phi[k]) < 1e-6 for k in range(n) if phi[k] > 1e-7 * sc), 'depth-velocity', lambda: 'mean velocity %r, is %r' % (got[1 + a], (mv[:, a] / np.maximum(phi, 1e-300)).tolist()))
    # particles as points
    phi = np.zeros(n); mv = np.zeros((n, 3)); c = np.zeros(n)
    for b in S.sph:
        if sel and S.R[b.id] != rad: continue
        k = math.floor((S.pos[b.id][2] - z0) / dz)
        if 0 <= k < n: phi[k] += 4 / 3. * pi * S.R[b.id] ** 3; mv[k] += N(b.state.vel); c[k] += 1
    got = utils.getDepthProfiles_center(vol, n, dz, z0, sel, rad)
    ctx.check(np.abs(np.array(got[0]) * vol - phi).max() < 1e-9 * sc and all(np.abs(np.array([got[1 + a][k] for a in range(3)]) - mv[k] / max(c[k], 1)).max() < 1e-9 for k in range(n)), 'depth-center', lambda: '%r' % (got,))
    # stress by layer: the part of each branch inside of the layer
    vm = [[rng.uniform(-.3, .3) for _ in range(n)] for _ in range(3)]
    st = [np.zeros((3, 3)) for _ in range(n)]; kin = [np.zeros((3, 3)) for _ in range(n)]; T = np.zeros(n); c = np.zeros(n)
    for b in S.bodies:
        k = math.floor((S.pos[b.id][2] - z0) / dz)
        if 0 <= k < n:
            f = N(b.state.vel) - np.array([vm[a][k] for a in range(3)]); kin[k] -= b.state.mass * np.outer(f, f) / vol; T[k] += f.dot(f) / 3; c[k] += 1
    fixed = {b.id for b in S.bodies if b.state.blockedDOFs == 'xyzXYZ'}
    for i in S.I:
        if i[0] in fixed and i[1] in fixed: continue
        z1, z2 = S.pos[i[0]][2] - z0, S.pos[i[1]][2] - z0
        br = S.branch(i)
        for k in range(n):
            l, h = k * dz, (k + 1) * dz
            if math.floor(z1 / dz) == math.floor(z2 / dz): fr = 1. if math.floor(z1 / dz) == k else 0.
            else: fr = max(0., min(h, max(z1, z2)) - max(l, min(z1, z2))) / abs(z1 - z2)
            if fr: st[k] += np.outer(i[2] + i[3], br) * fr / vol
    fsc = (sum(np.linalg.norm(i[2] + i[3]) for i in S.I) + 1e-9) / vol
    g = utils.getStressProfile_contact(vol, n, dz, z0)[0]
    ctx.check(all(np.abs(M(g[k]) - st[k]).max() < 1e-8 * fsc for k in range(n)), 'stress-profile-contact', lambda: '%r, is %r' % ([M(x).tolist() for x in g], [x.tolist() for x in st]))
    a, b_, t = utils.getStressProfile(vol, n, dz, z0, *vm)
    ksc = max(np.abs(x).max() for x in kin) + fsc
    ctx.check(all(np.abs(M(a[k]) - st[k] - kin[k]).max() < 1e-8 * ksc and np.abs(M(b_[k]) - kin[k]).max() < 1e-8 * ksc and abs(t[k] - T[k] / max(c[k], 1)) < 1e-9 for k in range(n)), 'stress-profile', lambda: 'total or kinetic stress or temperature differ: %r, is %r' % (t, (T / np.maximum(c, 1)).tolist()))
    ctx.check(before == snapshot(), 'changed', 'asking for profiles changed the simulation')
    ctx.observed((dr, sel, d['clumps'] > 0, d['erased'] > 0, n > 5, len(S.I) > 0), 3 * n)


@each(100)
def geometry(ctx, case):
    """Small geometric measures."""
    rng = case.rng
    a, b, c = rvec(rng), rvec(rng), rvec(rng)
    p = utils.inscribedCircleCenter(a, b, c)
    la, lb, lc = (b - c).norm(), (c - a).norm(), (a - b).norm()
    ctx.check((p - (a * la + b * lb + c * lc) / (la + lb + lc)).norm() < 1e-9, 'inscribedCircleCenter', '%r' % p)
    v = [rvec(rng, rng.choice((.1, 1, 10))) for _ in range(4)]
    V = (v[1] - v[0]).dot((v[2] - v[0]).cross(v[3] - v[0])) / 6
    L = max((x - y).norm() for x in v for y in v)
    ctx.check(abs(utils.TetrahedronVolume(v) - abs(V)) < 1e-9 * L ** 3 and abs(abs(utils.TetrahedronSignedVolume(v)) - abs(V)) < 1e-9 * L ** 3, 'TetrahedronVolume', '%r, is %r' % (utils.TetrahedronVolume(v), abs(V)))
    w = [v[1], v[0], v[2], v[3]]
    ctx.check(abs(utils.TetrahedronSignedVolume(v) + utils.TetrahedronSignedVolume(w)) < 1e-9 * L ** 3, 'TetrahedronSignedVolume', 'sign')
    if abs(V) > 1e-3 * L ** 3:
        # second moments about the origin and about the centroid
        P = np.array([N(x) for x in v]); s = P.sum(0)
        C = abs(V) / 20 * (P.T @ P + np.outer(s, s)); I = np.trace(C) * np.eye(3) - C
        g = s / 4; Ic = I - abs(V) * (g.dot(g) * np.eye(3) - np.outer(g, g))
        sg = 1 if utils.TetrahedronSignedVolume(v) > 0 else -1
        got = M(utils.TetrahedronInertiaTensor(v)); gc = M(utils.TetrahedronCentralInertiaTensor(v))
        sc = np.abs(I).max()
        ctx.check(min(np.abs(got - I).max(), np.abs(got * sg - I).max()) < 1e-8 * sc, 'TetrahedronInertiaTensor', lambda: '%r, is %r' % (got.tolist(), I.tolist()))
        ctx.check(min(np.abs(gc - Ic).max(), np.abs(gc * sg - Ic).max()) < 1e-8 * sc, 'TetrahedronCentralInertiaTensor', lambda: '%r, is %r' % (gc.tolist(), Ic.tolist()))
        # a tetrahedron body: same vertices in space, principal inertia in its own axes
        vv = [Vector3(x) for x in (v if utils.TetrahedronSignedVolume(v) > 0 else w)]
        t = utils.tetra([Vector3(x) for x in vv], material=FrictMat(density=rng.choice((1., 2500.))))
        back = [t.state.pos + t.state.ori * x for x in t.shape.v]
        ctx.check(max((x - y).norm() for x, y in zip(back, vv)) < 1e-9 * L, 'tetra vertices', lambda: 'vertices %r came back as %r' % (vv, back))
        R = M(t.state.ori.toRotationMatrix()); dens = t.mat.density
        Ib = R @ np.diag(N(t.state.inertia)) @ R.T
        ctx.check(abs(t.state.mass - dens * abs(V)) < 1e-9 * dens * L ** 3 and np.abs(Ib - dens * Ic).max() < 1e-8 * dens * sc, 'tetra inertia', lambda: '%r, is %r' % (Ib.tolist(), (dens * Ic).tolist()))
    pts = [(rng.uniform(-5, 5), rng.uniform(-5, 5)) for _ in range(rng.randint(1, 8))]
    mn, mx = utils.aabbExtrema2d(pts)
    ctx.check(tuple(mn) == (min(x for x, _ in pts), min(y for _, y in pts)) and tuple(mx) == (max(x for x, _ in pts), max(y for _, y in pts)), 'aabbExtrema2d', '%r for %r' % ((mn, mx), pts))
    fr = rng.uniform(.1, 2); lo, hi = rvec(rng), rvec(rng) + Vector3(3, 3, 3)
    f0, f1 = utils.fractionalBox(fr, (lo, hi))
    ctx.check(all(abs(f0[i] + f1[i] - lo[i] - hi[i]) < 1e-9 and abs(f1[i] - f0[i] - fr * (hi[i] - lo[i])) < 1e-9 for i in range(3)), 'fractionalBox', '%r %r' % (f0, f1))
    q, l, h = rvec(rng, 2), rvec(rng), rvec(rng) + Vector3(1, 1, 1)
    ctx.check(bool(utils.ptInAABB(q, l, h)) == all(l[i] < q[i] < h[i] for i in range(3)), 'ptInAABB', '%r in %r %r' % (q, l, h))
    ctx.observed((V > 0, len(pts)), 8)


@each(20)
def steps(ctx, case):
    """Measures asked for at every step never influence the run: twin runs with and without asking end in the same state, bit for bit."""
    rng = case.rng
    seed = rng.randrange(10**9)
    res = []
    import random
    n = rng.randint(20, 60)
    for ask in (False, True):
        r2 = random.Random(seed)
        d = build(r2)
        for _ in range(n):
            if ask:
                utils.getStress(); utils.kineticEnergy(); utils.unbalancedForce(); utils.porosity(1.); utils.momentum(); utils.angularMomentum(); utils.bodyStressTensors(); utils.getDynamicStress(); utils.avgNumInteractions()
                utils.fabricTensor(); utils.avgNumInteractions(.2, True); utils.aabbExtrema(); utils.totalForceInVolume(); utils.getDepthProfiles(1., 4, .2, 0., False, 0., 2); utils.numIntrsOfEachBody(); utils.maxOverlapRatio()
                utils.sumForces([b.id for b in O.bodies], (1, 0, 0)); utils.PWaveTimeStep(); utils.interactionAnglesHistogram(0)
                if O.periodic: utils.normalShearStressTensors()
            O.step()
        res.append([(b.id, tuple(b.state.pos), tuple(b.state.vel), tuple(b.state.angVel), tuple(b.state.ori)) for b in O.bodies] + sorted((i.id1, i.id2, tuple(i.phys.normalForce), tuple(i.phys.shearForce)) for i in O.interactions))
    ctx.check(res[0] == res[1], 'influence', 'asking for measures changed the run (%r)' % d)
    ctx.observed((d['kind'], d['clumps'] > 0, d['erased'] > 0), n)


@each(12)
def voxel(ctx, case):
    """Porosity by voxels of a box."""
    rng = case.rng
    d = build(rng, periodic=False, steps=2)
    S = State_()
    res = rng.randint(50, 70)
    lo, hi = N(Vector3(rng.uniform(-.2, .2), rng.uniform(-.2, .2), rng.uniform(-.2, .2))), N(Vector3(rng.uniform(.6, 1.1), rng.uniform(.6, 1.1), rng.uniform(.6, 1.1)))
    got = utils.voxelPorosity(res, Vector3(*map(float, lo)), Vector3(*map(float, hi)))
    G = np.stack(np.meshgrid(*[lo[i] + (hi[i] - lo[i]) * np.arange(res) / res for i in range(3)], indexing='ij'), -1)
    full = np.zeros(G.shape[:3], bool)
    for b in S.sph:
        if b.dynamic or b.isClumpMember: full |= ((G - S.pos[b.id]) ** 2).sum(-1) < S.R[b.id] ** 2
    ctx.check(abs(got - (1 - full.mean())) < 3. / res ** 3 + 1e-12, 'voxelPorosity', '%r, counted %r' % (got, 1 - full.mean()))
    ctx.observed((d['clumps'] > 0, d['erased'] > 0), 1)
    for bad in ((10, (0, 0, 0), (1, 1, 1)), (100, (0, 0, 0), (0, 0, 0))):
        try: utils.voxelPorosity(*bad); ctx.check(False, 'voxel-error', 'no error for %r' % (bad,))
        except (ValueError, RuntimeError): pass


@each(50)
def sizes(ctx, case):
    """Size distribution of the bodies present."""
    rng = case.rng
    fresh()
    m = O.materials.append(FrictMat(density=rng.choice((1., 2000.))))
    rr = [rng.choice((.1, .2, rng.uniform(.05, .5))) for _ in range(rng.randint(2, 40))]
    for r in rr: O.bodies.append(utils.sphere(rvec(rng, 3), r, material=m, mask=rng.choice((1, 2, 3))))
    for b in [b.id for b in O.bodies]:
        if rng.random() < .1: O.bodies.erase(b)
    mask = rng.choice((-1, 1, 2)); bins = rng.choice((1, 3, 5, 10)); mass = rng.random() < .5
    sel = [b for b in O.bodies if mask < 0 or b.mask & mask]
    D = [2 * b.shape.radius for b in sel]
    if not D or min(D) == max(D): return
    import io, contextlib
    s, p, cum = utils.psd(bins, mass, mask)
    w = [b.state.mass if mass else 1. for b in sel]
    ctx.check(abs(s[0] - min(D)) < 1e-12 and abs(s[-1] - max(D)) < 1e-12 and len(s) == bins + 1, 'psd-edges', '%r' % (s,))
    ctx.check(abs(cum[-1] - sum(w)) < 1e-9 * sum(w) and abs(p[-1] - 1) < 1e-9 and p[0] == 0, 'psd-total', '%r, present %r' % (cum, sum(w)))
    for k in range(1, bins):
        l, h = sum(x for x, y in zip(w, D) if y < s[k] - 1e-9), sum(x for x, y in zip(w, D) if y < s[k] + 1e-9)
        ctx.check(l * (1 - 1e-9) <= cum[k] <= h * (1 + 1e-9) and abs(p[k] - cum[k] / cum[-1]) < 1e-9, 'psd', 'up to %r: %r, is %r..%r' % (s[k], cum[k], l, h))
    ctx.observed((bins, mass, mask), bins)


def power_volumes(P, R, lo, hi):
    """Volumes of the cells of the power diagram of spheres inside a box, by half-space intersection."""
    from scipy.spatial import HalfspaceIntersection, ConvexHull
    V = []
    box = [list(s * np.eye(3)[k]) + [-s * (hi[k] if s > 0 else lo[k])] for k in range(3) for s in (1, -1)]
    w = (P * P).sum(1) - R * R
    for i in range(len(P)):
        o = np.arange(len(P)) != i
        A = 2 * (P[o] - P[i]); b = w[o] - w[i]
        V.append(ConvexHull(HalfspaceIntersection(np.vstack([box, np.hstack([A, -b[:, None]])]), P[i]).intersections).volume)
    return np.array(V)


@each(12)
def tesselation(ctx, case):
    """Voronoi volumes, per-particle strain and boundary caps of the tesselation of the spheres present."""
    rng = case.rng
    fresh()
    hi0 = [rng.uniform(.7, 1.4) for _ in range(3)]
    sp = pack.SpherePack(); sp.makeCloud((0, 0, 0), hi0, rMean=rng.uniform(.07, .13), rRelFuzz=rng.choice((0, .2, .5)), seed=rng.randint(1, 10**6))
    L = sp.toList()
    if len(L) < 12: return
    walls = rng.choice(('none', 'before', 'after', 'amid', 'few'))
    W = utils.aabbWalls(((0, 0, 0), hi0))
    half = len(L) // 2
    if walls == 'before': O.bodies.append(W)
    O.bodies.append([utils.sphere(c, r) for c, r in L[:half]])
    if walls == 'amid': O.bodies.append(W)
    O.bodies.append([utils.sphere(c, r) for c, r in L[half:]])
    if walls == 'after': O.bodies.append(W)
    if walls == 'few': O.bodies.append(W[:rng.randint(1, 5)])
    er = rng.random() < .4
    if er:
        for b in [b.id for b in O.bodies if isinstance(b.shape, Sphere)]:
            if rng.random() < .1: O.bodies.erase(b)
    sb = [b for b in O.bodies if isinstance(b.shape, Sphere)]
    P, R = np.array([N(b.state.pos) for b in sb]), np.array([b.shape.radius for b in sb])
    lo, hi = (P - R[:, None]).min(0), (P + R[:, None]).max(0)
    tw = TesselationWrapper()
    if rng.random() < .3: tw.far = 1e5
    for rep in range(rng.choice((1, 2))):
        tw.triangulate(); tw.computeVolumes()
        got, want = np.array([tw.volume(b.id) for b in sb]), power_volumes(P, R, lo, hi)
        e = np.abs(got - want).max() / want.max()
        ctx.note_max('volume error', float(e))
        ctx.check(e < 5e-3 and abs(got.sum() / np.prod(hi - lo) - 1) < 2e-3, 'voronoi', 'cell volumes differ by %.3g of the largest, sum/box %.6f (walls %s, erased %r)' % (e, got.sum() / np.prod(hi - lo), walls, er))
    ctx.check(tw.volume(10 ** 6) == -1, 'voronoi-id', 'volume of an id which does not exist: %r' % tw.volume(10 ** 6))
    ctx.observed(('volume', walls, er), len(sb))
    # closed envelope: the caps of all boundary spheres add up to nothing, and forces applied through them are stress times cap
    t2 = TesselationWrapper(); t2.triangulate()
    al, sh, fx = rng.choice(((.5, 0, False), (.5, .1, False), (.5, .3, True)))
    caps = t2.getAlphaCaps(al, sh, fx)
    s = sum((N(c[1]) for c in caps), np.zeros(3)); a = sum(np.linalg.norm(N(c[1])) for c in caps)
    ctx.check(a > 0 and np.linalg.norm(s) < 1e-9 * a, 'caps', 'the caps add up to %r (total area %g)' % (list(s), a))
    S = Matrix3(*[rng.uniform(-10, 10) for _ in range(9)])
    t2.triangulate(); t2.applyAlphaForces(S, al, sh, fx)   # asking for caps adds the envelope to the triangulation
    O.forces.f(0, sync=True)
    want = {}
    for i, c in caps: want[i] = N(S * c)
    for b in sb:
        g = N(O.forces.permF(b.id)); w = want.get(b.id, np.zeros(3))
        ctx.check(np.abs(g - w).max() < 1e-4 * a, 'caps-force', 'body %d: force %r instead of %r' % (b.id, list(g), list(w)))
    ctx.observed(('caps', al, sh, fx), len(caps))
    # uniform deformation: every particle has exactly that displacement gradient, relative to the final configuration
    if walls in ('none', 'before') and not er:
        big = rng.random() < .5
        F = np.eye(3) + (.1 if big else .005) * np.array([[rng.uniform(-1, 1) for _ in range(3)] for _ in range(3)])
        t = rvec(rng)
        tw = TesselationWrapper(); tw.triangulate(); tw.computeVolumes(); tw.setState(0)
        for b in O.bodies: b.state.pos = Vector3(*(F @ N(b.state.pos))) + t
        tw.setState(1); tw.computeDeformations()
        G = (F - np.eye(3)) @ np.linalg.inv(F)
        for b in sb:
            D = np.array([[tw.deformation(b.id, i, j) for j in (1, 2, 3)] for i in (1, 2, 3)])
            ctx.check(np.abs(D - G).max() < 1e-8, 'strain', 'particle %d: gradient %r, imposed %r' % (b.id, D.tolist(), G.tolist()))
        ctx.observed(('strain', big), len(sb))
