"""Contact detection in periodic cells against brute force over images, at every step."""
from common import *
import numpy as np
from geo import *
from P01 import add_material, random_collider, loop, describe

RULE = ('a case is a random cell, particle set and history; after every step the contacts are compared with brute force over all neighbouring images (one evaluation per step and per contact geometry); '
        'distinct = (case, step) where the set of contacts changed, or (image offset, cell kind) seen in a contact')
ASSUMPTIONS = ['pairs within 1e-9 of touching are not judged', 'particles with their skin are smaller than half the cell in every direction (documented requirement of the collider)', 'a skin is used in a deforming cell only when particles follow the deformation']


def plan(tier):
    k = 2 if tier == 'quick' else 25
    jobs = []
    for th in (1, 3):
        for s in range(3):
            jobs.append(dict(func='spheres', name='spheres-t%d-%d' % (th, s), threads=th, args=dict(n=10 * k), weight=3))
    jobs.append(dict(func='large', name='large-t4', threads=4, args=dict(n=max(2, k)), weight=4))
    jobs.append(dict(func='facets', name='facets-t2', threads=2, args=dict(n=10 * k)))
    jobs.append(dict(func='pair', name='pair', threads=1, args=dict(n=80 * k)))
    return jobs


def random_cell(rng, L, shear=None):
    kind = shear or rng.choice(('box', 'box', 'aspect', 'shear', 'rot', 'general'))
    H = np.diag([L, L, L]).astype(float)
    if kind == 'aspect': H = np.diag([L * rng.uniform(1, 2), L, L * rng.uniform(1, 3)])
    if kind in ('shear', 'general'):
        S = np.eye(3)
        for i in range(3):
            for j in range(3):
                if i != j and rng.random() < .6: S[i, j] = rng.uniform(-.45, .45)
        H = S @ np.diag([L * rng.uniform(1, 1.5), L, L * rng.uniform(1, 1.5)])
    if kind in ('rot', 'general'): H = rot(rquat(rng)) @ H
    if np.linalg.det(H) < 0: H[:, 0] *= -1
    return kind, H


def Mat(H): return Matrix3(*[float(x) for x in np.asarray(H).flatten()])


def heights(H):
    """Distances between opposite faces of the cell."""
    inv = np.linalg.inv(H)
    return 1 / np.linalg.norm(inv, axis=1)


def images(H, pos, r):
    """For all pairs: the shortest image vector (j - i), its image indices and its length."""
    n = len(pos)
    I, J = np.triu_indices(n, 1)
    inv = np.linalg.inv(H)
    s = (pos[J] - pos[I]) @ inv.T
    base = -np.round(s)
    best, bestv, bestk = np.full(len(I), np.inf), np.zeros((len(I), 3)), np.zeros((len(I), 3))
    second = np.full(len(I), np.inf)
    for a in (-1, 0, 1):
        for b in (-1, 0, 1):
            for c in (-1, 0, 1):
                k = base + np.array([a, b, c])
                v = (s + k) @ H.T
                d = np.linalg.norm(v, axis=1)
                better = d < best
                second = np.where(better, best, np.minimum(second, d))
                best = np.where(better, d, best)
                bestv[better] = v[better]
                bestk[better] = k[better]
    return I, J, best, bestv, bestk, second


def state():
    bb = [b for b in O.bodies if isinstance(b.shape, Sphere)]
    return bb, np.array([A(b.state.pos) for b in bb]).reshape(-1, 3), np.array([b.shape.radius for b in bb])


def judge(ctx, c, step, bb, pos, r, H, prev, kind, factor=1.0):
    """Compares the contacts after a step with brute force at the positions before it and the cell of the step."""
    I, J, best, bestv, bestk, second = images(H, pos, r)
    gap = best - (r[I] + r[J]) * factor
    idn = np.array([b.id for b in bb])
    exp = {}
    for q in np.nonzero(gap < 1e-6)[0]:
        a, b = bb[I[q]], bb[J[q]]
        if (a.mask & b.mask) == 0 or (a.clumpId >= 0 and a.clumpId == b.clumpId): continue
        exp[(int(idn[I[q]]), int(idn[J[q]]))] = (gap[q], bestv[q], bestk[q], second[q] - best[q])
    real = {}
    for i in O.interactions:
        if not i.isReal: continue
        k = (min(i.id1, i.id2), max(i.id1, i.id2))
        ctx.check(k not in real, 'duplicate', 'pair %s has two contacts' % (k,))
        real[k] = i
    info = lambda k: '%s; cell %s (%s), iter %d, born %s, %s' % (describe(k), H.tolist(), kind, O.iter, [O.bodies[j].iterBorn for j in k], getattr(ctx, 'conf', ''))
    for k, e in exp.items():
        if e[0] < -1e-9: ctx.check(k in real, 'missed', lambda: 'bodies %s overlap by %g (image %s) and have no contact: %s' % (k, -e[0], e[2], info(k)))
    R = {int(b.id): x for b, x in zip(bb, r)}
    P = {int(b.id): x for b, x in zip(bb, pos)}
    for k, i in real.items():
        ctx.check(k in exp and exp[k][0] < 1e-9, 'spurious', lambda: 'bodies %s have a contact without touching images: %s' % (k, info(k)))
        g, v, ki, margin = exp[k]
        if margin < 1e-6: continue
        if i.id1 != k[0]: v, ki = -v, -ki
        d = np.linalg.norm(v)
        n = v / d
        pen = R[i.id1] + R[i.id2] - d
        cp = P[i.id1] + n * (R[i.id1] - pen / 2)
        gm = i.geom
        ctx.observed((tuple(int(x) for x in i.cellDist), kind))
        tol = 1e-8 * (1 + np.abs(P[i.id1]).max() + np.abs(P[i.id2]).max())
        ctx.check(np.allclose(A(gm.normal), n, atol=tol) and abs(gm.penetrationDepth - pen) < tol and np.allclose(A(gm.contactPoint), cp, atol=tol), 'geometry',
                  lambda: 'contact %s: normal %s overlap %g point %s, expected %s %g %s; cellDist %s; %s' % (k, gm.normal, gm.penetrationDepth, gm.contactPoint, n, pen, cp, i.cellDist, info(k)))
        ctx.check(np.array_equal(A(i.cellDist), ki), 'image', lambda: 'contact %s: recorded image %s, nearest %s; %s' % (k, i.cellDist, ki, info(k)))
    key = frozenset(real)
    ctx.observed((c.idx, ctx.spec['name'], step) if key != prev and real else None)
    ctx.note('contacts', len(real))
    return key


def grad(rng, kind, rate):
    if kind == 'zero': return np.zeros((3, 3))
    if kind == 'iso': return -np.eye(3) * rate
    if kind == 'diag': return np.diag([rng.uniform(-rate, rate) for _ in range(3)])
    if kind == 'shear':
        G = np.zeros((3, 3)); i, j = rng.sample(range(3), 2); G[i, j] = rng.uniform(-rate, rate); return G
    return np.array([[rng.uniform(-rate, rate) for _ in range(3)] for _ in range(3)])


def setup(ctx, c, n, kind=None, far=3):
    rng = c.rng
    fresh()
    add_material(rng)
    O.periodic = True
    rmax = .5
    L = max(4 * rmax * 1.5, rng.uniform(.9, 1.6) * n ** (1 / 3.))
    kind, H = random_cell(rng, L, kind)
    if heights(H).min() < 7 * rmax: H *= 7 * rmax / heights(H).min()
    O.cell.hSize = Mat(H)
    v0 = rng.choice((0, 1, 10., 40.))
    masks = rng.choice(((1,), (1,), (1, 2, 3)))
    off = rng.choice((0, 0, 1, far))

    def sph():
        s = np.array([rng.random() + rng.randint(-off, off) for _ in range(3)])
        if rng.random() < .3: s = np.round(s) + np.array([rng.uniform(-.05, .05) for _ in range(3)])  # near the boundary
        b = utils.sphere(Vector3(*(O_H() @ s)), rng.uniform(.2, 1) * rmax, mask=rng.choice(masks))
        b.state.vel = rvec(rng, v0)
        return b

    def O_H(): return M(O.cell.hSize)
    O.bodies.append([sph() for _ in range(n)])
    col = random_collider(rng)
    col.verletDist = rng.choice((0, -.3, -.1, -.5, .05))  # the smallest radius is about .1
    O.engines = [ForceResetter(), col, loop(), NewtonIntegrator(damping=rng.choice((0, .3)))]
    O.dt = rng.choice((1e-3, 3e-3))
    return rng, kind, sph, col, v0


@each(5)
def spheres(ctx, c):
    rng, kind, sph, col, v0 = setup(ctx, c, c.rng.choice((4, 30, 80, 130)))
    gk = rng.choice(('zero', 'iso', 'diag', 'shear', 'full'))
    rate = rng.choice((.5, 3.))
    O.cell.velGrad = Mat(grad(rng, gk, rate))
    O.cell.homoDeform = rng.choice((2, 2, 1, 0))
    if O.cell.homoDeform == 0 and gk != 'zero': col.verletDist = 0
    prev = None
    ctx.conf = 'skin %g, homoDeform %d, velGrad %s, threads %d' % (col.verletDist, O.cell.homoDeform, O.cell.nextVelGrad, ctx.spec['threads'])
    for step in range(rng.randint(30, 70)):
        ctx.mark('step %d' % step)
        q = rng.random()
        if q < .05: O.bodies.append([sph() for _ in range(rng.choice((1, 3)))])
        elif q < .10:
            k = rng.choice(ids())
            if len(ids()) > 3: O.bodies.erase(k)
        elif q < .14: O.cell.velGrad = Mat(grad(rng, rng.choice(('zero', gk)), rate))
        elif q < .17 and gk == 'zero':
            for b in O.bodies: b.state.vel = rvec(rng, v0)
        bb, pos, r = state()
        O.step()
        H = M(O.cell.hSize)
        if heights(H).min() < 6 * .5: break
        prev = judge(ctx, c, step, bb, pos, r, H, prev, kind)
    ctx.note('collider_runs', col.numAction)
    ctx.note('steps', O.iter)
    ctx.sample('%d spheres in a %s cell deformed by %s, skin %g, homoDeform %d, collider ran %d times in %d steps' % (len(bb), kind, gk, col.verletDist, O.cell.homoDeform, col.numAction, O.iter))


@each(2)
def large(ctx, c):
    rng, kind, sph, col, v0 = setup(ctx, c, c.rng.choice((300, 600, 1050)))
    O.cell.velGrad = Mat(grad(rng, rng.choice(('zero', 'iso', 'shear')), 1.))
    ctx.conf = 'skin %g, homoDeform %d, velGrad %s, threads %d' % (col.verletDist, O.cell.homoDeform, O.cell.nextVelGrad, ctx.spec['threads'])
    prev = None
    for step in range(16):
        ctx.mark('step %d' % step)
        if step in (6, 13): O.bodies.append([sph() for _ in range(rng.choice((5, 110)))])
        if step == 9:
            for b in rng.sample(ids(), 20): O.bodies.erase(b)
        bb, pos, r = state()
        O.step()
        prev = judge(ctx, c, step, bb, pos, r, M(O.cell.hSize), prev, kind)


@each(30)
def pair(ctx, c):
    """Two or three spheres crossing the boundary of a cell at speed, in every direction."""
    rng, kind, sph, col, v0 = setup(ctx, c, c.rng.choice((2, 3)), far=40)
    H = M(O.cell.hSize)
    u = rvec(rng, 1).normalized() if hasattr(Vector3, 'normalized') else rvec(rng, 1)
    for b in O.bodies: b.state.vel = u * rng.choice((.02, .1)) / O.dt + rvec(rng, 2)
    ids_ = ids()
    a, b = O.bodies[ids_[0]], O.bodies[ids_[1]]
    d = rvec(rng, 1)
    b.state.pos = a.state.pos + d / d.norm() * (a.shape.radius + b.shape.radius) * rng.uniform(.9, 1.1) + Vector3(*(H @ np.array([rng.randint(-2, 2) for _ in range(3)])))
    prev = None
    for step in range(60):
        bb, pos, r = state()
        O.step()
        prev = judge(ctx, c, step, bb, pos, r, M(O.cell.hSize), prev, kind)


@each(5)
def facets(ctx, c):
    """Facets, boxes with spheres across the boundary of an orthogonal cell."""
    rng, kind, sph, col, v0 = setup(ctx, c, c.rng.choice((10, 40)), kind=c.rng.choice(('box', 'aspect')))
    H = M(O.cell.hSize)
    obs = []
    for _ in range(rng.randint(1, 4)):
        ctr = Vector3(*(H @ np.array([rng.random() + rng.randint(-1, 1) for _ in range(3)])))
        if rng.random() < .7: b = utils.facet([ctr + rvec(rng, .5) for _ in range(3)])
        else: b = utils.box(ctr, (rng.uniform(.1, .3), rng.uniform(.1, .3), rng.uniform(0, .3)), orientation=rquat(rng), fixed=True)
        b.state.vel = rvec(rng, 3)
        obs.append(O.bodies.append(b))
    col.verletDist = rng.choice((0, .05, .1))
    from P01 import gaps
    prev = None
    for step in range(40):
        ctx.mark('step %d' % step)
        bb, pos, r = state()
        ob = [(O.bodies[i], A(O.bodies[i].state.pos), rot(O.bodies[i].state.ori)) for i in obs]
        O.step()
        H = M(O.cell.hSize)
        inv = np.linalg.inv(H)
        exp = {}
        for b, p, R in ob:
            for q in range(len(bb)):
                if (bb[q].mask & b.mask) == 0: continue
                s = inv @ (pos[q] - p)
                base = pos[q] - H @ np.round(s)
                g = min(gaps(b.shape, p, R, (base + H @ np.array([i, j, k]))[None, :], r[q:q + 1])[0] for i in (-1, 0, 1) for j in (-1, 0, 1) for k in (-1, 0, 1))
                if g < 1e-6: exp[(min(b.id, bb[q].id), max(b.id, bb[q].id))] = g
        real = {(min(i.id1, i.id2), max(i.id1, i.id2)): i for i in O.interactions if i.isReal and (i.id1 in obs or i.id2 in obs)}
        for k, g in exp.items():
            if g < -1e-9: ctx.check(k in real, 'missed-obstacle', lambda: 'bodies %s overlap by %g through the boundary and have no contact: %s' % (k, -g, describe(k)))
        for k, i in real.items():
            ctx.check(k in exp and exp[k] < 1e-9, 'spurious-obstacle', lambda: 'bodies %s have a contact and do not touch: %s' % (k, describe(k)))
            ctx.check(abs(i.geom.penetrationDepth + exp[k]) < 1e-8, 'geometry-obstacle', lambda: 'contact %s: overlap %g, expected %g; %s' % (k, i.geom.penetrationDepth, -exp[k], describe(k)))
            ctx.observed(('obstacle', type(O.bodies[i.id1].shape).__name__, tuple(int(x) for x in i.cellDist)))
        ctx.observed((c.idx, step, 'obst') if real else None)
        ctx.note('obstacle_contacts', len(real))
