"""Contact detection in open space against brute force, at every step."""
from common import *
import numpy as np
from geo import *

RULE = ('a case is a random scene and history; after every step the set of established contacts is compared with brute force over all pairs (one evaluation per step and per contact geometry); '
        'distinct = (case, step) with at least one contact created or lost since the previous step, or geometry classes seen')
ASSUMPTIONS = ['pairs within 1e-9 of touching are not judged', 'a body teleported by the script is judged from the second step on when a skin is used']


def plan(tier):
    k = 3 if tier == 'quick' else 30
    jobs = []
    for th in (1, 2, 5):
        for s in range(2):
            jobs.append(dict(func='mixed', name='mixed-t%d-%d' % (th, s), threads=th, args=dict(n=9 * k), weight=3))
    for th in (3, 8):
        jobs.append(dict(func='large', name='large-t%d' % th, threads=th, args=dict(n=3 * k), weight=5))
    jobs.append(dict(func='large', name='large-t1', threads=1, args=dict(n=1 * k), weight=5))
    jobs.append(dict(func='cohesive', name='cohesive-t2', threads=2, args=dict(n=8 * k)))
    jobs.append(dict(func='primitives', name='primitives', threads=1, args=dict(n=150 * k)))
    return jobs


# ---------------------------------------------------------------- oracle

class Snapshot:
    """Positions and shapes of all bodies before a step (nothing moves before the contacts are evaluated)."""

    def __init__(self):
        sph, other = [], []
        for b in O.bodies:
            if b is None or b.isClump or not b.bounded: continue
            if isinstance(b.shape, Sphere): sph.append((b.id, A(b.state.pos), b.shape.radius, b.mask, b.clumpId))
            else: other.append(b)
        self.id = np.array([s[0] for s in sph], dtype=int)
        self.pos = np.array([s[1] for s in sph]).reshape(-1, 3)
        self.r = np.array([s[2] for s in sph])
        self.mask = np.array([s[3] for s in sph], dtype=int)
        self.clump = np.array([s[4] for s in sph], dtype=int)
        self.other = [(b.id, b.shape, A(b.state.pos), rot(b.state.ori), b.mask, b.clumpId) for b in other]

    def pairs(self, avoid=0, factor=1.0):
        """{(id1,id2): gap} for all pairs that may interact and lie closer than a margin; gap<0 means touching."""
        out = {}
        if len(self.id) > 1:
            from scipy.spatial import cKDTree
            t = cKDTree(self.pos)
            rm = self.r.max()
            pr = t.query_pairs(2 * rm * factor + 1e-6, output_type='ndarray') if len(self.id) > 60 else np.array(np.triu_indices(len(self.id), 1)).T
            if len(pr):
                i, j = pr[:, 0], pr[:, 1]
                d = np.linalg.norm(self.pos[i] - self.pos[j], axis=1)
                gap = d - (self.r[i] + self.r[j]) * factor
                ok = (gap < 1e-6) & may(self.mask[i], self.mask[j], self.clump[i], self.clump[j], self.id[i], self.id[j], avoid)
                for a, b, g in zip(self.id[i[ok]], self.id[j[ok]], gap[ok]):
                    out[(min(a, b), max(a, b))] = g
        for bid, shape, pos, R, mask, clump in self.other:
            if len(self.id) == 0: continue
            g = gaps(shape, pos, R, self.pos, self.r)
            ok = (g < 1e-6) & may(self.mask, np.full(len(self.id), mask), self.clump, np.full(len(self.id), clump), self.id, np.full(len(self.id), bid), avoid)
            for k in np.nonzero(ok)[0]:
                a = self.id[k]
                out[(min(a, bid), max(a, bid))] = g[k]
        return out


def may(m1, m2, c1, c2, i1, i2, avoid):
    r = (m1 & m2) != 0
    r &= ~((c1 >= 0) & (c1 == c2))
    if avoid: r &= ~((m1 == m2) & ((m1 & avoid) != 0))
    return r


def gaps(shape, pos, R, P, r):
    """Gap between one box/wall/facet and many spheres."""
    if isinstance(shape, Wall):
        return np.abs(P[:, shape.axis] - pos[shape.axis]) - r
    loc = (P - pos) @ R
    if isinstance(shape, Box):
        e = A(shape.extents)
        q = np.clip(loc, -e, e)
        d = np.linalg.norm(loc - q, axis=1)
        ins = d == 0
        depth = np.min(e - np.abs(loc), axis=1)
        return np.where(ins, -depth - r, d - r)
    if isinstance(shape, Facet):
        v = [A(x) for x in shape.vertices]
        c = np.array([closest_on_triangle(p, *v) for p in loc])
        return np.linalg.norm(loc - c, axis=1) - r
    raise RuntimeError('unknown shape')


def describe(k):
    out = []
    for j in k:
        b = O.bodies[int(j)]
        out.append('%d: %s pos %s%s mask %d clump %d vel %s' % (b.id, type(b.shape).__name__, b.state.pos, ' r=%g' % b.shape.radius if isinstance(b.shape, Sphere) else '', b.mask, b.clumpId, b.state.vel))
    return '; '.join(out)


def compare(ctx, c, exp, what, tol=1e-9):
    real = {}
    n = 0
    for i in O.interactions:
        n += 1
        if not i.isReal: continue
        k = (min(i.id1, i.id2), max(i.id1, i.id2))
        ctx.check(k not in real, 'duplicate', '%s: pair %s has two contacts' % (what, k))
        real[k] = i
    for k, g in exp.items():
        if g < -tol:
            ctx.check(k in real, 'missed', lambda: '%s: bodies %s overlap by %g and have no contact (%d contacts, iter %d); %s; last operation: %s' % (what, k, -g, len(real), O.iter, describe(k), getattr(ctx, 'lastop', None)))
    for k in real:
        ctx.check(k in exp and exp[k] < tol, 'spurious', lambda: '%s: bodies %s have a contact but %s' % (what, k, 'their gap is %g' % exp[k] if k in exp else 'are apart or may not interact') + '; %s; last operation: %s' % (describe(k), getattr(ctx, 'lastop', None)))
    return real


def geometry(ctx, snap, real, which=None):
    """The recorded geometry of contacts with spheres."""
    idx = {int(i): n for n, i in enumerate(snap.id)}
    oth = {o[0]: o for o in snap.other}
    for k, i in real.items():
        if which is not None and k not in which: continue
        g = i.geom
        if i.id1 in idx and i.id2 in idx:
            a, b = idx[i.id1], idx[i.id2]
            d = snap.pos[b] - snap.pos[a]
            L = np.linalg.norm(d)
            if L < 1e-6: continue
            n = d / L
            pen = snap.r[a] + snap.r[b] - L
            cp = snap.pos[a] + n * (snap.r[a] - pen / 2)
            ctx.observed(('ss', round(math.log10(abs(pen) + 1e-12)), round(snap.r[a] / snap.r[b], 1)))
            ctx.check(np.allclose(A(g.normal), n, atol=1e-9) and abs(g.penetrationDepth - pen) < 1e-9 and np.allclose(A(g.contactPoint), cp, atol=1e-9) and
                      abs(g.refR1 - snap.r[a]) < 1e-12 and abs(g.refR2 - snap.r[b]) < 1e-12, 'geometry-spheres',
                      lambda: 'contact %s: normal %s overlap %g point %s, expected %s %g %s' % (k, g.normal, g.penetrationDepth, g.contactPoint, n, pen, cp))
        else:
            o, s = (i.id1, i.id2) if i.id1 in oth else (i.id2, i.id1)
            bid, shape, pos, R, mask, clump = oth[o]
            p, r = snap.pos[idx[s]], snap.r[idx[s]]
            gap = gaps(shape, pos, R, p[None, :], np.array([r]))[0]
            ctx.observed((type(shape).__name__, round(math.log10(abs(gap) + 1e-12)), i.id1 == o))
            sgn = 1 if i.id1 == o else -1
            n = sgn * A(g.normal)
            q = p + n * (gap)  # the point of the obstacle closest to the centre moved ... along the normal
            ctx.check(abs(g.penetrationDepth + gap) < 1e-8, 'geometry-%s' % type(shape).__name__, lambda: 'contact %s: overlap %g, expected %g' % (k, g.penetrationDepth, -gap))
            # moving the sphere along the normal by the overlap must bring it exactly to touching
            if not (isinstance(shape, Wall) and shape.sense != 0):
                p2 = p + n * (-gap + 1e-7 * r)
                g2 = gaps(shape, pos, R, p2[None, :], np.array([r]))[0]
                ctx.check(abs(g2 - 1e-7 * r) < 1e-6 * r, 'geometry-%s' % type(shape).__name__, lambda: 'contact %s: normal %s does not lead out of the overlap (gap %g after moving by the overlap %g)' % (k, g.normal, g2, -gap))
                ctx.check(abs(np.linalg.norm(n) - 1) < 1e-9, 'geometry-%s' % type(shape).__name__, lambda: 'contact %s: normal %s' % (k, g.normal))
            cp = A(g.contactPoint)
            ctx.check(abs(np.linalg.norm(cp - p)) <= r * (1 + 1e-6) + max(0, -gap - r), 'geometry-%s' % type(shape).__name__, lambda: 'contact %s: contact point %s outside the sphere at %s' % (k, cp, p))


# ---------------------------------------------------------------- workloads

def random_collider(rng, big=False):
    col = InsertionSortCollider([Bo1_Sphere_Aabb(), Bo1_Box_Aabb(), Bo1_Facet_Aabb(), Bo1_Wall_Aabb()])
    col.verletDist = rng.choice((0, -.5, -.1, -.02, -2, .3, .01))
    col.targetInterv = rng.choice((0, 1, 50, 50, 500))
    col.minSweepDistFactor = rng.choice((.1, .1, .5, 1., .01))
    col.updatingDispFactor = rng.choice((-1, -1, 1.5, 2, 1.01))
    col.sortAxis = rng.choice((0, 1, 2))
    col.sortThenCollide = rng.random() < .15
    return col


def loop(law=None):
    return InteractionLoop([Ig2_Sphere_Sphere_ScGeom(), Ig2_Box_Sphere_ScGeom(), Ig2_Facet_Sphere_ScGeom(), Ig2_Wall_Sphere_ScGeom()],
                           [Ip2_FrictMat_FrictMat_FrictPhys()], [law or Law2_ScGeom_FrictPhys_CundallStrack()])


def add_material(rng):
    O.materials.append(FrictMat(density=1000, young=rng.choice((1e3, 1e4, 1e5)), poisson=.3, frictionAngle=rng.choice((0, .5))))


@each(5)
def mixed(ctx, c):
    """Spheres with boxes, walls, facets, clumps and masks; bodies come and go."""
    rng = c.rng
    fresh()
    add_material(rng)
    L = rng.choice((4., 6., 9.))
    n = rng.choice((5, 25, 60, 90))
    v0 = rng.choice((0, 1, 10., 60.))
    masks = rng.choice(((1,), (1, 2, 3), (1, 2, 4, 7), (5, 6, 3)))
    spread = rng.choice((.1, .5, .9))

    def sph():
        b = utils.sphere((rng.uniform(0, L), rng.uniform(0, L), rng.uniform(0, L)), rng.uniform(1 - spread, 1) * .6, mask=rng.choice(masks), fixed=rng.random() < .05)
        b.state.vel = rvec(rng, v0)
        b.state.angVel = rvec(rng, v0)
        return b
    O.bodies.append([sph() for _ in range(n)])
    for _ in range(rng.randint(0, 3)):  # clumps
        ctr = Vector3(rng.uniform(0, L), rng.uniform(0, L), rng.uniform(0, L))
        cid, mids = O.bodies.appendClumped([utils.sphere(ctr + rvec(rng, .5), rng.uniform(.2, .6), mask=rng.choice(masks)) for _ in range(rng.randint(2, 4))])
        O.bodies[cid].state.vel = rvec(rng, v0)
        O.bodies[cid].state.angVel = rvec(rng, v0)

    def obstacle():
        kind = rng.choice(('box', 'wall', 'facet', 'facet', 'mbox'))
        m = rng.choice(masks)
        if kind == 'wall': b = utils.wall(rng.uniform(0, L), rng.choice((0, 1, 2)), sense=rng.choice((0, 0, 1, -1)), mask=m)
        elif kind == 'facet':
            b = utils.facet([Vector3(rng.uniform(0, L), rng.uniform(0, L), rng.uniform(0, L)) for _ in range(3)], mask=m)
        else:
            b = utils.box((rng.uniform(0, L), rng.uniform(0, L), rng.uniform(0, L)), (rng.uniform(.1, L / 2), rng.uniform(.1, L / 2), rng.choice((0, .1, 1))), orientation=rquat(rng), fixed=True, mask=m)
        if rng.random() < .5 and kind != 'wall':
            b.state.vel = rvec(rng, min(v0, 5.)); b.state.angVel = rvec(rng, 3)
        elif rng.random() < .5:
            b.state.vel[b.shape.axis if kind == 'wall' else 0] = rng.uniform(-3, 3)
        return b
    for _ in range(rng.randint(0, 4)): O.bodies.append(obstacle())
    col = random_collider(rng)
    avoid = rng.choice((0, 0, 0, 2, 3))
    col.avoidSelfInteractionMask = avoid
    O.engines = [ForceResetter(), col, loop(), NewtonIntegrator(damping=rng.choice((0, .3)), gravity=rvec(rng, 10))]
    O.dt = rng.choice((1e-3, 4e-3))
    prev = None
    nocheck = 0
    for step in range(rng.randint(25, 70)):
        r = rng.random()
        ctx.mark('step %d' % step)
        if r < .26: ctx.lastop = 'step %d r=%g' % (step, r)
        if r < .06: O.bodies.append([sph() for _ in range(rng.choice((1, 1, 3, 110)))] if len(O.bodies) < 300 else [sph()])
        elif r < .12:
            k = rng.choice(ids())
            b = O.bodies[k]
            if not b.isClump and not b.isClumpMember and len(ids()) > 3:
                O.bodies.erase(k)
                if rng.random() < .5:
                    nb = sph()
                    if rng.random() < .6: nb.state.pos = b.state.pos
                    O.bodies.insertAtId(nb, k)
        elif r < .16: O.bodies.append(obstacle())
        elif r < .20:
            for k in rng.sample(ids(), 2):
                b = O.bodies[k]
                if b.isStandalone and isinstance(b.shape, Sphere):
                    b.state.pos = Vector3(rng.uniform(0, L), rng.uniform(0, L), rng.uniform(0, L)); nocheck = 1
        elif r < .24:
            for b in O.bodies:
                if b.isStandalone and not isinstance(b.shape, Wall): b.state.vel = rvec(rng, v0)
        elif r < .26:
            col.sortThenCollide = not col.sortThenCollide
        snap = Snapshot()
        O.step()
        if nocheck and col.verletDist > 0:
            nocheck = 0
            continue
        nocheck = 0
        exp = snap.pairs(avoid)
        real = compare(ctx, c, exp, 'mixed')
        key = frozenset(real)
        ctx.observed((c.idx, ctx.spec['name'], step) if key != prev and real else None)
        if step % 3 == 0: geometry(ctx, snap, real)
        ctx.note('contacts', len(real))
        prev = key
    ctx.note('collider_runs', col.numAction)
    ctx.sample('%d bodies, skin %g, interval %d, threads %d, last step %d contacts, collider ran %d times in %d steps' % (len(O.bodies), col.verletDist, col.targetInterv, ctx.spec['threads'], len(real), col.numAction, O.iter))


@each(2)
def large(ctx, c):
    """More than 1000 bodies, so that the bounds are sorted in parallel."""
    rng = c.rng
    fresh()
    add_material(rng)
    n = rng.choice((1001, 1300, 2100))
    shape = rng.choice(('cube', 'column', 'layer'))
    L = {'cube': (n ** (1 / 3.),) * 3, 'column': (3., 3., n / 9.), 'layer': (n ** .5, n ** .5, 1.)}[shape]
    v0 = rng.choice((2., 20., 100.))
    perm = rng.random() < .5

    def sph(): 
        b = utils.sphere((rng.uniform(0, L[0]), rng.uniform(0, L[1]), rng.uniform(0, L[2])), rng.uniform(.3, .6))
        b.state.vel = rvec(rng, v0)
        return b
    bb = [sph() for _ in range(n)]
    if not perm: bb.sort(key=lambda b: b.state.pos[2])
    O.bodies.append(bb)
    O.bodies.append(utils.wall(0, 2))
    col = random_collider(rng)
    col.sortThenCollide = False
    O.engines = [ForceResetter(), col, loop(), NewtonIntegrator(damping=0, gravity=(0, 0, -10))]
    O.dt = rng.choice((1e-3, 5e-3))
    prev = None
    for step in range(22):
        ctx.mark('step %d' % step)
        if step % 6 == 3:
            for k in rng.sample(ids(), 10): O.bodies.erase(k)
            O.bodies.append([sph() for _ in range(rng.choice((3, 95, 140)))])
        if step == 14:
            for b in O.bodies: b.state.vel = rvec(rng, v0 * 3)
        snap = Snapshot()
        O.step()
        real = compare(ctx, c, snap.pairs(), 'large')
        key = frozenset(real)
        ctx.observed((c.idx, ctx.spec['name'], step) if key != prev and real else None)
        ctx.note('contacts', len(real))
        prev = key
        if step % 7 == 0: geometry(ctx, snap, real)
    ctx.note('collider_runs', col.numAction)
    ctx.note('reinit', col.numReinit)


@each(3)
def cohesive(ctx, c):
    """Enlarged detection distance, contacts that persist once made."""
    rng = c.rng
    fresh()
    add_material(rng)
    n = rng.choice((20, 80, 200))
    L = 1.1 * n ** (1 / 3.)
    f = rng.choice((1.05, 1.2, 1.5))
    O.bodies.append([utils.sphere((rng.uniform(0, L), rng.uniform(0, L), rng.uniform(0, L)), rng.uniform(.2, .6)) for _ in range(n)])
    col = random_collider(rng)
    col.boundDispatcher.functors = [Bo1_Sphere_Aabb(aabbEnlargeFactor=f * rng.choice((1, 1.1)))]
    O.engines = [ForceResetter(), col, InteractionLoop([Ig2_Sphere_Sphere_ScGeom(interactionDetectionFactor=f)], [Ip2_FrictMat_FrictMat_FrictPhys()], [Law2_ScGeom_FrictPhys_CundallStrack(neverErase=True)]), NewtonIntegrator(damping=.2)]
    for b in O.bodies: b.state.vel = rvec(rng, 8.)
    O.dt = 2e-3
    ever = set()
    for step in range(40):
        ctx.mark('step %d' % step)
        if step % 10 == 5:
            k = rng.choice(ids())
            O.bodies.erase(k)
            ever = {p for p in ever if k not in p}
        snap = Snapshot()
        O.step()
        exp = snap.pairs(0, f)
        new = {k for k, g in exp.items() if g < -1e-9}
        real = {(min(i.id1, i.id2), max(i.id1, i.id2)) for i in O.interactions if i.isReal}
        missing = (new | ever) - real
        ctx.check(not missing, 'missed-persistent', lambda: 'step %d: contacts %s should exist (factor %g)' % (step, sorted(missing)[:5], f))
        extra = real - ever - {k for k, g in exp.items() if g < 1e-9}
        ctx.check(not extra, 'spurious-persistent', lambda: 'step %d: contacts %s should not exist (factor %g)' % (step, sorted(extra)[:5], f))
        ctx.observed((c.idx, step, ctx.spec['name']) if real != ever else None)
        ever = real


@each(50)
def primitives(ctx, c):
    """One sphere and one obstacle (or sphere) in every relative placement, made through the pairwise interface."""
    rng = c.rng
    fresh()
    add_material(rng)
    sc = 10 ** rng.uniform(-3, 3)
    r = sc * rng.uniform(.1, 1)
    kind = rng.choice(('box', 'facet', 'facet', 'wall', 'sphere'))
    ctr = rvec(rng, 5 * sc)
    if kind == 'box': o = utils.box(ctr, Vector3(rng.uniform(.05, 2), rng.uniform(.05, 2), rng.choice((0, rng.uniform(.05, 2)))) * sc, orientation=rquat(rng), fixed=True)
    elif kind == 'facet': o = utils.facet([ctr + rvec(rng, 2 * sc) for _ in range(3)])
    elif kind == 'wall': o = utils.wall(ctr, rng.choice((0, 1, 2)))
    else: o = utils.sphere(ctr, sc * rng.uniform(.1, 1), fixed=True)
    s = utils.sphere(ctr + rvec(rng, 2 * sc), r)
    first = rng.random() < .5
    O.bodies.append([o, s] if first else [s, o])
    col = InsertionSortCollider([Bo1_Sphere_Aabb(), Bo1_Box_Aabb(), Bo1_Facet_Aabb(), Bo1_Wall_Aabb()], verletDist=0)
    O.engines = [ForceResetter(), col, loop(), NewtonIntegrator(dead=True)]
    for step in range(12):
        s.state.pos = ctr + rvec(rng, 2 * sc) if kind != 'wall' else ctr + rvec(rng, 1.5 * r)
        if rng.random() < .3 and kind == 'facet':  # near an edge or a corner
            w = [rng.choice((0, 0, 1, rng.random())) for _ in range(3)]
            if sum(w): 
                p = Vector3(0, 0, 0)
                for wi, v in zip(w, o.shape.vertices): p += v * (wi / sum(w))
                s.state.pos = o.state.pos + o.state.ori * p + rvec(rng, r)
        snap = Snapshot()
        O.step()
        exp = {k: g for k, g in snap.pairs().items()}
        tol = 1e-9 * max(sc, 1e-9)
        real = compare(ctx, c, exp, kind, tol)
        ctx.observed((kind, first, bool(real), c.idx % 40))
        for k, i in real.items():
            g = i.geom
            oid = o.id
            if kind == 'sphere': continue
            gap = gaps(o.shape, snap.other[0][2], snap.other[0][3], A(s.state.pos)[None, :], np.array([r]))[0]
            ctx.check(abs(g.penetrationDepth + gap) < 1e-7 * sc, 'geometry-%s' % kind, lambda: 'overlap %g, expected %g (%s)' % (g.penetrationDepth, -gap, kind))
            n = A(g.normal) * (1 if i.id1 == oid else -1)
            p2 = A(s.state.pos) + n * (-gap)
            g2 = gaps(o.shape, snap.other[0][2], snap.other[0][3], p2[None, :], np.array([r]))[0]
            ctx.check(abs(g2) < 1e-6 * sc, 'geometry-%s' % kind, lambda: 'normal %s does not lead out of the overlap %g (%s): %g left' % (g.normal, -gap, kind, g2))
            if kind == 'wall': e = A(s.state.pos); e[o.shape.axis] = o.state.pos[o.shape.axis]
            else: e = A(s.state.pos) - n * (r - .5 * g.penetrationDepth)
            ctx.check(np.linalg.norm(A(g.contactPoint) - e) < 1e-6 * sc, 'geometry-%s' % kind, lambda: 'contact point %s, expected %s (%s)' % (g.contactPoint, e, kind))

