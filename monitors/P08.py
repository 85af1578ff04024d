"""Clumps: rigid motion, mass properties, membership through editing histories."""
from common import *
import P07
from P07 import qt, qrot, qinv, qdist, snapshot, check_body
import numpy as np

RULE = ('a case is a set of clumps (separate, overlapping, non-spherical members) that is built, or edited by a random history, or run under contacts, member forces and gravity; every clump after every edit or step is one evaluation; '
        'distinct = (what was done, member count, overlapping, shapes, discretization, threads)')
ASSUMPTIONS = ['mass properties are recomputed by clumping, adding, releasing and updateClumpProperties, not by erasing a member with O.bodies.erase (documented)',
               'overlapping members: compared with an own fine integration to the accuracy of the requested grid', 'members of different density that overlap are not judged']


def plan(tier):
    k = 1 if tier == 'quick' else 8
    return [dict(func='massprops', name='mass-%d' % i, args=dict(n=300 * k)) for i in range(2)] + \
           [dict(func='overlap', name='overlap-%d' % i, args=dict(n=120 * k)) for i in range(2)] + \
           [dict(func='motion', name='motion-t%d' % t, threads=t, args=dict(n=100 * k)) for t in (1, 2, 4)] + \
           [dict(func='edit', name='edit-%d' % i, args=dict(n=120 * k)) for i in range(2)] + \
           [dict(func='replace', name='replace', args=dict(n=40 * k))]


def A(v): return np.array([v[0], v[1], v[2]], float)


def Rm(q):
    w, x, y, z = q
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)], [2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)], [2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)]])


def expected(mem):
    """Mass, centre, inertia tensor about the centre (world axes) of separate members."""
    M, S = 0., np.zeros(3)
    parts = []
    for b in mem:
        s = b.state
        if isinstance(b.shape, Sphere):
            m = b.material.density * 4 / 3. * pi * b.shape.radius**3
            I = np.eye(3) * .4 * m * b.shape.radius**2
        else:
            m = s.mass
            R = Rm(qt(s.ori)); I = R @ np.diag(A(s.inertia)) @ R.T
        parts.append((m, A(s.pos), I)); M += m; S += m * A(s.pos)
    c = S / M
    J = np.zeros((3, 3))
    for m, p, I in parts:
        d = p - c
        J += I + m * (d @ d * np.eye(3) - np.outer(d, d))
    return M, c, J


def tensor(b):
    R = Rm(qt(b.state.ori))
    return R @ np.diag(A(b.state.inertia)) @ R.T


def check_props(ctx, cid, where, rtol=1e-9):
    cb = O.bodies[cid]
    mem = [O.bodies[i] for i in cb.shape.members]
    M, c, J = expected(mem)
    size = np.sqrt(np.trace(J) / M)
    ctx.check(abs(cb.state.mass - M) <= rtol * M, 'mass', lambda: '%s: clump %d mass %g, members sum to %g' % (where, cid, cb.state.mass, M))
    ctx.check(np.linalg.norm(A(cb.state.pos) - c) <= rtol * (size + np.linalg.norm(c)), 'centre', lambda: '%s: clump %d at %s, centre of mass %s' % (where, cid, cb.state.pos, c))
    T = tensor(cb)
    ctx.check(np.abs(T - J).max() <= max(rtol, 1e-9) * (np.abs(J).max() + M * (c @ c) * 1e-3), 'inertia', lambda: '%s: clump %d inertia tensor %s, expected %s' % (where, cid, T.tolist(), J.tolist()))
    ctx.check(abs(sum(x * x for x in qt(cb.state.ori)) - 1) < 1e-9, 'clump-orientation', lambda: '%s: %s' % (where, cb.state.ori))


def check_rel(ctx, cid, where):
    """The stored relative placement reproduces the members."""
    cb = O.bodies[cid]
    q = qt(cb.state.ori)
    for i, (rp, ro) in cb.shape.members.items():
        b = O.bodies[i]
        p = cb.state.pos + qrot(q, rp)
        ctx.check((p - b.state.pos).norm() <= 1e-9 * (1 + p.norm()), 'member-position', lambda: '%s: member %d of %d at %s, clump places it at %s' % (where, i, cid, b.state.pos, p))
        ctx.check(qdist(P07.qmul(q, qt(ro)), qt(b.state.ori)) <= 1e-7, 'member-orientation', lambda: '%s: member %d of %d' % (where, i, cid))


def chain(rng, n, overlap=False, boxes=False, at=None, scale=1.):
    """Bodies next to each other without overlap (or with)."""
    bb = []
    for k in range(n):
        for t in range(200):
            R = rng.uniform(.2, .6) * scale
            if not bb:
                p = Vector3(at) if at is not None else rvec(rng, 5)
            else:
                o = rng.choice(bb); d = rvec(rng).normalized()
                p = o.state.pos + d * (R + o._R) * (rng.uniform(.45, .95) if overlap else rng.uniform(1, 1.3))
            if overlap or all((p - o.state.pos).norm() >= (R + o._R) for o in bb):
                break
        else:
            continue
        if boxes and rng.random() < .5:
            b = utils.box(p, Vector3(rng.uniform(.1, R / 1.8), rng.uniform(.1, R / 1.8), rng.uniform(.1, R / 1.8)), fixed=False)
        else:
            b = utils.sphere(p, R)
        b.state.ori = rquat(rng)
        b._R = R
        bb.append(b)
    return bb


def materials(rng, n):
    m = [FrictMat(density=rng.choice((500, 1000, 2650)), young=1e6) for _ in range(n)]
    O.materials.append(m)
    return m


@each(20)
def massprops(ctx, c):
    rng = c.rng
    fresh()
    materials(rng, 1)
    n = rng.choice((2, 2, 3, 5, 9))
    boxes = rng.random() < .4
    bb = chain(rng, n, boxes=boxes, scale=rng.choice((1, 1e-3)), at=rvec(rng, rng.choice((0, 2, 100))))
    if len(bb) < 2: return
    for b in bb:
        if rng.random() < .4 and not boxes:
            O.materials.append(FrictMat(density=rng.uniform(300, 5000)))
            b.material = O.materials[len(O.materials) - 1]
            b.state.mass = b.material.density * 4 / 3. * pi * b.shape.radius**3
    disc = rng.choice((0, 0, 8))
    pos = [Vector3(b.state.pos) for b in bb]; ori = [qt(b.state.ori) for b in bb]
    how = rng.choice(('appendClumped', 'clump', 'grow'))
    if how == 'appendClumped':
        cid, mids = O.bodies.appendClumped(bb, discretization=disc)
    else:
        mids = O.bodies.append(bb)
        k = len(mids) if how == 'clump' else 2
        cid = O.bodies.clump(mids[:k], discretization=disc)
        if k < len(mids): O.bodies.addToClump(mids[k:], cid, discretization=disc)
    where = '%s of %d (%s, discretization %d)' % (how, n, 'boxes' if boxes else 'spheres', disc)
    cb = O.bodies[cid]
    ctx.check(cb.isClump and sorted(cb.shape.members) == sorted(mids) and all(O.bodies[i].isClumpMember and O.bodies[i].clumpId == cid for i in mids), 'membership', where)
    for i, p, q in zip(mids, pos, ori):
        ctx.check((O.bodies[i].state.pos - p).norm() == 0 and qdist(qt(O.bodies[i].state.ori), q) < 1e-12, 'members-moved', where)
    check_props(ctx, cid, where); check_rel(ctx, cid, where)
    I = cb.state.inertia
    if max(I) - min(I) > 1e-6 * max(I):
        ctx.check(cb.aspherical, 'aspherical', '%s: inertia %s but not aspherical' % (where, I))
    ctx.observed((how, n, boxes, disc), 5)
    ctx.sample(where)


@each(10)
def overlap(ctx, c):
    rng = c.rng
    fresh()
    dens = rng.choice((700, 2000)); O.materials.append(FrictMat(density=dens))
    n = rng.choice((2, 2, 3, 4))
    bb = chain(rng, n, overlap=True)
    disc = rng.choice((10, 15, 25))
    cid, mids = O.bodies.appendClumped(bb, discretization=disc)
    P = np.array([A(b.state.pos) for b in bb]); R = np.array([b.shape.radius for b in bb])
    lo, hi = (P - R[:, None]).min(0), (P + R[:, None]).max(0)
    N = 80
    h = (hi - lo).max() / N
    ax = [np.arange(lo[i] + h / 2, hi[i], h) for i in range(3)]
    X = np.stack(np.meshgrid(*ax, indexing='ij'), -1).reshape(-1, 3)
    ins = np.zeros(len(X), bool)
    for p, r in zip(P, R): ins |= ((X - p)**2).sum(1) < r * r
    Y = X[ins]
    M = len(Y) * h**3 * dens; cg = Y.mean(0)
    D = Y - cg
    J = h**3 * dens * ((D**2).sum() * np.eye(3) - D.T @ D) + np.eye(3) * M * h * h / 6
    cb = O.bodies[cid]
    tol = 2.2 / disc**1.5 + .004
    where = '%d overlapping spheres, discretization %d' % (n, disc)
    T = tensor(cb)
    ctx.observed(('overlap', n, disc), 3)
    eM, eC, eJ = abs(cb.state.mass - M) / M, np.linalg.norm(A(cb.state.pos) - cg) / (hi - lo).max(), np.abs(T - J).max() / np.abs(J).max()
    ctx.note_max('mass error / tolerance', round(eM / tol, 3)); ctx.note_max('inertia error / tolerance', round(eJ / tol, 3)); ctx.note_max('centre error / tolerance', round(eC / tol, 3))
    ctx.check(eM <= tol, 'overlap-mass', lambda: '%s: mass %g, union of spheres %g' % (where, cb.state.mass, M))
    ctx.check(eC <= tol, 'overlap-centre', lambda: '%s: centre %s, expected %s' % (where, cb.state.pos, cg))
    ctx.check(eJ <= 2 * tol, 'overlap-inertia', lambda: '%s: inertia %s, expected %s' % (where, T.tolist(), J.tolist()))
    check_rel(ctx, cid, where)


@each(8)
def motion(ctx, c):
    rng = c.rng
    fresh()
    materials(rng, 1)
    per = rng.random() < .3
    if per:
        O.periodic = True
        O.cell.setBox(rng.uniform(9, 12), rng.uniform(9, 12), rng.uniform(9, 12))
    C = []
    for k in range(rng.choice((1, 3, 6))):
        ov = rng.random() < .4
        cid, mids = O.bodies.appendClumped(chain(rng, rng.choice((1, 2, 3, 4)), overlap=ov, at=rvec(rng, 1.8), boxes=not ov and rng.random() < .3), discretization=10 if ov else 0)
        C.append((cid, list(mids)))
        s = O.bodies[cid].state
        s.vel = rvec(rng, 2)
        w = rvec(rng, rng.choice((0, 3, 15)))
        if O.bodies[cid].aspherical: s.angMom = w * s.inertia.norm()
        else: s.angVel = w
        s.blockedDOFs = rng.choice(('', '', '', 'z', 'XYZ', 'xyzXYZ'))
    for k in range(rng.choice((0, 10))):
        b = utils.sphere(rvec(rng, 2), rng.uniform(.2, .5)); b.state.vel = rvec(rng, 1); O.bodies.append(b)
    nw = NewtonIntegrator(damping=rng.choice((0, 0, .3)), gravity=rng.choice(((0, 0, 0), (1, -2, -9.81))))
    O.engines = frict_engines(newton=nw, collider=InsertionSortCollider([Bo1_Sphere_Aabb(), Bo1_Box_Aabb()], verletDist=rng.choice((0, .1))))
    O.dt = 2e-4
    member = dict((m, cid) for cid, ms in C for m in ms)
    pf = {}
    def dist(): return dict(((i, j), (O.bodies[i].state.pos - O.bodies[j].state.pos).norm()) for _, ms in C for i in ms for j in ms if i < j)
    def relo(): return dict((i, P07.qmul(qinv(qt(O.bodies[cid].state.ori)), qt(O.bodies[i].state.ori))) for cid, ms in C for i in ms)
    D0, O0 = dist(), relo()
    for s in range(40):
        ctx.mark('%d step %d' % (c.idx, s))
        if s % 10 == 0:
            for cid, ms in C:
                for i in [cid] + ms:
                    if rng.random() < .4:
                        k = rng.choice('FTB'); Z = Vector3(0, 0, 0)   # a force, a torque, or both
                        pf[i] = (rvec(rng, 200) if k != 'T' else Z, rvec(rng, 20) if k != 'F' else Z); O.forces.setPermF(i, pf[i][0]); O.forces.setPermT(i, pf[i][1])
        old = dict((cid, snapshot(O.bodies[cid])) for cid, _ in C)
        pos = dict((m, Vector3(O.bodies[m].state.pos)) for _, ms in C for m in ms)
        O.step()
        where = 'case %d step %d' % (c.idx, s)
        for cid, ms in C:
            cb = O.bodies[cid]
            F, T = pf.get(cid, (Vector3(0, 0, 0), Vector3(0, 0, 0)))
            F, T = Vector3(F), Vector3(T)
            sF = F.norm(); sT = T.norm()
            for m in ms:
                f, t = O.forces.f(m), O.forces.t(m)
                F += f; T += t + (pos[m] - old[cid]['pos']).cross(f); sF += f.norm(); sT += t.norm() + ((pos[m] - old[cid]['pos']).cross(f)).norm()
            got, gott = O.forces.f(cid, True), O.forces.t(cid, True)
            ctx.check((got - F).norm() <= 1e-10 * sF, 'clump-force', lambda: '%s: force on clump %d is %s, members and own sum to %s' % (where, cid, got, F))
            ctx.check((gott - T).norm() <= 1e-10 * sT, 'clump-torque', lambda: '%s: torque on clump %d is %s, members and own sum to %s' % (where, cid, gott, T))
            E = dict(dt=O.dt, gravity=nw.gravity, damping=nw.damping, mask=-1, exact=True, scaling=False, periodic=per, homo=2 if per else 0, prevG=Matrix3.Zero, dG=Matrix3.Zero)
            check_body(ctx, cb, old[cid], F, T, Vector3(0, 0, 0), Vector3(0, 0, 0), E, where)
            for m in ms:
                b = O.bodies[m].state
                v = cb.state.vel + cb.state.angVel.cross(b.pos - cb.state.pos)
                ctx.check((b.vel - v).norm() <= 1e-9 * (1 + v.norm()) and (b.angVel - cb.state.angVel).norm() <= 1e-9 * (1 + b.angVel.norm()), 'member-velocity', lambda: '%s: member %d velocity %s spin %s, rigid motion gives %s %s' % (where, m, b.vel, b.angVel, v, cb.state.angVel))
            check_rel(ctx, cid, where)
            ctx.observed(('motion', len(ms), per, cb.state.blockedDOFs, O.interactions.countReal() > 0, ctx.spec.get('threads', 1)), 3 + len(ms))
        D1, O1 = dist(), relo()
        for k in D0: ctx.check(abs(D1[k] - D0[k]) <= 1e-10 * (1 + max(vmax(O.bodies[k[0]].state.pos), D0[k])), 'rigidity', lambda: '%s: distance of members %s was %g, is %g' % (where, k, D0[k], D1[k]))
        for k in O0: ctx.check(qdist(O1[k], O0[k]) <= 1e-7, 'rigid-orientation', lambda: '%s: member %d turned in its clump' % (where, k))
        for i in O.interactions.all():
            a, b = member.get(i.id1), member.get(i.id2)
            ctx.check(i.id1 not in old and i.id2 not in old, 'clump-interacts', lambda: '%s: clump body itself in interaction %d %d' % (where, i.id1, i.id2))
            ctx.check(a is None or a != b, 'members-interact', lambda: '%s: members %d %d of clump %s interact' % (where, i.id1, i.id2, a))
        ctx.note('contacts', O.interactions.countReal())


@each(20)
def edit(ctx, c):
    """Histories of clump editing against a model of the membership."""
    import warnings; warnings.simplefilter('ignore')
    rng = c.rng
    fresh()
    materials(rng, 1)
    O.engines = frict_engines(newton=NewtonIntegrator(damping=0, gravity=(0, 0, -1)), collider=InsertionSortCollider([Bo1_Sphere_Aabb()], verletDist=.05))
    O.dt = 1e-5
    # well separated spheres on a grid, so that mass properties are those of separate members
    grid = [(x, y, z) for x in range(3) for y in range(3) for z in range(3)]; rng.shuffle(grid)
    free = list(grid)
    model = {}        # clump id -> set of members
    alive = set()
    stale = set()     # clumps that lost a member by erasure
    hist = []

    def new():
        if not free: return None
        p = free.pop()
        i = O.bodies.append(utils.sphere(Vector3(p) * 1.5 + rvec(rng, .02), rng.uniform(.3, .7)))
        alive.add(i)
        return i
    for _ in range(8): new()
    for s in range(30):
        op = rng.choices(('new', 'clump', 'add', 'release', 'erase', 'eraseclump', 'step', 'update', 'single', 'spin'), (4, 4, 4, 4, 2, 2, 4, 1, 1, 2))[0]
        loose = sorted(i for i in alive if not any(i in m for m in model.values()))
        touched = []
        posb = dict((i, Vector3(O.bodies[i].state.pos)) for i in alive)
        if op == 'new': new()
        elif op == 'clump':
            cand = sorted(alive) + sorted(model) if rng.random() < .3 else loose
            k = min(len(cand), rng.randint(2, 4))
            if k < 2: continue
            ids = rng.sample(cand, k)
            if any(i in model and any(j in model[i] for j in ids) for i in ids): continue
            cid = O.bodies.clump(ids)
            mem = set()
            for i in ids:
                if i in model: mem |= model.pop(i); stale.discard(i)
                else:
                    mem.add(i)
                    for k2 in list(model):
                        if i in model[k2]:
                            model[k2].discard(i); touched.append(k2)
                            if not model[k2]: del model[k2]; stale.discard(k2)
            model[cid] = mem; touched.append(cid)
            stale -= set(touched)
        elif op == 'single' and loose:
            cid = O.bodies.clump([loose[0]]); model[cid] = {loose[0]}; touched = [cid]
        elif op == 'add' and model:
            cid = rng.choice(sorted(model))
            cand = [i for i in loose + sorted(alive) + sorted(model)]
            ids = list(set(rng.sample(cand, min(len(cand), rng.randint(1, 2)))))
            # what the documentation says: a clump or a member of another clump brings the whole clump
            groups = []
            for i in ids:
                own = i if i in model else next((k2 for k2 in model if i in model[k2]), None)
                groups.append(own)
            if len([g for g in groups if g is not None]) > len(set(g for g in groups if g is not None)): continue
            O.bodies.addToClump(ids, cid)
            for i, g in zip(ids, groups):
                if g == cid: continue
                if g is None: model[cid].add(i)
                else: model[cid] |= model.pop(g); stale.discard(g)
            touched = [cid]; stale.discard(cid)
        elif op == 'release' and model:
            cid = rng.choice(sorted(model)); m = rng.choice(sorted(model[cid]))
            if rng.random() < .15 and loose: m = loose[0]
            if len(model[cid]) == 1 and m in model[cid]: continue
            O.bodies.releaseFromClump(m, cid)
            if m in model[cid] and len(model[cid]) != 2:
                model[cid].discard(m); touched = [cid]; stale.discard(cid)
        elif op == 'erase' and alive:
            i = rng.choice(sorted(alive))
            O.bodies.erase(i); alive.discard(i)
            for k2 in list(model):
                if i in model[k2]:
                    model[k2].discard(i); stale.add(k2)
                    if not model[k2]: del model[k2]; stale.discard(k2)
        elif op == 'eraseclump' and model:
            cid = rng.choice(sorted(model)); w = rng.random() < .5
            O.bodies.erase(cid, w)
            m = model.pop(cid); stale.discard(cid)
            if w: alive -= m
        elif op == 'step':
            O.step()
        elif op == 'spin' and model:
            cid = rng.choice(sorted(model)); st = O.bodies[cid].state
            st.angVel = rvec(rng, 5); st.angMom = rvec(rng, 5) * st.inertia.norm(); st.vel = rvec(rng, 1)
            O.step()
        elif op == 'update':
            O.bodies.updateClumpProperties(discretization=rng.choice((0, 5))); touched = sorted(model); stale.clear()
        hist.append(op)
        where = 'after ' + ' '.join(hist[-12:])
        ctx.mark('%d %s' % (c.idx, where))
        # membership on both sides
        ctx.check(set(b.id for b in O.bodies) == alive | set(model), 'edit-bodies', lambda: '%s: bodies %s, expected %s + clumps %s' % (where, sorted(b.id for b in O.bodies), sorted(alive), sorted(model)))
        for b in O.bodies:
            own = next((k2 for k2 in model if b.id in model[k2]), None)
            if b.id in model:
                ctx.check(b.isClump and not b.isStandalone and b.clumpId == b.id and set(b.shape.members) == model[b.id], 'edit-members', lambda: '%s: clump %d has members %s, expected %s' % (where, b.id, sorted(b.shape.members), sorted(model[b.id])))
            elif own is not None:
                ctx.check(b.isClumpMember and b.clumpId == own, 'edit-clumpId', lambda: '%s: member %d says clump %d, expected %d' % (where, b.id, b.clumpId, own))
            else:
                ctx.check(b.isStandalone and b.clumpId < 0, 'edit-standalone', lambda: '%s: body %d says clump %d, expected none' % (where, b.id, b.clumpId))
        if op not in ('step', 'spin'):
            for i in alive & set(posb):
                ctx.check((O.bodies[i].state.pos - posb[i]).norm() == 0, 'edit-moved', lambda: '%s: body %d moved from %s to %s' % (where, i, posb[i], O.bodies[i].state.pos))
        for cid in touched:
            if cid in model:
                check_props(ctx, cid, where)
                if len(model[cid]) > 1:
                    st = O.bodies[cid].state
                    ctx.check(st.vel.norm() == 0 and st.angVel.norm() == 0 and st.angMom.norm() == 0, 'edit-velocity', lambda: '%s: clump %d has velocity %s, spin %s, angular momentum %s after its properties were recomputed' % (where, cid, st.vel, st.angVel, st.angMom))
        for cid in model: check_rel(ctx, cid, where)
        ctx.observed((op, hist[-2] if len(hist) > 1 else '', len(model)), 1 + len(model))


@each(10)
def replace(ctx, c):
    """Spheres replaced by clumps of the same volume."""
    rng = c.rng
    fresh()
    materials(rng, 1)
    n = rng.choice((1, 3, 10, 20))
    for k in range(n): O.bodies.append(utils.sphere((3 * k, 0, 0), rng.uniform(.5, 1)))
    R = dict((b.id, (b.shape.radius, Vector3(b.state.pos))) for b in O.bodies)
    nt = rng.choice((1, 2))
    T, am = [], []
    for k in range(nt):
        T.append(utils.clumpTemplate(relRadii=[1, rng.uniform(.5, 1)], relPositions=[[0, 0, 0], [rng.uniform(.5, 1.5), 0, 0]]))
        am.append(rng.choice((0., .2, .5)) if nt == 2 else rng.choice((0., .05, .5, 1.)))
    ret = O.bodies.replaceByClumps(T, am, discretization=20)
    where = 'replacing %s of %d spheres' % (am, n)
    gone = [i for i in R if O.bodies[i] is None]
    ctx.check(len(gone) == len(ret), 'replace-count', '%s: %d spheres gone, %d clumps made' % (where, len(gone), len(ret)))
    want = sum(int(n * a + .5) for a in am)
    ctx.check(len(gone) <= n and abs(len(gone) - n * sum(am)) <= .5 * nt + 1e-9 or len(gone) == n, 'replace-amount', '%s: %d replaced' % (where, len(gone)))
    dens = O.materials[0].density
    for cid, mids in ret:
        cb = O.bodies[cid]
        ctx.check(sorted(cb.shape.members) == sorted(mids) and all(O.bodies[i].clumpId == cid for i in mids), 'replace-membership', where)
        near = min(gone, key=lambda i: (R[i][1] - cb.state.pos).norm())
        V = 4 / 3. * pi * R[near][0]**3
        ctx.check(abs(cb.state.mass - V * dens) <= .05 * V * dens, 'replace-volume', lambda: '%s: clump mass %g, replaced sphere %g' % (where, cb.state.mass, V * dens))
        ctx.observed(('replace', n, tuple(am)), 2)
    ctx.observed(('replace', n, tuple(am)))
    O.engines = frict_engines(); O.dt = 1e-6
    O.step()
