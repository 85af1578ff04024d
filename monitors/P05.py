"""Force accumulation: everything applied is read back, once."""
from common import *

RULE = ('a case is a random history of applying/reading/resetting forces while bodies are added, erased and stepped; every read is one evaluation, '
        'distinct = (operation, thread count, perm used, size class, recent operations); sums are of small integers, so they are exact in any order')
ASSUMPTIONS = ['values are exactly representable, so summation order cannot matter', 'forces applied by contacts are compared to rounding']


def plan(tier):
    k = 1 if tier == 'quick' else 12
    jobs = []
    for th in (1, 2, 3, 8):
        jobs.append(dict(func='history', name='history-t%d' % th, threads=th, args=dict(n=20 * k)))
    for th in (1, 4, 7):
        jobs.append(dict(func='contacts', name='contacts-t%d' % th, threads=th, args=dict(n=6 * k)))
    jobs.append(dict(func='moves', name='moves-t4', threads=4, args=dict(n=20 * k)))
    return jobs


@each(10)
def history(ctx, c):
    rng = c.rng
    fresh()
    O.dt = 0.0
    F, T, PF, PT = {}, {}, {}, {}
    Z = Vector3(0, 0, 0)
    live = []
    recent = []
    permUsed = False

    def add_bodies(n):
        for i in range(n):
            b = Body()
            b.shape = Sphere(radius=1)
            b.state.mass = rng.randint(1, 9)
            b.state.inertia = (1, 1, 1)
            b.mask = rng.choice((1, 2, 3))
            b.bounded = False
            if rng.random() < .1 and live and False:
                pass
            live.append(O.bodies.append(b))

    def expF(i): return F.get(i, Z) + PF.get(i, Z)
    def expT(i): return T.get(i, Z) + PT.get(i, Z)

    def key(op, i=0):
        return (op, permUsed, len(O.bodies).bit_length(), (i * 8) // max(1, len(O.bodies)), tuple(recent[-2:]))

    def readall(sample=None):
        which = live if sample is None else rng.sample(live, min(sample, len(live)))
        sync = rng.random() < .5
        for i in which:
            f, t = (O.forces.f(i, True), O.forces.t(i, True)) if sync else (O.forces.f(i), O.forces.t(i))
            ctx.observed(key('f%d' % sync, i), 2)
            ctx.check(f == expF(i), 'force', lambda: 'body %d of %d: force %s, applied %s (sync=%s, history %s)' % (i, len(O.bodies), f, expF(i), sync, recent[-12:]))
            ctx.check(t == expT(i), 'torque', lambda: 'body %d of %d: torque %s, applied %s (sync=%s, history %s)' % (i, len(O.bodies), t, expT(i), sync, recent[-12:]))
        if sync:
            for i in which:
                ctx.observed(key('perm', i), 2)
                ctx.check(O.forces.permF(i) == PF.get(i, Z) and O.forces.permT(i) == PT.get(i, Z), 'permanent',
                          lambda: 'body %d: permanent force %s torque %s, set %s %s (history %s)' % (i, O.forces.permF(i), O.forces.permT(i), PF.get(i, Z), PT.get(i, Z), recent[-12:]))

    add_bodies(rng.choice((1, 3, 40, 120, 400)))
    for step in range(rng.randint(15, 45)):
        op = rng.choices(('append', 'erase', 'add', 'add', 'perm', 'read', 'read1', 'reset', 'resetall', 'step', 'stepnr'), (3, 2, 5, 5, 4, 4, 4, 2, 1, 3, 1))[0]
        recent.append(op)
        ctx.mark('%d %s' % (c.idx, ' '.join(recent[-30:])))
        if op == 'append':
            add_bodies(rng.choice((1, 1, 2, 30, 130, 600)))
        elif op == 'erase' and len(live) > 2:
            i = live.pop(rng.randrange(len(live)))
            O.bodies.erase(i)
        elif op == 'add':
            for _ in range(rng.randint(1, 6)):
                i = rng.choice(live)
                v = ivec(rng)
                if rng.random() < .5:
                    O.forces.addF(i, v); F[i] = F.get(i, Z) + v
                else:
                    O.forces.addT(i, v); T[i] = T.get(i, Z) + v
        elif op == 'perm':
            permUsed = True
            for _ in range(rng.randint(1, 3)):
                i = rng.choice((live[0], live[-1], rng.choice(live)))
                v = ivec(rng)
                if rng.random() < .5:
                    O.forces.setPermF(i, v); PF[i] = v
                else:
                    O.forces.setPermT(i, v); PT[i] = v
        elif op == 'read':
            readall()
        elif op == 'read1':
            readall(3)
        elif op == 'reset':
            O.forces.reset(resetAll=False); F.clear(); T.clear()
        elif op == 'resetall':
            O.forces.reset(resetAll=True); F.clear(); T.clear(); PF.clear(); PT.clear(); permUsed = False
        elif op in ('step', 'stepnr'):
            g, mask = ivec(rng, 9), rng.choice((0, 1, 2))
            fids = [rng.choice(live) for _ in range(rng.randint(0, 5))]
            tids = [rng.choice(live) for _ in range(rng.randint(0, 5))]
            ef, et = ivec(rng), ivec(rng)
            eng = [GravityEngine(gravity=g, mask=mask, warnOnce=False), ForceEngine(ids=fids, force=ef), TorqueEngine(ids=tids, moment=et)]
            rng.shuffle(eng)
            if op == 'step':
                eng = [ForceResetter()] + eng
                F.clear(); T.clear()
            O.engines = eng
            n = rng.choice((1, 1, 2))
            for s in range(n):
                if op == 'step':
                    F.clear(); T.clear()
                O.step()
                for i in live:
                    b = O.bodies[i]
                    if mask == 0 or (b.mask & mask):
                        F[i] = F.get(i, Z) + g * b.state.mass
                for i in fids: F[i] = F.get(i, Z) + ef
                for i in tids: T[i] = T.get(i, Z) + et
            readall(None if rng.random() < .5 else 8)
    readall()
    ctx.sample('threads %s, %d bodies, operations: %s' % (ctx.spec.get('threads'), len(live), ' '.join(recent)))


@each(4)
def contacts(ctx, c):
    """Forces that many threads add for many contacts equal the sum over the contacts."""
    rng = c.rng
    fresh()
    n = rng.choice((30, 150, 500))
    L = n ** (1 / 3.)
    O.bodies.append([utils.sphere((rng.uniform(0, L), rng.uniform(0, L), rng.uniform(0, L)), rng.uniform(.4, .8)) for _ in range(n)])
    if rng.random() < .5:  # the force storage starts small, so it grows inside the parallel loop
        O.saveTmp('x', quiet=True); O.loadTmp('x', quiet=True)
    pf = {}
    for i in rng.sample(range(n), 3):
        pf[i] = rvec(rng, 1e5)
        O.forces.setPermF(i, pf[i])
    O.engines = frict_engines(NewtonIntegrator(damping=.1, dead=True))
    O.dt = 1e-5
    for step in range(4):
        if step == 2:
            for b in O.bodies: b.state.vel = rvec(rng, 1e1); b.state.angVel = rvec(rng, 10)
            for i in range(5):
                k = rng.randrange(len(O.bodies))
                if O.bodies[k] is not None and k not in pf: O.bodies.erase(k)
        if step == 3:
            O.bodies.append([utils.sphere((rng.uniform(0, L), rng.uniform(0, L), rng.uniform(0, L)), rng.uniform(.4, .8)) for _ in range(300)])
        O.step()
        exp, scale = {}, {}
        m = 0
        for i in O.interactions:
            if not i.isReal: continue
            m += 1
            f = i.phys.normalForce + i.phys.shearForce
            for k, s in ((i.id1, -1), (i.id2, 1)):
                exp[k] = exp.get(k, Vector3(0, 0, 0)) + f * s
                scale[k] = scale.get(k, 0) + f.norm()
        ctx.note('contacts', m)
        for b in O.bodies:
            e = exp.get(b.id, Vector3(0, 0, 0)) + pf.get(b.id, Vector3(0, 0, 0))
            f = O.forces.f(b.id)
            ctx.observed((step, ctx.spec['threads'], n, int(scale.get(b.id, 0) > 0), b.id * 8 // n))
            tol = 1e-9 * (scale.get(b.id, 0) + pf.get(b.id, Vector3(0, 0, 0)).norm())
            ctx.check(vclose(f, e, tol), 'contact-sum', lambda: 'body %d: force %s, sum over its contacts %s' % (b.id, f, e))
        ctx.check(m > 0, 'no-contacts', 'no contact at all among %d overlapping spheres' % n)


@each(4)
def moves(ctx, c):
    """Prescribed displacements and rotations act exactly once."""
    rng = c.rng
    fresh()
    n = rng.choice((2, 20, 150))
    O.bodies.append([utils.sphere((3 * i, 0, 0), 1, dynamic=rng.random() < .5) for i in range(n)])
    O.dt = 2.0 ** -10
    mv, rt = {}, {}

    def apply():
        for i, v in mv.items(): O.forces.addMove(i, v)
        for i, v in rt.items(): O.forces.addRot(i, v)
    import __main__
    __main__.apply_moves = apply
    O.engines = [ForceResetter(), PyRunner(command="apply_moves()", iterPeriod=1, initRun=True), NewtonIntegrator(damping=0)]
    for step in range(6):
        pos = {b.id: b.state.pos for b in O.bodies}
        ori = {b.id: b.state.ori for b in O.bodies}
        mv.clear(); rt.clear()
        if step % 3 != 2:
            for _ in range(3):
                mv[rng.randrange(n)] = rvec(rng)
                rt[rng.randrange(n)] = rvec(rng)
        if rng.random() < .3:
            i = rng.randrange(n)
            O.forces.setPermF(i, (0, 0, 0))
        O.step()
        for b in O.bodies:
            p, q = mv.get(b.id, Vector3(0, 0, 0)), rt.get(b.id)
            ctx.observed((step, n, bool(p.norm()), q is not None, b.dynamic), 2)
            ctx.check(vclose(b.state.pos, pos[b.id] + p, 1e-9), 'move', lambda: 'step %d body %d moved by %s, prescribed %s' % (step, b.id, b.state.pos - pos[b.id], p))
            eq = ori[b.id] if q is None else Quaternion(q.normalized(), q.norm()) * ori[b.id]
            d = (b.state.ori.conjugate() * eq)
            ang = abs(d.toAxisAngle()[1])
            ctx.check(min(ang, abs(ang - 2 * pi)) < 1e-6, 'rot', lambda: 'step %d body %d orientation off by %g after prescribed rotation %s' % (step, b.id, ang, q))
