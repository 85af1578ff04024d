"""Contact forces balance in pairs; momentum of isolated systems is conserved."""
from common import *
import laws

RULE = ('a case is a random isolated packing of moving, spinning spheres of one contact law; after every step the net force, the net moment and the change of total momentum are one evaluation each; '
        'distinct = (law, geometry flags, contacts class, open or periodic, thread count); a step without contact forces is not counted')
ASSUMPTIONS = ['tolerances are 1e-9 of the largest force (moment) present; the lubrication law solves iteratively and is judged to 1e-6']
SKIP_MOMENT = {}


def plan(tier):
    k = 1 if tier == 'quick' else 10
    jobs = [dict(func='openspace', name='open-%d' % i, args=dict(n=160 * k)) for i in range(4)]
    jobs += [dict(func='openspace', name='open-t%d' % t, threads=t, args=dict(n=60 * k)) for t in (2, 4)]
    jobs += [dict(func='periodic', name='periodic-%d' % i, args=dict(n=80 * k)) for i in range(2)]
    return jobs


def build(rng, name, n, periodic, engines_extra=()):
    """A packing with speeds that keep overlaps small."""
    L = laws.LAWS()[name]
    fresh()
    mats = [L[0](rng) for _ in range(rng.choice((1, 2)))]
    O.materials.append(mats)
    coh = L[4] > 1 or name in ('CohFrict', 'CohFrictBrittle', 'InelastCohFrict')
    R = [rng.uniform(.3, 1.) * rng.choice((1, 1, .3)) for _ in range(n)]
    for k in range(n):
        for t in range(300):   # against an earlier sphere, with a small overlap
            if k == 0:
                p = Vector3(0, 0, 0); break
            q = O.bodies[rng.randrange(max(0, k - 6), k)]
            d = rvec(rng)
            p = q.state.pos + d.normalized() * (R[k] + q.shape.radius) * rng.uniform(.95, .999)
            if all((p - b.state.pos).norm() > .95 * (R[k] + b.shape.radius) for b in O.bodies if b.id != q.id):
                break
        b = utils.sphere(p, R[k], material=mats[k % len(mats)])
        v = rng.choice((.02, .3))
        b.state.vel = rvec(rng, v); b.state.angVel = rvec(rng, rng.choice((0, v, 4 * v)))
        b.state.ori = rquat(rng) if rng.random() < .5 else b.state.ori
        O.bodies.append(b)
    col = InsertionSortCollider([Bo1_Sphere_Aabb(aabbEnlargeFactor=L[4])], verletDist=rng.choice((0, .05)))
    O.engines = [ForceResetter(), col, InteractionLoop([L[1]()], [L[2]()], [L[3](rng)]), NewtonIntegrator(damping=0, label='newton')]
    O.dt = .2 * utils.PWaveTimeStep() if all(hasattr(m, 'young') for m in mats) else 2e-4
    O.dt = min(O.dt, 1e-3)
    return mats


def totals(idl):
    P, L = Vector3(0, 0, 0), Vector3(0, 0, 0)
    sp, sl = 0., 0.
    for i in idl:
        s = O.bodies[i].state
        p = s.mass * s.vel
        P += p
        l = s.pos.cross(p) + Vector3(s.inertia[0] * s.angVel[0], s.inertia[1] * s.angVel[1], s.inertia[2] * s.angVel[2])
        L += l
        sp += p.norm(); sl += s.pos.norm() * p.norm() + s.inertia.norm() * s.angVel.norm()
    return P, L, sp, sl


@each(20)
def openspace(ctx, c):
    rng = c.rng
    names = sorted(laws.LAWS())
    name = names[(c.idx + sum(map(ord, ctx.spec['name']))) % len(names)]
    n = rng.choice((2, 3, 12, 40))
    ctx.mark('%d %s n=%d' % (c.idx, name, n))
    build(rng, name, n, False)
    idl = [b.id for b in O.bodies]
    tol = 1e-9
    wild = rng.random() < .3
    maxc = 0
    for s in range(40 if n < 20 else 25):
        pos = dict((i, O.bodies[i].state.pos) for i in idl)
        P0, L0, sp0, sl0 = totals(idl)
        O.step()
        F, M, sf, sm, big = Vector3(0, 0, 0), Vector3(0, 0, 0), 0., 0., 0.
        for i in idl:
            f, t = O.forces.f(i, True), O.forces.t(i, True)
            ctx.check(not any(isnan(x) for x in list(f) + list(t)), 'nan:' + name, lambda: '%s step %d: force %s torque %s on body %d' % (name, s, f, t, i))
            F += f; M += t + pos[i].cross(f)
            sf += f.norm(); sm += t.norm() + pos[i].norm() * f.norm()
        if not sf + sm < 1e30:   # explicit rolling damping is unstable at high spin: the step is too long, balance is not judged further
            ctx.note('blown-up:' + name); break
        nc = O.interactions.countReal()
        maxc = max(maxc, nc)
        if sf > 0:
            ctx.observed((name, nc.bit_length(), ctx.spec.get('threads', 1), wild), 4)
            ctx.check(F.norm() <= tol * sf, 'force-balance:' + name, lambda: '%s, %d spheres, step %d: net force %s, sum of magnitudes %g, %d contacts' % (name, n, s, F, sf, nc))
            ctx.check(M.norm() <= tol * sm, 'moment-balance:' + name, lambda: '%s, %d spheres, step %d: net moment %s, sum of magnitudes %g, %d contacts' % (name, n, s, M, sm, nc))
            P1, L1, sp1, sl1 = totals(idl)
            ctx.check((P1 - P0).norm() <= 1e-11 * (sp0 + sp1) + tol * sf * O.dt, 'momentum:' + name, lambda: '%s step %d: momentum %s -> %s' % (name, s, P0, P1))
            ctx.check((L1 - L0).norm() <= 1e-10 * (sl0 + sl1) + tol * sm * O.dt, 'angular-momentum:' + name, lambda: '%s step %d: angular momentum %s -> %s' % (name, s, L0, L1))
        if wild and s % 9 == 4:   # kicks, so that contacts load, slide, open and close in all directions
            for i in idl:
                O.bodies[i].state.vel += rvec(rng, .3); O.bodies[i].state.angVel += rvec(rng, 1)
    ctx.note('contacts:' + name, maxc)
    ctx.sample('%s: %d spheres, up to %d contacts' % (name, n, maxc))


@each(10)
def periodic(ctx, c):
    rng = c.rng
    names = [x for x in sorted(laws.LAWS())]
    name = names[(c.idx * 2 + (ctx.spec['name'][-1] == '1')) % len(names)]
    n = rng.choice((2, 4, 15))
    ctx.mark('%d %s n=%d' % (c.idx, name, n))
    st = rng.getstate()
    runs = []
    tol = 1e-9
    for variant in (0, 1):
        rng.setstate(st)
        build(rng, name, n, True)
        R = [b.shape.radius for b in O.bodies]
        Lc = max(8 * max(R), (sum(4.19 * r**3 for r in R) / .5) ** (1 / 3.))
        O.periodic = True
        h = Matrix3(Lc, 0, 0, 0, Lc, 0, 0, 0, Lc)
        if rng.random() < .6:
            h = h + Matrix3(0, rng.uniform(-.3, .3) * Lc, rng.uniform(-.3, .3) * Lc, 0, 0, rng.uniform(-.3, .3) * Lc, 0, 0, 0)
        O.cell.hSize = h
        grad = rng.choice((0, 0, .02))
        O.cell.velGrad = Matrix3(*[rng.uniform(-grad, grad) for _ in range(9)])
        off = h * Vector3(rng.random(), rng.random(), rng.random())   # anywhere, also across the boundary
        for b in O.bodies:
            b.state.pos += off
            b.state.vel += O.cell.velGrad * b.state.pos
        if variant:
            r2 = __import__('random').Random(c.seed)
            for b in O.bodies:
                d = h * Vector3(r2.randint(-2, 2), r2.randint(-2, 2), r2.randint(-2, 2))
                b.state.pos += d; b.state.vel += O.cell.velGrad * d
        O.dt *= .5
        out = []
        for s in range(12):
            O.step()
            ff = [(O.forces.f(b.id, True), O.forces.t(b.id, True)) for b in O.bodies]
            sf = sum(f.norm() for f, _ in ff)
            F = sum((f for f, _ in ff), Vector3(0, 0, 0))
            ctx.check(not isnan(sf), 'nan-periodic:' + name, '%s step %d' % (name, s))
            if sf > 1e30: ctx.note('blown-up:' + name); break
            if sf > 0:
                ctx.observed((name, 'periodic', grad > 0, variant, O.interactions.countReal().bit_length()))
                ctx.check(F.norm() <= tol * sf, 'periodic-balance:' + name, lambda: '%s, %d spheres, step %d: net force %s, sum of magnitudes %g' % (name, n, s, F, sf))
            out.append((ff, sf, sorted((min(i.id1, i.id2), max(i.id1, i.id2)) for i in O.interactions)))
        runs.append(out)
    for s in range(min(len(r) for r in runs)):
        (fa, sa, ca), (fb, sb, cb) = runs[0][s], runs[1][s]
        ctx.observed((name, 'images'))
        t = (1e-6 if s < 4 else 1e-4) * max(sa, sb, 1e-12)
        if ca != cb:
            break   # a contact opened a step earlier by rounding
        for k in range(n):
            ctx.check((fa[k][0] - fb[k][0]).norm() <= t and (fa[k][1] - fb[k][1]).norm() <= t, 'image:' + name,
                      lambda: '%s step %d body %d: force %s torque %s, with particles stored in other periodic images %s %s' % (name, s, k, fa[k][0], fa[k][1], fb[k][0], fb[k][1]))
