"""P21: which handler acts on a pair, and that the order of the pair does not matter."""
from common import *

RULE = ('For random sets of handlers in the bound, geometry, physics and law dispatchers, dispFunctor must give the handler with the least inheritance distance '
        '(inheritance read from the Python classes; the last one registered for the same types; an error when two different ones are equally close) for every pair in both orders, '
        'in any order of queries, repeated, and after the list was replaced. In running scenes the class of physics made and the law used must follow the same model. '
        'Scenes of every contact law and shape pair are run twice with the bodies inserted in different orders; the contacts and the trajectories must agree.')
ASSUMPTIONS = ['Differential runs compare after a limited number of steps so that rounding is not amplified.',
               'Contacts that exist when the handlers are replaced keep the ones they were made with (documented cache), and are not compared.']


def plan(tier):
    q = tier == 'quick'
    return [dict(func='dispatchers', args=dict(n=600 if q else 8000), weight=3),
            dict(func='hierarchy', args=dict(n=1)),
            dict(func='insim', name='insim-t1', args=dict(n=150 if q else 2000)),
            dict(func='insim', name='insim-t4', threads=4, args=dict(n=150 if q else 2000)),
            dict(func='order_laws', args=dict(n=480 if q else 6000), weight=3),
            dict(func='order_laws', name='order_laws-2', args=dict(n=480 if q else 6000), weight=3),
            dict(func='order_shapes', args=dict(n=480 if q else 6000), weight=2)]


def chain(cls, top):
    """Class names from the class up to, not including, the top-level class."""
    out = []
    for c in cls.__mro__:
        if c.__name__ == top:
            return out
        out.append(c.__name__)
    return out


_cls = lambda nm: getattr(yade.wrapper, nm)


def indexables(top):
    return {nm: chain(_cls(nm), top) for nm in sorted(yade.system.childClasses(top))}


def functors(base):
    out = {}
    for nm in sorted(yade.system.childClasses(base)):
        f = _cls(nm)()
        b = tuple(f.bases)
        if all(b) and b:
            out[nm] = b
    return out


def hierarchy(ctx):
    """Every dispatchable class reports its own inheritance."""
    for c in ctx.cases(1):
        for top in ('Shape', 'Material', 'IGeom', 'IPhys', 'Bound', 'State'):
            for nm, ch in indexables(top).items():
                got = _cls(nm)().dispHierarchy()
                ctx.check(list(got)[0] == nm, 'index of ' + nm, lambda: 'dispHierarchy %r' % (got,))
                ctx.check(list(got) == ch + [top], 'inheritance of ' + nm, lambda: 'dispHierarchy %r, classes %r' % (got, ch + [top]))
                ctx.observed((top, nm))
            idx = [_cls(nm)().dispIndex for nm in indexables(top)]
            ctx.check(len(set(idx)) == len(idx) and min(idx) >= 0, 'unique indices of ' + top, '%r' % sorted(idx))


# chosen by hand: dispatchers with the classes they take
def KINDS():
    return [('BoundDispatcher', 'BoundFunctor', ('Shape',)), ('IGeomDispatcher', 'IGeomFunctor', ('Shape', 'Shape')),
            ('IPhysDispatcher', 'IPhysFunctor', ('Material', 'Material')), ('LawDispatcher', 'LawFunctor', ('IGeom', 'IPhys'))]


def resolve(reg, c1, c2=None):
    """reg: dict of types -> functor; the closest entry, 'ambiguous' or None."""
    if c2 is None:
        for n in c1:
            if (n,) in reg:
                return reg[(n,)]
        return None
    best, hit = None, []
    for i, a in enumerate(c1):
        for j, b in enumerate(c2):
            if (a, b) in reg:
                if best is None or i + j < best:
                    best, hit = i + j, [reg[(a, b)]]
                elif i + j == best and reg[(a, b)] not in hit:
                    hit.append(reg[(a, b)])
    return 'ambiguous' if len(hit) > 1 else (hit[0] if hit else None)


_cache = {}


@each(120)
def dispatchers(ctx, case):
    rng = case.rng
    kind = rng.choice(KINDS())
    if kind not in _cache:
        _cache[kind] = (functors(kind[1]), [indexables(t) for t in kind[2]])
    F, I = _cache[kind]
    # concentrate on a family of related classes, so that the closest handler is a real question
    names = sorted(F)
    if rng.random() < .7:
        mid = rng.choice([n for i in I for n in i])
        rel = [n for n in names if any(t in c for t in F[n] for i in I for c in i.values() if mid in c)]
        if len(rel) > 1:
            names = rel
    d = _cls(kind[0])()
    for rnd in range(rng.randint(1, 3)):
        sel = [rng.choice(names) for _ in range(rng.randint(0, 7))]
        fs = [_cls(n)(label='f%d_%d' % (rnd, i)) for i, n in enumerate(sel)]
        if rnd == 0 and rng.random() < .5:
            d = _cls(kind[0])(fs)
        else:
            d.functors = fs
        reg, seen = {}, set()
        for n, f in zip(sel, fs):
            if n in seen:
                continue
            seen.add(n)
            reg[F[n]] = f.label
            if len(kind[2]) == 2 and kind[2][0] == kind[2][1]:
                reg[F[n][::-1]] = f.label
        got = [f.label for f in d.functors]
        want = []
        for n, f in zip(sel, fs):
            if n not in [s for s, _ in want]:
                want.append((n, f.label))
        ctx.check(got == [l for _, l in want], 'list of functors', lambda: '%r set from %r' % (got, [(n, f.label) for n, f in zip(sel, fs)]))
        # queries: objects near the handled types mostly
        pool = []
        for i in I:
            near = [n for n, c in i.items() if any(t in c for f in sel for t in F[f])]
            pool.append((near or list(i), list(i)))
        for _ in range(30):
            q = [rng.choice(p[0] if rng.random() < .85 else p[1]) for p in pool]
            want = resolve(reg, *[i[n] for i, n in zip(I, q)])
            for qq in ([q, q[::-1]] if len(q) == 2 and kind[2][0] == kind[2][1] else [q]):
                try:
                    r = d.dispFunctor(*[_cls(n)() for n in qq])
                    r = r.label if r else None
                except RuntimeError as e:
                    r = 'ambiguous' if 'mbiguous' in str(e) else 'error ' + str(e)
                ctx.check(r == want, 'handler chosen by ' + kind[0], lambda: '%r for %r with %r; should be %r' % (r, qq, [(f.label, F[n]) for n, f in zip(sel, fs)], want))
                ctx.observed((kind[0], tuple(sorted(sel)), tuple(qq)))
                ctx.note('ambiguous' if want == 'ambiguous' else 'none' if want is None else 'handled')


@each(40)
def insim(ctx, case):
    """Materials of different classes in one scene: the physics made for a pair is that of the closest handler."""
    rng = case.rng
    fresh()
    mats = [lambda: FrictMat(young=1e6), lambda: CohFrictMat(young=1e6), lambda: FrictViscoMat(young=1e6, betan=.1), lambda: JCFpmMat(young=1e6), lambda: WireMat(young=1e6, diameter=.01, strainStressValues=[(.01, 1e5), (.1, 2e5)]), lambda: MortarMat(young=1e6)]
    mats = rng.sample(mats, rng.randint(2, 4))
    ips = [Ip2_FrictMat_FrictMat_FrictPhys]
    for c in (Ip2_CohFrictMat_CohFrictMat_CohFrictPhys, Ip2_FrictViscoMat_FrictViscoMat_FrictViscoPhys, Ip2_FrictMat_FrictViscoMat_FrictViscoPhys, Ip2_JCFpmMat_JCFpmMat_JCFpmPhys):
        if rng.random() < .5:
            ips.append(c)
    rng.shuffle(ips)
    ips = [c() for c in ips]
    made = {'Ip2_FrictMat_FrictMat_FrictPhys': FrictPhys, 'Ip2_CohFrictMat_CohFrictMat_CohFrictPhys': CohFrictPhys, 'Ip2_FrictViscoMat_FrictViscoMat_FrictViscoPhys': FrictViscoPhys,
            'Ip2_FrictMat_FrictViscoMat_FrictViscoPhys': FrictViscoPhys, 'Ip2_JCFpmMat_JCFpmMat_JCFpmPhys': JCFpmPhys}
    reg = {}
    for f in ips:
        b = tuple(f.bases)
        reg[b] = reg[b[::-1]] = f.__class__.__name__
    n = rng.randint(4, 12)
    for k in range(n):
        O.bodies.append(utils.sphere((k * .9 + rng.uniform(-.02, .02), 0, 0), .5, material=rng.choice(mats)(), dynamic=False))
    for b in list(O.bodies)[:]:
        if rng.random() < .3:
            O.bodies.append(utils.sphere(b.state.pos + Vector3(0, .9, 0), .5, material=rng.choice(mats)(), dynamic=False))
    # an ambiguous choice for a pair of neighbours is an error in a parallel loop; leave such scenes out
    hs = {c: chain(_cls(c), 'Material') for c in set(b.mat.__class__.__name__ for b in O.bodies)}
    if any(resolve(reg, hs[a], hs[b]) == 'ambiguous' for a in hs for b in hs):
        ctx.note('ambiguous scenes left out'); ctx.observed(None, 1)
        return
    O.engines = [ForceResetter(), InsertionSortCollider([Bo1_Sphere_Aabb()]),
                 InteractionLoop([Ig2_Sphere_Sphere_ScGeom6D()], ips, [Law2_ScGeom_FrictPhys_CundallStrack(), Law2_ScGeom6D_CohFrictPhys_CohesionMoment(), Law2_ScGeom_FrictViscoPhys_CundallStrackVisco(), Law2_ScGeom_JCFpmPhys_JointedCohesiveFrictionalPM()]), NewtonIntegrator()]
    O.dt = 1e-6
    for _ in range(2):
        O.step()
    ni = 0
    for i in O.interactions:
        ca, cb = O.bodies[i.id1].mat.__class__.__name__, O.bodies[i.id2].mat.__class__.__name__
        w = resolve(reg, hs[ca], hs[cb])
        ctx.check(w is not None and i.phys.__class__ is made[w], 'physics of a contact', lambda: '%s for %s+%s with %r; should come from %s' % (i.phys.__class__.__name__, ca, cb, sorted(set(reg.values())), w))
        ctx.observed((ca, cb, tuple(sorted(set(reg.values())))))
        ni += 1
    ctx.check(ni >= n - 1, 'contacts present', '%d contacts of %d spheres in a row' % (ni, n))


def compare(ctx, what, res, tol, perm_note):
    (pa, ia), (pb, ib) = res
    if set(ia) != set(ib):
        # a contact at the very threshold may differ by rounding
        diff = set(ia) ^ set(ib)
        ctx.check(all(abs((ia.get(k) or ib.get(k))[1]) < 1e-7 for k in diff), 'contacts depend on the order, ' + what, lambda: '%r; %s' % (sorted((k, ia.get(k), ib.get(k)) for k in diff), perm_note))
        ctx.note('threshold contacts')
        return False
    worst = 0
    for k in pa:
        for x, y, s in zip(pa[k], pb[k], tol):
            e = (x - y).norm() / s
            worst = max(worst, e)
            ctx.check(e < 1, 'result depends on the order, ' + what, lambda: 'body %r: %r and %r (tolerance %g); %s' % (k, x, y, s, perm_note))
    ctx.note_max('worst deviation/tolerance', worst)
    return True


# maps of space onto itself that are exact in floating point: half turns and the cyclic permutation of the axes
MAPS = {'none': lambda v: Vector3(v), 'x': lambda v: Vector3(v[0], -v[1], -v[2]), 'y': lambda v: Vector3(-v[0], v[1], -v[2]), 'z': lambda v: Vector3(-v[0], -v[1], v[2]),
        'cyc': lambda v: Vector3(v[2], v[0], v[1]), 'cyc2': lambda v: Vector3(v[1], v[2], v[0])}
BACK = dict(none='none', x='x', y='y', z='z', cyc='cyc2', cyc2='cyc')
TURN = {'none': lambda: Quaternion.Identity, 'x': lambda: Quaternion(0, 1, 0, 0), 'y': lambda: Quaternion(0, 0, 1, 0), 'z': lambda: Quaternion(0, 0, 0, 1)}


def final(tags, how='none', off=None):
    """State of all bodies by tag, and contacts by pair of tags; turned back if the scene was built turned."""
    P, I = final_(tags)
    m = MAPS[BACK[how]]
    off = off or Vector3(0, 0, 0)
    return {t: (m(p[0] - off),) + tuple(m(x) for x in p[1:]) for t, p in P.items()}, I


def final_(tags):
    P = {}
    for i, t in tags.items():
        s = O.bodies[i].state
        q = s.ori
        P[t] = (Vector3(s.pos), Vector3(s.vel), Vector3(s.angVel), Vector3(O.forces.f(i)), Vector3(O.forces.t(i)))
    I = {}
    for i in O.interactions:
        k = tuple(sorted((tags[i.id1], tags[i.id2])))
        g = i.geom
        I[k] = (i.phys.__class__.__name__, getattr(g, 'penetrationDepth', 1.) if not hasattr(g, 'u0') else 1.)
    return P, I


@each(120)
def order_laws(ctx, case):
    import random, laws
    rng = case.rng
    L = laws.LAWS()
    name = sorted(L)[(case.idx + (7 if ctx.spec['name'].endswith('2') else 0)) % len(L)]
    mat, ig, ip, law, f = L[name]
    ns = rng.choice((2, 2, 3, 5, 8))
    seed = rng.randrange(10**9)
    peri = rng.random() < .3
    steps = rng.randint(5, 40)
    two = rng.random() < .4 and name not in ('Cpm', 'Bubble', 'Luding', 'Mortar')
    pts = []
    R = [rng.uniform(.3, .6) for _ in range(ns)]
    pts = [Vector3(0, 0, 0)]
    while len(pts) < ns:
        k = len(pts); j = rng.randrange(k)
        u = rvec(rng); u.normalize()
        p = pts[j] + u * (R[j] + R[k]) * rng.uniform(.93, .985)
        if all((p - q).norm() > .9 * (R[k] + R[m]) for m, q in enumerate(pts)):
            pts.append(p)
    V = [rvec(rng, .3) for _ in pts]; W = [rvec(rng, .5) for _ in pts]
    perm = list(range(ns))
    while perm == sorted(perm):
        rng.shuffle(perm)
    res = []
    mode = rng.choice(('order', 'explicit', 'turned', 'turned'))
    how2 = rng.choice(('x', 'y', 'z', 'cyc', 'cyc2')) if mode == 'turned' else 'none'
    off = Vector3(4.5, 4.5, 4.5) if peri else Vector3(0, 0, 0)
    for order, how in ((list(range(ns)), 'none'), (perm, how2)):
        mp = MAPS[how]
        r2 = random.Random(seed)
        fresh()
        if peri:
            O.periodic = True; O.cell.hSize = Matrix3(9, 0, 0, 0, 9, 0, 0, 0, 9)
        ms = [mat(r2), mat(r2)]
        lw = law(r2)
        for m in ms:
            O.materials.append(m)
        which = [r2.randrange(2) if two else 0 for _ in pts]
        tags = {}
        for k in order:
            b = utils.sphere(mp(pts[k]) + off, R[k], material=ms[which[k]])
            b.state.vel = mp(V[k]); b.state.angVel = mp(W[k])
            tags[O.bodies.append(b)] = k
        O.engines = [ForceResetter(), InsertionSortCollider([Bo1_Sphere_Aabb(aabbEnlargeFactor=f)], verletDist=0 if case.idx % 2 else -.1), InteractionLoop([ig()], [ip()], [lw]), NewtonIntegrator(damping=0)]
        O.dt = 1e-5
        if mode == 'explicit':
            inv = {t: i for i, t in tags.items()}
            O.engines = [O.engines[0]] + O.engines[2:]
            for a, b in sorted((a, b) for a in range(ns) for b in range(a) if (pts[a] - pts[b]).norm() < f * (R[a] + R[b])):
                utils.createInteraction(*((inv[a], inv[b]) if len(res) == 0 else (inv[b], inv[a])))
        for _ in range(steps):
            O.step()
        res.append(final(tags, how, off))
    fsc = max([p[3].norm() for p in res[0][0].values()] + [1.]); tsc = max([p[4].norm() for p in res[0][0].values()] + [.1 * fsc])
    vsc = max(p[1].norm() + p[2].norm() for p in res[0][0].values()) + .1
    compare(ctx, name, res, (1e-11, 1e-8 * vsc, 1e-8 * vsc, 1e-8 * fsc, 1e-8 * tsc), 'orders 0..%d and %r, %s %s, %d steps%s' % (ns - 1, perm, mode, how2, steps, ', periodic' if peri else ''))
    ctx.check(len(res[0][1]) > 0, 'no contact in the differential run of ' + name, '')
    ctx.observed((name, ns, peri, two, mode, how2), ns * 2)


@each(120)
def order_shapes(ctx, case):
    """Spheres against boxes, facets and walls (and the other shapes with a geometry functor), inserted in either order."""
    import random
    rng = case.rng
    seed = rng.randrange(10**9)
    steps = rng.randint(2, 30)
    kind = ('box', 'facet', 'wall', 'gridconn', 'gridgrid', 'mix')[case.idx % 6]
    r0 = random.Random(seed)
    ns = r0.randint(1, 5)
    six = r0.random() < .5
    items = []
    ctr = Vector3(0, 0, 0)
    if kind in ('box', 'mix'):
        ext = Vector3(r0.uniform(.5, 2), r0.uniform(.5, 2), .3); q = rquat(r0) if r0.random() < .7 else Quaternion.Identity
        items.append(('box', ext, q))
    if kind in ('facet', 'mix'):
        items.append(('facet', [Vector3(-2, -2, .31) + rvec(r0, .05), Vector3(2, -1, .3) + rvec(r0, .05), Vector3(0, 2, .32) + rvec(r0, .05)]))
    if kind in ('wall', 'mix'):
        items.append(('wall', r0.randrange(3), r0.choice((-1, 0, 1))))
    sph = []
    for k in range(ns):
        R = r0.uniform(.2, .5)
        if kind == 'box':
            # outside, near a face, an edge or a corner
            e = items[0][1]
            loc = Vector3(*[r0.uniform(-e[i], e[i]) for i in range(3)]); ax = r0.randrange(3)
            loc[ax] = r0.choice((-1, 1)) * (e[ax] + R * r0.uniform(.9, .98))
            p = items[0][2] * loc
        elif kind == 'facet':
            p = Vector3(r0.uniform(-2, 2), r0.uniform(-2, 2), .31 + r0.choice((-1, 1)) * R * .93)
        elif kind == 'wall':
            p = rvec(r0, 2); p[items[0][1]] = r0.choice((-1, 1)) * R * r0.uniform(.9, .98)
        else:
            p = rvec(r0, 1); p[2] = .3 + R * r0.uniform(.9, .98)
        sph.append((p, R, rvec(r0, .3), rvec(r0, .3)))
    perm = list(range(len(items) + ns))
    if len(perm) < 2 and kind in ('box', 'facet', 'wall'):
        perm = [0]
    r0.shuffle(perm)
    res = []
    if kind in ('gridconn', 'gridgrid'):
        return grid_order(ctx, case, seed, steps, kind)
    how2 = rng.choice(('none', 'x', 'y', 'z'))
    for order, how in ((list(range(len(perm))), 'none'), (perm[::-1] if perm == sorted(perm) else perm, how2)):
        mp = MAPS[how]
        fresh()
        O.materials.append(FrictMat(young=1e6, poisson=.3, frictionAngle=.5, density=1000)); O.materials.append(FrictMat(young=3e6, poisson=.2, frictionAngle=.3, density=2000))
        tags = {}
        for k in order:
            if k < len(items):
                it = items[k]
                if it[0] == 'box':
                    b = utils.box(ctr, it[1], orientation=TURN[how]() * it[2], material=1, fixed=True)
                elif it[0] == 'facet':
                    b = utils.facet([mp(x) for x in it[1]], material=1)
                else:
                    b = utils.wall(0., axis=it[1], sense=0, material=1)
            else:
                p, R, v, w = sph[k - len(items)]
                b = utils.sphere(mp(p), R, material=0)
                b.state.vel = mp(v); b.state.angVel = mp(w)
            tags[O.bodies.append(b)] = k
        O.engines = [ForceResetter(), InsertionSortCollider([Bo1_Sphere_Aabb(), Bo1_Box_Aabb(), Bo1_Facet_Aabb(), Bo1_Wall_Aabb()]),
                     InteractionLoop([Ig2_Sphere_Sphere_ScGeom6D(), Ig2_Box_Sphere_ScGeom6D(), Ig2_Facet_Sphere_ScGeom6D(), Ig2_Wall_Sphere_ScGeom()] if six else [Ig2_Sphere_Sphere_ScGeom(), Ig2_Box_Sphere_ScGeom(), Ig2_Facet_Sphere_ScGeom(), Ig2_Wall_Sphere_ScGeom()],
                                     [Ip2_FrictMat_FrictMat_FrictPhys()], [Law2_ScGeom_FrictPhys_CundallStrack()]), NewtonIntegrator(damping=.1)]
        O.dt = 1e-5
        for _ in range(steps):
            O.step()
        res.append(final(tags, how))
    fsc = max([p[3].norm() for p in res[0][0].values()] + [1.]); tsc = max([p[4].norm() for p in res[0][0].values()] + [.1 * fsc])
    compare(ctx, kind, res, (1e-11, 1e-9, 1e-9, 1e-9 * fsc, 1e-9 * tsc), 'order %r, turned %s' % (perm, how2))
    ctx.note('contacts ' + kind, len(res[0][1]))
    ctx.observed((kind, ns, six, tuple(perm), how2), len(perm))


def grid_order(ctx, case, seed, steps, kind):
    import random
    res = []
    from yade.gridpfacet import gridNode, gridConnection
    for rev in (0, 1):
        r0 = random.Random(seed)
        fresh()
        O.materials.append(CohFrictMat(young=1e6, poisson=.3, density=1000, frictionAngle=.4, normalCohesion=1e20, shearCohesion=1e20, momentRotationLaw=True, label='g%d' % rev))
        O.materials.append(FrictMat(young=1e6, poisson=.3, density=1000, frictionAngle=.4, label='s%d' % rev))
        O.engines = [ForceResetter(), InsertionSortCollider([Bo1_Sphere_Aabb(), Bo1_GridConnection_Aabb()]),
                     InteractionLoop([Ig2_Sphere_Sphere_ScGeom(), Ig2_GridNode_GridNode_GridNodeGeom6D(), Ig2_Sphere_GridConnection_ScGridCoGeom(), Ig2_GridConnection_GridConnection_GridCoGridCoGeom()],
                                     [Ip2_FrictMat_FrictMat_FrictPhys(), Ip2_CohFrictMat_CohFrictMat_CohFrictPhys(setCohesionNow=True, setCohesionOnNewContacts=False)],
                                     [Law2_ScGeom_FrictPhys_CundallStrack(), Law2_ScGeom6D_CohFrictPhys_CohesionMoment(), Law2_ScGridCoGeom_FrictPhys_CundallStrack(), Law2_GridCoGridCoGeom_FrictPhys_CundallStrack()]), NewtonIntegrator(damping=.1)]
        O.dt = 1e-6
        R = .1
        a, b = Vector3(-1, 0, 0), Vector3(1, 0, 0)
        rs = r0.uniform(.1, .3); x = r0.uniform(-.6, .6); dz = (R + (rs if kind == 'gridconn' else R)) * r0.uniform(.95, .99); phi = r0.uniform(0, 6.28)
        off = Vector3(x, dz * math.cos(phi), dz * math.sin(phi))
        v = rvec(r0, .3)
        u = rvec(r0, 1); u = u - off * (u.dot(off) / off.dot(off)) if kind == 'gridgrid' else u
        tags = {}
        def grid(t0, p, q):
            n1 = O.bodies.append(gridNode(p, R, material='g%d' % rev)); n2 = O.bodies.append(gridNode(q, R, material='g%d' % rev))
            c = O.bodies.append(gridConnection(n1, n2, R, material='s%d' % rev))
            tags[n1] = t0; tags[n2] = t0 + 1; tags[c] = t0 + 2
            return n1, n2
        def other():
            if kind == 'gridconn':
                s = utils.sphere(off, rs, material='s%d' % rev); s.state.vel = v
                tags[O.bodies.append(s)] = 10
            else:
                w = Vector3(0, -math.sin(phi), math.cos(phi)) + Vector3(.3, 0, 0)
                n1, n2 = grid(10, off - w * .5, off + w * .5)
                O.bodies[n1].state.vel = v; O.bodies[n2].state.vel = v
        if rev:
            other(); grid(0, a, b)
        else:
            grid(0, a, b); other()
        for _ in range(steps):
            O.step()
        res.append(final(tags))
    fsc = max([p[3].norm() for p in res[0][0].values()] + [1.]); tsc = max([p[4].norm() for p in res[0][0].values()] + [.1 * fsc])
    compare(ctx, kind, res, (1e-11, 1e-9, 1e-9, 1e-8 * fsc, 1e-8 * tsc), 'insertion order of the two groups')
    ctx.note('contacts ' + kind, len(res[0][1]))
    ctx.observed((kind, round(steps / 5)), 4)
