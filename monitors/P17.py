"""Packings: random clouds, regular packings, regions and their combinations, transformations and files."""
from common import *
import itertools, tempfile, shutil, random
try:
    import numpy as np
except ImportError:
    np = None

RULE = ('a case is one generated packing or one random combination of regions: every sphere is checked for being inside the region and against every other (all periodic images), radii against the requested distribution, lattices and fillings '
        'against an independent enumeration, points against set logic computed from independent definitions of the shapes; distinct = (generator, options, shape combination, outcome)')
ASSUMPTIONS = ['points closer to a surface than rounding are not judged', 'the padding of hyperboloids is documented as approximate and only its sign is used',
               'files hold six significant digits', 'distributions drawn at random (no number requested) are compared with the bound exceeded once in 1e5 by chance']


def plan(tier):
    k = 1 if tier == 'quick' else 15
    return [dict(func='cloud', name='cloud-a', args=dict(n=90 * k)), dict(func='cloud', name='cloud-b', args=dict(n=90 * k)), dict(func='clumpcloud', name='clumpcloud', args=dict(n=25 * k)),
            dict(func='regions', name='regions', args=dict(n=150 * k)), dict(func='padding', name='padding', args=dict(n=120 * k)), dict(func='regular', name='regular', args=dict(n=40 * k)),
            dict(func='transform', name='transform', args=dict(n=60 * k)), dict(func='roundtrip', name='roundtrip', args=dict(n=40 * k)), dict(func='measures', name='measures', args=dict(n=80 * k)),
            dict(func='dense', name='dense', args=dict(n=2 * k))]


def arr(sp):
    L = sp.toList()
    return np.array([tuple(x[0]) for x in L], float).reshape(len(L), 3), np.array([x[1] for x in L], float)


def min_gap(C, R, H=None, grp=None):
    """Smallest distance between surfaces over all pairs (all neighbouring images with the cell H, columns are the base vectors)."""
    n = len(R)
    if n < 1: return float('inf')
    S = R[:, None] + R[None, :]
    D = C[None, :, :] - C[:, None, :]
    best = np.full((n, n), np.inf)
    if H is None: best = np.sqrt((D ** 2).sum(2))
    else:
        F = D @ np.linalg.inv(H).T
        F -= np.floor(F)
        for o in itertools.product((-2, -1, 0, 1), repeat=3): best = np.minimum(best, np.sqrt((((F + np.array(o)) @ H.T) ** 2).sum(2)))
    np.fill_diagonal(best, np.inf)
    if grp is not None: best[grp[:, None] == grp[None, :]] = np.inf
    return float((best - S).min()) if n > 1 else float('inf')


def cdf_power(r, a, b):
    """Number distribution giving mass spread evenly over the radius between a and b."""
    if a == b: return (r >= a).astype(float)
    r = np.clip(r, a, b)
    return (a ** -2 - r ** -2) / (a ** -2 - b ** -2)


def cdf_psd(r, radii, cumm, mass):
    if not mass: return np.interp(r, radii, cumm)
    w = [0.]
    for i in range(1, len(radii)): w.append((cumm[i] - cumm[i - 1]) / (radii[i] - radii[i - 1]) * (radii[i - 1] ** -2 - radii[i] ** -2))
    w = np.cumsum(w) / sum(w)
    out = np.zeros(len(r))
    for i in range(1, len(radii)):
        f = cdf_power(r, radii[i - 1], radii[i])
        out += (w[i] - w[i - 1]) * f
    return out


@each(50)
def cloud(ctx, case):
    rng = case.rng
    mode = ('rmean', 'rmean-num', 'num', 'psd', 'psd-num')[case.idx % 5]
    periodic = rng.random() < .5
    shear = periodic and rng.random() < .5
    flat = (not periodic) and mode in ('num', 'rmean-num') and rng.random() < .25
    dm = rng.random() < .5
    seed = rng.randrange(1, 10**6)
    mn = Vector3(*[rng.choice((0., rng.uniform(-50, 50))) for _ in range(3)])
    size = Vector3(*[rng.uniform(.5, 3) for _ in range(3)])
    if flat: size[rng.randrange(3)] = 0.
    mx = mn + size
    H = np.diag(tuple(size))
    kw = dict(periodic=periodic, distributeMass=dm, seed=seed)
    if shear:
        for i in range(3):
            for j in range(3):
                if i != j: H[i, j] = rng.uniform(-.5, .5) * rng.choice((0, 1, 2))
        if abs(np.linalg.det(H)) < .2: H = np.diag(tuple(size)) + np.triu(np.full((3, 3), .3), 1)
        kw['hSize'] = Matrix3(*[float(x) for x in H.flatten()])
        mx = mn
    vol = abs(np.linalg.det(H)) if not flat else 1.
    fuzz = rng.choice((0., rng.uniform(.05, .6)))
    req = None
    scale = 1.
    if mode == 'rmean': req = rng.uniform(.1, .2); kw.update(rMean=req, rRelFuzz=fuzz)
    elif mode == 'rmean-num': req = rng.uniform(.05, .12); kw.update(rMean=req, rRelFuzz=fuzz, num=rng.randint(1, 60))
    elif mode == 'num': kw.update(rRelFuzz=fuzz, num=rng.randint(1, 80), porosity=rng.uniform(.7, .95))
    else:
        k = rng.randint(2, 5)
        sizes = sorted(rng.uniform(.12, .4) for _ in range(k))
        cum = sorted([0., 1.] + [rng.random() for _ in range(k - 2)])
        kw.update(psdSizes=sizes, psdCumm=cum)
        if mode == 'psd-num': kw.update(num=rng.randint(2, 80), porosity=rng.uniform(.7, .95))
    sp = pack.SpherePack()
    pre = []
    if not periodic and not flat and rng.random() < .2:  # spheres already there stay, and are counted in the overlap test only
        sp.add(mn + size * .5, .05); pre = sp.toList()
    got = sp.makeCloud(mn, mx, **kw)
    what = '%s %r' % (mode, {k: (v if not isinstance(v, list) else [round(x, 4) for x in v]) for k, v in kw.items()})
    ctx.check(len(sp) == got + len(pre), 'count', '%s: %d spheres made, %d returned (%d before)' % (what, len(sp), got, len(pre)))
    ctx.check(sp.toList()[:len(pre)] == pre, 'previous', '%s: spheres already in the packing changed' % what)
    if 'num' in kw:
        ctx.check(got <= kw['num'], 'too-many', '%s: %d spheres, %d asked for' % (what, got, kw['num']))
        if mode in ('num', 'psd-num'): ctx.check(got == kw['num'], 'too-few', '%s: %d spheres, %d asked for' % (what, got, kw['num']))
    C, R = arr(sp)
    C0, R0 = C, R
    C, R = C[len(pre):], R[len(pre):]
    o = np.array(tuple(mn))
    if len(R):
        if periodic:
            F = (C - o) @ np.linalg.inv(H).T
            ctx.check(F.min() >= -1e-12 and F.max() < 1 + 1e-12, 'outside-cell', '%s: centre at %r of the cell' % (what, F[np.argmax(abs(F - .5)) // 3]))
        else:
            for a in range(3):
                if size[a] == 0: ctx.check(np.all(C[:, a] == mn[a]), 'not-flat', what)
                else: ctx.check((C[:, a] - R).min() >= mn[a] - 1e-9 and (C[:, a] + R).max() <= mn[a] + size[a] + 1e-9, 'outside', '%s: axis %d spans %r..%r, box %r..%r' % (what, a, (C[:, a] - R).min(), (C[:, a] + R).max(), mn[a], mn[a] + size[a]))
        g = min_gap(C0, R0, H if periodic else None)
        ctx.check(g >= -1e-9, 'overlap', lambda: '%s: two spheres overlap by %r (cell %r)' % (what, -g, H.tolist()))
        # sizes
        scale = 1.
        if mode.startswith('psd'):
            if mode == 'psd-num': scale = sp.appliedPsdScaling
            rr = [.5 * s * scale for s in kw['psdSizes']]
            F = lambda r: cdf_psd(r, rr, kw['psdCumm'], dm)
            lo, hi = rr[0], rr[-1]
        else:
            rm = req if req else None
            if rm is None:
                s = float(np.median(R))  # the mean radius is chosen to give the porosity, and lowered when the spheres do not fit
                rm = (R.max() + R.min()) / 2 if len(R) > 1 else R[0]
                if fuzz == 0: ctx.check(R.max() - R.min() <= 1e-12 * rm, 'sizes-differ', what)
                v = (4 / 3. * pi * R ** 3).sum() if not flat else (pi * R ** 2).sum()
                area = 1.
                for a in range(3):
                    if size[a]: area *= size[a]
                por = 1 - v / (area if flat else vol)
                if not dm and len(R) > 5: ctx.check(por >= kw['porosity'] - .05, 'porosity', '%s: porosity %r' % (what, por))
                lo, hi = 0, 1e9
                F = None
            else:
                lo, hi = rm * (1 - fuzz), rm * (1 + fuzz)
                F = (lambda r: cdf_power(r, lo, hi)) if dm else (lambda r: np.clip((r - lo) / (hi - lo), 0, 1))
        ctx.check(R.min() >= lo - 1e-9 and R.max() <= hi + 1e-9, 'size-range', '%s: radii %r..%r, asked for %r..%r (scaling %r)' % (what, R.min(), R.max(), lo, hi, scale))
        if F is not None and hi > lo and len(R) > 4 and (got == kw.get('num', got)):
            s = np.sort(R)
            f = F(s)
            n = len(s)
            d = max(abs(f - np.arange(1, n + 1) / n).max(), abs(f - np.arange(0, n) / n).max())
            bound = 1.6 / (n + 1) + 1e-6 if 'num' in kw else 2.6 / n ** .5
            # the power-law pieces between given sizes carry rounding only; distribution steps (repeated fractions) too
            ctx.check(d <= bound, 'distribution', lambda: '%s: distribution of %d radii differs from the requested one by %r (bound %r)' % (what, n, d, bound))
            ctx.observed(('distribution', mode, dm))
    # reproducible with its seed, and only with it
    sp2 = pack.SpherePack()
    if pre: sp2.fromList(pre)
    sp2.makeCloud(mn, mx, **kw)
    ctx.check(sp2.toList() == sp.toList(), 'seed', '%s: the same seed gives another packing' % what)
    kw['seed'] = seed + 1
    sp3 = pack.SpherePack()
    if pre: sp3.fromList(pre)
    sp3.makeCloud(mn, mx, **kw)
    ctx.check(len(sp3) == 0 or sp3.toList() != sp.toList(), 'seed-ignored', '%s: another seed gives the same packing' % what)
    ctx.check(sp.isPeriodic == periodic, 'periodic-flag', what)
    if periodic and not shear: ctx.check((sp.cellSize - size).norm() <= 1e-12 * size.norm(), 'cellSize', '%s: %r instead of %r' % (what, sp.cellSize, size))
    ctx.observed((mode, periodic, shear, flat, dm, fuzz > 0, min(len(R), 20) // 5), 4)
    ctx.note('spheres', len(R))


@each(20)
def clumpcloud(ctx, case):
    rng = case.rng
    shapes = []
    for _ in range(rng.randint(1, 3)):
        L = [(rvec(rng, .15) + (rvec(rng, 3) if rng.random() < .3 else Vector3(0, 0, 0)), rng.uniform(.05, .12))]
        for _ in range(rng.randint(0, 3)): L.append((L[0][0] + rvec(rng, .15), rng.uniform(.05, .12)))
        shapes.append(L)
    periodic = rng.random() < .5
    mn = rvec(rng, 5); size = Vector3(*[rng.uniform(1, 2) for _ in range(3)])
    num = rng.choice((-1, rng.randint(1, 30)))
    sp = pack.SpherePack()
    seed = rng.randrange(1, 10**6)
    n = sp.makeClumpCloud(mn, mn + size, [pack.SpherePack(s) for s in shapes], periodic=periodic, num=num, seed=seed)
    C, R = arr(sp)
    alone, groups = sp.getClumps()
    L = sp.toList()
    ctx.check(len(groups) == n and not alone, 'clump-count', '%d clumps returned, %d found, %d spheres alone' % (n, len(groups), len(alone)))
    if num > 0: ctx.check(n <= num, 'too-many', '%d clumps, %d asked for' % (n, num))
    ctx.check(sorted(i for g in groups for i in g) == list(range(len(sp))), 'partition', 'clumps %r do not partition %d spheres' % (groups, len(sp)))
    if n:
        ctx.check(sp.hasClumps(), 'hasClumps', 'no clumps reported')
        grp = np.zeros(len(R), int)
        for k, g in enumerate(groups):
            for i in g: grp[i] = k
        g = min_gap(C, R, np.diag(tuple(size)) if periodic else None, grp)
        ctx.check(g >= -1e-9, 'clump-overlap', 'spheres of two clumps overlap by %r (periodic=%r)' % (-g, periodic))
        if not periodic:
            for a in range(3): ctx.check((C[:, a] - R).min() >= mn[a] - 1e-9 and (C[:, a] + R).max() <= mn[a] + size[a] + 1e-9, 'clump-outside', 'axis %d' % a)
        # each clump is one of the given shapes, moved rigidly
        for g in groups:
            ok = False
            for s in shapes:
                if len(s) != len(g): continue
                if all(abs(s[a][1] - R[g[a]]) < 1e-9 for a in range(len(s))) and all(abs((s[a][0] - s[b][0]).norm() - float(np.linalg.norm(C[g[a]] - C[g[b]]))) < 1e-9 for a in range(len(s)) for b in range(a)): ok = True
            ctx.check(ok, 'clump-shape', 'clump %r is none of the given ones' % (g,))
    sp2 = pack.SpherePack()
    sp2.makeClumpCloud(mn, mn + size, [pack.SpherePack(s) for s in shapes], periodic=periodic, num=num, seed=seed)
    ctx.check(sp2.toList() == L, 'clump-seed', 'the same seed gives another cloud of clumps')
    ctx.observed((periodic, num > 0, len(shapes), min(n, 4)), 4)
    ctx.note('clumps', n)


# ------------------------------------------------------------------ regions
class Shape:
    """An independent definition: sd(p) > 0 inside (a distance to the surface where exact is True), box, and the object under test."""


def shape(rng, bounded=False):
    s = Shape()
    s.exact = True
    kind = rng.choice(('sphere', 'box', 'para', 'cyl', 'hyper', 'ell') if bounded else ('sphere', 'box', 'para', 'cyl', 'hyper', 'ell', 'notch', 'half', 'poly', 'space'))
    s.kind = kind
    c = rvec(rng, 1.)
    if kind == 'sphere':
        r = rng.uniform(.3, 1.5)
        s.p = pack.inSphere(c, r); s.sd = lambda p: r - (p - c).norm()
    elif kind == 'box':
        h = Vector3(*[rng.uniform(.2, 1.2) for _ in range(3)])
        s.p = pack.inAlignedBox(c - h, c + h)
        s.sd = lambda p: min(h[i] - abs(p[i] - c[i]) for i in range(3))
    elif kind == 'para':
        a, b, d = [rvec(rng, 1.2) for _ in range(3)]
        while abs(a.dot(b.cross(d))) < .3: a, b, d = [rvec(rng, 1.2) for _ in range(3)]
        s.p = pack.inParallelepiped(c, c + a, c + b, c + d)
        nn = []
        for u, v, w in ((a, b, d), (b, d, a), (d, a, b)):
            n = v.cross(w).normalized()
            nn.append((n, n.dot(u)))

        def sd(p):
            m = 1e9
            for n, h in nn:
                t = n.dot(p - c)
                if h < 0: t, hh = -t, -h
                else: hh = h
                m = min(m, t, hh - t)
            return m
        s.sd = sd
    elif kind in ('cyl', 'hyper'):
        ax = rvec(rng, 1.).normalized(); L = rng.uniform(.5, 2.5); r = rng.uniform(.4, 1.2)
        if rng.random() < .2: ax = Vector3(*[(1., 0, 0), (0, 1., 0), (0, 0, -1.)][rng.randrange(3)])
        if kind == 'cyl':
            s.p = pack.inCylinder(c, c + ax * L, r)
            s.sd = lambda p: min(ax.dot(p - c), L - ax.dot(p - c), r - (p - c - ax * ax.dot(p - c)).norm())
        else:
            sk = r * rng.uniform(.2, .9)
            s.p = pack.inHyperboloid(c, c + ax * L, r, sk); s.exact = False

            def sd(p):
                t = ax.dot(p - c); u = (t - L / 2) / (L / 2)
                rad = math.sqrt(sk * sk + (r * r - sk * sk) * u * u)
                return min(t, L - t, rad - (p - c - ax * t).norm())
            s.sd = sd
    elif kind == 'ell':
        e = Vector3(*[rng.uniform(.3, 1.3) for _ in range(3)])
        s.p = pack.inEllipsoid(c, e)

        def sd(p):
            q = [abs(p[i] - c[i]) for i in range(3)]
            inside = sum((q[i] / e[i]) ** 2 for i in range(3)) <= 1
            return (1 if inside else -1) * ell_dist(q, e)
        s.sd = sd
        s.exact = False  # padding shrinks the semi-axes, an approximation of the exact distance
        s.shrunk = lambda p, pad: pad < min(e) and sum(((p[i] - c[i]) / (e[i] - pad)) ** 2 for i in range(3)) <= 1 + 1e-9
    elif kind == 'notch':
        ed, nr = rvec(rng).normalized(), rvec(rng).normalized()
        while ed.cross(nr).norm() < .2: nr = rvec(rng).normalized()
        ap = rng.uniform(.1, .8)
        s.p = pack.notInNotch(c, ed, nr, ap)
        n = (nr - ed * ed.dot(nr)).normalized(); ins = ed.cross(n)

        def sd(p):  # distance to the notch: a half-infinite slab
            x, y = ins.dot(p - c), abs(n.dot(p - c)) - ap / 2
            if x > 0 and y < 0: return -min(x, -y)
            dx, dy = max(0, -x), max(0, y)
            return math.hypot(dx, dy)
        s.sd = sd
    elif kind == 'half':
        d = rvec(rng)
        if rng.random() < .4: d = Vector3(*[(1., 0, 0), (0, -2., 0), (0, 0, 3.)][rng.randrange(3)])
        s.p = pack.inHalfSpace(c, d); dn = d.normalized()
        s.sd = lambda p: dn.dot(p - c)
    elif kind == 'poly':
        pl = [(c - rvec(rng, .2) - u * rng.uniform(.3, .9), u) for u in (Vector3(1, 0, 0), Vector3(-1, 0, 0), Vector3(0, 1, 0), Vector3(0, -1, 0), Vector3(0, 0, 1), Vector3(0, 0, -1))]
        u = rvec(rng).normalized()
        pl.append((c - u * .5, u))
        s.p = pack.inConvexPolyhedron(pl)
        s.sd = lambda p: min((p - a).dot(b) for a, b in pl)
    else:
        s.p = pack.inSpace(); s.sd = lambda p: 1e9
    return s


def ell_dist(q, e):
    """Distance of a point (non-negative coordinates) to the surface of an ellipsoid, by refinement over the surface and Lagrange multipliers."""
    q = [max(x, 1e-13) for x in q]
    m = min(e)
    lo, hi = -m * m, max(e) * (math.sqrt(sum(x * x for x in q)) + max(e))
    F = lambda t: sum((e[i] * q[i] / (t + e[i] ** 2)) ** 2 if t + e[i] ** 2 > 0 else float('inf') for i in range(3)) - 1
    for _ in range(200):
        t = (lo + hi) / 2
        if F(t) > 0: lo = t
        else: hi = t
    t = (lo + hi) / 2
    x = [e[i] ** 2 * q[i] / (t + e[i] ** 2) if t + e[i] ** 2 > 0 else 0. for i in range(3)]
    k = list(e).index(m)
    rest = 1 - sum((x[i] / e[i]) ** 2 for i in range(3) if i != k)
    if rest > 0: x[k] = e[k] * math.sqrt(rest)
    return math.sqrt(sum((x[i] - q[i]) ** 2 for i in range(3)))


def tree(rng, depth):
    """A random combination; kind, sd by set logic."""
    if depth == 0 or rng.random() < .25: return shape(rng)
    a, b = tree(rng, depth - 1), tree(rng, depth - 1)
    op = rng.choice('|&-^')
    s = Shape()
    s.kind = '(%s%s%s)' % (a.kind, op, b.kind)
    s.op = op
    s.a, s.b = a, b
    s.exact = a.exact and b.exact
    if op == '|': s.p = a.p | b.p; s.sd = lambda p: max(a.sd(p), b.sd(p))
    elif op == '&': s.p = a.p & b.p; s.sd = lambda p: min(a.sd(p), b.sd(p))
    elif op == '-': s.p = a.p - b.p; s.sd = lambda p: min(a.sd(p), -b.sd(p))
    else: s.p = a.p ^ b.p; s.sd = lambda p: max(min(a.sd(p), -b.sd(p)), min(b.sd(p), -a.sd(p)))
    return s


@each(50)
def regions(ctx, case):
    rng = case.rng
    s = tree(rng, rng.randint(0, 3))
    mn, mx = s.p.aabb()
    ins = 0
    for _ in range(120):
        p = rvec(rng, 2.2)
        d = s.sd(p)
        if abs(d) < 1e-9: continue
        got = s.p(p, 0.)
        ctx.check(bool(got) == (d > 0), 'membership', lambda: '%s: %r is %s, should be %s (distance %r)' % (s.kind, p, 'in' if got else 'out', 'in' if d > 0 else 'out', d))
        if got:
            ins += 1
            ctx.check(all(mn[i] - 1e-9 <= p[i] <= mx[i] + 1e-9 for i in range(3)), 'aabb', lambda: '%s contains %r outside of its box %r %r' % (s.kind, p, mn, mx))
        ctx.observed()
    if not math.isinf(max(abs(x) for v in (mn, mx) for x in v)):
        ctx.check((s.p.dim() - (mx - mn)).norm() < 1e-9 and (s.p.center() - (mn + mx) * .5).norm() < 1e-9, 'dim-center', '%s: %r %r for %r %r' % (s.kind, s.p.dim(), s.p.center(), mn, mx))
    ctx.observed((s.kind if len(s.kind) < 16 else s.kind[:16], ins > 0), 0)


@each(50)
def padding(ctx, case):
    """A point accepted with padding has the whole ball inside; for single exact shapes the converse holds too."""
    rng = case.rng
    s = tree(rng, rng.randint(0, 2))
    while not s.exact and not hasattr(s, 'shrunk'): s = tree(rng, rng.randint(0, 2))
    single = not hasattr(s, 'op')
    acc = 0
    for _ in range(150):
        p = rvec(rng, 1.8)
        pad = rng.choice((rng.uniform(0, .5), rng.uniform(0, .1), rng.uniform(0, 2.)))
        got = s.p(p, pad)
        if hasattr(s, 'shrunk'):
            if got: acc += 1; ctx.check(s.shrunk(p, pad), 'ball-too-big', 'ellipsoid: ball of radius %r accepted at %r' % (pad, p))
            else: ctx.check(s.sd(p) <= pad + 1e-7, 'ball-refused', 'ellipsoid: ball of radius %r refused at distance %r from the surface (%r)' % (pad, s.sd(p), p))
            ctx.observed()
            continue
        if got:
            acc += 1
            for _ in range(12):
                q = p + rvec(rng).normalized() * pad * .999999
                if s.sd(q) < -1e-7: ctx.check(False, 'ball-outside', '%s: ball of radius %r at %r accepted, but %r (distance %r) is outside' % (s.kind, pad, p, q, s.sd(q)))
            # the nearest surface point decides, when the distance is exact
            if single: ctx.check(s.sd(p) >= pad - 1e-7, 'ball-too-big', '%s: ball of radius %r accepted at distance %r from the surface' % (s.kind, pad, s.sd(p)))
        elif single: ctx.check(s.sd(p) <= pad + 1e-7, 'ball-refused', '%s: ball of radius %r refused at distance %r from the surface (%r)' % (s.kind, pad, s.sd(p), p))
        ctx.observed()
    ctx.observed((s.kind if len(s.kind) < 20 else s.kind[:20], acc > 0), 0)


@each(20)
def regular(ctx, case):
    rng = case.rng
    s = shape(rng, bounded=True) if rng.random() < .5 else tree(rng, 2)
    mn, mx = s.p.aabb()
    if max(abs(x) for v in (mn, mx) for x in v) > 1e6 or any(mx[i] - mn[i] < .3 for i in range(3)):
        s = shape(rng, bounded=True); mn, mx = s.p.aabb()
    r = rng.uniform(.05, .12); gap = rng.choice((0., rng.uniform(0, .1)))
    a = 2 * r + gap
    hexa = case.idx % 2
    dens = rng.choice((1000., 2650.))
    fresh()
    m = O.materials.append(FrictMat(density=dens, label='m%d' % case.idx))
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        bb = (pack.regularHexa if hexa else pack.regularOrtho)(s.p, r, gap, material=m, color=(.1, .2, .3))
    P = [Vector3(b.state.pos) for b in bb]
    for b in bb:
        ctx.check(b.shape.radius == r and tuple(b.shape.color) == (.1, .2, .3) and abs(b.state.mass - 4 / 3. * pi * r ** 3 * dens) < 1e-9, 'sphere', 'radius %r, colour %r, mass %r' % (b.shape.radius, b.shape.color, b.state.mass))
        ctx.check(not s.exact or s.sd(b.state.pos) > -1e-9, 'centre-outside', '%s: sphere at %r outside' % (s.kind, b.state.pos))
        if s.exact:
            for _ in range(6):
                q = b.state.pos + rvec(rng).normalized() * r * .999999
                ctx.check(s.sd(q) >= -1e-7, 'sphere-outside', '%s: sphere of radius %r at %r sticks out at %r' % (s.kind, r, b.state.pos, q))
    # expected lattice
    exp = []
    N = [int((mx[i] - mn[i]) / (a * .8)) + 3 for i in range(3)]
    close_call = False
    if hexa: pts = (Vector3((2 * i + (j + k) % 2) * .5, math.sqrt(3) / 2 * (j + (k % 2) / 3.), math.sqrt(6) / 3 * k) * a + mn for i in range(N[0]) for j in range(N[1]) for k in range(N[2]))
    else: pts = (mn + Vector3(r + i * a, r + j * a, r + k * a) for i in range(N[0]) for j in range(N[1]) for k in range(N[2]))
    have = {tuple(round(x / a * 1e4) for x in p) for p in P}

    def there(p):
        k = [x / a * 1e4 for x in p]
        return any(tuple(math.floor(k[i]) + o[i] for i in range(3)) in have for o in itertools.product((0, 1), repeat=3))
    n = 0
    for p in pts:
        if hexa and any(p[i] > mx[i] for i in range(3)): continue
        if not hexa and any(p[i] >= mx[i] - r - 1e-9 for i in range(3)): continue
        if bool(s.p(p, r)):
            n += 1
            near = not (s.p(p, r * (1 + 1e-9) + 1e-9) and s.p(p, r * (1 - 1e-9) - 1e-9))
            if not near: ctx.check(there(p), 'hole', lambda: '%s: no sphere at lattice point %r (radius %r, gap %r, %s)' % (s.kind, p, r, gap, 'hexa' if hexa else 'ortho'))
            else: close_call = True
    ctx.check(close_call or abs(n - len(P)) <= 0, 'number', lambda: '%s: %d spheres, %d lattice points fit (%s)' % (s.kind, len(P), n, 'hexa' if hexa else 'ortho'))
    if 1 < len(P) < 900:
        C = np.array([tuple(p) for p in P]); D = np.sqrt(((C[:, None] - C[None]) ** 2).sum(2)); np.fill_diagonal(D, 9)
        ctx.check(D.min() >= a - 1e-9, 'spacing', '%s: spheres %r apart, lattice %r' % (s.kind, D.min(), a))
    ctx.observed((hexa, s.kind[:12], gap > 0, len(P) > 0), 2)
    ctx.note('spheres', len(P))


def randpack(rng, periodic=None, clumps=None):
    n = rng.randint(1, 25)
    L = [(rvec(rng, 3), rng.uniform(.05, .5)) for _ in range(n)]
    if clumps: L = [x + (rng.randint(0, 3),) if rng.random() < .6 else x for x in L]
    sp = pack.SpherePack(L)
    if periodic: sp.cellSize = Vector3(*[rng.uniform(5, 8) for _ in range(3)]); sp.isPeriodic = True
    return sp, L


def same(A, B, tol=1e-9):
    return len(A) == len(B) and all((a[0] - b[0]).norm() <= tol * (1 + b[0].norm()) and abs(a[1] - b[1]) <= tol * b[1] and tuple(a[2:]) == tuple(b[2:]) for a, b in zip(A, B))


@each(30)
def transform(ctx, case):
    rng = case.rng
    peri = rng.random() < .5; clumps = rng.random() < .4
    sp, L = randpack(rng, peri, clumps)
    ctx.check(same(sp.toList(), L, 0), 'fromList', 'list not kept')
    ops = []
    cell = Vector3(sp.cellSize)
    for _ in range(rng.randint(1, 6)):
        op = rng.choice(('translate', 'rotate', 'scale', 'repeat', 'fill', 'filter', 'relist'))
        ops.append(op)
        lo = Vector3(*[min(x[0][i] - x[1] for x in L) for i in range(3)]) if L else Vector3(0, 0, 0); hi = Vector3(*[max(x[0][i] + x[1] for x in L) for i in range(3)]) if L else Vector3(0, 0, 0)
        mid = (lo + hi) * .5
        if op == 'translate':
            t = rvec(rng, 10); sp.translate(t); L = [(x[0] + t,) + x[1:] for x in L]
        elif op == 'rotate':
            ax = rvec(rng).normalized(); an = rng.uniform(-7, 7); sp.rotate(ax, an)
            q = Quaternion(ax, an); L = [(q * (x[0] - mid) + mid,) + x[1:] for x in L]; cell = Vector3(0, 0, 0)
        elif op == 'scale':
            f = rng.choice((rng.uniform(.1, 5), -rng.uniform(.1, 5)) if cell.norm() == 0 else (rng.uniform(.1, 5),)); sp.scale(f)
            L = [((x[0] - mid) * f + mid, x[1] * abs(f)) + x[2:] for x in L]; cell = cell * f
        elif op in ('repeat', 'fill'):
            if cell.norm() == 0:
                try:
                    sp.cellRepeat((2, 1, 1)); ctx.check(False, 'repeat-aperiodic', 'no error')
                except RuntimeError: pass
                continue
            if len(L) > 400: continue
            if op == 'repeat': c = [rng.randint(1, 3) for _ in range(3)]; sp.cellRepeat(Vector3i(*c))
            else: v = Vector3(*[cell[i] * rng.uniform(.1, 2.9) for i in range(3)]); c = [int(math.ceil(v[i] / cell[i])) for i in range(3)]; sp.cellFill(v)
            got = sp.toList()
            K = [Vector3(cell[0] * i, cell[1] * j, cell[2] * k) for i in range(c[0]) for j in range(c[1]) for k in range(c[2])]
            ctx.check(len(got) == len(L) * len(K), 'repeat-count', '%d spheres from %d repeated %r' % (len(got), len(L), c))
            # each copy has the spheres moved, and its clumps are its own
            seen = {}
            for n, o in enumerate(K):
                part = got[n * len(L):(n + 1) * len(L)]
                for x, y in zip(L, part):
                    ctx.check((x[0] + o - y[0]).norm() < 1e-9 * (1 + x[0].norm() + o.norm()) and x[1] == y[1], 'repeat-position', '%r became %r, copy %r' % (x, y, o))
                    ctx.check(len(x) == len(y), 'repeat-clump', 'membership of a clump changed: %r became %r in copy %d' % (x, y, n))
                    if len(x) > 2: ctx.check(seen.setdefault(y[2], (n, x[2])) == (n, x[2]), 'repeat-clump-id', 'clump %d of the packing is shared by copies' % y[2])
            L = got
            cell = Vector3(*[cell[i] * c[i] for i in range(3)])
            ctx.check((sp.cellSize - cell).norm() < 1e-9 * cell.norm(), 'repeat-cell', '%r, expected %r' % (sp.cellSize, cell))
        elif op == 'filter':
            s = shape(rng, bounded=True)
            if not s.exact or not L: continue
            cl = any(len(x) > 2 for x in L)
            src = pack.SpherePack(sp.toList())
            out = pack.filterSpherePack(s.p, src, returnSpherePack=True)
            sh = s.p.center() - mid
            exp = [(x[0] + sh, x[1]) for x in L if s.sd(x[0] + sh) > x[1]]
            edge = any(abs(s.sd(x[0] + sh) - x[1]) < 1e-7 for x in L)
            if not edge: ctx.check(same([y[:2] for y in out.toList()], exp), 'filter', '%s: %d spheres kept, %d fit' % (s.kind, len(out), len(exp)))
            continue
        elif op == 'relist':
            sp2 = pack.SpherePack()
            sp2.fromList([x[0] for x in L], [x[1] for x in L])
            ctx.check(same(sp2.toList(), [x[:2] for x in L], 1e-15), 'fromLists', 'two lists not kept')
        ctx.check(same(sp.toList(), L), op, lambda: 'after %r: %r, expected %r' % (ops, sp.toList()[:3], L[:3]))
        ctx.check((sp.cellSize - cell).norm() <= 1e-9 * (cell.norm() + 1e-300), 'cell-' + op, 'cell %r, expected %r after %r' % (sp.cellSize, cell, ops))
        ctx.observed((op, peri, clumps))


@each(30)
def roundtrip(ctx, case):
    rng = case.rng
    peri = rng.random() < .5; clumps = rng.random() < .4
    sp, L = randpack(rng, peri, clumps)
    d = tempfile.mkdtemp(prefix='p17-')
    try:
        f = d + '/p.txt'
        sp.save(f)
        q = pack.SpherePack()
        if rng.random() < .5: q.add((0, 0, 0), 1); q.cellSize = (1, 2, 3)
        q.load(f)
        ctx.check(same(q.toList(), L, 6e-6), 'file', 'read %r, saved %r' % (q.toList()[:3], L[:3]))
        ctx.check((q.cellSize - sp.cellSize).norm() <= 6e-6 * (sp.cellSize.norm()), 'file-cell', 'cell %r, saved %r' % (q.cellSize, sp.cellSize))
        ctx.check(q.isPeriodic == peri, 'file-periodic', 'periodic=%r, saved %r' % (q.isPeriodic, peri))
    finally: shutil.rmtree(d)
    # through a simulation
    fresh()
    src = rng.choice((sp, q))
    rot = rquat(rng) if rng.random() < .4 else None
    ids = src.toSimulation(rot=rot) if rot is not None else src.toSimulation()
    S = src.toList()
    ctx.check(O.periodic == peri, 'sim-periodic', 'O.periodic=%r, packing %r' % (O.periodic, peri))
    M = rot.toRotationMatrix() if rot is not None else Matrix3.Identity
    for i, x in zip(ids, S):
        b = O.bodies[i]
        ctx.check((b.state.pos - M * x[0]).norm() < 1e-9 and b.shape.radius == x[1], 'to-simulation', '%r became %r %r' % (x, b.state.pos, b.shape.radius))
        if len(x) == 2: ctx.check(not b.isClumpMember, 'standalone', 'sphere put into a clump')
        else: ctx.check(b.isClumpMember and sorted(k for k, y in zip(ids, S) if y[2:] == x[2:]) == sorted(O.bodies[b.clumpId].shape.members.keys()), 'clumped', 'clump of %r' % (x,))
    nc = len({x[2] for x in S if len(x) > 2})
    ctx.check(len(ids) == len(S) + nc, 'ids', '%d ids, %d spheres, %d clumps' % (len(ids), len(S), nc))
    if peri:
        h = M * Matrix3(src.cellSize[0], 0, 0, 0, src.cellSize[1], 0, 0, 0, src.cellSize[2])
        ctx.check(max(abs(O.cell.hSize[i, j] - h[i, j]) for i in range(3) for j in range(3)) < 1e-9, 'sim-cell', 'hSize %r, expected %r' % (O.cell.hSize, h))
    back = pack.SpherePack()
    if rng.random() < .5: back.cellSize = (3, 3, 3); back.isPeriodic = True
    O.bodies.append(utils.box((0, 0, 0), (1, 1, 1)))
    if rng.random() < .5 and len(S) > 1 and not clumps:
        k = rng.randrange(len(S)); O.bodies.erase(ids[k]); S = S[:k] + S[k + 1:]
    back.fromSimulation()
    B = back.toList()
    ctx.check(len(B) == len(S) and all((a[0] - M * b[0]).norm() < 1e-9 and a[1] == b[1] for a, b in zip(B, S)), 'from-simulation', '%d spheres, expected %d' % (len(B), len(S)))
    ctx.check([len(x) for x in B] == [len(x) for x in S], 'from-simulation-clumps', 'clump membership lost')
    ctx.check(back.isPeriodic == peri, 'from-simulation-periodic', 'periodic=%r, simulation %r' % (back.isPeriodic, peri))
    if not peri: ctx.check(back.cellSize.norm() == 0, 'from-simulation-cell', 'cell %r left over' % back.cellSize)
    elif rot is None: ctx.check((back.cellSize - src.cellSize).norm() < 1e-9, 'from-simulation-cell', 'cell %r, expected %r' % (back.cellSize, src.cellSize))
    ctx.observed((peri, clumps, rot is not None, src is q), 6)


@each(30)
def measures(ctx, case):
    rng = case.rng
    sp, L = randpack(rng, False, rng.random() < .3)
    if rng.random() < .2: L = [(x[0], .25) + x[2:] for x in L]; sp = pack.SpherePack(L)
    C, R = np.array([tuple(x[0]) for x in L]), np.array([x[1] for x in L])
    mn, mx = (C - R[:, None]).min(0), (C + R[:, None]).max(0)
    a, b = sp.aabb()
    ctx.check(np.allclose(tuple(a), mn, atol=1e-12) and np.allclose(tuple(b), mx, atol=1e-12) and np.allclose(tuple(sp.dim()), mx - mn) and np.allclose(tuple(sp.center()), (mn + mx) / 2, atol=1e-12), 'aabb', 'aabb %r %r' % (a, b))
    ctx.check(abs(sp.relDensity() - (4 / 3. * pi * R ** 3).sum() / np.prod(mx - mn)) < 1e-9, 'relDensity', '%r' % sp.relDensity())
    ctx.check(len(sp) == len(L) and all(sp[i] == sp.toList()[i] for i in range(len(L))), 'getitem', 'items differ from the list')
    for i in (len(L), len(L) + 5):
        try: sp[i]; ctx.check(False, 'index', 'no error for index %d of %d' % (i, len(L)))
        except (RuntimeError, IndexError): pass
    bins = rng.randint(1, 20); mass = rng.random() < .5
    e, c = sp.psd(bins=bins, mass=mass)
    w = R ** 3 / (R ** 3).sum() if mass else np.full(len(R), 1. / len(R))
    ctx.check(len(e) == bins + 1 and len(c) == bins + 1 and c[0] == 0 and abs(c[-1] - 1) < 1e-9 and all(c[i] <= c[i + 1] for i in range(bins)), 'psd-range', '%r %r' % (e, c))
    for x, y in zip(e[1:-1], c[1:-1]):
        lo = w[2 * R < x - 1e-9].sum(); hi = w[2 * R <= x + 1e-9].sum()
        ctx.check(lo - 1e-9 <= y <= hi + 1e-9, 'psd', 'cumulative %r at size %r, is %r..%r' % (y, x, lo, hi))
    if R.max() > R.min(): ctx.check(abs(e[0] - 2 * R.min()) < 1e-12 and abs(e[-1] - 2 * R.max()) < 1e-12, 'psd-edges', '%r' % (e,))
    ctx.observed((bins, mass, R.max() > R.min()), 5)


@each(2)
def dense(ctx, case):
    """Dense packings made by simulation: inside the region, of the requested sizes, nearly without overlap, and the running simulation is left alone."""
    rng = case.rng
    fresh()
    O.bodies.append(utils.sphere((1, 2, 3), .5))
    s = shape(rng, bounded=True)
    while s.kind not in ('sphere', 'cyl', 'box'): s = shape(rng, bounded=True)
    r = min(s.p.dim()) / 8; fz = rng.choice((0., .2))
    import io, contextlib
    if case.idx % 2 == 0:
        with contextlib.redirect_stdout(io.StringIO()): sp = pack.randomDensePack(s.p, radius=r, rRelFuzz=fz, spheresInCell=400, returnSpherePack=True)
        C, R = arr(sp)
        ctx.check(len(R) > 5, 'empty', '%d spheres in %s' % (len(R), s.kind))
        for c, x in zip(C, R): ctx.check(s.sd(Vector3(*map(float, c))) >= x - 1e-6 * r, 'dense-outside', '%s: sphere at %r' % (s.kind, c))
        ctx.check(min_gap(C, R) > -.1 * r, 'dense-overlap', 'overlap %r with radius %r' % (min_gap(C, R), r))
    else:
        with contextlib.redirect_stdout(io.StringIO()): sp = pack.randomPeriPack(radius=r, initSize=Vector3(18, 18, 18) * r, rRelFuzz=fz)
        C, R = arr(sp)
        ctx.check(min_gap(C, R, np.diag(tuple(sp.cellSize))) > -.1 * r, 'dense-overlap', 'overlap %r with radius %r' % (min_gap(C, R, np.diag(tuple(sp.cellSize))), r))
        ctx.check(sp.isPeriodic, 'dense-periodic', 'not periodic')
    ctx.check(R.min() >= r * (1 - fz) - 1e-9 and R.max() <= r * (1 + fz) + 1e-9, 'dense-sizes', 'radii %r..%r, asked for %r±%r' % (R.min(), R.max(), r, fz))
    ctx.check(len(O.bodies) == 1 and tuple(O.bodies[0].state.pos) == (1, 2, 3) and not O.engines, 'dense-simulation', 'the current simulation changed')
    ctx.observed((case.idx % 2, s.kind, fz > 0), len(R))
