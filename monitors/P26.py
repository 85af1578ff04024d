"""Convex polyhedra: mass properties, overlap volumes, forces, periodic images, splitting, contact with walls, facets and spheres."""
from common import *
import math, itertools, re
try:
    import numpy as np
    from scipy.spatial import ConvexHull, HalfspaceIntersection
    from scipy.optimize import linprog
    from yade import polyhedra_utils as pu
except ImportError:
    np = pu = None

RULE = ('a case is one random point set or one random placement of two or more convex bodies; hull, volume, centroid, inertia and the intersection of half spaces are recomputed with qhull and linear programming and compared with what the '
        'program reports and with the forces it applies; distinct = (kind of point set or pair, faces, outcome)')
ASSUMPTIONS = ['for contacts, no given point lies in the middle of an edge (the hull then has facets without a direction)', 'qhull and the simplex solver of scipy are right', 'facets closer to one plane than 1e-3 rad are compared loosely because the program merges them', 'overlaps deeper than 1e-3 of the size and not nearly complete',
               'sizes between 0.05 and 20 for contacts (absolute tolerances in the code); any size for mass properties']


def plan(tier):
    k = 1 if tier == 'quick' else 20
    return [dict(func='mass', name='mass', args=dict(n=220 * k)), dict(func='randomshape', name='randomshape', args=dict(n=60 * k)), dict(func='overlap', name='overlap-a', args=dict(n=70 * k)), dict(func='overlap', name='overlap-b', args=dict(n=70 * k)),
            dict(func='periodic', name='periodic', args=dict(n=40 * k)), dict(func='history', name='history', args=dict(n=12 * k)), dict(func='walls', name='walls', args=dict(n=60 * k)), dict(func='sphere_', name='sphere', args=dict(n=80 * k)),
            dict(func='split', name='split', args=dict(n=60 * k)), dict(func='fill', name='fill', args=dict(n=4 * k))]


def chk(ok, case, detail):
    if not ok: raise Violation(re.sub(r'[^a-zA-Z]+', '-', detail)[:40].strip('-'), detail)


def case_kind(ctx): return ctx.spec['func']


# ---------------------------------------------------------------- independent geometry
class Hull:
    def __init__(self, pts):
        P = np.asarray(pts, float)
        self.c0 = P.mean(0)
        self.s = abs(P - self.c0).max()
        Q = (P - self.c0) / self.s
        h = ConvexHull(Q)
        self.h, self.Q = h, Q
        self.eq = h.equations                                   # n.x + d <= 0 (scaled, shifted)
        o = Q[h.vertices].mean(0)
        V = 0.
        S = np.zeros(3)
        C = np.zeros((3, 3))
        for t in h.simplices:
            a, b, c = Q[t] - o
            v = abs(np.linalg.det(np.array([a, b, c]))) / 6
            V += v
            S += v * (a + b + c) / 4
            m = np.outer(a + b + c, a + b + c) + np.outer(a, a) + np.outer(b, b) + np.outer(c, c)
            C += v / 20 * m
        g = S / V
        C -= V * np.outer(g, g)
        self.volume = V * self.s ** 3
        self.centroid = (g + o) * self.s + self.c0
        self.inertia = (np.trace(C) * np.eye(3) - C) * self.s ** 5
        self.area = h.area * self.s ** 2
        # smallest dihedral angle that is not zero
        self.flat = False
        for i, nb in enumerate(h.neighbors):
            for j in nb:
                a = np.linalg.norm(self.eq[i, :3] - self.eq[j, :3])
                if 1e-7 < a < 2e-3: self.flat = True
        self.slim = 6 * V / 8 < 1e-3
        # corners: vertices with at least three different normals around
        self.corners = []
        for v in h.vertices:
            N = [self.eq[i, :3] for i, t in enumerate(h.simplices) if v in t]
            U = []
            for n in N:
                if not any(np.linalg.norm(n - u) < 1e-6 for u in U): U.append(n)
            if len(U) >= 3: self.corners.append(P[v])

    def planes(self):
        """Half spaces n.x + d <= 0 in real coordinates."""
        E = self.eq.copy()
        E[:, 3] = E[:, 3] * self.s - E[:, :3] @ self.c0
        return E


def meet(*planes):
    """Intersection of half spaces: (depth, volume, centroid)."""
    E = np.vstack(planes)
    A = np.hstack([E[:, :3], np.linalg.norm(E[:, :3], axis=1)[:, None]])
    r = linprog([0, 0, 0, -1], A_ub=A, b_ub=-E[:, 3], bounds=[(None, None)] * 3 + [(None, None)])
    if r.status != 0: return None
    depth = r.x[3]
    if depth <= 0: return depth, 0., None
    x0 = r.x[:3]
    F = E.copy()
    F[:, 3] += F[:, :3] @ x0
    F[:, 3] /= depth                                            # scaled about the inner point
    hs = HalfspaceIntersection(F, np.zeros(3))
    P = hs.intersections
    h = Hull(P * depth + x0)
    return depth, h.volume, h.centroid


def mat(q): return np.array([[q.toRotationMatrix()[a, b] for b in range(3)] for a in range(3)])


def arr(v): return np.array([v[0], v[1], v[2]], float)


def world(b):
    R, p = mat(b.state.ori), arr(b.state.pos)
    return np.array([R @ arr(v) + p for v in b.shape.v])


# ---------------------------------------------------------------- random shapes
KINDS = ('cloud', 'sphere', 'box', 'grid', 'prism', 'tetra', 'interior', 'slab', 'fan')


def points(rng, kind=None):
    """Points of about unit extent."""
    kind = kind or rng.choice(KINDS)
    if kind == 'cloud': P = [[rng.uniform(-1, 1) for _ in range(3)] for _ in range(rng.randint(5, 30))]
    elif kind == 'sphere':
        P = []
        for _ in range(rng.randint(6, 40)):
            v = np.array([rng.gauss(0, 1) for _ in range(3)])
            P.append(v / np.linalg.norm(v))
    elif kind == 'box': P = [[a, b, c] for a in (-1, 1) for b in (-.7, .7) for c in (-.4, .4)]
    elif kind == 'grid':                                        # points on faces and edges of a box
        P = [[a, b * .8, c * .6] for a in (-1, 0, 1) for b in (-1, 0, 1) for c in (-1, 0, 1) if rng.random() < .7 or abs(a * b * c) == 1]
    elif kind == 'prism':
        n = rng.randint(3, 9)
        P = [[math.cos(2 * math.pi * i / n), math.sin(2 * math.pi * i / n), z] for i in range(n) for z in (-.8, .8)]
    elif kind == 'tetra': P = [[rng.uniform(-1, 1) for _ in range(3)] for _ in range(4)]
    elif kind == 'interior': P = [[a, b, c] for a in (-1, 1) for b in (-1, 1) for c in (-1, 1)] + [[rng.uniform(-.9, .9) for _ in range(3)] for _ in range(rng.randint(1, 20))]
    elif kind == 'slab': P = [[rng.uniform(-1, 1), rng.uniform(-1, 1), rng.uniform(-.1, .1)] for _ in range(rng.randint(6, 20))]
    else:                                                       # pyramid with many faces
        n = rng.randint(4, 10)
        P = [[math.cos(2 * math.pi * i / n), math.sin(2 * math.pi * i / n), 0] for i in range(n)] + [[rng.uniform(-.3, .3), rng.uniform(-.3, .3), 1.]]
    P = np.array(P, float)
    if rng.random() < .2: P = np.vstack([P, P[:rng.randint(1, len(P))]])      # repeated points
    rng2 = np.random.RandomState(rng.randint(0, 10 ** 9))
    P = P[rng2.permutation(len(P))]
    return kind, P


def place(rng, P, L, off):
    R = mat(rquat(rng)) if rng.random() < .8 else np.eye(3)
    return (P @ R.T) * L + off


def good(rng, kind=None, contact=True):
    while 1:
        k, P = points(rng, kind)
        if contact and k == 'grid': continue                    # points in the middle of an edge
        try: h = Hull(P)
        except Exception: continue
        if not h.slim and not h.flat: return k, P, h


@each(1)
def mass(ctx, case):
    rng = case.rng
    fresh()
    k, P, _ = good(rng, contact=False)
    L = 10 ** rng.uniform(-3, 3)
    off = np.array([rng.uniform(-1, 1) for _ in range(3)]) * L * rng.choice([0, 1, 1, 10, 100])
    W = place(rng, P, L, off)
    h = Hull(W)
    far = 1 + np.linalg.norm(off) / L
    tol = 1e-11 * far ** 2 if not h.flat else 1e-4
    V = [Vector3(*w) for w in W]
    how = rng.choice(['v', 'v', 'util', 'set'])
    m = PolyhedraMat(density=rng.uniform(100, 5000))
    if how == 'util':
        mask = rng.choice([1, 2, 5])
        b = pu.polyhedra(m, v=V, mask=mask)
        s = b.shape
        chk(b.mask == mask, case, 'mask not taken over')
        chk(abs(b.state.mass - m.density * h.volume) <= max(tol, 1e-12) * 10 * m.density * h.volume, case, 'mass %.15g instead of %.15g' % (b.state.mass, m.density * h.volume))
    elif how == 'set':
        s = Polyhedra(v=[Vector3(0, 0, 0), Vector3(1, 0, 0), Vector3(0, 1, 0), Vector3(0, 0, 1)])
        s.GetVolume()
        s.setVertices(V)
    else: s = Polyhedra(v=V)
    desc = '%s, %d points, size %.3g, offset %.3g' % (k, len(W), L, np.linalg.norm(off))
    vol = s.GetVolume()
    chk(abs(vol - h.volume) <= tol * h.volume, case, 'volume %.15g of the hull of %s, expected %.15g' % (vol, desc, h.volume))
    ctx.note_max('volume error / tolerance', abs(vol - h.volume) / h.volume / tol)
    c = arr(s.GetCentroid())
    chk(np.linalg.norm(c - h.centroid) <= tol * L * 10, case, 'centroid %s, expected %s (%s)' % (c, h.centroid, desc))
    R, I = mat(s.GetOri()), arr(s.GetInertia())
    T = R @ np.diag(I) @ R.T
    sc = np.trace(h.inertia)
    e = abs(T - h.inertia).max() / sc
    chk(e <= tol * 20 + 2e-13, case, 'inertia tensor off by %.3g of its trace (%s)' % (e, desc))
    ctx.note_max('inertia error / tolerance', e / (tol * 20 + 2e-13))
    # vertices: local ones are relative to the centroid and principal axes
    X = np.array([R @ arr(v) + c for v in s.v])
    out = (h.planes()[:, :3] @ X.T + h.planes()[:, 3][:, None]).max(0)
    chk(abs(out).max() <= (1e-9 * far + (0 if not h.flat else 1e-3)) * L, case, 'a vertex is %.3g off the surface of the hull (%s)' % (abs(out).max(), desc))
    for w in h.corners: chk(np.linalg.norm(X - w, axis=1).min() <= (1e-10 * far + (0 if not h.flat else 1e-3)) * L, case, 'corner %s of the hull is not a vertex (%s)' % (w, desc))
    # surface
    tri = s.GetSurfaceTriangulation()
    ref = np.array([arr(v) for v in s.v])
    area = vv = 0.
    chk(len(tri) % 3 == 0 and all(0 <= i < len(ref) for i in tri), case, 'triangulation holds invalid vertices')
    for i in range(0, len(tri), 3):
        a, b_, c_ = ref[tri[i]], ref[tri[i + 1]], ref[tri[i + 2]]
        n = np.cross(b_ - a, c_ - a)
        area += np.linalg.norm(n) / 2
        vv += n.dot(a) / 6
    st = max(tol, 1e-9)
    chk(abs(area - h.area) <= st * 10 * h.area and abs(vv - h.volume) <= st * 10 * h.volume, case, 'surface triangles have area %.12g and enclose %.12g, expected %.12g and %.12g (%s)' % (area, vv, h.area, h.volume, desc))
    F = s.GetSurfaces()
    chk(sum(len(f) - 2 for f in F) * 3 == len(tri) and all(len(set(f)) == len(f) for f in F), case, 'faces and triangulation disagree')
    E = {}
    for f in F:
        for a, b_ in zip(f, list(f[1:]) + [f[0]]): E[(a, b_)] = E.get((a, b_), 0) + 1
    chk(all(n == 1 and E.get((b_, a)) == 1 for (a, b_), n in E.items()), case, 'the faces do not form a closed surface')
    chk(len(ref) - len(E) // 2 + len(F) == 2, case, 'Euler characteristic %d' % (len(ref) - len(E) // 2 + len(F)))
    # rigid motion of the input
    R2 = mat(rquat(rng))
    d = np.array([rng.uniform(-1, 1) for _ in range(3)]) * L
    s2 = Polyhedra(v=[Vector3(*(R2 @ w + d)) for w in W])
    chk(abs(s2.GetVolume() - vol) <= tol * 4 * vol, case, 'volume changes from %.15g to %.15g when the points are rotated (%s)' % (vol, s2.GetVolume(), desc))
    chk(all(abs(a - b_) <= (tol * 40 + 4e-13) * sc for a, b_ in zip(sorted(arr(s2.GetInertia())), sorted(I))), case, 'principal moments change when the points are rotated (%s)' % desc)
    chk(np.linalg.norm(arr(s2.GetCentroid()) - (R2 @ c + d)) <= tol * 40 * L, case, 'centroid does not follow the rotation (%s)' % desc)
    # saved and loaded again
    ctx.observed((case_kind(ctx), k, how, len(F), round(math.log10(L))), 0)
    ctx.observed('polyhedra', 2)


@each(1)
def randomshape(ctx, case):
    rng = case.rng
    fresh()
    size = Vector3(*[10 ** rng.uniform(-2, 1) * rng.uniform(.5, 2)] * 3) if rng.random() < .5 else Vector3(rng.uniform(.3, 3), rng.uniform(.3, 3), rng.uniform(.3, 3)) * 10 ** rng.uniform(-2, 1)
    m = PolyhedraMat(density=rng.uniform(100, 5000))
    sd = rng.randint(0, 10 ** 6)
    b = pu.polyhedra(m, size=size, seed=sd)
    b2 = pu.polyhedra(m, size=size, seed=sd)
    n = max(v.norm() for v in b.shape.v)
    chk(len(b.shape.v) == len(b2.shape.v) and abs(b.shape.GetVolume() - b2.shape.GetVolume()) <= 1e-9 * b.shape.GetVolume() and all(min((v - w).norm() for w in b2.shape.v) <= 1e-6 * n for v in b.shape.v), case, 'the same seed gives another shape')
    ref = np.array([arr(v) for v in b.shape.v])
    h = Hull(ref)
    tol = 1e-9 if not h.flat else 1e-4
    chk(abs(b.shape.GetVolume() - h.volume) <= tol * h.volume and np.linalg.norm(h.centroid) <= tol * 10 * h.s, case, 'volume %.12g, hull of its vertices %.12g, centroid at %s' % (b.shape.GetVolume(), h.volume, h.centroid))
    chk(abs(np.diag(arr(b.shape.GetInertia())) - h.inertia).max() <= (tol * 10 + 1e-12) * np.trace(h.inertia), case, 'inertia of a random polyhedron not that of its vertices')
    chk(abs(b.state.mass - m.density * h.volume) <= tol * 2 * m.density * h.volume, case, 'mass')
    # volume of the documented size, at least 4/7 of the ellipsoid
    chk(h.volume * 1.76 >= 4 / 3 * 3.14 * size[0] * size[1] * size[2] / 8, case, 'random polyhedron far smaller than requested')
    O.bodies.append(b)
    b.state.ori = rquat(rng)
    b.state.pos = rvec(rng, 5)
    W = world(b)
    for f, e in ((pu.MinCoord, W.min(0)), (pu.MaxCoord, W.max(0))):
        chk(np.linalg.norm(arr(f(b.shape, b.state)) - e) <= 1e-9 * (5 + h.s), case, '%s' % f.__name__)
    O.engines = [ForceResetter(), InsertionSortCollider([Bo1_Polyhedra_Aabb()]), InteractionLoop([], [], [])]
    O.step()
    lo, hi = arr(O.bodies[0].bound.min), arr(O.bodies[0].bound.max)
    chk((lo <= W.min(0) + 1e-9).all() and (hi >= W.max(0) - 1e-9).all(), case, 'bounding box does not contain the polyhedron')
    ctx.observed((case_kind(ctx), len(ref), round(math.log10(h.s))), 0)
    ctx.observed('polyhedra', 2)


def engines(law=None, newton=False, more=()):
    law = law or [Law2_PolyhedraGeom_PolyhedraPhys_Volumetric()]
    O.engines = [ForceResetter(), InsertionSortCollider([Bo1_Polyhedra_Aabb(), Bo1_Wall_Aabb(), Bo1_Facet_Aabb(), Bo1_Sphere_Aabb()], verletDist=0, allowBiggerThanPeriod=True),
                 InteractionLoop([Ig2_Polyhedra_Polyhedra_PolyhedraGeom(), Ig2_Wall_Polyhedra_PolyhedraGeom(), Ig2_Facet_Polyhedra_PolyhedraGeom(), Ig2_Sphere_Polyhedra_ScGeom()],
                                 [Ip2_PolyhedraMat_PolyhedraMat_PolyhedraPhys(), Ip2_FrictMat_PolyhedraMat_FrictPhys()], law + [Law2_ScGeom_FrictPhys_CundallStrack(sphericalBodies=False)])] + list(more) + ([NewtonIntegrator(damping=0)] if newton else [])


def mater(rng):
    return PolyhedraMat(density=1000, young=10 ** rng.uniform(5, 8), poisson=rng.uniform(.1, .5), frictionAngle=rng.choice([0, .3, .6]))


def two(rng, L, frac=None):
    """Two polyhedra placed so that they overlap by some depth (or not); returns the bodies and the relative placement."""
    _, Pa, _ = good(rng)
    _, Pb, _ = good(rng)
    A = place(rng, Pa, L, 0.)
    B = place(rng, Pb, L * rng.choice([.5, 1, 1, 1.6]), 0.)
    u = np.array([rng.gauss(0, 1) for _ in range(3)])
    u /= np.linalg.norm(u)
    A -= A.mean(0)
    B -= B.mean(0)
    reach = (A @ u).max() - (B @ u).min()
    d = reach * rng.uniform(.3, 1.02) * u
    return A, B + d


def balance(case, i, j, what, cellshift=None):
    """Forces on two bodies cancel, and so do the moments about any point."""
    f1, f2 = arr(O.forces.f(i, sync=True)), arr(O.forces.f(j))
    t1, t2 = arr(O.forces.t(i)), arr(O.forces.t(j))
    x1, x2 = arr(O.bodies[i].state.pos), arr(O.bodies[j].state.pos)
    if cellshift is not None: x2 = x2 + cellshift
    F = np.linalg.norm(f1)
    chk(np.linalg.norm(f1 + f2) <= 1e-12 * F, case, '%s: forces %s and %s do not balance' % (what, f1, f2))
    M = t1 + t2 + np.cross(x2 - x1, f2)
    chk(np.linalg.norm(M) <= 1e-10 * (np.linalg.norm(t1) + np.linalg.norm(t2) + np.linalg.norm(x2 - x1) * F) + 1e-300, case, '%s: moments do not balance, left %s' % (what, M))
    return f1, t1


def step_pair(A, B, m, dt=1e-5):
    fresh()
    O.dt = dt
    O.bodies.append([pu.polyhedra(m, v=[Vector3(*w) for w in A], color=(1, 0, 0)), pu.polyhedra(m, v=[Vector3(*w) for w in B], color=(1, 0, 0))])
    engines()
    O.step()
    return [i for i in O.interactions][:1]


def vtol(vol, L, depth):
    return 1e-6


@each(1)
def overlap(ctx, case):
    rng = case.rng
    L = 10 ** rng.uniform(-1, 1)
    A, B = two(rng, L)
    hA, hB = Hull(A), Hull(B)
    r = meet(hA.planes(), hB.planes())
    if r is None: return
    depth, vol, cen = r
    m = mater(rng)
    mn = min(hA.volume, hB.volume)
    if abs(depth) < 1e-3 * L or vol > .9 * mn:                  # touching or contained: not judged
        ctx.observed('not judged', 1)
        return
    I = step_pair(A, B, m)
    touch = depth > 0
    st = [O.bodies[i].state for i in (0, 1)]
    chk(bool(pu.do_Polyhedras_Intersect(O.bodies[0].shape, O.bodies[1].shape, st[0], st[1])) == touch, case, 'do_Polyhedras_Intersect says %s, depth of the intersection is %.3g (size %.3g)' % (not touch, depth, L))
    desc = 'depth %.3g, volume %.3g, size %.3g' % (depth, vol, L)
    if not touch:
        chk(not I, case, 'contact of separated polyhedra (%s)' % desc)
        chk(arr(O.forces.f(0, sync=True)).any() == False, case, 'force between separated polyhedra')
        ctx.observed((case_kind(ctx), 'separated'), 0)
        ctx.observed('pairs', 1)
        return
    chk(len(I) == 1, case, 'no contact of overlapping polyhedra (%s)' % desc)
    res = []
    for rnd in range(3):
        i = I[0]
        g = i.geom
        e = abs(g.penetrationVolume - vol) / vol
        t = 1e-10
        t *= max(1, 1e-3 * mn / vol)
        ctx.note_max('overlap error round %d' % rnd, e)
        chk(e <= t, case, 'overlap volume %.12g, expected %.12g (%s, evaluation %d)' % (g.penetrationVolume, vol, desc, rnd))
        chk(np.linalg.norm(arr(g.contactPoint) - cen) <= 10 * t * L, case, 'contact point %s, centroid of the overlap %s' % (g.contactPoint, cen))
        f, tq = balance(case, 0, 1, 'pair')
        k = m.young / 2
        fn = k * vol
        chk(abs(np.linalg.norm(f) - fn) <= (t * 2 + 1e-9) * fn, case, 'force %.9g, expected %.9g from the overlap (%s)' % (np.linalg.norm(f), fn, desc))
        n = arr(g.normal) * (1 if i.id1 == 0 else -1)
        chk(abs(np.linalg.norm(n) - 1) < 1e-9, case, 'normal not of unit length')
        # the force pushes each body away from the other, along the normal
        chk(np.linalg.norm(f + fn * n) <= (2 * t + 1e-9) * fn, case, 'force on the first body is not against the normal')
        res.append(np.linalg.norm(f))
        if rnd == 0: O.step()
        elif rnd == 1:
            # move both together: nothing may change
            R = rquat(rng)
            d = rvec(rng, L * 3)
            p = Vector3(O.bodies[0].state.pos)
            for b in O.bodies:
                b.state.pos = R * (b.state.pos - p) + p + d
                b.state.ori = R * b.state.ori
            cen = mat(R) @ (cen - arr(p)) + arr(p) + arr(d)
            O.step()
            I = [i for i in O.interactions]
            chk(len(I) == 1, case, 'contact lost when both bodies are moved together')
    # order swapped
    I = step_pair(B, A, m)
    chk(len(I) == 1, case, 'no contact in the other order (%s)' % desc)
    chk(abs(I[0].geom.penetrationVolume - vol) <= 1e-10 * max(1, 1e-3 * mn / vol) * vol, case, 'overlap %.9g in the other order, expected %.9g' % (I[0].geom.penetrationVolume, vol))
    # separated: the force ends
    b = O.bodies[1]
    b.state.pos = b.state.pos + (b.state.pos - O.bodies[0].state.pos).normalized() * L * rng.choice([6, 8])
    O.step()
    chk(not arr(O.forces.f(0, sync=True)).any() and not arr(O.forces.f(1)).any(), case, 'force remains after separation')
    ctx.observed((case_kind(ctx), 'overlap', len(A), len(B), int(math.log10(vol / mn) * 2)), 0)
    ctx.observed('pairs', 1)


@each(1)
def periodic(ctx, case):
    """A pair across the boundary of a periodic cell behaves as the same pair in free space."""
    rng = case.rng
    L = 10 ** rng.uniform(-.7, .7)
    kind = rng.choice(['pp', 'pp', 'fp', 'sp'])
    A, B = two(rng, L)
    hA, hB = Hull(A), Hull(B)
    m = mater(rng)
    fm = FrictMat(young=1e6, poisson=.3, frictionAngle=.3, density=1000)
    if kind == 'pp':
        r = meet(hA.planes(), hB.planes())
        if r is None or abs(r[0]) < 1e-2 * L or r[1] > .8 * min(hA.volume, hB.volume): return
    v1, v2, w1, w2 = rvec(rng, L), rvec(rng, L), rvec(rng, 3), rvec(rng, 3)
    dt = 1e-4
    fv = [rvec(rng, L) for _ in range(3)]
    cB = Vector3(*hB.centroid)
    rad = L * rng.uniform(.3, 1)
    u = rvec(rng, 1)
    sc = cB + u * (L * rng.uniform(.3, 1.5))

    def make(shift1, shift2):
        if kind == 'pp': b1 = pu.polyhedra(m, v=[Vector3(*w) for w in A], color=(1, 0, 0))
        elif kind == 'fp':
            c = (fv[0] + fv[1] + fv[2]) / 3
            b1 = utils.facet([cB + (x - c) + Vector3(.1, .1, .1) * L for x in fv], material=m, fixed=False, wire=True)
            b1.state.mass = 1
            b1.state.inertia = Vector3(1, 1, 1)
        else: b1 = utils.sphere(sc, rad, material=fm)
        b2 = pu.polyhedra(m, v=[Vector3(*w) for w in B], color=(1, 0, 0))
        b1.state.pos = b1.state.pos + shift1
        b2.state.pos = b2.state.pos + shift2
        O.bodies.append([b1, b2])
        b1.state.vel, b2.state.vel, b1.state.angVel, b2.state.angVel = v1, v2, w1, w2
        O.dt = dt
        engines()

    fresh()
    make(Vector3.Zero, Vector3.Zero)
    ref = []
    for _ in range(3):
        O.step()
        ref.append([arr(O.forces.f(0, sync=True)), arr(O.forces.t(0)), arr(O.forces.f(1)), arr(O.forces.t(1)), [(arr(i.geom.shearInc) * (1 if i.id1 == 0 else -1), arr(i.geom.normal) * (1 if i.id1 == 0 else -1), getattr(i.geom, 'penetrationVolume', None)) for i in O.interactions]])
        for b in O.bodies: b.state.pos = b.state.pos + b.state.vel * dt
    if kind != 'pp' and rng.random() < .5 and not ref[0][0].any(): return
    fresh()
    O.periodic = True
    S = L * 12
    O.cell.hSize = Matrix3(S, S * rng.uniform(-.3, .3), 0, 0, S, S * rng.uniform(-.3, .3), 0, 0, S)
    n1, n2 = [Vector3(rng.randint(-2, 2), rng.randint(-2, 2), rng.randint(-2, 2)) for _ in range(2)]
    h0 = Matrix3(O.cell.hSize)
    make(h0 * n1 + Vector3(0, 0, 0), h0 * n2)
    for k in range(3):
        O.step()
        now = [arr(O.forces.f(0, sync=True)), arr(O.forces.t(0)), arr(O.forces.f(1)), arr(O.forces.t(1)), [(arr(i.geom.shearInc) * (1 if i.id1 == 0 else -1), arr(i.geom.normal) * (1 if i.id1 == 0 else -1), getattr(i.geom, 'penetrationVolume', None)) for i in O.interactions]]
        F = np.linalg.norm(ref[k][0]) + 1e-300
        T = np.linalg.norm(ref[k][1]) + F * L
        sh = [arr(O.cell.hSize * Vector3(*i.cellDist)) * (1 if i.id1 == 0 else -1) for i in O.interactions]
        chk(len(ref[k][4]) == len(now[4]), case, '%s at step %d: %d contacts across the periodic boundary, %d in free space' % (kind, k, len(now[4]), len(ref[k][4])))
        if now[0].any(): balance(case, 0, 1, kind + ' across the boundary', sh[0])
        same = True
        for (si, n, v), (si2, n2, v2) in zip(ref[k][4], now[4]):
            if v is not None: chk(abs(v - v2) <= 1e-8 * v, case, '%s: overlap %.12g across the boundary, %.12g in free space' % (kind, v2, v))
            same = same and np.linalg.norm(n - n2) < 1e-7
            if np.linalg.norm(n - n2) < 1e-7: chk(np.linalg.norm(si - si2) <= 1e-6 * L * dt * 10 + 1e-15, case, '%s: shear increment %s across the boundary, %s in free space' % (kind, si2, si))
        if not same:                                            # direction of the normal is a fit, sensitive to rounding
            ctx.note('normals differing')
            break
        for a, b_, s, nm in zip(ref[k][:4], now[:4], (F, T, F, T), ('force on body 0', 'torque on body 0', 'force on body 1', 'torque on body 1')):
            chk(np.linalg.norm(a - b_) <= 1e-5 * s + 1e-12 * L, case, '%s at step %d: %s is %s across the periodic boundary, %s in free space' % (kind, k, nm, b_, a))
        for b in O.bodies: b.state.pos = b.state.pos + b.state.vel * dt
    ctx.observed((case_kind(ctx), kind, bool(ref[0][0].any())), 0)
    ctx.observed('pairs in contact' if ref[0][0].any() else 'pairs apart', 1)


@each(1)
def history(ctx, case):
    """Contacts do not influence each other: several pairs far apart in one scene move as each does alone; friction is bounded."""
    rng = case.rng
    L = 1.
    n = rng.randint(2, 4)
    m = PolyhedraMat(density=1000, young=1e6, poisson=.3, frictionAngle=.5)
    pairs = []
    while len(pairs) < n:
        A, B = two(rng, L)
        hA, hB = Hull(A), Hull(B)
        r = meet(hA.planes(), hB.planes())
        if r is None or r[0] < .01 or r[1] > .4 * min(hA.volume, hB.volume): continue
        pairs.append((A, B, [rvec(rng, .3) for _ in range(2)], [rvec(rng, .5) for _ in range(2)]))
    steps = 40
    dt = 1e-3

    def run(sel):
        fresh()
        O.dt = dt
        for k in sel:
            A, B, v, w = pairs[k]
            off = Vector3(k * 20, 0, 0)
            for P, vv, ww in ((A, v[0], w[0]), (B, v[1], w[1])):
                b = pu.polyhedra(m, v=[Vector3(*x) for x in P], color=(1, 0, 0))
                b.state.pos = b.state.pos + off
                O.bodies.append(b)
                b.state.vel, b.state.angVel = vv, ww
        engines()
        out = []
        for _ in range(steps):
            O.step()
            for k in range(len(sel)):
                f = arr(O.forces.f(2 * k, sync=True))
                out.append((sel[k], f, arr(O.forces.t(2 * k))))
                balance(case, 2 * k, 2 * k + 1, 'pair %d' % k)
            for i in O.interactions:
                fn, fs = arr(i.phys.normalForce), arr(i.phys.shearForce)
                chk(np.linalg.norm(fs) <= math.tan(.5) * np.linalg.norm(fn) * (1 + 1e-9) + 1e-12, case, 'shear force beyond the friction limit')
                chk(abs(fs.dot(arr(i.geom.normal))) <= 1e-9 * (np.linalg.norm(fs) + 1e-12) + 1e-9, case, 'shear force not tangential')
            for b in O.bodies: b.state.pos = b.state.pos + b.state.vel * dt
        return out
    all_ = run(list(range(n)))
    for k in range(n):
        one = run([k])
        mine = [x for x in all_ if x[0] == k]
        for q, (a, b_) in enumerate(zip(one, mine)):
            F = np.linalg.norm(a[1])
            chk(np.linalg.norm(a[1] - b_[1]) <= 1e-4 * F + 1e-3, case, 'contact %d at step %d: force %s next to other contacts, %s alone' % (k, q, b_[1], a[1]))
    ctx.observed((case_kind(ctx), n), 0)
    ctx.observed('steps with contacts', n * steps)


@each(1)
def walls(ctx, case):
    rng = case.rng
    L = 10 ** rng.uniform(-1, 1)
    m = mater(rng)
    _, P, _ = good(rng)
    W = place(rng, P, L, 0.)
    h = Hull(W)
    W = W - h.centroid + np.array([rng.uniform(-3, 3) for _ in range(3)]) * L
    h = Hull(W)
    fresh()
    O.dt = 1e-5
    if rng.random() < .55:
        ax = rng.randint(0, 2)
        lo, hi = W[:, ax].min(), W[:, ax].max()
        sense = rng.choice([-1, 0, 1])
        x = lo + (hi - lo) * rng.uniform(-.1, 1.1)
        sg = sense if sense else (1 if h.centroid[ax] >= x else -1)
        wp = Vector3(0, 0, 0)
        wp[ax] = x
        e = np.zeros(4)
        e[ax] = sg
        e[3] = -sg * x                                          # sg*(y - x) <= 0 : the part behind the wall
        try: r = meet(h.planes(), e[None, :])
        except Exception: r = None
        if r is None: return
        depth, vol, cen = r
        if abs(depth) < 1e-3 * L or vol > .9 * h.volume or abs(h.centroid[ax] - x) < 1e-3 * L: return
        O.bodies.append([utils.wall(wp, ax, sense=sense, material=m), pu.polyhedra(m, v=[Vector3(*w) for w in W], color=(1, 0, 0))])
        engines()
        for rnd in range(2):
            O.step()
            I = [i for i in O.interactions if i.isReal]
            f = arr(O.forces.f(1, sync=True))
            if depth < 0:
                chk(not f.any(), case, 'force from a wall that does not touch (depth %.3g, size %.3g)' % (depth, L))
                continue
            chk(len(I) == 1, case, 'no contact with the wall (axis %d, sense %d, depth %.3g, size %.3g)' % (ax, sense, depth, L))
            g = I[0].geom
            t = 1e-10 * max(1, 1e-3 * h.volume / vol)
            chk(abs(g.penetrationVolume - vol) <= t * vol, case, 'volume behind the wall %.12g, expected %.12g (axis %d, sense %d)' % (g.penetrationVolume, vol, ax, sense))
            exp = np.zeros(3)
            exp[ax] = sg * m.young / 2 * vol
            chk(np.linalg.norm(f - exp) <= (t * 2 + 1e-9) * abs(exp[ax]), case, 'force of the wall %s, expected %s (axis %d, sense %d)' % (f, exp, ax, sense))
            tq = np.cross(cen - arr(O.bodies[1].state.pos), exp)
            chk(np.linalg.norm(arr(O.forces.t(1)) - tq) <= (t * 20 + 1e-9) * abs(exp[ax]) * L, case, 'torque of the wall %s, expected %s' % (O.forces.t(1), tq))
        ctx.observed((case_kind(ctx), 'wall', ax, sense, depth > 0), 0)
    else:
        c = Vector3(*h.centroid)
        fv = [c + rvec(rng, 2 * L) for _ in range(3)]
        n = (fv[1] - fv[0]).cross(fv[2] - fv[0])
        A2 = n.norm()
        if A2 < .3 * L * L: return
        n = n / A2
        # shift the plane so that it cuts the polyhedron off-centre
        s = [float(np.dot(w, arr(n))) for w in W]
        want = min(s) + (max(s) - min(s)) * rng.choice([rng.uniform(.02, .4), rng.uniform(.6, .98), -.1, 1.1])
        fv = [p + n * (want - n.dot(p)) for p in fv]
        O.bodies.append([utils.facet(fv, material=m), pu.polyhedra(m, v=[Vector3(*w) for w in W], color=(1, 0, 0))])
        engines()
        ctr = n.dot(c) - want
        side = 1 if ctr > 0 else -1
        for _ in range(2):
            O.step()
            f, t = balance(case, 0, 1, 'facet')
            # the plate behind the facet (away from the centre)
            th = .05 * math.sqrt(A2)
            E = [np.append(arr(n) * side, -side * want), np.append(-arr(n) * side, side * want - th)]
            cc = (fv[0] + fv[1] + fv[2]) / 3
            for a in range(3):
                ed = fv[(a + 1) % 3] - fv[a]
                o = ed.cross(n)
                o.normalize()
                if o.dot(cc - fv[a]) > 0: o = -o
                E.append(np.append(arr(o), -o.dot(fv[a])))
            r = meet(h.planes(), np.array(E))
            if r is None or abs(r[0]) < 1e-3 * L: break
            if r[0] < 0: chk(not f.any(), case, 'force from a facet that does not touch')
            else:
                chk(f.any(), case, 'no force from a facet cut by the polyhedron (depth %.3g, size %.3g)' % (r[0], L))
                I = [i for i in O.interactions]
                chk(abs(I[0].geom.penetrationVolume - r[1]) <= 1e-5 * max(1, 1e-3 * h.volume / r[1]) * r[1], case, 'overlap with the facet plate %.9g, expected %.9g' % (I[0].geom.penetrationVolume, r[1]))
                chk(-f.dot(arr(c) - cen_of(r)) > 0, case, 'the facet pulls the polyhedron')
        ctx.observed((case_kind(ctx), 'facet', side, bool(f.any())), 0)
    ctx.observed('placements', 1)


def cen_of(r): return r[2]


def near_triangle(p, a, b, c):
    """Closest point of a triangle (regions of the barycentric coordinates)."""
    ab, ac, ap = b - a, c - a, p - a
    d1, d2 = ab.dot(ap), ac.dot(ap)
    if d1 <= 0 and d2 <= 0: return a, 'v'
    bp = p - b
    d3, d4 = ab.dot(bp), ac.dot(bp)
    if d3 >= 0 and d4 <= d3: return b, 'v'
    vc = d1 * d4 - d3 * d2
    if vc <= 0 and d1 >= 0 and d3 <= 0: return a + ab * (d1 / (d1 - d3)), 'e'
    cp = p - c
    d5, d6 = ab.dot(cp), ac.dot(cp)
    if d6 >= 0 and d5 <= d6: return c, 'v'
    vb = d5 * d2 - d1 * d6
    if vb <= 0 and d2 >= 0 and d6 <= 0: return a + ac * (d2 / (d2 - d6)), 'e'
    va = d3 * d6 - d5 * d4
    if va <= 0 and d4 - d3 >= 0 and d5 - d6 >= 0: return b + (c - b) * ((d4 - d3) / ((d4 - d3) + (d5 - d6))), 'e'
    s = 1 / (va + vb + vc)
    return a + ab * (vb * s) + ac * (vc * s), 'f'


@each(1)
def sphere_(ctx, case):
    rng = case.rng
    L = 10 ** rng.uniform(-2, 1.3)
    m = mater(rng)
    fm = FrictMat(young=1e6, poisson=.3, frictionAngle=.3, density=1000)
    _, P, _ = good(rng)
    W = place(rng, P, L, np.array([rng.uniform(-3, 3) for _ in range(3)]) * L)
    h = Hull(W)
    R = L * rng.choice([.1, .3, 1, 3])
    # centre near the surface
    if rng.random() < .5:
        t = h.h.simplices[rng.randint(0, len(h.h.simplices) - 1)]
        q = np.array([rng.random() for _ in range(3)])
        base = (W[t] * (q / q.sum())[:, None]).sum(0)
        out = h.eq[[i for i, x in enumerate(h.h.simplices) if (x == t).all()][0], :3]
    else:
        base = np.array(h.corners[rng.randint(0, len(h.corners) - 1)])
        out = base - h.centroid
        out = out / np.linalg.norm(out)
    tilt = np.array([rng.gauss(0, .3) for _ in range(3)])
    d = out + tilt
    d /= np.linalg.norm(d)
    C = base + d * R * rng.uniform(.3, 1.15)
    E = h.planes()
    if (E[:, :3] @ C + E[:, 3]).max() <= 1e-6 * L: return       # centre inside: documented as an approximation
    best = min(((near_triangle(C, *W[t])) for t in h.h.simplices), key=lambda x: np.linalg.norm(x[0] - C))
    cl = best[0]
    dist = np.linalg.norm(cl - C)
    if abs(dist - R) < 1e-6 * L: return
    fresh()
    O.dt = 1e-5
    first = rng.random() < .5
    bs = utils.sphere(C, R, material=fm)
    bp = pu.polyhedra(m, v=[Vector3(*w) for w in W], color=(1, 0, 0))
    O.bodies.append([bs, bp] if first else [bp, bs])
    i1, i2 = (0, 1) if first else (1, 0)
    engines()
    for _ in range(2):
        O.step()
        I = [i for i in O.interactions]
        chk(len(I) == (1 if dist < R else 0), case, 'sphere at distance %.6g with radius %.6g: %d contacts' % (dist, R, len(I)))
        if dist > R:
            chk(not arr(O.forces.f(0, sync=True)).any(), case, 'force without contact')
            break
        g = I[0].geom
        chk(abs(g.penetrationDepth - (R - dist)) <= 1e-7 * (R + L), case, 'penetration %.9g, expected %.9g (%s)' % (g.penetrationDepth, R - dist, best[1]))
        n = (cl - C) / dist
        sg = 1 if I[0].id1 == i1 else -1
        if dist > 1e-2 * R: chk(np.linalg.norm(arr(g.normal) * sg - n) <= 1e-5 * (1 + L / dist), case, 'normal %s, expected %s' % (g.normal, n))
        cp = C + n * (R + dist) / 2
        chk(np.linalg.norm(arr(g.contactPoint) - cp) <= 1e-5 * (R + L), case, 'contact point %s, expected %s' % (g.contactPoint, cp))
        f, t = balance(case, i1, i2, 'sphere')
        chk(f.dot(n) < 0, case, 'the polyhedron pulls the sphere')
    ctx.observed((case_kind(ctx), best[1], dist < R, first), 0)
    ctx.observed('placements', 1)


@each(1)
def split(ctx, case):
    rng = case.rng
    L = 10 ** rng.uniform(-1, 1)
    m = mater(rng)
    _, P, _ = good(rng)
    W = place(rng, P, L, np.array([rng.uniform(-3, 3) for _ in range(3)]) * L)
    fresh()
    b = pu.polyhedra(m, v=[Vector3(*w) for w in W], color=(1, 0, 0))
    O.bodies.append(b)
    b.state.vel, b.state.angVel = rvec(rng, 2), rvec(rng, 2)
    b.state.pos = b.state.pos + rvec(rng, L)
    b.state.ori = rquat(rng) * b.state.ori
    n = 1
    for rnd in range(rng.randint(1, 3)):
        i = rng.randint(0, n - 1)
        b = O.bodies[i]
        W = world(b)
        h = Hull(W)
        if h.slim or h.flat: break
        u = rvec(rng, 1)
        if u.norm() < .1: continue
        u = u / u.norm()
        pt = Vector3(*h.centroid)
        if rng.random() < .6: pt = pt + u * rng.uniform(-.2, .2) * h.s
        E = np.append(arr(u), -u.dot(pt))
        r1, r2 = meet(h.planes(), E[None, :]), meet(h.planes(), -E[None, :])
        if not r1 or not r2 or min(r1[0], r2[0]) < .02 * h.s: break
        mass, mom = b.state.mass, Vector3(b.state.vel) * b.state.mass
        v0, w0, p0 = Vector3(b.state.vel), Vector3(b.state.angVel), Vector3(b.state.pos)
        pu.Split(b, u, pt)
        chk(len(O.bodies) == n + 1, case, 'splitting left %d bodies' % len(O.bodies))
        a, c = O.bodies[i], O.bodies[n]
        n += 1
        gap = 1e-7 * h.s ** 2 * 8                               # slice taken out by the gap
        for x, r, sg, nm in ((a, r1, -1, 'first'), (c, r2, 1, 'second')):
            chk(abs(x.shape.GetVolume() - r[1]) <= 1e-5 * r[1] + gap, case, '%s part has volume %.9g, expected %.9g (size %.3g)' % (nm, x.shape.GetVolume(), r[1], h.s))
            chk(np.linalg.norm(arr(x.state.pos) - r[2]) <= 1e-4 * h.s, case, '%s part at %s, expected %s' % (nm, x.state.pos, r[2]))
            X = world(x)
            chk((sg * (X @ arr(u) - u.dot(pt))).min() >= -1e-6 * h.s, case, '%s part reaches across the cut' % nm)
            o = (h.planes()[:, :3] @ X.T + h.planes()[:, 3][:, None]).max()
            chk(o <= 1e-4 * h.s, case, '%s part reaches outside the original by %.3g of its size' % (nm, o / h.s))
            chk(abs(x.state.mass - m.density * x.shape.GetVolume()) <= 1e-9 * x.state.mass, case, 'mass of the %s part' % nm)
            chk((x.state.vel - v0 - w0.cross(x.state.pos - p0)).norm() <= 1e-9 * (1 + L), case, 'velocity of the %s part' % nm)
            T = np.array(arr(x.state.inertia)) / m.density
            chk(np.allclose(sorted(T), sorted(np.linalg.eigvalsh(Hull(X).inertia)), rtol=1e-4), case, 'inertia of the %s part' % nm)
        chk(abs(a.state.mass + c.state.mass - mass) <= (1e-5 * mass) + gap * m.density * 2, case, 'mass %.9g split into %.9g and %.9g' % (mass, a.state.mass, c.state.mass))
        chk((a.state.mass * a.state.vel + c.state.mass * c.state.vel - mom).norm() <= 1e-4 * (mom.norm() + mass * (1 + L)), case, 'momentum changes by splitting')
        ctx.observed('splits', 1)
        ctx.observed((case_kind(ctx), len(h.corners), rnd), 0)


@each(1)
def fill(ctx, case):
    rng = case.rng
    fresh()
    m = mater(rng)
    lo = rvec(rng, 5)
    hi = lo + Vector3(rng.uniform(2, 3), rng.uniform(2, 3), rng.uniform(2, 3))
    if rng.random() < .6: pu.fillBox(lo, hi, m, sizemin=[.5, .5, .5], sizemax=[1, 1, 1], ratio=rng.choice([[0, 0, 0], [1, 1, .7]]), seed=rng.randint(0, 10 ** 6))
    else: pu.fillBoxByBalls(lo, hi, m, sizemin=[.5, .5, .5], sizemax=[.9, .9, .9], ratio=[1, 1, 1], seed=rng.randint(0, 10 ** 6), numpoints=rng.choice([20, 40]))
    n = len(O.bodies)
    chk(n > 0, case, 'nothing generated')
    H = []
    for b in O.bodies:
        W = world(b)
        chk((W >= arr(lo) - 1e-9).all() and (W <= arr(hi) + 1e-9).all(), case, 'polyhedron outside the box')
        h = Hull(W)
        chk(abs(b.state.mass - m.density * h.volume) <= 1e-4 * b.state.mass, case, 'mass of a generated polyhedron')
        H.append((h, W.min(0), W.max(0)))
    k = 0
    for (a, la, ua), (b, lb, ub) in itertools.combinations(H, 2):
        if (la > ub).any() or (lb > ua).any(): continue
        r = meet(a.planes(), b.planes())
        chk(r is None or r[0] <= 1e-7, case, 'generated polyhedra overlap by %.3g' % (r[0] if r else 0))
        k += 1
    ctx.observed((case_kind(ctx), n), 0)
    ctx.observed('close pairs', k)
