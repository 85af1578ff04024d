"""Exporters, importers and plot data: what is written is parsed independently and what is read back compared."""
from common import *
import math, os, re
try:
    from yade import export, ymport, plot, polyhedra_utils
    from yade.utils import sphere, facet, box, wall
except ImportError:
    pass

RULE = ('a case is one random set of bodies (several shapes, masks, materials, erased slots, clumps, periodic cells) written by one exporter with random options; the file is parsed independently and, where an importer '
        'exists, read back and compared body by body, or one random history of recorded plot rows compared with a list of the rows; distinct = (exporter, format, options)')
ASSUMPTIONS = ['text formats keep the printed digits (six unless the format prints more)', 'meshes for the mesh importers are written by the monitor in the layout of the format',
               'binary VTK output is not parsed, the recorder is run in ASCII mode', 'exporter queries evaluate to numbers, vectors or matrices']


def plan(tier):
    k = 1 if tier == 'quick' else 12
    return [dict(func='text', name='text', args=dict(n=500 * k)), dict(func='clumps', name='clumps', args=dict(n=150 * k)), dict(func='polyhedra', name='polyhedra', args=dict(n=120 * k)),
            dict(func='exporter', name='vtk-exporter', args=dict(n=350 * k)), dict(func='recorder', name='vtk-recorder', args=dict(n=130 * k), timeout=600), dict(func='meshes', name='meshes', args=dict(n=500 * k)),
            dict(func='plotdata', name='plot', args=dict(n=700 * k)), dict(func='convert', name='text2vtk', args=dict(n=250 * k))]


G = 1.0e-5


def chk(ok, case, detail):
    if not ok: raise Violation(re.sub(r"[^a-zA-Z]+", "-", detail)[:40].strip("-"), detail)
    return True


def obs(ctx, n, key):
    ctx.observed(key, n)


def near(a, b, tol=G):
    return abs(a - b) <= tol * max(abs(a), abs(b)) + 1e-30


def gval(x):
    """the number as six printed digits keep it"""
    return float('%g' % x)


def close_all(a, b, tol=G, size=0.):
    return len(a) == len(b) and all(abs(x - y) <= tol * max(abs(x), abs(y), size) + 1e-30 for x, y in zip(a, b))


import tempfile, shutil
_scratch = None


def path(name):
    global _scratch
    if _scratch is None:
        import atexit
        _scratch = tempfile.mkdtemp(prefix='p18-')
        atexit.register(shutil.rmtree, _scratch, True)
    return os.path.join(_scratch, name)


def scale_of(rng):
    return 10 ** rng.uniform(-4, 3)


def scene(rng, shapes=('sphere',), periodic=False, clumps=False, n=None):
    """Random bodies, some of them erased again."""
    fresh()
    L = scale_of(rng)
    nm = rng.randint(1, 3)
    mats = [O.materials.append(FrictMat(density=rng.uniform(100, 5000), label='m%d' % i)) for i in range(nm)]
    if periodic:
        O.periodic = True
        O.cell.hSize = Matrix3(L * 2, 0, 0, 0, L * 2, 0, 0, 0, L * 2)
        if rng.random() < 0.5: O.cell.trsf = Matrix3(1, rng.uniform(-.3, .3), 0, 0, 1, rng.uniform(-.2, .2), 0, 0, 1)
        if rng.random() < 0.5: O.cell.hSize = Matrix3(L * 2, L * rng.uniform(-.5, .5), 0, 0, L * 2, 0, 0, L * rng.uniform(-.5, .5), L * 2.5)
    n = n or rng.randint(1, 25)
    for _ in range(n):
        s = rng.choice(shapes)
        p = rvec(rng, L) * rng.choice([1, 1, 1, 1e-3, 30])
        m = rng.choice([1, 1, 2, 3, 4, 5, 8, 13])
        mat = rng.choice(mats)
        if s == 'sphere': b = sphere(p, L * rng.uniform(0.02, 0.4 if not periodic else .25), mask=m, material=mat)
        elif s == 'facet':
            b = facet([p + rvec(rng, L), p + rvec(rng, L), p + rvec(rng, L)], mask=m, material=mat)
        elif s == 'box': b = box(p, (L * rng.uniform(.1, 1), L * rng.uniform(.1, 1), L * rng.uniform(.1, 1)), orientation=rquat(rng), mask=m, material=mat)
        elif s == 'wall': b = wall(p, rng.randint(0, 2), mask=m, material=mat)
        b.shape.color = Vector3(rng.random(), rng.random(), rng.random())
        i = O.bodies.append(b)
        st = O.bodies[i].state
        st.vel, st.angVel = rvec(rng, L), rvec(rng, 5)
        if s == 'sphere' and rng.random() < 0.3: O.bodies[i].state.blockedDOFs = rng.choice(['xyzXYZ', 'xyz', 'z'])
        if s == 'facet' and rng.random() < 0.5: st.ori = rquat(rng)
    if clumps and rng.random() < 0.6:
        L2 = L * .3
        for _ in range(rng.randint(1, 3)):
            p = rvec(rng, L)
            O.bodies.appendClumped([sphere(p + rvec(rng, L2), L2 * rng.uniform(.5, 1), material=mats[0], mask=rng.choice([1, 2, 6])) for _ in range(rng.randint(2, 4))])
    for i in list(ids()):
        if O.bodies[i] and rng.random() < 0.12 and not O.bodies[i].isClumpMember and not O.bodies[i].isClump: O.bodies.erase(i)
    return L


def bodies(kind, mask=None):
    return [O.bodies[i] for i in ids() if isinstance(O.bodies[i].shape, kind) and (mask is None or mask < 0 or O.bodies[i].mask & mask)]


def rows(f):
    return [l.split() for l in open(f) if l.strip() and not l.startswith('#')]


def flat(v):
    if isinstance(v, Matrix3): return [v[a, b] for a in range(3) for b in range(3)]
    if isinstance(v, Vector3): return [v[a] for a in range(3)]
    return [float(v)]


WHAT = [('b.state.vel.norm()', 1), ('b.state.vel', 3), ('b.state.angVel', 3), ('b.id', 1), ('b.shape.radius*2', 1), ('b.state.ori.toRotationMatrix()', 9), ('b.mask', 1), ('Matrix3(1,2,3,4,5,6,7,8,9)*b.id', 9), ('b.shape.color', 3)]


def text(ctx):
    @each(ctx.args['n'])
    def go(ctx, case):
        rng = case.rng
        scene(rng, ('sphere', 'sphere', 'sphere', 'facet', 'box', 'wall'), clumps=True)
        mask = rng.choice([-1, -1, 1, 2, 4, 6, 8, 16])
        want = bodies(Sphere, mask)
        fmt = rng.choice(['x_y_z_r', 'x_y_z_r_matId', 'id_x_y_z_r_matId', 'x_y_z_r_attrs', 'liggghts_in', 'text'])
        f = path('t.txt')
        comment = rng.choice(['', 'one line', 'first\n#second'])
        attrs = [rng.choice(WHAT) for _ in range(rng.randint(1, 4))] if fmt == 'x_y_z_r_attrs' else []
        if attrs: comment = rng.choice(['', 'first\n', 'first\n#', 'first\n#second\n']) + ' '.join('c%d' % i for i in range(sum(a[1] for a in attrs)))
        what = 'textExt(%s, mask=%d, comment=%r, attrs=%r)' % (fmt, mask, comment, [a[0] for a in attrs])
        n = export.text(f, mask=mask) if fmt == 'text' else export.textExt(f, format=fmt, comment=comment, mask=mask, attrs=[a[0] for a in attrs])
        chk(n == len(want), case, '%s reported %s spheres written, %d are selected' % (what, n, len(want)))
        if fmt == 'liggghts_in':
            L = open(f).read().split('\n')
            chk(('%d atoms' % len(want)) in L, case, what + ': number of atoms differs')
            chk(('%d atom types' % len(set(b.mask for b in want))) in L, case, what + ': number of atom types differs')
            ia, iv = L.index('Atoms'), L.index('Velocities')
            A, V = [l.split() for l in L[ia + 1:iv] if l], [l.split() for l in L[iv + 1:] if l]
            chk(len(A) == len(V) == len(want), case, what + ': number of lines differs')
            for k, (b, a, v) in enumerate(zip(want, A, V)):
                chk(close_all([float(x) for x in a], [k + 1, b.mask, b.shape.radius, b.material.density] + list(b.state.pos)) and close_all([float(x) for x in v], [k + 1] + list(b.state.vel) + list(b.state.angVel)), case,
                          '%s: line of body %d reads %r %r' % (what, b.id, a, v))
            if want:
                for c, ax in enumerate('xyz'):
                    l = [x for x in L if x.endswith('%slo %shi' % (ax, ax))][0].split()
                    lo, hi = min(b.state.pos[c] - b.shape.radius for b in want), max(b.state.pos[c] + b.shape.radius for b in want)
                    chk(near(float(l[0]), lo) and near(float(l[1]), hi), case, '%s: bounds along %s are %s %s, the spheres reach from %g to %g' % (what, ax, l[0], l[1], lo, hi))
            obs(ctx, len(want) + 1, (fmt, mask > 0)); return
        R = rows(f)
        chk(len(R) == len(want), case, '%s wrote %d lines for %d spheres' % (what, len(R), len(want)))
        for b, r in zip(want, R):
            exp = list(b.state.pos) + [b.shape.radius]
            if fmt.startswith('id_'): exp = [b.id] + exp
            if fmt.endswith('matId'): exp += [b.material.id]
            for a, _ in attrs: exp += flat(eval(a, dict(globals(), b=b)))
            chk(close_all([float(x) for x in r], exp), case, '%s: line of body %d reads %r, expected %r' % (what, b.id, r, exp))
        # and back
        sh, sc = rng.choice([Vector3(0, 0, 0), rvec(rng, 2)]), rng.choice([1., 1., rng.uniform(.01, 50)])
        kw = dict(mask=rng.choice([1, 6]), fixed=rng.choice([True, False]))
        if not fmt.endswith('matId'): kw['material'] = 'm0'
        got = []
        args = dict(attrs=got) if attrs else {}
        back = ymport.text(f, shift=sh, scale=sc, **kw) if fmt in ('x_y_z_r', 'text') and rng.random() < .5 else ymport.textExt(f, format=rng.choice(['x_y_z_r', fmt]) if fmt != 'text' else 'x_y_z_r', shift=sh, scale=sc, **dict(args, **kw))
        chk(len(back) == len(want), case, '%s: %d spheres read back for %d written' % (what, len(back), len(want)))
        for k, (b, c) in enumerate(zip(want, back)):
            p = [sh[i] + sc * b.state.pos[i] for i in range(3)]
            tol = G * (max(abs(x) for x in sh) + sc * max(abs(x) for x in b.state.pos))
            chk(all(abs(c.state.pos[i] - p[i]) <= tol for i in range(3)) and near(c.shape.radius, sc * b.shape.radius), case, '%s: body %d came back at %s radius %g, expected %s radius %g' % (what, b.id, tuple(c.state.pos), c.shape.radius, p, sc * b.shape.radius))
            chk(c.mask == kw['mask'] and (c.state.blockedDOFs == 'xyzXYZ') == kw['fixed'], case, what + ': keyword arguments not applied to body %d' % b.id)
            chk(c.material.id == (b.material.id if fmt.endswith('matId') else 0), case, '%s: body %d came back with material %d' % (what, b.id, c.material.id))
            chk(near(c.state.mass, c.material.density * 4 / 3. * math.pi * c.shape.radius ** 3), case, '%s: mass of body %d read back is not that of its material and size' % (what, b.id))
            if attrs: chk(close_all([float(x) for x in got[k]], sum([flat(eval(a, dict(globals(), b=b))) for a, _ in attrs], [])), case, '%s: attributes of body %d came back as %r' % (what, b.id, got[k]))
        obs(ctx, len(want) + 1, (fmt, mask > 0, sc != 1, bool(comment), tuple(sorted(set(a[1] for a in attrs)))))
    go(ctx)


def clumps(ctx):
    @each(ctx.args['n'])
    def go(ctx, case):
        rng = case.rng
        fresh()
        L = scale_of(rng)
        m0 = O.materials.append(FrictMat(density=1200, label='m0'))
        mask = rng.choice([-1, -1, -1, 2])
        for _ in range(rng.randint(1, 5)):
            if rng.random() < .4: O.bodies.append(sphere(rvec(rng, L), L * .1, mask=2))
            p = rvec(rng, L); mk = rng.choice([1, 2]) if mask < 0 else 2
            O.bodies.appendClumped([sphere(p + rvec(rng, L * .3), L * rng.uniform(.1, .3), material=m0, mask=mk) for _ in range(rng.randint(2, 5))])
        if rng.random() < .3: O.bodies.erase(next(i for i in ids() if O.bodies[i].isStandalone), True) if any(O.bodies[i].isStandalone for i in ids()) else None
        want = {}
        for i in ids():
            b = O.bodies[i]
            if b.isClumpMember and (mask < 0 or b.mask & mask): want.setdefault(b.clumpId, []).append((tuple(b.state.pos), b.shape.radius, b.mask))
        f = path('c.txt')
        nc, ns = export.textClumps(f, mask=mask, comment=rng.choice(['', 'x']))
        chk(nc == len(want) and ns == sum(len(v) for v in want.values()), case, 'textClumps reported %d clumps, %d spheres; the scene has %d and %d' % (nc, ns, len(want), sum(len(v) for v in want.values())))
        R = {}
        for r in rows(f): R.setdefault(int(r[4]), []).append([float(x) for x in r[:4]])
        chk(sorted(R) == sorted(want), case, 'textClumps wrote clumps %r of %r' % (sorted(R), sorted(want)))
        for c in want:
            chk(len(R[c]) == len(want[c]) and all(any(close_all(r, list(p) + [rad]) for r in R[c]) for p, rad, _ in want[c]), case, 'textClumps: members of clump %d written as %r' % (c, R[c]))
        order = list(R)
        sh, sc, q = rng.choice([Vector3(0, 0, 0), rvec(rng, 2)]), rng.choice([1., rng.uniform(.1, 10)]), rng.choice([Quaternion((0, 1, 0), 0.), rquat(rng)])
        fresh(); O.materials.append(FrictMat(density=1200, label='m0'))
        mk = rng.choice([1, 4])
        ret = ymport.textClumps(f, shift=sh, scale=sc, orientation=q, mask=mk, material='m0')
        chk(len(ret) == len(order), case, 'textClumps read %d clumps of %d' % (len(ret), len(order)))
        for (cid, mem), o in zip(ret, order):
            chk(O.bodies[cid].isClump and sorted(O.bodies[cid].shape.members.keys()) == sorted(mem) and O.bodies[cid].mask == mk, case, 'clump %d read back is not a clump of the members returned, with their mask' % cid)
            want2 = [(sh + sc * (q * Vector3(*r[:3])), sc * r[3]) for r in R[o]]
            got = [(O.bodies[m].state.pos, O.bodies[m].shape.radius) for m in mem]
            chk(len(got) == len(want2) and all(any((a - b).norm() <= 1e-9 * (a.norm() + b.norm()) + 1e-30 and near(x, y) for b, y in got) for a, x in want2), case, 'members of a clump came back elsewhere')
        obs(ctx, len(R), ('clumps', mask > 0, sc != 1, len(order) > 1))
    go(ctx)


def hull(rng, L, c):
    return [c + Vector3(L * rng.uniform(.2, 1) * math.cos(a) * math.sin(t), L * math.sin(a) * math.sin(t), L * rng.uniform(.6, 1) * math.cos(t)) for a, t in [(rng.uniform(0, 6.28), rng.uniform(0, 3.14)) for _ in range(rng.randint(5, 14))]]


def polyhedra(ctx):
    @each(ctx.args['n'])
    def go(ctx, case):
        rng = case.rng
        fresh()
        L = 10 ** rng.uniform(-2, 2)
        m = PolyhedraMat(density=2000); O.materials.append(m)
        for _ in range(rng.randint(1, 5)):
            b = polyhedra_utils.polyhedra(m, v=hull(rng, L, rvec(rng, 3 * L)), mask=rng.choice([1, 2, 3]))
            i = O.bodies.append(b)
            if rng.random() < .7: O.bodies[i].state.ori = rquat(rng)
            O.bodies[i].state.vel = rvec(rng)
            if rng.random() < .3: O.bodies.append(sphere(rvec(rng, L), L, material=FrictMat()))
        if rng.random() < .3: O.bodies.erase(0)
        mask = rng.choice([-1, -1, 1, 2])
        attrs = rng.choice([[], [], ['b.state.vel', 'b.id'], ['b.state.ori.toRotationMatrix()']])
        want = bodies(Polyhedra, mask)
        f = path('p.txt')
        n = export.textPolyhedra(f, mask=mask, comment=rng.choice(['', 'note']), attrs=attrs)
        chk(n == len(want), case, 'textPolyhedra reported %d, %d are selected' % (n, len(want)))
        R = rows(f); k = 0
        for b in want:
            h = R[k]; nv, nf = int(h[1]), int(h[2])
            vs = [b.state.pos + b.state.ori * v for v in b.shape.v]
            chk(int(h[0]) == b.id and nv == len(vs), case, 'textPolyhedra: head line %r of body %d with %d vertices' % (h, b.id, len(vs)))
            chk(close_all([float(x) for x in h[3:]], sum([flat(eval(a, dict(globals(), b=b))) for a in attrs], [])), case, 'textPolyhedra: attributes %r of body %d' % (h[3:], b.id))
            V = [[float(x) for x in r] for r in R[k + 1:k + 1 + nv]]
            chk(all(close_all(a, list(v), 1e-7, v.norm()) for a, v in zip(V, vs)), case, 'textPolyhedra: vertices of body %d differ' % b.id)
            F = [[int(x) for x in r] for r in R[k + 1 + nv:k + 1 + nv + nf]]
            chk(all(0 <= x < nv for s in F for x in s) and nv - sum(len(s) for s in F) // 2 + nf == 2, case, 'textPolyhedra: faces of body %d are not those of a closed polyhedron: %r' % (b.id, F))
            k += 1 + nv + nf
        chk(k == len(R), case, 'textPolyhedra wrote %d lines, expected %d' % (len(R), k))
        old = [(b.shape.GetVolume(), Vector3(b.state.pos), [b.state.pos + b.state.ori * v for v in b.shape.v]) for b in want]
        sh, sc, q = rng.choice([Vector3(0, 0, 0), rvec(rng, 2)]), rng.choice([1., rng.uniform(.3, 3)]), rng.choice([Quaternion((0, 1, 0), 0.), rquat(rng)])
        back = ymport.textPolyhedra(f, material=m, shift=sh, scale=sc, orientation=q, mask=5)
        chk(len(back) == len(want), case, '%d polyhedra read back of %d' % (len(back), len(want)))
        for (vol, pos, vs), b in zip(old, back):
            got = [b.state.pos + b.state.ori * v for v in b.shape.v]
            exp = [q * (sc * v) + sh for v in vs]
            t = 1e-6 * (sc * (L + pos.norm()) + sh.norm())
            chk(len(got) == len(exp) and all(any((a - c).norm() < t for c in got) for a in exp), case, 'vertices of a polyhedron came back elsewhere: %d for %d, off by %g of %g' % (len(got), len(exp), max(min((a - c).norm() for c in got) for a in exp), L * sc))
            chk(near(b.shape.GetVolume(), vol * sc ** 3, 1e-4) and (b.state.pos - (q * (sc * pos) + sh)).norm() < 100 * t and b.mask == 5, case, 'volume or centre of a polyhedron read back differs')
        # polygons of the VTK export
        base = path('poly')
        useRef = rng.random() < .4
        ex = export.VTKExporter(base)
        if rng.random() < .5:
            for b in want: b.state.refPos, b.state.refOri = b.state.pos + rvec(rng, L), b.state.ori
        if rng.random() < .5: sel = 'all'; want = bodies(Polyhedra)
        else: sel = [b.id for b in want]
        what = rng.choice([[], [('v', 'b.state.vel')], [('i', 'b.id'), ('m', 'b.state.ori.toRotationMatrix()')]])
        if want:
            ex.exportPolyhedra(ids=sel, what=what, useRef=useRef, numLabel=rng.choice([0, None]))
            d = vtk(base + '-polyhedra-00000000.vtk')
            pts = sum([[(b.state.refPos + b.state.refOri * v) if useRef else (b.state.pos + b.state.ori * v) for v in b.shape.v] for b in want], [])
            chk(len(pts) == len(d['points']) and all(close_all(a, list(p), G, p.norm()) for a, p in zip(d['points'], pts)), case, 'exportPolyhedra: vertices differ')
            j, c = 0, 0
            for b in want:
                nv = len(b.shape.v); nf = 2 * nv - 4
                P = d['cells'][c:c + nf]
                chk(len(P) == nf and all(len(t) == 3 and all(j <= x < j + nv for x in t) for t in P) and len(set(frozenset(t) for t in P)) == nf, case, 'exportPolyhedra: the %d triangles of body %d with %d vertices are %r' % (nf, b.id, nv, P))
                for name, cmd in what:
                    chk(all(close_all(x, flat(eval(cmd, dict(globals(), b=b)))) for x in d['cell'][name][c:c + nf]), case, 'exportPolyhedra: %s of body %d differs' % (name, b.id))
                j += nv; c += nf
            chk(c == len(d['cells']), case, 'exportPolyhedra wrote %d triangles, expected %d' % (len(d['cells']), c))
            if useRef:
                D = sum([[(b.state.pos + b.state.ori * v) - (b.state.refPos + b.state.refOri * v) for v in b.shape.v] for b in want], [])
                chk(all(close_all(a, list(p), G, L) for a, p in zip(d['point']['displacement'], D)), case, 'exportPolyhedra: displacements differ')
        obs(ctx, len(want), ('polyhedra', mask > 0, bool(attrs), useRef, sc != 1))
    go(ctx)


def vtk(f):
    """Independent reader of legacy ASCII VTK; every array must have the announced length."""
    L = open(f).read().split('\n')
    assert L[0].startswith('# vtk DataFile Version 3.0') and L[2].strip() == 'ASCII', 'not a VTK file'
    T = ' '.join(L[3:]).split()
    i = 0
    d = dict(point={}, cell={}, cells=[], types=[])
    sect, n = None, 0
    def num(k):
        nonlocal i
        r = [float(x) for x in T[i:i + k]]
        if len(r) != k: raise ValueError('file ends inside an array')
        i += k
        return r
    while i < len(T):
        w = T[i]; i += 1
        if w == 'DATASET': d['set'] = T[i]; i += 1
        elif w == 'POINTS':
            k = int(T[i]); i += 2
            d['points'] = [num(3) for _ in range(k)]
        elif w in ('POLYGONS', 'LINES', 'CELLS'):
            k, tot = int(T[i]), int(T[i + 1]); i += 2; s = i
            for _ in range(k): m = int(T[i]); i += 1; d['cells'].append([int(x) for x in num(m)])
            assert i - s == tot, 'size of the connectivity differs from the head'
        elif w == 'CELL_TYPES':
            k = int(T[i]); i += 1; d['types'] = num(k)
        elif w in ('POINT_DATA', 'CELL_DATA'):
            sect, n = ('point' if w[0] == 'P' else 'cell'), int(T[i]); i += 1
            assert n == len(d['points' if sect == 'point' else 'cells']), 'data section of the wrong length'
        elif w == 'SCALARS':
            name = T[i]; assert T[i + 3:i + 5] == ['LOOKUP_TABLE', 'default']; i += 5
            d[sect][name] = [num(1) for _ in range(n)]
        elif w in ('VECTORS', 'TENSORS'):
            name = T[i]; i += 2
            d[sect][name] = [num(3 if w[0] == 'V' else 9) for _ in range(n)]
        else: raise ValueError('unexpected word %r' % w)
    return d


def readvtk(ctx, case, f, what):
    if not chk(os.path.exists(f), case, '%s did not write %s' % (what, os.path.basename(f))): return None
    try: return vtk(f)
    except Exception as e:
        chk(False, case, '%s wrote a file that cannot be parsed: %s' % (what, e)); return None


def exporter(ctx):
    IW = [('kn', 'i.phys.kn'), ('F', 'i.phys.normalForce'), ('n', 'i.geom.normal'), ('id1', 'i.id1'), ('T', 'Matrix3(1,2,3,4,5,6,7,8,9)*i.id2'), ('pd', 'i.geom.penetrationDepth')]
    BW = [('vel', 'b.state.vel'), ('bid', 'b.id'), ('rot', 'b.state.ori.toRotationMatrix()'), ('m', 'b.mask'), ('angV', 'b.state.angVel')]
    @each(ctx.args['n'])
    def go(ctx, case):
        rng = case.rng
        kind = rng.choice(['spheres', 'facets', 'mesh', 'intr', 'cps', 'cell'])
        per = kind in ('spheres', 'intr', 'cell') and rng.random() < .5 or kind == 'cell'
        scene(rng, {'spheres': ('sphere', 'sphere', 'facet', 'box'), 'facets': ('facet', 'facet', 'sphere'), 'mesh': ('facet', 'facet', 'sphere')}.get(kind, ('sphere',)), periodic=per, n=rng.randint(2, 30))
        base = path('v')
        for f in os.listdir(os.path.dirname(base)): os.remove(os.path.join(os.path.dirname(base), f))
        start, num = rng.choice([0, 3]), rng.choice([None, None, 0, 7])
        ex = export.VTKExporter(base, start)
        lab = start if num is None else num
        what = [rng.choice(BW) for _ in range(rng.randint(0, 3))]
        what = [w for k, w in enumerate(what) if w[0] not in [x[0] for x in what[:k]]]
        desc = '%s export (what=%r)' % (kind, [w[0] for w in what])
        def compare(tab, name, cmd, b=None, i=None, row=None):
            exp = flat(eval(cmd, dict(globals(), b=b, i=i)))
            chk(close_all(tab[name][row], exp), case, '%s: %s in row %d reads %r, expected %r' % (desc, name, row, tab[name][row], exp))
        if kind == 'spheres':
            useRef = rng.random() < .3
            al = bodies(Sphere)
            if not al: obs(ctx, 1, ('nothing',)); return
            for b in al: b.state.refPos = b.state.pos + rvec(rng)
            sel = 'all' if rng.random() < .5 else [b.id for b in rng.sample(al, rng.randint(1, len(al)))] + ([rng.choice(ids())] if rng.random() < .3 else [])
            want = al if sel == 'all' else [O.bodies[k] for k in sel if isinstance(O.bodies[k].shape, Sphere)]
            ex.exportSpheres(ids=sel, what=what, useRef=useRef, numLabel=num, comment='c')
            d = readvtk(ctx, case, base + '-spheres-%08d.vtk' % lab, desc)
            if d is None: return
            chk(len(d['points']) == len(want), case, '%s wrote %d points for %d spheres' % (desc, len(d['points']), len(want)))
            for k, b in enumerate(want):
                p = b.state.refPos if useRef else O.cell.wrap(b.state.pos) if O.periodic else b.state.pos
                chk(close_all(d['points'][k], list(p), G, p.norm()) and near(d['point']['radius'][k][0], b.shape.radius), case, '%s: sphere %d written at %r' % (desc, b.id, d['points'][k]))
                for nm, cmd in what: compare(d['point'], nm, cmd, b=b, row=k)
            nxt = base + '-spheres-%08d.vtk' % (start + 1)
            ex.exportSpheres(ids=sel)
            chk(os.path.exists(nxt), case, 'the second sphere export was not numbered %d' % (start + 1))
        elif kind in ('facets', 'mesh'):
            al = bodies(Facet)
            if not al: obs(ctx, 1, ('nothing',)); return
            sel = 'all' if rng.random() < .5 else [b.id for b in sorted(rng.sample(al, rng.randint(1, len(al))), key=lambda b: b.id)]
            want = al if sel == 'all' else [O.bodies[k] for k in sel]
            if kind == 'facets': ex.exportFacets(ids=sel, what=what, numLabel=num)
            else:
                tab = [(3 * k, 3 * k + 1, 3 * k + 2) for k in range(len(want))]
                perm = list(range(3 * len(want))); rng.shuffle(perm)
                tab = [tuple(perm[x] for x in t) for t in tab]
                ex.exportFacetsAsMesh(ids=sel, connectivityTable=tab, what=what, numLabel=num)
            d = readvtk(ctx, case, base + '-facets-%08d.vtk' % lab, desc)
            if d is None: return
            chk(len(d['cells']) == len(want), case, '%s wrote %d triangles for %d facets' % (desc, len(d['cells']), len(want)))
            for k, b in enumerate(want):
                vs = [b.state.pos + b.state.ori * v for v in b.shape.vertices]
                chk(len(d['cells'][k]) == 3 and all(close_all(d['points'][c], list(v), G, v.norm()) for c, v in zip(d['cells'][k], vs)), case, '%s: vertices of facet %d differ' % (desc, b.id))
                for nm, cmd in what: compare(d['cell'], nm, cmd, b=b, row=k)
        elif kind == 'cell':
            ex.exportPeriodicCell(numLabel=num)
            d = readvtk(ctx, case, base + '-periCell-%08d.vtk' % lab, desc)
            if d is None: return
            h = O.cell.hSize
            exp = [h * Vector3(a, b, c) for a in (0, 1) for b in (0, 1) for c in (0, 1)]
            chk(len(d['points']) == 8 and all(any(close_all(p, list(e), G, e.norm() + 1e-3 * h.maxAbsCoeff()) for p in d['points']) for e in exp), case, 'corners of the periodic cell differ')
            P = [Vector3(*p) for p in d['points']]
            C = d['cells'][0]
            edges = [(0, 1), (1, 2), (2, 3), (3, 0), (4, 5), (5, 6), (6, 7), (7, 4), (0, 4), (1, 5), (2, 6), (3, 7)]
            chk(d['types'] == [12] and sorted(C) == list(range(8)) and all(any((abs_ := (P[C[a]] - P[C[b]])) is not None and min((abs_ - h.col(k)).norm(), (abs_ + h.col(k)).norm()) < 1e-4 * h.maxAbsCoeff() for k in range(3)) for a, b in edges), case, 'the cell is not written as a hexahedron with the edges of the cell')
        else:
            O.engines = frict_engines(newton=NewtonIntegrator())
            O.dt = 0.
            O.step()
            I = [(i.id1, i.id2) for i in O.interactions]
            if not I: obs(ctx, 1, ('nothing',)); return
            ins = [rng.choice(IW) for _ in range(rng.randint(0, 3))]
            ins = [w for k, w in enumerate(ins) if w[0] not in [x[0] for x in ins[:k]]]
            sel = 'all' if rng.random() < .5 else rng.sample(I, rng.randint(1, len(I)))
            want = I if sel == 'all' else sel
            if kind == 'intr':
                vw = list(what)
                if rng.random() < .5: vw.append(rng.choice([('pair', 'b1.id', 'b2.id'), ('pair', 'b1.state.vel', 'b2.state.vel'), ('pair', 'b1.state.ori.toRotationMatrix()', 'b2.state.ori.toRotationMatrix()*2')]))
                useRef = rng.random() < .3
                for b in O.bodies: b.state.refPos = b.state.pos + rvec(rng)
                ex.exportInteractions(ids=sel, what=ins, verticesWhat=vw, useRef=useRef, numLabel=num)
                desc = 'interaction export (what=%r, verticesWhat=%r)' % ([w[0] for w in ins], vw)
                d = readvtk(ctx, case, base + '-intrs-%08d.vtk' % lab, desc)
                if d is None: return
                chk(len(d['cells']) == len(want), case, '%s wrote %d lines for %d interactions' % (desc, len(d['cells']), len(want)))
                for k, (a, c) in enumerate(want):
                    i = O.interactions[a, c]; bb = (O.bodies[a], O.bodies[c])
                    e = [(b.state.refPos if useRef else b.state.pos) for b in bb]
                    if O.periodic: e[1] = e[1] + O.cell.hSize * Vector3(*i.cellDist)
                    chk(all(close_all(d['points'][d['cells'][k][j]], list(e[j]), G, e[j].norm() + O.bodies[a].shape.radius) for j in (0, 1)), case, '%s: ends of the line of %d-%d differ' % (desc, a, c))
                    for nm, cmd in ins: compare(d['cell'], nm, cmd, i=i, row=k)
                    for w in vw:
                        for j in (0, 1):
                            cmd = w[1] if len(w) == 2 else w[1 + j]
                            exp = flat(eval(cmd, dict(globals(), b=bb[j], b1=bb[0], b2=bb[1], i=i)))
                            chk(close_all(d['point'][w[0]][d['cells'][k][j]], exp), case, '%s: %s at end %d of %d-%d reads %r, expected %r' % (desc, w[0], j, a, c, d['point'][w[0]][d['cells'][k][j]], exp))
            else:
                ref = {}
                if rng.random() < .3:
                    ref = {O.interactions[a, c]: rvec(rng) for a, c in want}
                    refs = {(i.id1, i.id2): v for i, v in ref.items()}
                    ex.exportContactPoints(useRef=ref, what=ins, numLabel=num)
                else: ex.exportContactPoints(ids=sel, what=ins, numLabel=num)
                d = readvtk(ctx, case, base + '-cps-%08d.vtk' % lab, desc)
                if d is None: return
                chk(len(d['points']) == len(want), case, 'contact points: %d written of %d' % (len(d['points']), len(want)))
                order = list(refs) if ref else want
                for k, (a, c) in enumerate(order):
                    i = O.interactions[a, c]
                    p = refs[(a, c)] if ref else i.geom.contactPoint
                    chk(close_all(d['points'][k], list(p), G, p.norm()), case, 'contact point of %d-%d differs' % (a, c))
                    for nm, cmd in ins: compare(d['point'], nm, cmd, i=i, row=k)
        obs(ctx, 1 + len(d['points']), (kind, per, num, start, len(what)))
    go(ctx)


def vtu(f):
    """Independent reader of an ASCII vtu file."""
    import xml.etree.ElementTree as ET
    r = ET.parse(f).getroot()
    poly = r.find('PolyData') is not None
    p = r.find('PolyData/Piece' if poly else 'UnstructuredGrid/Piece')
    def arr(e):
        v = [float(x) for x in (e.text or '').split()]
        c = int(e.get('NumberOfComponents') or 1)
        return [tuple(v[i:i + c]) for i in range(0, len(v), c)]
    d = dict(np=int(p.get('NumberOfPoints')), nc=int(p.get('NumberOfLines' if poly else 'NumberOfCells')))
    d['points'] = arr(p.find('Points/DataArray'))
    cells = {e.get('Name'): [int(x[0]) for x in arr(e)] for e in p.findall('Lines/DataArray' if poly else 'Cells/DataArray') if e.get('Name') in ('connectivity', 'offsets', 'types')}
    o = [0] + cells['offsets']
    d['cells'] = [cells['connectivity'][a:b] for a, b in zip(o, o[1:])]
    d['point'] = {e.get('Name'): arr(e) for e in p.findall('PointData/DataArray')}
    d['cell'] = {e.get('Name'): arr(e) for e in p.findall('CellData/DataArray')}
    return d


F32 = 3e-6


def recorder(ctx):
    @each(ctx.args['n'])
    def go(ctx, case):
        rng = case.rng
        per = rng.random() < .5
        L = scene(rng, ('sphere', 'sphere', 'sphere', 'sphere', 'facet', 'box') if not per else ('sphere',), periodic=per, clumps=not per, n=rng.randint(5, 60))
        O.engines = frict_engines(newton=NewtonIntegrator())
        O.dt = 0.
        O.step()
        mask = rng.choice([0, 0, 1, 2, 4])
        skipN, skipF = rng.random() < .3, rng.random() < .5
        base = path('r-')
        for f in os.listdir(os.path.dirname(base)): os.remove(os.path.join(os.path.dirname(base), f))
        recs = rng.choice([['all'], ['spheres', 'facets', 'boxes', 'intr', 'id', 'colors', 'mask', 'mass', 'velocity', 'clumpId', 'materialId', 'force', 'coordNumber'], ['spheres', 'id', 'intr'], ['spheres', 'intr', 'id', 'velocity']])
        if per: recs = recs + ['pericell']
        rec = VTKRecorder(fileName=base, recorders=recs, ascii=True, mask=mask, skipNondynamic=skipN, skipFacetIntr=skipF)
        rec()
        full = len(recs) > 5 or recs[0] == 'all'
        desc = 'VTKRecorder(%s, mask=%d%s)' % (','.join(recs[:3]), mask, ', periodic' if per else '')
        fn = lambda k: base + k + '.%d.%s' % (O.iter, 'vtp' if k == 'intrs' else 'vtu')
        def load(k):
            if not chk(os.path.exists(fn(k)), case, '%s wrote no file of %s' % (desc, k)): return None
            d = vtu(fn(k))
            chk(len(d['points']) == d['np'] and len(d['cells']) == d['nc'] and all(len(v) == d['np'] for v in d['point'].values()), case, '%s: %s file has point arrays of other lengths than the number of points' % (desc, k))
            chk(all(len(v) == d['nc'] for v in d['cell'].values()), case, '%s: %s file has cell arrays of lengths %r for %d cells' % (desc, k, {n: len(v) for n, v in d['cell'].items()}, d['nc']))
            return d
        sel = [b for b in O.bodies if mask == 0 or b.mask & mask]
        S = [b for b in sel if isinstance(b.shape, Sphere) and not (skipN and b.state.blockedDOFs == 'xyzXYZ')]
        d = load('spheres')
        if d is None: return
        chk(d['np'] == len(S), case, '%s wrote %d spheres, %d are selected' % (desc, d['np'], len(S)))
        O.forces.f(0, sync=True)
        for k, b in enumerate(S):
            p = O.cell.wrap(b.state.pos) if per else b.state.pos
            row = {n: v[k] for n, v in d['point'].items()}
            exp = dict(radii=[b.shape.radius], id=[b.id])
            if full: exp.update(mask=[b.mask], mass=[b.state.mass], clumpId=[b.clumpId], color=list(b.shape.color), materialId=[b.material.id], forceVec=list(O.forces.f(b.id)), torqueVec=list(O.forces.t(b.id)),
                                forceLen=[O.forces.f(b.id).norm()], torqueLen=[O.forces.t(b.id).norm()])
            if full or 'velocity' in recs: exp.update(linVelVec=list(b.state.vel), linVelLen=[b.state.vel.norm()], angVelVec=list(b.state.angVel), angVelLen=[b.state.angVel.norm()])
            chk(close_all(d['points'][k], list(p), F32, p.norm() + L), case, '%s: sphere %d written at %r, is at %s' % (desc, b.id, d['points'][k], tuple(p)))
            for n, v in exp.items():
                chk(n in row and close_all(row[n], v, F32), case, '%s: %s of sphere %d reads %r, is %r' % (desc, n, b.id, row.get(n), v))
            if full and 'coordNumber' in d['cell']: chk(d['cell']['coordNumber'][k][0] == len(b.intrs()), case, '%s: coordNumber of sphere %d' % (desc, b.id))
        if full and not per:
            Fc = [b for b in sel if isinstance(b.shape, Facet)]
            d = load('facets')
            if d is not None:
                chk(d['nc'] == len(Fc), case, '%s wrote %d facets, %d are selected' % (desc, d['nc'], len(Fc)))
                for k, b in enumerate(Fc):
                    vs = [b.state.pos + b.state.ori * v for v in b.shape.vertices]
                    chk(all(close_all(d['points'][c], list(v), F32, v.norm() + L) for c, v in zip(d['cells'][k], vs)), case, '%s: vertices of facet %d differ' % (desc, b.id))
                    chk(close_all(d['cell']['color'][k], list(b.shape.color), F32) and d['cell']['mask'][k][0] == b.mask and d['cell']['materialId'][k][0] == b.material.id and close_all(d['cell']['forceVec'][k], list(O.forces.f(b.id)), F32), case, '%s: data of facet %d differ' % (desc, b.id))
            Bx = [b for b in sel if isinstance(b.shape, Box)]
            d = load('boxes')
            if d is not None:
                chk(d['nc'] == 6 * len(Bx), case, '%s wrote %d quads for %d boxes' % (desc, d['nc'], len(Bx)))
                for k, b in enumerate(Bx):
                    cs = set()
                    for q in d['cells'][6 * k:6 * k + 6]:
                        loc = [b.state.ori.conjugate() * (Vector3(*d['points'][c]) - b.state.pos) for c in q]
                        e = b.shape.extents
                        t = F32 * (L + b.state.pos.norm() + e.norm()) * 3
                        chk(len(q) == 4 and all(abs(abs(v[a]) - e[a]) < t for v in loc for a in range(3)), case, '%s: corners of box %d differ' % (desc, b.id))
                        sg = [tuple(v[a] > 0 for a in range(3)) for v in loc]
                        same = [a for a in range(3) if len(set(s[a] for s in sg)) == 1]
                        cs.add((same[0], sg[0][same[0]]) if len(same) == 1 and len(set(sg)) == 4 else None)
                    chk(len(cs) == 6 and None not in cs, case, '%s: box %d is not written as its six faces' % (desc, b.id))
                    chk(all(close_all(d['cell']['color'][6 * k + j], list(b.shape.color), F32) for j in range(6)), case, '%s: colour of box %d' % (desc, b.id))
        d = load('intrs')
        if d is not None:
            I = [i for i in O.interactions if not skipF or all(isinstance(O.bodies[x].shape, Sphere) for x in (i.id1, i.id2))]
            pos = {b.id: (O.cell.wrap(b.state.pos) if per else b.state.pos) for b in O.bodies}
            lines = []
            for i in I:
                br = O.bodies[i.id2].state.pos - O.bodies[i.id1].state.pos + (O.cell.hSize * Vector3(*i.cellDist) if per else Vector3(0, 0, 0))
                a, c = pos[i.id1], pos[i.id2]
                v = i.phys.normalForce.dot(i.geom.normal)
                if not per or (c - a - br).norm() < 1e-6 * L: lines.append((a, a + br, v, i))
                else: lines += [(a, a + br, v, i), (c - br, c, v, i)]
            chk(d['nc'] == len(lines), case, '%s wrote %d lines, the %d contacts make %d' % (desc, d['nc'], len(I), len(lines)))
            t = lambda *v: F32 * (3 * L + sum(x.norm() for x in v))
            left = list(range(d['nc']))
            for a, c, v, i in lines:
                hit = None
                for k in left:
                    P, Q = [Vector3(*d['points'][x]) for x in d['cells'][k]]
                    if (P - a).norm() < t(a) and (Q - c).norm() < t(c): hit = k; break
                if not chk(hit is not None, case, '%s: no line of contact %d-%d from %s to %s' % (desc, i.id1, i.id2, tuple(a), tuple(c))): break
                left.remove(hit)
                chk(abs(d['cell']['forceN'][hit][0] - v) <= F32 * abs(v) + 1e-12, case, '%s: forceN on the line of contact %d-%d is %g, it is %g' % (desc, i.id1, i.id2, d['cell']['forceN'][hit][0], v))
            ctx.note('lines', len(lines))
        if per:
            d = load('pericell') if os.path.exists(fn('pericell')) else None
            if d is not None:
                h = O.cell.hSize
                exp = [h * Vector3(a, b, c) for a in (0, 1) for b in (0, 1) for c in (0, 1)]
                chk(d['np'] == 8 and all(any((Vector3(*p) - e).norm() < 1e-4 * h.maxAbsCoeff() for p in d['points']) for e in exp), case, '%s: corners of the cell differ' % desc)
        obs(ctx, len(S) + 1, (recs[0], len(recs), mask > 0, per, skipN, skipF))
    go(ctx)


def meshes(ctx):
    def num(rng, x): return rng.choice(['%.10g', '%.9f', '%.9e']) % x
    @each(ctx.args['n'])
    def go(ctx, case):
        rng = case.rng
        fresh(); O.materials.append(FrictMat(label='m0'))
        kind = rng.choice(['gmsh', 'unv', 'iges', 'ele', 'stl', 'gengeo'])
        N = [rvec(rng, 5) for _ in range(rng.randint(4, 12))]
        E = [tuple(rng.sample(range(len(N)), 3)) for _ in range(rng.randint(1, 10))]
        E = [e for e in E if ((N[e[1]] - N[e[0]]).cross(N[e[2]] - N[e[0]])).norm() > 1e-2] or [(0, 1, 2)]
        sh, sc, q = rng.choice([Vector3(0, 0, 0), rvec(rng, 3)]), rng.choice([1., rng.uniform(.1, 10)]), rng.choice([Quaternion((0, 1, 0), 0.), rquat(rng)])
        f = path('mesh'); kw = dict(mask=rng.choice([1, 5]), material='m0')
        w = lambda v: ' '.join(num(rng, x) for x in v)
        idq = Quaternion((0, 1, 0), 0.)
        with open(f, 'w') as o:
            if kind == 'gmsh':
                extra = rng.random() < .5
                o.write(' MeshVersionFormatted 2\n Dimension\n 3\n Vertices\n %d\n' % len(N) + ''.join(' %s %d\n' % (w(n), 3) for n in N))
                if extra: o.write(' Edges\n 1\n 1 2 4\n')
                o.write(' Triangles\n %d\n' % len(E) + ''.join(' %d %d %d %d\n' % (e[0] + 1, e[1] + 1, e[2] + 1, 7) for e in E))
                if extra: o.write(' Tetrahedra\n 0\n')
                o.write(' End\n')
            elif kind == 'unv':
                o.write('    -1\n  2411\n' + ''.join('%10d%10d%10d%10d\n   %s\n' % (k + 1, 1, 1, 11, w(n)) for k, n in enumerate(N)) + '    -1\n    -1\n  2412\n')
                k = 0
                for _ in range(rng.choice([0, 2])): k += 1; o.write('%10d%10d%10d%10d%10d%10d\n 0 1 1\n%10d%10d\n' % (k, 11, 2, 1, 7, 2, 1, 2))
                for e in E: k += 1; o.write('%10d%10d%10d%10d%10d%10d\n%10d%10d%10d\n' % (k, 41, 2, 1, 7, 3, e[0] + 1, e[1] + 1, e[2] + 1))
                o.write('    -1\n')
            elif kind == 'iges':
                o.write('head\n' + ''.join('134,%s,0,0;\n' % ','.join(num(rng, x) for x in n) for n in N) + ''.join('136,%d,3,%d,%d,%d,0;\n' % (1, 2 * e[0] + 1, 2 * e[1] + 1, 2 * e[2] + 1) for e in E))
            elif kind == 'stl':
                o.write('solid s\n' + ''.join('facet normal 0 0 1\n outer loop\n' + ''.join('  vertex %s\n' % w(N[x]) for x in e) + ' endloop\nendfacet\n' for e in E) + 'endsolid s\n')
            elif kind == 'gengeo':
                R = [rng.uniform(.1, 1) for _ in N]
                o.write('LSMGeometry 1.2\nBoundingBox 0 0 0 1 1 1\nPeriodicBoundaries 0 0 0\nDimension 3D\nBeginParticles\nSimple\n%d\n' % len(N) + ''.join('%s %s %d %d\n' % (w(n), num(rng, r), k, 0) for k, (n, r) in enumerate(zip(N, R))) + 'EndParticles\n')
            elif kind == 'ele':
                o.write('%d 3 0 0\n' % len(N) + ''.join('%d %s\n' % (k + 1, w(n)) for k, n in enumerate(N)))
        tol = 1e-6 * (10 * sc + sh.norm() + 1)
        if kind == 'gengeo':
            r = ymport.gengeoFile(f, shift=sh, scale=sc, orientation=q, **kw)
            chk(len(r) == len(N) and all((b.state.pos - (sh + sc * (q * n))).norm() < tol and near(b.shape.radius, sc * x) and b.mask == kw['mask'] for b, n, x in zip(r, N, R)), case, 'spheres of a gengeo file differ')
            obs(ctx, len(N), (kind, sc != 1)); return
        if kind == 'ele':
            T = [tuple(rng.sample(range(len(N)), 4)) for _ in range(rng.randint(1, 5))]
            T = [t for t in T if abs((N[t[1]] - N[t[0]]).cross(N[t[2]] - N[t[0]]).dot(N[t[3]] - N[t[0]])) > 1.]
            if not T: obs(ctx, 1, ('nothing',)); return
            with open(f + '.ele', 'w') as o: o.write('# c\n%d 4 0\n' % len(T) + ''.join('%d %s\n' % (k + 1, ' '.join(str(x + 1) for x in t)) for k, t in enumerate(T)))
            O.materials.append(PolyhedraMat(label='pm')); kw['material'] = 'pm'
            r = ymport.ele(f, f + '.ele', shift=sh, scale=sc, **kw)
            chk(len(r) == len(T), case, '%d tetrahedra of %d read' % (len(r), len(T)))
            for b, t in zip(r, T):
                got = [b.state.pos + b.state.ori * v for v in b.shape.v]
                exp = [sh + sc * N[x] for x in t]
                vol = abs((exp[1] - exp[0]).cross(exp[2] - exp[0]).dot(exp[3] - exp[0])) / 6
                chk(len(got) == 4 and all(any((a - c).norm() < 10 * tol for c in got) for a in exp) and near(b.state.mass, vol * b.material.density, 1e-4) and b.mask == kw['mask'], case, 'a tetrahedron read from .ele differs')
            obs(ctx, len(T), (kind, sc != 1)); return
        if kind == 'stl':
            r = ymport.stl(f, material='m0'); sh, sc, q = Vector3(0, 0, 0), 1., idq
        elif kind == 'gmsh': r = ymport.gmsh(f, shift=sh, scale=sc, orientation=q, **kw)
        else:
            q = idq
            fun = getattr(ymport, kind)
            if rng.random() < .5:
                r, nodes, el = fun(f, shift=sh, scale=sc, returnConnectivityTable=True, **kw)
                chk(len(nodes) == len(N) and all((Vector3(*a) - (sh + sc * n)).norm() < tol for a, n in zip(nodes, N)) and [tuple(e) for e in el] == E, case, 'nodes or elements of a %s file differ' % kind)
            else: r = fun(f, shift=sh, scale=sc, **kw)
        chk(len(r) == len(E), case, '%d facets of %d read from a %s file' % (len(r), len(E), kind))
        for b, e in zip(r, E):
            got = [b.state.pos + b.state.ori * v for v in b.shape.vertices]
            exp = [sh + q * (sc * N[x]) for x in e]
            chk(all((a - c).norm() < tol * (5 if kind == 'stl' else 1) for a, c in zip(got, exp)) and (kind == 'stl' or b.mask == kw['mask']), case, 'vertices of a facet read from a %s file differ: %s / %s' % (kind, [tuple(x) for x in got], [tuple(x) for x in exp]))
        obs(ctx, len(E), (kind, sc != 1, sh.norm() > 0))
    go(ctx)


def nn(x):
    return isinstance(x, float) and math.isnan(x)


def plotdata(ctx):
    @each(ctx.args['n'])
    def go(ctx, case):
        rng = case.rng
        fresh()
        plot.reset()
        names = ['a', 'b', 'c', 'F', 'sig', 'unbalanced force']
        R, cols, hist = [], set(), []
        shared = {}
        SUF = plot.componentSuffixes
        for step in range(rng.randint(1, 25)):
            op = rng.choice(['add'] * 8 + ['dict', 'cols', 'split', 'reverse', 'auto', 'reset', 'resetdata'])
            hist.append(op)
            if op in ('add', 'dict'):
                row, given = {}, {}
                for n in rng.sample(names, rng.randint(0, 4)):
                    v = rng.choice([rng.uniform(-1e5, 1e5), rng.randint(-5, 5), 'v', 'm', 'w'])
                    if v == 'v':
                        v = rvec(rng); row.update({n + '_' + 'xyz'[k]: v[k] for k in range(3)})
                    elif v == 'w':
                        v = Vector2(rng.random(), 3); row.update({n + '_' + 'xy'[k]: v[k] for k in range(2)})
                    elif v == 'm':
                        v = Matrix3(*[rng.random() for _ in range(9)]); row.update({n + '_' + 'xyz'[i] + 'xyz'[j]: v[i, j] for i in range(3) for j in range(3)})
                    else: row[n] = v
                    given[n] = v
                if op == 'add' and all(' ' not in n for n in given): plot.addData(**given)
                elif rng.random() < .5:
                    # a dictionary that the script keeps and passes again, with other keywords
                    keep = {n: given[n] for n in list(given)[:1]}
                    snap = dict(keep)
                    plot.addData(keep, **{n: v for n, v in given.items() if n not in keep})
                    chk(keep == snap, case, 'addData changed the dictionary passed to it: %r became %r' % (snap, keep))
                else: plot.addData(dict(given))
                cols |= set(row); R.append(row)
                if not cols: R = []
            elif op == 'cols':
                new = rng.sample(names, 2)
                plot.addDataColumns(new)
                cols |= set(new)
            elif op == 'split':
                plot.splitData(); R.append({})
                if not cols: R = []
            elif op == 'reverse': plot.reverseData(); R.reverse()
            elif op == 'auto':
                plot.plots = {'i=O.iter': ('p1=7*O.iter+1', ('q', 'r-'), {'e1': 5.5}), 'O.time': ('t2=O.dt', None, 'bad=1/0')}
                q = rng.random()
                plot.plots = {'i=O.iter': (('p1=7*O.iter+1', 'r-'), {'e%d' % rng.randint(1, 3): 5.5}), 'O.time': ('t2=O.dt', None, 'bad=1/0')}
                e = dict(plot.plots['i=O.iter'][1])
                import io, contextlib
                with contextlib.redirect_stdout(io.StringIO()): plot.addAutoData()
                row = {'i': O.iter, 'p1': 7 * O.iter + 1, 'O.time': O.time, 't2': O.dt}; row.update(e)
                cols |= set(row); R.append(row)
                if not O.engines: O.engines = [ForceResetter()]
                O.dt = rng.random()
                O.step()
            elif op == 'reset':
                plot.imgData['x'] = ['1']; plot.labels['x'] = 'y'
                plot.reset(); R, cols = [], set()
                chk(not plot.data and not plot.plots and not plot.imgData and not plot.labels, case, 'reset left data %r plots %r images %r labels %r' % (plot.data, plot.plots, plot.imgData, plot.labels))
            else: plot.resetData(); R, cols = [], set()
            chk(set(plot.data) == cols, case, 'after %r the columns are %r, expected %r' % (hist[-6:], sorted(plot.data), sorted(cols)))
            for c in cols & set(plot.data):
                got, exp = plot.data[c], [r.get(c, float('nan')) for r in R]
                chk(len(got) == len(exp) and all(g == e or (nn(g) and nn(e)) for g, e in zip(got, exp)), case, 'after %r column %s reads %r, recorded %r' % (hist[-6:], c, got, exp))
        if cols and R:
            f = path('d.txt')
            vs = None if rng.random() < .5 else rng.sample(sorted(cols), rng.randint(1, len(cols)))
            hd = rng.choice([None, {'k': 3}])
            plot.saveDataTxt(f, vars=vs, **(dict(headers=hd) if hd else {}))
            names2 = vs or sorted(cols)
            L = open(f).read().split('\n')
            L = L[len(hd or {}):]
            chk(L[0][2:].split('\t\t') == list(names2), case, 'saveDataTxt: head %r, expected %r' % (L[0], names2))
            D = [l.split('\t') for l in L[1:] if l]
            chk(len(D) == len(R) and all(len(r) == len(names2) and all((float(x) == g.get(c, float('nan'))) or (math.isnan(float(x)) and nn(g.get(c, float('nan')))) for x, c in zip(r, names2)) for r, g in zip(D, R)), case, 'saveDataTxt wrote other values than recorded')
        obs(ctx, len(hist), tuple(sorted(set(hist))))
        plot.reset()
    go(ctx)


def convert(ctx):
    @each(ctx.args['n'])
    def go(ctx, case):
        rng = case.rng
        scene(rng, ('sphere',), n=rng.randint(1, 20))
        S = bodies(Sphere)
        if not S: obs(ctx, 1, ('nothing',)); return
        attrs = rng.choice([['b.id'], ['b.state.vel[0]', 'b.mask'], []])
        f, g = path('in.txt'), path('out.vtk')
        export.textExt(f, format='x_y_z_r_attrs', comment=' '.join('c%d' % k for k in range(len(attrs))) or 'none'[:0] or ' ', attrs=attrs)
        if rng.random() < .5:
            export.text2vtk(f, g)
            d = readvtk(ctx, case, g, 'text2vtk')
            if d is None: return
            chk(len(d['points']) == len(S), case, 'text2vtk wrote %d of %d spheres' % (len(d['points']), len(S)))
            for k, b in enumerate(S[:len(d['points'])]):
                chk(close_all(d['points'][k], list(b.state.pos)) and near(d['point']['radius'][k][0], b.shape.radius), case, 'text2vtk: sphere %d differs' % b.id)
                for j, a in enumerate(attrs): chk(near(d['point']['c%d' % j][k][0], float(eval(a, dict(globals(), b=b)))), case, 'text2vtk: column %d of sphere %d differs' % (j, b.id))
            obs(ctx, len(S) + 1, ('text2vtk', len(attrs))); return
        c = rng.choice(S); n = rvec(rng)
        if n.norm() < .1: n = Vector3(0, 0, 1)
        p = c.state.pos + rvec(rng, c.shape.radius)
        export.text2vtkSection(f, g, p, n)
        u = n / n.norm()
        d = readvtk(ctx, case, g, 'text2vtkSection')
        if d is None: return
        rd = [(Vector3(*[gval(x) for x in b.state.pos]), gval(b.shape.radius), b) for b in S]
        eps = 1e-9 * max(x.norm() + r for x, r, _ in rd)
        cut = [(x, r, b, (x - p).dot(u)) for x, r, b in rd]
        if any(abs(abs(t) - r) < eps + 1e-6 * r for _, r, _, t in cut): obs(ctx, 1, ('edge',)); return
        cut = [q for q in cut if abs(q[3]) < q[1]]
        chk(len(d['points']) == len(cut), case, 'text2vtkSection wrote %d circles, the plane cuts %d spheres' % (len(d['points']), len(cut)))
        for k, (x, r, b, t) in enumerate(cut[:len(d['points'])]):
            pr = x - t * u
            chk(close_all(d['points'][k], list(pr), G, pr.norm()) and abs(d['point']['radius'][k][0] - math.sqrt(r * r - t * t)) < 1e-4 * r + 10 * eps and near(d['point']['radiusOrig'][k][0], r), case, 'text2vtkSection: circle of sphere %d differs' % b.id)
            chk(close_all(d['point']['normal'][k], list(u)), case, 'text2vtkSection: normal')
            for j, a in enumerate(attrs): chk(near(d['point']['c%d' % j][k][0], float(eval(a, dict(globals(), b=b)))), case, 'text2vtkSection: column %d of sphere %d reads %g' % (j, b.id, d['point']['c%d' % j][k][0]))
        obs(ctx, len(cut) + 1, ('section', len(attrs)))
    go(ctx)
