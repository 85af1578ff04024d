"""P22: attributes of every scriptable class hold what is assigned to them."""
import json, re
from common import *

RULE = ('For every class reachable from the scripting interface and every one of its attributes, random values of the declared type are assigned directly, by constructor keyword and by bulk update: '
        'the attribute must read back the value, every other attribute of the object and all attributes of a second object must keep theirs, dict() must report exactly the declared attributes with the current values. '
        'Unknown names and ill-typed values must raise and leave everything unchanged, read-only attributes must refuse assignment. '
        'Objects are then stored in a simulation, saved, altered and restored: all but the attributes declared as not saved must have the stored values. A new object must have the same attributes whatever the memory it is given held before.')
ASSUMPTIONS = ['Attributes whose assignment is documented to recompute other attributes of the same object are compared only for the attribute assigned.',
               'Plain Python assignment to a name that is not an attribute makes a Python attribute; only constructors and bulk updates reject unknown names.']

NOSAVE, READONLY, HIDDEN, POSTLOAD, NORESIZE = 1, 2, 4, 8, 16


def plan(tier):
    q = tier == 'quick'
    k = 4
    j = [dict(func='attributes', name='attributes-%d' % i, args=dict(n=2 if q else 20, part=i, parts=k), weight=3, timeout=600) for i in range(k)]
    j += [dict(func='saved', name='saved-%d' % i, args=dict(n=2 if q else 25, part=i, parts=2), weight=2, timeout=600) for i in range(2)]
    j += [dict(func='defaults')]
    j += [dict(func='custom', args=dict(n=60 if q else 1500))]
    return j


def declared(c):
    """name -> (C++ type, flags) of the attributes of a class."""
    out = {}
    for b in reversed(c.__mro__):
        for k, p in b.__dict__.items():
            d = getattr(p, '__doc__', None) or ''
            f = re.search(r':yattrflags:`(.*?)`', d)
            t = re.search(r':yattrtype:`(.*?)`', d)
            if f and t:
                out[k] = (re.sub(r'\s+', ' ', t.group(1)).strip(), int(f.group(1)))
    return out


_known = {}


def known(nm):
    """Attributes the class had when this monitor was written: scripts rely on their names, types and on which of them are saved."""
    if not _known:
        _known.update(json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'p22attrs.json'))))
    return _known.get(nm, {})


def rr(r):
    return r.choice((r.uniform(-5, 5), r.uniform(0, 1e6), -r.uniform(0, 1e-6), 0., 1., math.inf))


def rfin(r):
    return r.choice((r.uniform(-5, 5), r.uniform(0, 1e6), -r.uniform(0, 1e-6), 0., 1.))


def rstr(r):
    return ''.join(r.choice('abc XYZ_-.%<&>"\'/0123') for _ in range(r.randint(0, 12)))


def rse3(r):
    return (rvec(r, 5), rquat(r))


GEN = {}


def gens():
    if GEN:
        return GEN
    v = lambda g: (lambda r: [g(r) for _ in range(r.randint(0, 4))])
    ri = lambda r: r.randint(-1000, 1000)
    g = dict([('Real', rr), ('double', rr), ('bool', lambda r: r.random() < .5), ('int', ri), ('long', lambda r: r.randint(-2**40, 2**40)), ('Body::id_t', ri), ('unsigned int', lambda r: r.randint(0, 2**31)),
              ('size_t', lambda r: r.randint(0, 2**40)), ('short int', lambda r: r.randint(-30000, 30000)), ('mask_t', lambda r: r.randint(0, 2**20)), ('string', rstr),
              ('Vector3r', lambda r: rvec(r, 5)), ('Vector3i', lambda r: Vector3i(ri(r), ri(r), ri(r))), ('Vector2r', lambda r: Vector2(rfin(r), rfin(r))), ('Vector2i', lambda r: Vector2i(ri(r), ri(r))),
              ('Vector6r', lambda r: Vector6(*[rfin(r) for _ in range(6)])), ('Vector6i', lambda r: Vector6i(*[ri(r) for _ in range(6)])), ('Quaternionr', rquat),
              ('Matrix3r', lambda r: Matrix3(*[rfin(r) for _ in range(9)])), ('Se3r', rse3)])
    for t in ('double', 'Real', 'int', 'bool', 'string', 'Vector3r', 'Vector2r', 'Vector6r', 'Se3r', 'Body::id_t'):
        g['vector<%s>' % t] = v(g[t])
        g['std::vector<%s>' % t] = v(g[t])
    g['std::string'] = rstr
    GEN.update(g)
    return GEN


SHARED = {'shared_ptr<%s>' % n: n for n in ('Material', 'State', 'Shape', 'Bound', 'IGeom', 'IPhys')}


def same(a, b):
    """Equality of attribute values; objects by identity of class and content."""
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b)
    if isinstance(a, bool) or isinstance(b, bool):
        return bool(a) == bool(b)
    if type(a).__name__ != type(b).__name__ and not (isinstance(a, (list, tuple)) and isinstance(b, (list, tuple))):
        return a == b
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, Quaternion):
        return all(same(float(a[i]), float(b[i])) for i in range(4))
    if isinstance(a, Matrix3):
        return all(same(float(a[i, j]), float(b[i, j])) for i in range(3) for j in range(3))
    if isinstance(a, (Vector2, Vector3, Vector6, Vector2i, Vector3i, Vector6i)):
        return all(same(float(a[i]), float(b[i])) for i in range(len(a)))
    if hasattr(a, 'dict') and hasattr(b, 'dict'):
        return a == b or same(plain(a), plain(b))
    return a == b


def freeze(v):
    """A copy that does not follow later changes of the object."""
    if isinstance(v, (list, tuple)):
        return tuple(freeze(x) for x in v)
    if isinstance(v, dict):
        return {k: freeze(x) for k, x in v.items()}
    if isinstance(v, Quaternion):
        q = Quaternion(1, 0, 0, 0)
        for i in range(4):
            q[i] = v[i]
        return q
    if isinstance(v, (Vector2, Vector3, Vector6, Vector2i, Vector3i, Vector6i)):
        return type(v)(*[v[i] for i in range(len(v))])
    if isinstance(v, Matrix3):
        return Matrix3(*[v[i, j] for i in range(3) for j in range(3)])
    return v


def plain(o):
    return {k: freeze(v) for k, v in o.dict().items()}


def classes(base='Serializable'):
    out = []
    for nm in sorted(yade.system.childClasses(base)):
        c = getattr(yade.wrapper, nm, None)
        if c is not None:
            out.append((nm, c))
    return out


def diff(a, b, skip=()):
    return sorted(k for k in set(a) | set(b) if k not in skip and (k not in a or k not in b or not same(a[k], b[k])))


def make(c):
    try:
        return c()
    except Exception as e:
        if 'cannot be instantiated' in str(e) or 'No constructor' in str(e):
            return None
        raise


BAD = {'Real': 'x', 'double': 'x', 'int': 'x', 'bool': [1], 'string': 17, 'Vector3r': 'abc', 'vector<int>': 5, 'vector<Real>': 'ab', 'Quaternionr': 3, 'Matrix3r': 2.5, 'Vector6r': 1, 'long': 'x', 'Body::id_t': 'x', 'Vector2r': 3}

# attributes that the class itself normalises or checks when they are set
CHECKED = {('LawTester', 'ids')}


def attributes(ctx):
    part, parts = ctx.args.get('part', 0), ctx.args.get('parts', 1)
    cl = classes()[part::parts]
    for c in ctx.cases(len(cl)):
        nm, cls = cl[c.idx]
        ctx.guard(one_class, ctx, c, nm, cls, ctx.args['n'])


def one_class(ctx, c, nm, cls, n):
    r = c.rng
    o, other = make(cls), make(cls)
    if o is None:
        ctx.note('abstract'); ctx.observed()
        return
    decl = declared(cls)
    for k, (t, f) in known(nm).items():
        ctx.check(k in decl or hasattr(o, k), 'attribute %s of %s is gone' % (k, nm), '')
        if k in decl:
            ctx.check(not decl[k][1] & HIDDEN & ~f, 'attribute %s of %s is hidden' % (k, nm), '')
            decl[k] = (t, decl[k][1] & (f | ~READONLY))
    vis = {k for k, (t, f) in decl.items() if not f & HIDDEN}
    ctx.check(set(o.dict()) >= vis, 'dict of %s misses attributes' % nm, lambda: '%r' % sorted(vis - set(o.dict())))
    ctx.observed((nm, 'dict'))
    ctx.note('classes'); ctx.note('attributes', len(vis))
    g = gens()
    for k, v in o.dict().items():
        if k == 'blockedDOFs' and isinstance(o, State):
            continue  # an integer in the dictionary, letters in the property
        ctx.check(same(v, getattr(o, k)), 'dict of %s' % nm, lambda: '%s: dict %r, attribute %r' % (k, v, getattr(o, k)))
    # unknown names
    for how in ('ctor', 'update'):
        before = plain(o)
        try:
            cls(noSuchAttribute_=1) if how == 'ctor' else o.updateAttrs({'noSuchAttribute_': 1})
            ctx.violation('unknown name accepted by %s of %s' % (how, nm), '')
        except (AttributeError, TypeError, RuntimeError, ValueError):
            pass
        ctx.check(not diff(before, plain(o)), 'unknown name changes %s' % nm, lambda: '%r' % diff(before, plain(o)))
        ctx.observed((nm, how))
    for k in sorted(vis):
        t, f = decl[k]
        before, obefore = plain(o), plain(other)
        if f & READONLY:
            for val in ([g[t](r)] if t in g else []) + [before[k]]:
                try:
                    setattr(o, k, val)
                    ctx.violation('read-only %s.%s accepts assignment' % (nm, k), repr(val))
                except AttributeError:
                    pass
            ctx.check(not diff(before, plain(o)), 'refused assignment to %s.%s changes the object' % (nm, k), lambda: '%r' % diff(before, plain(o)))
            ctx.observed((nm, k, 'ro'))
            continue
        if t not in g:
            if t in SHARED:
                g2 = [x for x, _ in classes(SHARED[t])]
                val = getattr(yade.wrapper, r.choice(g2))()
                setattr(o, k, val)
                ctx.check(getattr(o, k) == val, '%s.%s does not keep the object assigned' % (nm, k), '')
                ctx.observed((nm, k, 'obj'))
            else:
                ctx.note('types without generator')
                ctx.sample('not generated: %s' % t) if False else None
            continue
        # ill-typed
        if t in BAD:
            try:
                setattr(o, k, BAD[t])
                ctx.violation('%s.%s accepts an ill-typed value' % (nm, k), '%s: %r' % (t, BAD[t]))
            except (TypeError, AttributeError):
                pass
            ctx.check(not diff(before, plain(o)), 'ill-typed assignment to %s.%s changes the object' % (nm, k), lambda: '%r' % diff(before, plain(o)))
            ctx.observed((nm, k, 'type'))
        for _ in range(n):
            for how in ('set', 'update', 'ctor'):
                val = g[t](r)
                fz = freeze(val)
                if how == 'ctor':
                    try:
                        p = cls(**{k: val})
                    except (RuntimeError, ValueError, TypeError) as e:
                        ctx.check((nm, k) in CHECKED or postload(nm), '%s(%s=...) raises' % (nm, k), lambda: '%r: %r' % (val, e))
                        continue
                    ctx.check(same(getattr(p, k), fz) or (nm, k) in CHECKED, '%s(%s=...) does not keep the value' % (nm, k), lambda: 'given %r, reads %r' % (fz, getattr(p, k)))
                    continue
                before = plain(o)
                try:
                    setattr(o, k, val) if how == 'set' else o.updateAttrs({k: val})
                except (RuntimeError, ValueError) as e:
                    ctx.check((nm, k) in CHECKED or (postload(nm) and (how == 'update' or f & POSTLOAD)), 'setting %s.%s raises' % (nm, k), lambda: '%r: %r' % (val, e))
                    o = make(cls)
                    continue
                after = plain(o)
                ctx.check(same(after[k], fz) or (nm, k) in CHECKED, '%s.%s does not keep the value' % (nm, k), lambda: '%s %r, reads %r' % (how, fz, after[k]))
                ctx.check(same(getattr(o, k), after[k]), 'dict of %s' % nm, lambda: '%s: %r %r' % (k, getattr(o, k), after[k]))
                if how == 'set' and not f & POSTLOAD or not postload(nm):
                    d = diff(before, after, (k,))
                    ctx.check(not d, 'setting %s.%s changes other attributes' % (nm, k), lambda: '%s: %r' % (how, {x: (before.get(x), after.get(x)) for x in d}))
                # the value given is copied: changing ours later does not reach the object
                if isinstance(val, list):
                    val.append(val[0] if val else None)
                    ctx.check(same(getattr(o, k), fz) or (nm, k) in CHECKED, '%s.%s follows the list it was given' % (nm, k), '')
                ctx.observed((nm, k, how))
        ctx.check(not diff(obefore, plain(other)), 'setting %s.%s changes another object' % (nm, k), lambda: '%r' % diff(obefore, plain(other)))
    ctx.mark('%d done %s' % (c.idx, nm))


# classes that recompute attributes, or check them together, when they are loaded or updated in bulk
POST = {'WireMat'}


def postload(nm):
    return nm in POST


def defaults(ctx):
    """A new object does not depend on what the memory held before."""
    import ctypes
    libc = ctypes.CDLL(None)
    cl = classes()
    for c in ctx.cases(len(cl)):
        nm, cls = cl[c.idx]
        ctx.guard(one_default, ctx, c, nm, cls, libc)


def one_default(ctx, c, nm, cls, libc):
    got = []
    for k in (0x11, 0x77, 0xc3):
        libc.mallopt(-6, k)  # M_PERTURB: freshly allocated memory is filled with a pattern
        o = make(cls)
        libc.mallopt(-6, 0)
        if o is None:
            ctx.observed()
            return
        got.append(plain(o))
    for g in got[1:]:
        d = diff(got[0], g, ('realLast',))
        ctx.check(not d, 'attributes of a new %s are not set' % nm, lambda: '%r' % {k: (got[0].get(k), g.get(k)) for k in d})
    for k, v in got[0].items():
        if isinstance(v, float) and k not in ('realLast',):
            ctx.check(not 0 < abs(v) < 1e-200, 'attribute %s of a new %s is not set' % (k, nm), repr(v))
    ctx.observed((nm, 'default'), n=len(got[0]) + 1)


def fill(ctx, r, o, cls, xml):
    """Random values for all attributes that take them; returns what was not possible."""
    g = gens()
    for k, (t, f) in sorted(declared(cls).items()):
        if f & HIDDEN or t not in g or (cls.__name__, k) in CHECKED or r.random() < .3 or k in ('label', 'ompThreads', 'dead', 'id', 'clumpId', 'iterBorn', 'timeBorn'):
            continue
        v = g[t](r)
        while xml and isinstance(v, float) and math.isinf(v):
            v = g[t](r)
        try:
            if f & READONLY:
                o.updateAttrs({k: v})
            else:
                setattr(o, k, v)
        except (TypeError, RuntimeError, ValueError) as e:
            ctx.note('not settable')


KINDS = ('Engine', 'Material', 'Shape', 'State', 'Bound', 'IGeom', 'IPhys', 'BoundFunctor', 'IGeomFunctor', 'IPhysFunctor', 'LawFunctor', 'Cell')


def saved(ctx):
    cl = [(kind, nm, cls) for kind in KINDS for nm, cls in (classes(kind) if kind != 'Cell' else [('Cell', Cell)])]
    cl = cl[ctx.args['part']::ctx.args['parts']]
    for c in ctx.cases(len(cl) * ctx.args['n']):
        kind, nm, cls = cl[c.idx % len(cl)]
        if nm in POST or nm in SKIP:
            continue
        ctx.guard(one_saved, ctx, c, kind, nm, cls)


# cannot be part of a simulation that is only saved and restored
SKIP = set()


def hold(kind, o):
    """Puts the object into the simulation; returns how to find it there again."""
    if kind == 'Engine':
        O.engines = [ForceResetter(), o]
        return lambda: O.engines[1]
    if kind == 'Cell':
        return lambda: O.cell
    if kind == 'Material':
        O.materials.append(o)
        return lambda: O.materials[0]
    if kind in ('Shape', 'State', 'Bound'):
        b = Body()
        setattr(b, kind.lower(), o)
        O.bodies.append(b)
        return lambda: getattr(O.bodies[0], kind.lower())
    if kind in ('IGeom', 'IPhys'):
        O.bodies.append(utils.sphere((0, 0, 0), 1)); O.bodies.append(utils.sphere((0, 0, 1.9), 1))
        O.engines = frict_engines()
        i = utils.createInteraction(0, 1)
        i.updateAttrs({kind[1:].lower(): o})
        return lambda: getattr(O.interactions[0, 1], kind[1:].lower())
    if kind == 'BoundFunctor':
        O.engines = [InsertionSortCollider([o])]
        return lambda: O.engines[0].boundDispatcher.functors[0]
    k = ('IGeomFunctor', 'IPhysFunctor', 'LawFunctor').index(kind)
    l = [[], [], []]
    l[k] = [o]
    O.engines = [InteractionLoop(*l)]
    return lambda: (O.engines[0].geomDispatcher, O.engines[0].physDispatcher, O.engines[0].lawDispatcher)[k].functors[0]


def one_saved(ctx, c, kind, nm, cls):
    r = c.rng
    fresh()
    if kind == 'Cell':
        O.periodic = True
        o = O.cell
    else:
        o = make(cls)
        if o is None:
            ctx.observed()
            return
    how = r.choice(('mem', 'mem', '.xml', '.yade.gz', '.yade'))
    default = plain(o)
    fill(ctx, r, o, cls, True)
    get = hold(kind, o)
    want = plain(get())
    decl = declared(cls)
    nosave = {k for k, (t, f) in decl.items() if f & NOSAVE and known(nm).get(k, (t, f))[1] & NOSAVE}
    if how == 'mem':
        O.saveTmp(quiet=True); O.reset(); O.loadTmp(quiet=True)
    else:
        fn = os.path.join(os.path.dirname(ctx.spec['out']), 'p22-%d%s' % (os.getpid(), how))
        O.save(fn, quiet=True)
        O.reset()
        O.load(fn, quiet=True)
        os.unlink(fn)
    got = get()
    ctx.check(type(got).__name__ == nm, 'a saved %s comes back as something else' % nm, type(got).__name__)
    got = plain(got)
    d = diff(want, got, nosave)
    ctx.check(not d, 'attributes of %s are lost in a saved simulation' % nm, lambda: '%s: %r' % (how, {k: (want.get(k), got.get(k)) for k in d}))
    ctx.observed((nm, how), n=len(want))
    ctx.note('saved as ' + how)
    ctx.note('values that differ from the default', len(diff(want, default)))


@each(100)
def custom(ctx, c):
    """Attributes with accessors of their own."""
    r = c.rng
    fresh()
    n = r.randint(2, 5)
    O.bodies.append([utils.sphere(rvec(r), r.uniform(.1, 1)) for _ in range(n)])
    F = {'state.pos': lambda: rvec(r, 9), 'state.ori': lambda: rquat(r), 'state.vel': lambda: rvec(r, 9), 'state.angVel': lambda: rvec(r, 9), 'state.angMom': lambda: rvec(r, 9), 'state.mass': lambda: r.uniform(0, 9),
         'state.inertia': lambda: rvec(r, 9), 'state.refPos': lambda: rvec(r), 'state.refOri': lambda: rquat(r), 'state.blockedDOFs': lambda: ''.join(x for x in 'xyzXYZ' if r.random() < .5), 'state.densityScaling': lambda: r.random(),
         'state.isDamped': lambda: r.random() < .5, 'mask': lambda: r.randint(0, 2**20), 'dynamic': lambda: r.random() < .5, 'bounded': lambda: r.random() < .5, 'aspherical': lambda: r.random() < .5, 'groupMask': lambda: r.randint(0, 99),
         'shape.radius': lambda: r.uniform(0, 9), 'shape.color': lambda: rvec(r), 'shape.wire': lambda: r.random() < .5, 'shape.highlight': lambda: r.random() < .5, 'state.se3': lambda: rse3(r),
         }
    AL = {'groupMask': 'mask', 'state.se3': 'state.pos state.ori'}
    TIED = {'dynamic': ('state.blockedDOFs', 'state.vel', 'state.angVel'), 'state.blockedDOFs': ('dynamic',), 'state.pos': ('state.se3',), 'state.ori': ('state.se3',), 'state.se3': ('state.pos', 'state.ori'), 'mask': ('groupMask',), 'groupMask': ('mask',)}

    def get(i, k):
        o = O.bodies[i]
        for a in k.split('.'):
            o = getattr(o, a)
        return freeze(o)

    def put(i, k, v):
        o = O.bodies[i]
        p = k.split('.')
        for a in p[:-1]:
            o = getattr(o, a)
        setattr(o, p[-1], v)

    for step in range(25):
        i, k = r.randrange(n), r.choice(sorted(F))
        v = F[k]()
        before = {(j, q): get(j, q) for j in range(n) for q in F}
        put(i, k, v)
        got = get(i, k)
        if k in ('state.ori', 'state.se3', 'state.refOri'):
            qa, qb = (got, v) if k != 'state.se3' else (got[1], v[1])
            ok = all(abs(qa[x] - qb[x]) < 1e-15 for x in range(4)) and (k != 'state.se3' or same(got[0], v[0]))
        else:
            ok = same(got, v)
        ctx.check(ok, 'body attribute %s does not keep the value' % k, lambda: 'given %r, reads %r' % (v, got))
        for (j, q), x in before.items():
            if (j, q) == (i, k) or (j == i and q in TIED.get(k, ())):
                continue
            ctx.check(same(x, get(j, q)), 'setting body attribute %s changes %s of %s' % (k, q, 'the same body' if i == j else 'another body'), lambda: '%r -> %r' % (x, get(j, q)))
        ctx.observed((k,), n=len(before))
    for bad in (3, ['x'], 2.5):
        before = [get(0, k) for k in sorted(F)]
        try:
            O.bodies[0].state.blockedDOFs = bad
            ctx.violation('blockedDOFs accepts %r' % (bad,), get(0, 'state.blockedDOFs'))
        except (TypeError, ValueError, RuntimeError, AttributeError):
            pass
        ctx.check(same(before, [get(0, k) for k in sorted(F)]), 'refused blockedDOFs changes the body', '%r' % (bad,))
        ctx.observed(('bad', bad))
