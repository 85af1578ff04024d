"""Interactions and bodies: every view of the interaction set agrees through random histories."""
from common import *

RULE = ('a case is a random history of inserting and erasing bodies, creating and erasing interactions, stepping, clearing, saving and restoring; after every operation all views of the '
        'interaction set are compared with each other and with the set expected from the previous one; distinct = (operation, previous operation, thread count, size class)')
ASSUMPTIONS = ['bodies do not move: after a step the contacts are exactly the touching pairs (pairs within 1e-9 of touching are not generated)',
               'O.bodies.clear() is not used (documented to leave interactions)']


def plan(tier):
    k = 1 if tier == 'quick' else 10
    jobs = [dict(func='history', name='history-t%d' % th, threads=th, args=dict(n=60 * k)) for th in (1, 2, 4)]
    jobs += [dict(func='history', name='skin-t1', args=dict(n=60 * k, skin=1)), dict(func='moving', name='moving-t1', args=dict(n=20 * k)), dict(func='moving', name='moving-t4', threads=4, args=dict(n=20 * k))]
    return jobs


def pair(i, j):
    return (i, j) if i < j else (j, i)


def views(ctx, key, where):
    """All views agree with each other; returns (all pairs, real pairs)."""
    live = set(b.id for b in O.bodies)
    al = [pair(i.id1, i.id2) for i in O.interactions.all()]
    real = [pair(i.id1, i.id2) for i in O.interactions]
    ctx.observed(key, 8 + len(live))
    ctx.check(len(set(al)) == len(al), 'duplicate', lambda: '%s: pairs listed twice: %s' % (where, sorted(p for p in set(al) if al.count(p) > 1)))
    ctx.check(len(O.interactions) == len(al), 'length', lambda: '%s: len %d, enumerated %d' % (where, len(O.interactions), len(al)))
    ar = [pair(i.id1, i.id2) for i in O.interactions.all(True)]
    ctx.check(sorted(ar) == sorted(real), 'all-real', lambda: '%s: iteration %s, all(True) %s' % (where, sorted(real), sorted(ar)))
    flagged = [pair(i.id1, i.id2) for i in O.interactions.all() if i.isReal]
    ctx.check(sorted(flagged) == sorted(real), 'isReal', lambda: '%s: iteration %s, flagged %s' % (where, sorted(real), sorted(flagged)))
    ctx.check(O.interactions.countReal() == len(real), 'countReal', lambda: '%s: countReal %d, enumerated %d' % (where, O.interactions.countReal(), len(real)))
    for n in sorted(set((0, len(real) // 2, len(real) - 1))):
        if 0 <= n < len(real):
            i = O.interactions.nth(n)
            ctx.check(pair(i.id1, i.id2) == real[n], 'nth', lambda: '%s: nth(%d) is %s, enumeration has %s' % (where, n, (i.id1, i.id2), real[n]))
    per = dict((i, set()) for i in live)
    perall = dict((i, set()) for i in live)
    for i, j in real:
        ctx.check(i in live and j in live and i != j, 'joins-live', lambda: '%s: contact %d-%d joins a body that does not exist' % (where, i, j))
        per[i].add(j); per[j].add(i)
    for i, j in al:
        if i in live: perall[i].add(j)
        if j in live: perall[j].add(i)
    for b in O.bodies:
        mine = [(i.id2 if i.id1 == b.id else i.id1) for i in b.intrs()]
        ctx.check(len(set(mine)) == len(mine) and set(mine) == per[b.id], 'per-body', lambda: '%s: body %d lists %s, the global list %s' % (where, b.id, sorted(mine), sorted(per[b.id])))
        w = set((i.id2 if i.id1 == b.id else i.id1) for i in O.interactions.withBody(b.id))
        ctx.check(w == per[b.id], 'withBody', lambda: '%s: withBody(%d) %s, the global list %s' % (where, b.id, sorted(w), sorted(per[b.id])))
        w = set((i.id2 if i.id1 == b.id else i.id1) for i in O.interactions.withBodyAll(b.id))
        ctx.check(w == perall[b.id], 'withBodyAll', lambda: '%s: withBodyAll(%d) %s, the global list %s' % (where, b.id, sorted(w), sorted(perall[b.id])))
    sal = set(al)
    ll = sorted(live)
    look = al if len(al) < 60 else al[:30] + al[-30:]
    for i, j in look:
        if i in live and j in live:
            for a, b in ((i, j), (j, i)):
                ctx.check(O.interactions.has(a, b), 'has', lambda: '%s: has(%d,%d) is false for a listed pair' % (where, a, b))
                x = O.interactions[a, b]
                ctx.check(pair(x.id1, x.id2) == (i, j), 'lookup', lambda: '%s: [%d,%d] gave %d-%d' % (where, a, b, x.id1, x.id2))
    for n in range(0, len(ll) - 1, max(1, len(ll) // 12)):
        for m in range(n + 1, len(ll), max(1, len(ll) // 8)):
            p = (ll[n], ll[m])
            if p not in sal:
                ctx.check(not O.interactions.has(*p) and not O.interactions.has(p[1], p[0]), 'has-not', lambda: '%s: has%s is true for a pair that is not listed' % (where, p))
                try:
                    x = O.interactions[p[1], p[0]]
                except IndexError:
                    x = None
                ctx.check(x is None, 'lookup-not', lambda: '%s: lookup of %s gave an interaction that is not listed' % (where, p))
    return sal, set(real)


def hostile(ctx, rng, dead, where):
    n = len(O.bodies)
    bad = [-1, n, n + 7, -n - 3, 10**6] + list(dead)[:3]
    ok = [b.id for b in O.bodies]
    listed = set(pair(i.id1, i.id2) for i in O.interactions.all())   # potential ones with an erased body are listed until the next sort
    for _ in range(4):
        a = rng.choice(bad)
        b = rng.choice(ok + bad) if ok else rng.choice(bad)
        if rng.random() < .5:
            a, b = b, a
        if pair(a, b) in listed:
            continue
        ctx.observed(('hostile', a < 0, b < 0, a in dead, b in dead, a >= n, b >= n), 4)
        ctx.check(not O.interactions.has(a, b), 'has-invalid', lambda: '%s: has(%d,%d) is true' % (where, a, b))
        try:
            O.interactions[a, b]
            ctx.violation('lookup-invalid', '%s: [%d,%d] gave an interaction' % (where, a, b))
        except IndexError:
            pass
        O.interactions.erase(a, b)
        try:
            utils.createInteraction(a, b)
            ctx.violation('create-invalid', '%s: createInteraction(%d,%d) was accepted' % (where, a, b))
        except (RuntimeError, IndexError, ValueError):
            pass
    for x in (-1, len(O.interactions), 10**6):
        try:
            O.interactions.nth(x)
            ctx.violation('nth-invalid', '%s: nth(%d) accepted with %d interactions' % (where, x, len(O.interactions)))
        except IndexError:
            pass
    if ok:
        try:
            utils.createInteraction(ok[0], ok[0])
            ctx.violation('create-self', '%s: a body was made to interact with itself' % where)
        except (RuntimeError, IndexError, ValueError):
            pass


@each(20)
def history(ctx, c):
    rng = c.rng
    fresh()
    skin = ctx.args.get('skin') and rng.choice((.05, .2))
    size = rng.choice((2.5, 3.5, 5.0))
    O.engines = frict_engines(newton=NewtonIntegrator(dead=True), collider=InsertionSortCollider([Bo1_Sphere_Aabb()], verletDist=skin or 0, targetInterv=rng.choice((0, 5, 1000))))
    R = {}

    def newbody():
        while True:
            p, r = rvec(rng, size / 2), rng.uniform(.15, .6)
            if all(abs((p - O.bodies[i].state.pos).norm() - r - R[i]) > 1e-6 for i in R):
                break
        b = utils.sphere(p, r)
        b.state.blockedDOFs = 'xyzXYZ'
        return b, r

    def touching():
        l = sorted(R)
        P = dict((i, O.bodies[i].state.pos) for i in l)
        return set((i, j) for n, i in enumerate(l) for j in l[n + 1:] if (P[i] - P[j]).norm() < R[i] + R[j])

    for _ in range(rng.choice((2, 8, 25, 60))):
        b, r = newbody()
        R[O.bodies.append(b)] = r
    dead = set()
    recent = ['start']
    al, real = views(ctx, 'start', 'start')
    th = ctx.spec.get('threads', 1)
    for s in range(rng.randint(15, 50)):
        op = rng.choices(('append', 'erase', 'eraselow', 'reinsert', 'step', 'steps', 'ierase', 'create', 'nonreal', 'clear', 'reload', 'hostile'), (5, 4, 3, 4, 8, 2, 5, 4, 2, 1, 2, 2))[0]
        recent.append(op)
        where = 'after ' + ' '.join(recent[-14:])
        ctx.mark('%d %s' % (c.idx, ' '.join(recent[-25:])))
        expReal = set(real)
        gone = set()     # pairs that must not be listed at all afterwards
        loose = False
        if op == 'append':
            b, r = newbody()
            i = O.bodies.append(b)
            ctx.check(i == b.id and i not in R and i not in dead, 'append-id', '%s: id %d' % (where, i))
            R[i] = r
        elif op in ('erase', 'eraselow') and len(R) > 1:
            # prefer bodies with contacts; eraselow: those with the lower id in them
            cand = [p[0] if op == 'eraselow' else rng.choice(p) for p in real] or sorted(R)
            i = rng.choice(cand)
            ctx.check(O.bodies.erase(i), 'erase-answer', where)
            del R[i]; dead.add(i)
            expReal = set(p for p in real if i not in p)
        elif op == 'reinsert' and dead:
            i = rng.choice(sorted(dead))
            b, r = newbody()
            j = O.bodies.insertAtId(b, i)
            ctx.check(j == i and b.id == i, 'insertAtId', '%s: asked %d, got %d' % (where, i, j))
            dead.discard(i); R[i] = r
            gone = set(p for p in al if i in p)
        elif op in ('step', 'steps'):
            for _ in range(1 if op == 'step' else 7):
                O.step()
            expReal = touching()
        elif op == 'ierase' and al:
            p = rng.choice(sorted(al))
            if rng.random() < .5: p = (p[1], p[0])
            O.interactions.erase(*p)
            expReal = real - {pair(*p)}
        elif op == 'create' and len(R) > 1:
            i, j = rng.sample(sorted(R), 2)
            p = pair(i, j)
            if p in al:
                try:
                    utils.createInteraction(i, j)
                    ctx.violation('create-existing', '%s: an existing interaction was created again' % where)
                except RuntimeError:
                    pass
            else:
                x = utils.createInteraction(i, j)
                ctx.check(pair(x.id1, x.id2) == p and x.isReal, 'created', '%s: %d-%d' % (where, x.id1, x.id2))
                expReal.add(p)
        elif op == 'nonreal':
            O.interactions.eraseNonReal()
            gone = al - real
        elif op == 'clear':
            O.interactions.clear()
            expReal = set(); gone = set(al)
        elif op == 'reload':
            kind = rng.choice(('tmp', 'file'))
            if kind == 'tmp':
                O.saveTmp('x', quiet=True); O.loadTmp('x', quiet=True)
            else:
                f = os.path.join(os.getcwd(), 's.yade.bin')
                O.save(f, quiet=True); O.load(f, quiet=True)
        elif op == 'hostile':
            hostile(ctx, rng, dead, where)
        al2, real2 = views(ctx, (op, recent[-2], th, bool(skin), len(R).bit_length()), where)
        ctx.check(set(b.id for b in O.bodies) == set(R), 'bodies', lambda: '%s: bodies %s expected %s' % (where, [b.id for b in O.bodies], sorted(R)))
        ctx.check(real2 == expReal, 'contacts', lambda: '%s: contacts lost %s, unexpected %s' % (where, sorted(expReal - real2), sorted(real2 - expReal)))
        ctx.check(not (gone & al2), 'removed', lambda: '%s: still listed: %s' % (where, sorted(gone & al2)))
        if op in ('step', 'steps') and not skin:
            ctx.check(all(i in R and j in R for i, j in al2), 'unreal-with-dead', lambda: '%s: interactions of erased bodies survive a step: %s' % (where, sorted(p for p in al2 if p[0] not in R or p[1] not in R)))
        al, real = al2, real2
    ctx.note('contacts_seen', len(real))
    ctx.sample('history: ' + ' '.join(recent[:20]))


@each(10)
def moving(ctx, c):
    """A running gas of spheres: contacts form and end every step while bodies come and go."""
    rng = c.rng
    fresh()
    O.dt = 1e-3
    mats = O.materials.append(FrictMat(young=1e5, poisson=.3, frictionAngle=.4, density=1000))
    O.engines = frict_engines(newton=NewtonIntegrator(damping=0.1), collider=InsertionSortCollider([Bo1_Sphere_Aabb()], verletDist=rng.choice((0, .05, -.1)), targetInterv=rng.choice((0, 20))))
    N = rng.choice((30, 150))
    L = (N / 2.) ** (1 / 3.)

    def new():
        b = utils.sphere(rvec(rng, L / 2), rng.uniform(.2, .5))
        b.state.vel = rvec(rng, 3)
        return b
    for _ in range(N): O.bodies.append(new())
    ever = set()
    dead = []
    for s in range(60):
        O.step()
        ctx.mark('%d step %d' % (c.idx, s))
        al, real = views(ctx, ('moving', len(O.interactions).bit_length(), s % 5), 'step %d' % s)
        ever |= real
        r = rng.random()
        if r < .2:
            i = rng.choice([b.id for b in O.bodies])
            O.bodies.erase(i); dead.append(i)
            views(ctx, 'erase-moving', 'erase %d at step %d' % (i, s))
        elif r < .3 and dead:
            O.bodies.insertAtId(new(), dead.pop(rng.randrange(len(dead))))
            views(ctx, 'reinsert-moving', 'reinsert at step %d' % s)
        elif r < .4:
            O.bodies.append(new())
    ctx.note('pairs_seen', len(ever))
